//go:build !tool

package main

const toolPresent = false

func toolMain() { panic("harness: built without the tool") }
