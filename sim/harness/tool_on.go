//go:build tool

package main

import "simverif/tool"

const toolPresent = tool.Present

func toolMain() { tool.Main() }
