//go:build race

package main

import "runtime"

const raceBuild = true

//go:norace
func raceErrors() int { return runtime.RaceErrors() }
