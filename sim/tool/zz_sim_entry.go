// Package tool is the command line tool: the build overlays its sources here.
package tool

// Main runs the tool.
func Main() { panic("harness: no tool") }

// Present tells that there is one.
const Present = false
