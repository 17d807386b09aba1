// Command harness is the simulator: it drives the instrumented library through
// seeded histories and fault sequences and checks the properties.
package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(fs, os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(fs, os.Args[2:]))
	case "one":
		os.Exit(cmdOne(fs, os.Args[2:]))
	case "minimise":
		os.Exit(cmdMinimise(fs, os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(fs, os.Args[2:]))
	case "log":
		os.Exit(cmdLog(fs, os.Args[2:]))
	case "plan":
		os.Exit(cmdPlan(fs, os.Args[2:]))
	}
	usage()
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: harness run|worker|one|minimise|replay|log|plan ...")
	os.Exit(2)
}
