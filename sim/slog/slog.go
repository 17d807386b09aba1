// Package slog stands in for package log in the command line tool: it writes
// nowhere, and ending the process ends the simulated one.
package slog

import (
	"fmt"
	"io"
	"log"

	"simverif/sos"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

func Print(...any)          {}
func Printf(string, ...any) {}
func Println(...any)        {}
func SetFlags(int)          {}
func SetPrefix(string)      {}
func SetOutput(io.Writer)   {}
func Flags() int            { return 0 }
func Prefix() string        { return "" }
func Writer() io.Writer     { return io.Discard }
func Default() *Logger      { return log.New(io.Discard, "", 0) }

func New(io.Writer, string, int) *Logger { return Default() }

func Fatal(...any)              { sos.Exit(1) }
func Fatalf(string, ...any)     { sos.Exit(1) }
func Fatalln(...any)            { sos.Exit(1) }
func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)          { panic(fmt.Sprintln(v...)) }
