//go:build go1.23

// Package vlog stands in for package log in builds with the race detector:
// the lock inside package log would order what the program leaves unordered.
package vlog

import (
	"fmt"
	"io"
	"log"

	"github.com/go-air/gini/vsched"
)

type Logger = log.Logger

const (
	Ldate         = log.Ldate
	Ltime         = log.Ltime
	Lmicroseconds = log.Lmicroseconds
	Llongfile     = log.Llongfile
	Lshortfile    = log.Lshortfile
	LUTC          = log.LUTC
	Lmsgprefix    = log.Lmsgprefix
	LstdFlags     = log.LstdFlags
)

var (
	New       = log.New
	Default   = log.Default
	Writer    = log.Writer
	SetOutput = log.SetOutput
	SetPrefix = log.SetPrefix
	SetFlags  = log.SetFlags
	Prefix    = log.Prefix
	Flags     = log.Flags
	Output    = log.Output
	Fatal     = log.Fatal
	Fatalf    = log.Fatalf
	Fatalln   = log.Fatalln
)

func Panic(v ...any)            { panic(fmt.Sprint(v...)) }
func Panicf(f string, v ...any) { panic(fmt.Sprintf(f, v...)) }
func Panicln(v ...any)          { panic(fmt.Sprintln(v...)) }

func Print(v ...any) {
	if !vsched.Race {
		log.Print(v...)
	}
}

func Printf(f string, v ...any) {
	if !vsched.Race {
		log.Printf(f, v...)
	}
}

func Println(v ...any) {
	if !vsched.Race {
		log.Println(v...)
	}
}

var _ io.Writer
