// Package zzverif holds the specification intrinsics. The verifier interprets them; natively they drive the replay.
package zzverif

import (
	"fmt"
	"reflect"
)

// Skip is the panic value of a violated precondition during a native run.
type Skip struct{}

// Exited is the panic value that stands for the end of the process in a native run.
type Exited struct{ Code int }

func Exit(code int)                        { panic(Exited{code}) }
func Fatal(args ...interface{})            { panic(Exited{1}) }
func Fatalln(args ...interface{})          { panic(Exited{1}) }
func Fatalf(f string, args ...interface{}) { panic(Exited{1}) }

// Failed collects the names of the postconditions that did not hold in a native run.
var Failed []string

// Detail describes the last failure of a native run.
var Detail string

// Seed is the seed of the current native run (bounded checks draw from it).
var Seed int64

// Beats counts the inputs that a bounded check has dealt with (a sign of life), Input is the current one.
var Beats int64
var Input string

func Beat(input string) { Beats, Input = Beats+1, input }

func Requires(b bool) {
	if !b {
		panic(Skip{})
	}
}

// Keeps states what holds at the start of every iteration of a lockstep loop: established on entry, preserved by the body.
func Keeps(b bool) {}

func Ensures(name string, b bool) {
	if !b {
		Failed = append(Failed, name)
	}
}

// Fail records a failure with its details (bounded checks only).
func Fail(name string, format string, args ...interface{}) {
	Failed = append(Failed, name)
	Detail = fmt.Sprintf(format, args...)
}

func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

func Implies(a, b bool) bool { return !a || b }
