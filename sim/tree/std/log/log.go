// Package log discards messages and ends the simulated process where the real one would.
package log

import (
	"fmt"

	"github.com/ti-mo/comfo/zsim/rt"
)

func Print(a ...any)            {}
func Println(a ...any)          {}
func Printf(f string, a ...any) {}
func Fatal(a ...any)            { rt.Exit(1) }
func Fatalln(a ...any)          { rt.Exit(1) }
func Fatalf(f string, a ...any) { rt.Exit(1) }
func Panic(a ...any)            { panic(fmt.Sprint(a...)) }
func Panicln(a ...any)          { panic(fmt.Sprintln(a...)) }
func Panicf(f string, a ...any) { panic(fmt.Sprintf(f, a...)) }
