// Package fmt discards what is printed to standard output.
package fmt

import real "fmt"

func Print(a ...any) (int, error)            { return len(real.Sprint(a...)), nil }
func Println(a ...any) (int, error)          { return len(real.Sprintln(a...)), nil }
func Printf(f string, a ...any) (int, error) { return len(real.Sprintf(f, a...)), nil }
