// Package os redirects process exit and standard output.
package os

import (
	real "os"

	"github.com/ti-mo/comfo/zsim/rt"
)

func Exit(code int) { rt.Exit(code) }

var null = func() *real.File {
	f, err := real.OpenFile(real.DevNull, real.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	return f
}()

var (
	Stdin  = null
	Stdout = null
	Stderr = null
)
