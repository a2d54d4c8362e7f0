//go:build go1.25

// Package fmt sends what is printed to the simulated standard output.
package fmt

import (
	real "fmt"

	"github.com/gostor/gotgt/zsim/shim/os"
)

func Print(a ...any) (int, error)                 { return real.Fprint(os.Stdout, a...) }
func Printf(format string, a ...any) (int, error) { return real.Fprintf(os.Stdout, format, a...) }
func Println(a ...any) (int, error)               { return real.Fprintln(os.Stdout, a...) }
