//go:build go1.25

package runtime

import "github.com/gostor/gotgt/zsim/rt"

func Gosched() { rt.Yield() }
func Goexit()  { rt.NotSupported("runtime.Goexit") }
