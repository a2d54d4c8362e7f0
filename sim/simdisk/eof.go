//go:build go1.25

package simdisk

import "io"

var errEOF = io.EOF
