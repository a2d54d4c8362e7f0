//go:build go1.25

package signal

import (
	"os"

	"github.com/gostor/gotgt/zsim/rt"
)

// Notify registers the channel with the simulated process.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if rt.S == nil || rt.Dying() {
		return
	}
	p := rt.Cur().Proc
	p.Signal = func(s os.Signal) {
		for _, x := range sig {
			if x == s {
				rt.ChPut(c, s)
				return
			}
		}
	}
}
func Stop(chan<- os.Signal) {}
func Ignore(...os.Signal)   {}
func Reset(...os.Signal)    {}
