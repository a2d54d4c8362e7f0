//go:build go1.25

package sockets

import (
	"crypto/tls"
	"errors"
	"net"

	"github.com/gostor/gotgt/zsim/shim/http"
	simnet "github.com/gostor/gotgt/zsim/shim/net"
)

func NewTCPSocket(addr string, tlsConfig *tls.Config) (net.Listener, error) {
	return simnet.Listen("tcp", addr)
}

// ConfigureTransport prepares the client of the command line tool.
func ConfigureTransport(tr *http.Transport, proto, addr string) error {
	switch proto {
	case "unix", "npipe":
		return errors.New("simulator: " + proto + " sockets are not simulated")
	}
	tr.Dial = simnet.Dial
	return nil
}
