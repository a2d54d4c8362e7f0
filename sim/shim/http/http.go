//go:build go1.25

// Package http replaces the server side of net/http in the instrumented
// daemon; requests are parsed by the real library.
package http

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	real "net/http"
	"sort"
	"strings"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
	simnet "github.com/gostor/gotgt/zsim/shim/net"
)

// Server serves HTTP/1.1 over simulated connections.
type Server struct {
	Addr                         string
	Handler                      real.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context
	TLSNextProto                 map[string]func(*real.Server, *tls.Conn, real.Handler)
	ConnState                    func(net.Conn, real.ConnState)
	HTTP2                        *real.HTTP2Config
	Protocols                    *real.Protocols
	onShutdown                   []func()
	active                       int
	idle                         map[net.Conn]bool
	closed                       bool
	ls                           []net.Listener
	conns                        []net.Conn
}

func (s *Server) Serve(l net.Listener) error {
	s.ls = append(s.ls, l)
	for {
		c, err := l.Accept()
		if err != nil {
			if s.closed {
				return real.ErrServerClosed
			}
			var ne net.Error
			if errors.As(err, &ne) && ne.Temporary() {
				rt.Sleep(5_000_000)
				continue
			}
			return err
		}
		s.conns = append(s.conns, c)
		s.state(c, real.StateNew)
		rt.Go(0, func() { s.serve(c) })
	}
}

func (s *Server) Close() error {
	s.closed = true
	for _, l := range s.ls {
		l.Close()
	}
	for _, c := range s.conns {
		c.Close()
	}
	return nil
}

// Shutdown closes the listeners and idle connections and waits for the rest.
func (s *Server) Shutdown(ctx context.Context) error {
	s.closed = true
	for _, l := range s.ls {
		l.Close()
	}
	for _, f := range s.onShutdown {
		f := f
		rt.Go(0, f)
	}
	for {
		for _, c := range s.conns {
			if s.idle[c] {
				c.Close()
			}
		}
		if s.active == 0 {
			return nil
		}
		if err := ctx.Err(); err != nil {
			return err
		}
		rt.Sleep(5_000_000)
	}
}

func (s *Server) RegisterOnShutdown(f func()) { s.onShutdown = append(s.onShutdown, f) }

func (s *Server) ListenAndServe() error {
	if s.closed {
		return real.ErrServerClosed
	}
	addr := s.Addr
	if addr == "" {
		addr = ":80"
	}
	l, err := simnet.Listen("tcp", addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}
func (s *Server) ListenAndServeTLS(string, string) error {
	rt.NotSupported("http.Server.ListenAndServeTLS")
	return nil
}
func (s *Server) ServeTLS(net.Listener, string, string) error {
	rt.NotSupported("http.Server.ServeTLS")
	return nil
}

// Serve and ListenAndServe are the package's functions of the same name.
func Serve(l net.Listener, h real.Handler) error {
	return (&Server{Handler: h}).Serve(l)
}
func ListenAndServe(addr string, h real.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func (s *Server) state(c net.Conn, st real.ConnState) {
	if s.idle == nil {
		s.idle = map[net.Conn]bool{}
	}
	switch st {
	case real.StateNew, real.StateIdle:
		s.idle[c] = true
	default:
		delete(s.idle, c)
	}
	if s.ConnState != nil {
		s.ConnState(c, st)
	}
}
func (s *Server) SetKeepAlivesEnabled(bool) {}

type response struct {
	h     real.Header
	code  int
	b     bytes.Buffer
	wrote bool
	c     net.Conn
}

func (r *response) Header() real.Header { return r.h }
func (r *response) WriteHeader(c int) {
	rt.Y(0)
	if !r.wrote {
		r.wrote, r.code = true, c
	}
}
func (r *response) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	return r.b.Write(b)
}
func (r *response) Flush()                              {}
func (r *response) FlushError() error                   { return nil }
func (r *response) WriteString(s string) (int, error)   { return r.Write([]byte(s)) }
func (r *response) SetReadDeadline(t time.Time) error   { return r.c.SetReadDeadline(t) }
func (r *response) SetWriteDeadline(t time.Time) error  { return r.c.SetWriteDeadline(t) }
func (r *response) EnableFullDuplex() error             { return nil }
func (r *response) ReadFrom(x io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{r}, x) }

func (s *Server) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.state(c, real.StateClosed)
	}()
	br := bufio.NewReader(c)
	for {
		req, err := real.ReadRequest(br)
		if err != nil {
			if err != io.EOF {
				io.WriteString(c, "HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request")
			}
			return
		}
		req.RemoteAddr = c.RemoteAddr().String()
		ctx := context.Background()
		if s.ConnContext != nil {
			ctx = s.ConnContext(ctx, c)
		}
		req = req.WithContext(ctx)
		w := &response{h: real.Header{}, c: c}
		s.state(c, real.StateActive)
		s.active++
		ok := s.handle(w, req)
		s.active--
		if !ok {
			return
		}
		io.Copy(io.Discard, req.Body)
		if !w.wrote {
			w.code = 200
		}
		var b bytes.Buffer
		fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", w.code, real.StatusText(w.code))
		var ks []string
		for k := range w.h {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			for _, v := range w.h[k] {
				fmt.Fprintf(&b, "%s: %s\r\n", k, v)
			}
		}
		if w.h.Get("Content-Length") == "" {
			fmt.Fprintf(&b, "Content-Length: %d\r\n", w.b.Len())
		}
		b.WriteString("\r\n")
		if req.Method != "HEAD" {
			b.Write(w.b.Bytes())
		}
		if _, err := c.Write(b.Bytes()); err != nil {
			return
		}
		if req.Close || s.closed || strings.EqualFold(w.h.Get("Connection"), "close") {
			return
		}
		s.state(c, real.StateIdle)
	}
}

// handle recovers panics of handlers, as net/http does.
func (s *Server) handle(w *response, req *real.Request) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if rt.S != nil {
				rt.S.HandlerPanics = append(rt.S.HandlerPanics, fmt.Sprint(r))
			}
			ok = false
		}
	}()
	h := s.Handler
	if h == nil {
		h = real.DefaultServeMux
	}
	h.ServeHTTP(w, req)
	return true
}
