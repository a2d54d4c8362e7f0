//go:build go1.25

package http

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"io"
	"net"
	real "net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gostor/gotgt/zsim/rt"
	simnet "github.com/gostor/gotgt/zsim/shim/net"
)

// Transport makes one simulated connection per request; requests are written
// and answers parsed by the real library.
type Transport struct {
	Proxy                  func(*real.Request) (*url.URL, error)
	OnProxyConnectResponse func(ctx context.Context, proxyURL *url.URL, connectReq *real.Request, connectRes *real.Response) error
	DialContext            func(ctx context.Context, network, addr string) (net.Conn, error)
	Dial                   func(network, addr string) (net.Conn, error)
	DialTLSContext         func(ctx context.Context, network, addr string) (net.Conn, error)
	DialTLS                func(network, addr string) (net.Conn, error)
	TLSClientConfig        *tls.Config
	TLSHandshakeTimeout    time.Duration
	DisableKeepAlives      bool
	DisableCompression     bool
	MaxIdleConns           int
	MaxIdleConnsPerHost    int
	MaxConnsPerHost        int
	IdleConnTimeout        time.Duration
	ResponseHeaderTimeout  time.Duration
	ExpectContinueTimeout  time.Duration
	TLSNextProto           map[string]func(authority string, c *tls.Conn) real.RoundTripper
	ProxyConnectHeader     real.Header
	GetProxyConnectHeader  func(ctx context.Context, proxyURL *url.URL, target string) (real.Header, error)
	MaxResponseHeaderBytes int64
	WriteBufferSize        int
	ReadBufferSize         int
	ForceAttemptHTTP2      bool
	HTTP2                  *real.HTTP2Config
	Protocols              *real.Protocols
	under                  map[*real.Request]net.Conn
}

var DefaultTransport real.RoundTripper = &Transport{}
var DefaultClient = &Client{}

func (t *Transport) Clone() *Transport {
	return &Transport{DialContext: t.DialContext, Dial: t.Dial, TLSClientConfig: t.TLSClientConfig, ResponseHeaderTimeout: t.ResponseHeaderTimeout}
}
func (t *Transport) CloseIdleConnections()                      {}
func (t *Transport) RegisterProtocol(string, real.RoundTripper) {}
func ProxyFromEnvironment(*real.Request) (*url.URL, error)      { return nil, nil }
func ProxyURL(u *url.URL) func(*real.Request) (*url.URL, error) {
	return func(*real.Request) (*url.URL, error) { return u, nil }
}

// CancelRequest breaks the connection of a request.
func (t *Transport) CancelRequest(req *real.Request) {
	rt.Y(0)
	if c := t.under[req]; c != nil {
		c.Close()
	}
}

// watched is an answer's body; the connection ends with it.
type watched struct {
	io.ReadCloser
	err  func(error) error
	over func()
}

func (b *watched) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err != nil {
		err = b.err(err)
		b.over()
	}
	return n, err
}

func (b *watched) Close() error { b.over(); return nil }

func (t *Transport) RoundTrip(req *real.Request) (*real.Response, error) {
	rt.Y(0)
	if req.URL == nil || req.URL.Host == "" {
		return nil, errors.New("http: no Host in request URL")
	}
	if req.URL.Scheme != "http" {
		return nil, errors.New("unsupported protocol scheme " + req.URL.Scheme)
	}
	ctx := req.Context()
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	addr := req.URL.Host
	if req.URL.Port() == "" {
		addr += ":80"
	}
	var c net.Conn
	var err error
	switch {
	case t.DialContext != nil:
		c, err = t.DialContext(ctx, "tcp", addr)
	case t.Dial != nil:
		c, err = t.Dial("tcp", addr)
	default:
		c, err = simnet.Dial("tcp", addr)
	}
	if err != nil {
		return nil, err
	}
	if t.under == nil {
		t.under = map[*real.Request]net.Conn{}
	}
	t.under[req] = c
	if d, ok := ctx.Deadline(); ok {
		c.SetDeadline(d)
	}
	var why error
	stop := make(chan struct{})
	done := ctx.Done()
	cancel := req.Cancel
	if done != nil || cancel != nil {
		rt.Go(0, func() {
			a, b := rt.SelRecv(done), rt.SelRecv(cancel)
			switch rt.Select(false, a, b, rt.SelRecv[struct{}](stop)) {
			case 0:
				why = ctx.Err()
				c.Close()
			case 1:
				why = errors.New("net/http: request canceled")
				c.Close()
			}
		})
	}
	ended := false
	over := func() {
		if !ended {
			ended = true
			delete(t.under, req)
			c.Close()
			rt.Close(stop)
		}
	}
	because := func(err error) error {
		if why != nil && err != io.EOF {
			return why
		}
		return err
	}
	var b bytes.Buffer
	if err := req.Write(&b); err != nil {
		over()
		return nil, because(err)
	}
	_, werr := c.Write(b.Bytes())
	br := bufio.NewReader(c)
	for {
		resp, err := real.ReadResponse(br, req)
		if err != nil {
			over()
			if werr != nil {
				err = werr
			}
			if why != nil {
				err = why
			}
			return nil, err
		}
		if resp.StatusCode/100 == 1 {
			continue
		}
		resp.Body = &watched{resp.Body, because, over}
		if req.Method == "HEAD" || resp.ContentLength == 0 {
			over()
			resp.Body = real.NoBody
		}
		return resp, nil
	}
}

// Client sends requests and follows redirections.
type Client struct {
	Transport     real.RoundTripper
	CheckRedirect func(req *real.Request, via []*real.Request) error
	Jar           real.CookieJar
	Timeout       time.Duration
}

func (c *Client) CloseIdleConnections() {}

func (c *Client) Do(req *real.Request) (*real.Response, error) {
	tr := c.Transport
	if tr == nil {
		tr = DefaultTransport
	}
	op := req.Method
	if op == "" {
		op = "GET"
	}
	op = op[:1] + strings.ToLower(op[1:])
	if req.URL == nil {
		return nil, &url.Error{Op: op, Err: errors.New("http: nil Request.URL")}
	}
	if c.Timeout > 0 {
		if _, ok := req.Context().Deadline(); !ok {
			r := req.WithContext(&until{req.Context(), rt.Clock().Add(c.Timeout)})
			r.Cancel = req.Cancel
			req = r
		}
	}
	var via []*real.Request
	for {
		resp, err := tr.RoundTrip(req)
		if err != nil {
			return nil, &url.Error{Op: op, URL: req.URL.String(), Err: err}
		}
		switch resp.StatusCode {
		case 301, 302, 303, 307, 308:
		default:
			return resp, nil
		}
		loc := resp.Header.Get("Location")
		if loc == "" {
			if resp.StatusCode == 307 || resp.StatusCode == 308 {
				return resp, nil
			}
			resp.Body.Close()
			return nil, &url.Error{Op: op, URL: req.URL.String(), Err: errors.New("301 response missing Location header")}
		}
		if resp.StatusCode >= 307 && req.Body != nil && req.GetBody == nil {
			return resp, nil
		}
		resp.Body.Close()
		u, err := req.URL.Parse(loc)
		if err != nil {
			return nil, &url.Error{Op: op, URL: req.URL.String(), Err: err}
		}
		m := req.Method
		if resp.StatusCode < 307 && m != "HEAD" {
			m = "GET"
		}
		via = append(via, req)
		n, err := real.NewRequestWithContext(req.Context(), m, u.String(), nil)
		if err != nil {
			return nil, &url.Error{Op: op, URL: u.String(), Err: err}
		}
		n.Header, n.Cancel = req.Header.Clone(), req.Cancel
		if resp.StatusCode >= 307 && req.GetBody != nil {
			n.Body, _ = req.GetBody()
			n.ContentLength, n.GetBody = req.ContentLength, req.GetBody
		}
		if c.CheckRedirect != nil {
			if err := c.CheckRedirect(n, via); err != nil {
				return resp, &url.Error{Op: op, URL: u.String(), Err: err}
			}
		} else if len(via) >= 10 {
			return nil, &url.Error{Op: op, URL: u.String(), Err: errors.New("stopped after 10 redirects")}
		}
		req = n
	}
}

// until adds a deadline to a context.
type until struct {
	context.Context
	t time.Time
}

func (u *until) Deadline() (time.Time, bool) { return u.t, true }

func (c *Client) Get(u string) (*real.Response, error) {
	req, err := real.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) Head(u string) (*real.Response, error) {
	req, err := real.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) Post(u, ctype string, body io.Reader) (*real.Response, error) {
	req, err := real.NewRequest("POST", u, body)
	if err != nil {
		return nil, err
	}
	req.Header.Set("Content-Type", ctype)
	return c.Do(req)
}
func (c *Client) PostForm(u string, data url.Values) (*real.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(data.Encode()))
}
func Get(u string) (*real.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*real.Response, error) { return DefaultClient.Head(u) }
func Post(u, ctype string, body io.Reader) (*real.Response, error) {
	return DefaultClient.Post(u, ctype, body)
}
func PostForm(u string, data url.Values) (*real.Response, error) {
	return DefaultClient.PostForm(u, data)
}
