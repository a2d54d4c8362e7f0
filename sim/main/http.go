//go:build go1.25

package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strings"
)

// httpCall performs one request on the management API.
func (w *World) httpCall(host, method, path, ctype, body string) (int, []byte, error) {
	c, err := w.N.Dial(host, apiPort)
	if err != nil {
		return 0, nil, err
	}
	defer c.Close()
	over := false
	tm := w.S.After(hangAfter, func() { over = true; c.Abort() })
	defer tm.Stop()
	q := fmt.Sprintf("%s %s HTTP/1.1\r\nHost: target\r\nConnection: close\r\n", method, path)
	if body != "" || method == "POST" {
		q += fmt.Sprintf("Content-Length: %d\r\n", len(body))
	}
	if ctype != "" {
		q += "Content-Type: " + ctype + "\r\n"
	}
	if _, err := c.Write([]byte(q + "\r\n" + body)); err != nil {
		return 0, nil, err
	}
	raw, err := io.ReadAll(c)
	if over {
		return 0, nil, fmt.Errorf("no answer within %d s", hangAfter/1e9)
	}
	if err != nil {
		return 0, nil, err
	}
	r, err := http.ReadResponse(bufio.NewReader(bytes.NewReader(raw)), nil)
	if err != nil {
		return 0, nil, fmt.Errorf("malformed answer: %v", err)
	}
	b, err := io.ReadAll(r.Body)
	if err != nil {
		return 0, nil, fmt.Errorf("malformed answer: %v", err)
	}
	return r.StatusCode, b, nil
}

// listing is one target as the management API shows it.
type listing struct {
	Name    string `json:"name"`
	TID     int    `json:"tid"`
	ITNexus map[string]struct {
		ID  string `json:"id"`
		Tag string `json:"Tag"`
	} `json:"itnexus"`
}

// targetList asks for the targets and checks the form of the answer.
func (w *World) targetList(host string) []listing {
	code, b, err := w.httpCall(host, "GET", "/target/list", "", "")
	if w.down || w.daemon.Dead || w.S.Deadlock {
		return nil
	}
	if err != nil || code != 200 {
		w.fail("mgmt", "the target listing failed: status %d, %v", code, err)
		return nil
	}
	var l []listing
	if err := json.Unmarshal(b, &l); err != nil {
		w.fail("mgmt", "the target listing is not well-formed: %v", err)
		return nil
	}
	w.cover("target_list")
	return l
}

// nexusName is how the listing shows the session of an initiator port.
func nexusName(name string, isid uint64, target string, tpgt int) string {
	return fmt.Sprintf("%si0x%12x,%st%d", name, isid, target, tpgt)
}

// nexuses are the session names of one target's entry.
func (l *listing) nexuses() map[string]int {
	out := map[string]int{}
	for _, n := range l.ITNexus {
		out[strings.TrimSpace(n.Tag)]++
	}
	return out
}
