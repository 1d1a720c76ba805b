// Package vhttp stands in for net/http: requests of the program go to a
// handler of the harness, and no socket is ever opened.
package vhttp

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/browles/drip/zzv/rt/vs"
)

// Reply is what the virtual web answers.
type Reply struct {
	Status  int
	Body    []byte
	Err     error // transport error
	BodyErr error // error in the middle of the body
	Hang    bool  // never answers
	Delay   time.Duration
}

// OnRequest answers the requests of the execution.
var OnRequest func(req *http.Request) Reply

// Bodies counts bodies handed out and closed.
var Bodies, Closed int

func Reset() { OnRequest, Bodies, Closed = nil, 0, 0 }

type body struct {
	r      *bytes.Reader
	err    error
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.err != nil {
		err = b.err
	}
	return n, err
}
func (b *body) Close() error {
	if !b.closed {
		b.closed = true
		Closed++
	}
	return nil
}

type never struct{ d <-chan struct{} }

func do(req *http.Request, timeout time.Duration) (*http.Response, error) {
	vs.Point("http")
	fail := func(err error) error {
		m := req.Method
		if m == "" {
			m = "GET"
		}
		return &url.Error{Op: m[:1] + strings.ToLower(m[1:]), URL: req.URL.String(), Err: err}
	}
	if req.URL == nil || req.URL.Host == "" {
		return nil, fail(errors.New("http: no Host in request URL"))
	}
	if req.URL.Scheme != "http" && req.URL.Scheme != "https" {
		return nil, fail(errors.New("unsupported protocol scheme \"" + req.URL.Scheme + "\""))
	}
	if err := req.Context().Err(); err != nil {
		return nil, fail(err)
	}
	if OnRequest == nil {
		return nil, fail(errors.New("connection refused"))
	}
	r := OnRequest(req)
	wait := r.Delay
	if r.Hang {
		wait = 1 << 60
	}
	if wait > 0 {
		if !sleepCtx(req.Context(), wait, timeout) {
			if err := req.Context().Err(); err != nil {
				return nil, fail(err)
			}
			return nil, fail(context.DeadlineExceeded)
		}
	}
	if r.Err != nil {
		return nil, fail(r.Err)
	}
	if r.Status == 0 {
		r.Status = 200
	}
	Bodies++
	return &http.Response{Status: http.StatusText(r.Status), StatusCode: r.Status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: &body{r: bytes.NewReader(r.Body), err: r.BodyErr}, ContentLength: int64(len(r.Body)), Request: req}, nil
}

type wake struct {
	fired bool
	ctx   context.Context
}

func (w *wake) Fire()         { w.fired = true }
func (w *wake) Enabled() bool { return w.fired || w.ctx.Err() != nil }

// sleepCtx waits d; false if the timeout or the context came first.
func sleepCtx(ctx context.Context, d, timeout time.Duration) bool {
	ok := true
	if timeout > 0 && timeout < d {
		d, ok = timeout, false
	}
	w := &wake{ctx: ctx}
	t := &vs.Timer{Fire: w}
	if d < 1<<59 {
		t.Arm(vs.NowNano() + int64(d))
	}
	vs.Yield(w, "http.wait")
	t.Disarm()
	if !w.fired {
		return false
	}
	return ok
}

type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func (c *Client) Do(req *http.Request) (*http.Response, error) { return do(req, c.Timeout) }
func (c *Client) Get(u string) (*http.Response, error) {
	req, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) Head(u string) (*http.Response, error) {
	req, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(req)
}
func (c *Client) CloseIdleConnections() {}

func Get(u string) (*http.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }
