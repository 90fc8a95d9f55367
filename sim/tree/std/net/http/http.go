// Package http is a simulated HTTP server front: requests come from the simulation and are handled by the program's
// own handlers, under the connection semantics of the real server (write deadline, panics, shutdown).
package http

import (
	"bytes"
	gocontext "context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	real "net/http"
	"os"
	"strconv"
	"strings"
	"time"

	"github.com/ti-mo/comfo/zsim/link"
	"github.com/ti-mo/comfo/zsim/rt"
	simcontext "github.com/ti-mo/comfo/zsim/std/context"
	simnet "github.com/ti-mo/comfo/zsim/std/net"
)

// Server mirrors http.Server.
type Server struct {
	Addr                         string
	Handler                      real.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	TLSNextProto                 map[string]func(*Server, *tls.Conn, real.Handler)
	ConnState                    func(net.Conn, real.ConnState)
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) gocontext.Context
	ConnContext                  func(ctx gocontext.Context, c net.Conn) gocontext.Context
	HTTP2                        *real.HTTP2Config
	Protocols                    *real.Protocols

	proc    *rt.Proc
	addr    string
	serving bool
	closing bool
	active  int
	stopQ   rt.WaitQ
	idleQ   rt.WaitQ
	onShut  []func()
	handled int
}

// DefaultServeMux belongs to one run.
var DefaultServeMux = real.NewServeMux()

// ZsimReset starts a new run.
func ZsimReset() { DefaultServeMux = real.NewServeMux() }

func Handle(pattern string, h real.Handler) { DefaultServeMux.Handle(pattern, h) }
func HandleFunc(pattern string, h func(real.ResponseWriter, *real.Request)) {
	DefaultServeMux.HandleFunc(pattern, h)
}

func ListenAndServe(addr string, h real.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

func Serve(l net.Listener, h real.Handler) error { return (&Server{Handler: h}).Serve(l) }

func (s *Server) ListenAndServe() error {
	if s.closing {
		return real.ErrServerClosed
	}
	a := s.Addr
	if a == "" {
		a = ":http"
	}
	l, err := simnet.Listen("tcp", a)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

func (s *Server) Serve(l net.Listener) error {
	w := rt.W
	sl, ok := l.(*simnet.SimListener)
	if !ok {
		return errors.New("zsim: unknown kind of listener")
	}
	if s.closing {
		return real.ErrServerClosed
	}
	if link.Net.Listening[sl.A] != nil {
		return errors.New("zsim: address already in use")
	}
	s.proc, s.addr, s.serving = w.CurProc(), sl.A, true
	link.Net.Listening[sl.A] = s
	w.Event("http", "listening on %s", sl.A)
	Listeners.WakeAll(w)
	for !s.closing {
		rt.Block(&s.stopQ, "accept")
	}
	delete(link.Net.Listening, sl.A)
	return real.ErrServerClosed
}

// Listeners is woken when a server starts to listen.
var Listeners rt.WaitQ

func (s *Server) RegisterOnShutdown(f func()) { s.onShut = append(s.onShut, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}
func (s *Server) Close() error                { s.stop(); return nil }
func (s *Server) stop() {
	s.closing = true
	if s.serving {
		delete(link.Net.Listening, s.addr)
	}
	for _, f := range s.onShut {
		rt.Go(f)
	}
	rt.WakeAll(&s.stopQ)
}

func (s *Server) Shutdown(ctx gocontext.Context) error {
	s.stop()
	for d := int64(1e6); s.active > 0; d = min(2*d, 5e8) {
		if err := ctx.Err(); err != nil {
			return err
		}
		rt.Sleep(d)
	}
	return nil
}

type recorder struct {
	srv      *Server
	hdr      real.Header
	sent     real.Header
	code     int
	body     bytes.Buffer
	flushed  int
	deadline int64
	failed   bool
	declared int // Content-Length of the response, -1 if it is not declared
	w        *rt.World
}

func (r *recorder) Header() real.Header { return r.hdr }
func (r *recorder) WriteHeader(code int) {
	if r.code == 0 {
		if code < 100 || code > 999 {
			panic(fmt.Sprintf("invalid WriteHeader code %v", code))
		}
		if code < 200 && code != real.StatusSwitchingProtocols {
			return
		}
		r.code = code
		r.sent = r.hdr.Clone()
		r.declared = -1
		if n, err := strconv.Atoi(r.sent.Get("Content-Length")); err == nil && n >= 0 {
			r.declared = n
		}
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	rt.Gosched()
	if r.code == 0 {
		r.WriteHeader(200)
	}
	if r.body.Len()+len(b) > 4096 {
		r.check()
	}
	if r.failed {
		return 0, os.ErrDeadlineExceeded
	}
	if len(b) > 0 && (r.code < 200 || r.code == 204 || r.code == 304) {
		return 0, real.ErrBodyNotAllowed
	}
	if r.declared >= 0 && r.body.Len()+len(b) > r.declared {
		return 0, real.ErrContentLength
	}
	return r.body.Write(b)
}
func (r *recorder) check() {
	if r.deadline != 0 && r.w.Now() >= r.deadline {
		r.failed = true
	}
}
func (r *recorder) Flush() { r.check(); r.flushed = r.body.Len() }
func (r *recorder) SetWriteDeadline(t time.Time) error {
	r.deadline = 0
	if !t.IsZero() {
		r.deadline = rt.MonoOf(t)
	}
	return nil
}
func (r *recorder) SetReadDeadline(t time.Time) error { return nil }

// TimeoutHandler mirrors http.TimeoutHandler.
func TimeoutHandler(h real.Handler, dt time.Duration, msg string) real.Handler {
	return &timeoutHandler{h, dt, msg}
}

type timeoutHandler struct {
	h   real.Handler
	dt  time.Duration
	msg string
}

type timeoutWriter struct {
	hdr  real.Header
	sent real.Header
	code int
	body bytes.Buffer
	err  error
}

func (t *timeoutWriter) Header() real.Header { return t.hdr }
func (t *timeoutWriter) WriteHeader(code int) {
	if t.err == nil && t.code == 0 {
		t.code, t.sent = code, t.hdr.Clone()
	}
}
func (t *timeoutWriter) Write(b []byte) (int, error) {
	rt.Gosched()
	if t.err != nil {
		return 0, t.err
	}
	t.WriteHeader(200)
	return t.body.Write(b)
}

func (h *timeoutHandler) ServeHTTP(rw real.ResponseWriter, r *real.Request) {
	w := rt.W
	ctx, cancel := simcontext.WithTimeout(r.Context(), h.dt)
	defer cancel()
	tw := &timeoutWriter{hdr: real.Header{}}
	var q rt.WaitQ
	var panicked any
	done := false
	simcontext.AfterFunc(ctx, func() { q.WakeAll(w) })
	rt.Go(func() {
		normal := false
		defer func() {
			if w.Reaping() {
				return
			}
			if !normal {
				panicked = recover()
			}
			done = true
			q.WakeAll(w)
		}()
		h.h.ServeHTTP(tw, r.WithContext(ctx))
		normal = true
	})
	for ctx.Err() == nil && !done { // done last: the other one is a scheduling point
		q.Wait(w, "handler with a timeout")
	}
	switch {
	case done && panicked != nil:
		panic(panicked)
	case done:
		if tw.code == 0 {
			tw.WriteHeader(200)
		}
		for k, v := range tw.sent {
			rw.Header()[k] = v
		}
		rw.WriteHeader(tw.code)
		_, _ = rw.Write(tw.body.Bytes())
	default:
		if tw.err = ctx.Err(); tw.err == gocontext.DeadlineExceeded {
			tw.err = real.ErrHandlerTimeout
		}
		rw.WriteHeader(real.StatusServiceUnavailable)
		if msg := h.msg; tw.err == real.ErrHandlerTimeout {
			if msg == "" {
				msg = "<html><head><title>Timeout</title></head><body><h1>Timeout</h1></body></html>"
			}
			_, _ = io.WriteString(rw, msg)
		}
	}
}

// Errors a client may see instead of a response.
var (
	ErrConnRefused = errors.New("connection refused")
	ErrDropped     = errors.New("EOF")
	ErrClientGone  = errors.New("client gave up")
)

// Outcome is what a client got.
type Outcome struct {
	Resp   *real.Response
	Err    error
	Began  int64 // when the handler started
	Reason string
}

// Upload is how a request body reaches the server: in pieces over a time, perhaps not to its end.
type Upload struct {
	Dur    int64
	Pieces int
	Cut    int // with Break: the connection breaks after this many bytes
	Break  bool
}

// uploadBody is the body as the server sees it.
type uploadBody struct {
	w        *rt.World
	data     []byte
	up       Upload
	start    int64
	deadline int64
	pos      int
	q        rt.WaitQ
	gone     func()
	late     func()
}

func (b *uploadBody) Close() error { return nil }
func (b *uploadBody) Read(p []byte) (int, error) {
	rt.Gosched()
	if len(p) == 0 {
		return 0, nil
	}
	if b.up.Break && b.pos >= b.up.Cut {
		b.wait(b.start + b.up.Dur)
		b.gone()
		return 0, io.ErrUnexpectedEOF
	}
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	k := int64(b.up.Pieces)
	size := (len(b.data) + b.up.Pieces - 1) / b.up.Pieces
	i := int64(b.pos / size)
	end := (b.pos/size + 1) * size
	if end > len(b.data) {
		end = len(b.data)
	}
	if b.up.Break && end > b.up.Cut {
		end = b.up.Cut
	}
	if !b.wait(b.start + b.up.Dur*i/k) {
		b.late()
		return 0, os.ErrDeadlineExceeded
	}
	n := copy(p, b.data[b.pos:end])
	b.pos += n
	return n, nil
}

func (b *uploadBody) wait(t int64) bool {
	if b.deadline != 0 && b.deadline < t {
		for b.w.Now() < b.deadline {
			b.q.WaitUntil(b.w, "request body", b.deadline)
		}
		return false
	}
	for b.w.Now() < t {
		b.q.WaitUntil(b.w, "request body", t)
	}
	return true
}

// Do sends one request from the running (harness) task and waits for its outcome. With giveUp > 0 the client
// disconnects after that long.
func Do(addr, meth, url string, hdr real.Header, body []byte, giveUp int64, up *Upload) *Outcome {
	w := rt.W
	srv, _ := link.Net.Listening[addr].(*Server)
	if srv == nil || srv.proc.Dead || srv.closing {
		return &Outcome{Err: ErrConnRefused}
	}
	base := gocontext.Background()
	ctx, cancel := simcontext.WithCancel(base)
	req, err := real.NewRequestWithContext(gocontext.WithValue(ctx, real.ServerContextKey, (*real.Server)(nil)), meth, url, io.NopCloser(bytes.NewReader(body)))
	if err != nil {
		return &Outcome{Err: err}
	}
	req.ContentLength = int64(len(body))
	if hdr.Get("Transfer-Encoding") == "chunked" {
		hdr = hdr.Clone()
		hdr.Del("Transfer-Encoding")
		req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
	}
	req.RequestURI = req.URL.RequestURI()
	if req.URL.Host != "" {
		req.Host = req.URL.Host
	}
	req.URL.Scheme, req.URL.Host = "", ""
	for k, v := range hdr {
		req.Header[k] = v
	}
	req.RemoteAddr = "192.0.2.7:50000"
	out := &Outcome{Began: w.Now()}
	done := false
	var q rt.WaitQ
	finish := func(o Outcome) {
		if !done {
			done = true
			o.Began = out.Began
			*out = o
			q.WakeAll(w)
		}
	}
	rec := &recorder{srv: srv, hdr: real.Header{}, w: w}
	if up != nil && len(body) > 0 {
		ub := &uploadBody{w: w, data: body, up: *up, start: w.Now(), late: cancel}
		if srv.ReadTimeout > 0 {
			ub.deadline = w.Now() + int64(srv.ReadTimeout)
		}
		ub.gone = func() {
			w.Event("fault", "client disconnects while sending")
			finish(Outcome{Err: ErrClientGone})
			cancel()
		}
		req.Body = ub
	}
	if srv.WriteTimeout > 0 {
		rec.deadline = w.Now() + int64(srv.WriteTimeout)
	}
	srv.active++
	srv.handled++
	dead := &deathWatch{finish: func() { finish(Outcome{Err: ErrDropped, Reason: "the process died"}) }}
	watch(srv.proc, dead)
	w.Spawn(srv.proc, "http "+strings.TrimPrefix(req.URL.Path, "/twirp/comfo.Comfo/"), func() {
		normal := false
		defer func() {
			if w.Reaping() {
				recover()
				return
			}
			if !normal {
				if e := recover(); e != nil {
					// net/http recovers, logs and drops the connection
					w.Event("http", "handler panicked: %v", e)
					srv.active--
					finish(Outcome{Err: ErrDropped, Reason: fmt.Sprintf("the handler panicked: %v", e)})
				}
			}
			cancel()
			if srv.active == 0 {
				srv.idleQ.WakeAll(w)
			}
		}()
		h := srv.Handler
		if h == nil {
			h = DefaultServeMux
		}
		h.ServeHTTP(rec, req)
		normal = true
		srv.active--
		if rec.code == 0 {
			rec.WriteHeader(200)
		}
		if rec.flushed < rec.body.Len() || rec.flushed == 0 {
			rec.check()
		}
		if rec.declared > rec.body.Len() && rec.code != 204 && rec.code != 304 {
			finish(Outcome{Err: ErrDropped, Reason: "the response is shorter than its Content-Length"})
			return
		}
		if rec.failed {
			finish(Outcome{Err: ErrDropped, Reason: "the response missed the server's write deadline"})
			return
		}
		resp := &real.Response{StatusCode: rec.code, Status: fmt.Sprintf("%d %s", rec.code, real.StatusText(rec.code)),
			Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: rec.sent,
			Body: io.NopCloser(bytes.NewReader(rec.body.Bytes())), ContentLength: int64(rec.body.Len()), Request: req}
		finish(Outcome{Resp: resp})
	})
	rt.Gosched()
	if giveUp > 0 {
		w.After(giveUp, func() {
			if !done {
				w.Event("fault", "client disconnects")
				finish(Outcome{Err: ErrClientGone})
				// the server notices the closed connection and cancels the request
				if !srv.proc.Dead {
					w.Spawn(srv.proc, "conn closed", func() { cancel() })
				}
			}
		})
	}
	for !done {
		q.Wait(w, "http response")
	}
	return out
}

type deathWatch struct{ finish func() }

func watch(p *rt.Proc, d *deathWatch) {
	prev := p.OnExit
	p.OnExit = func(code int) {
		if prev != nil {
			prev(code)
		}
		d.finish()
	}
}

// Serving reports whether a server listens on addr.
func Serving(addr string) bool {
	srv, _ := link.Net.Listening[addr].(*Server)
	return srv != nil && !srv.proc.Dead && !srv.closing
}

// Active is the number of requests being handled by the server that listens on addr.
func Active(addr string) int {
	srv, _ := link.Net.Listening[addr].(*Server)
	if srv == nil || srv.proc.Dead {
		return 0
	}
	return srv.active
}
