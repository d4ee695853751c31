// Package simhttp replaces the parts of package net/http that talk to the
// network: a simulated HTTP network between nodes, with faults.
package simhttp

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/url"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"vsim/rt"
	"vsim/simcontext"
)

type Fault int

const (
	None       Fault = iota
	Refused          // nothing listens: connection refused
	Reset            // connection reset before the server saw the request
	ResetAfter       // the server handled the request, its answer is lost
	Status5xx        // a proxy answers 503
	Garbage          // 200 with a body that is not what the protocol says
	Truncate         // the connection ends in the middle of the body
	SlowHead         // the answer takes seconds
	SlowBody         // the body trickles in
	Hang             // no answer, ever
	BodyHang         // headers and half a body, then nothing
	Status4xx
	StatusData // the status says that it failed, the body is that of a good answer
	NFaults
)

var FaultNames = [NFaults]string{"none", "refused", "reset", "reset_after", "5xx", "garbage", "truncate", "slow_head", "slow_body", "hang", "body_hang", "4xx", "status_with_data"}

// Body is one response body handed to client code.
type Body struct {
	Node   *rt.Node
	URL    string
	Len    int
	Closed bool
	Ended  bool  // read to EOF or to an error
	Err    error // the error it ended with, if any
	EndAt  int64
	data   []byte
	off    int
	endErr error
	slow   int64
	hang   bool
	dl     int64 // simulated deadline, 0 = none
	ctx    context.Context
}

// Leaked tells whether the connection under this body was never given back.
func (b *Body) Leaked() bool { return b.Len > 0 && !b.Closed && !b.Ended }

// Call is one request as the network saw it.
type Call struct {
	From   *rt.Node
	Method string
	URL    string
	Fault  Fault
	Status int // 0: no answer
	Err    error
	Start  int64
	End    int64
	Req    *http.Request
	Body   []byte // of the request
	Resp   *Body
}

type listener struct {
	node    *rt.Node
	handler http.Handler
	active  int
	closeC  chan struct{}
	key     string
	ext     bool
}

type Net struct {
	s         *rt.Sim
	listeners map[string]*listener
	Policy    func(from *rt.Node, req *http.Request, target string) Fault
	Latency   func(target string) int64
	Bodies    []*Body
	Calls     []*Call
	Panics    []string
	pend      []*pending
	Partition map[string]bool // "a|b": requests from node a to host b hang
}

type result struct {
	resp *http.Response
	err  error
}

type pending struct {
	lst  *listener
	resc chan result
}

func Of(s *rt.Sim) *Net {
	n, _ := s.Ext["http"].(*Net)
	if n == nil {
		n = &Net{s: s, listeners: map[string]*listener{}, Partition: map[string]bool{}}
		s.Ext["http"] = n
		s.OnCrash = append(s.OnCrash, n.crashed)
	}
	return n
}

func (n *Net) crashed(nd *rt.Node) {
	for k, l := range n.listeners {
		if l.node == nd {
			delete(n.listeners, k)
		}
	}
	for _, p := range n.pend {
		if p.lst != nil && p.lst.node == nd {
			rt.TrySendSched(n.s, p.resc, result{err: opErr("read", syscall.ECONNRESET)})
		}
	}
}

// Serve installs a handler of the environment (an outside service).
func (n *Net) Serve(host, port string, h http.Handler) {
	n.listeners[host+":"+port] = &listener{node: n.s.Node(host), handler: h, key: host + ":" + port, ext: true}
}

// Listening tells whether something accepts connections at host:port.
func (n *Net) Listening(host, port string) bool {
	l := n.listeners[host+":"+port]
	return l != nil && !l.node.Down
}

func (n *Net) lookup(key string) *listener {
	l := n.listeners[key]
	if l != nil && l.node.Down {
		return nil
	}
	return l
}

var notServed = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
	rt.Park("accept queue of a listener nobody serves")
})

func hostKey(cur *rt.Node, u *url.URL) string {
	h, p := u.Hostname(), u.Port()
	if h == "" || h == "localhost" || h == "127.0.0.1" || h == "::1" {
		h = cur.Name
	}
	if p == "" {
		p = "80"
		if u.Scheme == "https" {
			p = "443"
		}
	}
	return h + ":" + p
}

func opErr(op string, e syscall.Errno) error {
	call := op
	if op == "dial" {
		call = "connect"
	}
	return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError(call, e)}
}

type timeoutErr struct{ m string }

func (e *timeoutErr) Error() string   { return e.m }
func (e *timeoutErr) Timeout() bool   { return true }
func (e *timeoutErr) Temporary() bool { return true }
func (e *timeoutErr) Is(t error) bool { return t == context.DeadlineExceeded }

// ---- client ----

type Client struct {
	Transport     http.RoundTripper
	CheckRedirect func(req *http.Request, via []*http.Request) error
	Jar           http.CookieJar
	Timeout       time.Duration
}

var DefaultClient = &Client{}

func Get(u string) (*http.Response, error)  { return DefaultClient.Get(u) }
func Head(u string) (*http.Response, error) { return DefaultClient.Head(u) }
func Post(u, ct string, b io.Reader) (*http.Response, error) {
	return DefaultClient.Post(u, ct, b)
}
func PostForm(u string, v url.Values) (*http.Response, error) { return DefaultClient.PostForm(u, v) }

func (c *Client) CloseIdleConnections() {}

func (c *Client) Get(u string) (*http.Response, error) {
	r, err := http.NewRequest("GET", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) Head(u string) (*http.Response, error) {
	r, err := http.NewRequest("HEAD", u, nil)
	if err != nil {
		return nil, err
	}
	return c.Do(r)
}
func (c *Client) Post(u, ct string, b io.Reader) (*http.Response, error) {
	r, err := http.NewRequest("POST", u, b)
	if err != nil {
		return nil, err
	}
	r.Header.Set("Content-Type", ct)
	return c.Do(r)
}
func (c *Client) PostForm(u string, v url.Values) (*http.Response, error) {
	return c.Post(u, "application/x-www-form-urlencoded", strings.NewReader(v.Encode()))
}

func (c *Client) Do(req *http.Request) (*http.Response, error) {
	rt.Y()
	s := rt.S
	if s == nil || s.Cur() == nil {
		return nil, errors.New("vsim: HTTP outside a simulation")
	}
	var hdrTimeout int64
	if c.Transport != nil {
		if t, ok := c.Transport.(*http.Transport); ok {
			hdrTimeout = int64(t.ResponseHeaderTimeout)
		} else {
			return c.Transport.RoundTrip(req)
		}
	}
	n := Of(s)
	from := s.CurNode()
	fail := func(err error) (*http.Response, error) {
		op := req.Method
		if op == "" {
			op = "GET"
		}
		return nil, &url.Error{Op: op[:1] + strings.ToLower(op[1:]), URL: req.URL.String(), Err: err}
	}
	if req.URL == nil || req.URL.Host == "" {
		return fail(errors.New("http: no Host in request URL"))
	}
	var body []byte
	if req.Body != nil {
		var err error
		body, err = io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return fail(err)
		}
		if req.ContentLength > 0 && int64(len(body)) != req.ContentLength {
			return fail(fmt.Errorf("http: ContentLength=%d with Body length %d", req.ContentLength, len(body)))
		}
	}
	key := hostKey(from, req.URL)
	f := None
	if n.Policy != nil {
		f = n.Policy(from, req, key)
	}
	host := key[:strings.LastIndex(key, ":")]
	if n.Partition[from.Name+"|"+host] {
		f = Hang
		s.Count("fault.http.partition", 1)
	} else if f != None {
		s.Count("fault.http."+FaultNames[f], 1)
	}
	call := &Call{From: from, Method: req.Method, URL: req.URL.String(), Fault: f, Start: s.Now(), Req: req, Body: body}
	n.Calls = append(n.Calls, call)
	s.Event("http %s %s %s", from.Name, req.Method, FaultNames[f])

	p := &pending{resc: make(chan result, 4)}
	n.pend = append(n.pend, p)
	defer func() {
		for i, q := range n.pend {
			if q == p {
				n.pend = append(n.pend[:i], n.pend[i+1:]...)
				break
			}
		}
	}()
	lat := func() int64 {
		if n.Latency != nil {
			if d := n.Latency(key); d > 0 {
				return d
			}
		}
		return int64(1+s.Choose(4, rt.KFault)) * 500_000
	}
	var dl int64
	if c.Timeout > 0 {
		dl = s.Now() + int64(c.Timeout)
	}
	send := func(r result, d int64) {
		s.After(nil, d, func() { rt.TrySendSched(s, p.resc, r) })
	}
	mkResp := func(code int, h http.Header, data []byte) *http.Response {
		b := &Body{Node: from, URL: req.URL.String(), Len: len(data), data: data, dl: dl, ctx: req.Context()}
		switch f {
		case Truncate:
			if len(data) > 0 && !s.Chance(1, 8, rt.KFault) {
				b.data = data[:s.Choose(len(data), rt.KFault)]
			}
			b.endErr = io.ErrUnexpectedEOF
		case BodyHang:
			b.data = data[:len(data)/2]
			b.hang = true
		case SlowBody:
			b.slow = int64(200+s.Choose(1500, rt.KFault)) * 1e6
		}
		if req.Method == "HEAD" {
			b.Len, b.data = 0, nil
		}
		var rb io.ReadCloser = b
		return &http.Response{Status: fmt.Sprintf("%d %s", code, http.StatusText(code)), StatusCode: code, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: h, Body: rb, ContentLength: int64(len(data)), Request: req}
	}
	switch f {
	case Refused:
		send(result{err: opErr("dial", syscall.ECONNREFUSED)}, lat())
	case Reset:
		send(result{err: opErr("read", syscall.ECONNRESET)}, lat())
	case Status5xx:
		send(result{resp: mkResp(503, http.Header{}, []byte("<html><body>503 upstream 100% gone</body></html>"))}, lat())
	case Status4xx:
		send(result{resp: mkResp(401, http.Header{}, []byte("{\"errors\":{\"request\":[\"Authorization Required\"]}}"))}, lat())
	case Garbage:
		gs := []string{"", "null", "[]", "{", "{\"aggregations\": 3}", "\x00\xff\xfe%s%d", "OK\n", "<html>it works</html>", "{\"interval_duration\":\"x\"}", "{}", "{\"interval_duration\":60000000000,\"aggregations\":[null]}", "{\"interval_duration\":-1}"}
		send(result{resp: mkResp(200, http.Header{}, []byte(gs[s.Choose(len(gs), rt.KFault)]))}, lat())
	case Hang:
	default:
		s.After(nil, lat(), func() {
			l := n.lookup(key)
			if l == nil {
				send(result{err: opErr("dial", syscall.ECONNREFUSED)}, lat())
				return
			}
			p.lst = l
			n.serve(l, req, body, func(code int, h http.Header, data []byte, aborted bool) {
				if aborted {
					send(result{err: io.EOF}, lat())
					return
				}
				if f == ResetAfter {
					send(result{err: opErr("read", syscall.ECONNRESET)}, lat())
					return
				}
				d := lat()
				if f == StatusData {
					code = []int{503, 500, 404, 429, 502}[s.Choose(5, rt.KFault)]
					if s.Chance(1, 2, rt.KFault) {
						// from an instance that should not be asked
						data = bytes.Replace(data, []byte(`"instance_id": "`), []byte(`"instance_id": "old`), 1)
						data = bytes.Replace(data, []byte(`"instance_id":"`), []byte(`"instance_id":"old`), 1)
					}
				}
				if f == SlowHead {
					d += int64(500+s.Choose(6000, rt.KFault)) * 1e6
				}
				send(result{resp: mkResp(code, h, data)}, d)
			})
		})
	}
	var timeC chan struct{}
	if dl > 0 || hdrTimeout > 0 {
		timeC = make(chan struct{}, 1)
		d := int64(c.Timeout)
		if d == 0 || hdrTimeout > 0 && hdrTimeout < d {
			d = hdrTimeout
		}
		tm := s.After(nil, d, func() { rt.TrySendSched(s, timeC, struct{}{}) })
		defer func() {
			if !s.Aborting() {
				s.Stop(tm)
			}
		}()
	}
	rc := rt.RecvCase((<-chan result)(p.resc))
	i := rt.Select(false, rc, rt.RecvCase((<-chan struct{})(timeC)), rt.RecvCase(req.Context().Done()))
	call.End = s.Now()
	switch i {
	case 1:
		call.Err = &timeoutErr{"context deadline exceeded (Client.Timeout exceeded while awaiting headers)"}
		return fail(call.Err)
	case 2:
		call.Err = req.Context().Err()
		return fail(call.Err)
	}
	r := rc.V
	if r.err != nil {
		call.Err = r.err
		return fail(r.err)
	}
	call.Status = r.resp.StatusCode
	if b, ok := r.resp.Body.(*Body); ok {
		n.Bodies = append(n.Bodies, b)
		call.Resp = b
	}
	return r.resp, nil
}

func (b *Body) Read(p []byte) (int, error) {
	rt.Y()
	s := rt.S
	if b.Closed {
		return 0, errors.New("http: read on closed response body")
	}
	if s == nil || s.Aborting() {
		return 0, io.EOF
	}
	timeout := func() (int, error) {
		return b.end(&timeoutErr{"context deadline exceeded (Client.Timeout or context cancellation while reading body)"})
	}
	if b.ctx != nil && b.ctx.Err() != nil {
		return b.end(b.ctx.Err())
	}
	if b.dl > 0 && s.Now() >= b.dl {
		return timeout()
	}
	wait := func(d int64) bool { // false: deadline or cancellation came first
		if b.dl > 0 && s.Now()+d >= b.dl {
			d = b.dl - s.Now()
		}
		tc := make(chan struct{}, 1)
		tm := s.After(nil, d, func() { rt.TrySendSched(s, tc, struct{}{}) })
		var cd <-chan struct{}
		if b.ctx != nil {
			cd = b.ctx.Done()
		}
		k := rt.Select(false, rt.RecvCase((<-chan struct{})(tc)), rt.RecvCase(cd))
		s.Stop(tm)
		return k == 0 && (b.dl == 0 || s.Now() < b.dl)
	}
	if b.slow > 0 && b.off < len(b.data) {
		if !wait(b.slow) {
			return timeout()
		}
	}
	if b.off >= len(b.data) {
		if b.hang {
			if b.dl == 0 && (b.ctx == nil || b.ctx.Done() == nil) {
				rt.Park("http body that never arrives")
			}
			wait(1 << 60)
			return timeout()
		}
		if b.endErr != nil {
			return b.end(b.endErr)
		}
		return b.end(io.EOF)
	}
	n := len(p)
	if n > 1 && n > len(b.data)-b.off {
		n = len(b.data) - b.off
	}
	if b.slow > 0 && n > len(b.data)/3+1 {
		n = len(b.data)/3 + 1
	} else if n > 1 && s.Chance(1, 4, rt.KFault) { // short read
		n = 1 + s.Choose(n, rt.KFault)
	}
	n = copy(p[:n], b.data[b.off:])
	b.off += n
	return n, nil
}

func (b *Body) end(err error) (int, error) {
	if !b.Ended {
		b.Ended = true
		b.EndAt = rt.S.Now()
		if err != io.EOF {
			b.Err = err
		}
	}
	return 0, err
}

// Data is what the body holds.
func (b *Body) Data() []byte { return b.data }

func (b *Body) Close() error {
	rt.Y()
	b.Closed = true
	return nil
}

// ---- server ----

type respWriter struct {
	h     http.Header
	code  int
	buf   bytes.Buffer
	final http.Header
}

func (w *respWriter) Header() http.Header { return w.h }
func (w *respWriter) WriteHeader(c int) {
	rt.Y()
	if w.code == 0 {
		w.code = c
		w.final = w.h.Clone()
	}
}
func (w *respWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.WriteHeader(200)
	}
	rt.Y()
	return w.buf.Write(b)
}
func (w *respWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w *respWriter) Flush()                            {}

func (n *Net) serve(l *listener, req *http.Request, body []byte, done func(code int, h http.Header, data []byte, aborted bool)) {
	s := n.s
	l.active++
	u := *req.URL
	run := func() {
		ctx, cancel := simcontext.WithCancel(context.Background())
		r, err := http.NewRequestWithContext(ctx, req.Method, u.RequestURI(), bytes.NewReader(body))
		if err != nil {
			l.active--
			done(400, http.Header{}, []byte("400 Bad Request"), false)
			return
		}
		r.RequestURI = u.RequestURI()
		r.Host = u.Host
		r.RemoteAddr = "10.0.0.1:50000"
		r.Header = req.Header.Clone()
		if r.Header == nil {
			r.Header = http.Header{}
		}
		w := &respWriter{h: http.Header{}}
		ok := false
		defer func() {
			if s.Aborting() {
				return
			}
			if !ok {
				if e := recover(); e != nil {
					st := string(debug.Stack())
					if rt.OwnsPanic(st) {
						l.active--
						panic(e)
					}
					n.Panics = append(n.Panics, fmt.Sprintf("%v at %s", e, rt.PanicSite(st)))
					s.Count("http.handler_panic", 1)
				}
			}
			l.active--
			cancel()
			if !ok {
				done(0, nil, nil, true)
				return
			}
			if w.code == 0 {
				w.code = 200
				w.final = w.h
			}
			done(w.code, w.final, append([]byte(nil), w.buf.Bytes()...), false)
		}()
		h := l.handler
		if h == nil {
			h = notServed
		}
		h.ServeHTTP(w, r)
		ok = true
	}
	if l.ext {
		s.GoOn(l.node, "ext:"+l.key, run)
	} else {
		s.GoSys(l.node, "serve:"+l.key, run)
	}
}

type Server struct {
	Addr              string
	Handler           http.Handler
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	ConnState         func(net.Conn, http.ConnState)
	BaseContext       func(net.Listener) context.Context

	// OnListen is for stubs of other servers: called when it listens.
	OnListen func()

	l      *listener
	closed bool
	onShut []func()
}

// Listener stands for a TCP listener; only Serve accepts from it.
type Listener struct {
	key    string
	node   *rt.Node
	closeC chan struct{}
	l      *listener
	closed bool
}

type tcpAddr string

func (a tcpAddr) Network() string { return "tcp" }
func (a tcpAddr) String() string  { return string(a) }

func (l *Listener) Accept() (net.Conn, error) {
	rt.Recv2((<-chan struct{})(l.closeC))
	return nil, net.ErrClosed
}
func (l *Listener) Addr() net.Addr { return tcpAddr(l.key) }
func (l *Listener) Close() error {
	rt.Y()
	s := rt.S
	if s == nil || s.Aborting() || l.closed {
		return nil
	}
	l.closed = true
	n := Of(s)
	if n.listeners[l.key] == l.l {
		delete(n.listeners, l.key)
	}
	rt.CloseSched(s, l.closeC)
	return nil
}

// NetListen is net.Listen.
func NetListen(network, addr string) (net.Listener, error) {
	l, err := listen(addr)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func listen(addr string) (*Listener, error) {
	rt.Y()
	s := rt.S
	n := Of(s)
	node := s.CurNode()
	if addr == "" {
		addr = ":http"
	}
	_, port, err := net.SplitHostPort(addr)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	if port == "http" || port == "" {
		port = "80"
	}
	key := node.Name + ":" + port
	if n.lookup(key) != nil {
		return nil, opErr("listen", syscall.EADDRINUSE)
	}
	l := &listener{node: node, key: key, closeC: make(chan struct{})}
	n.listeners[key] = l
	s.Event("listen %s", key)
	return &Listener{key: key, node: node, closeC: l.closeC, l: l}, nil
}

func Serve(l net.Listener, h http.Handler) error {
	return (&Server{Handler: h}).Serve(l)
}

func (srv *Server) Serve(nl net.Listener) error {
	rt.Y()
	if srv.closed {
		return http.ErrServerClosed
	}
	l, ok := nl.(*Listener)
	if !ok {
		return errors.New("vsim: Serve on a listener that is not simulated")
	}
	h := srv.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	l.l.handler = h
	srv.l = l.l
	if srv.OnListen != nil {
		srv.OnListen()
	}
	rt.Recv2((<-chan struct{})(l.closeC))
	return http.ErrServerClosed
}

func (srv *Server) ListenAndServe() error {
	rt.Y()
	if srv.closed {
		return http.ErrServerClosed
	}
	l, err := listen(srv.Addr)
	if err != nil {
		return err
	}
	return srv.Serve(l)
}
func (srv *Server) ListenAndServeTLS(cert, key string) error { return srv.ListenAndServe() }

func (srv *Server) Close() error {
	rt.Y()
	srv.closed = true
	s := rt.S
	if s == nil || s.Aborting() || srv.l == nil {
		return nil
	}
	n := Of(s)
	if n.listeners[srv.l.key] == srv.l {
		delete(n.listeners, srv.l.key)
	}
	rt.CloseSched(s, srv.l.closeC)
	for _, p := range n.pend {
		if p.lst == srv.l {
			rt.TrySendSched(s, p.resc, result{err: opErr("read", syscall.ECONNRESET)})
		}
	}
	return nil
}

// StopListening closes the listener only; requests in progress go on.
func (srv *Server) StopListening() {
	rt.Y()
	srv.closed = true
	s := rt.S
	if s == nil || s.Aborting() || srv.l == nil {
		return
	}
	n := Of(s)
	if n.listeners[srv.l.key] == srv.l {
		delete(n.listeners, srv.l.key)
	}
	rt.CloseSched(s, srv.l.closeC)
}

// Active is the number of requests in progress.
func (srv *Server) Active() int {
	if srv.l == nil {
		return 0
	}
	return srv.l.active
}

func (srv *Server) Shutdown(ctx context.Context) error {
	srv.StopListening()
	for srv.Active() > 0 {
		if ctx.Err() != nil {
			return ctx.Err()
		}
		rt.S.Sleep(1e6)
	}
	return nil
}
func (srv *Server) SetKeepAlivesEnabled(bool)   {}
func (srv *Server) RegisterOnShutdown(f func()) { srv.onShut = append(srv.onShut, f) }

func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
func ListenAndServeTLS(addr, cert, key string, h http.Handler) error {
	return ListenAndServe(addr, h)
}
