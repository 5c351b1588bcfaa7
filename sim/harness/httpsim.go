package harness

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// The model of net/http's server side: what a handler can do to a response,
// what reaches the client and when. It follows net/http for HTTP/1.1 and
// HTTP/2: header snapshot at WriteHeader, implicit 200, superfluous WriteHeader
// ignored, buffering until the buffer fills / Flush / end of handler, no body
// for 1xx, 204, 304 and HEAD, Content-Length enforcement, a panicking handler
// aborts the connection, the request context ends when the client goes away
// and when the handler returns.

const (
	varH1    = iota // Flusher, Hijacker, StringWriter, ReaderFrom
	varH2           // Flusher, StringWriter
	varPlain        // nothing optional (a third-party wrapper)
)

// Fault kinds on the connection.
const (
	faultNone       = iota
	faultReset      // connection breaks: the write that crosses the offset fails, the rest too
	faultDisconnect // the client goes away: context cancelled, a few more writes are swallowed, then errors
	faultShort      // a write returns a short count with an error, once; the connection then stays broken
	faultOnce       // as faultShort, and the writes after it would succeed (a wrapper that limits the rate)
)

// The errors of a broken connection: what net/http, crypto/tls and the HTTP/2
// server return, so that code which tells errors apart meets all of them.
var connErrs = []error{
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.ECONNRESET)},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	&net.OpError{Op: "write", Net: "tcp", Err: os.ErrDeadlineExceeded},
	&net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed},
	errors.New("http2: stream closed"),
	errors.New("client disconnected"),
	io.ErrClosedPipe,
	io.EOF,
	syscall.ENOBUFS,
}

// sourceErrs are the errors of a failing source: a file, a proxied answer, a database.
var sourceErrs = []error{
	errors.New("simulated source failure"),
	io.ErrUnexpectedEOF,
	fmt.Errorf("proxied answer: %w", io.EOF),
	io.ErrNoProgress,
	io.ErrClosedPipe,
	context.DeadlineExceeded,
	context.Canceled,
	os.ErrDeadlineExceeded,
	fs.ErrNotExist,
	&fs.PathError{Op: "read", Path: "/srv/data", Err: syscall.EIO},
	&net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)},
	http.ErrBodyReadAfterClose,
}

func errAt(l []error, i int64) error { return l[uint64(i)%uint64(len(l))] }

// ReqSpec describes a request and the connection it arrives on.
type ReqSpec struct {
	Method  string
	Path    string // decoded path
	Query   string
	Header  http.Header
	Body    io.Reader
	BodyLen int64
	Variant int
	Proto   int // 1 or 2 (default from Variant)
	BufSize int
	Fault   int
	FaultAt int64 // offset in the delivered body (-1: before the header)
	Grace   int   // faultDisconnect: flushes swallowed before errors
	Stall   time.Duration

	HijackFails bool
	Ahead       string // what the client sent together with the request, for who takes the connection over
	Later       string // what it sends after that

	TLS      bool
	Remote   string
	Host     string
	RawURL   *url.URL
	OnCancel func(cancel context.CancelFunc) // gives chaos tasks the way to disconnect
	Ctx      context.Context
	OnWriter func(rw *RW)
}

// RW is the simulated response writer.
type RW struct {
	e        *Env
	spec     *ReqSpec
	variant  int
	cancel   context.CancelFunc
	header   http.Header
	wrote    bool
	status   int
	snap     http.Header
	cl       int64
	written  int64
	buf      []byte
	failed   error
	grace    int
	hijacked bool

	// what the client has received
	headersSent bool
	Delivered   bytes.Buffer
	Flushes     int
	Superfluous int
	WriteErrs   int // errors the handler side saw
	AfterHijack int // writer calls after the connection was taken over
	Interim     []int
	OnDeliver   func(p []byte)
	FaultFired  bool
	Hijacks     int
	done        bool
	Stalled     time.Duration // spent waiting for the client
	TooLate     int           // writes after the client had left, in different rounds of the scheduler
	lateRound   int
	LateUse     int           // calls after the handler returned
	FirstErrAt  time.Duration // when the first write failed, -1: never
	CancelAt    time.Duration // when the request's context ended before the handler returned, -1: never
}

func newRW(e *Env, spec *ReqSpec, cancel context.CancelFunc) *RW {
	rw := &RW{e: e, spec: spec, variant: spec.Variant, cancel: cancel, header: http.Header{}, cl: -1, grace: spec.Grace, FirstErrAt: -1, CancelAt: -1}
	return rw
}

func bodyAllowed(status int) bool {
	return !(status >= 100 && status <= 199 || status == 204 || status == 304)
}

func (rw *RW) Header() http.Header {
	if rw.done {
		rw.LateUse++
	}
	return rw.header
}

func (rw *RW) WriteHeader(code int) {
	simrt.Yield()
	if rw.done {
		rw.LateUse++
	}
	if rw.hijacked {
		rw.AfterHijack++
		return
	}
	if code < 100 || code > 999 {
		panic(fmt.Sprintf("invalid WriteHeader code %v", code))
	}
	if rw.wrote {
		rw.Superfluous++
		return
	}
	if code >= 100 && code <= 199 && code != 101 {
		rw.Interim = append(rw.Interim, code)
		return
	}
	rw.wrote = true
	rw.status = code
	rw.snap = rw.header.Clone()
	if v := rw.snap.Get("Content-Length"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil && n >= 0 {
			rw.cl = n
		} else {
			rw.snap.Del("Content-Length")
		}
	}
	if rw.variant == varH2 {
		rw.snap.Del("Connection")
	}
}

func (rw *RW) bufSize() int {
	if rw.spec.BufSize > 0 {
		return rw.spec.BufSize
	}
	if rw.variant == varH2 {
		return 4096
	}
	return 2048
}

// deliver hands bytes to the connection.
func (rw *RW) deliver(p []byte) error {
	if rw.failed != nil {
		return rw.failed
	}
	simrt.Yield()
	if rw.spec.Stall > 0 {
		rw.e.Fault("slow client")
		simrt.Sleep(rw.spec.Stall)
		rw.Stalled += rw.spec.Stall
	}
	if rw.failed != nil {
		return rw.failed
	}
	if rw.FaultFired && rw.spec.Fault == faultDisconnect {
		if rw.grace > 0 {
			rw.grace--
			return nil
		}
		rw.failed = errAt(connErrs, rw.spec.FaultAt+3)
		return rw.failed
	}
	if rw.spec.Fault != faultNone && rw.spec.Fault != faultOnce && !rw.FaultFired {
		at := rw.spec.FaultAt
		if at < 0 || int64(rw.Delivered.Len()+len(p)) > at {
			rw.FaultFired = true
			if at >= 0 {
				rw.headersSent = true
				n := at - int64(rw.Delivered.Len())
				if n > 0 {
					rw.accept(p[:n])
				}
			}
			switch rw.spec.Fault {
			case faultDisconnect:
				rw.e.Fault("client disconnect during write")
				rw.cancel()
				if rw.grace > 0 {
					rw.grace--
					return nil
				}
				rw.failed = errAt(connErrs, rw.spec.FaultAt+3)
			case faultShort:
				rw.e.Fault("short write")
				rw.failed = io.ErrShortWrite
			default:
				rw.e.Fault("connection reset during write")
				rw.failed = errAt(connErrs, rw.spec.FaultAt+1)
				rw.cancel()
			}
			return rw.failed
		}
	}
	rw.headersSent = true
	rw.accept(p)
	return nil
}

func (rw *RW) accept(p []byte) {
	rw.Delivered.Write(p)
	if rw.OnDeliver != nil {
		rw.OnDeliver(p)
	}
}

func (rw *RW) flushBuf() error {
	if len(rw.buf) == 0 && rw.headersSent {
		return rw.failed
	}
	b := rw.buf
	rw.buf = nil
	return rw.deliver(b)
}

func (rw *RW) Write(p []byte) (int, error) {
	simrt.Yield()
	if rw.done {
		rw.LateUse++
	}
	if rw.CancelAt >= 0 && rw.e.W.Rounds != rw.lateRound {
		rw.lateRound = rw.e.W.Rounds
		rw.TooLate++
	}
	n, err := rw.write(p)
	if err != nil {
		rw.WriteErrs++
		if rw.FirstErrAt < 0 {
			rw.FirstErrAt = rw.e.W.Now()
		}
	}
	return n, err
}

func (rw *RW) write(p []byte) (int, error) {
	if rw.hijacked {
		rw.AfterHijack++
		return 0, http.ErrHijacked
	}
	if !rw.wrote {
		rw.WriteHeader(200)
	}
	if len(p) == 0 {
		return 0, nil
	}
	if !bodyAllowed(rw.status) {
		return 0, http.ErrBodyNotAllowed
	}
	rw.written += int64(len(p))
	if rw.cl != -1 && rw.written > rw.cl {
		return 0, http.ErrContentLength
	}
	if rw.spec.Fault == faultOnce && !rw.FaultFired && rw.spec.Method != "HEAD" && rw.written > rw.spec.FaultAt {
		rw.FaultFired = true
		rw.e.Fault("short write, once")
		n := len(p) - int(rw.written-max(0, rw.spec.FaultAt))
		rw.written -= int64(len(p) - n)
		rw.buf = append(rw.buf, p[:n]...)
		return n, errAt([]error{io.ErrShortWrite, connErrs[2], http.ErrHandlerTimeout, connErrs[8]}, rw.spec.FaultAt)
	}
	if rw.spec.Method == "HEAD" {
		return len(p), nil
	}
	if rw.failed != nil {
		return 0, rw.failed
	}
	had, sent := len(rw.buf), rw.Delivered.Len()
	rw.buf = append(rw.buf, p...)
	if len(rw.buf) > rw.bufSize() {
		if err := rw.flushBuf(); err != nil {
			// as bufio: what was copied into the buffer counts as written, and
			// what the connection took when the buffer was empty
			n := rw.bufSize() - had
			if had == 0 {
				n = rw.Delivered.Len() - sent
			}
			return max(0, min(n, len(p)-1)), err
		}
	}
	return len(p), nil
}

func (rw *RW) writeString(s string) (int, error) { return rw.Write([]byte(s)) }

func (rw *RW) flush() {
	simrt.Yield()
	if rw.done {
		rw.LateUse++
	}
	if rw.hijacked {
		rw.AfterHijack++
		return
	}
	if !rw.wrote {
		rw.WriteHeader(200)
	}
	rw.Flushes++
	rw.flushBuf()
}

func (rw *RW) readFrom(src io.Reader) (n int64, err error) {
	buf := make([]byte, 1024)
	for {
		m, rerr := src.Read(buf)
		if m > 0 {
			w, werr := rw.Write(buf[:m])
			n += int64(w)
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

func (rw *RW) hijack() (net.Conn, *bufio.ReadWriter, error) {
	if rw.wrote && rw.headersSent {
		return nil, nil, errors.New("http: Hijack after write")
	}
	if rw.hijacked {
		return nil, nil, http.ErrHijacked
	}
	if rw.spec.HijackFails {
		rw.e.Fault("taking over the connection fails")
		return nil, nil, errAt([]error{connErrs[0], http.ErrHijacked, http.ErrNotSupported, io.ErrClosedPipe}, int64(hashString(rw.spec.Path)>>8))
	}
	rw.hijacked = true
	rw.Hijacks++
	c := &simConn{rw: rw, in: rw.spec.Ahead, mayRead: true}
	br := bufio.NewReader(c)
	if c.in != "" {
		br.Peek(len(c.in)) // the server has read this already
	}
	c.in, c.mayRead = rw.spec.Later, false
	return c, bufio.NewReadWriter(br, bufio.NewWriter(c)), nil
}

type simConn struct {
	rw      *RW
	out     bytes.Buffer
	touched string // calls which the application does not make
	in      string // what the client sent and nobody has read
	mayRead bool   // the application is reading
}

func (c *simConn) touch(what string) { c.touched += what + " " }

func (c *simConn) Read(p []byte) (int, error) {
	if !c.mayRead {
		c.touch("Read")
	}
	if c.in == "" {
		return 0, io.EOF
	}
	n := copy(p, c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *simConn) Write(p []byte) (int, error)      { simrt.Yield(); return c.out.Write(p) }
func (c *simConn) Close() error                     { c.touch("Close"); return nil }
func (c *simConn) LocalAddr() net.Addr              { return &net.TCPAddr{} }
func (c *simConn) RemoteAddr() net.Addr             { return &net.TCPAddr{} }
func (c *simConn) SetDeadline(time.Time) error      { c.touch("SetDeadline"); return nil }
func (c *simConn) SetReadDeadline(time.Time) error  { c.touch("SetReadDeadline"); return nil }
func (c *simConn) SetWriteDeadline(time.Time) error { c.touch("SetWriteDeadline"); return nil }

type plainW struct{ rw *RW }

func (w plainW) Header() http.Header         { return w.rw.Header() }
func (w plainW) Write(p []byte) (int, error) { return w.rw.Write(p) }
func (w plainW) WriteHeader(c int)           { w.rw.WriteHeader(c) }

type h2W struct{ plainW }

func (w h2W) Flush()                            { w.rw.flush() }
func (w h2W) WriteString(s string) (int, error) { return w.rw.writeString(s) }

type h1W struct{ h2W }

func (w h1W) Hijack() (net.Conn, *bufio.ReadWriter, error) { return w.rw.hijack() }
func (w h1W) ReadFrom(r io.Reader) (int64, error)          { return w.rw.readFrom(r) }

func (rw *RW) iface() http.ResponseWriter {
	switch rw.variant {
	case varH1:
		return h1W{h2W{plainW{rw}}}
	case varH2:
		return h2W{plainW{rw}}
	}
	return plainW{rw}
}

// Exchange is a finished request as seen from both ends.
type Exchange struct {
	Status    int // what the client got; 0 when no header reached it
	Header    http.Header
	Body      []byte
	Complete  bool // the client knows the response is complete
	Panic     any  // panic that left ServeHTTP
	PanicText string
	RW        *RW
	Req       *http.Request
	Finished  bool // ServeHTTP returned or panicked (false: it was killed)
	Took      time.Duration
}

// buildRequest makes the *http.Request of a spec.
func buildRequest(spec *ReqSpec, ctx context.Context) *http.Request {
	u := spec.RawURL
	if u == nil {
		u = &url.URL{Path: spec.Path, RawQuery: spec.Query}
	}
	h := spec.Header
	if h == nil {
		h = http.Header{}
	}
	proto := spec.Proto
	if proto == 0 {
		proto = 1
		if spec.Variant == varH2 {
			proto = 2
		}
	}
	r := &http.Request{Method: spec.Method, URL: u, Header: h, Host: spec.Host, RemoteAddr: spec.Remote, ContentLength: spec.BodyLen}
	if r.Host == "" {
		r.Host = "www.example.com"
	}
	if r.RemoteAddr == "" {
		r.RemoteAddr = "10.0.0.2:50000"
	}
	if proto == 2 {
		r.Proto, r.ProtoMajor = "HTTP/2.0", 2
	} else {
		r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/1.1", 1, 1
	}
	if spec.Body != nil {
		r.Body = io.NopCloser(spec.Body)
	} else {
		r.Body = http.NoBody
	}
	if spec.TLS {
		r.TLS = &tls.ConnectionState{HandshakeComplete: true}
	}
	r.RequestURI = u.RequestURI()
	return r.WithContext(ctx)
}

var extraHeaders = [][2]string{{"X-Forwarded-Proto", "https"}, {"X-Forwarded-For", "127.0.0.1"}, {"X-Forwarded-Host", "localhost"}, {"X-Real-Ip", "127.0.0.1"}, {"Forwarded", "for=127.0.0.1;proto=https"}, {"Referer", "https://www.example.com/page"},
	{"X-Requested-With", "XMLHttpRequest"}, {"X-Http-Method-Override", "GET"}, {"X-Original-Url", "/"}, {"X-Rewrite-Url", "/"}, {"Sec-Fetch-Site", "same-origin"}, {"User-Agent", "Mozilla/4.0 (compatible; MSIE 6.0)"}, {"User-Agent", "curl/8.0"},
	{"Authorization", "Bearer admin"}, {"X-Forwarded-User", "admin"}, {"Connection", "close"}, {"Cache-Control", "no-cache"}, {"Te", "trailers"}, {"Accept", "application/json"}, {"Accept", "text/html"}, {"Purpose", "prefetch"}, {"Dnt", "1"}, {"X-Request-Id", "1"}, {"Traceparent", "00-1-1-00"}, {"Upgrade", "h2c"}, {"Expect", "100-continue"}}

// Serve runs one request through h like a net/http server goroutine would.
func (e *Env) Serve(h http.Handler, spec *ReqSpec) *Exchange {
	base := spec.Ctx
	if base == nil {
		base = context.Background()
	}
	ctx, cancel := context.WithCancel(base)
	defer cancel()
	rw := newRW(e, spec, nil)
	rw.cancel = func() {
		if rw.CancelAt < 0 && !rw.done {
			rw.CancelAt = e.W.Now()
		}
		cancel()
	}
	if spec.OnCancel != nil {
		spec.OnCancel(rw.cancel)
	}
	r := buildRequest(spec, ctx)
	// what browsers and intermediaries add, and the framework gives no meaning to
	if k := hashString(spec.Path+spec.Method+r.Header.Get("X-Sim")) % 60; k < uint64(len(extraHeaders)) && r.Header.Get(extraHeaders[k][0]) == "" {
		r.Header.Set(extraHeaders[k][0], extraHeaders[k][1])
	}
	if spec.OnWriter != nil {
		spec.OnWriter(rw)
	}
	x := &Exchange{RW: rw, Req: r}
	t0 := e.W.Now()
	simrt.Yield()
	func() {
		normal := false
		defer func() {
			if !normal {
				if p := recover(); p != nil {
					x.Panic = p
					x.PanicText = fmt.Sprint(p)
					x.Finished = true
				}
				return
			}
			x.Finished = true
		}()
		h.ServeHTTP(rw.iface(), r)
		normal = true
	}()
	x.Took = e.W.Now() - t0
	if x.Finished && x.Panic == nil && !rw.hijacked {
		if !rw.wrote {
			rw.WriteHeader(200)
		}
		if rw.cl == -1 && rw.failed == nil && !rw.headersSent && bodyAllowed(rw.status) && spec.Method != "HEAD" {
			if rw.snap.Get("Transfer-Encoding") == "" {
				rw.snap.Set("Content-Length", strconv.Itoa(len(rw.buf)))
			}
		}
		err := rw.flushBuf()
		x.Complete = err == nil && rw.failed == nil && !(rw.spec.Fault == faultDisconnect && rw.FaultFired)
		if rw.cl != -1 && rw.written < rw.cl && spec.Method != "HEAD" && bodyAllowed(rw.status) {
			x.Complete = false // the server closes the connection, the client reads an unexpected EOF
		}
	}
	rw.done = true
	if rw.headersSent {
		x.Status = rw.status
		x.Header = rw.snap
		x.Body = append([]byte(nil), rw.Delivered.Bytes()...)
	}
	return x
}

// simBody is a request body arriving in pieces, possibly breaking off.
type simBody struct {
	e      *Env
	data   []byte
	chunk  int
	failAt int // -1: never
	pos    int
	stall  time.Duration
}

func (b *simBody) Read(p []byte) (int, error) {
	simrt.Yield()
	if b.stall > 0 {
		simrt.Sleep(b.stall)
	}
	if b.failAt >= 0 && b.pos >= b.failAt {
		b.e.Fault("request body breaks off")
		return 0, errAt([]error{io.ErrUnexpectedEOF, sourceErrs[10], http.ErrBodyReadAfterClose}, int64(b.failAt))
	}
	if b.pos >= len(b.data) {
		return 0, io.EOF
	}
	n := b.chunk
	if n <= 0 {
		n = len(b.data)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(b.data)-b.pos {
		n = len(b.data) - b.pos
	}
	if b.failAt >= 0 && b.pos+n > b.failAt {
		n = b.failAt - b.pos
	}
	copy(p, b.data[b.pos:b.pos+n])
	b.pos += n
	return n, nil
}

func hdr(kv ...string) http.Header {
	h := http.Header{}
	for i := 0; i+1 < len(kv); i += 2 {
		h.Set(kv[i], kv[i+1])
	}
	return h
}

func trunc(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

// gofreFrames extracts the module's frames of a stack, for messages.
func gofreFrames(stack string) string {
	var out []string
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "ixtendio/gofre") && !strings.HasPrefix(l, "\t") {
			out = append(out, strings.TrimSpace(l))
			if len(out) == 4 {
				break
			}
		}
	}
	return strings.Join(out, " <- ")
}
