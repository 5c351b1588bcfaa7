package harness

import (
	"bytes"
	"compress/flate"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	htmpl "html/template"
	"io"
	"net/http"
	"reflect"
	"sort"
	"strconv"
	"strings"
	ttmpl "text/template"
	"time"

	"github.com/ixtendio/gofre/response"
	"verifsim/simrt"
)

// Kinds of responses a simulated handler answers with.
const (
	rkText = iota
	rkHtml
	rkJson
	rkHeaders
	rkRaw
	rkStream
	rkTemplate
	rkRedirect
	rkAdaptFunc
	rkAdaptHandler
	rkJsonErr
	rkErr500
	nRespKinds
)

var respKindNames = []string{"text", "html", "json", "headers", "raw", "stream", "template", "redirect", "adaptor-func", "adaptor", "json-error", "internal-error"}

// respSpec says what a handler answers; it is made from the parameters of an
// operation and a tag that is unique in the run.
type respSpec struct {
	Kind   int
	Tag    string
	Status int
	NHdr   int
	NCk    int
	Size   int
	Chunk  int
	Late   bool // headers are added through Headers()/Cookies() after construction
	CT     bool // handler sets its own content type
	Flush  bool
	Yield  bool // yields between chunks
	Sleep  time.Duration
	FailAt int // stream/raw/template: the source fails after so many bytes (-1 never)
	CL     bool
	PreEnc bool // content which the application encoded itself
	BadObj bool // json, template: the payload cannot be marshalled or rendered
	Alt    int  // another payload of the same kind

	Failed bool // the source did fail

	afterFlush func(written int)
}

var okStatuses = []int{200, 201, 404, 500, 202, 403, 299, 418}
var anyStatuses = []int{200, 204, 304, 201, 404, 500, 0, 205, 503}

func specOf(op Op, tag string) respSpec {
	s := respSpec{Kind: op.I("kind") % nRespKinds, Tag: tag, NHdr: op.I("hdr") % 5, NCk: op.I("ck") % 6, Alt: op.I("alt"), Size: op.I("size"),
		Chunk: op.I("chunk"), Late: op.I("late") == 1, CT: op.I("ct") == 1, Flush: op.I("flush") == 1, Yield: op.I("yield") == 1, FailAt: op.I("fail") - 1, CL: op.I("cl") == 1}
	st := op.I("st")
	switch s.Kind {
	case rkHeaders:
		s.Status = anyStatuses[st%len(anyStatuses)]
	case rkRedirect:
		s.Status = []int{302, 301, 303}[st%3]
	case rkErr500:
		s.Status = 500
	default:
		s.Status = okStatuses[st%len(okStatuses)]
	}
	if s.Chunk < 1 {
		s.Chunk = 1 << 20
	}
	if op.I("slow") > 0 {
		s.Sleep = time.Duration(op.I("slow")) * 100 * time.Millisecond
	}
	return s
}

// genResp adds the parameters of a random response to an operation.
func genResp(r *Rng, p map[string]int64, big bool) {
	p["kind"] = int64(r.Intn(nRespKinds))
	p["st"] = int64(r.Intn(9))
	p["hdr"] = int64(r.Intn(5))
	p["ck"] = int64(r.Intn(6))
	if r.Intn(3) == 0 {
		p["alt"] = int64(1 + r.Intn(3))
	}
	sizes := []int64{0, 1, 10, 100, 1500, 3000, 6000}
	if big {
		sizes = append(sizes, 20000, 70000)
	}
	p["size"] = sizes[r.Intn(len(sizes))]
	p["chunk"] = []int64{0, 1, 7, 100, 1000, 5000}[r.Intn(6)]
	if p["size"] > 2000 && p["chunk"] > 0 && p["chunk"] < 100 {
		p["chunk"] = 500
	}
	for _, k := range []string{"late", "ct", "flush", "yield"} {
		if r.Intn(3) == 0 {
			p[k] = 1
		}
	}
}

// content is a body of n bytes made of the tag.
func content(tag string, n int) []byte {
	var b bytes.Buffer
	for i := 0; b.Len() < n; i++ {
		b.WriteString(tag)
		b.WriteByte('-')
		b.WriteString(strconv.Itoa(i))
		b.WriteByte('.')
	}
	b.Truncate(n)
	return b.Bytes()
}

func (s *respSpec) payload() []byte {
	b := content(s.Tag, s.Size)
	if s.Alt == 3 {
		switch s.Kind {
		case rkText, rkHtml, rkJson, rkRaw, rkStream, rkAdaptFunc, rkAdaptHandler:
			// characters with a meaning in HTML, JSON or UTF-8
			rich := "<&>'\"\\\n\t\r\x7f\u00e9\u2028%d%s{{.}}\x01"
			for i := range b {
				if s.Kind == rkJson && rich[i%len(rich)] >= 0x80 {
					continue
				}
				b[i] = rich[i%len(rich)]
			}
			copy(b, s.Tag)
		}
	}
	return b
}

// textTmpl says whether the template is one of text/template.
func (s *respSpec) textTmpl() bool { return s.Kind == rkTemplate && s.Alt == 1 }

func (s *respSpec) jsonPayload() any {
	switch s.Alt {
	case 1:
		return nil
	case 2:
		return []any{s.Tag, string(s.payload()), s.Size, nil, true}
	}
	return jsonBody{s.Tag, string(s.payload()), s.Size}
}

type jsonBody struct {
	Tag  string `json:"tag"`
	Body string `json:"body"`
	N    int    `json:"n"`
}

var simTemplate = htmpl.Must(htmpl.New("").Parse(`{{define "page"}}<html><b>{{.Tag}}</b><p>{{.Body}}</p>{{range .List}}<i>{{.}}</i>{{end}}</html>{{end}}{{define "broken"}}<html><b>{{.Tag}}</b><p>{{.Body}}</p>{{.Boom}}</html>{{end}}`))

var simTextTemplate = ttmpl.Must(ttmpl.New("").Parse(`{{define "page"}}{{.Tag}}: {{.Body}};{{range .List}} {{.}}{{end}}{{end}}{{define "broken"}}{{.Tag}}: {{.Body}};{{.Boom}}{{end}}`))

type tmplData struct {
	Tag, Body string
	List      []string
}

// Boom fails in the middle of rendering.
func (d tmplData) Boom() (string, error) { return "", errAt(sourceErrs, int64(len(d.Body))) }

func (s *respSpec) tmplData() tmplData {
	d := tmplData{Tag: s.Tag, Body: string(s.payload())}
	for i := 0; i < s.NHdr; i++ {
		d.List = append(d.List, fmt.Sprintf("%s.%d", s.Tag, i))
	}
	return d
}

// customHeaders are the headers the handler asks for.
func (s *respSpec) customHeaders() [][2]string {
	var l [][2]string
	names := []string{"X-App-One", "x-app-two", "X-App-Three", "ETag"}
	for i := 0; i < s.NHdr; i++ {
		l = append(l, [2]string{names[i], fmt.Sprintf("%s-h%d", s.Tag, i)})
	}
	if s.CT {
		l = append(l, [2]string{"Content-Type", "application/x-" + s.Tag})
	}
	if s.PreEnc && s.hasEncHeader() {
		l = append(l, [2]string{"Content-Encoding", "x-app"})
	}
	if s.CL && s.lenKnown() {
		l = append(l, [2]string{"Content-Length", strconv.Itoa(len(s.wantBody("GET")))})
	}
	return l
}

// hasEncHeader says whether the kind of response carries a body for which the
// application can choose the content coding.
func (s *respSpec) hasEncHeader() bool { return s.lenKnown() && s.Kind != rkText && s.Kind != rkHtml }

func (s *respSpec) lenKnown() bool {
	switch s.Kind {
	case rkText, rkHtml, rkJson, rkRaw, rkStream:
		return true
	}
	return false
}

func (s *respSpec) cookies() []*http.Cookie {
	var l []*http.Cookie
	all := []*http.Cookie{
		{Name: "sid", Value: s.Tag + "-c0", Path: "/"},
		{Name: "sid", Value: s.Tag + "-c1", Path: "/sub", HttpOnly: true},
		{Name: "lang", Value: s.Tag + "-c2", Secure: true, MaxAge: 60},
		{Name: "sid", Value: s.Tag + "-c3", Path: "/", Domain: "a.example", SameSite: http.SameSiteStrictMode},
		{Name: "sid", Value: s.Tag + "-c4", Path: "/", Domain: "b.example"},
	}
	for i := 0; i < s.NCk; i++ {
		l = append(l, all[i])
	}
	return l
}

// jsonError is the text of the error which a rkJsonErr response shows.
func (s *respSpec) jsonError() string {
	if s.Alt == 3 && s.Size < 2 {
		return ""
	}
	return []string{"e", "é", "日", "\"<"}[s.Alt%4] + s.Tag
}

// build makes the gofre response.
func (s *respSpec) build(e *Env) response.HttpResponse {
	var h response.HttpHeaders
	var c response.HttpCookies
	ch, ck := s.customHeaders(), s.cookies()
	if len(ck) > 0 && s.Alt == 2 {
		ck = append([]*http.Cookie{nil}, ck...) // none, which an application may leave out
	}
	if !s.Late && s.hasCtorHeaders() {
		if len(ch) > 0 {
			h = response.NewHttpHeaders()
			for _, kv := range ch {
				h.Set(kv[0], kv[1])
			}
		}
		if len(ck) > 0 {
			c = response.NewHttpCookie(ck...)
		}
	}
	var resp response.HttpResponse
	switch s.Kind {
	case rkText:
		switch {
		case h == nil && c == nil && s.Status == 200:
			resp = response.PlainTextHttpResponseOK(string(s.payload()))
		case h == nil && c == nil:
			resp = response.PlainTextHttpResponse(s.Status, string(s.payload()))
		case c == nil:
			resp = response.PlainTextHttpResponseWithHeaders(s.Status, string(s.payload()), h)
		default:
			resp = response.PlainTextResponseWithHeadersAndCookies(s.Status, string(s.payload()), h, c)
		}
	case rkHtml:
		switch {
		case h == nil && c == nil && s.Status == 200:
			resp = response.HtmlHttpResponseOK(string(s.payload()))
		case c == nil:
			resp = response.HtmlHttpResponseWithHeaders(s.Status, string(s.payload()), h)
		default:
			resp = response.HtmlResponseWithHeadersAndCookies(s.Status, string(s.payload()), h, c)
		}
	case rkJson:
		p := s.jsonPayload()
		if s.BadObj {
			e.Fault("response source fails")
			s.Failed = true
			p = map[string]any{"tag": s.Tag, "bad": func() {}}
		}
		switch {
		case h == nil && c == nil && s.Status == 200:
			resp = response.JsonHttpResponseOK(p)
		case h == nil && c == nil:
			resp = response.JsonHttpResponse(s.Status, p)
		case h == nil:
			resp = response.JsonHttpResponseWithCookies(s.Status, p, c)
		case c == nil:
			resp = response.JsonHttpResponseWithHeaders(s.Status, p, h)
		default:
			resp = response.JsonHttpResponseWithHeadersAndCookies(s.Status, p, h, c)
		}
	case rkJsonErr:
		var err error
		if m := s.jsonError(); m != "" {
			err = errors.New(m)
		} else if s.Size == 1 {
			err = errors.New("")
		}
		switch {
		case h == nil && c == nil:
			resp = response.JsonErrorHttpResponse(s.Status, err)
		case h == nil:
			resp = response.JsonErrorHttpResponseWithCookies(s.Status, err, c)
		case c == nil:
			resp = response.JsonErrorHttpResponseWithHeaders(s.Status, err, h)
		default:
			resp = response.JsonErrorHttpResponseWithHeadersAndCookies(s.Status, err, h, c)
		}
	case rkHeaders:
		resp = &response.HttpHeadersResponse{HttpStatusCode: s.Status, HttpHeaders: h, HttpCookies: c}
	case rkErr500:
		resp = response.InternalServerErrorHttpResponse()
	case rkRaw:
		fn := func(w io.Writer) error { return s.writeChunks(e, w) }
		switch {
		case h == nil && c == nil && s.Status == 200:
			resp = response.RawWriterHttpResponse(s.rawType(), fn)
		case h == nil:
			resp = response.RawWriterHttpResponseWithCookies(s.Status, s.rawType(), c, fn)
		case c == nil:
			resp = response.RawWriterHttpResponseWithHeaders(s.Status, s.rawType(), h, fn)
		default:
			resp = response.RawWriterHttpResponseWithHeadersAndCookies(s.Status, s.rawType(), h, c, fn)
		}
	case rkStream:
		var rd io.Reader = &chunkReader{e: e, data: s.payload(), chunk: s.Chunk, failAt: s.FailAt, yield: s.Yield, sleep: s.Sleep, s: s}
		switch {
		case h == nil && c == nil && s.Status == 200:
			resp = response.StreamHttpResponse(s.rawType(), rd)
		case h == nil:
			resp = response.StreamHttpResponseWithCookies(s.Status, s.rawType(), c, rd)
		case c == nil:
			resp = response.StreamHttpResponseWithHeaders(s.Status, s.rawType(), h, rd)
		default:
			resp = response.StreamHttpResponseWithHeadersAndCookies(s.Status, s.rawType(), h, c, rd)
		}
	case rkTemplate:
		var simTemplate response.ExecutableTemplate = simTemplate
		if s.textTmpl() {
			simTemplate = simTextTemplate
		}
		if s.BadObj {
			e.Fault("response source fails")
			s.Failed = true
			resp = response.TemplateHttpResponseWithHeadersAndCookies(simTemplate, s.Status, "broken", s.tmplData(), h, c)
			break
		}
		switch {
		case h == nil && c == nil && s.Status == 200:
			resp = response.TemplateHttpResponseOK(simTemplate, "page", s.tmplData())
		case h == nil && c == nil && s.Status == 404:
			resp = response.TemplateHttpResponseNotFound(simTemplate, "page", s.tmplData())
		case h == nil:
			resp = response.TemplateHttpResponseWithCookies(simTemplate, s.Status, "page", s.tmplData(), c)
		case c == nil:
			resp = response.TemplateHttpResponseWithHeaders(simTemplate, s.Status, "page", s.tmplData(), h)
		default:
			resp = response.TemplateHttpResponseWithHeadersAndCookies(simTemplate, s.Status, "page", s.tmplData(), h, c)
		}
	case rkRedirect:
		switch s.Status {
		case 301:
			resp = response.RedirectHttpResponseMovedPermanently("/to/" + s.Tag)
		case 303:
			resp = response.RedirectHttpResponseSeeOther("/to/" + s.Tag)
		default:
			resp = response.RedirectHttpResponse("/to/" + s.Tag)
		}
	case rkAdaptFunc:
		resp = response.HandlerFuncAdaptor(s.plainHandler(e))
	case rkAdaptHandler:
		resp = response.HandlerAdaptor(http.HandlerFunc(s.plainHandler(e)))
	}
	if s.Late || !s.hasCtorHeaders() {
		if len(ch) > 0 {
			hh := resp.Headers()
			for _, kv := range ch {
				hh.Set(kv[0], kv[1])
			}
		}
		if len(ck) > 0 {
			resp.Cookies().Add(ck...)
		}
	}
	return resp
}

func (s *respSpec) hasCtorHeaders() bool {
	switch s.Kind {
	case rkRedirect, rkAdaptFunc, rkAdaptHandler, rkErr500:
		return false
	}
	return true
}

func (s *respSpec) rawType() string { return "application/octet-stream" }

func (s *respSpec) plainHandler(e *Env) http.HandlerFunc {
	return func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("X-Plain", s.Tag)
		if !s.CT {
			w.Header().Set("Content-Type", "text/x-plain")
		}
		switch f, ok := w.(http.Flusher); {
		case ok && s.Flush && s.Status == 200:
			f.Flush() // the header, before there is a body
		case s.Alt == 1 && s.Status == 200:
			// the first write sends it
		default:
			w.WriteHeader(s.Status)
		}
		s.writeChunks(e, w)
	}
}

func (s *respSpec) writeChunks(e *Env, w io.Writer) error {
	data := s.payload()
	for i := 0; len(data) > 0; i++ {
		n := min(s.Chunk, len(data))
		if s.FailAt >= 0 && s.Size-len(data)+n > s.FailAt {
			n = s.FailAt - (s.Size - len(data))
			if n > 0 {
				if _, err := w.Write(data[:n]); err != nil {
					return err
				}
			}
			e.Fault("response source fails")
			s.Failed = true
			return errAt(sourceErrs, int64(s.FailAt))
		}
		if i%3 == 2 {
			if _, err := io.WriteString(w, string(data[:n])); err != nil {
				return err
			}
		} else if _, err := w.Write(data[:n]); err != nil {
			return err
		}
		data = data[n:]
		if s.Flush && i%2 == 0 {
			if f, ok := w.(http.Flusher); ok {
				f.Flush()
				if s.afterFlush != nil {
					s.afterFlush(s.Size - len(data))
				}
			}
		}
		if s.Yield {
			simrt.Yield()
		}
		if s.Sleep > 0 && i < 3 {
			simrt.Sleep(s.Sleep)
		}
	}
	return nil
}

type chunkReader struct {
	e      *Env
	data   []byte
	chunk  int
	pos    int
	failAt int
	yield  bool
	sleep  time.Duration
	reads  int
	s      *respSpec
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if c.yield {
		simrt.Yield()
	}
	if c.reads++; c.sleep > 0 && c.reads < 4 {
		simrt.Sleep(c.sleep)
	}
	if c.failAt >= 0 && c.pos >= c.failAt && c.failAt <= len(c.data) {
		c.e.Fault("response source fails")
		c.s.Failed = true
		return 0, errAt(sourceErrs, int64(c.failAt))
	}
	if c.pos >= len(c.data) {
		return 0, io.EOF
	}
	n := min(c.chunk, len(p), len(c.data)-c.pos)
	if c.failAt >= 0 && c.pos+n > c.failAt {
		n = c.failAt - c.pos
	}
	if c.reads%3 == 2 && (len(c.data)+c.chunk)%4 == 1 {
		// nothing yet, which is not the end
		return 0, nil
	}
	copy(p, c.data[c.pos:c.pos+n])
	c.pos += n
	if (len(c.data)+c.chunk)%3 == 0 {
		// the end comes with the last bytes
		if c.failAt >= 0 && c.pos >= c.failAt && c.failAt <= len(c.data) {
			c.e.Fault("response source fails with its last bytes")
			c.s.Failed = true
			return n, errAt(sourceErrs, int64(c.failAt))
		}
		if c.pos >= len(c.data) {
			return n, io.EOF
		}
	}
	return n, nil
}

// wantStatus, wantBody and wantHeader are what the client has to get.
func (s *respSpec) wantStatus() int {
	if s.Status == 0 {
		return 200
	}
	return s.Status
}

func (s *respSpec) wantBody(method string) []byte {
	if method == "HEAD" || !bodyAllowed(s.wantStatus()) {
		return nil
	}
	switch s.Kind {
	case rkText, rkHtml, rkRaw, rkStream, rkAdaptFunc, rkAdaptHandler:
		return s.payload()
	case rkJson:
		if s.Alt == 1 {
			return []byte("{}")
		}
		b, _ := json.Marshal(s.jsonPayload())
		return b
	case rkJsonErr:
		b, _ := json.Marshal(map[string]string{"error": strings.Replace(strings.Replace(s.jsonError(), "e"+s.Tag, "E"+s.Tag, 1), "é", "É", 1)})
		return b
	case rkTemplate:
		d := s.tmplData()
		if s.textTmpl() {
			t := d.Tag + ": " + d.Body + ";"
			for _, x := range d.List {
				t += " " + x
			}
			return []byte(t)
		}
		t := "<html><b>" + d.Tag + "</b><p>" + d.Body + "</p>"
		for _, x := range d.List {
			t += "<i>" + x + "</i>"
		}
		return []byte(t + "</html>")
	case rkRedirect:
		if method == "GET" && !s.CT {
			return []byte("<a href=\"/to/" + s.Tag + "\">" + http.StatusText(s.Status) + "</a>.\n\n")
		}
	}
	return nil
}

func (s *respSpec) wantHeader(method string) http.Header {
	h := http.Header{}
	switch s.Kind {
	case rkText:
		h.Set("Content-Type", "text/plain; charset=utf-8")
	case rkHtml, rkTemplate:
		h.Set("Content-Type", "text/html; charset=utf-8")
		if s.textTmpl() {
			h.Set("Content-Type", "text/plain; charset=utf-8")
		}
	case rkJson, rkJsonErr:
		h.Set("Content-Type", "application/json")
	case rkRaw, rkStream:
		h.Set("Content-Type", s.rawType())
	case rkRedirect:
		if method == "GET" || method == "HEAD" {
			h.Set("Content-Type", "text/html; charset=utf-8")
		}
		h.Set("Location", "/to/"+s.Tag)
	case rkAdaptFunc, rkAdaptHandler:
		h.Set("X-Plain", s.Tag)
		h.Set("Content-Type", "text/x-plain")
	}
	switch s.Kind {
	case rkRedirect, rkAdaptFunc, rkAdaptHandler:
	default:
		h.Set("X-Content-Type-Options", "nosniff")
	}
	for _, kv := range s.customHeaders() {
		h.Set(kv[0], kv[1])
	}
	for _, c := range s.cookies() {
		h.Add("Set-Cookie", c.String())
	}
	return h
}

// hdrDiff compares header sets; keys in ignore are not looked at.
func hdrDiff(got, want http.Header, ignore ...string) string {
	ign := map[string]bool{"Content-Length": true, "Date": true, "Transfer-Encoding": true}
	for _, k := range ignore {
		ign[k] = true
	}
	norm := func(v []string) string {
		v = append([]string(nil), v...)
		sort.Strings(v)
		return strings.Join(v, " | ")
	}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	for k := range want {
		if _, ok := got[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if ign[k] {
			continue
		}
		if norm(got[k]) != norm(want[k]) {
			return fmt.Sprintf("header %s is [%s], should be [%s]", k, trunc(norm(got[k])), trunc(norm(want[k])))
		}
	}
	return ""
}

func bodyDiff(got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	at := func(b []byte) string {
		lo, hi := max(0, i-20), min(len(b), i+40)
		if lo > hi {
			lo = hi
		}
		return string(b[lo:hi])
	}
	return fmt.Sprintf("body of %d bytes differs from the expected %d bytes at offset %d: %q instead of %q", len(got), len(want), i, at(got), at(want))
}

// bodyDiff compares a body with the expected one; JSON by its value.
func (s *respSpec) bodyDiff(got, want []byte) string {
	d := bodyDiff(got, want)
	if d != "" && (s.Kind == rkJson || s.Kind == rkJsonErr) && len(want) > 0 {
		var a, b any
		if json.Unmarshal(got, &a) == nil && json.Unmarshal(want, &b) == nil && reflect.DeepEqual(a, b) {
			return ""
		}
	}
	return d
}

// checkWire compares an exchange without faults with its specification.
func (e *Env) checkWire(class string, x *Exchange, s *respSpec, method string, extra http.Header, ignore ...string) bool {
	e.Check()
	where := fmt.Sprintf("request %s (%s response)", s.Tag, respKindNames[s.Kind])
	if x.Panic != nil {
		e.Fail(class, "%s: ServeHTTP panicked: %v", where, x.PanicText)
		return false
	}
	if x.Status != s.wantStatus() {
		e.Fail(class, "%s: status %d instead of %d", where, x.Status, s.wantStatus())
		return false
	}
	if x.RW.Superfluous > 0 {
		e.Fail(class, "%s: the status line was written %d more times", where, x.RW.Superfluous)
		return false
	}
	want := s.wantHeader(method)
	for k, v := range extra {
		if k == "Set-Cookie" {
			want[k] = append(want[k], v...)
		} else {
			want[k] = v
		}
	}
	if d := hdrDiff(x.Header, want, ignore...); d != "" {
		e.Fail(class, "%s: %s", where, d)
		return false
	}
	body, err := decodeBody(x)
	if err != nil {
		e.Fail(class, "%s: %v", where, err)
		return false
	}
	if d := s.bodyDiff(body, s.wantBody(method)); d != "" {
		e.Fail(class, "%s: %s", where, d)
		return false
	}
	if !x.Complete {
		e.Fail(class, "%s: the client sees a truncated response (Content-Length %q, %d bytes written)", where, x.Header.Get("Content-Length"), x.RW.written)
		return false
	}
	return true
}

// decodeBody undoes the content encoding the response declares.
func decodeBody(x *Exchange) ([]byte, error) {
	switch enc := x.Header.Get("Content-Encoding"); enc {
	case "":
		return x.Body, nil
	case "gzip":
		if len(x.Body) == 0 {
			return nil, nil
		}
		zr, err := gzip.NewReader(bytes.NewReader(x.Body))
		if err != nil {
			return nil, fmt.Errorf("body declared as gzip does not decode: %v", err)
		}
		b, err := io.ReadAll(zr)
		if err != nil {
			return nil, fmt.Errorf("body declared as gzip does not decode after %d bytes: %v", len(b), err)
		}
		return b, nil
	case "deflate":
		if len(x.Body) == 0 {
			return nil, nil
		}
		b, err := io.ReadAll(flate.NewReader(bytes.NewReader(x.Body)))
		if err != nil {
			return nil, fmt.Errorf("body declared as deflate does not decode after %d bytes: %v", len(b), err)
		}
		return b, nil
	default:
		return nil, fmt.Errorf("unknown Content-Encoding %q", enc)
	}
}

// decodePrefix decodes as much as a truncated body allows.
func decodePrefix(enc string, body []byte) []byte {
	var rd io.Reader
	switch enc {
	case "gzip":
		zr, err := gzip.NewReader(bytes.NewReader(body))
		if err != nil {
			return nil
		}
		rd = zr
	case "deflate":
		rd = flate.NewReader(bytes.NewReader(body))
	default:
		return body
	}
	b, _ := io.ReadAll(rd)
	return b
}
