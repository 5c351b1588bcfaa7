package harness

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/fs"
	"log"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ixtendio/gofre"
	"github.com/ixtendio/gofre/middleware"
	"github.com/ixtendio/gofre/response"
	"verifsim/simhttp"
	"verifsim/simrt"
)

// C22: the static resources served by a gofre application.

func init() {
	register(&Scenario{Prop: "C22", Near: true, Gen: genC22, Run: runC22, Pol: func(r *Rng, p *simrt.Policy) { p.AdvP = 0 },
		Rule: "A case is one or two applications (random context path, mapping path and case sensitivity, each with its own directory of files and its own routes next to and below the mapping path) and 2-6 clients asking for files, directories, missing and escaping names, with ranges and conditions, while a deployment replaces, adds and removes files by renaming; opens, stats, reads, seeks and directory reads fail, come up short or stall, and clients stall and go away. Every answer is compared with the one net/http's file server gives for a version of the file that existed during the request."})
}

// the operations' faults
const (
	fsNone = iota
	fsOpenMfile
	fsOpenPerm
	fsOpenGone
	fsStat
	fsRead
	fsShort
	fsSeek
	fsReaddir
	fsClose
	fsStallOpen
	fsStallRead
	fsStallStat
	fsKinds
)

var fsFaultName = [...]string{"", "open: too many open files", "open: permission denied", "open: file gone", "stat fails", "read fails", "short reads", "seek fails", "readdir fails", "close fails", "open stalls", "read stalls", "stat stalls"}

var (
	assetCtx   = []string{"", "/", "/app", "/a/b"}
	assetMap   = []string{"assets", "static/files", ""}
	assetNames = []string{"a.txt", "b.css", "big.bin", "empty.html", "sub/c.js", "sub/deep/d.json", "idx/index.html", "idx/", "sub/", "sub", "Mixed/Case.TXT", "sp ace/\u00fc.txt",
		"live/a.txt", "live/b.bin", "live/new.html", "live/a.txt", "live/b.bin", "missing.txt", ".well-known/x.txt", "sub/.hid/e.txt", "back.txt~", "UP.PHP", "sub/.hid/", "sub/missing.js", "a.txt/", "mixed/case.txt", "page.html", "100%25.txt", "index.html",
		"../secret.txt", "sub/../../secret.txt", "..", "../", "./a.txt", "sub/../a.txt", "..\\secret.txt", "nul\x00.txt", "....//secret.txt", "sub//c.js", "own/x7", "own/y/z", "{id}", "*"}
	assetStatic = map[string]int{"a.txt": 23, "b.css": 600, "big.bin": 70000, "empty.html": 0, "sub/c.js": 5000, "sub/deep/d.json": 90, "idx/index.html": 300, "Mixed/Case.TXT": 44, "sp ace/\u00fc.txt": 17, "page.html": 2100, "100%25.txt": 12, "index.html": 260, ".well-known/x.txt": 31, "sub/.hid/e.txt": 19, "back.txt~": 25, "UP.PHP": 28}
	assetLive   = []string{"live/a.txt", "live/b.bin", "live/new.html"}
)

const assetSecret = "the-secret-outside-the-assets-directory"

func assetContent(app int, name string, version int) []byte {
	n, ok := assetStatic[name]
	if !ok {
		n = 40 + version*1700
	}
	var b bytes.Buffer
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "<app%d %s v%d #%d>\n", app, name, version, i)
	}
	return b.Bytes()[:n]
}

func assetTime(version int) time.Time { return time.Unix(1000000000+int64(version)*3600, 0) }

var assetTree struct {
	once sync.Once
	err  error
	root string
}

func putAsset(app int, name string, version int) error {
	dst := filepath.Join(assetTree.root, fmt.Sprintf("app%d", app), filepath.FromSlash(name))
	if version < 0 {
		return os.Remove(dst)
	}
	tmp := filepath.Join(assetTree.root, "tmp")
	if err := os.WriteFile(tmp, assetContent(app, name, version), 0o644); err != nil {
		return err
	}
	if err := os.Chtimes(tmp, assetTime(version), assetTime(version)); err != nil {
		return err
	}
	os.MkdirAll(filepath.Dir(dst), 0o755)
	return os.Rename(tmp, dst)
}

// makeTree builds the directories once per process, below the check's own
// scratch directory.
func makeTree() (string, error) {
	t := &assetTree
	t.once.Do(func() {
		base := os.TempDir()
		if j := os.Getenv("VSIM_JOB"); j != "" {
			base = filepath.Dir(j)
		}
		if t.root, t.err = os.MkdirTemp(base, "assets"); t.err != nil {
			return
		}
		for app := 0; app < 2; app++ {
			for name := range assetStatic {
				if err := putAsset(app, name, 0); err != nil {
					t.err = err
				}
			}
		}
		for _, n := range []string{"secret.txt", "app0secret.txt"} {
			if err := os.WriteFile(filepath.Join(t.root, n), []byte(assetSecret), 0o644); err != nil {
				t.err = err
			}
		}
		// directory listings show the modification times of nothing, but
		// conditional requests for directories do look at them
		filepath.WalkDir(t.root, func(p string, d fs.DirEntry, err error) error {
			if err == nil && d.IsDir() {
				os.Chtimes(p, assetTime(0), assetTime(0))
			}
			return nil
		})
	})
	return t.root, t.err
}

// refFS is the directory as it was with a given version of one file.
type refFS struct {
	dir     http.Dir
	app     int
	name    string
	version int
}

type memFile struct {
	*bytes.Reader
	refFS
}

func (r refFS) Open(name string) (http.File, error) {
	if name != "/"+r.name {
		return r.dir.Open(name)
	}
	if r.version < 0 {
		return nil, fs.ErrNotExist
	}
	return &memFile{bytes.NewReader(assetContent(r.app, r.name, r.version)), r}, nil
}
func (f *memFile) Close() error                       { return nil }
func (f *memFile) Readdir(int) ([]fs.FileInfo, error) { return nil, fs.ErrInvalid }
func (f *memFile) Stat() (fs.FileInfo, error)         { return f, nil }
func (f *memFile) Name() string                       { return filepath.Base(f.name) }
func (f *memFile) Mode() fs.FileMode                  { return 0o644 }
func (f *memFile) ModTime() time.Time                 { return assetTime(f.version) }
func (f *memFile) IsDir() bool                        { return false }
func (f *memFile) Sys() any                           { return nil }

func genC22(r *Rng, th bool) *Case {
	c := &Case{Cfg: P("ctx", r.Intn(len(assetCtx)), "map", r.Intn(len(assetMap)), "ci", r.Intn(2), "two", r.Intn(2), "ctx2", r.Intn(len(assetCtx)), "map2", r.Intn(len(assetMap)), "common", r.Intn(2), "own", r.Intn(2))}
	calm := r.Intn(3) == 0 // no faults
	focus := -1
	if r.Intn(3) == 0 {
		focus = r.Intn(len(assetNames))
	}
	n, most := 2+r.Intn(5), 5
	crowd := r.Intn(12) == 0
	if crowd {
		// many clients are slow together: whatever they share runs out
		n, most, focus = []int{10, 18, 34, 66}[r.Intn(4)]+r.Intn(9), 2, r.Intn(6)
	}
	for a := 0; a < n; a++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(most); i++ {
			p := P("app", r.Intn(2), "n", r.Intn(len(assetNames)), "cond", r.Intn(18), "tag", r.Intn(1<<16), "var", r.Intn(3), "buf", r.Intn(3), "pre", r.Intn(3)*r.Intn(2000))
			if focus >= 0 && r.Intn(4) > 0 {
				p["n"] = int64(focus)
			}
			if !calm && r.Intn(2) == 0 {
				p["fs"] = int64(1 + r.Intn(fsKinds-1))
				p["at"] = int64(r.Intn(3) * r.Intn(4))
				p["sz"] = int64(1 + r.Intn(700))
			}
			if !calm && r.Intn(4) == 0 {
				p["fault"] = int64(1 + r.Intn(3))
				p["faultat"] = int64(r.Intn(3)*r.Intn(9000)) - 1
			}
			if !calm && r.Intn(6) == 0 {
				p["stall"] = int64(1000 + r.Intn(60000))
			}
			if crowd {
				p["cond"] = 6
				if r.Intn(8) > 0 {
					delete(p, "fault")
					p["fs"], p["at"], p["pre"], p["stall"] = []int64{0, 0, fsStallRead, fsStallOpen}[r.Intn(4)], 0, int64(r.Intn(500)), int64(20000+r.Intn(40000))
				}
			}
			ops = append(ops, Op{K: "get", P: p})
		}
		c.Actors = append(c.Actors, ops)
	}
	for d := 0; d < r.Intn(3); d++ {
		var ops []Op
		for i := 0; i < 1+r.Intn(6); i++ {
			ops = append(ops, Op{K: "put", P: P("app", r.Intn(2), "f", r.Intn(len(assetLive)), "pre", r.Intn(3)*r.Intn(2000), "del", r.Intn(4)/3)})
		}
		c.Actors = append(c.Actors, ops)
	}
	return c
}

type fsPlan struct {
	kind, at, n int
	size        int
	fired       bool
	held        time.Duration
}

func runC22(e *Env, c *Case) {
	root, err := makeTree()
	if err != nil {
		e.Bug("scratch directory: %v", err)
		return
	}
	log.SetOutput(io.Discard) // net/http's file server reports directory errors there
	// versions of the files that change: the current one, and all so far
	type hist struct {
		seq int64
		v   int
	}
	live := map[string][]hist{}
	var latest [2]int
	for app := 0; app < 2; app++ {
		for _, n := range assetLive {
			v := 0
			if strings.HasSuffix(n, "new.html") {
				v = -1
			}
			putAsset(app, n, v)
			live[fmt.Sprint(app, n)] = []hist{{0, v}}
		}
	}
	plans := map[string]*fsPlan{}
	open := map[string]int{}
	opens := 0
	simhttp.Hook = func(op *simhttp.Op) error {
		switch op.Kind {
		case "opened":
			open[op.Name]++
			opens++
			return nil
		case "closed":
			open[op.Name]--
			return nil
		}
		p := plans[simrt.SelfName()]
		if p == nil {
			return nil
		}
		hit := func(kind string) bool {
			if op.Kind != kind {
				return false
			}
			p.n++
			if p.n-1 == p.at {
				e.Fault(fsFaultName[p.kind])
				p.fired = true
				return true
			}
			return false
		}
		stall := func() {
			t0 := e.W.Now()
			pause(45000)
			p.held += e.W.Now() - t0
		}
		perr := func(en syscall.Errno) error { return &fs.PathError{Op: op.Kind, Path: op.Name, Err: en} }
		switch p.kind {
		case fsOpenMfile:
			if hit("open") {
				return perr(syscall.EMFILE)
			}
		case fsOpenPerm:
			if hit("open") {
				return perr(syscall.EACCES)
			}
		case fsOpenGone:
			if hit("open") {
				return perr(syscall.ENOENT)
			}
		case fsStat:
			if hit("stat") {
				return perr(syscall.EIO)
			}
		case fsRead:
			if hit("read") {
				return perr(syscall.EIO)
			}
		case fsShort:
			if op.Kind == "read" {
				op.Max = p.size
				e.Fault(fsFaultName[p.kind])
			}
		case fsSeek:
			if hit("seek") {
				return perr(syscall.EIO)
			}
		case fsReaddir:
			if hit("readdir") {
				return perr(syscall.EIO)
			}
		case fsClose:
			if op.Kind == "close" {
				e.Fault(fsFaultName[p.kind])
				return perr(syscall.EIO)
			}
		case fsStallOpen:
			if hit("open") {
				stall()
			}
		case fsStallRead:
			if hit("read") {
				stall()
			}
		case fsStallStat:
			if hit("stat") {
				stall()
			}
		}
		return nil
	}
	defer func() { simhttp.Hook = nil }()

	type asset struct {
		app    *App
		prefix string // context path + mapping path, with the final slash
		ctx    string
		dir    string
		ci     bool
	}
	var apps []*asset
	for i := 0; i < 1+c.I("two"); i++ {
		sfx := []string{"", "2"}[i]
		a := &asset{dir: filepath.Join(root, fmt.Sprintf("app%d", i)), ci: i == 0 && c.I("ci") == 1}
		a.ctx = assetCtx[c.I("ctx"+sfx)%len(assetCtx)]
		m := assetMap[c.I("map"+sfx)%len(assetMap)]
		a.app = newApp(e, &gofre.Config{CaseInsensitivePathMatch: a.ci, ContextPath: a.ctx, ResourcesConfig: &gofre.ResourcesConfig{AssetsDirPath: a.dir, AssetsMappingPath: m, Template: response.NilTemplate{}}})
		if a.app.Mux == nil {
			return
		}
		if m == "" {
			m = "assets" // the documented default
		}
		if a.ctx == "/" {
			a.ctx = ""
		}
		a.prefix = a.ctx + "/" + m + "/"
		if c.I("common") == 1 {
			a.app.Mux.CommonMiddlewares(middleware.SecurityHeaders(middleware.SecurityHeadersConfig{XSSProtectionEnabled: true}))
		}
		own := func(ctx context.Context, mc MC) (Resp, error) {
			pause(0)
			return response.PlainTextHttpResponseOK(fmt.Sprintf("own route %d %s", i, mc.PathVar("id"))), nil
		}
		a.app.Mux.HandleGet("/api/{id}", own) // the context path is the assets' only
		if c.I("own") == 1 {
			a.app.Mux.HandleGet(a.ctx+"/"+m+"/own/{id}", own)
		}
		apps = append(apps, a)
	}

	// the entity tags the server gave out, by file, and for which version
	seenTags := map[string][]string{}
	tagOfVersion := map[string]bool{}
	k0 := func(app int, name string) string { return fmt.Sprint(app, "/", name, " ") }
	for ai, ops := range c.Actors {
		if len(ops) > 0 && ops[0].K == "put" {
			e.Actor(fmt.Sprintf("deploy%d", ai), func() {
				for _, op := range ops {
					pause(op.P["pre"])
					app, name := op.I("app")%2, assetLive[op.I("f")%len(assetLive)]
					k := fmt.Sprint(app, name)
					h := live[k]
					v := -1
					if op.I("del") == 0 {
						latest[app]++
						v = latest[app]
					} else if h[len(h)-1].v < 0 {
						continue
					}
					// the rename is atomic and so is recording it
					if err := putAsset(app, name, v); err != nil {
						e.Bug("deploy %s: %v", name, err)
						return
					}
					live[k] = append(h, hist{e.Seq(), v})
					e.Probe("file replaced")
					e.Log("deploy app%d %s version %d", app, name, v)
				}
			})
			continue
		}
		me := fmt.Sprintf("client%d", ai)
		e.Actor(me, func() {
			for i, op := range ops {
				pause(op.P["pre"])
				a := apps[op.I("app")%len(apps)]
				idx := op.I("app") % len(apps)
				name := assetNames[op.I("n")%len(assetNames)]
				spec := &ReqSpec{Method: "GET", Path: a.prefix + name, Variant: op.I("var") % 3, Header: hdr("X-Sim", tagOf(ai, i)), BufSize: []int{0, 64, 4096}[op.I("buf")%3],
					Fault: op.I("fault"), FaultAt: op.P["faultat"], Grace: op.I("at"), Stall: time.Duration(op.P["stall"]) * time.Millisecond}
				ranged := false
				switch op.I("cond") {
				case 0:
					spec.Header.Set("Range", fmt.Sprintf("bytes=%d-%d", op.I("pre")%50, op.I("pre")))
					ranged = true
				case 1:
					spec.Header.Set("Range", "bytes=-7")
					ranged = true
				case 2:
					spec.Header.Set("Range", "bytes=100000000-")
					ranged = true
				case 3:
					spec.Header.Set("If-Modified-Since", assetTime(op.I("pre")%3).UTC().Format(http.TimeFormat))
				case 4:
					spec.Header.Set("If-Range", assetTime(0).UTC().Format(http.TimeFormat))
					spec.Header.Set("Range", "bytes=3-9")
					ranged = true
				case 5:
					spec.Header.Set("If-Unmodified-Since", assetTime(0).UTC().Format(http.TimeFormat))
				}
				// a client that revalidates what it has, or what another client told it
				tag := ""
				switch cd := op.I("cond"); cd {
				case 12, 13, 14, 15:
					t := op.I("tag")
					v := t % 3
					size, mt := len(assetContent(idx, name, v)), assetTime(v)
					tag = []string{fmt.Sprintf(`"%x"`, size), fmt.Sprintf(`"%x-%x"`, mt.Unix(), size), fmt.Sprintf(`"%d"`, size), fmt.Sprintf(`"%x"`, mt.Unix()), fmt.Sprintf(`"%x-%x"`, size, mt.UnixNano()/1000), fmt.Sprintf(`"%d"`, mt.Unix()), `""`, `"v1"`}[t/3%8]
					if t/24%2 == 1 {
						tag = "W/" + tag
					}
					if s := seenTags[k0(idx, name)]; cd == 15 && len(s) > 0 {
						tag = s[t%len(s)]
					}
					spec.Header.Set("If-None-Match", tag)
					if t/48%3 == 0 {
						spec.Header.Set("If-None-Match", `"other", `+tag)
					}
					if t/48%3 == 1 {
						spec.Header.Set("If-Modified-Since", assetTime(t/144%3).UTC().Format(http.TimeFormat))
					}
				case 16:
					spec.Header.Set("If-None-Match", "*")
				case 17:
					spec.Header.Set("If-Match", fmt.Sprintf(`"%x"`, op.I("tag")))
				}
				isOwn := c.I("own") == 1 && strings.HasPrefix(name, "own/") && strings.Count(name, "/") == 1
				if op.I("cond") == 11 {
					spec.Path, isOwn, name = "/api/x7", true, "own/x7"
				}
				plan := &fsPlan{kind: op.I("fs"), at: op.I("at"), size: op.I("sz")}
				plans[me] = plan
				k := fmt.Sprint(idx, name)
				from := e.Seq()
				x := e.Serve(a.app.Mux, spec)
				to := e.Seq()
				delete(plans, me)
				e.Check()
				at := fmt.Sprintf("request %s for %q (app%d, %v, %s)", tagOf(ai, i), spec.Path, idx, spec.Header, fsFaultName[plan.kind])
				e.Log("%s: status %d, %d bytes, complete %v, fault %v %v", at, x.Status, len(x.Body), x.Complete, plan.fired, x.RW.FaultFired)
				if bytes.Contains(x.Body, []byte(assetSecret)) {
					e.Fail("escape", "%s: served a file from outside the assets directory", at)
					return
				}
				if x.Panic != nil {
					e.Fail("panic", "%s: panic left ServeHTTP: %s", at, x.PanicText)
					return
				}
				if lim := plan.held + x.RW.Stalled + time.Second; x.Took > lim {
					e.Fail("delayed", "%s: took %v although its own files and client account for %v only", at, x.Took, plan.held+x.RW.Stalled)
					return
				}
				if isOwn {
					e.Probe("own route next to the assets")
					want := fmt.Sprintf("own route %d %s", idx, strings.TrimPrefix(name, "own/"))
					if x.RW.FaultFired {
						continue
					}
					if x.Status != 200 || string(x.Body) != want {
						e.Fail("route", "%s: got %d %q, want the application's own route answering %q", at, x.Status, trunc(string(x.Body)), want)
						return
					}
					continue
				}
				if p := strings.TrimSuffix(spec.Path, "/"); path.Clean(p) != p && x.Status == 404 {
					e.Probe("unclean path refused") // the router's path rules are C01's business
					continue
				}
				if plan.fired && strings.HasSuffix(spec.Path, "/") {
					continue // without its index file a directory may be listed instead
				}
				// the versions current at some time during the request
				versions := []int{0}
				isLive := false
				if h := live[k]; h != nil {
					isLive = true
					versions = nil
					for j, v := range h {
						if v.seq < to && (j+1 == len(h) || h[j+1].seq > from) {
							versions = append(versions, v.v)
						}
					}
				}
				var why string
				ok := false
				for _, v := range versions {
					ref := refAsset(spec, a.prefix, refFS{http.Dir(a.dir), idx, name, v}, isLive, a.dir)
					if tag != "" && x.Status == 304 && tagOfVersion[k0(idx, name)+fmt.Sprint(v)+tag] {
						ok = true
						e.Probe("revalidated by a tag")
						break
					}
					if why = diffAsset(x, ref, plan.fired, strings.Contains(spec.Path, "\x00")); why == "" {
						ok = true
						e.Probe(fmt.Sprintf("answer %d", ref.Code))
						if t := x.Header.Get("Etag"); t != "" && ref.Code == 200 && len(versions) == 1 {
							seenTags[k0(idx, name)] = append(seenTags[k0(idx, name)], t)
							tagOfVersion[k0(idx, name)+fmt.Sprint(v)+t] = true
						}
						if ranged && ref.Code == 206 {
							e.Probe("range")
						}
						break
					}
				}
				if len(versions) > 1 {
					e.Probe("replaced during the request")
				}
				if !ok {
					e.Fail("content", "%s: %s (%d possible versions)", at, why, len(versions))
					return
				}
			}
		})
	}
	if !e.MustFinish(100*time.Hour, "progress") {
		return
	}
	e.Drain(time.Minute)
	for n, k := range open {
		if k > 0 {
			e.Fail("leak", "%d of the handles opened for %q are still open after all requests have ended (%d files opened)", k, n, opens)
			return
		}
	}
}

// refAsset answers the request with net/http's file server directly.
func refAsset(spec *ReqSpec, prefix string, rfs refFS, isLive bool, dir string) *httptest.ResponseRecorder {
	var root http.FileSystem = http.Dir(dir)
	if isLive {
		root = rfs
	}
	r := buildRequest(&ReqSpec{Method: spec.Method, Path: spec.Path, Header: spec.Header.Clone(), Variant: spec.Variant}, context.Background())
	r.URL = &url.URL{Path: spec.Path}
	w := httptest.NewRecorder()
	http.StripPrefix(prefix, http.FileServer(root)).ServeHTTP(w, r)
	return w
}

// diffAsset compares what the client got with the reference; fsFault says that
// an operation on the files failed on purpose, odd that no file can have the
// name, which one file system calls missing and another one invalid.
func diffAsset(x *Exchange, ref *httptest.ResponseRecorder, fsFault, odd bool) string {
	want := ref.Body.Bytes()
	odd = odd && ref.Code >= 400
	if x.Status == 0 {
		if x.RW.FaultFired {
			return ""
		}
		return "the client got no answer"
	}
	if (fsFault || odd) && x.Status >= 400 && x.Status != ref.Code {
		return ""
	}
	if x.Status != ref.Code {
		return fmt.Sprintf("status %d, want %d", x.Status, ref.Code)
	}
	for _, h := range []string{"Content-Type", "Last-Modified", "Accept-Ranges", "Content-Range", "Location", "Content-Length", "Content-Encoding"} {
		g, w := x.Header.Get(h), ref.Header().Get(h)
		if h == "Content-Length" && w == "" && g == fmt.Sprint(len(want)) {
			w = g // net/http may add it at the end of the handler
		}
		if g != w && !(h == "Content-Length" && g == "") {
			return fmt.Sprintf("header %s is %q, want %q", h, g, w)
		}
	}
	if !bytes.HasPrefix(want, x.Body) {
		n := 0
		for n < len(want) && n < len(x.Body) && want[n] == x.Body[n] {
			n++
		}
		return fmt.Sprintf("%d bytes of content, want %d; they differ at offset %d: %q instead of %q", len(x.Body), len(want), n, trunc(string(x.Body[n:])), trunc(string(want[n:])))
	}
	if len(x.Body) < len(want) && !x.RW.FaultFired && !fsFault {
		return fmt.Sprintf("only %d of %d bytes arrived and nothing had failed", len(x.Body), len(want))
	}
	if len(x.Body) < len(want) && x.Complete {
		return fmt.Sprintf("only %d of %d bytes arrived but the client cannot know that", len(x.Body), len(want))
	}
	return ""
}
