package zzsim

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"net/http"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Exchange is one HTTP request of a simulated process and its answer.
type Exchange struct {
	proc   *Proc
	kind   string // zip, batch, detail, other
	method string
	url    string
	hdr    http.Header
	body   []byte
	ctx    context.Context

	answered bool
	chunked  bool
	status   int
	rhdr     http.Header
	pairs    [][2]string
	rbody    []byte
	cutAt    int // -1: complete; else the body breaks off here
	cutErr   error
	err      error // transport error
	fault    string
	off      int
	eof      bool // the client has read the whole body

	arch   *ArchVersion // designated archive (200 with it, or 304 vouching for it)
	api    *API
	ids    []string   // detail: the id asked for
	query  []apiQuery // batch
	atStep int
}

type apiQuery struct {
	Commit  string `json:"commit"`
	Version string `json:"version"`
	Package struct {
		Name      string `json:"name"`
		Ecosystem string `json:"ecosystem"`
	} `json:"package"`
}

// Net is the simulated internet.
type Net struct {
	sim       *Sim
	zips      map[string]*Archive
	apis      map[string]*API
	log       []*Exchange
	chunk     int  // which answers come without their length
	fixedDate bool // every answer carries the same Date
	// restrict the kinds of http faults ("" = all)
	kinds  map[string][]string
	mutate func(x *Exchange)
}

// Archive is a published zip database with its history.
type Archive struct {
	url      string
	versions []*ArchVersion
	style    int    // which validators the server sends
	redir    string // where it really is ("": here)
	weak     bool   // its ETags are weak ones
	cur      *ArchVersion
}

const (
	valBoth = iota
	valETag
	valDate
	valNone
	valSilent // sends none, but heeds dates
	nVal
)

type ArchVersion struct {
	a     *Archive
	n     int
	style int // which validators the server sends with it
	etag  string
	mtime int64 // virtual seconds
	advs  []*Adv
	files []archFile
	body  []byte
}

type archFile struct {
	name    string
	adv     *Adv // nil: not an advisory
	damaged string
}

// API is a simulated OSV API.
type API struct {
	base  string
	advs  []*Adv
	token bool // answers carry a token
	extra bool // answers carry fields the client does not know
	twice bool // every id of a package is listed twice
	pad   int  // bytes of something else in an answer

	padded int
}

func (n *Net) wallSec() int64 { return 1700000000 + runtime.SimNow()/1e9 }

func httpDate(sec int64) string { return time.Unix(sec, 0).UTC().Format(http.TimeFormat) }

// transport is installed as net/http's SimTransport.
func transport(req *http.Request) (*http.Response, error) {
	x := &Exchange{method: req.Method, url: req.URL.String(), hdr: req.Header.Clone(), ctx: req.Context(), cutAt: -1}
	if req.Body != nil && req.Body != http.NoBody {
		// connecting takes time; the body is only read after that
		x.kind = classify(x)
		syscall.SimCall(&syscall.SimOp{Kind: syscall.SimOpYield, X: x})
		b, err := io.ReadAll(req.Body)
		req.Body.Close()
		if err != nil {
			return nil, err
		}
		x.body = b
	}
	x.kind = classify(x)
	syscall.SimCall(&syscall.SimOp{Kind: syscall.SimOpHTTP, X: x})
	if x.err != nil {
		return nil, x.err
	}
	resp := &http.Response{
		StatusCode: x.status, Status: fmt.Sprintf("%d %s", x.status, http.StatusText(x.status)),
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Request: req, ContentLength: int64(len(x.rbody)),
	}
	if x.chunked {
		resp.ContentLength = -1
		resp.TransferEncoding = []string{"chunked"}
	} else if x.status != 304 {
		resp.Header["Content-Length"] = []string{strconv.Itoa(len(x.rbody))}
	}
	for _, kv := range x.pairs {
		resp.Header[launder(kv[0])] = []string{launder(kv[1])}
	}
	if x.status == 304 || req.Method == http.MethodHead {
		resp.Body = http.NoBody
		resp.ContentLength = 0
	} else {
		resp.Body = &simBody{x: x}
	}
	return resp, nil
}

// launder copies a string the simulator made.  This package is built without
// race instrumentation, so the copy is the simulated process's own: the
// simulator passes data to it without ordering it after anything else.
func launder(s string) string {
	b := make([]byte, len(s))
	for i := range b {
		b[i] = s[i]
	}
	return unsafe.String(unsafe.SliceData(b), len(b))
}

type simBody struct {
	x      *Exchange
	closed bool
}

func (b *simBody) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	if len(p) == 0 {
		return 0, nil
	}
	op := &syscall.SimOp{Kind: syscall.SimOpBody, X: b.x, Buf: p}
	syscall.SimCall(op)
	if op.N > 0 {
		return op.N, nil
	}
	if b.x.err != nil {
		return 0, b.x.err
	}
	return 0, io.EOF
}

func (b *simBody) Close() error { b.closed = true; return nil }

func classify(x *Exchange) string {
	u, err := url.Parse(x.url)
	if err != nil {
		return "other"
	}
	switch {
	case strings.HasSuffix(u.Path, "/querybatch"):
		return "batch"
	case strings.Contains(u.Path, "/vulns/"):
		return "detail"
	case strings.HasSuffix(u.Path, ".zip"):
		return "zip"
	}
	return "other"
}

// handle answers a request or delivers part of a body.
func (n *Net) handle(p *Proc, op *syscall.SimOp) string {
	x := op.X.(*Exchange)
	if op.Kind == syscall.SimOpBody {
		if e := x.ctx.Err(); e != nil {
			x.err = e
			return x.kind + " body cancelled"
		}
		end := len(x.rbody)
		if x.cutAt >= 0 {
			end = x.cutAt
		}
		if x.off >= end {
			if x.cutAt >= 0 {
				x.err = x.cutErr
				return x.kind + " body CUT"
			}
			x.eof = true
			return x.kind + " body EOF"
		}
		k := end - x.off
		if n.sim.faults != nil && n.sim.faults.benign > 0 && k > 1 && n.sim.f.Pct(n.sim.faults.benign) {
			k = 1 + n.sim.f.N(k)
			n.sim.count("short-body")
		}
		op.N = copy(op.Buf, x.rbody[x.off:x.off+k])
		x.off += op.N
		return x.kind + " body"
	}
	x.proc = p
	x.atStep = n.sim.step
	p.http = append(p.http, x)
	n.log = append(n.log, x)
	if e := x.ctx.Err(); e != nil {
		x.err = e
		x.fault = "cancelled"
		return "http cancelled"
	}
	x.answered = true
	x.rhdr = http.Header{}
	x.rhdr.Set("Date", httpDate(n.wallSec()))
	if n.fixedDate {
		x.rhdr.Set("Date", httpDate(1700000000))
	}
	n.serve(x)
	if n.mutate != nil && x.answered {
		n.mutate(x)
	}
	n.httpFault(x)
	x.chunked = hashStr(x.url)%4 == uint64(n.chunk)
	for _, k := range sortedKeys(x.rhdr) {
		x.pairs = append(x.pairs, [2]string{k, x.rhdr.Get(k)})
	}
	d := fmt.Sprintf("%s %s", x.method, x.url)
	if x.fault != "" {
		d += " FAULT " + x.fault
	}
	if x.arch != nil {
		d += fmt.Sprintf(" [version %d, %s, If-None-Match %q, If-Modified-Since %q]", x.arch.n, x.arch.etag, x.hdr.Get("If-None-Match"), x.hdr.Get("If-Modified-Since"))
	}
	return fmt.Sprintf("%s -> %d (%d bytes)", d, x.status, len(x.rbody))
}

func connErr(u string) error {
	return &net.OpError{Op: "dial", Net: "tcp", Err: syscall.ECONNREFUSED}
}

func (n *Net) serve(x *Exchange) {
	for _, a := range n.zips {
		if a.redir == "" || x.method != "GET" && x.method != "HEAD" {
			continue
		}
		if x.url == a.url {
			x.kind = "hop"
			x.status = 302
			x.rhdr.Set("Location", a.redir)
			x.rbody = []byte("moved")
			return
		}
		if x.url == a.redir {
			x.url = a.url
			a.serve(n, x)
			return
		}
	}
	if a := n.zips[x.url]; a != nil && a.cur != nil && (x.method == "GET" || x.method == "HEAD") {
		a.serve(n, x)
		return
	}
	for base, api := range n.apis {
		rest, ok := strings.CutPrefix(x.url, base+"/")
		if !ok {
			continue
		}
		x.api = api
		if rest == "querybatch" && x.method == "POST" {
			api.batch(x)
			return
		}
		if id, ok := strings.CutPrefix(rest, "vulns/"); ok && x.method == "GET" {
			api.detail(x, id)
			return
		}
		x.status = 404
		x.rbody = []byte(`{"code":5,"message":"not found"}`)
		return
	}
	x.err = connErr(x.url)
	x.fault = "nohost"
}

func (a *Archive) serve(n *Net, x *Exchange) {
	v := a.cur
	if v.style == valETag || v.style == valNone || v.style == valSilent {
		x.rhdr.Del("Date")
	}
	if v.style == valBoth || v.style == valETag {
		x.rhdr.Set("ETag", v.etag)
	}
	if v.style == valBoth || v.style == valDate {
		x.rhdr.Set("Last-Modified", httpDate(v.mtime))
	}
	fresh := false
	switch v.style {
	case valBoth, valETag:
		inm := x.hdr.Get("If-None-Match")
		if inm != "" {
			fresh = inm == v.etag || inm == "*"
		} else if v.style == valBoth {
			fresh = notModifiedSince(x.hdr.Get("If-Modified-Since"), v.mtime)
		}
	case valDate, valSilent:
		fresh = x.hdr.Get("If-None-Match") == "*" || notModifiedSince(x.hdr.Get("If-Modified-Since"), v.mtime)
	}
	x.arch = v
	if fresh {
		x.status = 304
		return
	}
	x.status = 200
	x.rhdr.Set("Content-Type", "application/zip")
	x.rbody = v.body
	// part of it, if that is what is asked for
	var from int
	if _, err := fmt.Sscanf(x.hdr.Get("Range"), "bytes=%d-", &from); err != nil || from >= len(v.body) {
		return
	}
	if c := x.hdr.Get("If-Range"); c != "" && c != v.etag && c != httpDate(v.mtime) {
		return
	}
	x.status = 206
	x.rhdr.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", from, len(v.body)-1, len(v.body)))
	x.rbody = v.body[from:]
}

func notModifiedSince(h string, mtime int64) bool {
	if h == "" {
		return false
	}
	t, err := http.ParseTime(h)
	return err == nil && mtime <= t.Unix()
}

func (api *API) batch(x *Exchange) {
	var q struct {
		Queries []apiQuery `json:"queries"`
	}
	if err := json.Unmarshal(x.body, &q); err != nil {
		x.status = 400
		x.rbody = []byte(`{"code":3,"message":"bad request"}`)
		return
	}
	x.query = q.Queries
	var results []any
	for _, qq := range q.Queries {
		vs := []any{}
		for _, ad := range api.match(qq) {
			m := map[string]any{"id": ad.ID}
			if api.extra {
				m["modified"] = "2023-01-02T03:04:05Z"
			}
			vs = append(vs, m)
			if api.twice {
				vs = append(vs, m)
			}
		}
		r := map[string]any{}
		if len(vs) > 0 || api.extra {
			r["vulns"] = vs
		}
		if api.token && len(vs) > 0 {
			r["next_page_token"] = "CAEQAA=="
		}
		results = append(results, r)
	}
	m := map[string]any{"results": results}
	if api.pad > 0 && api.padded < 8<<20 { // (memory is bounded)
		api.padded += api.pad
		m["note"] = strings.Repeat("x", api.pad)
	}
	b, _ := json.Marshal(m)
	x.status = 200
	x.rhdr.Set("Content-Type", "application/json")
	x.rbody = b
}

func (api *API) match(q apiQuery) []*Adv {
	var out []*Adv
	for _, ad := range api.advs {
		if ad.Withdrawn {
			continue
		}
		if q.Commit != "" {
			if ad.Commit == q.Commit {
				out = append(out, ad)
			}
			continue
		}
		if ad.affects(Pkg{Name: q.Package.Name, Eco: q.Package.Ecosystem, Version: q.Version}) {
			out = append(out, ad)
		}
	}
	return out
}

func (api *API) find(id string) *Adv {
	for _, ad := range api.advs {
		if ad.ID == id {
			return ad
		}
	}
	return nil
}

func (api *API) detail(x *Exchange, id string) {
	if u, err := url.PathUnescape(id); err == nil {
		id = u
	}
	x.ids = []string{id}
	ad := api.find(id)
	if ad == nil {
		x.status = 404
		x.rbody = []byte(`{"code":5,"message":"Bug not found."}`)
		return
	}
	x.status = 200
	x.rhdr.Set("Content-Type", "application/json")
	x.rbody = ad.JSON()
}

var (
	zipFaults    = []string{"conn", "status", "cut", "html", "empty", "304", "reset", "status-zip", "partial"}
	batchFaults  = []string{"conn", "status", "cut", "html", "fewer", "more", "empty", "null", "reset", "badtype", "status-ok", "trailing"}
	detailFaults = []string{"conn", "status", "cut", "html", "wrong-id", "null", "empty", "reset", "badtype", "status-other", "status-ok", "list"}
)

var errReset error = &net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}

// httpFault replaces the answer by a failure, if the fault plan says so.
func (n *Net) httpFault(x *Exchange) {
	fl := n.sim.faults
	if fl == nil || x.fault != "" || fl.rate[x.kind] == 0 {
		return
	}
	f := n.sim.f
	key := x.kind + "|" + x.url
	k := fl.stuck[key]
	if k == "" || x.kind == "batch" && !f.Pct(50) {
		if fl.skip > 0 {
			fl.skip--
			return
		}
		if fl.budget <= 0 || !f.Pct(fl.rate[x.kind]) {
			return
		}
		var kinds []string
		switch x.kind {
		case "zip":
			kinds = zipFaults
		case "batch":
			kinds = batchFaults
		case "detail":
			kinds = detailFaults
		}
		if o := n.kinds[x.kind]; o != nil {
			kinds = o
		}
		k = fl.choose(f, kinds)
		fl.budget--
	}
	fl.stuckOnce(key, k)
	statuses := []int{500, 503, 404, 403, 429, 400, 502, 204, 206, 201, 302, 300, 412, 410, 202, 226, 203, 207, 503, 429}
	switch k {
	case "conn":
		x.err = []error{connErr(x.url), errReset, &net.DNSError{Err: "no such host", Name: "x"}, io.ErrUnexpectedEOF, context.DeadlineExceeded}[fl.subkind(f, key, 5)]
	case "status":
		x.status = statuses[fl.subkind(f, key, len(statuses))]
		x.rbody = []byte("<html>error</html>")
		if (x.status == 503 || x.status == 429) && fl.subkind(f, key+" after", 3) > 0 {
			x.rhdr.Set("Retry-After", "0")
		}
	case "status-zip", "status-ok":
		// an error status with a body that looks fine
		if x.status != 200 {
			return
		}
		x.status = statuses[fl.subkind(f, key, len(statuses))]
	case "status-other":
		if x.status != 200 || x.api == nil || len(x.api.advs) < 2 {
			return
		}
		x.status = statuses[fl.subkind(f, key, len(statuses))]
		x.rbody = x.api.advs[f.N(len(x.api.advs))].JSON()
	case "cut", "reset":
		if x.status != 200 || len(x.rbody) == 0 {
			return
		}
		x.cutAt = f.N(len(x.rbody))
		x.cutErr = io.ErrUnexpectedEOF
		if k == "reset" {
			x.cutErr = errReset
		}
	case "html":
		x.status = 200
		x.rbody = []byte("<!doctype html><html><body>Please log in to this network</body></html>")
		if x.kind == "zip" && f.N(2) == 1 {
			x.rhdr.Set("ETag", `"portal"`)
		}
	case "empty":
		x.status = 200
		x.rbody = nil
	case "partial":
		// a complete answer that holds only the first part of the archive
		if x.status != 200 || len(x.rbody) < 2 {
			return
		}
		x.rbody = x.rbody[:1+f.N(len(x.rbody)-1)]
	case "304":
		if x.hdr.Get("If-None-Match") != "" || x.hdr.Get("If-Modified-Since") != "" {
			return // a solicited 304 that is not true is a lying server: do not do that
		}
		// unsolicited: it cannot vouch for anything
		x.status = 304
		x.rbody = nil
	case "fewer", "more":
		if x.status != 200 {
			return
		}
		var r struct {
			Results []json.RawMessage `json:"results"`
		}
		if json.Unmarshal(x.rbody, &r) != nil {
			return
		}
		if k == "fewer" {
			if len(r.Results) == 0 {
				return
			}
			i := f.N(len(r.Results))
			r.Results = append(r.Results[:i:i], r.Results[i+1:]...)
		} else {
			i := f.N(len(r.Results) + 1)
			rest := append([]json.RawMessage{json.RawMessage(`{}`)}, r.Results[i:]...)
			r.Results = append(r.Results[:i:i], rest...)
		}
		if r.Results == nil {
			r.Results = []json.RawMessage{}
		}
		x.rbody, _ = json.Marshal(r)
	case "null":
		x.status = 200
		x.rbody = []byte("null")
		if x.kind == "batch" && f.N(2) == 1 {
			x.rbody = []byte(`{"results":null}`)
		}
	case "trailing":
		// more than one document
		if x.status != 200 {
			return
		}
		x.rbody = append(x.rbody[:len(x.rbody):len(x.rbody)], [][]byte{x.rbody, []byte("<html>"), []byte("}"), []byte(`{"code":13,"message":"internal error"}`)}[f.N(4)]...)
	case "list":
		x.status = 200
		x.rbody = []byte("[]")
	case "badtype":
		if x.status != 200 {
			return
		}
		if x.kind == "batch" {
			x.rbody = bytes.Replace(x.rbody, []byte(`"results":`), []byte(`"results":7,"was":`), 1)
		} else {
			x.rbody = bytes.Replace(x.rbody, []byte(`"summary":`), []byte(`"summary":7,"was":`), 1)
		}
	case "wrong-id":
		if x.status != 200 || x.api == nil {
			return
		}
		var others []*Adv
		for _, a := range x.api.advs {
			if a.ID != x.ids[0] {
				others = append(others, a)
			}
		}
		if len(others) == 0 {
			return
		}
		o := others[f.N(len(others))]
		x.rbody = o.JSON()
		switch f.N(4) {
		case 2: // without saying whose they are
			x.rbody = bytes.Replace(x.rbody, []byte(`"id":`), []byte(`"x-id":`), 1)
		case 3:
			b := *o
			b.json = nil
			b.Aliases = append([]string{x.ids[0]}, b.Aliases...)
			x.rbody = b.JSON()
		}
	}
	x.fault = k
	n.sim.count("http-" + x.kind + ":" + k)
}

// subkind refines a fault; what keeps failing keeps failing alike.
func (fl *Faults) subkind(f *Choices, key string, n int) int {
	if i, ok := fl.subs[key]; ok && i < n {
		return i
	}
	i := f.N(n)
	if fl.persist {
		if fl.subs == nil {
			fl.subs = map[string]int{}
		}
		fl.subs[key] = i
	}
	return i
}

func (fl *Faults) stuckOnce(k, v string) {
	if fl.persist {
		fl.stuckPut(k, v)
	}
}

// ok says that the server's intended answer reached the client completely.
func (x *Exchange) ok() bool { return x.answered && x.fault == "" && x.err == nil }

// buildZip renders an archive; damaged entries are stored so that exactly they
// are unreadable or invalid.
func buildZip(files []archFile, comment string) []byte {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	type patch struct{ marker []byte }
	var markers [][]byte
	for i, f := range files {
		data := []byte("not an advisory\n")
		if f.adv != nil {
			data = f.adv.JSON()
		}
		method := zip.Deflate
		if i%2 == 0 {
			method = zip.Store
		}
		switch f.damaged {
		case "json":
			data = data[:len(data)/2]
		case "empty":
			data = nil
		case "type":
			data = []byte(`{"id": 5, "affected": "x"}`)
		case "crc":
			method = zip.Store
			m := []byte(fmt.Sprintf("@@marker%d@@", i))
			data = append([]byte(`{"zz":"`+string(m)+`",`), data[1:]...)
			markers = append(markers, m)
		case "method":
			method = zip.Store
		}
		if strings.HasSuffix(f.name, "/") {
			w.CreateHeader(&zip.FileHeader{Name: f.name})
			continue
		}
		if f.damaged == "size" { // it does not have the size that it says
			h := &zip.FileHeader{Name: f.name, Method: zip.Store, CRC32: crc32.ChecksumIEEE(data),
				CompressedSize64: uint64(len(data)), UncompressedSize64: []uint64{1 << 62, uint64(len(data)) + 1, uint64(len(data)) - 1}[i%3]}
			if fw, err := w.CreateRaw(h); err == nil {
				fw.Write(data)
			}
			continue
		}
		if f.damaged == "method" {
			h := &zip.FileHeader{Name: f.name, Method: 77, CompressedSize64: uint64(len(data)), UncompressedSize64: uint64(len(data))}
			fw, err := w.CreateRaw(h)
			if err == nil {
				fw.Write(data)
			}
			continue
		}
		fw, err := w.CreateHeader(&zip.FileHeader{Name: f.name, Method: method})
		if err == nil {
			fw.Write(data)
		}
	}
	w.SetComment(comment)
	w.Close()
	b := buf.Bytes()
	for _, m := range markers {
		if i := bytes.Index(b, m); i >= 0 {
			b[i]++ // still valid JSON, but not what was stored
		}
	}
	return b
}
