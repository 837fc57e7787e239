package zzsim

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
)

// Profile says how one property is explored.
type Profile struct {
	id      string
	cats    []string // kinds of violation that break this property
	run     func(r *Run)
	noModel bool // arbitrary bytes: only crashes, hangs, exit status, JSON
	heavy   bool
	race    bool
}

// Run is one simulated history: a world and a sequence of phases.
type Run struct {
	prof   *Profile
	s      *Sim
	w      *World
	st     *Streams
	cache  map[string]cacheSet
	tags   map[string]bool // what made the history interesting
	depth  int
	debris map[string]bool // temporary files that earlier runs left behind

	// accumulated over the simulations of the history
	traceOn bool
	trace   []string
	hash    uint64
	counts  map[string]int
	viol    []Violation
	steps   int
	sched   int
	nproc   int
	simNs   int64
}

type spec struct {
	offline bool
	kill    *KillPlan
	args    []string // replaces the world's command line
	noJudge bool
}

func newRun(prof *Profile, run RunFunc, st *Streams) *Run {
	return &Run{prof: prof, st: st, tags: map[string]bool{}, counts: map[string]int{}}
}

var peakMB int // memory in use at most, as far as it was looked at

var sinceGC, finished int

// begin starts a fresh simulation.
func (r *Run) begin() {
	r.cache = map[string]cacheSet{}
	tmpDir = "/tmp"
	os.Setenv("TMPDIR", tmpDir)
	os.Unsetenv("OSV_DETECTOR_PREFER_API")
	r.s = NewSim(theRun, r.st)
	r.s.traceOn = r.traceOn
	curSim = r.s
	runtime.SimStart(uint64(r.st.S.N(1 << 30)))
}

// finish ends the current simulation and adds up what it did.
func (r *Run) finish() {
	s := r.s
	r.simNs += runtime.SimNow()
	runtime.SimStop()
	resetGlobals()
	s.lastP = nil
	curSim = nil
	r.trace = append(r.trace, s.trace...)
	r.hash = mix64(r.hash) ^ s.hash
	for k, n := range s.counts {
		r.counts[k] += n
	}
	r.viol = append(r.viol, s.viol...)
	r.steps += s.step
	r.sched += s.sched
	if finished++; finished%8 == 0 || s.step > 1000 {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		peakMB = max(peakMB, int(ms.Sys>>20))
		if ms.HeapAlloc > 400<<20 {
			sinceGC += 20000
		}
	}
	sinceGC += 200 + s.step
	for _, x := range s.net.log {
		sinceGC += len(x.rbody) / 100
	}
	if sinceGC > 20000 {
		sinceGC = 0
		runtime.GC()
	}
}

func (r *Run) world(k Knobs) *World {
	r.w = GenWorld(k, r.s, r.st.W)
	for _, a := range r.s.net.zips {
		r.cache[a.url] = cacheSet{nil: true}
	}
	if r.st.S.Pct(70) {
		r.s.fs.dirSeed = uint64(r.st.S.N(1 << 16))
	}
	r.s.fs.Settle()
	return r.w
}

func (r *Run) tag(t string) { r.tags[t] = true }

// pass lets virtual time go by.
func (r *Run) pass(sec int) { runtime.SimSetNow(runtime.SimNow() + int64(sec)*1e9) }

// clock lets time go by before the next run, and sets the machine's wall clock
// right or wrong.  (The server's clock is always right.)
func (r *Run) clock() {
	f := r.st.F
	if r.s.net.fixedDate {
		return
	}
	if f.Pct(15) {
		r.pass([]int{60, 3700, 90000, 86400 * 40, 86400 * 400}[f.N(5)])
		r.s.count("time-gap")
	}
	if f.Pct(15) {
		r.s.skew([]int{-1700000000 + 100, -86400 * 400, -90000, -300, 300, 90000, 86400 * 400, 1 << 31}[f.N(8)])
	} else {
		runtime.SimSetSkew(0)
	}
}

func (s *Sim) skew(sec int) {
	runtime.SimSetSkew(int64(sec) * 1e9)
	s.count("clock-skew")
}

// publish gives an archive new contents.
func (r *Run) publish(a *Archive) {
	r.pass(3)
	w := r.w
	v := a.cur
	var advs []*Adv
	for _, ad := range v.advs {
		switch w.ch.N(4) {
		case 3: // withdrawn from the archive
		case 2:
			n := *ad
			n.json = nil
			n.Details = fmt.Sprintf("%s v%d", ad.Details, len(a.versions))
			advs = append(advs, &n)
		default:
			advs = append(advs, ad)
		}
	}
	have := map[string]bool{}
	for _, ad := range advs {
		have[ad.ID] = true
	}
	for _, ad := range w.advSet(fmt.Sprintf("arch%d-v%d", len(a.url), len(a.versions)), "") {
		if !have[ad.ID] {
			advs = append(advs, ad)
			have[ad.ID] = true
		}
	}
	var wds []string
	for _, f := range v.files {
		if strings.HasPrefix(f.name, "main/") || strings.HasPrefix(f.name, "alt/") {
			wds = []string{"main/", "alt/", ""}
		}
	}
	if w.ch.Pct(25) && len(a.versions) > 1 {
		// an older archive is put back
		old := a.versions[w.ch.N(len(a.versions))]
		nv := *old
		nv.n = len(a.versions)
		nv.mtime = r.s.net.wallSec()
		a.versions = append(a.versions, &nv)
		a.cur = &nv
		// the same validator as before designates the same content
	} else {
		w.publish(a, advs, wds)
	}
	r.pass(3)
	r.tag("republish")
}

// tmpDir is the temporary directory of the current world.
var tmpDir = "/tmp"

func cachePathOf(url string) string {
	return fmt.Sprintf("%s/osv-detector-%x-db.json", tmpDir, sha256.Sum256([]byte(url)))
}

// archives in a fixed order
func (r *Run) archives() []*Archive {
	var us []string
	for u := range r.s.net.zips {
		us = append(us, u)
	}
	sort.Strings(us)
	var out []*Archive
	for _, u := range us {
		out = append(out, r.s.net.zips[u])
	}
	return out
}

// exec runs processes concurrently under a fault plan and judges them.
func (r *Run) exec(fl *Faults, specs ...spec) []*Proc {
	s, w := r.s, r.w
	s.style = s.s.N(nStyles)
	s.slow = []int64{0, 20, 40, 60, 3000, 100000}[s.s.N(6)]
	s.pinned = nil
	before := s.fs.Snapshot()
	conf0 := map[string]string{}
	for _, c := range w.confSorted() {
		p := c.path
		b, _ := s.fs.Get(p)
		conf0[p] = string(b)
	}
	logStart := len(s.net.log)
	s.faults = fl
	r.clock()
	var ps []*Proc
	for _, sp := range specs {
		args := sp.args
		if args == nil {
			args = w.cmdline(sp.offline)
		}
		s.note0(fmt.Sprintf("start p%d %s", len(s.procs), strings.Join(args, " ")))
		ps = append(ps, s.Start(args, sp.kill))
	}
	s.Run()
	s.faults = nil
	r.nproc += len(ps)
	r.depth++

	// what may the caches hold now, and what may they have held meanwhile?
	during := map[string]cacheSet{}
	after := map[string]cacheSet{}
	for u, c := range r.cache {
		during[u], after[u] = c.clone(), c.clone()
	}
	for u := range r.cache {
		clean := false
		for i, p := range ps {
			wf := p.killed || p.hung || p.panicked != ""
			for _, f := range p.faults {
				if f.Role == "cache" || f.Role == "tmp" {
					wf = true
				}
			}
			for _, x := range s.net.log[logStart:] {
				if x.proc != p || x.url != u || x.kind != "zip" || x.arch == nil {
					continue
				}
				if !x.ok() || x.status != 200 || x.cutAt >= 0 {
					continue
				}
				during[u][x.arch] = true
				after[u][x.arch] = true
				if !wf && x.arch.style != valNone && x.arch.style != valSilent {
					clean = true
				}
			}
			_ = i
		}
		if clean {
			// some run completed its save: what was there before is gone
			for v := range r.cache[u] {
				if !r.deliveredIn(u, v, logStart) {
					delete(after[u], v)
				}
			}
		}
	}
	if w.tmpBad {
		for u := range r.cache {
			during[u], after[u] = cacheSet{nil: true}, cacheSet{nil: true}
		}
	}
	for i, p := range ps {
		if specs[i].noJudge {
			continue
		}
		c := &procCheck{r: r, w: w, p: p, offline: specs[i].offline, cache: during, conf0: conf0}
		if len(ps) == 1 {
			c.cache = r.cache
		}
		c.judge()
	}
	r.cache = after
	r.checkFS(before, ps)
	if w.update {
		for i, p := range ps {
			if p.killed && !specs[i].noJudge {
				r.checkTorn(p, conf0)
			}
		}
		r.syncConfs()
	}
	for _, p := range ps {
		if len(p.faults) > 0 {
			r.tag("fault")
		}
		if p.killed {
			r.tag("kill")
		}
		for _, x := range p.http {
			if x.fault != "" {
				r.tag("netfault")
			}
		}
	}
	r.pass(3)
	return ps
}

func (r *Run) deliveredIn(u string, v *ArchVersion, from int) bool {
	if v == nil {
		return false
	}
	for _, x := range r.s.net.log[from:] {
		if x.url == u && x.arch == v && x.ok() && x.status == 200 {
			return true
		}
	}
	return false
}

func (s *Sim) note0(msg string) {
	s.hash = hashStr(fmt.Sprint(s.hash, msg))
	if s.traceOn {
		s.trace = append(s.trace, "-- "+msg)
	}
}

// checkFS: only caches and configs under update may change.
func (r *Run) checkFS(before map[string]string, ps []*Proc) {
	s := r.s
	after := s.fs.Snapshot()
	leak := false // temporary files may stay behind
	for _, p := range ps {
		if p.killed || p.hung || p.panicked != "" {
			leak = true
		}
		for _, f := range p.faults {
			if f.Op == "unlink" || f.Op == "rename" || f.Op == "close" {
				leak = true
			}
		}
	}
	allowed := func(path string, created bool) bool {
		role, _ := r.w.role(path)
		switch role {
		case "cache":
			return true
		case "tmp":
			if created && leak {
				if r.debris == nil {
					r.debris = map[string]bool{}
				}
				r.debris[path] = true
			}
			return created && leak || r.debris[path]
		case "config":
			return r.w.update && !created
		case "cfgtmp":
			return r.w.update && created && leak
		}
		return false
	}
	var diff []string
	for p, c := range after {
		o, ok := before[p]
		if ok && o == c {
			continue
		}
		if !allowed(p, !ok) || strings.HasPrefix(o, "->") {
			diff = append(diff, fmt.Sprintf("%s was %s", p, map[bool]string{true: "changed", false: "created"}[ok]))
		}
	}
	for p := range before {
		if r.debris[p] {
			continue // left behind by an earlier run
		}
		if _, ok := after[p]; !ok {
			diff = append(diff, p+" was removed")
		}
	}
	sort.Strings(diff)
	for _, d := range diff {
		s.fail("fs", "%s", d)
	}
	for _, p := range ps {
		var ws []string
		for f := range p.fsWrites {
			role, _ := r.w.role(f)
			switch {
			case role == "cache" || role == "tmp":
			case (role == "config" || role == "cfgtmp") && r.w.update:
			default:
				ws = append(ws, f)
			}
		}
		sort.Strings(ws)
		for _, f := range ws {
			s.fail("fs", "%s: wrote to %s", p.describe(), f)
		}
	}
}

// damage corrupts a cache file; it must be treated as absent from then on.
func (r *Run) damage(a *Archive) bool {
	path := cachePathOf(a.url)
	b, ok := r.s.fs.Get(path)
	if !ok || len(b) == 0 {
		return false
	}
	f := r.st.F
	var nb []byte
	kind := f.N(14)
	switch kind {
	case 0:
		nb = nil
	case 1:
		nb = append([]byte(nil), b[:f.N(len(b)-1)]...)
	case 2:
		nb = []byte("null")
	case 3:
		nb = []byte("{}")
	case 4: // torn: the tail never reached the disk
		k := f.N(len(b) - 1)
		nb = append(append([]byte(nil), b[:k]...), make([]byte, len(b)-k)...)
	case 5:
		nb = []byte("\x00\x01garbage")
	case 6:
		nb = []byte(strings.Replace(string(b), `"date":"`, `"date":5,"x":"`, 1))
	case 7: // the archive inside is cut short
		if !json.Valid(b) {
			return false
		}
		i := strings.Index(string(b), `"body":"`)
		j := strings.LastIndexByte(string(b), '"')
		if i < 0 || j < i+8+8 {
			return false
		}
		body := string(b[i+8 : j])
		nb = []byte(string(b[:i+8]) + body[:len(body)/2/4*4] + string(b[j:]))
	case 8:
		if !json.Valid(b) {
			return false
		}
		i := strings.Index(string(b), `"body":"`)
		j := strings.LastIndexByte(string(b), '"')
		if i < 0 || j < i+8 {
			return false
		}
		nb = []byte(string(b[:i+8]) + string(b[j:]))
	case 12: // the end of an older, longer one is still there
		nb = append(b[:len(b):len(b)], b[f.N(len(b)):]...)
	case 13:
		nb = append(b[:len(b):len(b)], 0, 0, 0, 0)
	case 9, 10, 11: // no archive inside
		var m map[string]any
		if json.Unmarshal(b, &m) != nil || m == nil {
			return false
		}
		switch kind {
		case 9:
			m["body"] = nil
		case 10:
			delete(m, "body")
		case 11:
			m["body"] = "UEs="
		}
		nb, _ = json.Marshal(m)
	}
	if string(nb) == string(b) {
		return false
	}
	r.s.fs.Put(path, nb)
	r.cache[a.url] = cacheSet{nil: true}
	r.s.count("cache-damage")
	r.s.note0(fmt.Sprintf("damage %s kind %d", path, kind))
	r.tag("damage")
	return true
}

func (r *Run) killPlan(classes ...string) *KillPlan {
	f := r.st.F
	k := &KillPlan{class: classes[f.N(len(classes))], nth: 1, torn: f.N(1001)}
	switch k.class {
	case "any":
		k.nth = 1 + f.N(60)
	case "http":
		k.nth = 1 + f.N(12)
	default:
		k.nth = 1 + f.N(8)
	}
	return k
}

// checkTorn: after a kill every config is as it was, or completely rewritten.
func (r *Run) checkTorn(p *Proc, conf0 map[string]string) {
	s, w := r.s, r.w
	c := &procCheck{r: r, w: w, p: p, cache: r.cache, conf0: conf0}
	var found map[string]map[string]bool
	clean := true
	for _, f := range p.faults {
		clean = clean && (f.Role == "config" || f.Role == "cfgtmp")
	}
	for _, x := range p.http {
		clean = clean && x.fault == ""
	}
	if clean {
		found = c.predict()
	}
	for _, conf := range w.confSorted() {
		if conf.dir {
			continue
		}
		old := conf0[conf.path]
		b, ok := s.fs.Get(conf.path)
		now := string(b)
		if now == old && ok {
			continue
		}
		d, err := parseConf(now)
		od, _ := parseConf(old)
		if !ok || err != nil || len(now) == 0 || !sameDBs(od.DBs, d.DBs) {
			s.fail("update", "%s: config %s is neither as it was nor rewritten: %q, was %q", p.describe(), conf.path, clip(now, 300), clip(old, 300))
			continue
		}
		if found == nil {
			continue
		}
		ids, used := found[conf.key()]
		if !used {
			s.fail("update", "%s: config %s is not in use, but was changed", p.describe(), conf.path)
			continue
		}
		want := sortedKeys(ids)
		if !eqStr(d.Ignore, want) && len(d.Ignore)+len(want) > 0 {
			s.fail("update", "%s: ignore of %s is %v, want %v (or unchanged)", p.describe(), conf.path, d.Ignore, want)
		}
	}
}

func sortedKeys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// syncConfs makes the model follow what an update wrote.
func (r *Run) syncConfs() {
	for _, c := range r.w.confSorted() {
		if c.bad {
			continue
		}
		b, _ := r.s.fs.Get(c.path)
		if d, err := parseConf(string(b)); err == nil {
			c.ignore = d.Ignore
		}
	}
}
