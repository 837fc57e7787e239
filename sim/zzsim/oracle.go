package zzsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"path/filepath"
	"sort"
	"strings"

	"gopkg.in/yaml.v3"
)

// What the detector reported.
type outOSV struct {
	ID      string   `json:"id"`
	Aliases []string `json:"aliases"`
	Summary string   `json:"summary"`
	Details string   `json:"details"`

	Withdrawn *string   `json:"withdrawn"`
	Affected  []outAffs `json:"affected"`
}

type outAffs struct {
	Package struct {
		Name      string `json:"name"`
		Ecosystem string `json:"ecosystem"`
	} `json:"package"`
	Versions []string `json:"versions"`
}

type outPkg struct {
	Name      string   `json:"name"`
	Version   string   `json:"version"`
	Commit    string   `json:"commit"`
	Ecosystem string   `json:"ecosystem"`
	CompareAs string   `json:"compareAs"`
	Vulns     []outOSV `json:"vulnerabilities"`
	Ignored   []outOSV `json:"ignored"`
}

func (o outPkg) key() Pkg {
	return Pkg{Name: o.Name, Version: o.Version, Commit: o.Commit, Eco: o.Ecosystem, CompareAs: o.CompareAs}
}

type outRes struct {
	FilePath string   `json:"filePath"`
	ParsedAs string   `json:"parsedAs"`
	Packages []outPkg `json:"packages"`
	text     *textRes
}

// cacheSet is what the cache file of an archive may hold (nil: nothing usable).
type cacheSet map[*ArchVersion]bool

func (c cacheSet) clone() cacheSet {
	o := cacheSet{}
	for k := range c {
		o[k] = true
	}
	return o
}

// occ is one lockfile designated by the command line.
type occ struct {
	l    *Lock
	arg  *Arg
	disp string
	conf *Conf
	res  *outRes
}

func (w *World) occs() []*occ {
	var out []*occ
	for _, a := range w.args {
		for _, l := range a.locks {
			o := &occ{l: l, arg: a}
			if a.dir {
				o.disp = filepath.Join(a.path, l.name)
			} else {
				o.disp = filepath.Clean(a.path)
			}
			o.conf = w.confFor(l)
			out = append(out, o)
		}
	}
	return out
}

func (w *World) confDir(l *Lock) string {
	if l.path == "-" {
		return "/work"
	}
	return dirOf(l.path)
}

// confFor is the config that applies to a lockfile (nil: none).
func (w *World) confFor(l *Lock) *Conf {
	if w.noConfig || w.listPkgs {
		return nil
	}
	if w.config != nil {
		return w.config
	}
	return w.confs[w.confDir(l)]
}

// dbsFor lists the databases a lockfile is checked against, in order.
func (w *World) dbsFor(l *Lock, c *Conf) []*DB {
	if w.listPkgs {
		return nil
	}
	var out []*DB
	add := func(d *DB) {
		for _, o := range out {
			if o.ident() == d.ident() {
				return
			}
		}
		out = append(out, d)
	}
	if c != nil && !w.noCfgDBs {
		for _, d := range c.dbs {
			if !d.invalid {
				add(d)
			}
		}
	}
	if w.apiDB != nil {
		add(w.apiDB)
	}
	if w.useDBs {
		var ecos []string
		seen := map[string]bool{"": true}
		for _, p := range l.pkgs {
			if !seen[p.Eco] {
				seen[p.Eco] = true
				ecos = append(ecos, p.Eco)
			}
		}
		sort.Strings(ecos)
		for _, e := range ecos {
			if d := w.ecoDB[e]; d != nil {
				add(d)
			}
		}
	}
	return out
}

// altDB is one way in which loading a database may turn out.
type altDB struct {
	failed  bool
	advs    []*Adv
	mention [][]string // each group: stderr has to contain one of these
	why     string
}

type mismatch struct{ cat, msg string }

// procCheck judges one finished process.
type procCheck struct {
	r       *Run
	w       *World
	p       *Proc
	offline bool
	cache   map[string]cacheSet // possible states of the cache during the run
	occs    []*occ
	errText string // stderr without the routine lines
	stderr  string
	res     []outRes
	content bool // stdout can be judged
	mention bool // stderr can be judged
	conf0   map[string]string
	found   map[string]map[string]bool // config path -> ids found (last alternative)
	amb     bool
	tooOpen bool
	whose   map[*Exchange]*occ // assumed lockfile of an ambiguous failed request
}

func filterErr(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, ": found ") && strings.Contains(l, "package") || strings.Contains(l, "Using config at") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func containsAny(s string, xs []string) bool {
	for _, x := range xs {
		if x != "" && strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func (c *procCheck) failedBatches() map[*Exchange]bool {
	m := map[*Exchange]bool{}
	for _, x := range c.p.http {
		if x.kind == "batch" && !x.complete() {
			m[x] = true
		}
	}
	return m
}

// complete: the server's own answer arrived as a whole.
func (x *Exchange) complete() bool { return x.ok() && x.status == 200 && x.cutAt < 0 }

// judge compares the outcome of the process with the model.
func (c *procCheck) judge() {
	s, w, p := c.r.s, c.w, c.p
	if p.killed || p.hung || p.panicked != "" {
		return
	}
	if p.code != 0 && p.code != 1 && p.code != 127 && p.code != 128 {
		s.fail("exit", "%s: exit status %d is not a documented one", p.describe(), p.code)
	}
	outF, errF := p.faulted("stdout", ""), p.faulted("stderr", "")
	c.content, c.mention = !outF, !errF
	c.stderr = string(p.stderr)
	c.errText = filterErr(c.stderr)
	if !w.json {
		c.errText = c.stderr
	}

	if w.json && !outF {
		dec := json.NewDecoder(bytes.NewReader(p.stdout))
		var doc struct {
			Results *[]outRes `json:"results"`
		}
		if err := dec.Decode(&doc); err != nil || doc.Results == nil {
			s.fail("json", "%s: stdout is not one JSON document with a results list: %v: %q", p.describe(), err, clip(string(p.stdout), 300))
			return
		}
		if _, err := dec.Token(); err != io.EOF {
			s.fail("json", "%s: stdout holds more than one JSON document: %q", p.describe(), clip(string(p.stdout[dec.InputOffset():]), 200))
			return
		}
		if len(p.stdout) == 0 || p.stdout[0] != '{' {
			s.fail("json", "%s: stdout does not start with the JSON document", p.describe())
		}
		c.res = *doc.Results
	}
	if c.r.prof.noModel {
		return
	}
	if !w.json && !outF {
		c.res = parseText(string(p.stdout), w.listPkgs)
	}
	if w.info != "" {
		if p.code != 0 || len(c.res) != 0 || len(p.http) != 0 {
			s.fail("exit", "%s: asked about itself only, but exit status %d, %d results, %d requests", p.describe(), p.code, len(c.res), len(p.http))
		}
		return
	}
	c.traffic()
	c.occs = w.occs()
	if w.refused {
		if p.code != 127 || len(c.res) != 0 {
			s.fail("exit", "%s: --parse-as %s is not known, but exit status %d and %d results", p.describe(), w.parseAsAll, p.code, len(c.res))
		}
		if c.mention && !strings.Contains(c.errText, w.parseAsAll) {
			s.fail("mention", "%s: --parse-as %s is not known, but stderr does not name it", p.describe(), w.parseAsAll)
		}
		if w.update {
			c.report(c.untouched())
		}
		return
	}

	var mm []mismatch
	bad := func(cat, f string, a ...any) { mm = append(mm, mismatch{cat, fmt.Sprintf(f, a...)}) }

	// the global config
	gcf := w.config != nil && !w.noConfig && !w.listPkgs && len(c.occs) > 0
	if gcf && (w.config.bad || p.faulted("config", w.config.path)) {
		if p.code == 127 && (!c.content || len(c.res) == 0) && c.saysAny([]string{w.configArg, w.config.path, filepath.Clean(w.configArg)}) {
			return // refused as a whole
		}
		if w.config.bad {
			if p.code == 127 && (!c.content || len(c.res) == 0) {
				for _, o := range c.occs {
					if may, _ := c.absence(o); may != "" {
						return // the run ended even before its config was needed
					}
				}
			}
			s.fail("config", "%s: the config %s cannot be parsed, but the run went on (exit %d, %d results)", p.describe(), w.config.path, p.code, len(c.res))
			return
		}
	}

	// which lockfiles were read?
	lockErr, pathErr, pathMaybe := false, false, false
	for _, a := range w.args {
		if a.miss {
			pathErr = true
			if c.mention && !strings.Contains(c.errText, a.path) {
				bad("mention", "path %s does not exist, but stderr does not name it", a.path)
			}
		}
		if a.dir && p.faulted("indir", a.abs) {
			// (with lockfiles inside, their absence shows it, if it is known)
			if len(a.locks) == 0 || !c.content {
				pathMaybe = true
			}
			if len(a.locks) == 0 && p.code == 0 {
				bad("exit", "directory %s could not be read, exit status 0", a.path)
			}
		}
	}
	var present []*occ
	if c.content {
		for i := range c.align() {
			r := &c.res[i]
			found := false
			for _, o := range c.occs {
				found = found || o.disp == r.FilePath
			}
			if found {
				bad("missing", "result for %s is repeated or out of order", r.FilePath)
			} else {
				bad("missing", "result for %s, which was not given", r.FilePath)
			}
		}
		for _, o := range c.occs {
			may, must := c.absence(o)
			switch {
			case o.res != nil && must != "":
				bad(mustCat(must), "%s was reported although %s", o.disp, must)
				present = append(present, o)
			case o.res != nil:
				present = append(present, o)
			case may == "" && must == "":
				bad("missing", "%s was given and is readable, but is not among the results", o.disp)
				lockErr = true
			default:
				maybe := false
				var names []string
				for _, q := range c.occs {
					if q.disp == o.disp { // a lockfile given twice: any of them
						maybe = maybe || c.stage1(q)
						names = append(names, c.namesOf(q)...)
					}
				}
				if maybe {
					pathMaybe = true
				} else {
					lockErr = true
				}
				if !c.saysAny(names) {
					bad("mention", "%s was not checked (%s%s), but stderr does not name it: %q", o.disp, may, must, clip(c.errText, 400))
				}
				if p.code == 0 {
					bad("exit", "%s was not checked (%s%s), exit status 0", o.disp, may, must)
				}
			}
		}
	} else {
		// without JSON the results cannot be attributed: only judge runs where
		// it is clear which lockfiles are readable
		for _, o := range c.occs {
			may, must := c.absence(o)
			if must != "" {
				if may != "" {
					return
				}
				lockErr = true
				continue
			}
			if may != "" {
				return
			}
			present = append(present, o)
		}
		if pathMaybe {
			return
		}
	}

	if len(c.occs) == 0 {
		want := 128
		if pathErr || len(w.args) == 0 {
			want = 127
		}
		if p.code != want && !(pathMaybe && p.code == 127) {
			bad("exit", "no lockfile was designated: exit status %d, want %d", p.code, want)
		}
		c.report(mm)
		return
	}
	if len(present) == 0 && len(c.occs) > 0 && c.content {
		if p.code != 127 {
			bad("exit", "no lockfile could be read: exit status %d, want 127", p.code)
		}
		c.report(mm)
		return
	}

	invDB := false
	for _, o := range present {
		if o.conf != nil {
			for _, d := range o.conf.dbs {
				invDB = invDB || d.invalid
			}
		}
	}

	// databases: every way in which loading them may have turned out
	var dbs []*DB
	seen := map[string]bool{}
	for _, o := range present {
		for _, d := range w.dbsFor(o.l, o.conf) {
			if !seen[d.ident()] {
				seen[d.ident()] = true
				dbs = append(dbs, d)
			}
		}
	}
	alts := make([][]altDB, len(dbs))
	combos := 1
	for i, d := range dbs {
		alts[i] = c.alternatives(d, dbs)
		combos *= max(1, len(alts[i]))
		if combos > min(5000, 20000/max(1, len(c.occs))) {
			c.amb = true
			s.count("ambiguous")
			c.report(mm)
			return
		}
	}
	// failed requests that may have been made for one lockfile or another
	var shared []*Exchange
	cands := map[*Exchange][]*occ{}
	for _, x := range c.p.http {
		if x.kind != "batch" || x.complete() || len(x.parsedQueries()) == 0 {
			continue
		}
		var cs []*occ
	occ:
		for _, o := range present {
			for _, q := range x.query {
				if !o.l.asks(q) {
					continue occ
				}
			}
			for _, d := range w.dbsFor(o.l, o.conf) {
				if d.api != nil && d.api == x.api {
					cs = append(cs, o)
					break
				}
			}
		}
		if len(cs) > 0 {
			shared = append(shared, x)
			cands[x] = cs
			combos *= len(cs)
		}
		if combos > min(5000, 20000/max(1, len(c.occs))) {
			c.amb = true
			s.count("ambiguous")
			c.report(mm)
			return
		}
	}
	if c.tooOpen {
		c.amb = true
		s.count("ambiguous")
		c.report(mm)
		return
	}
	var best []mismatch
	for k := 0; k < combos; k++ {
		sel := map[string]*altDB{}
		x := k
		c.whose = map[*Exchange]*occ{}
		for _, e := range shared {
			c.whose[e] = cands[e][x%len(cands[e])]
			x /= len(cands[e])
		}
		for i, d := range dbs {
			sel[d.ident()] = &alts[i][x%len(alts[i])]
			x /= len(alts[i])
		}
		got := c.evaluate(present, dbs, sel, lockErr, pathErr, pathMaybe, invDB)
		if k == 0 || len(got) < len(best) {
			best = got
		}
		if len(got) == 0 {
			break
		}
	}
	c.report(append(mm, best...))
}

// align assigns the results to the lockfiles, in order, in the way that needs
// the fewest excuses; it returns the results that fit none.
func (c *procCheck) align() map[int]bool {
	n, m := len(c.res), len(c.occs)
	const lone, gone, must = 1000, 10, 3 // a result too many, a lockfile missing, one that should be
	skip, take := make([]int, m), make([]int, m)
	for j, o := range c.occs {
		may, mu := c.absence(o)
		if may == "" && mu == "" {
			skip[j] = gone
		}
		if mu != "" {
			take[j] = must
		}
	}
	cost := make([][]int, n+1)
	for i := n; i >= 0; i-- {
		cost[i] = make([]int, m+1)
		for j := m; j >= 0; j-- {
			best := 1 << 30
			if i == n && j == m {
				best = 0
			}
			if i < n {
				best = min(best, cost[i+1][j]+lone)
			}
			if j < m {
				best = min(best, cost[i][j+1]+skip[j])
			}
			if i < n && j < m && c.occs[j].disp == c.res[i].FilePath {
				best = min(best, cost[i+1][j+1]+take[j])
			}
			cost[i][j] = best
		}
	}
	left := map[int]bool{}
	for i, j := 0, 0; i < n || j < m; {
		switch {
		case i < n && j < m && c.occs[j].disp == c.res[i].FilePath && cost[i][j] == cost[i+1][j+1]+take[j]:
			c.occs[j].res = &c.res[i]
			i, j = i+1, j+1
		case j < m && cost[i][j] == cost[i][j+1]+skip[j]:
			j++
		default:
			left[i] = true
			i++
		}
	}
	return left
}

func mustCat(m string) string {
	if strings.Contains(m, "config") {
		return "config"
	}
	return "packages"
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *procCheck) report(mm []mismatch) {
	sort.SliceStable(mm, func(i, j int) bool {
		if mm[i].cat != mm[j].cat {
			return mm[i].cat < mm[j].cat
		}
		return mm[i].msg < mm[j].msg
	})
	seen := map[string]int{}
	for _, m := range mm {
		if seen[m.cat]++; seen[m.cat] <= 3 {
			c.r.s.fail(m.cat, "%s: %s", c.p.describe(), m.msg)
		}
	}
}

func (c *procCheck) saysAny(xs []string) bool { return !c.mention || containsAny(c.errText, xs) }

func (c *procCheck) namesOf(o *occ) []string {
	xs := []string{o.disp, o.l.path}
	if o.l.path == "-" {
		xs = append(xs, "row")
	}
	for _, i := range o.l.includes {
		xs = append(xs, filepath.Base(i))
	}
	if len(o.l.includes) > 0 {
		// a read that fails inside an include line may be reported as the
		// include of a file that does not exist
		xs = append(xs, "failed to include -r")
		if d := filepath.Dir(o.disp); d != "." {
			xs = append(xs, d+"/")
		}
	}
	if c.w.config == nil && !c.w.noConfig {
		d := filepath.Dir(o.disp)
		xs = append(xs, filepath.Clean(d+"/.osv-detector.yml"), filepath.Clean(d+"/.osv-detector.yaml"))
	}
	if o.arg.dir {
		xs = append(xs, o.arg.path, filepath.Clean(o.arg.path))
	}
	return xs
}

// absence: may the lockfile be missing from the results, must it be?
func (c *procCheck) absence(o *occ) (may, must string) {
	p, w := c.p, c.w
	if o.l.bad != "" {
		must = "it cannot be parsed"
	}
	if o.conf != nil && o.conf.bad {
		must = "its config cannot be parsed"
	}
	if o.l.long {
		may = "it has an overlong line"
	}
	if p.faulted("lock", o.l.path) {
		may = "it could not be read"
	}
	for _, i := range o.l.includes {
		if p.faulted("include", i) {
			may = "a file it includes could not be read"
		}
	}
	if o.arg.dir && p.faulted("indir", o.arg.abs) {
		may = "its directory could not be read"
	}
	if !w.noConfig && !w.listPkgs && w.config == nil {
		d := w.confDir(o.l)
		if p.faulted("config", d+"/.osv-detector.yml") || p.faulted("config", d+"/.osv-detector.yaml") {
			may = "its config could not be read"
		}
	}
	return
}

// stage1: the path itself may have been unreadable when inputs were collected.
func (c *procCheck) stage1(o *occ) bool {
	if o.arg.dir {
		return c.p.faulted("indir", o.arg.abs)
	}
	for _, f := range c.p.faults {
		if f.Role == "lock" && f.Ent == o.l.path && (f.Op == "open" || f.Op == "stat") {
			return true
		}
	}
	return false
}

// alternatives lists the ways in which loading d may have turned out.
func (c *procCheck) alternatives(d *DB, all []*DB) []altDB {
	p := c.p
	switch d.Type {
	case "api":
		return []altDB{{failed: c.offline || c.w.batch < 1, why: "offline or an impossible batch size"}}
	case "dir":
		if d.broken {
			return []altDB{{failed: true, why: "directory does not exist"}}
		}
		return c.dirAlternatives(d)
	}
	cacheFault := false
	for _, f := range p.faults {
		if f.Role == "cache" || f.Role == "tmp" {
			cacheFault = true
		}
	}
	var out []altDB
	fail := func(why string) { out = append(out, altDB{failed: true, why: why}) }
	if c.offline {
		for v := range c.cache[d.URL] {
			if v == nil {
				fail("nothing cached")
			} else {
				out = append(out, d.fromArchive(v))
			}
		}
		sort.Slice(out, func(i, j int) bool { return len(out[i].advs) < len(out[j].advs) })
		if len(c.cache[d.URL]) == 0 {
			fail("nothing cached")
		}
		if cacheFault {
			fail("cache could not be read")
		}
		return out
	}
	// the answers this process got for the archive
	var xs []*Exchange
	for _, x := range p.http {
		if x.url == d.URL && x.kind != "hop" {
			xs = append(xs, x)
		}
	}
	k, n := 0, 0
	for _, o := range all {
		if o.URL == d.URL && o.Type == "zip" {
			if o == d {
				k = n
			}
			n++
		}
	}
	if len(xs) == n {
		xs = xs[k : k+1]
	}
	for _, x := range xs {
		switch {
		case x.ok() && x.status == 200 && x.cutAt < 0:
			out = append(out, d.fromArchive(x.arch))
		case x.ok() && x.status == 304:
			out = append(out, d.fromArchive(x.arch))
		default:
			fail("download: " + x.fault)
		}
	}
	if len(xs) == 0 {
		fail("no download")
	}
	return out // (trouble with the cache alone is no reason to fail)
}

func (d *DB) fromArchive(v *ArchVersion) altDB {
	a := altDB{why: fmt.Sprintf("archive version %d", v.n)}
	for _, f := range v.files {
		if f.adv == nil || !strings.HasPrefix(f.name, d.WD) || !strings.HasSuffix(f.name, ".json") {
			continue
		}
		if f.damaged != "" {
			a.mention = append(a.mention, []string{f.name, filepath.Base(f.name)})
			continue
		}
		a.advs = append(a.advs, f.adv)
	}
	return a
}

func (c *procCheck) dirAlternatives(d *DB) []altDB {
	files := append([]dirFile(nil), d.files...)
	sort.SliceStable(files, func(i, j int) bool { return walkLess(files[i].path, files[j].path) })
	base := altDB{why: "directory"}
	type opt struct {
		i    int
		tell []string
	}
	var opts []opt
	rootFault := false
	for i, f := range files {
		if f.damaged {
			reach := true
			for _, x := range d.dirs {
				reach = reach && !(strings.HasPrefix(f.path, x+"/") && c.p.faulted("dbdir", x))
			}
			if reach {
				base.mention = append(base.mention, []string{filepath.Base(f.path)})
			}
			continue
		}
		var tell []string
		if c.p.faulted("dbfile", f.path) {
			tell = append(tell, filepath.Base(f.path))
		}
		for _, x := range d.dirs {
			if x != d.root && strings.HasPrefix(f.path, x+"/") && c.p.faulted("dbdir", x) {
				tell = append(tell, x, strings.TrimPrefix(x, "/work/"))
				if d.link != "" {
					tell = append(tell, strings.TrimPrefix(d.link, "/work/")+x[len(d.real):])
				}
			}
		}
		if tell != nil && (!c.mention || containsAny(c.stderr, tell)) {
			opts = append(opts, opt{i, tell})
		}
	}
	for _, f := range c.p.faults {
		if (f.Role == "dbdir" || f.Role == "dbfile") && (f.Ent == d.root || strings.HasPrefix(f.Ent, d.root+"/")) {
			rootFault = true
		}
	}
	var out []altDB
	// too many to try them all: go by what is reported
	left := map[int]bool{}
	if len(opts) > 8 {
		var open []opt
		for _, o := range opts {
			id := files[o.i].adv.ID
			said := c.reports(id)
			if said && c.w.elsewhere(d, id) {
				open = append(open, o) // it may be the other database's
				if len(open) > 8 {
					c.tooOpen, open = true, open[:8]
				}
			} else if !said {
				left[o.i] = true
				base.mention = append(base.mention, o.tell)
			}
		}
		opts = open
	}
	for m := 0; m < 1<<len(opts); m++ {
		a := altDB{why: base.why, mention: append([][]string(nil), base.mention...)}
		excl := map[int]bool{}
		// most likely first: everything that was complained about is left out
		for k, o := range opts {
			if m>>k&1 == 0 {
				excl[o.i] = true
				a.mention = append(a.mention, o.tell)
			}
		}
		for i, f := range files {
			if !f.damaged && !excl[i] && !left[i] {
				a.advs = append(a.advs, f.adv)
			}
		}
		out = append(out, a)
	}
	if rootFault {
		out = append(out, altDB{failed: true, why: "directory could not be read"})
	}
	return out
}

// reports tells whether the output lists an advisory.
func (c *procCheck) reports(id string) bool {
	q, _ := json.Marshal(id)
	return bytes.Contains(c.p.stdout, []byte(`"id":`+string(q))) || bytes.Contains(c.p.stdout, []byte("    "+id+": "))
}

// elsewhere tells whether another database has an advisory of this id.
func (w *World) elsewhere(not *DB, id string) bool {
	for _, d := range w.dbs {
		if d != not {
			for _, a := range d.allAdvs() {
				if a.ID == id {
					return true
				}
			}
		}
	}
	return false
}

// walkLess orders paths as a lexical walk visits them.
func walkLess(a, b string) bool {
	x, y := strings.Split(a, "/"), strings.Split(b, "/")
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

// exp is an expected finding; lost: its details could not be fetched.
// soft: any of its fields may be missing.
type exp struct {
	ad   *Adv
	lost bool
	soft bool
}

func (e exp) eff() *Adv {
	if e.lost {
		return &Adv{ID: e.ad.ID}
	}
	return e.ad
}

// apiState of a lockfile: failed batches, and how the details of ids fared.
func (c *procCheck) apiFailed(d *DB, o *occ) bool {
	for _, x := range c.p.http {
		if x.kind != "batch" || x.api != d.api || x.complete() {
			continue
		}
		if q, ok := c.whose[x]; ok {
			if q == o {
				return true
			}
			continue
		}
		for _, q := range x.parsedQueries() {
			if o.l.asks(q) {
				return true
			}
		}
	}
	return false
}

func (x *Exchange) parsedQueries() []apiQuery {
	if x.query == nil {
		var q struct {
			Queries []apiQuery `json:"queries"`
		}
		_ = json.Unmarshal(x.body, &q)
		x.query = q.Queries
	}
	return x.query
}

func (p Pkg) query() apiQuery {
	var q apiQuery
	if p.Name != "" && p.Eco != "" && p.Version != "" {
		q.Package.Name, q.Package.Ecosystem, q.Version = p.Name, p.Eco, p.Version
	} else if p.Commit != "" {
		q.Commit = p.Commit
	}
	return q
}

func (l *Lock) asks(q apiQuery) bool {
	for _, p := range l.pkgs {
		if p.query() == q {
			return true
		}
	}
	return false
}

// detailState: "own", "lost" or "either" for an advisory of an API.
func (c *procCheck) detailState(api *API, id string) string {
	ok, bad, soft := 0, 0, 0
	for _, x := range c.p.http {
		if x.kind != "detail" || x.api != api || len(x.ids) == 0 || x.ids[0] != id {
			continue
		}
		switch {
		case x.complete():
			ok++
		case x.fault == "badtype":
			soft++
		default:
			bad++
		}
	}
	for _, x := range c.p.http {
		// its details may have arrived in answer to another request
		if x.kind == "detail" && x.api == api && x.fault == "wrong-id" && bytes.Contains(x.rbody, []byte(`"id":"`+id+`"`)) {
			soft++
		}
	}
	switch {
	case soft > 0 || ok > 0 && bad > 0:
		return "either"
	case bad > 0:
		return "lost"
	}
	return "own"
}

// findings of one database for one package.
func (c *procCheck) findings(d *DB, a *altDB, p Pkg, lost func(*API, string) bool) []exp {
	var out []exp
	if d.api != nil {
		q := p.query()
		if q.Commit == "" && q.Package.Name == "" {
			return nil
		}
		for _, ad := range d.api.match(q) {
			out = append(out, exp{ad, lost(d.api, ad.ID), c.detailState(d.api, ad.ID) != "own"})
		}
		return out
	}
	for _, ad := range a.advs {
		if ad.Withdrawn || !ad.affects(p) {
			continue
		}
		dup := false
		for _, o := range out {
			dup = dup || sameAdv(o.ad, ad)
		}
		if !dup {
			out = append(out, exp{ad, false, false})
		}
	}
	return out
}

func (c *procCheck) ignoresFor(o *occ) map[string]bool {
	m := map[string]bool{}
	for _, i := range c.w.ignores {
		m[i] = true
	}
	if o.conf != nil && !c.w.noCfgIgn {
		for _, i := range o.conf.ignore {
			m[i] = true
		}
	}
	return m
}

// lockExpect computes vulnerabilities and ignored ones of each distinct package.
func (c *procCheck) lockExpect(o *occ, sel map[string]*altDB, lost func(*API, string) bool) (map[Pkg][2][]exp, bool) {
	out := map[Pkg][2][]exp{}
	apiErr := false
	dbs := c.w.dbsFor(o.l, o.conf)
	ign := c.ignoresFor(o)
	usable := dbs[:0:0]
	for _, d := range dbs {
		if sel[d.ident()].failed {
			continue
		}
		if d.api != nil && c.apiFailed(d, o) {
			apiErr = true
			continue
		}
		usable = append(usable, d)
	}
	for _, p := range o.l.pkgs {
		if _, ok := out[p]; ok {
			continue
		}
		var acc []exp
		var two [2][]exp
		for _, d := range usable {
			for _, e := range c.findings(d, sel[d.ident()], p, lost) {
				dup := false
				for _, x := range acc {
					dup = dup || sameAdv(x.eff(), e.eff())
				}
				if dup {
					continue
				}
				acc = append(acc, e)
				if ign[e.ad.ID] {
					two[1] = append(two[1], e)
				} else {
					two[0] = append(two[0], e)
				}
			}
		}
		out[p] = two
	}
	return out, apiErr
}

func ids(es []exp) []string {
	out := []string{}
	for _, e := range es {
		out = append(out, e.ad.ID)
	}
	sort.Strings(out)
	return out
}

func outIDs(es []outOSV) []string {
	out := []string{}
	for _, e := range es {
		out = append(out, e.ID)
	}
	sort.Strings(out)
	return out
}

func eqStr(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *procCheck) evaluate(present []*occ, dbs []*DB, sel map[string]*altDB, lockErr, pathErr, pathMaybe, invDB bool) []mismatch {
	var mm []mismatch
	bad := func(cat, f string, a ...any) { mm = append(mm, mismatch{cat, fmt.Sprintf(f, a...)}) }
	w := c.w
	dbFailed := false
	for _, d := range dbs {
		a := sel[d.ident()]
		if a.failed {
			dbFailed = true
			if !c.mention {
				continue
			}
			said := c.stderr
			if !w.json {
				said += string(c.p.stdout) // the name is part of the text
			}
			if !containsAny(said, []string{d.Name, d.URL, d.ident()}) && (w.json || !c.p.faulted("stdout", "")) {
				bad("mention", "database %s failed (%s), but is not named", d.ident(), a.why)
			}
			if !strings.Contains(c.stderr, "fail") && !strings.Contains(c.stderr, "rror") && !strings.Contains(c.stderr, "could not") && !strings.Contains(c.stderr, "unable") {
				bad("mention", "database %s failed (%s), but stderr reports no failure", d.ident(), a.why)
			}
			continue
		}
		if c.mention {
			for _, g := range a.mention {
				if !containsAny(c.stderr, g) {
					bad("damaged", "advisory %s of %s cannot be read or parsed, but stderr does not name it", g[0], d.ident())
				}
			}
		}
	}

	vulns, apiErr := false, false
	found := map[string]map[string]bool{}
	inText, outText := map[string]bool{}, map[string]bool{}
	for _, o := range present {
		best, bestMM, bestErr := map[Pkg][2][]exp{}, []mismatch(nil), false
		combos := c.lossCombos(o)
		if len(combos) > 1 && o.res == nil {
			return nil // cannot be told apart without JSON
		}
		for k, lost := range combos {
			ex, ae := c.lockExpect(o, sel, lost)
			got := c.compareLock(o, ex, sel)
			if k == 0 || len(got) < len(bestMM) {
				best, bestMM, bestErr = ex, got, ae
			}
			if len(got) == 0 {
				break
			}
		}
		mm = append(mm, bestMM...)
		if bestErr {
			apiErr = true
			if c.mention && !strings.Contains(c.errText, o.disp) {
				bad("mention", "an API check of %s failed, but stderr does not name it: %q", o.disp, clip(c.errText, 300))
			}
		}
		for _, two := range best {
			if len(two[0]) > 0 {
				vulns = true
			}
			for i := range two {
				for _, e := range two[i] {
					if o.conf != nil {
						if found[o.conf.key()] == nil {
							found[o.conf.key()] = map[string]bool{}
						}
						found[o.conf.key()][e.ad.ID] = true
					}
					if i == 0 {
						inText[e.ad.ID] = true
					}
				}
			}
		}
		if o.conf != nil && found[o.conf.key()] == nil {
			found[o.conf.key()] = map[string]bool{}
		}
		_ = outText
	}
	if !w.json && !w.listPkgs && !c.p.faulted("stdout", "") {
		for _, id := range w.allIDsEver() {
			has := strings.Contains(string(c.p.stdout), "    "+id+": ")
			if has && !inText[id] {
				bad("vulns", "%s is reported, but should not be", id)
			}
			if !has && inText[id] {
				bad("vulns", "%s is not reported, but should be", id)
			}
		}
	}

	// config updates
	updErr := false
	if w.update {
		incomplete := dbFailed || lockErr || pathErr || pathMaybe || apiErr || invDB
		m, ue := c.compareConfigs(found, incomplete)
		mm = append(mm, m...)
		updErr = ue
	}
	c.found = found

	// exit status
	errd := pathErr || pathMaybe || invDB || apiErr || updErr
	exit := func(perr bool) int {
		switch {
		case dbFailed || lockErr:
			return 127
		case vulns:
			return 1
		case errd || perr:
			return 127
		}
		return 0
	}
	okExit := map[int]bool{exit(false): true}
	if pathMaybe {
		okExit[127] = true
		delete(okExit, 0)
	}
	if w.update && c.updateFaulted() {
		// an update that failed is an error; what was found still counts
		okExit[exit(true)] = true
		if updErr {
			delete(okExit, 0)
		}
	}
	if w.update && (dbFailed || lockErr || errd) {
		delete(okExit, 0)
		okExit[127] = true
	}
	if !okExit[c.p.code] {
		var want []int
		for k := range okExit {
			want = append(want, k)
		}
		sort.Ints(want)
		bad("exit", "exit status %d, want %v (databases failed: %v, inputs failed: %v, paths failed: %v, API failed: %v, findings: %v)", c.p.code, want, dbFailed, lockErr, pathErr, apiErr, vulns)
	}
	return mm
}

// predict says which ids an undisturbed run finds for each config.
func (c *procCheck) predict() map[string]map[string]bool {
	found := map[string]map[string]bool{}
	if c.w.refused {
		return found
	}
	for _, o := range c.w.occs() {
		if o.l.bad != "" || o.conf == nil || o.conf.bad {
			continue
		}
		sel := map[string]*altDB{}
		for _, d := range c.w.dbsFor(o.l, o.conf) {
			a := &altDB{failed: d.api != nil && c.w.batch < 1}
			switch {
			case d.arch != nil:
				*a = d.fromArchive(d.arch.cur)
			case d.Type == "dir":
				*a = c.dirAlternatives(d)[0]
				a.failed = d.broken
			}
			sel[d.ident()] = a
		}
		ex, _ := c.lockExpect(o, sel, func(*API, string) bool { return false })
		if found[o.conf.key()] == nil {
			found[o.conf.key()] = map[string]bool{}
		}
		for _, two := range ex {
			for i := range two {
				for _, e := range two[i] {
					found[o.conf.key()][e.ad.ID] = true
				}
			}
		}
	}
	return found
}

// lossCombos enumerates which advisories lost their details where that is open.
func (c *procCheck) lossCombos(o *occ) []func(*API, string) bool {
	type key struct {
		a  *API
		id string
	}
	state := map[key]string{}
	var open []key
	for _, d := range c.w.dbsFor(o.l, o.conf) {
		if d.api == nil {
			continue
		}
		for _, ad := range d.api.advs {
			k := key{d.api, ad.ID}
			st := c.detailState(d.api, ad.ID)
			state[k] = st
			if st == "either" {
				open = append(open, k)
			}
		}
	}
	if len(open) > 6 {
		open = open[:6]
	}
	var out []func(*API, string) bool
	for m := 0; m < 1<<len(open); m++ {
		lost := map[key]bool{}
		for k, st := range state {
			lost[k] = st != "own"
		}
		for i, k := range open {
			lost[k] = m>>i&1 == 1
		}
		out = append(out, func(a *API, id string) bool { return lost[key{a, id}] })
	}
	return out
}

func (c *procCheck) compareLock(o *occ, ex map[Pkg][2][]exp, sel map[string]*altDB) []mismatch {
	var mm []mismatch
	if o.res == nil {
		return nil
	}
	if o.res.text != nil {
		return c.compareText(o, ex, sel)
	}
	bad := func(cat, f string, a ...any) { mm = append(mm, mismatch{cat, fmt.Sprintf(f, a...)}) }
	want, got := map[Pkg]int{}, map[Pkg]int{}
	for _, p := range o.l.pkgs {
		want[p]++
	}
	for _, p := range o.res.Packages {
		got[p.key()]++
	}
	for p, n := range want {
		if got[p] < n {
			bad("packages", "%s: package %+v is missing (%d of %d reported)", o.disp, p, got[p], n)
		}
	}
	for p, n := range got {
		if want[p] < n {
			bad("packages", "%s: package %+v is reported %d times, the file has it %d times", o.disp, p, n, want[p])
		}
	}
	if c.w.listPkgs {
		return mm
	}
	for i := range o.res.Packages {
		p := &o.res.Packages[i]
		two, ok := ex[p.key()]
		if !ok {
			continue
		}
		for j, obs := range [][]outOSV{p.Vulns, p.Ignored} {
			if a, b := ids(two[j]), outIDs(obs); !eqStr(a, b) {
				bad("vulns", "%s: %s@%s%s: %s %v, want %v", o.disp, p.Name, p.Version, p.Commit, []string{"vulnerabilities", "ignored"}[j], b, a)
				continue
			}
			for _, v := range obs {
				for _, e := range two[j] {
					if e.ad.ID == v.ID {
						if m := detailsOf(v, e); m != "" {
							bad("details", "%s: %s@%s: %s: %s", o.disp, p.Name, p.Version, v.ID, m)
						}
					}
				}
			}
		}
	}
	return mm
}

func detailsOf(v outOSV, e exp) string {
	f := func(name, got, own string) string {
		if got == own || (e.lost || e.soft) && got == "" {
			return ""
		}
		return fmt.Sprintf("%s is %q, want %q", name, got, own)
	}
	if m := f("summary", v.Summary, e.ad.Summary); m != "" {
		return m
	}
	if m := f("details", v.Details, e.ad.Details); m != "" {
		return m
	}
	if m := f("aliases", strings.Join(v.Aliases, ","), strings.Join(e.ad.Aliases, ",")); m != "" {
		return m
	}
	var own outOSV
	if e.ad.json == nil || json.Unmarshal(e.ad.json, &own) != nil {
		return ""
	}
	if a, b := affsOf(v), affsOf(own); a != b && !((e.lost || e.soft) && a == "") {
		return fmt.Sprintf("affected is %q, want %q", a, b)
	}
	return ""
}

// affsOf lists what an advisory says it affects.
func affsOf(v outOSV) string {
	var b strings.Builder
	for _, a := range v.Affected {
		fmt.Fprintf(&b, "%s/%s%q;", a.Package.Ecosystem, a.Package.Name, a.Versions)
	}
	return b.String()
}

// --- config updates -----------------------------------------------------------

type confDoc struct {
	Ignore []string            `yaml:"ignore"`
	DBs    []map[string]string `yaml:"extra-databases"`
	Rest   map[string]any      `yaml:",inline"`
}

func parseConf(s string) (confDoc, error) {
	var d confDoc
	err := yaml.Unmarshal([]byte(s), &d)
	return d, err
}

func sameDBs(a, b []map[string]string) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y) || len(a) == 0 && len(b) == 0
}

func (c *procCheck) updateFaulted() bool {
	for _, f := range c.p.faults {
		if f.Role == "config" || f.Role == "cfgtmp" || f.Role == "indir" {
			return true
		}
	}
	return false
}

func (c *procCheck) untouched() (mm []mismatch) {
	for _, conf := range c.w.confSorted() {
		if conf.dir {
			continue
		}
		if b, ok := c.r.s.fs.Get(conf.path); !ok || string(b) != c.conf0[conf.path] {
			mm = append(mm, mismatch{"update", "config " + conf.path + " was changed, but nothing was scanned"})
		}
	}
	return
}

// confHit: a fault can have kept this config from being updated.
func (c *procCheck) confHit(conf *Conf) bool {
	for _, o := range c.w.confSorted() {
		if o.key() == conf.key() && (c.p.faulted("config", o.path) || c.p.faultedAbove(o.path)) {
			return true
		}
	}
	for _, f := range c.p.faults {
		// which configs are the same file may be impossible to tell
		if (f.Role == "config" || f.Role == "indir") && (strings.Contains(f.Op, "stat") || strings.Contains(f.Op, "readlink") || strings.Contains(f.Op, "getcwd")) {
			return true
		}
	}
	return c.p.faulted("cfgtmp", "")
}

func (c *procCheck) compareConfigs(found map[string]map[string]bool, incomplete bool) (mm []mismatch, failed bool) {
	bad := func(cat, f string, a ...any) { mm = append(mm, mismatch{cat, fmt.Sprintf(f, a...)}) }
	for _, conf := range c.w.confSorted() {
		if conf.dir {
			continue
		}
		old := c.conf0[conf.path]
		b, ok := c.r.s.fs.Get(conf.path)
		now := string(b)
		if !ok {
			bad("update", "config %s is gone", conf.path)
			continue
		}
		ids, used := found[conf.key()]
		if !used {
			if now != old {
				bad("update", "config %s is not in use, but was changed", conf.path)
			}
			continue
		}
		var want []string
		for id := range ids {
			want = append(want, id)
		}
		sort.Strings(want)
		if now == old {
			// unchanged: fine if the update failed, was not safe, or changes nothing
			d, _ := parseConf(old)
			if !eqStr(d.Ignore, want) && !(len(d.Ignore) == 0 && len(want) == 0) {
				if c.confHit(conf) {
					failed = true
					if c.mention && !c.saysAny([]string{conf.path, filepath.Base(conf.path), "config"}) {
						bad("update", "config %s could not be updated, but stderr does not say so", conf.path)
					}
				} else if !incomplete {
					bad("update", "config %s was not updated: ignore is %v, want %v", conf.path, d.Ignore, want)
				}
			}
			continue
		}
		oldDoc, _ := parseConf(old)
		d, err := parseConf(now)
		if err != nil {
			bad("update", "config %s is not valid any more: %v: %q", conf.path, err, clip(now, 200))
			continue
		}
		if !sameDBs(oldDoc.DBs, d.DBs) {
			bad("update", "extra-databases of %s changed: %v, were %v", conf.path, d.DBs, oldDoc.DBs)
		}
		if incomplete {
			has := map[string]bool{}
			for _, i := range d.Ignore {
				has[i] = true
			}
			for _, i := range oldDoc.Ignore {
				if !has[i] {
					bad("wipe", "the scan was incomplete, but %s was removed from the ignores of %s", i, conf.path)
				}
			}
			continue
		}
		if !eqStr(d.Ignore, want) && !(len(d.Ignore) == 0 && len(want) == 0) {
			bad("update", "ignore of %s is %v, want %v", conf.path, d.Ignore, want)
		}
	}
	return
}

// --- traffic --------------------------------------------------------------------

func (c *procCheck) traffic() {
	s, p, w := c.r.s, c.p, c.w
	if c.offline {
		if len(p.http) > 0 {
			s.fail("traffic", "%s: --offline, but %s %s was requested", p.describe(), p.http[0].method, p.http[0].url)
		}
		return
	}
	if p.maxBatch > 100 {
		s.fail("concurrency", "%s: %d batch requests in flight at once", p.describe(), p.maxBatch)
	}
	if p.maxDet > 200 {
		s.fail("concurrency", "%s: %d detail requests in flight at once", p.describe(), p.maxDet)
	}
	occs := w.occs()
	for _, st := range p.starved {
		if len(occs) != 1 || len(w.dbsFor(occs[0].l, occs[0].conf)) != 1 {
			break
		}
		n := 0
		for _, x := range p.http {
			if x.kind == st.kind {
				n++
			}
		}
		if n > st.issued {
			s.fail("progress", "%s: %d %s requests were held back until a slow one was answered (%d of %d sent)", p.describe(), n-st.issued, st.kind, st.issued, n)
		}
	}
	zips := map[string]bool{}
	if w.refused {
		occs = nil
	}
	want := map[*API]map[apiQuery]int{}
	locksOf := map[*API][]*occ{}
	for _, o := range occs {
		for _, d := range w.dbsFor(o.l, o.conf) {
			if d.Type == "zip" {
				zips[d.URL] = true
			}
			if d.api != nil && w.batch > 0 && !w.refused {
				locksOf[d.api] = append(locksOf[d.api], o)
				if want[d.api] == nil {
					want[d.api] = map[apiQuery]int{}
				}
				for _, q := range o.l.pkgs {
					want[d.api][q.query()]++
				}
			}
		}
	}
	// inputs that failed to load make the number of queries open
	open := len(p.faults) > 0
	for _, o := range occs {
		if _, must := c.absence(o); must != "" || o.l.long {
			open = true
		}
	}
	if w.config != nil && w.config.bad {
		open = true
	}
	got := map[*API]map[apiQuery]int{}
	dets := map[*API]map[string]int{}
	batchBad := map[*API]bool{}
	for _, x := range p.http {
		switch {
		case (x.kind == "zip" || x.kind == "hop") && zips[x.url]:
		case x.kind == "batch" && want[x.api] != nil:
			qs := x.parsedQueries()
			if len(qs) > w.batch || len(qs) == 0 {
				s.fail("traffic", "%s: a batch of %d queries, batch size %d", p.describe(), len(qs), w.batch)
			}
			if got[x.api] == nil {
				got[x.api] = map[apiQuery]int{}
			}
			for _, q := range qs {
				got[x.api][q]++
			}
			if !x.complete() {
				batchBad[x.api] = true
			}
		case x.kind == "detail" && want[x.api] != nil:
			if dets[x.api] == nil {
				dets[x.api] = map[string]int{}
			}
			dets[x.api][x.ids[0]]++
		default:
			s.fail("traffic", "%s: unexpected request %s %s", p.describe(), x.method, x.url)
		}
	}
	for api, qs := range want {
		for q, n := range qs {
			g := got[api][q]
			if g > n || g < n && !open && !batchBad[api] {
				s.fail("traffic", "%s: %s was asked %d times about %+v, %d lockfile entries have it", p.describe(), api.base, g, q, n)
			}
		}
		for q := range got[api] {
			if qs[q] == 0 {
				s.fail("traffic", "%s: %s was asked about %+v, which is no package of these lockfiles", p.describe(), api.base, q)
			}
		}
		wantDet := map[string]int{}
		for _, o := range locksOf[api] {
			seen := map[string]bool{}
			for _, pk := range o.l.pkgs {
				if q := pk.query(); q.Commit != "" || q.Package.Name != "" {
					for _, ad := range api.match(q) {
						seen[ad.ID] = true
					}
				}
			}
			for id := range seen {
				wantDet[id]++
			}
		}
		for id, n := range wantDet {
			g := dets[api][id]
			if g > n || g < n && !open && !batchBad[api] {
				s.fail("traffic", "%s: details of %s were requested %d times from %s, want %d", p.describe(), id, g, api.base, n)
			}
		}
		for id := range dets[api] {
			if wantDet[id] == 0 {
				s.fail("traffic", "%s: details of %s were requested from %s, which no answer named", p.describe(), id, api.base)
			}
		}
	}
}
