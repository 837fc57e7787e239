package zzsim

import (
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"strconv"
	"strings"
)

// Streams are the recorded choices of a run: world, scheduling, faults.
type Streams struct{ W, S, F *Choices }

// Pkg is a package as the detector should report it.
type Pkg struct {
	Name, Version, Commit, Eco, CompareAs string
}

// Adv is an advisory; src distinguishes copies of one id in several databases.
type Adv struct {
	ID        string
	Aliases   []string
	Summary   string
	Details   string
	Withdrawn bool
	NoAff     bool // an API's details do not tell what is affected
	Late      bool // withdrawn, but an API still returns it
	Bare      bool // has no dates and the like
	Affects   []Aff
	Commit    string // API only: commit query that finds it
	json      []byte
}

type Aff struct {
	Eco, Name         string
	Versions          []string
	Introduced, Fixed string // range, if Introduced != ""
	Last              string
	Events2           [2]string // a second introduced/fixed pair
	Also              *Aff      // a second range
	Git               int       // a range of commits before (1) or after (2) the others
	Shuffle           int       // order of the events
	NoPkg             bool      // about a repository only
}

// eco without the release it may be limited to
func ecoBase(e string) string { b, _, _ := strings.Cut(e, ":"); return b }

func sameEco(a, b string) bool {
	x, xs, _ := strings.Cut(a, ":")
	y, ys, _ := strings.Cut(b, ":")
	return x == y && (xs == "" || ys == "" || xs == ys)
}

// normName is the PEP 503 name of a Python package.
func normName(eco, n string) string {
	if ecoBase(eco) != "PyPI" {
		return n
	}
	var b strings.Builder
	sep := false
	for _, c := range strings.ToLower(n) {
		if c == '-' || c == '_' || c == '.' {
			sep = true
			continue
		}
		if sep {
			b.WriteByte('-')
			sep = false
		}
		b.WriteRune(c)
	}
	if sep {
		b.WriteByte('-')
	}
	return b.String()
}

// spell writes the name of a Python package in another way.
func (w *World) spell(eco, n string) string {
	if eco != "PyPI" || !w.ch.Pct(25) {
		return n
	}
	switch w.ch.N(4) {
	case 0:
		return strings.ToUpper(n[:1]) + n[1:]
	case 1:
		return strings.ReplaceAll(n, "-", "_")
	case 2:
		return strings.ReplaceAll(n, "-", ".")
	}
	return strings.ReplaceAll(strings.ToUpper(n), "-", "-_")
}

func cmpVer(a, b string) int {
	if a == "0" {
		a = "0.0.0"
	}
	if b == "0" {
		b = "0.0.0"
	}
	x, y := strings.Split(strings.TrimPrefix(a, "v"), "."), strings.Split(strings.TrimPrefix(b, "v"), ".")
	for i := 0; i < len(x) && i < len(y); i++ {
		p, _ := strconv.Atoi(x[i])
		q, _ := strconv.Atoi(y[i])
		if p != q {
			if p < q {
				return -1
			}
			return 1
		}
	}
	return 0
}

func (a Aff) contains(v string) bool {
	if a.Also != nil && a.Also.contains(v) {
		return true
	}
	if a.Introduced == "" {
		return false
	}
	if a.Introduced != "0" && cmpVer(v, a.Introduced) < 0 {
		return false
	}
	if a.Fixed != "" && cmpVer(v, a.Fixed) >= 0 {
		return a.Events2[0] != "" && cmpVer(v, a.Events2[0]) >= 0 && cmpVer(v, a.Events2[1]) < 0
	}
	if a.Last != "" && cmpVer(v, a.Last) > 0 {
		return false
	}
	return true
}

func (ad *Adv) affects(p Pkg) bool {
	for _, a := range ad.Affects {
		if a.NoPkg || !sameEco(a.Eco, p.Eco) || normName(a.Eco, a.Name) != normName(p.Eco, p.Name) {
			continue
		}
		if len(a.Versions) == 0 && a.Introduced == "" && a.Git == 0 {
			continue
		}
		for _, v := range a.Versions {
			if v == p.Version {
				return true
			}
		}
		if p.Version == "" || a.contains(p.Version) {
			return true
		}
	}
	return false
}

func (ad *Adv) JSON() []byte {
	if ad.json != nil {
		return ad.json
	}
	m := map[string]any{
		"schema_version": "1.6.0",
		"id":             ad.ID,
		"summary":        ad.Summary,
		"details":        ad.Details,
		"published":      "2021-02-03T04:05:06Z",
		"modified":       "2022-02-03T04:05:06Z",
		"references":     []any{map[string]any{"type": "WEB", "url": "https://example.com/" + ad.ID}},
	}
	if ad.Aliases != nil {
		m["aliases"] = ad.Aliases
	}
	if ad.Bare {
		for _, k := range []string{"schema_version", "published", "modified", "references"} {
			delete(m, k)
		}
		if ad.Summary == "" {
			delete(m, "summary")
		}
		if ad.Details == "" {
			delete(m, "details")
		}
	}
	if ad.Withdrawn || ad.Late {
		m["withdrawn"] = "2022-03-03T04:05:06Z"
	}
	var affs []any
	for _, a := range ad.Affects {
		x0 := a
		am := map[string]any{"package": map[string]any{"name": a.Name, "ecosystem": a.Eco, "purl": "pkg:x/" + a.Name}}
		if a.NoPkg {
			am = map[string]any{}
		}
		if len(a.Versions) > 0 {
			am["versions"] = a.Versions
		}
		git := map[string]any{"type": "GIT", "repo": "https://example.org/r.git", "events": []any{map[string]any{"introduced": "0"}, map[string]any{"fixed": "c0ffee"}}}
		var rs []any
		if a.Git == 1 {
			rs = append(rs, git)
		}
		for x := &a; x != nil && x.Introduced != ""; x = x.Also {
			a := *x
			ev := []any{map[string]any{"introduced": a.Introduced}}
			if a.Fixed != "" {
				ev = append(ev, map[string]any{"fixed": a.Fixed})
			}
			if a.Last != "" {
				ev = append(ev, map[string]any{"last_affected": a.Last})
			}
			if a.Events2[0] != "" {
				ev = append(ev, map[string]any{"introduced": a.Events2[0]}, map[string]any{"fixed": a.Events2[1]})
			}
			typ := "ECOSYSTEM"
			if eco := x0.Eco; eco == "npm" || eco == "Go" || eco == "crates.io" {
				typ = "SEMVER"
			}
			for k := a.Shuffle; k > 0; k-- {
				ev = append(ev[1:], ev[0])
			}
			rs = append(rs, map[string]any{"type": typ, "events": ev})
		}
		if a.Git == 2 {
			rs = append(rs, git)
		}
		if rs != nil {
			am["ranges"] = rs
		}
		affs = append(affs, am)
	}
	if affs != nil && !ad.NoAff {
		m["affected"] = affs
	}
	ad.json, _ = json.Marshal(m)
	return ad.json
}

// isAlias mirrors what the properties mean by "same advisory".
func sameAdv(a, b *Adv) bool {
	if a.ID == b.ID {
		return true
	}
	has := func(xs []string, s string) bool {
		for _, x := range xs {
			if x == s {
				return true
			}
		}
		return false
	}
	for _, al := range b.Aliases {
		if a.ID == al || has(a.Aliases, al) {
			return true
		}
	}
	for _, al := range a.Aliases {
		if b.ID == al || has(b.Aliases, al) {
			return true
		}
	}
	return false
}

// Lock is a generated lockfile.
type Lock struct {
	alike    int    // 1: package names as in other ecosystems
	path     string // absolute
	name     string // base name
	format   string
	pkgs     []Pkg
	includes []string // absolute paths of files it includes
	bad      string   // "", "syntax": statically unparsable, "dangling": a link to nowhere
	long     bool     // has a line too long for a line scanner
	dangle   string   // what to remove to make it so
	idx      int
}

// DB is a database the world knows.
type DB struct {
	Name, Type, URL, WD string
	explicitType        bool
	invalid             bool   // entry the detector must refuse
	broken              bool   // a directory that does not exist
	root                string // dir: absolute root of the walk
	link, real          string // dir: a link and where it leads
	files               []dirFile
	dirs                []string
	arch                *Archive
	api                 *API
}

type dirFile struct {
	path    string
	adv     *Adv
	damaged bool // statically invalid JSON
}

func (d *DB) ident() string {
	id := d.Type + "#" + d.URL
	if d.WD != "" {
		id += "#" + d.WD
	}
	return id
}

// Conf is a config file.
type Conf struct {
	path   string // absolute
	ignore []string
	dbs    []*DB
	bad    bool  // statically unparsable
	dir    bool  // a directory instead
	same   *Conf // a link to this one
}

// key names the file behind a config.
func (c *Conf) key() string {
	if c.same != nil {
		return c.same.path
	}
	return c.path
}

// Arg is a path given on the command line.
type Arg struct {
	text   string // as passed (with parse-as prefix)
	path   string // without prefix
	abs    string
	prefix string
	dir    bool
	miss   bool
	locks  []*Lock
	disp   []string // displayed path of each lock
}

// World is everything that exists before the detector runs.
type World struct {
	info    string // --version or the like
	prefer  bool   // the environment asks for the API
	k       Knobs
	ch      *Choices
	fs      *FS
	net     *Net
	locks   []*Lock
	confs   map[string]*Conf // by directory (absolute); key "" : --config file
	confF   map[string]*Conf // by path
	dbs     []*DB
	ecoDB   map[string]*DB
	apiDB   *DB
	fatN    int
	args    []*Arg
	roles   map[string][2]string
	idN     int
	ids     []string
	names   int
	nArch   int
	allP    []Pkg
	swamped *Pkg
	big     bool   // hundreds of packages
	bundle  string // a directory whose files are all parsed in one way

	refused bool // the flags are invalid
	tmpBad  bool // there is no usable temporary directory

	// flags
	flags      []string
	json       bool
	useAPI     bool
	useDBs     bool
	noConfig   bool
	noCfgIgn   bool
	noCfgDBs   bool
	update     bool
	listPkgs   bool
	batch      int
	ignores    []string
	config     *Conf
	configArg  string
	parseAsAll string
	csvRows    []string
}

// Knobs bias the generated worlds and faults of a property.
type Knobs struct {
	locks    [2]int
	pkgs     [2]int
	formats  []string // nil: all
	dirs     int      // percent of lockfiles given through their directory
	missArg  int      // percent: an extra path that does not exist
	emptyDir int
	badLock  int // percent of unparsable lockfiles
	bundle   int // percent: a directory given with the format of its files
	tmpDir   int // percent: an unusual or unusable temporary directory
	lockLink int // percent of lockfiles that are symbolic links
	junk     int // percent of directories with many unrelated files
	fat      int // percent of advisories of many kilobytes
	longLine int // percent of lockfiles with a line beyond usual buffers
	odd      int // percent: flags and prefixes that make no sense
	include  int
	big      int // percent of lockfiles padded beyond buffer sizes
	conf     int // percent of directories with a config
	badConf  int
	gConf    int // percent: --config
	noConf   int
	invDB    int // percent: invalid database entry in a config
	extraDB  [2]int
	dbTypes  []string // of extra databases
	useAPI   int
	useDBs   int
	advs     [2]int // advisories per database
	overlap  int    // percent of advisories that copy an id of another database
	alias    int
	withdraw int
	ignore   int // percent of ids ignored
	damaged  int // percent of damaged advisories
	sameURL  int // percent: zip database shares the url of another with other working dir
	json     int
	update   int
	list     int
	csvRow   int
	huge     int // how many of these have far more
	many     int // per thousand: tens of lockfiles
	bigAPI   int // percent: hundreds of packages
	swamp    int // per thousand: many advisories for one package
	swampN   int
	info     int // percent: asked about itself only
	shared   int // percent of packages shared between lockfiles
	commits  int
	symlink  int  // percent of configs reached through a symlink
	hostile  int  // percent of archive entries with names that point elsewhere
	dup      bool // a lockfile may be given twice
	sameEco  int  // percent: all lockfiles of one ecosystem
	flagsMix int  // percent of the minor flags
	batchMax int
}

func defKnobs() Knobs {
	return Knobs{
		locks: [2]int{1, 3}, pkgs: [2]int{0, 6}, dirs: 35, conf: 45, extraDB: [2]int{0, 2},
		dbTypes: []string{"zip", "api", "dir"}, useAPI: 30, useDBs: 50, advs: [2]int{0, 7}, overlap: 25, alias: 20, withdraw: 8,
		ignore: 25, json: 75, gConf: 15, lockLink: 6, tmpDir: 3, bundle: 3, junk: 8, fat: 2, odd: 2, noConf: 5, include: 40, commits: 15, shared: 10, flagsMix: 10, batchMax: 6, sameURL: 15, swamp: 2, many: 1,
	}
}

func (w *World) role(path string) (string, string) {
	if r, ok := w.roles[path]; ok {
		return r[0], r[1]
	}
	if strings.HasPrefix(path, tmpDir+"/") {
		b := path[len(tmpDir)+1:]
		if strings.HasPrefix(b, "osv-detector-") && strings.HasSuffix(b, "-db.json") && strings.Count(b, "/") == 0 {
			return "cache", path
		}
		return "tmp", path
	}
	if i := strings.LastIndexByte(path, '/'); i > 0 {
		if r, ok := w.roles[path[:i]]; ok && (r[0] == "dbdir" || r[0] == "dbfile") {
			return "dbfile", path
		}
		// an unknown file next to a config: its temporary replacement
		best := ""
		for p := range w.confF {
			if dirOf(p) == path[:i] && (best == "" || p < best) {
				best = p
			}
		}
		for p, r := range w.roles { // a config reached through a symlink
			if r[0] == "config" && dirOf(p) == path[:i] && (best == "" || r[1] < best) {
				best = r[1]
			}
		}
		if best != "" {
			return "cfgtmp", best
		}
	}
	return "other", path
}

func (w *World) newID() string {
	w.idN++
	id := []string{"GHSA-", "OSV-2024-", "CVE-2023-", "PYSEC-", "X:"}[w.ch.N(5)] + strconv.Itoa(1000+w.idN)
	if len(w.ids) > 0 && w.ch.Pct(12) { // easily taken for one another
		prev := w.ids[w.ch.N(len(w.ids))]
		switch w.ch.N(4) {
		case 3: // means something in YAML
			id = pick(w.ch, []string{"#", "*", "&", "!", "@", "%", "'", "[", "{", "`"}) + strconv.Itoa(1000+w.idN)
		case 0:
			id = prev + strconv.Itoa(w.ch.N(10))
		case 1:
			id = strings.ToLower(prev)
		case 2:
			id = "A" + prev
		}
		for w.idSeen(id) {
			id += "0"
		}
	}
	w.ids = append(w.ids, id)
	return id
}

func (w *World) idSeen(id string) bool {
	for _, o := range w.ids {
		if o == id {
			return true
		}
	}
	return false
}

func (w *World) version() string {
	return fmt.Sprintf("%d.%d.%d", w.ch.N(4), w.ch.N(3), w.ch.N(10))
}

// advFor makes an advisory about packages of the world (or others).
func (w *World) advFor(dbn string, ecoOnly string, pool []*Adv) *Adv {
	ch := w.ch
	ad := &Adv{}
	if len(pool) > 0 && ch.Pct(w.k.overlap) {
		ad.ID = pool[ch.N(len(pool))].ID
	} else {
		ad.ID = w.newID()
	}
	ad.Summary = "S " + ad.ID + " of " + dbn
	ad.Details = "D " + ad.ID + " of " + dbn
	if ch.Pct(20) {
		ad.Summary = ""
	}
	switch ch.W(90, 4, 3, 3) {
	case 1: // in the words of others
		ad.Summary = "Denial of service"
	case 2: // one long word
		ad.Summary, ad.Details = "", strings.Repeat([]string{"w", "é", "漢"}[ch.N(3)], 70+ch.N(60))+ad.ID
	case 3: // in one paragraph
		ad.Summary, ad.Details = "", ad.Details+strings.Repeat(" and so on", 3+ch.N(20))
	}
	if ch.Pct(4) {
		ad.Bare = true
		if ch.Pct(60) {
			ad.Summary, ad.Details = "", ""
		}
	}
	if ch.Pct(w.k.alias) {
		if len(pool) > 0 && ch.Pct(70) {
			ad.Aliases = append(ad.Aliases, pool[ch.N(len(pool))].ID)
		} else {
			ad.Aliases = append(ad.Aliases, "ALIAS-"+strconv.Itoa(ch.N(4)))
		}
		for n := ch.W(70, 15, 10, 5); n > 0; n-- {
			a := "ALIAS-" + strconv.Itoa(4+ch.N(40))
			if ch.Pct(50) {
				ad.Aliases = append(ad.Aliases, a)
			} else {
				ad.Aliases = append([]string{a}, ad.Aliases...)
			}
		}
	}
	ad.Withdrawn = ch.Pct(w.k.withdraw)
	if !w.big && ch.Pct(w.k.fat) {
		n := 5<<10 + ch.N(90<<10)
		if ch.Pct(8) {
			n = 1300 << 10
		}
		if w.fatN += n; w.fatN > 4<<20 { // (memory is bounded)
			n = 10
		}
		ad.Details += "\n" + strings.Repeat("x", n) + "!"
	}
	na := 1 + ch.W(80, 15, 5)
	for i := 0; i < na; i++ {
		a := Aff{}
		var p Pkg
		if len(w.allP) > 0 && !ch.Pct(10) {
			p = w.allP[ch.N(len(w.allP))]
			if ecoOnly != "" {
				var c []Pkg
				for _, q := range w.allP {
					if q.Eco == ecoOnly {
						c = append(c, q)
					}
				}
				if len(c) > 0 && !ch.Pct(10) {
					p = c[ch.N(len(c))]
				}
			}
			if p.Commit != "" && p.Version == "" {
				ad.Commit = p.Commit
			}
		} else {
			p = Pkg{Name: "unrelated" + strconv.Itoa(ch.N(5)), Eco: "npm", Version: "1.0.0"}
		}
		a.Eco, a.Name = p.Eco, w.spell(p.Eco, p.Name)
		if i > 0 && ch.Pct(25) {
			a.Name = ad.Affects[0].Name // more about the same package
			a.Eco = ad.Affects[0].Eco
		}
		if b := ecoBase(a.Eco); b != a.Eco {
			a.Eco = []string{a.Eco, b, b + ":99"}[ch.W(50, 40, 10)]
		}
		if a.Eco == "" {
			a.Eco = "npm"
		}
		switch ch.N(5) {
		case 0:
			a.Introduced = "0"
		case 1:
			a.Introduced, a.Fixed = "0", w.version()
		case 2:
			if p.Version != "" {
				a.Versions = []string{p.Version, "9.9.9"}
			} else {
				a.Introduced = "0"
			}
		case 3:
			a.Introduced, a.Last = w.version(), "3.9.9"
		case 4:
			lo := w.version()
			a.Introduced, a.Fixed = "0", lo
			if cmpVer(lo, "3.0.0") < 0 {
				a.Events2 = [2]string{"3.0.0", "3.2.0"}
			}
		}
		if ch.Pct(30) {
			switch ch.N(5) {
			case 0:
				a = Aff{Eco: a.Eco, Name: a.Name} // says nothing
			case 1:
				a = Aff{Eco: a.Eco, Name: a.Name, Git: 1} // commits only
			case 2:
				a.Git = 1 + ch.N(2)
			case 3:
				a.Shuffle = 1 + ch.N(2)
			case 4:
				if a.Introduced != "" {
					lo := w.version()
					a.Also = &Aff{Introduced: lo, Last: lo}
				}
			}
		}
		ad.Affects = append(ad.Affects, a)
	}
	if ch.Pct(5) {
		a := Aff{NoPkg: true, Git: 1}
		if ch.Pct(60) {
			ad.Affects = append([]Aff{a}, ad.Affects...)
		} else {
			ad.Affects = append(ad.Affects, a)
		}
	}
	return ad
}

// advSet makes the advisories of one database; ids are distinct within it.
func (w *World) advSet(dbn, eco string) []*Adv {
	var out []*Adv
	seen := map[string]bool{}
	n := w.ch.Range(w.k.advs[0], w.k.advs[1])
	if w.big && w.ch.Pct(50) {
		n = 180 + w.ch.N(180)
	}
	var pool []*Adv
	for _, d := range w.dbs {
		pool = append(pool, d.allAdvs()...)
	}
	if w.k.swamp > 0 && len(w.allP) > 0 && (w.ch.N(1000) >= 1000-w.k.swamp || w.swamped != nil && w.ch.Pct(40)) {
		p := w.allP[w.ch.N(len(w.allP))]
		if w.swamped != nil && w.ch.Pct(80) {
			p = *w.swamped // the databases agree
		}
		if p.Commit == "" {
			w.swamped = &p
			n := w.k.swampN
			if n == 0 {
				n = []int{41, 101, 310}[w.ch.W(40, 40, 20)]
			}
			for i := n + w.ch.N(40); i > 0; i-- {
				id := fmt.Sprintf("SWAMP-%04d", i)
				seen[id] = true
				out = append(out, &Adv{ID: id, Summary: "S " + id, Affects: []Aff{{Eco: p.Eco, Name: p.Name, Introduced: "0"}}})
			}
		}
	}
	for i := 0; i < n; i++ {
		ad := w.advFor(dbn, eco, pool)
		if seen[ad.ID] {
			continue
		}
		seen[ad.ID] = true
		out = append(out, ad)
		pool = append(pool, ad)
	}
	return out
}

// lateSome has an API withdraw some advisories that it still returns.
func (w *World) lateSome(as []*Adv) []*Adv {
	for _, ad := range as {
		ad.Late = w.ch.Pct(4)
		ad.NoAff = w.ch.Pct(4)
	}
	return as
}

func (d *DB) allAdvs() []*Adv {
	switch {
	case d.api != nil:
		return d.api.advs
	case d.arch != nil:
		return d.arch.cur.advs
	}
	var out []*Adv
	for _, f := range d.files {
		if f.adv != nil {
			out = append(out, f.adv)
		}
	}
	return out
}

// publish makes a new version of an archive.
func (w *World) publish(a *Archive, advs []*Adv, wds []string) *ArchVersion {
	ch := w.ch
	v := &ArchVersion{a: a, n: len(a.versions), advs: advs}
	v.etag = fmt.Sprintf(`"e%d-%d"`, w.nArch, len(a.versions))
	if a.weak {
		v.etag = "W/" + v.etag
	}
	w.nArch++
	v.mtime = w.net.wallSec()
	v.style = a.style
	if v.n > 0 && ch.Pct(15) {
		v.style = ch.N(nVal)
	}
	if ch.Pct(20) {
		v.files = append(v.files, archFile{name: "README.md"})
	}
	for i, ad := range advs {
		wd := ""
		if len(wds) > 0 {
			wd = wds[ch.N(len(wds))]
			if ch.Pct(10) {
				wd = "old/" + wd
			}
		}
		f := archFile{name: wd + ad.ID + ".json", adv: ad}
		if ch.Pct(w.k.damaged) {
			f.damaged = []string{"json", "crc", "type", "method", "empty", "size"}[ch.N(6)]
		}
		if ch.Pct(w.k.hostile) {
			f.name = wd + []string{"../../work/", "/work/evil/", "../../../../../../tmp/", "..\\\\..\\\\"}[ch.N(4)] + ad.ID + ".json"
		} else if ch.Pct(5) {
			f.name = wd + fmt.Sprintf("sub%d/", i) + []string{"", "a/", "a/b/c/d/"}[ch.N(3)] + ad.ID + ".json"
			switch ch.W(60, 30, 10) {
			case 1: // many of the same name
				f.name = wd + fmt.Sprintf("sub%d/", i) + "osv.json"
			case 2: // not even apart by their directory
				f.name = wd + "osv.json"
			}
		}
		v.files = append(v.files, f)
	}
	v.body = buildZip(v.files, "")
	if v.n > 0 && ch.Pct(20) { // as long as the one before
		if d := len(a.cur.body) - len(v.body); d > 0 && d < 60000 {
			v.body = buildZip(v.files, strings.Repeat("-", d))
		}
	}
	a.versions = append(a.versions, v)
	a.cur = v
	return v
}

func (w *World) newDB(typ string) *DB {
	ch := w.ch
	i := len(w.dbs)
	d := &DB{Type: typ, Name: fmt.Sprintf("db-%d", i)}
	if ch.Pct(20) {
		d.Name = ""
	}
	d.explicitType = ch.Pct(40)
	switch typ {
	case "zip":
		var share *Archive
		for _, o := range w.dbs {
			if o.arch != nil && o.WD != "" && ch.Pct(w.k.sameURL*3) {
				share = o.arch
			}
		}
		if share != nil {
			d.arch = share
			d.URL = share.url
			d.explicitType = d.explicitType || strings.ContainsAny(d.URL, "?%")
			d.WD = "alt/"
			for _, o := range w.dbs {
				if o.ident() == d.ident() {
					return o
				}
			}
		} else {
			d.URL = fmt.Sprintf("https://zips%d.example.org/d%d/all.zip", i, i)
			if ch.Pct(6) {
				d.URL = fmt.Sprintf("http://%s:80%d0/d%d/all.zip", []string{"localhost", "127.0.0.1"}[ch.N(2)], i, i)
			}
			if ch.Pct(12) {
				for _, o := range w.dbs {
					if o.arch == nil || o.arch.url != o.URL {
						continue
					}
					// alike but for the query, or the case of the path
					d.URL = o.URL + "?rev=" + strconv.Itoa(i)
					d.explicitType = true
					if !strings.Contains(o.URL, "?") && ch.Pct(40) {
						d.URL = strings.Replace(o.URL, "/all.zip", "/ALL.zip", 1)
					} else if ch.Pct(30) {
						d.URL = strings.Replace(o.URL, "https:", "http:", 1)
					} else if ch.Pct(50) {
						d.URL = strings.Replace(o.URL, "/all.zip", []string{"//all.zip", "/./all.zip", "/all%2Ezip"}[ch.N(3)], 1)
					} else if ch.Pct(30) {
						d.URL = strings.Replace(o.URL, "://", "://www.", 1)
					}
					break
				}
				if w.net.zips[d.URL] != nil {
					d.URL = fmt.Sprintf("https://zips%d.example.org/d%d/all.zip", i, i)
				}
			}
			a := &Archive{url: d.URL, style: ch.W(50, 15, 25, 8, 5), weak: ch.Pct(20)}
			w.net.zips[d.URL] = a
			d.arch = a
			if ch.Pct(8) {
				a.redir = fmt.Sprintf("https://cdn.example.net/%d/blob.zip", i)
			}
			var wds []string
			if ch.Pct(w.k.sameURL * 3) {
				wds = []string{"main/", "alt/", ""}
				d.WD = "main/"
			}
			w.publish(a, w.advSet(d.label(), ""), wds)
		}
	case "api":
		d.URL = fmt.Sprintf("https://api%d.example.org/v1", i)
		if ch.Pct(10) {
			d.URL = fmt.Sprintf("http://%s:80%d0/v1", []string{"localhost", "127.0.0.1"}[ch.N(2)], i)
		}
		if ch.Pct(20) {
			d.URL += "/x"
		}
		d.api = &API{base: d.URL, advs: w.lateSome(w.advSet(d.label(), "")), extra: ch.Pct(30), twice: ch.Pct(6), token: ch.Pct(4)}
		if ch.Pct(w.k.fat) {
			d.api.pad = []int{70 << 10, 1100 << 10}[ch.W(90, 10)]
		}
		w.net.apis[d.URL] = d.api
	case "dir":
		abs := ch.Pct(40)
		base := fmt.Sprintf("advdb%d", i)
		if abs {
			d.URL = "file:////data/" + base
			d.root = "/data/" + base
		} else {
			d.URL = "file:/" + base
			d.root = "/work/" + base
		}
		at := d.root
		if ch.Pct(25) {
			d.WD = "wd"
			d.root += "/wd"
		}
		if ch.Pct(4) {
			d.broken = true
			if ch.Pct(25) { // something is there, but not a directory
				w.fs.Put(at, []byte("hello"))
			}
			return w.addDB(d)
		}
		if ch.Pct(8) { // it lies elsewhere
			d.link, d.real = at, "/home/store/"+base
			d.root = d.real + d.root[len(at):]
			w.fs.MkdirAll(d.real)
			w.fs.MkdirAll(dirOf(at))
			w.fs.Symlink(d.real, at)
		}
		w.fs.MkdirAll(d.root)
		dirs := []string{d.root}
		for j := ch.N(3); j > 0; j-- {
			sub := dirs[ch.N(len(dirs))] + fmt.Sprintf("/%ss%d%d", []string{"", "", "", ".", "node_modules/", ".git/"}[ch.N(6)], i, j)
			if up := dirOf(sub); !slices.Contains(dirs, up) {
				dirs = append(dirs, up)
			}
			dirs = append(dirs, sub)
			w.fs.MkdirAll(sub)
		}
		for _, x := range dirs {
			w.roles[x] = [2]string{"dbdir", x}
		}
		d.dirs = dirs
		for _, ad := range w.advSet(d.label(), "") {
			p := dirs[ch.N(len(dirs))] + "/" + strings.ReplaceAll(ad.ID, ":", "_") + fmt.Sprintf("-%d.json", i)
			f := dirFile{path: p, adv: ad}
			data := ad.JSON()
			if ch.Pct(w.k.damaged) {
				f.damaged = true
				data = [][]byte{data[:len(data)/2], []byte("[]"), nil, []byte(`{"id":5}`)}[ch.N(4)]
			}
			if ch.Pct(4) {
				real := fmt.Sprintf("/home/store/a%d-%d", i, len(d.files))
				w.fs.Put(real, data)
				w.roles[real] = [2]string{"dbfile", p}
				w.fs.Symlink(real, p)
			} else {
				w.fs.Put(p, data)
			}
			w.roles[p] = [2]string{"dbfile", p}
			d.files = append(d.files, f)
		}
		if ch.Pct(25) {
			w.fs.Put(d.root+"/notes.txt", []byte("hello"))
		}
		if d.link != "" {
			for _, x := range dirs {
				w.roles[d.link+x[len(d.real):]] = [2]string{"dbdir", x}
			}
			for _, f := range d.files {
				w.roles[d.link+f.path[len(d.real):]] = [2]string{"dbfile", f.path}
			}
			w.roles[d.link] = [2]string{"dbdir", d.root}
		}
	}
	return w.addDB(d)
}

func (w *World) addDB(d *DB) *DB {
	if d.Name != "" && len(w.dbs) > 0 && w.ch.Pct(8) {
		if o := w.dbs[w.ch.N(len(w.dbs))]; o.Name != o.ident() {
			d.Name = o.Name
		}
	}
	if d.Name == "" {
		d.Name = d.ident()
	}
	w.dbs = append(w.dbs, d)
	return d
}

func (d *DB) label() string {
	return d.Type + strconv.Itoa(len(d.URL)) + d.URL[max(0, len(d.URL)-16):] + d.WD
}

func yamlStr(s string) string { b, _ := json.Marshal(s); return string(b) }

func (c *Conf) render(ch *Choices) []byte {
	var b strings.Builder
	if ch.Pct(20) {
		b.WriteString("# a comment\n")
	}
	if len(c.ignore) > 0 {
		b.WriteString("ignore:\n")
		for _, i := range c.ignore {
			if ch.Pct(30) || strings.ContainsAny(i, "#*&!@%'[{`") {
				fmt.Fprintf(&b, "  - %s\n", yamlStr(i))
			} else {
				fmt.Fprintf(&b, "  - %s\n", i)
			}
		}
	} else if ch.Pct(50) {
		b.WriteString("ignore: []\n")
	}
	if len(c.dbs) > 0 {
		b.WriteString("extra-databases:\n")
		for _, d := range c.dbs {
			fmt.Fprintf(&b, "  - url: %s\n", yamlStr(d.URL))
			if d.Name != "" && d.Name != d.ident() {
				fmt.Fprintf(&b, "    name: %s\n", d.Name)
			}
			if d.explicitType {
				fmt.Fprintf(&b, "    type: %s\n", d.Type)
			}
			if d.WD != "" {
				fmt.Fprintf(&b, "    working-directory: %s\n", d.WD)
			}
		}
	}
	if c.bad {
		switch ch.W(60, 0, 30, 10) {
		case 0, 1:
			b.WriteString("ignore: {{{ [\n")
		case 3: // what some crashes leave behind
			return make([]byte, 40+ch.N(100))
		case 2: // the rest could still be made sense of
			if len(c.dbs) > 0 {
				b.WriteString("  - 5\n")
			} else {
				b.WriteString("extra-databases: 5\n")
			}
		}
	}
	return []byte(b.String())
}

func (w *World) makeConf(path string) *Conf {
	ch := w.ch
	c := &Conf{path: path}
	n := ch.Range(w.k.extraDB[0], w.k.extraDB[1])
	for i := 0; i < n; i++ {
		if len(w.dbs) > 0 && ch.Pct(35) {
			d := w.dbs[ch.N(len(w.dbs))]
			if !strings.Contains(d.URL, "osv-vulnerabilities") && !c.has(d) {
				c.dbs = append(c.dbs, d)
			}
			continue
		}
		d := w.newDB(pick(ch, w.k.dbTypes))
		if !c.has(d) {
			c.dbs = append(c.dbs, d)
		}
	}
	if ch.Pct(w.k.invDB) {
		d := &DB{invalid: true, URL: []string{"not a url", "relative/path"}[ch.N(2)], Type: "api"}
		if ch.Pct(40) {
			d.URL, d.Type, d.explicitType = "https://odd.example.org/x", "odd", true
		}
		c.dbs = append(c.dbs, d)
	}
	c.bad = ch.Pct(w.k.badConf)
	w.confF[path] = c
	w.roles[path] = [2]string{"config", path}
	return c
}

func (c *Conf) has(d *DB) bool {
	for _, o := range c.dbs {
		if o.ident() == d.ident() {
			return true
		}
	}
	return false
}

// GenWorld makes the files, databases, servers and command line of a run.
func GenWorld(k Knobs, s *Sim, ch *Choices) *World {
	w := &World{k: k, ch: ch, fs: s.fs, net: s.net, confs: map[string]*Conf{}, confF: map[string]*Conf{}, ecoDB: map[string]*DB{}, roles: map[string][2]string{}, batch: 1000}
	s.net.zips = map[string]*Archive{}
	s.net.chunk = ch.N(4)
	s.net.apis = map[string]*API{}
	s.roleOf = w.role
	w.fs.MkdirAll("/work")
	w.fs.MkdirAll("/tmp")
	w.fs.MkdirAll("/home")
	if ch.Pct(25) {
		w.fs.Put("/work/unrelated.txt", []byte("keep me"))
		w.fs.Put("/tmp/unrelated.txt", []byte("keep me too"))
		if ch.Pct(40) {
			w.fs.Put("/tmp/osv-detector-"+pick(ch, []string{"notes.txt", "results.json", "0.json", "build/x.json"}), []byte("of someone else"))
		}
	}
	if ch.Pct(k.tmpDir) {
		env := ""
		switch ch.N(4) {
		case 0:
			env, tmpDir = "/var/t", "/var/t"
			w.fs.MkdirAll(tmpDir)
		case 1:
			env, tmpDir = "tmpd", "/work/tmpd"
			w.fs.MkdirAll(tmpDir)
		case 2:
			env, tmpDir, w.tmpBad = "/var/none", "/var/none", true
			w.fs.MkdirAll("/var")
		case 3:
			env, tmpDir, w.tmpBad = "/work/plain", "/work/plain", true
			w.fs.Put(tmpDir, []byte("not a directory"))
		}
		os.Setenv("TMPDIR", env)
	}

	w.useAPI = ch.Pct(k.useAPI)
	w.useDBs = ch.Pct(k.useDBs)
	if ch.Pct(3) {
		w.prefer = true
		os.Setenv("OSV_DETECTOR_PREFER_API", "true")
	}
	w.json = ch.Pct(k.json)
	w.noConfig = ch.Pct(k.noConf)
	w.listPkgs = ch.Pct(k.list)

	// lockfiles
	big := ch.Pct(k.bigAPI)
	w.big = big
	if ch.Pct(k.csvRow) {
		w.genCSVRows()
	} else {
		n := ch.Range(k.locks[0], k.locks[1])
		many := !big && ch.N(1000) >= 1000-k.many
		if many {
			n = 10 + ch.N(60)
		}
		fmts := k.formats
		if fmts == nil {
			fmts = formatNames
		}
		var dirs []string
		used := map[string]bool{}
		only := ""
		if ch.Pct(k.sameEco) {
			only = fmts[ch.N(len(fmts))]
		}
		for i := 0; i < n; i++ {
			f := fmts[ch.N(len(fmts))]
			if only != "" {
				f = only
			}
			dir := ""
			if len(dirs) > 0 && ch.Pct(35) {
				dir = dirs[ch.N(len(dirs))]
			} else {
				dir = fmt.Sprintf("/work/p%d", i)
				if ch.Pct(10) {
					dir = fmt.Sprintf("/srv/abs%d", i)
				}
				if ch.Pct(5) && i == 0 {
					dir = "/work"
				}
				if ch.Pct(8) {
					dir = fmt.Sprintf([]string{"/work/my proj%d", "/work/a:b%d", "/work/päth-Ω%d", "/work/.hid%d/x", "/work/100%%-%d"}[ch.N(5)], i)
				}
				if len(dirs) > 0 && ch.Pct(12) {
					dir = fmt.Sprintf("%s/nested%d", dirs[ch.N(len(dirs))], i)
				}
				dirs = append(dirs, dir)
			}
			if used[dir+"/"+fileNameOf(f)] {
				dir = fmt.Sprintf("/work/q%d", i)
				dirs = append(dirs, dir)
			}
			used[dir+"/"+fileNameOf(f)] = true
			np := ch.Range(k.pkgs[0], k.pkgs[1])
			if big {
				switch ch.W(85-k.huge, 5, 5+k.huge, 5) {
				case 0:
					np = 60 + ch.N(400)
				case 1:
					np = 990 + ch.N(30)
				case 2:
					np = 520 + ch.N(200)
				case 3:
					np = 1001 + ch.N(1200)
				}
			} else if many {
				np = min(np, 2)
			}
			w.genLock(i, dir, f, np)
		}
		w.genArgs(dirs)
	}
	for _, l := range w.locks {
		w.allP = append(w.allP, l.pkgs...)
	}

	// configs and their databases
	if !w.listPkgs {
		if ch.Pct(k.gConf) {
			path := []string{"/work/global.yml", "/home/cfg/osv.yaml"}[ch.N(2)]
			w.config = w.makeConf(path)
			w.configArg = path
			if path == "/work/global.yml" && ch.Pct(60) {
				w.configArg = "global.yml"
			}
		}
		seen := map[string]bool{}
		var cdirs []string
		for _, l := range w.locks {
			if !seen[dirOf(l.path)] && dirOf(l.path) != w.bundle && l.path != "-" {
				seen[dirOf(l.path)] = true
				cdirs = append(cdirs, dirOf(l.path))
			}
		}
		if len(w.csvRows) > 0 {
			cdirs = append(cdirs, "/work")
		}
		for _, d := range cdirs {
			if !ch.Pct(k.conf) {
				continue
			}
			ext := []string{".yml", ".yaml"}[ch.N(2)]
			if olds := w.confSorted(); len(olds) > 0 && ch.Pct(k.symlink) { // one config for several projects
				if o := olds[ch.N(len(olds))]; o.same == nil {
					c := &Conf{path: d + "/.osv-detector" + ext, dbs: o.dbs, bad: o.bad, same: o}
					w.confs[d], w.confF[c.path] = c, c
					w.roles[c.path] = [2]string{"config", c.path}
					w.fs.byName = func(p string) bool { x := w.confF[p]; return x != nil && x.same != nil }
					continue
				}
			}
			w.confs[d] = w.makeConf(d + "/.osv-detector" + ext)
			if ext == ".yml" && ch.Pct(15) {
				w.makeConf(d + "/.osv-detector.yaml") // shadowed
			}
		}
	}
	// default databases
	if w.useAPI {
		d := &DB{Type: "api", Name: "osv.dev v1 API", URL: "https://api.osv.dev/v1"}
		d.api = &API{base: d.URL, advs: w.lateSome(w.advSet("osv.dev", "")), extra: ch.Pct(30)}
		w.net.apis[d.URL] = d.api
		w.apiDB = d
		w.dbs = append(w.dbs, d)
	}
	if w.useDBs {
		for _, p := range w.allP {
			if p.Eco == "" || w.ecoDB[p.Eco] != nil {
				continue
			}
			u := "https://osv-vulnerabilities.storage.googleapis.com/" + p.Eco + "/all.zip"
			d := &DB{Type: "zip", Name: p.Eco, URL: u}
			a := &Archive{url: u, style: ch.W(70, 10, 15, 4, 3), weak: ch.Pct(10)}
			d.arch = a
			w.net.zips[u] = a
			w.publish(a, w.advSet(p.Eco, p.Eco), nil)
			w.ecoDB[p.Eco] = d
			w.dbs = append(w.dbs, d)
		}
	}
	// ignores
	ids := w.allIDs()
	for _, c := range w.confSorted() {
		if c.same != nil {
			w.fs.Symlink(c.same.path, c.path)
			continue
		}
		for _, id := range ids {
			if ch.Pct(k.ignore) {
				c.ignore = append(c.ignore, id)
			}
		}
		if ch.Pct(20) {
			c.ignore = append(c.ignore, "OLD-"+strconv.Itoa(ch.N(5)))
		}
		for n := ch.W(85, 8, 4, 3); n > 0; n-- {
			// other names of what is found are not what is ignored
			if a := "ALIAS-" + strconv.Itoa(ch.N(44)); !slices.Contains(c.ignore, a) {
				c.ignore = append(c.ignore, a)
			}
		}
		if ch.Pct(4) { // a long list
			var old []string
			for i := 60 + ch.N(900); i > 0; i-- {
				old = append(old, fmt.Sprintf("PAST-2019-%04d", i))
			}
			c.ignore = append(old, c.ignore...)
		}
		data := c.render(ch)
		if c.bad && ch.Pct(15) {
			if ch.Pct(30) {
				w.fs.Symlink(c.path, c.path) // leads nowhere
			} else if c != w.config || ch.Pct(50) {
				w.fs.MkdirAll(c.path) // not even a file
			} // (or nothing at all)
			c.dir = true
		} else if ch.Pct(k.symlink) {
			real := "/home/real/" + strings.ReplaceAll(c.path[1:], "/", "_")
			w.fs.Put(real, data)
			w.roles[real] = [2]string{"config", c.path}
			if ch.Pct(30) { // by way of another link
				via := "/home/via/" + baseName(real)
				w.fs.MkdirAll("/home/via")
				w.fs.Symlink("../real/"+baseName(real), via)
				w.roles[via] = [2]string{"config", c.path}
				real = via
			}
			w.fs.Symlink(real, c.path)
		} else {
			w.fs.Put(c.path, data)
		}
	}
	for _, c := range w.confSorted() {
		if c.same != nil {
			c.ignore, c.dir = c.same.ignore, c.same.dir
		}
	}
	if ch.Pct(k.flagsMix) {
		for _, id := range ids {
			if ch.Pct(20) {
				w.ignores = append(w.ignores, id)
			}
		}
	}
	for _, l := range w.locks {
		d := w.confDir(l)
		for _, e := range []string{".yml", ".yaml"} {
			if p := d + "/.osv-detector" + e; w.roles[p][0] == "" {
				w.roles[p] = [2]string{"config", p}
			}
		}
	}
	w.noCfgIgn = ch.Pct(k.flagsMix / 2)
	w.noCfgDBs = ch.Pct(k.flagsMix / 2)
	w.update = !w.listPkgs && ch.Pct(k.update)
	if w.apiUsed() && ch.Pct(75) {
		w.batch = 1 + ch.N(max(1, k.batchMax))
		if big && ch.Pct(20) {
			w.batch = []int{100, 500, 999, 1001, 1500}[ch.N(5)]
		}
		if ch.Pct(k.odd) {
			w.batch = -ch.N(2) * 3
		}
	}
	if ch.Pct(k.info) {
		w.info = []string{"--version", "--list-ecosystems"}[ch.N(2)]
	}
	if len(w.csvRows) == 0 && w.parseAsAll == "" && ch.Pct(k.odd/2) {
		w.parseAsAll, w.refused = "nonsense.lock", true
	}
	return w
}

func dirOf(p string) string {
	i := strings.LastIndexByte(p, '/')
	if i <= 0 {
		return "/"
	}
	return p[:i]
}

func (w *World) apiUsed() bool {
	for _, d := range w.dbs {
		if d.api != nil {
			return true
		}
	}
	return false
}

func (w *World) allIDs() []string {
	var out []string
	seen := map[string]bool{}
	for _, d := range w.dbs {
		for _, a := range d.allAdvs() {
			if !seen[a.ID] {
				seen[a.ID] = true
				out = append(out, a.ID)
			}
		}
	}
	return out
}

func (w *World) confSorted() []*Conf {
	var ps []string
	for p := range w.confF {
		ps = append(ps, p)
	}
	sortStrings(ps)
	var out []*Conf
	for _, p := range ps {
		out = append(out, w.confF[p])
	}
	return out
}

// rel spells an absolute path the way a user would.
func (w *World) rel(abs string) string {
	if abs == "/work" {
		return "."
	}
	if strings.HasPrefix(abs, "/work/") {
		r := abs[len("/work/"):]
		switch w.ch.N(5) {
		case 3:
			return "./" + r
		case 4:
			return abs
		}
		return r
	}
	return abs
}

func (w *World) genArgs(dirs []string) {
	ch := w.ch
	taken := map[string]bool{}
	for _, l := range w.locks {
		d := dirOf(l.path)
		std := parserNames[l.name]
		if std && ch.Pct(w.k.dirs) && d != "/work" && (w.k.dup || !w.fileGiven(d)) {
			if taken[d] {
				continue
			}
			// the directory covers every lockfile with a recognised name
			if w.dirGiven(d) {
				continue
			}
			a := &Arg{path: w.rel(d), abs: d, dir: true}
			if ch.Pct(20) {
				a.path += "/"
			}
			a.text = a.path
			if strings.Contains(a.path, ":") {
				a.text = ":" + a.path
			}
			w.args = append(w.args, a)
			taken[d] = true
			continue
		}
		if w.dirGiven(d) && std {
			continue
		}
		a := &Arg{path: w.rel(l.path), abs: l.path, locks: []*Lock{l}}
		if l.bad == "" && l.dangle == "" && !w.k.dup && ch.Pct(w.k.odd) {
			a.prefix = "foo.lock"
			l.bad, l.pkgs = "prefix", nil
		} else if l.format == "csv-file" {
			a.prefix = "csv-file"
		} else if !std || ch.Pct(10) {
			a.prefix = parseAsOf(l.format)
		}
		a.text = a.path
		if a.prefix != "" {
			a.text = a.prefix + ":" + a.path
		} else if strings.Contains(a.path, ":") {
			a.text = ":" + a.path
		}
		w.args = append(w.args, a)
	}
	// directories list all the recognised files in them, in name order
	for _, a := range w.args {
		if !a.dir {
			continue
		}
		for _, l := range w.locksIn(a.abs) {
			a.locks = append(a.locks, l)
		}
		w.roles[a.abs] = [2]string{"indir", a.abs}
		if ch.Pct(4) { // a directory called like a lockfile
			if p := a.abs + "/" + []string{"yarn.lock", "go.mod", "package-lock.json"}[ch.N(3)]; !w.fs.Exists(p) {
				w.fs.MkdirAll(p)
			}
		}
		if ch.Pct(w.k.junk) {
			n := 30 + ch.N(120)
			if ch.Pct(8) {
				n = 1100
			}
			for i := 0; i < n; i++ {
				w.fs.Put(fmt.Sprintf("%s/%c%03d.txt", a.abs, 'a'+rune(i%26), i), nil)
			}
		}
	}
	w.genBundle()
	direct := map[*Lock]bool{}
	for _, a := range w.args {
		for _, l := range a.locks {
			direct[l] = direct[l] || !a.dir
		}
	}
	for _, l := range w.locks {
		if l.dangle != "" && !direct[l] {
			w.fs.Remove(l.dangle)
			l.bad, l.pkgs = "dangling", nil
		}
	}
	// one format for all of them
	one := ""
	for i, a := range w.args {
		switch {
		case a.dir || len(a.locks) == 0:
			one = "-"
		case i == 0:
			one = a.locks[0].format
		case one != a.locks[0].format:
			one = "-"
		}
	}
	if one != "" && one != "-" && ch.Pct(25) {
		w.parseAsAll = one
		for _, a := range w.args {
			if a.prefix == one && ch.Pct(70) {
				a.prefix, a.text = "", a.path
				if strings.Contains(a.path, ":") {
					a.text = ":" + a.path
				}
			}
		}
	}
	// a lockfile may be given twice: as a file and through its directory; keep
	// exactly what the command line says
	if ch.Pct(w.k.missArg) {
		p := "missing/package-lock.json"
		if ch.Pct(30) {
			p = "nowhere"
		}
		w.args = append(w.args, &Arg{text: p, path: p, abs: "/work/" + p, miss: true})
	}
	if ch.Pct(w.k.emptyDir) {
		w.fs.MkdirAll("/work/empty")
		if ch.Pct(50) && w.parseAsAll == "" {
			w.fs.Put("/work/empty/readme.txt", []byte("nothing here"))
			w.fs.MkdirAll("/work/empty/yarn.lock")
		}
		w.roles["/work/empty"] = [2]string{"indir", "/work/empty"}
		w.args = append(w.args, &Arg{text: "empty", path: "empty", abs: "/work/empty", dir: true})
	}
	if len(w.args) > 1 {
		p := ch.perm(len(w.args))
		na := make([]*Arg, len(w.args))
		for i, j := range p {
			na[i] = w.args[j]
		}
		w.args = na
	}
	if ch.Pct(w.k.odd / 2) {
		w.args = nil
	}
}

// genBundle makes a directory whose files are all to be parsed in one way.
func (w *World) genBundle() {
	ch := w.ch
	if !ch.Pct(w.k.bundle) {
		return
	}
	f := formats[ch.N(len(formats))].name
	dir := "/work/bundle"
	a := &Arg{path: w.rel(dir), abs: dir, dir: true, prefix: f}
	inc := w.k.include
	w.k.include = 0
	names := []string{"0one.txt", "b.lock", "package.json", "zz"}
	if ch.Pct(40) {
		names = []string{".hidden", "my deps.txt", "x", "z.json"}
	}
	for i, k := 0, 1+ch.N(3); i < k; i++ {
		l := &Lock{idx: 200 + i, format: f, name: names[i]}
		l.path = dir + "/" + l.name
		w.addLock(l, ch.Range(w.k.pkgs[0], min(5, w.k.pkgs[1])))
		a.locks = append(a.locks, l)
	}
	w.k.include = inc
	a.text = f + ":" + a.path
	w.roles[dir] = [2]string{"indir", dir}
	w.bundle = dir
	w.args = append(w.args, a)
}

func (w *World) dirGiven(d string) bool {
	for _, a := range w.args {
		if a.dir && a.abs == d {
			return true
		}
	}
	return false
}

// fileGiven: a lockfile of this directory was already given by its own path.
func (w *World) fileGiven(d string) bool {
	for _, a := range w.args {
		if !a.dir && dirOf(a.abs) == d && parserNames[a.locks[0].name] {
			return true
		}
	}
	return false
}

func (w *World) locksIn(dir string) []*Lock {
	var names []string
	m := map[string]*Lock{}
	for _, l := range w.locks {
		if dirOf(l.path) == dir && parserNames[l.name] {
			names = append(names, l.name)
			m[l.name] = l
		}
	}
	sortStrings(names)
	var out []*Lock
	for _, n := range names {
		out = append(out, m[n])
	}
	return out
}

// cmdline renders the arguments of a run.
func (w *World) cmdline(offline bool) []string {
	var a []string
	if offline {
		a = append(a, "--offline")
	}
	if w.json {
		a = append(a, "--json")
	}
	if w.listPkgs {
		a = append(a, "--list-packages")
	}
	if w.info != "" {
		a = append(a, w.info)
	}
	if w.config != nil {
		a = append(a, "--config", w.configArg)
	}
	if w.noConfig {
		a = append(a, "--no-config")
	}
	if w.noCfgIgn {
		a = append(a, "--no-config-ignores")
	}
	if w.noCfgDBs {
		a = append(a, "--no-config-databases")
	}
	if w.update {
		a = append(a, "--update-config-ignores")
	}
	if w.useAPI != w.prefer {
		a = append(a, "--use-api"+map[bool]string{true: "=false"}[w.prefer])
	}
	if w.useDBs == w.prefer {
		a = append(a, "--use-dbs"+map[bool]string{false: "=false"}[w.prefer])
	}
	if w.batch != 1000 {
		a = append(a, "--batch-size", strconv.Itoa(w.batch))
	}
	for _, i := range w.ignores {
		a = append(a, "--ignore", i)
	}
	if w.parseAsAll != "" {
		a = append(a, "--parse-as", w.parseAsAll)
	}
	if len(w.csvRows) > 0 {
		return append(a, w.csvRows...)
	}
	for _, x := range w.args {
		a = append(a, x.text)
	}
	return a
}

// allIDsEver lists every advisory id of every archive version and database.
func (w *World) allIDsEver() []string {
	seen := map[string]bool{}
	for _, d := range w.dbs {
		for _, a := range d.allAdvs() {
			seen[a.ID] = true
		}
		if d.arch != nil {
			for _, v := range d.arch.versions {
				for _, a := range v.advs {
					seen[a.ID] = true
				}
			}
		}
	}
	var out []string
	for id := range seen {
		out = append(out, id)
	}
	sortStrings(out)
	return out
}

func baseName(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }
