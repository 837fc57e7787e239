package zzsim

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"
)

var always = []string{"panic", "hang", "exit", "json"}

func cats(xs ...string) []string { return append(append([]string(nil), always...), xs...) }

var content = []string{"missing", "packages", "vulns", "details", "mention", "damaged", "config", "update", "wipe"}

var profiles []Profile

func init() {
	all := append(append([]string(nil), content...), "traffic", "fs")
	profiles = []Profile{
		{id: "C01", run: runC01, cats: cats("missing", "vulns", "details", "traffic", "race")},
		{id: "C02", run: runC02, cats: cats("missing", "vulns", "details", "race")},
		{id: "C03", run: runC03, cats: cats("missing", "vulns", "details", "mention")},
		{id: "C04", run: runC04, cats: cats("missing", "vulns", "details", "mention", "damaged")},
		{id: "C05", run: runC05, cats: cats("missing", "vulns", "details", "mention")},
		{id: "C06", run: runC06, cats: cats("missing", "vulns", "details", "mention", "damaged")},
		{id: "C07", run: runC07, cats: cats("missing", "vulns", "details", "mention", "traffic")},
		{id: "C08", run: runC08, cats: cats("missing", "vulns", "details", "mention", "damaged", "fs")},
		{id: "C09", run: runC09, cats: cats("update", "wipe", "mention")},
		{id: "C10", run: runC10, cats: cats("wipe", "update")},
		{id: "C11", run: runC11, cats: cats("missing", "packages", "mention")},
		{id: "C12", run: runC12, cats: cats("missing", "packages", "mention", "vulns", "details")},
		{id: "C13", run: runC13, cats: cats("missing", "vulns", "details", "mention", "damaged")},
		{id: "C14", run: runC14, cats: cats(content...)},
		{id: "C15", run: runC15, cats: cats(content...)},
		{id: "C16", run: runC16, cats: cats("missing", "vulns", "details")},
		{id: "C17", run: runC17, cats: []string{"differ"}},
		{id: "C18", run: runC18, cats: cats("config", "missing", "mention", "vulns")},
		{id: "C19", run: runC19, noModel: true, cats: []string{"panic", "hang", "exit", "crash"}},
		{id: "C20", run: runC20, heavy: true, cats: []string{"concurrency", "progress", "hang", "panic"}},
		{id: "C21", run: runC21, cats: []string{"traffic", "hang", "panic"}},
		{id: "C22", run: runC22, cats: cats("missing", "packages", "vulns", "details", "config", "solo")},
		{id: "C23", run: runC23, cats: []string{"fs"}},
		{id: "ALL", run: runC15, cats: cats(all...)},
	}
}

// plan makes a fault plan over some roles (nil: this phase is left alone).
func (r *Run) plan(roles ...string) *Faults {
	f := r.st.F
	fl := &Faults{rate: map[string]int{}}
	fl.budget = 1 + f.W(50, 25, 15, 10)
	fl.persist = f.N(2) == 1
	rate := 97
	switch f.N(4) {
	case 0:
		fl.skip = f.N(16)
	case 1:
		rate = 40
	case 2:
		rate = 15
	case 3:
		rate = 5
		fl.budget = 9
	}
	only := -1
	if len(roles) > 1 && f.N(2) == 1 {
		only = f.N(len(roles))
	}
	for i, ro := range roles {
		if only < 0 || only == i {
			fl.rate[ro] = rate
		}
	}
	fl.benign = []int{0, 0, 0, 3, 15}[f.N(5)]
	fl.same = f.Pct(20)
	for ro := range fl.rate {
		if strings.HasSuffix(ro, "/w") || ro == "cfgtmp" || ro == "tmp" {
			if only := f.W(70, 15, 5, 5, 3, 2); only > 0 && fl.only == "" {
				fl.only = []string{"rename", "close", "fsync", "fchmod", "unlink"}[only-1]
				fl.skip = min(fl.skip, 2)
			}
			break
		}
	}
	return fl
}

// benign disturbs transfers without failing anything.
func (r *Run) benign() *Faults {
	return &Faults{rate: map[string]int{}, benign: []int{0, 5, 20, 50}[r.st.F.N(4)]}
}

func apiKnobs() Knobs {
	k := defKnobs()
	k.useAPI, k.useDBs, k.dbTypes, k.json = 85, 10, []string{"api", "api", "api", "dir", "zip"}, 88
	k.pkgs, k.advs, k.overlap, k.batchMax = [2]int{0, 10}, [2]int{0, 10}, 12, 5
	k.commits, k.gConf = 25, 10
	return k
}

func runC01(r *Run) {
	k := apiKnobs()
	k.dbTypes = []string{"api"}
	k.shared = 20
	k.bigAPI = 5
	k.swamp, k.swampN = 1, 1001
	r.world(k)
	for n := 1 + r.st.W.W(80, 20); n > 0; n-- {
		r.exec(r.benign(), spec{})
	}
	r.tag("api")
}

func runC02(r *Run) {
	k := apiKnobs()
	k.shared = 15
	k.bigAPI = 1
	if r.st.W.Pct(8) {
		k.advs = [2]int{15, 40}
	}
	k.swamp, k.swampN = 8, 203
	r.world(k)
	r.exec(r.plan("detail"), spec{})
	if r.st.W.Pct(30) {
		r.exec(r.plan("detail", "detail"), spec{})
	}
}

func runC03(r *Run) {
	k := apiKnobs()
	k.useDBs = 40
	k.extraDB = [2]int{0, 3}
	k.locks = [2]int{1, 4}
	k.shared = 0
	r.world(k)
	r.exec(r.plan("batch"), spec{})
	if r.st.F.Pct(30) {
		r.exec(r.plan("batch", "detail"), spec{})
	}
}

func zipKnobs() Knobs {
	k := defKnobs()
	k.useAPI, k.useDBs, k.dbTypes = 3, 55, []string{"zip", "zip", "zip", "dir"}
	k.locks, k.pkgs, k.advs = [2]int{1, 2}, [2]int{1, 4}, [2]int{0, 6}
	k.conf, k.extraDB, k.gConf = 70, [2]int{0, 2}, 20
	k.sameURL = 20
	k.flagsMix = 4
	k.noConf = 2
	return k
}

func (r *Run) publishSome() {
	for _, a := range r.archives() {
		if r.st.W.Pct(60) {
			r.publish(a)
		}
	}
}

func (r *Run) anyArchive() *Archive {
	as := r.archives()
	if len(as) == 0 {
		return nil
	}
	return as[r.st.F.N(len(as))]
}

func runC04(r *Run) {
	k := zipKnobs()
	k.damaged = 3
	r.world(k)
	r.exec(nil, spec{})
	for n := 1 + r.st.W.N(6); n > 0; n-- {
		switch r.st.W.W(25, 20, 15, 10, 10, 10, 5) {
		case 0:
			r.exec(nil, spec{})
		case 1:
			if r.st.W.Pct(25) { // while the run is under way
				at := r.s.step + 5 + r.st.W.N(60)
				r.s.events = []event{{at, func() { r.publishSome() }}}
			} else {
				r.publishSome()
			}
			r.exec(nil, spec{})
			r.s.events = nil
		case 2:
			if r.st.W.Pct(25) {
				at := r.s.step + 5 + r.st.W.N(60)
				r.s.events = []event{{at, func() { r.publishSome() }}}
			}
			r.exec(r.plan("zip", "cache", "tmp"), spec{})
			r.s.events = nil
		case 3:
			r.publishSome()
			r.exec(r.plan("cache", "tmp"), spec{})
		case 4:
			r.exec(nil, spec{offline: true})
		case 5:
			r.publishSome()
			r.exec(nil, spec{kill: r.killPlan("cachew", "any", "http")})
			r.exec(nil, spec{})
		case 6:
			r.pass(86400 * (1 + r.st.W.N(40)))
			r.tag("time")
		}
	}
	r.exec(nil, spec{})
}

func runC05(r *Run) {
	r.world(zipKnobs())
	f := r.st.F
	if !f.Pct(10) {
		r.exec(nil, spec{})
	}
	for n := 1 + f.N(2); n > 0; n-- {
		if f.Pct(60) {
			r.publishSome()
		}
		switch f.N(4) {
		case 0:
			r.exec(r.plan("zip"), spec{})
		case 1:
			r.exec(r.plan("cache/w", "tmp"), spec{})
		case 2:
			r.exec(r.plan("zip", "cache", "tmp"), spec{})
		case 3:
			fl := r.plan("cache/w", "tmp")
			fl.persist = true
			r.exec(fl, spec{})
		}
		r.exec(nil, spec{offline: true})
	}
	if f.Pct(50) {
		r.publishSome()
	}
	r.exec(nil, spec{})
	r.exec(nil, spec{offline: true})
}

func runC06(r *Run) {
	k := zipKnobs()
	r.world(k)
	f := r.st.F
	r.exec(nil, spec{})
	for n := 1 + f.N(3); n > 0; n-- {
		switch f.N(3) {
		case 0:
			if a := r.anyArchive(); a != nil {
				r.damage(a)
			}
		case 1:
			if f.N(3) > 0 {
				r.publishSome()
			}
			var fl *Faults
			if f.N(3) == 2 { // and trouble before that
				fl = r.plan("cache/w", "tmp/w")
			}
			r.exec(fl, spec{kill: r.killPlan("cachew", "cachew", "any", "http")})
		case 2:
			// killed in the very first run
			if a := r.anyArchive(); a != nil && f.N(2) == 1 {
				r.s.fs.Remove(cachePathOf(a.url))
				r.cache[a.url] = cacheSet{nil: true}
				r.exec(nil, spec{kill: r.killPlan("cachew")})
			} else if a != nil {
				r.damage(a)
			}
		}
		switch f.N(4) {
		case 3: // the cache cannot be written, or a bad one not be removed
			r.exec(r.plan("cache/w", "tmp/w"), spec{})
		case 0:
			r.exec(nil, spec{offline: true})
			r.exec(nil, spec{})
		case 1:
			r.exec(nil, spec{})
			r.exec(nil, spec{offline: true})
		case 2:
			r.exec(nil, spec{offline: true})
		}
	}
}

func runC07(r *Run) {
	k := zipKnobs()
	k.useAPI, k.dbTypes, k.extraDB = 20, []string{"zip", "zip", "dir", "api"}, [2]int{0, 3}
	k.locks = [2]int{1, 3}
	k.csvRow, k.list, k.update, k.badLock, k.missArg = 4, 3, 8, 4, 4
	r.world(k)
	f := r.st.F
	for n := f.N(3); n > 0; n-- {
		switch f.N(4) {
		case 0:
			r.exec(nil, spec{})
		case 1:
			r.exec(r.plan("zip"), spec{})
		case 2:
			r.publishSome()
			r.exec(nil, spec{})
		case 3:
			r.exec(nil, spec{})
			r.publishSome()
		}
	}
	r.exec(nil, spec{offline: true})
	if f.Pct(40) {
		r.exec(r.plan("cache", "lock", "config", "dbfile"), spec{offline: true})
	}
	r.tag("offline")
}

func runC08(r *Run) {
	k := zipKnobs()
	k.dbTypes = []string{"zip"}
	k.pkgs = [2]int{1, 3}
	k.useDBs = 75
	r.world(k)
	f := r.st.F
	if !f.Pct(35) {
		r.exec(nil, spec{})
	}
	for rounds := 1 + f.N(2); rounds > 0; rounds-- {
		if f.Pct(60) {
			r.publishSome()
		}
		n := 2 + f.W(70, 30)
		var sp []spec
		for i := 0; i < n; i++ {
			x := spec{offline: f.Pct(25)}
			if f.Pct(20) {
				x.kill = r.killPlan("cachew", "any")
			}
			sp = append(sp, x)
		}
		if f.Pct(30) {
			at := r.s.step + 5 + f.N(60)
			r.s.events = []event{{at, func() { r.publishSome() }}}
		}
		var fl *Faults
		if f.Pct(25) {
			fl = r.benign()
		}
		r.exec(fl, sp...)
		r.s.events = nil
		r.exec(nil, spec{offline: true})
		r.tag("concurrent")
	}
	r.exec(nil, spec{})
}

func updKnobs() Knobs {
	k := defKnobs()
	k.update, k.conf, k.gConf, k.noConf, k.ignore = 100, 85, 30, 1, 40
	k.locks, k.pkgs, k.advs, k.extraDB = [2]int{1, 3}, [2]int{0, 4}, [2]int{0, 6}, [2]int{0, 2}
	k.symlink = 15
	k.flagsMix = 6
	return k
}

func runC09(r *Run) {
	k := updKnobs()
	k.many = 3
	r.world(k)
	f := r.st.F
	for n := 1 + f.N(3); n > 0; n-- {
		switch f.N(4) {
		case 0:
			r.exec(r.plan("config/w", "cfgtmp"), spec{})
		case 1:
			r.exec(nil, spec{kill: r.killPlan("cfgw", "cfgw", "any")})
		case 2:
			old := map[string]string{}
			for _, c := range r.w.confSorted() {
				b, _ := r.s.fs.Get(c.path)
				old[c.path] = string(b)
			}
			r.s.fs.Settle()
			var kp *KillPlan
			if f.N(3) > 0 {
				kp = r.killPlan("cfgw", "any")
			}
			ps := r.exec(nil, spec{kill: kp})
			r.s.fs.PowerLoss(f)
			r.s.count("power-loss")
			r.s.note0("power loss")
			for u, c := range r.cache {
				c[nil] = true
				for _, v := range r.s.net.zips[u].versions {
					c[v] = true
				}
			}
			r.checkTorn(ps[0], old)
			r.syncConfs()
			r.tag("power")
		case 3:
			r.publishSome()
			r.exec(r.plan("config/w", "cfgtmp", "config"), spec{})
		}
	}
	r.exec(nil, spec{})
}

func runC10(r *Run) {
	k := updKnobs()
	k.badLock, k.missArg, k.invDB, k.useAPI = 8, 5, 4, 40
	k.symlink = 5
	r.world(k)
	f := r.st.F
	r.exec(r.plan("zip", "batch", "lock", "include", "indir", "dbdir", "cache"), spec{})
	if f.Pct(30) {
		r.exec(nil, spec{offline: f.Pct(50)})
	}
	if f.Pct(30) {
		r.exec(r.plan("zip", "batch"), spec{})
	}
}

func runC11(r *Run) {
	k := defKnobs()
	k.locks, k.pkgs, k.conf, k.gConf, k.useAPI, k.useDBs = [2]int{1, 3}, [2]int{0, 12}, 5, 0, 0, 5
	k.big, k.include, k.list, k.json, k.dirs = 30, 70, 50, 100, 20
	k.badLock, k.longLine = 5, 8
	r.world(k)
	if r.st.F.Pct(25) {
		r.exec(r.benign(), spec{})
		return
	}
	r.exec(r.plan("lock", "include"), spec{})
	if r.st.F.Pct(50) {
		r.exec(r.plan("lock", "include"), spec{})
	}
}

func runC12(r *Run) {
	k := defKnobs()
	k.locks, k.dirs, k.missArg, k.emptyDir, k.badLock = [2]int{1, 5}, 65, 15, 10, 15
	k.useAPI, k.conf, k.json, k.useDBs = 10, 25, 100, 30
	k.pkgs = [2]int{0, 4}
	k.csvRow = 2
	k.many = 6
	k.dup = true
	k.lockLink, k.bundle, k.junk = 20, 12, 12
	k.useAPI = 0
	k.dbTypes = []string{"zip", "dir"}
	r.world(k)
	if r.st.F.Pct(20) {
		r.exec(r.benign(), spec{})
		return
	}
	r.exec(r.plan("lock", "indir", "include"), spec{})
}

func runC13(r *Run) {
	k := defKnobs()
	k.useAPI, k.useDBs, k.dbTypes, k.conf, k.gConf, k.extraDB = 5, 40, []string{"dir", "dir", "zip"}, 60, 60, [2]int{1, 3}
	k.damaged, k.advs, k.locks, k.overlap, k.alias = 20, [2]int{0, 9}, [2]int{1, 2}, 10, 8
	k.noConf, k.fat, k.swamp, k.swampN = 0, 5, 3, 330
	r.world(k)
	if r.st.F.Pct(30) {
		r.exec(r.benign(), spec{})
		return
	}
	r.exec(r.plan("dbfile", "dbdir"), spec{})
}

func allKnobs() Knobs {
	k := defKnobs()
	k.badConf, k.badLock, k.missArg, k.emptyDir, k.invDB, k.damaged = 6, 6, 6, 4, 4, 6
	k.update, k.csvRow, k.list, k.useAPI = 12, 6, 4, 35
	k.pkgs = [2]int{0, 5}
	return k
}

var allRoles = []string{"lock", "include", "indir", "config", "dbfile", "dbdir", "cache", "tmp", "zip", "batch", "detail"}

func runC14(r *Run) {
	k := allKnobs()
	k.json = 100
	k.info = 2
	if r.st.F.Pct(15) {
		runC14Twin(r, k)
		return
	}
	if r.st.F.Pct(45) {
		r.world(k)
		if r.st.F.Pct(30) {
			r.exec(nil, spec{})
		}
		fl := r.plan("stdout", "stderr")
		if r.st.F.Pct(60) {
			fl.budget = 1000
		}
		r.exec(fl, spec{})
		r.exec(r.benign(), spec{})
		return
	}
	r.world(k)
	r.exec(r.plan(allRoles...), spec{offline: r.st.F.Pct(10)})
}

// runC14Twin compares a run whose output streams fail with one where they do not.
func runC14Twin(r *Run, k Knobs) {
	k.tmpDir = 0
	one := func(faulty bool) *Proc {
		r.world(k)
		r.s.net.fixedDate = true
		var fl *Faults
		if faulty {
			fl = r.plan("stdout", "stderr")
			if r.st.F.Pct(60) {
				fl.budget = 1000
			}
		}
		return r.exec(fl, spec{noJudge: true})[0]
	}
	a := one(true)
	st := r.st
	r.finish()
	r.st = &Streams{NewReplay(st.W.out), st.S, st.F}
	r.begin()
	b := one(false)
	r.st = st
	r.tag("pair")
	if a.panicked != "" || a.hung || b.panicked != "" || b.hung {
		return // decided elsewhere
	}
	hit := map[string]bool{}
	for _, f := range a.faults {
		hit[f.Role] = true
	}
	lines := func(b []byte) string {
		l := strings.Split(string(b), "\n")
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	switch {
	case a.code != b.code:
		r.s.fail("json", "%s: exit status %d when the output could not be written, %d when it could", a.describe(), a.code, b.code)
	case !hit["stdout"] && string(a.stdout) != string(b.stdout):
		r.s.fail("json", "%s: stdout differs when stderr could not be written: %s", a.describe(), diffAt(string(a.stdout), string(b.stdout)))
	case !hit["stderr"] && lines(a.stderr) != lines(b.stderr):
		r.s.fail("json", "%s: stderr differs when stdout could not be written: %s", a.describe(), diffAt(lines(a.stderr), lines(b.stderr)))
	}
}

func runC15(r *Run) {
	k := allKnobs()
	k.json = 75
	k.info = 2
	k.locks = [2]int{0, 3}
	r.world(k)
	f := r.st.F
	if f.Pct(15) {
		r.exec(nil, spec{})
	}
	if f.Pct(20) {
		r.exec(r.benign(), spec{offline: f.Pct(20)})
	} else {
		roles := allRoles
		if f.Pct(20) {
			roles = append([]string{"stdout", "stderr", "stderr", "stderr"}, roles...)
		}
		r.exec(r.plan(roles...), spec{offline: f.Pct(12)})
	}
}

func runC16(r *Run) {
	k := defKnobs()
	k.overlap, k.alias, k.withdraw, k.ignore, k.conf, k.gConf = 45, 40, 10, 35, 80, 35
	k.extraDB, k.useAPI, k.useDBs, k.advs = [2]int{1, 4}, 45, 60, [2]int{1, 8}
	k.locks, k.pkgs, k.flagsMix, k.noConf = [2]int{1, 2}, [2]int{1, 3}, 25, 0
	k.swamp = 8
	if r.st.W.Pct(3) {
		k.pkgs = [2]int{20, 60}
	}
	r.world(k)
	f := r.st.F
	if f.Pct(35) {
		r.exec(r.benign(), spec{})
		return
	}
	r.exec(r.plan("zip", "batch", "dbdir", "dbfile", "detail"), spec{})
}

// tomlErr is what the TOML library says about one of several mistyped values.
var tomlErr = regexp.MustCompile(`toml: line \d+ \(last key "[^\n]*"\): incompatible types: [^\n]*`)

func runC17(r *Run) {
	k := allKnobs()
	k.json = 60
	k.locks, k.pkgs = [2]int{1, 4}, [2]int{0, 8}
	k.shared = 25
	k.update = 25
	k.overlap, k.alias, k.commits = 35, 30, 25
	k.tmpDir = 0 // the complaint names a random file
	type res struct {
		out, err string
		code     int
		fs       map[string]string
	}
	one := func() []res {
		r.world(k)
		r.s.net.fixedDate = true
		if w := r.st.W; w.Pct(20) { // whatever the files hold: the same every time
			if ins := r.w.inputs(); len(ins) > 0 {
				for n := 1 + w.N(2); n > 0; n-- {
					p := pick(w, ins)
					if l := r.w.locks; len(l) > 0 && w.Pct(50) {
						if q := l[w.N(len(l))].path; q != "-" {
							p = q
						}
					}
					b, _ := r.s.fs.Get(p)
					if w.Pct(50) {
						if s, ok := r.w.twins(w, string(b), corruptKind(r.w, p)); ok {
							r.s.fs.Put(p, []byte(s))
						}
						continue
					}
					r.s.fs.Put(p, r.w.mangle(w, b, corruptKind(r.w, p)))
				}
				r.s.count("bytes:input")
			}
		}
		var out []res
		n := 1 + r.st.W.W(70, 30)
		off := r.st.W.Pct(10)
		for i := 0; i < n; i++ {
			p := r.exec(r.benign(), spec{noJudge: true, offline: off && i == n-1})[0]
			el := strings.Split(string(p.stderr), "\n")
			sort.Strings(el)
			out = append(out, res{string(p.stdout), strings.Join(el, "\n"), p.code, r.s.fs.Snapshot()})
			if p.panicked != "" || p.hung {
				break // decided elsewhere
			}
		}
		return out
	}
	a := one()
	desc := r.s.procs[0].describe()
	st := r.st
	r.finish()
	w := st.W.out
	r.st = &Streams{NewReplay(w), st.S, st.F}
	r.begin()
	b := one()
	r.st = st
	if len(a) != len(b) {
		r.s.fail("differ", "%s: %d and %d runs completed", desc, len(a), len(b))
		return
	}
	for i := range a {
		x, y := a[i], b[i]
		switch {
		case x.out != y.out:
			r.s.fail("differ", "%s: stdout differs between two runs over the same input: %s", desc, diffAt(x.out, y.out))
		case x.code != y.code:
			r.s.fail("differ", "%s: exit status %d and %d", desc, x.code, y.code)
		case x.err != y.err && tomlErr.ReplaceAllString(x.err, "toml:") == tomlErr.ReplaceAllString(y.err, "toml:"):
			r.s.count("known-finding:toml-first-mismatch") // see KNOWN_FINDINGS.txt
		case x.err != y.err:
			r.s.fail("differ", "%s: stderr differs: %s", desc, diffAt(x.err, y.err))
		default:
			for _, p := range keysOf(x.fs, y.fs) {
				if x.fs[p] != y.fs[p] {
					r.s.fail("differ", "%s: file %s differs: %s", desc, p, diffAt(x.fs[p], y.fs[p]))
					break
				}
			}
		}
	}
	r.tag("pair")
}

func keysOf(ms ...map[string]string) []string {
	seen := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			seen[k] = true
		}
	}
	return sortedKeys(seen)
}

func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	from := max(0, i-60)
	return fmt.Sprintf("at byte %d: %q / %q", i, clip(a[from:], 200), clip(b[from:], 200))
}

func runC18(r *Run) {
	k := defKnobs()
	k.badConf, k.conf, k.gConf, k.locks, k.ignore = 25, 75, 20, [2]int{1, 4}, 50
	k.pkgs, k.useAPI = [2]int{1, 4}, 10
	k.csvRow = 5
	k.symlink = 10
	r.world(k)
	if r.st.F.Pct(30) {
		r.exec(nil, spec{})
		return
	}
	r.exec(r.plan("config"), spec{})
}

func runC20(r *Run) {
	k := apiKnobs()
	k.useAPI, k.useDBs, k.conf, k.gConf, k.extraDB = 100, 0, 0, 0, [2]int{0, 0}
	k.locks = [2]int{1, 1}
	k.bigAPI, k.huge = 100, 5
	k.batchMax = 3
	k.advs = [2]int{0, 300}
	if r.st.W.Pct(2) {
		k.advs = [2]int{1250, 1450}
	}
	switch r.st.W.W(65, 20, 15) {
	case 1: // several APIs
		k.gConf, k.extraDB, k.dbTypes = 100, [2]int{1, 1}, []string{"api"}
	case 2:
		k.locks = [2]int{2, 2}
	}
	k.withdraw, k.alias, k.overlap = 2, 5, 0
	k.json = 100
	k.csvRow, k.list = 0, 0
	r.s.maxStep = 400000
	r.world(k)
	r.exec(nil, spec{})
	r.tag("many-requests")
}

func runC21(r *Run) {
	k := apiKnobs()
	k.bigAPI = 4
	k.swamp, k.swampN = 2, 405
	k.shared = 30
	k.badLock = 3
	k.csvRow = 5
	r.world(k)
	f := r.st.F
	switch f.N(3) {
	case 0:
		r.exec(r.benign(), spec{})
	case 1:
		r.exec(r.plan("detail"), spec{})
	case 2:
		r.exec(r.plan("batch", "detail"), spec{})
	}
	r.tag("api")
}

func runC22(r *Run) {
	k := defKnobs()
	k.locks, k.pkgs, k.conf, k.noConf, k.gConf, k.shared = [2]int{2, 4}, [2]int{0, 4}, 60, 20, 20, 35
	k.extraDB, k.useAPI, k.overlap, k.alias, k.ignore = [2]int{0, 3}, 20, 40, 25, 35
	k.json, k.flagsMix, k.badLock, k.badConf = 100, 15, 5, 3
	k.invDB, k.gConf, k.useDBs = 12, 30, 65
	k.many = 6
	r.world(k)
	w, f := r.w, r.st.F
	ps := r.exec(nil, spec{})
	multi := map[string][]string{}
	for _, x := range rawResults(ps[0].stdout) {
		multi[x[0]] = append(multi[x[0]], x[1])
	}
	if f.Pct(50) {
		r.exec(r.plan("lock", "config", "include"), spec{})
	}
	// each lockfile alone
	args := w.args
	for _, o := range w.occs() {
		if len(multi[o.disp]) == 0 || o.l.path == "-" {
			continue
		}
		x := &Arg{path: o.disp, abs: o.l.path, locks: []*Lock{o.l}, prefix: o.arg.prefix, text: o.disp}
		if x.prefix != "" {
			x.text = x.prefix + ":" + x.path
		} else if strings.Contains(x.path, ":") {
			x.text = ":" + x.path
		}
		w.args = []*Arg{x}
		p := r.exec(nil, spec{})[0]
		got := rawResults(p.stdout)
		if len(got) != 1 {
			r.s.fail("solo", "%s alone gives %d results", o.disp, len(got))
			continue
		}
		ok := false
		for _, m := range multi[o.disp] {
			ok = ok || m == got[0][1]
		}
		if !ok {
			r.s.fail("solo", "%s: %s alone gives another result than together with the others: %s", ps[0].describe(), o.disp, diffAt(multi[o.disp][0], got[0][1]))
		}
	}
	w.args = args
	r.tag("solo")
}

// rawResults splits the JSON output into (path, result) pairs.
func rawResults(out []byte) [][2]string {
	var d struct {
		Results []json.RawMessage `json:"results"`
	}
	if json.NewDecoder(bytes.NewReader(out)).Decode(&d) != nil {
		return nil
	}
	var rs [][2]string
	for _, x := range d.Results {
		var h struct {
			FilePath string `json:"filePath"`
		}
		json.Unmarshal(x, &h)
		rs = append(rs, [2]string{h.FilePath, string(x)})
	}
	return rs
}

func runC23(r *Run) {
	k := allKnobs()
	k.hostile, k.update, k.symlink = 25, 35, 10
	k.tmpDir = 15
	r.world(k)
	f := r.st.F
	for n := 1 + f.W(45, 45, 10); n > 0; n-- {
		sp := spec{offline: f.Pct(10)}
		if f.Pct(25) {
			sp.kill = r.killPlan("any", "cachew", "cfgw")
		}
		var fl *Faults
		if !f.Pct(25) {
			fl = r.plan(append([]string{"cfgtmp", "stdout"}, allRoles...)...)
		}
		r.exec(fl, sp)
		if f.Pct(30) {
			r.publishSome()
		}
		if f.Pct(20) {
			if a := r.anyArchive(); a != nil {
				r.damage(a)
			}
		}
	}
	r.tag("files")
}
