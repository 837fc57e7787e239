package zzsim

import (
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// textRes is what the plain-text report says about one lockfile.
type textRes struct {
	packages int
	config   string
	dbs      []string
	affected []textPkg
	list     []string // --list-packages
	total    int      // stated number of findings, -1: none stated
	ignored  int
}

type textPkg struct {
	label string // name@version
	ids   []string
	desc  map[string]string
}

var (
	reHead    = regexp.MustCompile(`^(.+): found (\d+) packages?$`)
	reConf    = regexp.MustCompile(`^  Using config at (.*) \((?:\d+ ignores?|skipping any ignores)\)$`)
	reDB      = regexp.MustCompile(`^  Using db (.*?)(?: \((?:using batches of \d+|\d+ vulnerabilit(?:y|ies), including withdrawn.*)\))?$`)
	reAff     = regexp.MustCompile(`^  (.*) is affected by the following vulnerabilities:$`)
	reID      = regexp.MustCompile(`^    (\S+): (.*)$`)
	reTotal   = regexp.MustCompile(`^  (\d+) (?:known|new) vulnerabilit(?:y|ies) found in (.*?)(?: \((\d+) (?:was|were) ignored\))?$`)
	reNone    = regexp.MustCompile(`^  no (?:known|new) vulnerabilities found(?: \((\d+) (?:was|were) ignored\))?$`)
	reUpdated = regexp.MustCompile(`^Updated .* with \d+ vulnerabilit(?:y|ies)$`)
)

// parseText reads the plain-text report.
func parseText(out string, list bool) []outRes {
	var res []outRes
	var cur *textRes
	num := func(s string) int { n, _ := strconv.Atoi(s); return n }
	for _, ln := range strings.Split(out, "\n") {
		if m := reHead.FindStringSubmatch(ln); m != nil {
			cur = &textRes{packages: num(m[2]), total: -1}
			res = append(res, outRes{FilePath: m[1], text: cur})
			continue
		}
		if cur == nil || ln == "" || reUpdated.MatchString(ln) {
			continue
		}
		if list {
			cur.list = append(cur.list, ln)
			continue
		}
		if m := reConf.FindStringSubmatch(ln); m != nil {
			cur.config = m[1]
		} else if m := reDB.FindStringSubmatch(ln); m != nil {
			cur.dbs = append(cur.dbs, m[1])
		} else if m := reAff.FindStringSubmatch(ln); m != nil {
			cur.affected = append(cur.affected, textPkg{label: m[1], desc: map[string]string{}})
		} else if m := reID.FindStringSubmatch(ln); m != nil && len(cur.affected) > 0 {
			a := &cur.affected[len(cur.affected)-1]
			a.ids = append(a.ids, m[1])
			a.desc[m[1]] = m[2]
		} else if m := reTotal.FindStringSubmatch(ln); m != nil {
			cur.total, cur.ignored = num(m[1]), num(m[3])
		} else if m := reNone.FindStringSubmatch(ln); m != nil {
			cur.total, cur.ignored = 0, num(m[1])
		}
	}
	return res
}

// compareText is compareLock for the plain-text report.
func (c *procCheck) compareText(o *occ, ex map[Pkg][2][]exp, sel map[string]*altDB) []mismatch {
	var mm []mismatch
	bad := func(cat, f string, a ...any) {
		mm = append(mm, mismatch{cat, o.disp + ": " + fmt.Sprintf(f, a...)})
	}
	t := o.res.text
	if t.packages != len(o.l.pkgs) {
		bad("packages", "%d packages are said to be found, the file has %d", t.packages, len(o.l.pkgs))
	}
	if c.w.listPkgs {
		var want []string
		for _, p := range o.l.pkgs {
			e := p.Eco
			if e == "" {
				e = "<unknown>"
			}
			ln := "  " + e + ": " + p.Name
			if p.Version != "" {
				ln += "@" + p.Version
			}
			if p.Commit != "" {
				ln += " (" + p.Commit + ")"
			}
			want = append(want, ln)
		}
		sort.Strings(want)
		got := append([]string(nil), t.list...)
		sort.Strings(got)
		if !eqStr(want, got) {
			bad("packages", "listed packages %q, want %q", got, want)
		}
		return mm
	}
	// config and databases in use
	conf := ""
	if o.conf != nil {
		conf = filepath.Clean(c.w.configArg)
		if c.w.config == nil {
			conf = filepath.Join(filepath.Dir(o.disp), filepath.Base(o.conf.path))
		}
	}
	if t.config != conf && !(o.conf != nil && t.config == o.conf.path) {
		bad("config", "config in use is %q, want %q", t.config, conf)
	}
	var names []string
	for _, d := range c.w.dbsFor(o.l, o.conf) {
		if !sel[d.ident()].failed {
			names = append(names, d.Name)
		}
	}
	if !eqStr(names, t.dbs) {
		bad("vulns", "databases in use are %q, want %q", t.dbs, names)
	}
	// findings
	total, ignored := 0, 0
	var want, got []string
	descs := map[string]map[string][]exp{}
	for _, p := range o.l.pkgs {
		two := ex[p]
		total += len(two[0])
		ignored += len(two[1])
		if len(two[0]) > 0 {
			l := p.Name + "@" + p.Version
			want = append(want, l+" "+strings.Join(ids(two[0]), ","))
			if descs[l] == nil {
				descs[l] = map[string][]exp{}
			}
			for _, e := range two[0] {
				descs[l][e.ad.ID] = append(descs[l][e.ad.ID], e)
			}
		}
	}
	for _, a := range t.affected {
		x := append([]string(nil), a.ids...)
		sort.Strings(x)
		got = append(got, a.label+" "+strings.Join(x, ","))
		for id, d := range a.desc {
			if es := descs[a.label][id]; es != nil {
				ok := false
				for _, e := range es {
					s := e.ad.Summary
					if s == "" {
						s = firstWords(e.ad.Details)
					}
					det := firstWords(e.ad.Details)
					ok = ok || strings.HasPrefix(d, s) || (e.lost || e.soft) && (strings.HasPrefix(d, "(no details available)") || strings.HasPrefix(d, det))
				}
				if !ok {
					bad("details", "%s: %s is described as %q", a.label, id, d)
				}
			}
		}
	}
	sort.Strings(want)
	sort.Strings(got)
	if !eqStr(want, got) {
		bad("vulns", "affected packages %q, want %q", got, want)
	} else if t.total != total || t.ignored != ignored {
		bad("vulns", "%d findings and %d ignored are counted, want %d and %d", t.total, t.ignored, total, ignored)
	}
	return mm
}

// firstWords of details, which are shortened for the report.
func firstWords(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 30 {
		s = s[:30]
	}
	return s
}
