package zzsim

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

func sortStrings(x []string) { sort.Strings(x) }

// parserNames are the file names the detector recognises in a directory.
var parserNames = map[string]bool{}

type format struct {
	name string // parse-as name
	eco  string
	mk   func(w *World, l *Lock, n int) string
	alt  bool // sometimes stored under a name that is not recognised
}

var formats []format
var formatNames []string

func fmtByName(n string) format {
	for _, f := range formats {
		if f.name == n {
			return f
		}
	}
	panic("format " + n)
}

func fileNameOf(f string) string {
	if f == "csv-file" {
		return "pkgs.csv"
	}
	return f
}

func parseAsOf(f string) string { return f }

func init() {
	formats = []format{
		{name: "bun.lock", eco: "npm", mk: mkBun},
		{name: "Cargo.lock", eco: "crates.io", mk: mkToml("version = 3\n")},
		{name: "composer.lock", eco: "Packagist", mk: mkComposer},
		{name: "Gemfile.lock", eco: "RubyGems", mk: mkGem},
		{name: "go.mod", eco: "Go", mk: mkGo},
		{name: "mix.lock", eco: "Hex", mk: mkMix},
		{name: "package-lock.json", eco: "npm", mk: mkNpm},
		{name: "packages.lock.json", eco: "NuGet", mk: mkNuget},
		{name: "pdm.lock", eco: "PyPI", mk: mkPdm},
		{name: "pnpm-lock.yaml", eco: "npm", mk: mkPnpm},
		{name: "poetry.lock", eco: "PyPI", mk: mkPoetry},
		{name: "pylock.toml", eco: "PyPI", mk: mkPylock},
		{name: "Pipfile.lock", eco: "PyPI", mk: mkPipenv},
		{name: "pom.xml", eco: "Maven", mk: mkPom},
		{name: "pubspec.lock", eco: "Pub", mk: mkPubspec},
		{name: "renv.lock", eco: "CRAN", mk: mkRenv},
		{name: "requirements.txt", eco: "PyPI", mk: mkReq},
		{name: "yarn.lock", eco: "npm", mk: mkYarn},
		{name: "uv.lock", eco: "PyPI", mk: mkUv},
		{name: "gradle.lockfile", eco: "Maven", mk: mkGradle},
		{name: "buildscript-gradle.lockfile", eco: "Maven", mk: mkGradle},
		{name: "csv-file", eco: "", mk: mkCSV},
	}
	for _, f := range formats {
		formatNames = append(formatNames, f.name)
		if f.name != "csv-file" {
			parserNames[f.name] = true
		}
	}
}

const hexDigits = "0123456789abcdef"

func (w *World) commit() string {
	b := make([]byte, 40)
	w.names++
	h := hashStr(fmt.Sprint("commit", w.names))
	for i := range b {
		b[i] = hexDigits[h&15]
		h = h>>4 | h<<60
		if i%13 == 12 {
			h = mix64(h)
		}
	}
	return string(b)
}

// pkgName makes a name that is unique to the lockfile (so that requests and
// findings can be attributed), unless the world shares packages.
func (w *World) pkgName(l *Lock, eco string, i int) string {
	ch := w.ch
	k := strconv.Itoa(l.idx)
	if ch.Pct(w.k.shared) {
		k = "s"
		i = i % 3
	}
	n := strconv.Itoa(i)
	if l.alike == 0 {
		l.alike = 1 + w.ch.N(8)
	}
	if l.alike == 1 && eco != "Packagist" && eco != "Maven" && eco != "Go" {
		// called the same in every ecosystem
		return "same" + k + "p" + n
	}
	switch eco {
	case "npm":
		if ch.Pct(25) {
			return "@sc" + k + "/p" + n
		}
		return "n" + k + "-p" + n
	case "Packagist":
		return "v" + k + "/p" + n
	case "Go":
		return "example.org/m" + k + "/p" + n
	case "Maven":
		return "g.r" + k + ":a" + n
	case "Hex", "Pub":
		return "h" + k + "_p" + n
	case "CRAN":
		return "r" + k + "p" + n
	case "NuGet":
		return "N" + k + ".P" + n
	case "crates.io", "RubyGems":
		return "c" + k + "-p" + n
	}
	return "y" + k + "-p" + n
}

func (w *World) mkPkgs(l *Lock, eco string, n int) []Pkg {
	var out []Pkg
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		p := Pkg{Name: w.pkgName(l, eco, i), Version: w.version(), Eco: eco, CompareAs: eco}
		if seen[p.Name] {
			continue
		}
		seen[p.Name] = true
		if l.format != "requirements.txt" {
			p.Name = w.spell(eco, p.Name)
		}
		out = append(out, p)
	}
	return out
}

// mkMulti is mkPkgs for formats that can hold several versions of a package.
func (w *World) mkMulti(l *Lock, eco string, n int) []Pkg {
	ps := w.mkPkgs(l, eco, n)
	if len(ps) == 0 || !w.ch.Pct(25) {
		return ps
	}
	for k := 1 + w.ch.N(2); k > 0; k-- {
		p := ps[w.ch.N(len(ps))]
		p.Version = w.version()
		dup := false
		for _, q := range ps {
			dup = dup || q.Name == p.Name && q.Version == p.Version
		}
		if !dup {
			ps = append(ps, p)
		}
	}
	return ps
}

// genLock writes one lockfile (and what it includes).
func (w *World) genLock(idx int, dir, fname string, n int) {
	l := &Lock{idx: idx, format: fname, name: fileNameOf(fname)}
	l.path = dir + "/" + l.name
	w.addLock(l, n)
}

func (w *World) addLock(l *Lock, n int) {
	ch, fname, idx := w.ch, l.format, l.idx
	f := fmtByName(fname)
	content := f.mk(w, l, n)
	if ch.Pct(w.k.big) {
		content = pad(ch, fname, content)
	}
	ends := func(s string) string {
		switch ch.W(80, 12, 8) {
		case 1:
			return strings.TrimSuffix(s, "\n")
		case 2:
			return strings.ReplaceAll(s, "\n", "\r\n")
		}
		if last := s[strings.LastIndexByte(strings.TrimSuffix(s, "\n"), '\n')+1:]; fname == "requirements.txt" && len(last) > 1 && last[0] != '-' && ch.Pct(5) {
			return strings.TrimSuffix(s, "\n") + " \\" // continued nowhere
		}
		return s
	}
	content = ends(content)
	for _, p := range l.includes {
		if b, ok := w.fs.Get(p); ok {
			w.fs.Put(p, []byte(ends(string(b))))
		}
	}
	if ch.Pct(w.k.longLine) {
		if n := len(l.includes); n > 0 && ch.Pct(40) {
			p := l.includes[ch.N(n)]
			if b, ok := w.fs.Get(p); ok {
				w.fs.Put(p, []byte(longLine(ch, fname, string(b))))
				l.long = true
			}
		} else if long := longLine(ch, fname, content); long != "" {
			content, l.long = long, true
		}
	}
	if ch.Pct(w.k.badLock) {
		if bad := broken(ch, fname, content); bad != "" {
			content = bad
			l.bad = "syntax"
			l.pkgs = nil
		}
	}
	if ch.Pct(w.k.lockLink) {
		real := fmt.Sprintf("/home/store/f%d", idx)
		w.fs.Put(real, []byte(content))
		w.roles[real] = [2]string{"lock", l.path}
		if ch.Pct(15) {
			l.dangle = real
		}
		w.fs.Symlink(real, l.path)
	} else {
		w.fs.Put(l.path, []byte(content))
	}
	w.roles[l.path] = [2]string{"lock", l.path}
	w.locks = append(w.locks, l)
}

// pad adds harmless content so that the file spans several reads and buffers.
func pad(ch *Choices, f, c string) string {
	n := 20 + ch.N(900)
	if ch.Pct(2) {
		n = 16000
	}
	var b strings.Builder
	if ch.Pct(15) { // as long as lines may get
		switch f {
		case "requirements.txt", "yarn.lock", "mix.lock", "gradle.lockfile", "buildscript-gradle.lockfile", "go.mod":
			x := "# "
			if f == "go.mod" {
				x = "// "
			}
			return x + strings.Repeat("-", 500+ch.N(64900)) + "\n" + c
		}
	}
	switch f {
	case "requirements.txt", "yarn.lock", "gradle.lockfile", "buildscript-gradle.lockfile", "Cargo.lock", "pdm.lock", "poetry.lock", "pylock.toml", "uv.lock", "pnpm-lock.yaml", "pubspec.lock":
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "# filler line number %d with some text to make it long enough to matter\n", i)
		}
		if ch.Pct(50) {
			return b.String() + c
		}
		// in front of the last line as well
		return c + b.String()
	case "mix.lock":
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "# filler line number %d with some text to make it long enough to matter\n", i)
		}
		return b.String() + c
	case "csv-file":
		lines := strings.SplitAfter(c, "\n")
		k := ch.N(len(lines))
		return strings.Join(lines[:k], "") + strings.Repeat("\n", n*8) + strings.Join(lines[k:], "")
	case "go.mod":
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "// filler line number %d with some text to make it long enough to matter\n", i)
		}
		if ch.Pct(50) {
			return b.String() + c
		}
		return c + b.String()
	case "pom.xml":
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "<!-- filler line number %d with some text to make it long -->\n", i)
		}
		return strings.Replace(c, "<modelVersion>", b.String()+"<modelVersion>", 1)
	case "package-lock.json", "composer.lock", "packages.lock.json", "Pipfile.lock", "renv.lock", "bun.lock":
		for i := 0; i < n; i++ {
			b.WriteString("                                                                      \n")
		}
		i := strings.LastIndexByte(c, '}')
		if ch.Pct(40) {
			i = strings.IndexByte(c, '{') + 1
		}
		return c[:i] + b.String() + c[i:]
	case "Gemfile.lock":
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "      filler%d (>= 1.0, < 2.0, != 1.7.8.9) and its long description\n", i)
		}
		if ch.Pct(50) && strings.Contains(c, "  specs:\n") {
			return strings.Replace(c, "  specs:\n", "  specs:\n"+b.String(), 1)
		}
		return strings.Replace(c, "\nPLATFORMS", "\n"+b.String()+"\nPLATFORMS", 1)
	}
	return c
}

// longLine adds a harmless line that is longer than a line scanner takes,
// somewhere among the other lines.
func longLine(ch *Choices, f, c string) string {
	switch f {
	case "requirements.txt", "yarn.lock", "mix.lock", "gradle.lockfile", "buildscript-gradle.lockfile":
	default:
		return ""
	}
	x := "# " + strings.Repeat("filler ", 10000) + "\n"
	at := []int{0}
	for i := 0; i < len(c); i++ {
		if c[i] == '\n' && (i == 0 || c[i-1] != '\\') {
			at = append(at, i+1)
		}
	}
	i := at[ch.N(len(at))]
	return c[:i] + x + c[i:]
}

// broken turns content into something the parser has to refuse.
func broken(ch *Choices, f, c string) string {
	switch f {
	case "package-lock.json", "composer.lock", "packages.lock.json", "Pipfile.lock", "renv.lock", "bun.lock":
		if t := strings.TrimSpace(c); len(t) > 2 && f != "bun.lock" && ch.Pct(50) {
			return t[:1+ch.N(len(t)-1)]
		}
		return c[:len(c)/2+1]
	case "Cargo.lock", "pdm.lock", "poetry.lock", "pylock.toml", "uv.lock":
		return c + "\n[[package]\nname = \n"
	case "pnpm-lock.yaml", "pubspec.lock":
		return c + "\n: : {{{\n"
	case "pom.xml":
		return c[:len(c)-4]
	case "go.mod":
		return c + "\nrequire (\n"
	case "csv-file":
		bad := []string{"npm,,\n", ",,x,\n", "npm,,,1.0.0\n", "npm,,x\"y,1.0.0\n"}[ch.N(4)]
		if c != "" && ch.Pct(30) {
			return bad + c
		}
		return c + "\n" + bad
	}
	return ""
}

func jsonOf(v any, indent bool) string {
	if indent {
		b, _ := json.MarshalIndent(v, "", "  ")
		return string(b) + "\n"
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func mkNpm(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkPkgs(l, "npm", n)
	v2 := !ch.Pct(40)
	deps := map[string]any{}
	pk := map[string]any{"": map[string]any{"name": "root", "version": "1.0.0"}}
	entry := func(p *Pkg) map[string]any {
		if v2 {
			e := map[string]any{"version": p.Version, "resolved": "https://registry.npmjs.org/x.tgz"}
			if p.Commit != "" {
				e["resolved"] = "git+ssh://git@github.com/a/b.git#" + p.Commit
			}
			return e
		}
		if p.Commit != "" {
			p.Version = ""
			return map[string]any{"version": "git+ssh://git@github.com/a/b.git#" + p.Commit}
		}
		return map[string]any{"version": p.Version}
	}
	for i := range ps {
		p := &ps[i]
		if ch.Pct(w.k.commits) {
			p.Commit = w.commit()
		}
		e := entry(p)
		if v2 {
			at := "node_modules/" + p.Name
			if i > 0 && ch.Pct(20) {
				at = "node_modules/" + ps[i-1].Name + "/node_modules/" + p.Name
			}
			pk[at] = e
		} else {
			if p.Commit == "" && ch.Pct(10) {
				e["version"] = "npm:" + p.Name + "@" + p.Version
				deps["alias-"+strconv.Itoa(i)] = e
				continue
			}
			if i > 0 && ch.Pct(20) {
				if par, ok := deps[ps[i-1].Name].(map[string]any); ok {
					par["dependencies"] = map[string]any{p.Name: e}
					continue
				}
			}
			deps[p.Name] = e
		}
	}
	// several versions (or commits) of one package, nested in others
	if len(ps) > 1 && ch.Pct(25) {
		for k := 1 + ch.N(2); k > 0; k-- {
			p := ps[ch.N(len(ps))]
			host := ps[ch.N(len(ps))].Name
			if p.Commit != "" {
				p.Commit = w.commit()
			} else {
				p.Version = w.version()
			}
			at := "node_modules/" + host + "/node_modules/" + p.Name
			par, ok := deps[host].(map[string]any)
			if host == p.Name || has2(ps, p) || v2 && pk[at] != nil || !v2 && (!ok || par["dependencies"] != nil) {
				continue
			}
			e := entry(&p)
			if has2(ps, p) {
				continue
			}
			if v2 {
				pk[at] = e
			} else {
				par["dependencies"] = map[string]any{p.Name: e}
			}
			ps = append(ps, p)
		}
	}
	l.pkgs = ps
	if v2 {
		return jsonOf(map[string]any{"name": "x", "lockfileVersion": 2 + ch.N(2), "packages": pk}, true)
	}
	return jsonOf(map[string]any{"name": "x", "lockfileVersion": 1, "dependencies": deps}, true)
}

func has2(ps []Pkg, p Pkg) bool {
	for _, q := range ps {
		if q == p {
			return true
		}
	}
	return false
}

func mkBun(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkMulti(l, "npm", n)
	var b strings.Builder
	b.WriteString("{\n  \"lockfileVersion\": 1,\n  // comment\n  \"packages\": {\n")
	first := map[string]int{}
	for i := range ps {
		p := &ps[i]
		ref := p.Name + "@" + p.Version
		j, again := first[p.Name]
		if again && ps[j].Commit != "" || !again && ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			ref = p.Name + "@github:a/b#" + p.Commit
			p.Version = ""
		}
		key := p.Name
		if again {
			key = fmt.Sprintf("host%d/%s", i, p.Name)
		} else {
			first[p.Name] = i
		}
		fmt.Fprintf(&b, "    %q: [%q, \"\", {}, \"sha512-x\"],\n", key, ref)
	}
	b.WriteString("  },\n}\n")
	l.pkgs = ps
	return b.String()
}

func mkToml(head string) func(w *World, l *Lock, n int) string {
	return func(w *World, l *Lock, n int) string {
		ps := w.mkMulti(l, "crates.io", n)
		b := head
		for _, p := range ps {
			b += fmt.Sprintf("\n[[package]]\nname = %q\nversion = %q\nsource = \"registry+https://x\"\n", p.Name, p.Version)
		}
		l.pkgs = ps
		return b
	}
}

func mkPdm(w *World, l *Lock, n int) string {
	ps := w.mkMulti(l, "PyPI", n)
	b := "[metadata]\ngroups = [\"default\"]\n"
	for i := range ps {
		p := &ps[i]
		b += fmt.Sprintf("\n[[package]]\nname = %q\nversion = %q\n", p.Name, p.Version)
		if w.ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			b += fmt.Sprintf("revision = %q\n", p.Commit)
		}
	}
	l.pkgs = ps
	return b
}

func mkPoetry(w *World, l *Lock, n int) string {
	ps := w.mkMulti(l, "PyPI", n)
	b := ""
	for i := range ps {
		p := &ps[i]
		b += fmt.Sprintf("\n[[package]]\nname = %q\nversion = %q\noptional = false\n", p.Name, p.Version)
		if w.ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			b += fmt.Sprintf("\n[package.source]\ntype = \"git\"\nresolved_reference = %q\n", p.Commit)
		}
	}
	l.pkgs = ps
	return b + "\n[metadata]\nlock-version = \"2.0\"\n"
}

func mkPylock(w *World, l *Lock, n int) string {
	ps := w.mkMulti(l, "PyPI", n)
	b := "lock-version = \"1.0\"\ncreated-by = \"x\"\n"
	for i := range ps {
		p := &ps[i]
		b += fmt.Sprintf("\n[[packages]]\nname = %q\nversion = %q\n", p.Name, p.Version)
		if w.ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			b += fmt.Sprintf("vcs = { type = \"git\", commit-id = %q }\n", p.Commit)
		}
	}
	l.pkgs = ps
	return b
}

func mkUv(w *World, l *Lock, n int) string {
	ps := w.mkMulti(l, "PyPI", n)
	b := "version = 1\n\n[[package]]\nname = \"root\"\nversion = \"0.1.0\"\nsource = { virtual = \".\" }\n"
	for i := range ps {
		p := &ps[i]
		src := "{ registry = \"https://pypi.org/simple\" }"
		if w.ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			src = "{ git = \"https://github.com/a/b#" + p.Commit + "\" }"
		}
		b += fmt.Sprintf("\n[[package]]\nname = %q\nversion = %q\nsource = %s\n", p.Name, p.Version, src)
	}
	l.pkgs = ps
	return b
}

func mkComposer(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkMulti(l, "Packagist", n)
	a, d := []any{}, []any{}
	for i := range ps {
		p := &ps[i]
		e := map[string]any{"name": p.Name, "version": p.Version}
		if ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			e["dist"] = map[string]any{"type": "zip", "reference": p.Commit}
		}
		if ch.Pct(30) {
			d = append(d, e)
		} else {
			a = append(a, e)
		}
	}
	l.pkgs = ps
	return jsonOf(map[string]any{"_readme": []any{"x"}, "packages": a, "packages-dev": d}, true)
}

func mkGem(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkPkgs(l, "RubyGems", n)
	git, gem := "", ""
	for i := range ps {
		p := &ps[i]
		if ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			git += fmt.Sprintf("GIT\n  remote: https://github.com/a/b.git\n  revision: %s\n  specs:\n    %s (%s)\n\n", p.Commit, p.Name, p.Version)
			continue
		}
		gem += fmt.Sprintf("    %s (%s)\n", p.Name, p.Version)
		if ch.Pct(30) {
			gem += "      other (~> 1.0)\n"
		}
	}
	l.pkgs = ps
	return git + "GEM\n  remote: https://rubygems.org/\n  specs:\n" + gem + "\nPLATFORMS\n  ruby\n\nDEPENDENCIES\n  x\n\nBUNDLED WITH\n   2.1.4\n"
}

func mkGo(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkPkgs(l, "Go", n)
	b := "module example.org/me\n\ngo 1.20\n\nrequire (\n"
	rep := ""
	for i := range ps {
		p := &ps[i]
		// major versions need a suffix in the module path
		p.Version = strconv.Itoa(ch.N(2)) + p.Version[strings.IndexByte(p.Version, '.'):]
		b += fmt.Sprintf("\t%s v%s", p.Name, p.Version)
		if ch.Pct(30) {
			b += " // indirect"
		}
		b += "\n"
		if ch.Pct(8) {
			nn := p.Name + "fork"
			rep += fmt.Sprintf("replace %s => %s v%s\n", p.Name, nn, p.Version)
			p.Name = nn
		}
	}
	l.pkgs = ps
	return b + ")\n\n" + rep
}

func mkMix(w *World, l *Lock, n int) string {
	ps := w.mkPkgs(l, "Hex", n)
	b := "%{\n"
	for i := range ps {
		p := &ps[i]
		p.Commit = w.commit()
		b += fmt.Sprintf("  %q: {:hex, :%s, %q, %q, [:mix], [], \"hexpm\", \"y\"},\n", p.Name, p.Name, p.Version, p.Commit)
	}
	l.pkgs = ps
	return b + "}\n"
}

func mkNuget(w *World, l *Lock, n int) string {
	ps := w.mkPkgs(l, "NuGet", n)
	d := map[string]any{"net6.0": map[string]any{}, "net7.0": map[string]any{}}
	for _, p := range ps {
		k := "net6.0"
		if w.ch.Pct(30) {
			k = "net7.0"
		}
		d[k].(map[string]any)[p.Name] = map[string]any{"type": "Direct", "resolved": p.Version}
		if w.ch.Pct(20) {
			d["net7.0"].(map[string]any)[p.Name] = map[string]any{"type": "Direct", "resolved": p.Version}
		}
	}
	l.pkgs = ps
	return jsonOf(map[string]any{"version": 1, "dependencies": d}, true)
}

func mkPnpm(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkMulti(l, "npm", n)
	style := ch.N(3)
	b := []string{"lockfileVersion: '9.0'\n", "lockfileVersion: '6.0'\n", "lockfileVersion: 5.3\n"}[style]
	b += "\nsettings:\n  autoInstallPeers: true\n\npackages:\n"
	if len(ps) == 0 {
		b += "  {}\n"
	}
	for i := range ps {
		p := &ps[i]
		key := []string{p.Name + "@" + p.Version, "/" + p.Name + "@" + p.Version, "/" + p.Name + "/" + p.Version}[style]
		res := "{integrity: sha512-x}"
		if ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			res = "{commit: " + p.Commit + ", repo: 'https://x/y.git', type: git}"
		}
		b += fmt.Sprintf("\n  '%s':\n    resolution: %s\n", key, res)
	}
	l.pkgs = ps
	return b
}

func mkPipenv(w *World, l *Lock, n int) string {
	ps := w.mkPkgs(l, "PyPI", n)
	d := map[string]any{"default": map[string]any{}, "develop": map[string]any{}, "_meta": map[string]any{"pipfile-spec": 6}}
	for _, p := range ps {
		k := "default"
		if w.ch.Pct(30) {
			k = "develop"
		}
		d[k].(map[string]any)[p.Name] = map[string]any{"version": "==" + p.Version, "hashes": []any{"x"}}
	}
	l.pkgs = ps
	return jsonOf(d, true)
}

func mkPom(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkPkgs(l, "Maven", n)
	props, deps, man := "", "", ""
	for i, p := range ps {
		g, a, _ := strings.Cut(p.Name, ":")
		v := p.Version
		if ch.Pct(25) {
			props += fmt.Sprintf("    <v%d>%s</v%d>\n", i, p.Version, i)
			v = fmt.Sprintf("${v%d}", i)
		} else if ch.Pct(3) { // not said anywhere
			v, ps[i].Version = fmt.Sprintf("${none%d}", i), "0"
		}
		d := fmt.Sprintf("      <dependency>\n        <groupId>%s</groupId>\n        <artifactId>%s</artifactId>\n        <version>%s</version>\n      </dependency>\n", g, a, v)
		if ch.Pct(25) {
			man += d
		} else {
			deps += d
		}
	}
	l.pkgs = ps
	return "<project>\n  <modelVersion>4.0.0</modelVersion>\n  <properties>\n" + props + "  </properties>\n  <dependencyManagement>\n    <dependencies>\n" + man +
		"    </dependencies>\n  </dependencyManagement>\n  <dependencies>\n" + deps + "  </dependencies>\n</project>\n"
}

func mkPubspec(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkPkgs(l, "Pub", n)
	b := "# Generated by pub\npackages:\n"
	if len(ps) == 0 {
		b += "  {}\n"
	}
	for i := range ps {
		p := &ps[i]
		d := fmt.Sprintf("      name: %s\n      url: \"https://pub.dev\"\n", p.Name)
		src := "hosted"
		if ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			d = "      path: \".\"\n      resolved-ref: \"" + p.Commit + "\"\n      url: \"https://x\"\n"
			src = "git"
		}
		b += fmt.Sprintf("  %s:\n    dependency: transitive\n    description:\n%s    source: %s\n    version: \"%s\"\n", p.Name, d, src, p.Version)
	}
	l.pkgs = ps
	return b + "sdks:\n  dart: \">=2.0.0 <3.0.0\"\n"
}

func mkRenv(w *World, l *Lock, n int) string {
	ps := w.mkPkgs(l, "CRAN", n)
	m := map[string]any{}
	for _, p := range ps {
		e := map[string]any{"Package": p.Name, "Version": p.Version, "Source": "Repository"}
		if w.ch.Pct(60) {
			e["Repository"] = "CRAN"
		}
		m[p.Name] = e
	}
	l.pkgs = ps
	return jsonOf(map[string]any{"R": map[string]any{"Version": "4.2.3"}, "Packages": m}, true)
}

func mkYarn(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkMulti(l, "npm", n)
	v2 := ch.Pct(40)
	b := "# yarn lockfile v1\n\n"
	if v2 {
		b = "__metadata:\n  version: 4\n  cacheKey: 7\n"
	}
	for i := range ps {
		p := &ps[i]
		res := "https://registry.yarnpkg.com/x/-/x-1.0.0.tgz#abc"
		if ch.Pct(w.k.commits) {
			p.Commit = w.commit()
			res = "git+ssh://git@github.com/a/b.git#" + p.Commit
		}
		ver := p.Version
		vline := fmt.Sprintf("  version \"%s\"\n", ver)
		if v2 {
			vline = fmt.Sprintf("  version: %s\n", ver)
		}
		if p.Commit != "" && ch.Pct(15) {
			vline, p.Version = "", ""
		}
		if v2 {
			if p.Commit == "" {
				res = p.Name + "@npm:" + p.Version
			} else {
				res = p.Name + "@https://github.com/a/b.git#commit:" + p.Commit
			}
			b += fmt.Sprintf("\n\"%s@npm:^%s\":\n%s  resolution: \"%s\"\n  languageName: node\n", p.Name, ver, vline, res)
		} else {
			h := p.Name + "@^" + ver
			if strings.HasPrefix(h, "@") {
				h = "\"" + h + "\""
			}
			b += fmt.Sprintf("\n%s:\n%s  resolved \"%s\"\n  integrity sha512-x\n", h, vline, res)
		}
		if ch.Pct(20) {
			b += "  dependencies:\n    other \"^1.0.0\"\n"
		}
	}
	l.pkgs = ps
	return b
}

func mkGradle(w *World, l *Lock, n int) string {
	ps := w.mkMulti(l, "Maven", n)
	b := "# This is a Gradle generated file for dependency locking.\n"
	for _, p := range ps {
		b += p.Name + ":" + p.Version + "=compileClasspath,runtimeClasspath\n"
		if w.ch.Pct(2) {
			b += "whatever\n" // skipped, with a warning
		}
	}
	l.pkgs = ps
	if w.ch.Pct(40) {
		return b
	}
	return b + "empty=annotationProcessor\n"
}

func mkReq(w *World, l *Lock, n int) string {
	ch := w.ch
	ps := w.mkMulti(l, "PyPI", n)
	l.pkgs = ps
	nfiles := 1
	if ch.Pct(w.k.include) {
		nfiles += 1 + ch.N(3)
	}
	dir := dirOf(l.path)
	parts := make([]string, nfiles)
	for _, p := range ps {
		k := ch.N(nfiles)
		p.Name = w.spell("PyPI", p.Name)
		line := fmt.Sprintf("%s==%s", p.Name, p.Version)
		switch ch.N(6) {
		case 1:
			line += "  # a comment"
		case 2:
			line = p.Name + " == " + p.Version
		case 3:
			line = p.Name + "[extra]==" + p.Version
		case 4:
			line = p.Name + " \\\n  ==" + p.Version
		case 5:
			line += " \\\n    --hash=sha256:abc"
		}
		parts[k] += line + "\n"
	}
	// the files form a tree, in one directory or several
	at := make([]string, nfiles)
	at[0] = l.path
	for i := 1; i < nfiles; i++ {
		sub := []string{"", "", "", "sub/", "sub/deep/", "also/"}[ch.N(6)]
		name := fmt.Sprintf("inc%d-%d.txt", l.idx, i)
		if ch.Pct(30) {
			name = fmt.Sprintf("base%d.txt", l.idx)
		}
		at[i] = dir + "/" + sub + name
		for _, o := range at[:i] {
			if o == at[i] {
				at[i] = fmt.Sprintf("%s/%sinc%d-%d.txt", dir, sub, l.idx, i)
			}
		}
	}
	for i := nfiles - 1; i > 0; i-- {
		from := 0
		if ch.Pct(40) {
			from = ch.N(i)
		}
		ref, _ := filepath.Rel(dirOf(at[from]), at[i])
		if ch.Pct(50) {
			parts[from] = "-r " + ref + "\n" + parts[from]
		} else {
			parts[from] += "-r " + ref + "\n"
		}
	}
	for i := nfiles - 1; i > 0; i-- {
		w.fs.Put(at[i], []byte(parts[i]))
		l.includes = append(l.includes, at[i])
		w.roles[at[i]] = [2]string{"include", at[i]}
	}
	if len(l.includes) > 0 && ch.Pct(12) {
		// a ring of files that include one another
		m := 2 + ch.N(5)
		for i := 0; i < m; i++ {
			p := fmt.Sprintf("%s/ring%d-%d.txt", dir, l.idx, i)
			c := fmt.Sprintf("-r ring%d-%d.txt\n", l.idx, (i+1)%m)
			if i > 0 && ch.Pct(30) {
				c += fmt.Sprintf("-r ring%d-%d.txt\n", l.idx, ch.N(m))
			}
			w.fs.Put(p, []byte(c))
			l.includes = append(l.includes, p)
			w.roles[p] = [2]string{"include", p}
		}
		parts[0] += fmt.Sprintf("-r ring%d-0.txt\n", l.idx)
	}
	if len(l.includes) > 0 && ch.Pct(15) {
		// included once more, or by itself
		if i := l.includes[ch.N(len(l.includes))]; dirOf(i) == dir {
			parts[0] += "-r ./" + i[len(dir)+1:] + "\n"
		}
		if ch.Pct(50) {
			parts[0] += "-r " + l.name + "\n"
		}
	}
	return parts[0]
}

func mkCSV(w *World, l *Lock, n int) string {
	rows := w.csvPkgs(l, n)
	return strings.Join(rows, "\n") + "\n"
}

func (w *World) csvPkgs(l *Lock, n int) []string {
	ch := w.ch
	ecos := []string{"npm", "PyPI", "Maven", "Go", "crates.io", "Debian:11", "Alpine:v3.18", "Debian"}
	var rows []string
	for i := 0; i < n; i++ {
		eco := ecos[ch.N(len(ecos))]
		p := Pkg{Name: w.spell(eco, w.pkgName(l, eco, i)), Version: w.version(), Eco: eco, CompareAs: eco}
		if len(l.pkgs) > 0 && ch.Pct(8) { // as another, but for the ecosystem
			if o := l.pkgs[ch.N(len(l.pkgs))]; o.Eco != "" && o.Eco != eco && !has2(l.pkgs, Pkg{Name: o.Name, Version: strings.TrimPrefix(o.Version, "v"), Eco: eco, CompareAs: eco}) {
				p.Name, p.Version = o.Name, strings.TrimPrefix(o.Version, "v")
			}
		}
		if ch.Pct(w.k.commits) {
			p = Pkg{Name: p.Name, Commit: w.commit()}
			rows = append(rows, ",,"+p.Name+","+p.Commit)
			l.pkgs = append(l.pkgs, p)
			continue
		}
		if (eco == "npm" || eco == "Go" || eco == "crates.io") && p.Version != "" && ch.Pct(8) {
			p.Version = "v" + p.Version
		}
		if ch.Pct(3) {
			p.Version = ""
		}
		cmp := ""
		if ch.Pct(30) {
			cmp = eco
		}
		q := p.Name
		if ch.Pct(20) {
			q = `"` + q + `"`
		}
		rows = append(rows, eco+","+cmp+","+q+","+p.Version)
		l.pkgs = append(l.pkgs, p)
	}
	return rows
}

func (w *World) genCSVRows() {
	l := &Lock{path: "-", name: "-", format: "csv-row"}
	w.csvRows = w.csvPkgs(l, 1+w.ch.N(5))
	w.locks = append(w.locks, l)
	w.parseAsAll = "csv-row"
	w.args = []*Arg{{path: "-", abs: "-", prefix: "csv-row", locks: []*Lock{l}}}
}
