package zzsim

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/BurntSushi/toml"
	"github.com/tidwall/jsonc"
	"gopkg.in/yaml.v3"
)

// Hostile bytes: nothing is known about what the detector should make of them,
// only that it must end, and not by crashing.

var odd = []string{"", "x", "-", ".", "..", ":", "@", "/", "#", "=", "==", "==1", ">=1,<2", "^1", "~> 1", "*", "npm:x", "npm:@", "npm:", "npm:@a/b@",
	"@/", "@a", "@a/b", "a@", "@a/b@1", "/a/1.0", "/@a/b/1.0.0", "/@a/b@1.0.0", "a@1.0(b@2)", "(", ")", "()", "1", "1.0", "1.x", "v", "v1", "!1", "1!2!3", "1:2:3", "0:1", "1-", "-1", "1--1", "1~", "1+",
	"1.0-0.0.alpha", "1..2", ".1", "99999999999999999999999999", "1.99999999999999999999999", "https://", "https://x/y.git#", "git+ssh://g@h/x.git#abc", "git+https://x#", "file:x", "link:..", "workspace:^",
	"${x}", "${project.version}", "~", "null", "true", "[1,2)", "[1]", "(,1]", "\x00", "\xff\xfe", "é", "\n", "\r\n", "\t", "  ", "'", `"`, `\`, "{{", "GIT", "Foo", "Debian", "Debian:11", "Alpine:v3.16", "Ubuntu:22.04:LTS", "Red Hat", "Linux", "npm", "PyPI", "Go", "Maven", "crates.io", "Packagist", "RubyGems", "NuGet", "Hex", "Pub", "CRAN", "Bitnami", "SwiftURL", "Android", "ConanCenter",
	"master", "dev-master", "dev-main as 1.0", "1.0.0-dev", "9999999-dev", "0000000000000000000000000000000000000000", "a\nb", "-r x", "-r .", "-c x", "-e .", "--hash=sha256:0", "a[b]==1", "a ; python_version<'3'", "a @ https://x/a-1.0.zip", "2020-01-01T00:00:00Z", "SEMVER", "ECOSYSTEM"}

var docs = map[string][]string{
	"any":     {"", "\xef\xbb\xbf{}", "%", "\x00", "\"\n", "a:\n"},
	"json":    {"null", "[]", "{}", "0", `""`, "true", "[null]", "[[]]", "[{}]", `{"packages":null}`, `{"packages":[null]}`, `{"packages":{"":null}}`, `{"packages":{"a":[]}}`, `{"packages":{"a":null}}`, `{"dependencies":{"a":null}}`, `{"dependencies":{"a":{"dependencies":{"b":null}}}}`, `{"default":{"a":null},"develop":null}`, `{"default":{"a":{"version":"="}}}`, `{"dependencies":{"net":{"a":null}}}`, `{"Packages":{"a":null}}`},
	"yaml":    {"null", "{}", `""`, "---\n", "--- {}\n", "--- []\n", "&a [*a]\n", "a: &a\n  b: *a\n"},
	"pnpm":    {"packages:\n", "packages: []\n", "packages: ~\n", "packages:\n  a: ~\n", "packages:\n  /a: {}\n", "packages:\n  '': {}\n", "lockfileVersion: 5.4\npackages:\n  /@a: {}\n", "lockfileVersion: '6.0'\npackages:\n  /@a: {}\n  '@': {}\n", "lockfileVersion: '9.0'\npackages:\n  'a': {}\n  '@': {}\n  '@a/b': {}\n", "lockfileVersion: 5.4\npackages:\n  /a/1.0.0: ~\n", "lockfileVersion: 5.4\npackages:\n  a: {}\n  /: {}\n  //: {}\n", "lockfileVersion: 5.4\npackages:\n  github.com/a/b/c: {}\n", "lockfileVersion: '6.0'\npackages:\n  /a@1.0.0(b@2): ~\n  /@a/b@1: ~\n", "lockfileVersion: '9.0'\npackages:\n  a@1.0.0: ~\n", "lockfileVersion: x\npackages:\n  /a/1: {}\n", "lockfileVersion: ~\npackages:\n  /a/1: {}\n", "lockfileVersion: -1\npackages:\n  /a/1: {}\n", "packages:\n  a/1:\n    resolution: ~\n", "lockfileVersion: '6.0'\npackages:\n  x:\n    name: a\n    version: '1.0.0('\n    resolution: {tarball: x}\n"},
	"pubspec": {"packages:\n", "packages: []\n", "packages: ~\n", "packages:\n  a: ~\n", "packages:\n  /a: {}\n", "packages:\n  '': {}\n", "packages:\n  a:\n    description: ~\n    version: 1\n", "packages:\n  a:\n    description: x\n    version: 1\n", "packages:\n  a:\n    description: [x]\n    version: ~\n"},
	"toml":    {"[[package]]\n", "package = 1\n", "[package]\n", "[[packages]]\n"},
	"xml":     {"<project/>", "<project><dependencies><dependency/></dependencies></project>", "<project><properties><a>${a}</a></properties><dependencies><dependency><groupId>a</groupId><artifactId>b</artifactId><version>${a}</version></dependency></dependencies></project>", "<project><properties><a>${b}</a><b>${a}</b></properties><dependencies><dependency><groupId>${a}</groupId><artifactId>${b}</artifactId><version>${a}</version></dependency></dependencies></project>"},
	"yarn":    {"a@\n  version\n", "\"a@\":\n  version \"\"\n", "\"@a\":\n  version \"1\"\n", "\"a@npm:b\":\n  version: 1\n  resolution: \"\"\n"},
	"mix":     {"%{\n}\n", "%{\n  \"a\": {}\n}\n", "%{\n  \"a\": {:hex},\n}\n", "%{\n  \"a\": {:hex, :b},\n}\n", "%{\n  \"a\": {:hex, :b, \"1\"},\n}\n", "%{\n  \"a\": {,,,,,},\n}\n", "%{\n  \"a\": {:git, \"x\"},\n  \"b\": {:hex, :b, \n}\n"},
	"gem":     {"GEM\n  specs:\n    a\n", "GEM\n  specs:\n    a ()\n", "GIT\n  revision:\n  specs:\n    a (1)\n"},
	"gradle":  {"a=\n", "a:b\n", "a:b:\n", "::=\n", "a:b:c=\n", "empty=\n"},
	"csv":     {",\n", "a,b\n", "a,b,c\n", "a,,,\n", ",,,\n", "\"\n,\n", "npm,,x,\n", "npm,,,abc\n"},
	"gomod":   {"module\n", "module x\nrequire (\n", "require x v1\n", "go 1.\n", "go 99999999999999999999\n", "replace a => \n", "replace a => ../b\n"},
	"config":  {"ignore:\n", "ignore: 1\n", "ignore: [~]\n", "extra-databases:\n", "extra-databases: 5\n", "extra-databases: [~]\n", "extra-databases:\n  - ~\n", "extra-databases:\n  - url: ''\n", "extra-databases:\n  - url: ':'\n", "extra-databases:\n  - url: '%'\n", "extra-databases:\n  - url: 'file:/%zz'\n", "extra-databases:\n  - url: 'file:///'\n", "extra-databases:\n  - type: api\n    url: '://'\n"},
	"bun": {"{\"lockfileVersion\":1,\"packages\":{\"a\":[]}}", `{"packages":{"a":[null]}}`, `{"packages":{"a":[""]}}`, `{"packages":{"a":["@"]}}`, `{"packages":{"a":["@@"]}}`, `{"packages":{"a":["a"]}}`, `{"packages":{"a":[1]}}`, `{"packages":{"a":[[]]}}`, `{"packages":{"a":["a@#"],}, // x
}`, `{"packages":{"a":["a@file:"]}}`, `{"packages":{"a":null}}`, "//", "/*", "{,}"},
	"npm":   {`{"lockfileVersion":2,"packages":{"node_modules/":{"version":"1"}}}`, `{"packages":{"node_modules/a":{"version":"file:x","resolved":"x","link":true}}}`, `{"packages":{"a":{"name":"","version":"1","resolved":"git+ssh://#"}}}`, `{"dependencies":{"a":{"version":"npm:@"}}}`, `{"dependencies":{"a":{"version":"npm:"}}}`, `{"dependencies":{"":{"version":""}},"packages":{"":{}}}`, `{"dependencies":{"a":{"version":"npm:b"}}}`, `{"dependencies":{"a":{"version":"git+x#","dependencies":{}}}}`, `{"packages":{"node_modules/a":{"version":"1.0.0","resolved":"git+ssh://git@github.com/a/b.git#0123"},"node_modules/b/node_modules/a":{"version":"2.0.0","resolved":"git+ssh://git@github.com/a/b.git#0123"},"node_modules/c/node_modules/a":{"version":"3.0.0","resolved":"git+ssh://git@github.com/a/b.git#0123"}}}`},
	"osv":   {`{"id":"A","affected":null}`, `{"id":"A","affected":[{}]}`, `{"id":"A","affected":[{"package":null,"ranges":[null],"versions":[null]}]}`, `{"id":"A","affected":[{"ranges":[{"events":[]}]}]}`, `{"id":"A","affected":[{"ranges":[{"type":"ECOSYSTEM","events":[{}]}]}]}`, `{"id":"A","aliases":[null],"references":[null],"severity":null,"database_specific":[]}`, `{"id":"","affected":[{"package":{"ecosystem":"","name":""},"versions":[""]}]}`, `{"results":null}`, `{"results":[null]}`, `{"results":[{"vulns":[null]}]}`, `{"results":[{"vulns":[{"id":"../x"}]}]}`, `{"results":[{"vulns":[{"id":""}]}]}`, `{"results":[{},{},{},{},{},{},{},{},{}]}`, `{"results":[{"vulns":[{"id":"%zz"}]}]}`, `{"results":[{"vulns":[{"id":"a\nb"}]}]}`},
	"cache": {`{"url":"x"}`, `{"etag":5}`, `{"body":null}`, `{"body":""}`, `{"url":"","etag":"","date":"","body":"UEsFBgAAAAAAAAAAAAAAAAAAAAAAAA=="}`, `{"date":"x","body":"UEsF"}`},
}

// docsOf lists the groups of documents worth trying in place of a file.
var docsOf = map[string][]string{
	"package-lock.json": {"json", "npm"}, "npm-shrinkwrap.json": {"json", "npm"}, "bun.lock": {"bun", "json"}, "composer.lock": {"json"}, "Pipfile.lock": {"json"}, "packages.lock.json": {"json"},
	"pnpm-lock.yaml": {"pnpm", "yaml"}, "pubspec.lock": {"pubspec", "yaml"}, "yarn.lock": {"yarn"}, "Cargo.lock": {"toml"}, "poetry.lock": {"toml"}, "uv.lock": {"toml"}, "pdm.lock": {"toml"},
	"pom.xml": {"xml"}, "mix.lock": {"mix"}, "Gemfile.lock": {"gem"}, "gradle.lockfile": {"gradle"}, "buildscript-gradle.lockfile": {"gradle"}, "csv-file": {"csv"}, "go.mod": {"gomod"},
	"config": {"config", "yaml"}, "advisory": {"osv", "json"}, "detail": {"osv", "json"}, "batch": {"osv", "json"}, "cache": {"cache", "json"},
}

func (w *World) otherDoc(f *Choices, kind string) string {
	gs := append([]string{"any"}, docsOf[kind]...)
	g := gs[len(gs)-1-f.N(len(gs))]
	if f.Pct(10) {
		g = pick(f, sortedKeys(docs))
	}
	return pick(f, docs[g])
}

func (w *World) oddString(f *Choices) string {
	switch f.N(12) {
	case 1:
		return strings.Repeat(pick(f, odd), 2+f.N(50))
	case 2:
		return pick(f, odd) + pick(f, odd)
	case 3:
		if len(w.allP) > 0 {
			p := pick(f, w.allP)
			return []string{p.Name, p.Version, p.Name + "@" + p.Version, p.Eco}[f.N(4)]
		}
	}
	return pick(f, odd)
}

var token = regexp.MustCompile(`"[^"\n]*"|'[^'\n]*'|[A-Za-z0-9_.@/:+~^#$!-]+`)
var number = regexp.MustCompile(`[0-9]+(\.[0-9A-Za-z]+)*`)

// mangle damages some bytes.
func (w *World) mangle(f *Choices, b []byte, kind string) []byte {
	s := string(b)
	for n := 1 + f.W(60, 25, 15); n > 0; n-- {
		s = w.mangle1(f, s, kind)
	}
	return []byte(s)
}

func (w *World) mangle1(f *Choices, s, kind string) string {
	lines := func() []string { return strings.SplitAfter(s, "\n") }
	switch f.N(14) {
	case 13: // one field, wherever it is
		if o, ok := w.rebuild(f, s, kind, func(v any) any { blank(f, v); return v }); ok {
			return o
		}
	case 0:
		return w.otherDoc(f, kind)
	case 1: // cut
		if len(s) > 0 {
			return s[:f.N(len(s))]
		}
	case 2, 3, 4: // a token
		m := token.FindAllStringIndex(s, -1)
		if len(m) > 0 {
			x := m[f.N(len(m))]
			t, o := s[x[0]:x[1]], w.oddString(f)
			if (t[0] == '"' || t[0] == '\'') && f.N(4) > 0 {
				o = string(t[0]) + o + string(t[0])
			}
			return s[:x[0]] + o + s[x[1]:]
		}
	case 5: // a number or version
		m := number.FindAllStringIndex(s, -1)
		if len(m) > 0 {
			x := m[f.N(len(m))]
			return s[:x[0]] + w.oddString(f) + s[x[1]:]
		}
	case 6: // lines
		l := lines()
		i := f.N(len(l))
		switch f.N(3) {
		case 0:
			l = append(l[:i:i], l[i+1:]...)
		case 1:
			l = append(l[:i+1:i+1], l[i:]...)
		case 2:
			j := f.N(len(l))
			l[i], l[j] = l[j], l[i]
		}
		return strings.Join(l, "")
	case 7: // bytes
		if len(s) > 0 {
			x := []byte(s)
			x[f.N(len(x))] = byte(f.N(256))
			return string(x)
		}
	case 8: // a span goes
		if len(s) > 1 {
			i := f.N(len(s))
			j := min(len(s), i+1+f.N(20))
			return s[:i] + s[j:]
		}
	case 9:
		i := f.N(len(s) + 1)
		return s[:i] + w.oddString(f) + s[i:]
	default: // a value inside the document
		if o, ok := w.restructure(f, s, kind); ok {
			return o
		}
		// or an indented block
		l := lines()
		i := f.N(len(l))
		j := min(len(l), i+1+f.N(4))
		return strings.Join(l[:i], "") + strings.Join(l[j:], "")
	}
	return s
}

// restructure replaces a value inside a JSON, YAML or TOML document.
func (w *World) restructure(f *Choices, s, kind string) (string, bool) {
	return w.rebuild(f, s, kind, func(v any) any {
		if f.N(4) != 3 || !w.twin(f, v) {
			k := f.N(countNodes(v))
			v = w.swapNode(f, v, &k)
		}
		return v
	})
}

func (w *World) twins(f *Choices, s, kind string) (string, bool) {
	return w.rebuild(f, s, kind, func(v any) any { w.twin(f, v); return v })
}

func (w *World) rebuild(f *Choices, s, kind string, change func(v any) any) (string, bool) {
	var v any
	groups := strings.Join(docsOf[kind], " ")
	enc := json.Marshal
	switch {
	case json.Unmarshal(jsonc.ToJSON([]byte(s)), &v) == nil:
	case strings.Contains(groups, "yaml") && yaml.Unmarshal([]byte(s), &v) == nil:
		enc = yaml.Marshal
	case strings.Contains(groups, "toml"):
		m := map[string]any{}
		if _, err := toml.Decode(s, &m); err != nil {
			return "", false
		}
		v = m
		enc = func(v any) ([]byte, error) {
			var b bytes.Buffer
			err := toml.NewEncoder(&b).Encode(noNils(v))
			return b.Bytes(), err
		}
	default:
		return "", false
	}
	v = plainMaps(v)
	v = change(v)
	o, err := enc(v)
	return string(o), err == nil
}

// blank empties the values of one key in the whole document.
func blank(f *Choices, v any) {
	keys := map[string]bool{}
	walkMaps(v, func(m map[string]any) {
		for k := range m {
			keys[k] = true
		}
	})
	if len(keys) == 0 {
		return
	}
	blankKey(v, pick(f, sortedKeys(keys)), f.N(4))
}

func walkMaps(v any, do func(m map[string]any)) {
	switch x := v.(type) {
	case map[string]any:
		do(x)
		for _, k := range sortedKeys(x) {
			walkMaps(x[k], do)
		}
	case []any:
		for _, y := range x {
			walkMaps(y, do)
		}
	}
}

func blankKey(v any, key string, how int) {
	walkMaps(v, func(m map[string]any) {
		o, ok := m[key]
		if !ok {
			return
		}
		switch x := o.(type) {
		case string:
			m[key] = []any{"", " ", nil, "0"}[how]
		case []any:
			l := []any{}
			for _, e := range x {
				switch e.(type) {
				case string:
					e = ""
				case []any:
					e = []any{}
				case map[string]any:
					e = map[string]any{}
				}
				if how == 3 {
					e = nil
				}
				l = append(l, e)
			}
			m[key] = []any{l, []any{}, nil, l}[how]
		case map[string]any:
			m[key] = []any{map[string]any{}, nil, map[string]any{"": ""}, map[string]any{"x": nil}}[how]
		default:
			m[key] = []any{0, nil, -1, 1e300}[how]
		}
	})
}

// noNils leaves out what TOML cannot say.
func noNils(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, y := range x {
			if y == nil {
				delete(x, k)
			} else {
				x[k] = noNils(y)
			}
		}
	case []any:
		l := []any{}
		for _, y := range x {
			if y != nil {
				l = append(l, noNils(y))
			}
		}
		return l
	case nil:
		return map[string]any{}
	}
	return v
}

// plainMaps turns what the decoders make into maps by string and lists.
func plainMaps(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, y := range x {
			x[k] = plainMaps(y)
		}
	case map[any]any:
		m := map[string]any{}
		for k, y := range x {
			m[fmt.Sprintf("%T %v", k, k)] = plainMaps(y)
		}
		o := map[string]any{}
		for _, k := range sortedKeys(m) {
			_, n, _ := strings.Cut(k, " ")
			o[n] = m[k]
		}
		return o
	case []map[string]any:
		l := make([]any, len(x))
		for i, y := range x {
			l[i] = plainMaps(y)
		}
		return l
	case []any:
		for i, y := range x {
			x[i] = plainMaps(y)
		}
	}
	return v
}

// twin adds an entry that is like another one but for one value.
func (w *World) twin(f *Choices, v any) bool {
	var ms []map[string]any
	var walk func(v any)
	walk = func(v any) {
		switch x := v.(type) {
		case map[string]any:
			some := false
			for _, q := range sortedKeys(x) {
				m, ok := x[q].(map[string]any)
				some = some || ok && len(m) > 0
				walk(x[q])
			}
			if some {
				ms = append(ms, x)
			}
		case []any:
			for _, y := range x {
				walk(y)
			}
		}
	}
	walk(v)
	if len(ms) == 0 {
		return false
	}
	entries := func(m map[string]any) (ks []string) {
		for _, q := range sortedKeys(m) {
			if e, ok := m[q].(map[string]any); ok && len(e) > 0 {
				ks = append(ks, q)
			}
		}
		return ks
	}
	m := pick(f, ms)
	if f.N(4) > 0 { // what lists the packages, most likely
		for _, o := range ms {
			if o["metadata"] == nil && len(entries(o)) > len(entries(m)) {
				m = o
			}
		}
	}
	q := pick(f, entries(m))
	for n := 1 + f.N(3); n > 0; n-- {
		c := map[string]any{}
		for k, y := range m[q].(map[string]any) {
			c[k] = y
		}
		x := pick(f, sortedKeys(c))
		if c["version"] != nil && f.N(2) == 0 {
			x = "version"
		}
		if _, ok := c[x].(string); ok {
			c[x] = []string{"1.0.0", "2.0.0", "0.0.1", w.oddString(f)}[f.N(4)]
		}
		m[fmt.Sprintf([]string{"node_modules/z%d/%s", "%d%s", "/%d/%s"}[f.W(60, 20, 20)], n, q)] = c
	}
	return true
}

func countNodes(v any) int {
	n := 1
	switch x := v.(type) {
	case map[string]any:
		for _, y := range x {
			n += countNodes(y)
		}
	case []any:
		for _, y := range x {
			n += countNodes(y)
		}
	}
	return n
}

func (w *World) swapNode(f *Choices, v any, k *int) any {
	if *k == 0 {
		*k--
		switch f.N(9) {
		case 0:
			return nil
		case 1:
			return []any{}
		case 2:
			return map[string]any{}
		case 3:
			return f.N(3) - 1
		case 4:
			return true
		case 5:
			return []any{nil}
		case 6:
			return map[string]any{w.oddString(f): v}
		default:
			return w.oddString(f)
		}
	}
	*k--
	switch x := v.(type) {
	case map[string]any:
		var ks []string
		for q := range x {
			ks = append(ks, q)
		}
		sort.Strings(ks)
		for _, q := range ks {
			was := *k
			x[q] = w.swapNode(f, x[q], k)
			if was >= 0 && *k < 0 && f.N(5) == 4 {
				x[w.oddString(f)] = x[q]
				delete(x, q)
			}
			if *k < 0 {
				break
			}
		}
	case []any:
		for i := range x {
			x[i] = w.swapNode(f, x[i], k)
			if *k < 0 {
				break
			}
		}
	}
	return v
}

// files the detector reads from this world
func (w *World) inputs() []string {
	seen := map[string]bool{}
	for _, l := range w.locks {
		if l.path != "-" {
			seen[l.path] = true
		}
		for _, i := range l.includes {
			seen[i] = true
		}
	}
	for _, c := range w.confSorted() {
		seen[c.path] = true
	}
	for _, d := range w.dbs {
		for _, f := range d.files {
			seen[f.path] = true
		}
	}
	return sortedKeys(seen)
}

func rezip(w *World, f *Choices, body []byte, each func(name string, b []byte) []byte) []byte {
	zr, err := zip.NewReader(bytes.NewReader(body), int64(len(body)))
	if err != nil {
		return body
	}
	var buf bytes.Buffer
	zw := zip.NewWriter(&buf)
	for _, e := range zr.File {
		var b bytes.Buffer
		if rc, err := e.Open(); err == nil {
			b.ReadFrom(rc)
			rc.Close()
		}
		if fw, err := zw.Create(e.Name); err == nil {
			fw.Write(each(e.Name, b.Bytes()))
		}
	}
	zw.Close()
	return buf.Bytes()
}

func runC19(r *Run) {
	k := allKnobs()
	k.locks, k.include, k.csvRow, k.commits = [2]int{1, 3}, 60, 12, 20
	k.pkgs, k.advs = [2]int{0, 4}, [2]int{0, 5}
	k.json = 80
	k.info = 1
	w := r.world(k)
	f := r.st.F
	fs := r.s.fs
	mut := func(path string, b []byte) {
		if b2 := w.mangle(f, b, corruptKind(w, path)); string(b2) != string(b) {
			fs.Put(path, b2)
			r.s.count("bytes:" + corruptKind(w, path))
			r.s.note0(fmt.Sprintf("damaged %s: %q", path, clip(string(b2), 4000)))
		}
	}
	mode := f.N(6)
	ins := w.inputs()
	if mode < 3 && len(ins) > 0 {
		for n := 1 + f.N(3); n > 0; n-- {
			p := pick(f, ins)
			b, _ := fs.Get(p)
			mut(p, b)
		}
	}
	if mode == 3 { // one string, everywhere: lockfiles and advisories still agree
		r.everywhere(ins)
	}
	if f.Pct(8) { // files that include each other
		for _, l := range w.locks {
			if l.format == "requirements.txt" {
				b, _ := fs.Get(l.path)
				x := []string{filepath.Base(l.path), "./" + filepath.Base(l.path), "../" + filepath.Base(filepath.Dir(l.path)) + "/" + filepath.Base(l.path), ".", "-"}[f.N(5)]
				fs.Put(l.path, []byte(string(b)+"\n-r "+x+"\n"))
				r.s.count("bytes:include-cycle")
				r.s.note0("self include: " + x)
			}
		}
	}
	if mode == 4 {
		rate := []int{100, 40, 15}[f.N(3)]
		r.s.net.mutate = func(x *Exchange) {
			if x.status != 200 || !f.Pct(rate) {
				return
			}
			r.s.count("bytes:" + x.kind)
			if x.kind == "zip" && f.N(3) > 0 {
				x.rbody = rezip(w, f, x.rbody, func(n string, b []byte) []byte {
					if f.N(2) == 1 {
						return b
					}
					return w.mangle(f, b, "advisory")
				})
				return
			}
			x.rbody = w.mangle(f, x.rbody, x.kind)
			r.s.note0(fmt.Sprintf("answer damaged: %q", clip(string(x.rbody), 1000)))
		}
	}
	var fl *Faults
	if f.Pct(35) {
		fl = r.plan(append([]string{"cfgtmp", "stdout", "stderr"}, allRoles...)...)
	} else if f.Pct(20) { // a server that insists
		fl = r.plan([][]string{{"detail"}, {"batch"}, {"zip"}, {"zip", "batch", "detail"}}[f.N(4)]...)
		fl.persist = true
	}
	r.exec(fl, spec{offline: f.Pct(5)})
	if mode == 5 || f.Pct(10) {
		if a := r.anyArchive(); a != nil {
			p := cachePathOf(a.url)
			if b, ok := fs.Get(p); ok {
				var c map[string]any
				if f.N(2) == 0 && json.Unmarshal(b, &c) == nil && c != nil {
					var keep struct{ Body []byte }
					json.Unmarshal(b, &keep)
					c["body"] = rezip(w, f, keep.Body, func(n string, b []byte) []byte { return w.mangle(f, b, "advisory") })
					nb, _ := json.Marshal(c)
					fs.Put(p, nb)
				} else {
					fs.Put(p, w.mangle(f, b, "cache"))
				}
				r.s.count("bytes:cache")
			}
		}
		r.exec(nil, spec{offline: f.Pct(50)})
	}
	r.tag("hostile-bytes")
}

// everywhere replaces one string in all files and answers.
func (r *Run) everywhere(ins []string) {
	w, f, fs := r.w, r.st.F, r.s.fs
	if len(w.allP) == 0 {
		return
	}
	if f.N(3) == 0 { // one field of every advisory
		key, how := pick(f, osvKeys), f.N(4)
		rep := func(name string, b []byte) []byte {
			if !strings.HasSuffix(name, ".json") {
				return b
			}
			var v any
			if json.Unmarshal(b, &v) != nil {
				return b
			}
			blankKey(v, key, how)
			o, _ := json.Marshal(v)
			return o
		}
		r.s.count("bytes:field")
		r.s.note0(fmt.Sprintf("%q is emptied everywhere (%d)", key, how))
		for _, x := range ins {
			if b, ok := fs.Get(x); ok && corruptKind(w, x) == "advisory" {
				fs.Put(x, rep(x, b))
			}
		}
		r.s.net.mutate = func(x *Exchange) {
			if x.kind == "zip" {
				x.rbody = rezip(w, f, x.rbody, rep)
			} else {
				x.rbody = rep(".json", x.rbody)
			}
		}
		return
	}
	p := pick(f, w.allP)
	old := []string{p.Version, p.Eco, p.Name, p.Eco}[f.N(4)]
	if old == "" {
		return
	}
	o := pick(f, odd)
	r.s.count("bytes:everywhere")
	r.s.note0(fmt.Sprintf("%q is replaced by %q everywhere", old, o))
	q, _ := json.Marshal(o)
	jo := string(q[1 : len(q)-1])
	rep := func(name string, b []byte) []byte {
		n := o
		if strings.HasSuffix(name, ".json") {
			n = jo
		}
		return []byte(strings.ReplaceAll(string(b), old, n))
	}
	for _, x := range ins {
		if b, ok := fs.Get(x); ok {
			fs.Put(x, rep(x, b))
		}
	}
	for i := range w.csvRows {
		if x := strings.ReplaceAll(w.csvRows[i], old, o); !strings.HasPrefix(x, "-") {
			w.csvRows[i] = x // (a row that looks like a flag is a usage error)
		}
	}
	r.s.net.mutate = func(x *Exchange) {
		switch x.kind {
		case "zip":
			x.rbody = rezip(w, f, x.rbody, rep)
		default:
			x.rbody = rep(".json", x.rbody)
		}
	}
}

var osvKeys = []string{"id", "aliases", "affected", "package", "name", "ecosystem", "versions", "ranges", "type", "events",
	"introduced", "fixed", "last_affected", "limit", "summary", "details", "withdrawn", "modified", "published", "references", "url", "results", "vulns", "aliases", "affected", "events"}

func corruptKind(w *World, path string) string {
	for _, l := range w.locks {
		if l.path == path {
			return l.format
		}
	}
	if strings.HasSuffix(path, ".json") {
		return "advisory"
	}
	if strings.Contains(path, "osv-detector") {
		return "config"
	}
	return "included"
}
