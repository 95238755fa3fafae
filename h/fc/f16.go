package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
	"verifh/sfnt"
)

const confsDir = "/repo/fontconfig/confs"

// ------------------------------------------------------------------ independent reader of the rule files

type xelem struct {
	name string
	attr map[string]string
	kids []*xelem
	text string
}

func readXML(b []byte) *xelem {
	d := xml.NewDecoder(bytes.NewReader(b))
	root := &xelem{}
	stack := []*xelem{root}
	for {
		tok, err := d.Token()
		if err != nil {
			break
		}
		top := stack[len(stack)-1]
		switch tok := tok.(type) {
		case xml.StartElement:
			e := &xelem{name: tok.Name.Local, attr: map[string]string{}}
			for _, a := range tok.Attr {
				e.attr[a.Name.Local] = a.Value
			}
			top.kids = append(top.kids, e)
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			top.text += string(tok)
		}
	}
	if len(root.kids) != 1 || root.kids[0].name != "fontconfig" {
		panic("invalid rule file")
	}
	return root.kids[0]
}

func (e *xelem) expr() *xnode {
	switch e.name {
	case "string":
		return &xnode{op: "value", v: fc.String(e.text)}
	case "int":
		i, err := strconv.Atoi(strings.TrimSpace(e.text))
		if err != nil {
			panic(err)
		}
		return &xnode{op: "value", v: fc.Int(i)}
	case "double":
		f, err := strconv.ParseFloat(strings.TrimSpace(e.text), 32)
		if err != nil {
			panic(err)
		}
		return &xnode{op: "value", v: fc.Float(f)}
	case "bool":
		v, ok := map[string]fc.Bool{"true": fc.True, "false": fc.False}[strings.TrimSpace(e.text)]
		if !ok {
			panic("bool " + e.text)
		}
		return &xnode{op: "value", v: v}
	case "const":
		if _, ok := xconsts[e.text]; !ok {
			panic("constant " + e.text)
		}
		return &xnode{op: "const", text: e.text}
	case "name":
		t := e.attr["target"]
		if t == "default" {
			t = ""
		}
		return &xnode{op: "name", text: strings.TrimSpace(e.text), target: t}
	case "and", "less", "more", "divide", "times", "matrix":
		n := &xnode{op: e.name}
		for _, k := range e.kids {
			n.kids = append(n.kids, k.expr())
		}
		return n
	}
	panic("element " + e.name)
}

func (e *xelem) families() (out []string) {
	for _, k := range e.kids {
		if k.name != "family" {
			panic("element " + k.name)
		}
		out = append(out, k.text)
	}
	return
}

type confRule struct {
	xrule
	file string
}

type confSelector struct {
	accept bool
	vals   map[string]fc.Value
}

// readConfs reads the rules of the files whose name starts with a digit, in the order of their names
func readConfs() (rules []confRule, selectors []confSelector) {
	files, err := filepath.Glob(filepath.Join(confsDir, "[0-9]*.conf"))
	if err != nil || len(files) == 0 {
		panic("no rule file in " + confsDir)
	}
	for _, f := range files { // sorted by Glob
		b, err := ioutil.ReadFile(f)
		if err != nil {
			panic(err)
		}
		for _, e := range readXML(b).kids {
			switch e.name {
			case "description":
			case "match":
				r := confRule{file: filepath.Base(f)}
				r.target = e.attr["target"]
				for _, k := range e.kids {
					switch k.name {
					case "test":
						t := xtest{name: k.attr["name"], qual: k.attr["qual"], compare: k.attr["compare"], target: k.attr["target"], blanks: k.attr["ignore-blanks"] == "true"}
						if len(k.kids) != 1 {
							panic(fmt.Sprintf("%s: test with %d expressions", f, len(k.kids)))
						}
						t.expr = k.kids[0].expr()
						r.tests = append(r.tests, t)
					case "edit":
						ed := xedit{name: k.attr["name"], mode: k.attr["mode"], binding: k.attr["binding"]}
						for _, x := range k.kids {
							ed.exprs = append(ed.exprs, x.expr())
						}
						r.edits = append(r.edits, ed)
					default:
						panic(f + ": element " + k.name)
					}
				}
				rules = append(rules, r)
			case "alias":
				r := confRule{file: filepath.Base(f)}
				r.alias, r.binding = true, e.attr["binding"]
				n := 0
				for _, k := range e.kids {
					switch k.name {
					case "family":
						r.family = k.text
						n++
					case "prefer":
						r.prefer = append(r.prefer, k.families()...)
					case "accept":
						r.accept = append(r.accept, k.families()...)
					case "default":
						r.defaulv = append(r.defaulv, k.families()...)
					default:
						panic(f + ": element " + k.name)
					}
				}
				if n != 1 {
					panic(fmt.Sprintf("%s: alias with %d families", f, n))
				}
				rules = append(rules, r)
			case "selectfont":
				for _, k := range e.kids {
					for _, p := range k.kids {
						if p.name != "pattern" {
							panic(f + ": element " + p.name)
						}
						s := confSelector{accept: k.name == "acceptfont", vals: map[string]fc.Value{}}
						for _, pe := range p.kids {
							s.vals[pe.attr["name"]] = pe.kids[0].expr().v
						}
						selectors = append(selectors, s)
					}
				}
			default:
				panic(f + ": element " + e.name)
			}
		}
	}
	return
}

// ------------------------------------------------------------------ state

var (
	confRules  []confRule
	confSel    []confSelector
	confDir    *fc.Config
	confCustom map[string]fc.Object
	confFams   []string // all the families named by the rules
	confLangs  []string
	confProbes []string // effect of the standard configuration on fixed patterns, before anything else
)

func confObj(n string) fc.Object {
	if o, ok := confCustom[n]; ok {
		return o
	}
	o, ok := objOf[n]
	if !ok {
		panic("property " + n)
	}
	return o
}

func confSubst(cfg *fc.Config, p, q fc.Pattern, kind string) {
	switch kind {
	case "pattern":
		cfg.Substitute(p, q, fc.MatchQuery)
	case "font":
		cfg.Substitute(p, q, fc.MatchResult)
	default:
		cfg.Substitute(p, q, fc.MatchScan)
	}
}

const nProbes = 60

// probe number i
func confProbe(i int) string {
	kind := []string{"pattern", "font", "scan"}[i%3]
	p, q := fc.NewPattern(), fc.NewPattern()
	p.AddString(fc.FAMILY, confFams[i*37%len(confFams)])
	p.AddString(fc.LANG, confLangs[i*11%len(confLangs)])
	p.AddInt(fc.SLANT, 0)
	p.AddBool(fc.OUTLINE, i%2 == 0)
	p.AddFloat(fc.PIXEL_SIZE, float32(i))
	q.AddInt(fc.SLANT, 100)
	q.AddFloat(fc.WEIGHT, 200)
	q.AddFloat(fc.PIXEL_SIZE, 10)
	confSubst(fc.Standard, p, q, kind)
	return showPattern(p, true)
}

func setupF16(string) {
	confRules, confSel = readConfs()
	fams, langs := map[string]bool{}, map[string]bool{}
	addF := func(s string) {
		if !fams[s] {
			fams[s] = true
			confFams = append(confFams, s)
		}
	}
	for _, r := range confRules {
		if r.alias {
			addF(r.family)
			for _, s := range append(append(append([]string(nil), r.prefer...), r.accept...), r.defaulv...) {
				addF(s)
			}
		}
		for _, t := range r.tests {
			if s, ok := t.expr.v.(fc.String); ok {
				switch t.name {
				case "family":
					addF(string(s))
				case "lang":
					if !langs[string(s)] {
						langs[string(s)] = true
						confLangs = append(confLangs, string(s))
					}
				}
			}
		}
	}
	for i := 0; i < nProbes; i++ {
		confProbes = append(confProbes, confProbe(i))
	}
	confDir = fc.NewConfig()
	if err := confDir.LoadFromDir(confsDir); err != nil {
		panic(err)
	}
	var names []string
	seen := map[string]bool{}
	for _, r := range confRules {
		for _, e := range r.edits {
			if _, ok := objOf[e.name]; !ok && !seen[e.name] {
				seen[e.name] = true
				names = append(names, e.name)
			}
		}
	}
	confCustom = customObjects(confDir, names)
	for n, o := range customObjects(fc.Standard, names) {
		if confCustom[n] != o {
			panic(fmt.Sprintf("the custom property %s has different identifiers", n))
		}
	}
}

// ------------------------------------------------------------------ patterns

// evalNum gives the numeric value of a literal or constant
func evalNum(n *xnode) (float32, bool) {
	if n.op == "const" {
		return float32(xconsts[n.text]), true
	}
	if n.op == "value" {
		return num32(n.v)
	}
	return 0, false
}

func addNum(p fc.Pattern, o fc.Object, f float32) {
	if f == float32(int(f)) && (accepts(o, fc.Int(0)) && !accepts(o, fc.Float(0))) {
		p.Add(o, fc.Int(f), true)
		return
	}
	if accepts(o, fc.Float(0)) {
		p.Add(o, fc.Float(f), true)
	} else {
		p.Add(o, fc.Int(int(f)), true)
	}
}

// satisfy adds to p or q a value for which the test holds most of the time. With a nil t,
// the value is the one written in the rule.
func satisfy(t *pbt.T, kind string, te xtest, p, q fc.Pattern) {
	o := confObj(te.name)
	m := p
	if kind == "font" && te.target == "pattern" {
		m = q
	}
	pick := func(n int) int {
		if t == nil {
			return 0
		}
		return t.Intn(n)
	}
	if te.expr.op == "value" {
		if s, ok := te.expr.v.(fc.String); ok {
			v := string(s)
			if te.compare == "not_eq" {
				v = []string{"other", v}[pick(2)]
			} else if te.name == "lang" {
				v += []string{"", "", "", "-xx", "-CN"}[pick(5)]
				if pick(3) == 1 && !strings.HasPrefix(v, "und") {
					m.Add(o, mkLangset([]string{v}), true)
					return
				}
			} else if te.compare == "contains" {
				v = []string{v, v, v + " Bold", "x" + v, strings.ToUpper(v)}[pick(5)]
			} else {
				v = []string{v, v, v, strings.ToUpper(v), strings.ReplaceAll(v, " ", ""), v + "x"}[pick(6)]
			}
			m.Add(o, fc.String(v), pick(3) != 1)
			return
		}
		if b, ok := te.expr.v.(fc.Bool); ok {
			if te.compare == "not_eq" {
				b = 1 - b
			}
			if pick(6) == 5 {
				b = fc.Bool(pick(3))
			}
			m.Add(o, b, true)
			return
		}
	}
	f, ok := evalNum(te.expr)
	if !ok {
		panic("test on " + te.name)
	}
	d := map[string]float32{"": 0, "eq": 0, "less_eq": 0, "more_eq": 0, "less": -1, "more": 1, "not_eq": 1}[te.compare]
	d += []float32{0, 0, 0, 1, -1, 0.5, -0.5, 50, -20}[pick(9)]
	if accepts(o, fc.Range{}) && pick(6) == 5 {
		m.Add(o, fc.Range{Begin: f + d, End: f + d + 10}, true)
		return
	}
	addNum(m, o, f+d)
}

func (r confRule) kind() string {
	if r.alias || r.target == "" {
		return "pattern"
	}
	return r.target
}

func (r confRule) allTests() []xtest {
	if r.alias {
		return append(append([]xtest(nil), r.tests...), xtest{name: "family", target: "pattern", blanks: true, expr: &xnode{op: "value", v: fc.String(r.family)}})
	}
	return r.tests
}

// checkConf compares the effect of the three readings of the rules. It returns the rules applied.
func checkConf(t *pbt.T, std *fc.Config, kind string, p, q fc.Pattern) []int {
	before, beforeQ := descPattern(p), descPattern(q)
	t.Describe(func() string { return fmt.Sprintf("kind %s pattern %s\nquery %s", kind, before, beforeQ) })
	in := interp{p: modelOf(p), q: modelOf(q), kind: kind, obj: confObj}
	if kind == "pattern" {
		refQueryDefaults(in.p, "en")
	}
	var applied []int
	for i, r := range confRules {
		if in.rule(r.xrule) {
			applied = append(applied, i)
		}
	}
	p2 := p.Duplicate()
	t.NoPanic("Substitute", func() { confSubst(std, p, q, kind) })
	t.NoPanic("Substitute", func() { confSubst(confDir, p2, q, kind) })
	if a, b := showPattern(p, true), showPattern(p2, true); a != b {
		t.Fatalf("the embedded configuration gives\n%s\nthe rule files give\n%s", a, b)
	}
	if d := in.p.diff(p); d != "" && !in.odd {
		t.Fatalf("%s\ngot  %s\nwant %s", d, showPattern(p, true), in.p.show())
	}
	if descPattern(q) != beforeQ {
		t.Fatalf("the query was modified")
	}
	return applied
}

func checkProbe(t *pbt.T, i int) {
	t.Evals(1)
	if got := confProbe(i); got != confProbes[i] {
		t.Fatalf("the standard configuration was modified: probe %d gives\n%s\ninstead of\n%s", i, got, confProbes[i])
	}
}

var propF16 = &pbt.Prop{
	ID: "F16", Quick: 6000, Thorough: 600000,
	Rule:  "patterns built from the tests of 1 to 4 rules of the shipped files (values of the tests, neighbours of their bounds), for the three kinds of rules; scanned fonts for the selectors; non trivial when a rule applies or a selector decides. The sweep builds one pattern for each of the rules",
	Setup: setupF16,
	Sweep: func(t *pbt.T) {
		hit := map[int]bool{}
		for i, r := range confRules {
			p, q := fc.NewPattern(), fc.NewPattern()
			for _, te := range r.allTests() {
				satisfy(nil, r.kind(), te, p, q)
			}
			t.Evals(1)
			for _, k := range checkConf(t, fc.Standard, r.kind(), p, q) {
				hit[k] = true
			}
			if hit[i] {
				t.Label("rules applied by the sweep")
			}
		}
		for i := range confProbes {
			checkProbe(t, i)
		}
		if 10*len(hit) < 9*len(confRules) {
			t.Fatalf("only %d of the %d rules apply in the sweep", len(hit), len(confRules))
		}
		for _, n := range []string{"", "missing"} { // files only
			if err := fc.NewConfig().LoadFromDir(filepath.Join(confsDir, n, "x")); err == nil {
				t.Fatalf("no error for a missing directory")
			}
		}
	},
	Checks: []pbt.Check{
		{Name: "export", Weight: 2, Run: runExported},
		{Name: "rules", Weight: 10, Run: func(t *pbt.T) {
			std := fc.Standard
			switch t.Intn(6) {
			case 0:
				std = std.Copy()
			case 1: // a copy may be extended
				c := std.Copy()
				c.LoadFromMemory(strings.NewReader(`<fontconfig><match target="font"><edit name="newprop"><string>X</string></edit></match><match><edit name="family"><string>XXX</string></edit></match><match target="scan"><edit name="family"><string>XXX</string></edit></match><selectfont><rejectfont><glob>*</glob></rejectfont></selectfont></fontconfig>`))
			}
			kind := ""
			p, q := fc.NewPattern(), fc.NewPattern()
			for n := 1 + t.Size(4); n > 0; n-- {
				r := confRules[t.Intn(len(confRules))]
				if t.Chance(1, 3) {
					r = pbt.Pick(t, confRules)
					for k := 0; k < 20 && (r.alias || r.kind() == "pattern"); k++ {
						r = pbt.Pick(t, confRules)
					}
				}
				if kind == "" {
					kind = r.kind()
				}
				for _, te := range r.allTests() {
					if t.Chance(9, 10) {
						satisfy(t, kind, te, p, q)
					}
				}
			}
			if t.Chance(1, 2) {
				p.AddString(fc.FAMILY, pbt.Pick(t, confFams))
			}
			if t.Chance(1, 3) {
				p.AddString(fc.LANG, pbt.Pick(t, confLangs))
			}
			if kind == "font" && t.Chance(1, 2) {
				for _, m := range []fc.Pattern{p, q} {
					m.Add(fc.SLANT, fc.Int(pbt.Pick(t, []int{0, 100, 110})), true)
					m.Add(fc.WEIGHT, fc.Float(pbt.Pick(t, []float32{80, 100, 180, 200})), true)
					m.Add(fc.PIXEL_SIZE, fc.Float(pbt.Pick(t, []float32{6, 7.5, 12, 16})), true)
				}
				p.Add(fc.OUTLINE, fc.Bool(t.Intn(2)), true)
				p.Add(fc.SCALABLE, fc.Bool(t.Intn(2)), true)
				p.Add(fc.SIZE, fc.Float(12), true)
			}
			key := kind + descPattern(p) + descPattern(q)
			n := len(checkConf(t, std, kind, p, q))
			if n > 0 {
				t.NonTrivial(key)
			}
			t.Label(fmt.Sprintf("%s, %d rules", kind, min(n/5*5, 20)))
			checkProbe(t, t.Intn(nProbes))
		}},
		{Name: "selectors", Weight: 1, Run: func(t *pbt.T) {
			fam := pbt.Pick(t, []string{"Foo", "LMRoman10"})
			if t.Bool() {
				if s, ok := pbt.Pick(t, confSel).vals["family"].(fc.String); ok {
					fam = string(s)
				}
			}
			format := pbt.Pick(t, []string{"TrueType", "Type 1"})
			outline, scalable := fc.Bool(t.Intn(2)), fc.Bool(t.Intn(2))
			doc := fmt.Sprintf(`<fontconfig><match target="scan"><edit name="family" mode="assign"><string>%s</string></edit><edit name="fontformat" mode="assign"><string>%s</string></edit><edit name="outline" mode="assign"><bool>%v</bool></edit><edit name="scalable" mode="assign"><bool>%v</bool></edit></match></fontconfig>`,
				esc(fam), format, outline == fc.True, scalable == fc.True)
			t.Input("family %q format %s outline %d scalable %d", fam, format, outline, scalable)
			have := map[string]fc.Value{"family": fc.String(fam), "fontformat": fc.String(format), "outline": outline, "scalable": scalable}
			acc, rej := false, false
			for _, s := range confSel {
				ok := true
				for n, v := range s.vals {
					ok = ok && have[n] == v
				}
				if ok && s.accept {
					acc = true
				} else if ok {
					rej = true
				}
			}
			f := &sfnt.Font{UPM: 1000, Ascent: 800, Descent: -200, Advances: []int{500, 600}, Cmaps: []sfnt.Cmap{{Platform: 3, Encoding: 1, Format: 4, Map: map[rune]int{'A': 1}}}}
			data := f.Build()
			for i, cfg := range []*fc.Config{fc.Standard.Copy(), confDir.Copy()} {
				if err := cfg.LoadFromMemory(strings.NewReader(doc)); err != nil {
					panic(err)
				}
				fs, err := scanBytes(t, cfg, data, "f.ttf")
				if err != nil {
					t.Fatalf("error %v", err)
				}
				if want := acc || !rej; (len(fs) == 1) != want {
					t.Fatalf("%s: %d fonts, selected %v", []string{"embedded", "files"}[i], len(fs), want)
				}
			}
			t.Label(fmt.Sprintf("accepted %v rejected %v", acc, rej))
			t.NonTrivial(fmt.Sprint(fam, format, outline, scalable))
		}},
		{Name: "dir", Weight: 1, Run: checkConfDir},
	},
}

// checkConfDir loads a directory of small files: only the ones named as [0-9]*.conf, in order, with the sub directories
func checkConfDir(t *pbt.T) {
	root, err := ioutil.TempDir("", "verif-f16-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	var want []string
	var desc []string
	names := []string{"10-a.conf", "05-b.conf", "9.conf", "a.conf", "10-c.conf.bak", "README", "sub/20-d.conf", "sub/x.conf", "50/0.conf", "0dir.conf/1.conf", ".5.conf", "1.confx", "é.conf"}
	used := map[string]bool{}
	for k := t.Size(8); k > 0; k-- {
		n := pbt.Pick(t, names)
		used[n] = true
	}
	i := 0
	for n := range used {
		p := filepath.Join(root, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		ioutil.WriteFile(p, []byte(fmt.Sprintf(`<fontconfig><match target="scan"><edit name="style" mode="append"><string>%s</string></edit></match></fontconfig>`, n)), 0o644)
		i++
	}
	// a link to a file
	if t.Bool() {
		out := filepath.Join(root, "zz", "file")
		os.MkdirAll(filepath.Dir(out), 0o755)
		ioutil.WriteFile(out, []byte(`<fontconfig><match target="scan"><edit name="style" mode="append"><string>7-link.conf</string></edit></match></fontconfig>`), 0o644)
		os.Symlink(out, filepath.Join(root, "7-link.conf"))
		used["7-link.conf"] = true
	}
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		rel, _ := filepath.Rel(root, p)
		if b := filepath.Base(p); used[rel] && b[0] >= '0' && b[0] <= '9' && strings.HasSuffix(b, ".conf") {
			want = append(want, rel)
		}
		if used[rel] {
			desc = append(desc, rel)
		}
		return nil
	})
	t.Input("files %q", desc)
	cfg := fc.NewConfig()
	t.NoPanic("LoadFromDir", func() { err = cfg.LoadFromDir(root) })
	if err != nil {
		t.Fatalf("error %v", err)
	}
	p := fc.NewPattern()
	cfg.Substitute(p, nil, fc.MatchScan)
	if got := strings.Join(p.GetStrings(fc.STYLE), " "); got != strings.Join(want, " ") {
		t.Fatalf("the files loaded are %s, want %s", got, want)
	}
	if len(want) > 0 {
		t.NonTrivial(fmt.Sprint(desc))
	}
	// an invalid file is an error
	ioutil.WriteFile(filepath.Join(root, "3-bad.conf"), []byte(`<fontconfig><match>`), 0o644)
	if err := fc.NewConfig().LoadFromDir(root); err == nil {
		t.Fatalf("no error for an invalid file")
	}
}
