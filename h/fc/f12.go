package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// ------------------------------------------------------------------ XML trees

type xel struct {
	name  string
	attrs [][2]string
	text  string
	kids  []*xel
	up    *xel
}

func parseXel(doc string) *xel {
	d := xml.NewDecoder(strings.NewReader(doc))
	var root, cur *xel
	for {
		tok, err := d.Token()
		if err != nil {
			return root
		}
		switch tok := tok.(type) {
		case xml.StartElement:
			e := &xel{name: tok.Name.Local, up: cur}
			for _, a := range tok.Attr {
				if a.Name.Space != "" || a.Name.Local == "xmlns" || tok.Name.Space != "" {
					continue
				}
				e.attrs = append(e.attrs, [2]string{a.Name.Local, a.Value})
			}
			if cur == nil {
				root = e
			} else {
				cur.kids = append(cur.kids, e)
			}
			cur = e
		case xml.EndElement:
			if len(cur.kids) > 0 {
				cur.text = ""
			}
			cur = cur.up
		case xml.CharData:
			if cur != nil {
				cur.text += string(tok)
			}
		}
	}
}

func (e *xel) render(b *strings.Builder) {
	b.WriteString("<" + e.name)
	for _, a := range e.attrs {
		b.WriteString(" " + a[0] + `="` + esc(a[1]) + `"`)
	}
	b.WriteString(">")
	b.WriteString(esc(e.text))
	for _, k := range e.kids {
		k.render(b)
	}
	b.WriteString("</" + e.name + ">")
	if e.name == "match" || e.name == "alias" || e.name == "selectfont" {
		b.WriteString("\n")
	}
}

func (e *xel) String() string {
	var b strings.Builder
	e.render(&b)
	return b.String()
}

func (e *xel) walk(f func(e *xel)) {
	f(e)
	for _, k := range e.kids {
		k.walk(f)
	}
}

func (e *xel) find(names ...string) (out []*xel) {
	e.walk(func(x *xel) {
		for _, n := range names {
			if x.name == n {
				out = append(out, x)
			}
		}
	})
	return
}

func (e *xel) attr(k string) string {
	for _, a := range e.attrs {
		if a[0] == k {
			return a[1]
		}
	}
	return ""
}

func (e *xel) set(k, v string) {
	for i, a := range e.attrs {
		if a[0] == k {
			e.attrs[i][1] = v
			return
		}
	}
	e.attrs = append(e.attrs, [2]string{k, v})
}

func (e *xel) del(k string) {
	for i, a := range e.attrs {
		if a[0] == k {
			e.attrs = append(e.attrs[:i], e.attrs[i+1:]...)
			return
		}
	}
}

func (e *xel) insert(at int, k *xel) {
	k.up = e
	e.kids = append(e.kids[:at], append([]*xel{k}, e.kids[at:]...)...)
}

func leafEl(name, text string) *xel { return &xel{name: name, text: text} }

func (e *xel) clone() *xel {
	out := *e
	out.attrs = append([][2]string(nil), e.attrs...)
	out.kids = nil
	for _, k := range e.kids {
		c := k.clone()
		c.up = &out
		out.kids = append(out.kids, c)
	}
	return &out
}

// ------------------------------------------------------------------ documents

var confDocs []string

func loadConfDocs() {
	if confDocs != nil {
		return
	}
	l, _ := filepath.Glob("/repo/fontconfig/confs/*.conf")
	sort.Strings(l)
	for _, f := range l {
		if b, err := ioutil.ReadFile(f); err == nil && len(b) < 9000 {
			confDocs = append(confDocs, string(b))
		}
	}
}

func patelt(t *pbt.T) *xel {
	name, kind := "", ""
	e := &xel{name: "patelt"}
	pick := pbt.Pick(t, [][2]string{{"family", "string"}, {"style", "string"}, {"weight", "num"}, {"slant", "int"}, {"size", "num"}, {"scalable", "bool"},
		{"lang", "lang"}, {"charset", "charset"}, {"pixelsize", "fnum"}, {"fontformat", "string"}, {"outline", "bool"}, {"index", "int"}, {"va", "any"}, {"foundry", "string"}, {"spacing", "int"}})
	name, kind = pick[0], pick[1]
	e.attrs = [][2]string{{"name", name}}
	for n := t.Weighted(1, 8, 2); n > 0; n-- {
		k := kind
		if k == "any" {
			k = pbt.Pick(t, []string{"string", "num", "bool", "lang", "charset", "int"})
		}
		var v *xel
		switch k {
		case "string":
			v = leafEl("string", pbt.Pick(t, []string{"Ahem", "ahem", "Fixed", "Foo", "PCF", "CFF", "TrueType", "Regular", "Misc", ""}))
		case "int":
			v = leafEl("int", pbt.Pick(t, []string{"0", "100", "1", "110"}))
			if name == "slant" && t.Bool() {
				v = leafEl("const", pbt.Pick(t, []string{"roman", "italic", "Oblique"}))
			}
		case "fnum", "num":
			switch {
			case k == "num" && t.Chance(1, 3):
				v = &xel{name: "range", kids: []*xel{leafEl("int", pbt.Pick(t, []string{"0", "80"})), leafEl("double", pbt.Pick(t, []string{"80", "80.5", "200"}))}}
			case name == "weight" && t.Chance(1, 3):
				v = leafEl("const", pbt.Pick(t, []string{"bold", "regular", "normal", "light"}))
			case t.Bool():
				v = leafEl("int", pbt.Pick(t, []string{"16", "80", "200", "0", "6", "75"}))
			default:
				v = leafEl("double", pbt.Pick(t, []string{"16", "80", "200.5", "0", "1e2"}))
			}
		case "bool":
			v = leafEl("bool", pbt.Pick(t, []string{"true", "false", "yes", "no", "on", "off", "dontcare"}))
		case "lang":
			v = leafEl("string", pbt.Pick(t, []string{"en", "fr", "ja", "xx"}))
			if t.Bool() {
				v = &xel{name: "langset", kids: []*xel{v}}
			}
		case "charset":
			v = &xel{name: "charset"}
			for k := 1 + t.Intn(2); k > 0; k-- {
				if t.Bool() {
					v.kids = append(v.kids, leafEl("int", pbt.Pick(t, []string{"65", "20000", "0", "128512"})))
				} else {
					v.kids = append(v.kids, &xel{name: "range", kids: []*xel{leafEl("int", "48"), leafEl("int", pbt.Pick(t, []string{"48", "57", "900"}))}})
				}
			}
		}
		e.kids = append(e.kids, v)
	}
	return e
}

func genSelectFont(t *pbt.T, globs []string) *xel {
	s := &xel{name: "selectfont"}
	for n := 1 + t.Size(3); n > 0; n-- {
		l := &xel{name: pbt.Pick(t, []string{"acceptfont", "rejectfont", "rejectfont"})}
		for k := t.Weighted(1, 6, 2); k > 0; k-- {
			if t.Chance(1, 3) {
				l.kids = append(l.kids, leafEl("glob", pbt.Pick(t, globs)))
				continue
			}
			p := &xel{name: "pattern"}
			for j := t.Weighted(1, 8, 3); j > 0; j-- {
				p.kids = append(p.kids, patelt(t))
			}
			l.kids = append(l.kids, p)
		}
		s.kids = append(s.kids, l)
	}
	return s
}

var someGlobs = []string{"*", "/x/*", "?ont", "[ab]*", "", "[", "contentA", "content?", "f*", "font.otf", "a?.ttf", "*.otf"}

// setParents restores the up links
func (e *xel) setParents() *xel {
	for _, k := range e.kids {
		k.up = e
		k.setParents()
	}
	return e
}

func genDoc(t *pbt.T, confs bool) *xel {
	if confs && t.Chance(1, 8) && len(confDocs) > 0 {
		return parseXel(pbt.Pick(t, confDocs)).setParents()
	}
	var rules []xrule
	for k := t.Size(4); k > 0; k-- {
		rules = append(rules, genXRule(t))
	}
	root := parseXel(xdoc(rules))
	for t.Chance(1, 3) {
		root.insert(t.Intn(len(root.kids)+1), genSelectFont(t, someGlobs))
	}
	return root.setParents()
}

// ------------------------------------------------------------------ effects

const declCustom = `<fontconfig><match><test name="va"><int>1</int></test><test name="vb"><int>1</int></test></match></fontconfig>`

func newDeclared() (*fc.Config, map[string]fc.Object) {
	cfg := fc.NewConfig()
	if err := cfg.LoadFromMemory(strings.NewReader(declCustom)); err != nil {
		panic(err)
	}
	return cfg, customObjects(cfg, []string{"va", "vb"})
}

type probe struct{ p, q fc.Pattern }

func genProbes(t *pbt.T, custom map[string]fc.Object) (out []probe) {
	for n := 1 + t.Intn(2); n > 0; n-- {
		out = append(out, probe{xpattern(t, custom), xpattern(t, custom)})
	}
	return
}

func substitute(c *fc.Config, kind int, p, q fc.Pattern) {
	switch kind {
	case 0:
		c.Substitute(p, q, fc.MatchQuery)
	case 1:
		c.Substitute(p, q, fc.MatchResult)
	case 2:
		c.Substitute(p, q, fc.MatchScan)
	}
}

var smallFont []byte

func selectorFont() []byte {
	if smallFont == nil {
		b, err := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_ROOT"), "fonts", "weasyprint.otf"))
		if err != nil {
			panic(err)
		}
		smallFont = b
	}
	return smallFont
}

// effect is everything the configuration does on the probes
func effect(t *pbt.T, c *fc.Config, probes []probe, fonts bool) string {
	var b strings.Builder
	for _, pr := range probes {
		for kind := 0; kind < 3; kind++ {
			p := pr.p.Duplicate()
			t.NoPanic("Substitute", func() { substitute(c, kind, p, pr.q) })
			b.WriteString(showPattern(p, true) + "--\n")
		}
	}
	if fonts {
		var fs fc.Fontset
		var err error
		t.NoPanic("ScanFontRessource", func() { fs, err = c.ScanFontRessource(bytes.NewReader(selectorFont()), "contentA") })
		fmt.Fprintf(&b, "%d fonts, error %v\n", len(fs), err != nil)
		if len(fs) > 0 {
			b.WriteString(showPattern(fs[0], true))
		}
		b.WriteString(scannedFiles(t, c))
	}
	return b.String()
}

// scannedFiles lists the files of a small directory which are accepted
func scannedFiles(t *pbt.T, c *fc.Config) string {
	dir, err := ioutil.TempDir("", "verif-f12-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(wd)
	if err := os.Chdir(dir); err != nil { // relative paths, to be matched by the globs
		panic(err)
	}
	for _, name := range []string{"font.otf", "a1.ttf", "contentB"} {
		if err := ioutil.WriteFile(name, selectorFont(), 0o600); err != nil {
			panic(err)
		}
	}
	var fs fc.Fontset
	t.NoPanic("ScanFontDirectories", func() { fs, err = c.ScanFontDirectories(".") })
	out := fmt.Sprintf("error %v:", err != nil)
	for _, p := range fs {
		out += " " + p.FaceID().File
	}
	return out + "\n"
}

func load(t *pbt.T, c *fc.Config, doc string) error {
	var err error
	t.NoPanic("LoadFromMemory", func() { err = c.LoadFromMemory(strings.NewReader(doc)) })
	return err
}

// ------------------------------------------------------------------ invalid constructs

type breaker struct {
	name string
	// do applies the mutation and returns the document, or "" when it does not apply
	do func(t *pbt.T, root *xel) string
}

func onOne(names []string, f func(t *pbt.T, e *xel) bool) func(t *pbt.T, root *xel) string {
	return func(t *pbt.T, root *xel) string {
		l := root.find(names...)
		if len(l) == 0 {
			return ""
		}
		e := pbt.Pick(t, l)
		if !f(t, e) {
			return ""
		}
		return root.String()
	}
}

func setText(texts ...string) func(t *pbt.T, e *xel) bool {
	return func(t *pbt.T, e *xel) bool { e.text = pbt.Pick(t, texts); return true }
}

func setAttr(k string, vals ...string) func(t *pbt.T, e *xel) bool {
	return func(t *pbt.T, e *xel) bool { e.set(k, pbt.Pick(t, vals)); return true }
}

func addKid(kids ...*xel) func(t *pbt.T, e *xel) bool {
	return func(t *pbt.T, e *xel) bool {
		e.insert(t.Intn(len(e.kids)+1), pbt.Pick(t, kids).clone())
		return true
	}
}

func dropKid(t *pbt.T, e *xel) bool {
	if len(e.kids) == 0 {
		return false
	}
	i := t.Intn(len(e.kids))
	e.kids = append(e.kids[:i], e.kids[i+1:]...)
	return true
}

func isDelete(e *xel) bool { return strings.HasPrefix(e.attr("mode"), "delete") }

var anyContainer = []string{"fontconfig", "match", "alias", "test", "edit", "selectfont", "acceptfont", "rejectfont", "pattern", "patelt", "prefer", "accept", "default", "matrix", "plus", "if", "or", "langset", "int", "string", "bool"}
var operators = []string{"test", "edit", "or", "and", "eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains", "plus", "minus", "times", "divide", "if", "matrix"}

// wrongly typed values of properties
var wrongTyped = map[string][]*xel{
	"family": {leafEl("int", "1"), leafEl("bool", "true"), leafEl("double", "1.5")}, "weight": {leafEl("string", "bold"), leafEl("bool", "true")},
	"antialias": {leafEl("string", "true"), leafEl("int", "1")}, "slant": {leafEl("string", "roman"), leafEl("bool", "true")},
	"pixelsize": {leafEl("string", "12"), leafEl("bool", "no")}, "lang": {leafEl("int", "1"), leafEl("bool", "true")},
	"charset": {leafEl("int", "65"), leafEl("string", "A")}, "matrix": {leafEl("int", "1"), leafEl("string", "x")}, "style": {leafEl("double", "1")},
}

func wrongFor(t *pbt.T) (string, *xel) {
	var names []string
	for n := range wrongTyped {
		names = append(names, n)
	}
	sort.Strings(names)
	n := pbt.Pick(t, names)
	return n, pbt.Pick(t, wrongTyped[n]).clone()
}

var breakers = []breaker{
	{"unknown element", onOne(anyContainer, addKid(leafEl("foo", ""), leafEl("Match", ""), leafEl("strings", "x"), leafEl("tests", "")))},
	{"unsupported element", onOne([]string{"fontconfig", "match", "edit"}, addKid(leafEl("dir", "/x"), leafEl("cachedir", "/x"), leafEl("include", "x"), leafEl("config", ""), leafEl("remap-dir", ""), leafEl("reset-dirs", ""), leafEl("cache", "x")))},
	{"unknown attribute", onOne(anyContainer, setAttr("foo", "x", "any"))},
	{"match target", onOne([]string{"match"}, setAttr("target", "fonts", "Pattern", "default", "any"))},
	{"test target", onOne([]string{"test"}, setAttr("target", "fonts", "query", "Font"))},
	{"name target", onOne([]string{"name"}, setAttr("target", "fonts", "result", "Pattern"))},
	{"qual", onOne([]string{"test"}, setAttr("qual", "some", "last", "Any"))},
	{"compare", onOne([]string{"test"}, setAttr("compare", "==", "equal", "Eq", "listing"))},
	{"ignore-blanks", onOne([]string{"test"}, setAttr("ignore-blanks", "maybe", "5", "oz"))},
	{"mode", onOne([]string{"edit"}, setAttr("mode", "replace", "insert", "Append"))},
	{"binding", onOne([]string{"edit", "alias"}, setAttr("binding", "medium", "Strong", "default"))},
	{"missing name", onOne([]string{"edit", "test", "patelt"}, func(t *pbt.T, e *xel) bool { e.del("name"); return true })},
	{"int", onOne([]string{"int"}, setText("", "x", "1.5", "99999999999", "2147483648", "-2147483649", "--1", "1 2", "4294967297"))},
	{"double", onOne([]string{"double"}, setText("", "x", "1.2.3", "1,5", "--1"))},
	{"bool", onOne([]string{"bool"}, setText("", "maybe", "ozz", "5", "o"))},
	{"if operands", onOne([]string{"if"}, func(t *pbt.T, e *xel) bool {
		if t.Bool() {
			return dropKid(t, e) && (t.Bool() || dropKid(t, e))
		}
		return addKid(leafEl("int", "1"), leafEl("bool", "true"), leafEl("string", "x"))(t, e)
	})},
	{"matrix elements", onOne([]string{"matrix"}, func(t *pbt.T, e *xel) bool {
		if t.Bool() {
			return dropKid(t, e)
		}
		return addKid(leafEl("int", "1"))(t, e)
	})},
	{"range elements", onOne([]string{"range"}, func(t *pbt.T, e *xel) bool {
		if t.Bool() {
			return dropKid(t, e)
		}
		return addKid(leafEl("int", "1"), leafEl("string", "1"))(t, e)
	})},
	{"range type", onOne([]string{"range"}, func(t *pbt.T, e *xel) bool {
		i := t.Intn(2)
		e.kids[i] = pbt.Pick(t, []*xel{leafEl("string", "1"), leafEl("bool", "true"), leafEl("name", "size")}).clone()
		return true
	})},
	{"reversed range", onOne([]string{"range"}, func(t *pbt.T, e *xel) bool {
		pair := pbt.Pick(t, [][2]string{{"200", "100"}, {"1", "0"}, {"0", "-1"}})
		for i := range e.kids {
			e.kids[i] = leafEl(pbt.Pick(t, []string{"int", "double"}), pair[i])
		}
		return true
	})},
	{"charset element", onOne([]string{"charset"}, addKid(leafEl("int", "-1"), leafEl("int", "16777216"), leafEl("int", "2000000000"), leafEl("string", "A"), leafEl("double", "65"),
		&xel{name: "range", kids: []*xel{leafEl("int", "16777200"), leafEl("int", "16777216")}}, &xel{name: "range", kids: []*xel{leafEl("int", "-5"), leafEl("int", "4")}},
		&xel{name: "range", kids: []*xel{leafEl("double", "5"), leafEl("double", "1e30")}}))},
	{"langset element", onOne([]string{"langset"}, addKid(leafEl("int", "1"), leafEl("bool", "true"), leafEl("name", "lang")))},
	{"test without value", onOne([]string{"test"}, func(t *pbt.T, e *xel) bool { e.kids = nil; return true })},
	{"test with two values", onOne([]string{"test"}, func(t *pbt.T, e *xel) bool {
		if len(e.kids) == 0 {
			return false
		}
		e.kids = append(e.kids, e.kids[0].clone())
		return true
	})},
	{"delete with a value", onOne([]string{"edit"}, func(t *pbt.T, e *xel) bool {
		e.set("mode", pbt.Pick(t, []string{"delete", "delete_all"}))
		if len(e.kids) == 0 {
			e.kids = append(e.kids, leafEl("int", "1"))
		}
		return true
	})},
	{"wrong type in test", onOne([]string{"test"}, func(t *pbt.T, e *xel) bool {
		n, v := wrongFor(t)
		e.set("name", n)
		e.kids = []*xel{v}
		return true
	})},
	{"wrong type in edit", onOne([]string{"edit"}, func(t *pbt.T, e *xel) bool {
		if isDelete(e) {
			return false
		}
		n, v := wrongFor(t)
		e.set("name", n)
		switch t.Intn(4) {
		case 0:
			v = &xel{name: "if", kids: []*xel{leafEl("bool", "true"), v, v.clone()}}
		case 1:
			v = &xel{name: "plus", kids: []*xel{v, v.clone()}}
		case 2:
			v = &xel{name: "if", kids: []*xel{leafEl("string", "true"), leafEl("name", n), leafEl("name", n)}}
		}
		e.kids = []*xel{v}
		return true
	})},
	{"wrong type in patelt", onOne([]string{"patelt"}, func(t *pbt.T, e *xel) bool {
		n, v := wrongFor(t)
		e.set("name", n)
		e.insert(t.Intn(len(e.kids)+1), v)
		return true
	})},
	{"constant", onOne([]string{"test", "edit"}, func(t *pbt.T, e *xel) bool {
		if isDelete(e) {
			return false
		}
		e.set("name", pbt.Pick(t, []string{"weight", "slant", "size", "family", "antialias"}))
		e.kids = []*xel{leafEl("const", pbt.Pick(t, []string{"boldish", "", "1", "Serif Bold"}))}
		return true
	})},
	{"constant in patelt", onOne([]string{"patelt"}, addKid(leafEl("const", "boldish"), leafEl("const", "")))},
	{"empty match", onOne([]string{"match"}, func(t *pbt.T, e *xel) bool { e.kids = nil; return true })},
	{"element in match", onOne([]string{"match"}, addKid(leafEl("int", "1"), leafEl("family", "Foo"), leafEl("string", "x"), leafEl("glob", "x"), &xel{name: "prefer", kids: []*xel{leafEl("family", "Foo")}}))},
	{"element in alias", onOne([]string{"alias"}, addKid(leafEl("int", "1"), leafEl("string", "Foo"), leafEl("glob", "x"), &xel{name: "edit", attrs: [][2]string{{"name", "family"}}, kids: []*xel{leafEl("string", "x")}}))},
	{"alias without family", onOne([]string{"alias"}, func(t *pbt.T, e *xel) bool {
		for i, k := range e.kids {
			if k.name == "family" {
				e.kids = append(e.kids[:i], e.kids[i+1:]...)
				return true
			}
		}
		return false
	})},
	{"alias with two families", onOne([]string{"alias"}, addKid(leafEl("family", "Foo")))},
	{"non family", onOne([]string{"prefer", "accept", "default"}, addKid(leafEl("string", "Foo"), leafEl("int", "1"), leafEl("const", "bold")))},
	{"selector", onOne([]string{"acceptfont", "rejectfont"}, addKid(leafEl("string", "Foo"), leafEl("int", "1"), leafEl("family", "Foo")))},
	{"element in pattern", onOne([]string{"pattern"}, addKid(leafEl("string", "Foo"), leafEl("int", "1"), leafEl("glob", "Foo"), leafEl("family", "x")))},
	{"element in patelt", onOne([]string{"patelt"}, addKid(leafEl("name", "family"), leafEl("glob", "x"), leafEl("family", "x"), &xel{name: "plus", kids: []*xel{leafEl("int", "1"), leafEl("int", "1")}}))},
	{"not an expression", onOne(operators, func(t *pbt.T, e *xel) bool {
		k := pbt.Pick(t, []*xel{leafEl("glob", "x"), {name: "pattern"}, {name: "test", attrs: [][2]string{{"name", "va"}}, kids: []*xel{leafEl("int", "1")}},
			{name: "edit", attrs: [][2]string{{"name", "va"}}, kids: []*xel{leafEl("int", "1")}}, {name: "patelt", attrs: [][2]string{{"name", "va"}}}}).clone()
		e.insert(t.Intn(len(e.kids)+1), k)
		return true
	})},
	{"scan edit of a custom property", onOne([]string{"match"}, func(t *pbt.T, e *xel) bool {
		e.set("target", "scan")
		e.kids = append(e.kids, &xel{name: "edit", attrs: [][2]string{{"name", "va"}}, kids: []*xel{leafEl("int", "1")}})
		return true
	})},
	{"truncated", func(t *pbt.T, root *xel) string {
		s := strings.TrimRight(root.String(), "\n \t")
		return s[:t.Intn(len(s))]
	}},
	{"after the root", func(t *pbt.T, root *xel) string {
		return root.String() + pbt.Pick(t, []string{"<fontconfig></fontconfig>", "x", "</fontconfig>", "<", "<!--", "<match>", "&foo;"})
	}},
	{"root", func(t *pbt.T, root *xel) string {
		root.name = pbt.Pick(t, []string{"match", "int", "family", "alias", "its", "string", "test", "edit", "fontconf", "selectfont", "plus", "description", "pattern", "const", "range"})
		if root.name == "test" || root.name == "edit" {
			root.set("name", "va")
		}
		if t.Bool() {
			root.kids = nil
			root.text = pbt.Pick(t, []string{"1", "true", "", "x"})
		}
		return root.String()
	}},
	{"tags", func(t *pbt.T, root *xel) string {
		s := root.String()
		i := strings.Index(s[t.Intn(len(s)/2):], "</")
		if i < 0 {
			return ""
		}
		return s[:i] + pbt.Pick(t, []string{"</zz>", "<zz>", "&zz;", "<<", "</fontconfig>"}) + s[i:]
	}},
}

// free mutations
func mutateTree(t *pbt.T, root *xel) {
	var all []*xel
	root.walk(func(e *xel) { all = append(all, e) })
	e := pbt.Pick(t, all)
	o := pbt.Pick(t, all)
	switch t.Intn(8) {
	case 0:
		dropKid(t, e)
	case 1:
		e.insert(t.Intn(len(e.kids)+1), o.clone())
	case 2:
		e.name = o.name
	case 3:
		e.name = pbt.Pick(t, []string{"int", "double", "bool", "string", "const", "name", "range", "matrix", "charset", "langset", "test", "edit", "match", "alias", "family", "prefer", "accept", "default", "pattern", "patelt", "glob", "selectfont", "acceptfont", "rejectfont", "if", "not", "floor", "round", "plus", "minus", "times", "divide", "or", "eq", "contains", "description", "fontconfig"})
	case 4:
		e.text = pbt.Pick(t, []string{"", "0", "1", "-1", "0.5", "1e30", "nan", "inf", "2147483647", "true", "bold", "family", "weight", "va", "vb", "lang", "charset", "x", "en"})
		if t.Bool() {
			e.kids = nil
		}
	case 5:
		e.attrs = append([][2]string(nil), o.attrs...)
	case 6:
		e.set(pbt.Pick(t, []string{"name", "target", "mode", "binding", "qual", "compare", "ignore-blanks"}),
			pbt.Pick(t, []string{"family", "weight", "va", "lang", "matrix", "charset", "pattern", "font", "scan", "default", "append", "prepend_first", "same", "delete", "all", "not_first", "first", "contains", "less", "not_contains", "true", "new-object", "eq"}))
	case 7:
		if len(e.kids) > 1 {
			i, j := t.Intn(len(e.kids)), t.Intn(len(e.kids))
			e.kids[i], e.kids[j] = e.kids[j], e.kids[i]
		}
	}
	if t.Chance(1, 3) && len(e.kids) > 0 { // the operands of e again
		e.insert(t.Intn(len(e.kids)+1), pbt.Pick(t, e.kids).clone())
	}
}

var propF12 = &pbt.Prop{
	ID: "F12", Quick: 120000, Thorough: 4000000, MaxChoices: 8000,
	Rule:        "documents made of generated rules, selectors and shipped rule files; broken in one of 44 ways which must be rejected, or mutated freely (trees and bytes); histories of loads (valid or not), copies and uses of several configurations; non trivial when the document has at least one rule or selector (broken), when the mutated document is still accepted (free), when a configuration of at least two documents is compared (histories)",
	Assumptions: []string{"the effect of a configuration is observed on two patterns for the three kinds of rules, and on the selection of one font"},
	Setup:       func(string) { loadConfDocs() },
	Checks: []pbt.Check{
		{Name: "broken", Weight: 5, Run: func(t *pbt.T) {
			br := pbt.Pick(t, breakers)
			root := genDoc(t, true)
			if len(root.kids) == 0 {
				t.Discard()
			}
			size := len(root.kids)
			before := root.String()
			doc := br.do(t, root)
			if doc == "" {
				t.Discard()
			}
			t.Input("%s\n%s", br.name, doc)
			t.Label(br.name)
			t.NonTrivial(doc)
			_ = size
			c, custom := newDeclared()
			valid := load(t, c.Copy(), before)
			if valid != nil {
				t.Fatalf("the original document is rejected: %s\n%s", valid, before)
			}
			if t.Bool() {
				load(t, c, genDoc(t, false).String())
			}
			probes := genProbes(t, custom)
			fonts := t.Chance(1, 8)
			e1 := effect(t, c, probes, fonts)
			if err := load(t, c, doc); err == nil {
				t.Fatalf("the document is accepted")
			}
			if e2 := effect(t, c, probes, fonts); e1 != e2 {
				t.Fatalf("the rejected document changes the configuration:\n%s\nwas\n%s", e2, e1)
			}
		}},
		{Name: "free", Weight: 5, Run: func(t *pbt.T) {
			root := genDoc(t, true)
			for n := t.Size(4); n > 0; n-- {
				mutateTree(t, root)
			}
			doc := root.String()
			if t.Chance(1, 4) {
				b := []byte(doc)
				for n := 1 + t.Size(3); n > 0; n-- {
					i := t.Intn(len(b))
					switch t.Intn(4) {
					case 0:
						b[i] = byte(t.Intn(256))
					case 1:
						b = append(b[:i], b[i+1:]...)
					case 2:
						j := i + t.Intn(min(len(b)-i, 60))
						b = append(b[:j], b[i:]...)
					case 3:
						b[i] ^= 1 << uint(t.Intn(8))
					}
					if len(b) == 0 {
						b = []byte(" ")
					}
				}
				doc = string(b)
			}
			t.Input("%s", doc)
			c, custom := newDeclared()
			probes := genProbes(t, custom)
			fonts := t.Chance(1, 8)
			e1 := effect(t, c, probes, fonts)
			err := load(t, c, doc)
			e2 := effect(t, c, probes, fonts)
			if err != nil {
				if e1 != e2 {
					t.Fatalf("the rejected document changes the configuration:\n%s\nwas\n%s", e2, e1)
				}
				t.Label("rejected")
				return
			}
			if e1 != e2 {
				t.NonTrivial(doc)
				t.Label("accepted, with an effect")
			}
			other, _ := newDeclared()
			if err := load(t, other, doc); err != nil {
				t.Fatalf("the document is accepted once, then rejected: %s", err)
			}
			if e3 := effect(t, other.Copy(), probes, fonts); e3 != e2 {
				t.Fatalf("the same document has two effects:\n%s\n%s", e2, e3)
			}
		}},
		{Name: "histories", Weight: 2, Run: func(t *pbt.T) {
			type state struct {
				c    *fc.Config
				docs []string
			}
			first, custom := newDeclared()
			cfgs := []*state{{c: first}}
			var log []string
			t.Describe(func() string { return strings.Join(log, "\n") })
			for n := 2 + t.Size(8); n > 0; n-- {
				i := t.Intn(len(cfgs))
				s := cfgs[i]
				switch t.Weighted(5, 2, 3, 2) {
				case 0:
					d := genDoc(t, true).String()
					log = append(log, fmt.Sprintf("config %d loads %s", i, d))
					if err := load(t, s.c, d); err != nil {
						t.Fatalf("valid document rejected: %s", err)
					}
					s.docs = append(s.docs, d)
				case 1:
					br := pbt.Pick(t, breakers)
					d := br.do(t, genDoc(t, true))
					if d == "" {
						continue
					}
					log = append(log, fmt.Sprintf("config %d loads (%s) %s", i, br.name, d))
					load(t, s.c, d) // the rejection is checked by the other check
				case 2:
					log = append(log, fmt.Sprintf("config %d is a copy of config %d", len(cfgs), i))
					cp := &state{docs: append([]string(nil), s.docs...)}
					t.NoPanic("Copy", func() { cp.c = s.c.Copy() })
					cfgs = append(cfgs, cp)
				case 3:
					log = append(log, fmt.Sprintf("config %d is used", i))
					effect(t, s.c, genProbes(t, custom), false)
				}
			}
			probes := genProbes(t, custom)
			fonts := t.Chance(1, 10) || strings.Contains(strings.Join(log, ""), "<selectfont") && t.Chance(2, 3)
			for i, s := range cfgs {
				fresh, _ := newDeclared()
				for _, d := range s.docs {
					load(t, fresh, d)
				}
				got, want := effect(t, s.c, probes, fonts), effect(t, fresh, probes, fonts)
				if got != want {
					t.Fatalf("config %d has the effect\n%s\nand its documents alone\n%s", i, got, want)
				}
				if len(s.docs) > 1 {
					t.NonTrivial(strings.Join(s.docs, "\n") + descPattern(probes[0].p))
				}
				// the rules of each document one after the other
				for kind := 0; kind < 3; kind++ {
					pr := probes[0]
					p1, p2 := pr.p.Duplicate(), pr.p.Duplicate()
					if kind == 0 { // not touched by the defaults of the queries
						lang := false
						for _, d := range s.docs {
							lang = lang || strings.Contains(d, `"lang"`) || strings.Contains(d, `"prgname"`)
						}
						if lang {
							continue
						}
					}
					substitute(s.c, kind, p1, pr.q)
					for _, d := range append([]string{"<fontconfig/>"}, s.docs...) {
						one, _ := newDeclared()
						load(t, one, d)
						substitute(one, kind, p2, pr.q)
					}
					if a, b := showPattern(p1, true), showPattern(p2, true); a != b {
						t.Fatalf("config %d: the documents together give\n%s\none after the other\n%s", i, a, b)
					}
				}
			}
		}},
	},
}
