package main

import (
	"encoding/xml"
	"fmt"
	"math"
	"os"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// ------------------------------------------------------------------ programs

// xnode is one expression
type xnode struct {
	op     string // element name
	kids   []*xnode
	v      fc.Value
	text   string // name or constant
	target string
}

type xtest struct {
	target, qual, name, compare string
	blanks                      bool
	expr                        *xnode
}

type xedit struct {
	name, mode, binding string
	exprs               []*xnode
}

type xrule struct {
	target string // pattern, font, scan
	tests  []xtest
	edits  []xedit
	// alias
	alias                   bool
	family, binding         string
	prefer, accept, defaulv []string
}

func esc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

func num(f float32) string { return fmt.Sprintf("%g", f) }

func (n *xnode) xml() string {
	switch n.op {
	case "value":
		switch v := n.v.(type) {
		case fc.Int:
			return fmt.Sprintf("<int>%d</int>", v)
		case fc.Float:
			return "<double>" + num(float32(v)) + "</double>"
		case fc.String:
			return "<string>" + esc(string(v)) + "</string>"
		case fc.Bool:
			return "<bool>" + []string{"false", "true", "dontcare"}[v] + "</bool>"
		case fc.Range:
			part := func(f float32, asInt bool) string {
				if asInt && f == float32(int(f)) {
					return fmt.Sprintf("<int>%d</int>", int(f))
				}
				return "<double>" + num(f) + "</double>"
			}
			form := int(v.Begin) / 10 // all the combinations of integers and floats
			return "<range>" + part(v.Begin, form&1 == 0) + part(v.End, form&2 == 0) + "</range>"
		case fc.Charset:
			s := "<charset>"
			for _, r := range universe {
				if v.HasChar(r) {
					s += fmt.Sprintf("<int>%d</int>", r)
				}
			}
			return s + "</charset>"
		case fc.Langset:
			s := "<langset>"
			for _, l := range tagsOf(v) {
				s += "<string>" + l + "</string>"
			}
			return s + "</langset>"
		}
		panic("value")
	case "const":
		return "<const>" + n.text + "</const>"
	case "name":
		t := ""
		if n.target != "" {
			t = ` target="` + n.target + `"`
		}
		return "<name" + t + ">" + n.text + "</name>"
	}
	s := "<" + n.op + ">"
	for _, k := range n.kids {
		s += k.xml()
	}
	return s + "</" + n.op + ">"
}

func (r xrule) xml() string {
	var b strings.Builder
	if r.alias {
		b.WriteString("<alias")
		if r.binding != "" {
			b.WriteString(` binding="` + r.binding + `"`)
		}
		b.WriteString(">")
		for _, t := range r.tests {
			b.WriteString(t.xml())
		}
		b.WriteString("<family>" + esc(r.family) + "</family>")
		for i, l := range [][]string{r.prefer, r.accept, r.defaulv} {
			e := []string{"prefer", "accept", "default"}[i]
			if len(l) == 0 {
				continue
			}
			b.WriteString("<" + e + ">")
			for _, f := range l {
				b.WriteString("<family>" + esc(f) + "</family>")
			}
			b.WriteString("</" + e + ">")
		}
		b.WriteString("</alias>\n")
		return b.String()
	}
	b.WriteString("<match")
	if r.target != "" {
		b.WriteString(` target="` + r.target + `"`)
	}
	b.WriteString(">\n")
	for _, t := range r.tests {
		b.WriteString("  " + t.xml() + "\n")
	}
	for _, e := range r.edits {
		b.WriteString(`  <edit name="` + e.name + `"`)
		if e.mode != "" {
			b.WriteString(` mode="` + e.mode + `"`)
		}
		if e.binding != "" {
			b.WriteString(` binding="` + e.binding + `"`)
		}
		b.WriteString(">")
		for _, x := range e.exprs {
			b.WriteString(x.xml())
		}
		b.WriteString("</edit>\n")
	}
	b.WriteString("</match>\n")
	return b.String()
}

func (t xtest) xml() string {
	var b strings.Builder
	b.WriteString(`<test name="` + t.name + `"`)
	for _, a := range [][2]string{{"target", t.target}, {"qual", t.qual}, {"compare", t.compare}} {
		if a[1] != "" {
			b.WriteString(` ` + a[0] + `="` + a[1] + `"`)
		}
	}
	if t.blanks {
		b.WriteString(` ignore-blanks="true"`)
	}
	b.WriteString(">" + t.expr.xml() + "</test>")
	return b.String()
}

// ------------------------------------------------------------------ interpreter

var xconsts = map[string]int32{
	"thin": 0, "extralight": 40, "light": 50, "book": 75, "regular": 80, "medium": 100, "demibold": 180, "bold": 200, "extrabold": 205, "black": 210, "heavy": 210, "semibold": 180, "ultrabold": 205, "ultralight": 40,
	"roman": 0, "italic": 100, "oblique": 110, "ultracondensed": 50, "condensed": 75, "normal": 100, "expanded": 125, "ultraexpanded": 200,
	"proportional": 0, "dual": 90, "mono": 100, "charcell": 110, "unknown": 0, "rgb": 1, "bgr": 2, "vrgb": 3, "vbgr": 4, "none": 5,
	"hintnone": 0, "hintslight": 1, "hintmedium": 2, "hintfull": 3, "lcdnone": 0, "lcddefault": 1, "lcdlight": 2, "lcdlegacy": 3,
}

type interp struct {
	p, q mpat // pattern edited, pattern of the query
	kind string
	obj  func(name string) fc.Object
	odd  bool // the program used an operation left undefined
}

func num32(v fc.Value) (float32, bool) {
	switch v := v.(type) {
	case fc.Int:
		return float32(v), true
	case fc.Float:
		return float32(v), true
	}
	return 0, false
}

// unify gives the two values a common type when it is possible
func unify(a, b fc.Value) (fc.Value, fc.Value) {
	one := func(v, w fc.Value) fc.Value {
		if f, ok := num32(v); ok {
			if _, ok := w.(fc.Range); ok {
				return fc.Range{Begin: f, End: f}
			}
			return fc.Float(f)
		}
		switch w.(type) {
		case fc.Matrix:
			if v == nil {
				return fc.Identity
			}
		case fc.Charset:
			if v == nil {
				return fc.Charset{}
			}
		case fc.Langset:
			if v == nil {
				return fc.Langset{}
			}
			if s, ok := v.(fc.String); ok {
				return mkLangset(nonEmpty(string(s)))
			}
		}
		return v
	}
	return one(a, b), one(b, a)
}

func nonEmpty(s string) []string {
	if s == "" {
		return nil
	}
	return []string{s}
}

// lowered remembers the results: the same names are compared by all the rules
func lowered(s string) string {
	return memo(lowerMemo, s, strings.ToLower)
}

func normed(s string) string { return memo(normMemo, s, normName) }

var lowerMemo, normMemo = map[string]string{}, map[string]string{}

func memo(m map[string]string, s string, f func(string) string) string {
	r, ok := m[s]
	if !ok {
		if len(m) > 10000 {
			for k := range m {
				delete(m, k)
			}
		}
		r = f(s)
		m[s] = r
	}
	return r
}

func xcompare(a fc.Value, op string, blanks bool, b fc.Value) bool {
	a, b = unify(a, b)
	not := op == "not_eq" || op == "not_contains"
	if kindOf(a) != kindOf(b) || (a == nil) != (b == nil) {
		return not
	}
	switch x := a.(type) {
	case nil:
		return op == "eq" || op == "contains"
	case fc.Float:
		y := b.(fc.Float)
		switch op {
		case "eq", "contains":
			return x == y
		case "not_eq", "not_contains":
			return x != y
		case "less":
			return x < y
		case "less_eq":
			return x <= y
		case "more":
			return x > y
		default:
			return x >= y
		}
	case fc.Bool: // false, true, and "don't care" which contains both
		y := b.(fc.Bool)
		switch op {
		case "eq":
			return x == y
		case "not_eq":
			return x != y
		case "contains", "more_eq":
			return x == y || x == fc.DontCare
		case "not_contains":
			return x != y && x != fc.DontCare
		case "less":
			return x != y && y == fc.DontCare
		case "less_eq":
			return x == y || y == fc.DontCare
		default:
			return x != y && x == fc.DontCare
		}
	case fc.String:
		s, u := string(x), string(b.(fc.String))
		ls, lu := lowered(s), lowered(u)
		eq := ls == lu
		if blanks {
			eq = normed(s) == normed(u)
		}
		switch op {
		case "eq":
			return eq
		case "not_eq":
			return !eq
		case "contains":
			return strings.Contains(ls, lu)
		case "not_contains":
			return !strings.Contains(ls, lu)
		}
	case fc.Matrix:
		switch op {
		case "eq", "contains":
			return x == b
		case "not_eq", "not_contains":
			return x != b
		}
	case fc.Charset:
		s, u := charsetRunes(x), charsetRunes(b.(fc.Charset))
		sub := true
		for r := range u {
			sub = sub && s[r]
		}
		switch op {
		case "eq":
			return s.key() == u.key()
		case "not_eq":
			return s.key() != u.key()
		case "contains":
			return sub
		case "not_contains":
			return !sub
		}
	case fc.Langset:
		s, u := tagsSet(x), tagsSet(b)
		switch op {
		case "eq":
			return s.key() == u.key()
		case "not_eq":
			return s.key() != u.key()
		case "contains":
			return s.includes(u)
		case "not_contains":
			return !s.includes(u)
		}
	case fc.Range:
		y := b.(fc.Range)
		in := x.Begin >= y.Begin && x.End <= y.End
		switch op {
		case "eq":
			return x == y
		case "not_eq":
			return x != y
		case "contains":
			return in
		case "not_contains":
			return !in
		case "less":
			return x.End < y.Begin
		case "less_eq":
			return x.End <= y.Begin
		case "more":
			return x.Begin > y.End
		case "more_eq":
			return x.Begin >= y.End
		}
	}
	return false
}

func toBool(b bool) fc.Value {
	if b {
		return fc.True
	}
	return fc.False
}

// whole numbers are integers
func (in *interp) number(f float32) fc.Value {
	if f >= math.MinInt32 && f < -math.MinInt32 && f == float32(math.Trunc(float64(f))) {
		return fc.Int(f)
	}
	return fc.Float(f)
}

func (in *interp) binary(op string, a, b fc.Value) fc.Value {
	if _, ok := compareSet[op]; ok {
		return toBool(xcompare(a, op, false, b))
	}
	a, b = unify(a, b)
	if a == nil || b == nil || kindOf(a) != kindOf(b) {
		return nil
	}
	switch x := a.(type) {
	case fc.Float:
		y := b.(fc.Float)
		switch op {
		case "plus":
			return in.number(float32(x + y))
		case "minus":
			return in.number(float32(x - y))
		case "times":
			return in.number(float32(x * y))
		case "divide":
			return in.number(float32(x / y))
		}
	case fc.Bool:
		y := b.(fc.Bool)
		switch op {
		case "or":
			return toBool(x != fc.False || y != fc.False)
		case "and":
			return toBool(x != fc.False && y != fc.False)
		}
	case fc.String:
		if op == "plus" {
			return x + b.(fc.String)
		}
	case fc.Matrix:
		y := b.(fc.Matrix)
		if op == "times" {
			return fc.Matrix{Xx: x.Xx*y.Xx + x.Xy*y.Yx, Xy: x.Xx*y.Xy + x.Xy*y.Yy, Yx: x.Yx*y.Xx + x.Yy*y.Yx, Yy: x.Yx*y.Xy + x.Yy*y.Yy}
		}
	case fc.Charset:
		s, u := charsetRunes(x), charsetRunes(b.(fc.Charset))
		switch op {
		case "plus":
			for r := range u {
				s[r] = true
			}
			return s.charset()
		case "minus":
			for r := range u {
				delete(s, r)
			}
			return s.charset()
		}
	case fc.Langset:
		s, u := tagSet{}, tagSet{}
		for _, l := range tagsOf(x) {
			s[l] = true
		}
		for _, l := range tagsOf(b) {
			u[l] = true
		}
		switch op {
		case "plus", "minus":
			for l := range u {
				if op == "plus" {
					s[l] = true
				} else {
					delete(s, l)
				}
			}
			var l []string
			for t := range s {
				l = append(l, t)
			}
			return mkLangset(l)
		}
	}
	return nil
}

var compareSet = map[string]bool{"eq": true, "not_eq": true, "less": true, "less_eq": true, "more": true, "more_eq": true, "contains": true, "not_contains": true}

func (in *interp) first(m mpat, name string) fc.Value {
	if l := m[in.obj(name)]; len(l) > 0 {
		return l[0].v
	}
	return nil
}

func (in *interp) eval(n *xnode) fc.Value {
	switch n.op {
	case "value":
		return n.v
	case "const":
		return fc.Int(xconsts[n.text])
	case "name":
		switch {
		case in.kind == "font" && n.target == "pattern":
			return in.first(in.q, n.text)
		case in.kind == "pattern" && n.target == "font":
			return nil
		}
		return in.first(in.p, n.text)
	case "matrix":
		var f [4]float32
		for i, k := range n.kids {
			x, ok := num32(in.eval(k))
			v := in.eval(k)
			if v == nil || !ok {
				return nil
			}
			f[i] = x
		}
		return fc.Matrix{Xx: f[0], Xy: f[1], Yx: f[2], Yy: f[3]}
	case "if":
		c, ok := in.eval(n.kids[0]).(fc.Bool)
		if !ok {
			return nil
		}
		if c != fc.False {
			return in.eval(n.kids[1])
		}
		return in.eval(n.kids[2])
	case "not":
		c, ok := in.eval(n.kids[0]).(fc.Bool)
		if !ok {
			return nil
		}
		return toBool(c == fc.False)
	case "floor", "ceil", "round", "trunc":
		switch x := in.eval(n.kids[0]).(type) {
		case fc.Int:
			return x
		case fc.Float:
			var f float64
			switch n.op {
			case "floor":
				f = math.Floor(float64(x))
			case "ceil":
				f = math.Ceil(float64(x))
			case "round":
				f = math.Round(float64(x))
			default:
				f = math.Trunc(float64(x))
			}
			if !(f >= math.MinInt32 && f <= math.MaxInt32) {
				in.odd = true
				return fc.Int(0)
			}
			return fc.Int(f)
		}
		return nil
	}
	// operators group from the right
	v := in.eval(n.kids[len(n.kids)-1])
	for i := len(n.kids) - 2; i >= 0; i-- {
		v = in.binary(n.op, in.eval(n.kids[i]), v)
	}
	return v
}

func insertVals(l []mval, at int, add []mval) []mval {
	out := append([]mval(nil), l[:at]...)
	out = append(out, add...)
	return append(out, l[at:]...)
}

var bindingOf = map[string]int{"": 0, "weak": 0, "strong": 1, "same": 2}

// rule runs one rule and says if it applied
func (in *interp) rule(r xrule) bool {
	target := r.target
	if target == "" || r.alias {
		target = "pattern"
	}
	if target != in.kind {
		return false
	}
	tests := r.tests
	edits := r.edits
	if r.alias {
		tests = append(append([]xtest(nil), tests...), xtest{name: "family", target: "pattern", blanks: true, expr: &xnode{op: "value", v: fc.String(r.family)}})
		strs := func(l []string) (out []*xnode) {
			for _, s := range l {
				out = append(out, &xnode{op: "value", v: fc.String(s)})
			}
			return
		}
		if len(r.prefer) > 0 {
			edits = append(edits, xedit{"family", "prepend", r.binding, strs(r.prefer)})
		}
		if len(r.accept) > 0 {
			edits = append(edits, xedit{"family", "append", r.binding, strs(r.accept)})
		}
		if len(r.defaulv) > 0 {
			edits = append(edits, xedit{"family", "append_last", r.binding, strs(r.defaulv)})
		}
	}
	// position of the value selected by the first test on a property of the edited pattern
	mark := map[fc.Object]int{}
	for _, t := range tests {
		o := in.obj(t.name)
		tt := t.target
		if tt == "" || tt == "default" {
			tt = in.kind
		}
		m := in.p
		if in.kind == "font" && tt == "pattern" {
			m = in.q
		}
		l := m[o]
		if len(l) == 0 {
			if t.qual != "all" {
				return false
			}
			delete(mark, o)
			continue
		}
		// expressions of the tests use the pattern being tested
		sub := interp{p: m, q: in.q, kind: in.kind, obj: in.obj}
		v := sub.eval(t.expr)
		in.odd = in.odd || sub.odd
		op := t.compare
		if op == "" {
			op = "eq"
		}
		found, all := -1, true
		for i, x := range l {
			if xcompare(x.v, op, t.blanks, v) {
				if found < 0 {
					found = i
				}
			} else {
				all = false
			}
		}
		if t.qual == "all" && !all {
			found = -1
		}
		if _, has := mark[o]; !has && tt == in.kind && found >= 0 {
			mark[o] = found
		}
		if found < 0 || t.qual == "first" && found != 0 || t.qual == "not_first" && found == 0 {
			return false
		}
	}
	for _, e := range edits {
		o := in.obj(e.name)
		var l []mval
		ok := true
		for _, x := range e.exprs {
			if v := in.eval(x); v != nil {
				l = append(l, mval{v, bindingOf[e.binding]})
				ok = ok && accepts(o, v)
			}
		}
		if !ok { // values of the wrong type are never stored
			l = nil
		}
		at, marked := mark[o]
		for i := range l {
			if l[i].b == 2 {
				l[i].b = 0
				if marked && e.mode != "assign_replace" && e.mode != "prepend_first" && e.mode != "append_last" {
					l[i].b = in.p[o][at].b
				}
			}
		}
		cur := in.p[o]
		switch mode := e.mode; {
		case (mode == "assign" || mode == "") && marked:
			cur = insertVals(append(append([]mval(nil), cur[:at]...), cur[at+1:]...), at, l)
			if len(l) == 0 {
				delete(mark, o)
			}
		case mode == "assign" || mode == "" || mode == "assign_replace":
			cur = l
			delete(mark, o)
		case mode == "prepend" && marked:
			cur = insertVals(cur, at, l)
			mark[o] = at + len(l)
		case mode == "prepend" || mode == "prepend_first":
			cur = insertVals(cur, 0, l)
			if marked {
				mark[o] = at + len(l)
			}
		case mode == "append" && marked:
			cur = insertVals(cur, at+1, l)
		case mode == "append" || mode == "append_last":
			cur = insertVals(cur, len(cur), l)
		case mode == "delete" && marked:
			cur = append(append([]mval(nil), cur[:at]...), cur[at+1:]...)
			delete(mark, o)
		default: // delete_all
			cur = nil
			delete(mark, o)
		}
		if len(cur) == 0 {
			delete(in.p, o)
		} else {
			in.p[o] = cur
		}
	}
	return true
}

// ------------------------------------------------------------------ generators

type xtype int

const (
	xNum xtype = iota
	xBool
	xString
	xMatrix
	xCharset
	xLangset
	xRange
	xAny
)

// properties used by the programs
var xprops = map[xtype][]string{
	xNum:     {"slant", "pixelsize", "spacing", "dpi", "hintstyle", "index", "aspect"},
	xBool:    {"antialias", "hinting", "outline", "scalable"},
	xString:  {"family", "family", "family", "style", "foundry", "fullname"},
	xMatrix:  {"matrix"},
	xCharset: {"charset"},
	xLangset: {"lang"},
	xRange:   {"weight", "width", "size"},
	xAny:     {"va", "vb"},
}

var xintProps = map[string]bool{"slant": true, "spacing": true, "hintstyle": true, "index": true}

var objOf = map[string]fc.Object{}

func init() {
	for o, n := range objName {
		objOf[n] = o
	}
}

var xtypes = []xtype{xNum, xBool, xString, xString, xMatrix, xCharset, xLangset, xRange, xAny}

var xfamilies = []string{"Foo", "foo", "F oo", "Bar", "BAR", "Baz", "serif", "Été", "été", "", "Foo Bar", "\u212Aelvin", "kelvin"}

func xliteral(t *pbt.T, ty xtype) fc.Value {
	switch ty {
	case xNum:
		if t.Bool() {
			return fc.Int(t.Range(-3, 12))
		}
		return fc.Float(pbt.Pick(t, []float32{0, 0.5, 1.5, -2.25, 12, 1e10, 0.1, 100.75, -3e9}))
	case xBool:
		return fc.Bool(t.Weighted(4, 4, 1))
	case xString:
		return fc.String(pbt.Pick(t, xfamilies))
	case xCharset:
		s := runeSet{}
		for n := 1 + t.Size(3); n > 0; n-- {
			s[pbt.Pick(t, []rune{0x20, 0x41, 0x42, 0x100, 0x10000})] = true
		}
		return s.charset()
	case xLangset:
		var l []string
		for n := 1 + t.Size(2); n > 0; n-- {
			l = append(l, pbt.Pick(t, []string{"en", "fr", "zh-cn", "zh-tw", "xx", "und", "en-us"}))
		}
		return mkLangset(l)
	case xRange:
		a := float32(t.Range(0, 20)) * 10
		return fc.Range{Begin: a, End: a + float32(t.Range(0, 8))*5}
	}
	panic("literal")
}

func xlit(v fc.Value) *xnode { return &xnode{op: "value", v: v} }

var xconstsFor = map[xtype][]string{
	xNum:   {"roman", "italic", "oblique", "mono", "charcell", "rgb", "none", "hintfull", "hintslight", "lcdlight"},
	xRange: {"thin", "light", "regular", "medium", "bold", "black", "condensed", "normal", "expanded"},
}

// genX generates a well typed expression
func genX(t *pbt.T, ty xtype, depth int, kind string) *xnode {
	if ty == xAny {
		ty = xtype(t.Intn(int(xAny)))
	}
	leaf := depth <= 0 || t.Chance(1, 2)
	if leaf {
		if t.Chance(1, 3) {
			n := &xnode{op: "name"}
			from := ty
			if ty == xRange && t.Bool() {
				from = xNum
			}
			if t.Chance(1, 3) {
				from = xAny
			}
			n.text = pbt.Pick(t, xprops[from])
			switch kind {
			case "font":
				n.target = pbt.Pick(t, []string{"", "pattern", "font", "default"})
			case "pattern":
				n.target = pbt.Pick(t, []string{"", "pattern", "pattern", "font"})
			default:
				n.target = pbt.Pick(t, []string{"", "default"})
			}
			return n
		}
		if l := xconstsFor[ty]; l != nil && t.Chance(1, 4) {
			return &xnode{op: "const", text: pbt.Pick(t, l)}
		}
		switch ty {
		case xMatrix:
			n := &xnode{op: "matrix"}
			for i := 0; i < 4; i++ {
				if t.Chance(1, 3) {
					n.kids = append(n.kids, genX(t, xNum, 1, kind))
				} else {
					n.kids = append(n.kids, xlit(fc.Float(float32(t.Range(-4, 4))/2)))
				}
			}
			return n
		case xRange:
			if t.Chance(1, 3) {
				return xlit(xliteral(t, xNum))
			}
		case xLangset:
			if t.Chance(1, 3) {
				return xlit(fc.String(pbt.Pick(t, []string{"en", "fr", "zh-tw", "xx", "und"})))
			}
		}
		return xlit(xliteral(t, ty))
	}
	nary := func(op string, ty xtype) *xnode {
		n := &xnode{op: op}
		for k := 1 + t.Weighted(1, 8, 3); k > 0; k-- {
			n.kids = append(n.kids, genX(t, ty, depth-1, kind))
		}
		return n
	}
	if t.Chance(1, 5) {
		return &xnode{op: "if", kids: []*xnode{genX(t, xBool, depth-1, kind), genX(t, ty, depth-1, kind), genX(t, ty, depth-1, kind)}}
	}
	switch ty {
	case xNum, xRange:
		if ty == xNum && t.Chance(1, 4) {
			return &xnode{op: pbt.Pick(t, []string{"floor", "ceil", "round", "trunc"}), kids: []*xnode{genX(t, xNum, depth-1, kind)}}
		}
		return nary(pbt.Pick(t, []string{"plus", "minus", "times", "divide"}), ty)
	case xBool:
		switch t.Intn(4) {
		case 0:
			return &xnode{op: "not", kids: []*xnode{genX(t, xBool, depth-1, kind)}}
		case 1:
			return nary(pbt.Pick(t, []string{"or", "and"}), xBool)
		default:
			sub := pbt.Pick(t, xtypes)
			return &xnode{op: pbt.Pick(t, csOps8), kids: []*xnode{genX(t, sub, depth-1, kind), genX(t, sub, depth-1, kind)}}
		}
	case xString:
		return nary("plus", ty)
	case xMatrix:
		return nary("times", ty)
	default:
		return nary(pbt.Pick(t, []string{"plus", "minus"}), ty)
	}
}

var csOps8 = []string{"eq", "not_eq", "less", "less_eq", "more", "more_eq", "contains", "not_contains"}

func genXTest(t *pbt.T, kind string) xtest {
	ty := pbt.Pick(t, xtypes)
	x := xtest{name: pbt.Pick(t, xprops[ty])}
	x.qual = pbt.Pick(t, []string{"", "", "any", "all", "first", "not_first"})
	x.compare = pbt.Pick(t, []string{"", "", "eq", "eq", "not_eq", "contains", "not_contains", "less", "less_eq", "more", "more_eq"})
	if kind == "font" {
		x.target = pbt.Pick(t, []string{"", "pattern", "font", "default"})
	} else {
		x.target = pbt.Pick(t, []string{"", "", "default", kind})
	}
	x.blanks = t.Chance(1, 4)
	d := 0
	if t.Chance(1, 4) {
		d = 2
	}
	x.expr = genX(t, ty, d, kind)
	return x
}

func genXEdit(t *pbt.T, kind string, tests []xtest) xedit {
	ty := pbt.Pick(t, xtypes)
	if kind == "scan" && ty == xAny {
		ty = xString
	}
	e := xedit{name: pbt.Pick(t, xprops[ty])}
	if len(tests) > 0 && t.Chance(2, 3) { // edit a tested property
		n := pbt.Pick(t, tests).name
		for k, l := range xprops {
			for _, x := range l {
				if x == n && (kind != "scan" || k != xAny) {
					e.name, ty = n, k
				}
			}
		}
	}
	e.mode = pbt.Pick(t, []string{"", "assign", "assign", "assign_replace", "prepend", "prepend", "prepend_first", "append", "append", "append_last", "delete", "delete_all"})
	e.binding = pbt.Pick(t, []string{"", "weak", "strong", "same", "same"})
	if !strings.HasPrefix(e.mode, "delete") {
		for n := t.Weighted(1, 10, 3, 1); n > 0; n-- {
			e.exprs = append(e.exprs, genX(t, ty, t.Intn(3), kind))
		}
	}
	return e
}

func genXRule(t *pbt.T) xrule {
	if t.Chance(1, 5) {
		r := xrule{alias: true, target: "pattern", family: pbt.Pick(t, xfamilies), binding: pbt.Pick(t, []string{"", "weak", "strong", "same"})}
		list := func() (out []string) {
			for n := t.Weighted(2, 3, 1); n > 0; n-- {
				out = append(out, pbt.Pick(t, xfamilies))
			}
			return
		}
		r.prefer, r.accept, r.defaulv = list(), list(), list()
		if t.Chance(1, 6) {
			r.tests = append(r.tests, genXTest(t, "pattern"))
		}
		if len(r.prefer)+len(r.accept)+len(r.defaulv) == 0 {
			r.prefer = []string{"Foo"}
		}
		return r
	}
	r := xrule{target: pbt.Pick(t, []string{"pattern", "pattern", "font", "font", "scan", ""})}
	kind := r.target
	if kind == "" {
		kind = "pattern"
	}
	for n := t.Weighted(2, 6, 2, 1); n > 0; n-- {
		r.tests = append(r.tests, genXTest(t, kind))
	}
	for n := 1 + t.Weighted(5, 3, 1, 1); n > 0; n-- {
		r.edits = append(r.edits, genXEdit(t, kind, r.tests))
	}
	return r
}

func xpattern(t *pbt.T, custom map[string]fc.Object) fc.Pattern {
	p := fc.NewPattern()
	for _, ty := range xtypes {
		for _, name := range xprops[ty] {
			o := objOf[name]
			if ty == xAny {
				o = custom[name]
			}
			if !t.Chance(1, 3) || p[o] != nil {
				continue
			}
			for n := 1 + t.Weighted(3, 2, 1); n > 0; n-- {
				vt := ty
				if ty == xAny {
					vt = xtype(t.Intn(int(xAny)))
				}
				var v fc.Value
				switch vt {
				case xMatrix:
					v = fc.Matrix{Xx: 1, Yy: float32(t.Intn(3))}
				case xNum:
					v = xliteral(t, xNum)
					if _, ok := v.(fc.Float); ok && xintProps[name] {
						v = fc.Int(3)
					}
				case xRange:
					v = pbt.Pick(t, []fc.Value{fc.Int(80), fc.Float(80), fc.Int(200), fc.Range{Begin: 0, End: 100}, fc.Range{Begin: 80, End: 80}})
				case xLangset:
					v = xliteral(t, xLangset)
					if t.Chance(1, 3) {
						v = fc.String(pbt.Pick(t, []string{"en", "fr", "und", "xx"}))
					}
				default:
					v = xliteral(t, vt)
				}
				p.Add(o, v, true)
			}
			for i := range *p[o] {
				(*p[o])[i].Binding = 1
				if t.Chance(1, 3) {
					(*p[o])[i].Binding = 0
				}
			}
		}
	}
	return p
}

func modelOf(p fc.Pattern) mpat {
	m := mpat{}
	for o := range p {
		m[o] = mlist(p, o)
	}
	return m
}

func xdoc(rules []xrule) string {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\"?>\n<!DOCTYPE fontconfig SYSTEM \"urn:fontconfig:fonts.dtd\">\n<fontconfig>\n<description>generated</description>\n")
	for _, r := range rules {
		b.WriteString(r.xml())
	}
	b.WriteString("</fontconfig>\n")
	return b.String()
}

// refQueryDefaults adds the default language and program of the queries
func refQueryDefaults(m mpat, lang string) {
	has := false
	for _, v := range m[fc.LANG] {
		switch x := v.v.(type) {
		case fc.Langset:
			s := tagsSet(x)
			has = has || s.contains(lang) || s.contains("und")
		case fc.String:
			has = has || strings.EqualFold(string(x), lang) || strings.EqualFold(string(x), "und")
		}
	}
	if !has {
		m[fc.LANG] = append(m[fc.LANG], mval{fc.String(lang), 0})
	}
	if len(m[fc.PRGNAME]) == 0 {
		exe, _ := os.Executable()
		m[fc.PRGNAME] = []mval{{fc.String(exe), 1}}
	}
}

var propF10 = &pbt.Prop{
	ID: "F10", Quick: 250000, Thorough: 5000000, MaxChoices: 6000,
	Rule:        "configurations of 1 to 3 documents of up to 6 rules (tests with every qualifier, comparison and target; edits with every mode and binding; nested typed expressions; aliases), applied for the three kinds to random patterns; non trivial when at least one rule with edits applies (labels count how many)",
	Assumptions: []string{"integers stay below 2^24", "rounding a number outside of the 32 bit integers is not compared"},
	Checks: []pbt.Check{
		{Name: "programs", Weight: 1, Run: func(t *pbt.T) { runF10(t, false) }},
		{Name: "families", Weight: 1, Run: func(t *pbt.T) { runF10(t, true) }},
	},
}

// genFamilyRule is a rule about one or two properties, with few values: the rules
// often apply, and depend on the previous ones
func genFamilyRule(t *pbt.T, names []string) xrule {
	fams := func(max int) (out []string) {
		for n := t.Range(0, max); n > 0; n-- {
			out = append(out, pbt.Pick(t, smallFamilies))
		}
		return out
	}
	bind := func() string { return pbt.Pick(t, []string{"", "weak", "strong", "same"}) }
	if t.Chance(1, 5) {
		r := xrule{alias: true, target: "pattern", family: pbt.Pick(t, smallFamilies), binding: bind()}
		r.prefer, r.accept, r.defaulv = fams(1), fams(1), fams(1)
		if len(r.prefer)+len(r.accept)+len(r.defaulv) == 0 {
			r.accept = []string{"C"}
		}
		return r
	}
	r := xrule{target: pbt.Pick(t, []string{"pattern", "pattern", "", "font", "scan"})}
	kind := r.target
	if kind == "" {
		kind = "pattern"
	}
	for n := t.Weighted(2, 4, 2); n > 0; n-- {
		x := xtest{name: pbt.Pick(t, names), qual: pbt.Pick(t, []string{"", "any", "all", "all", "first", "not_first"}),
			compare: pbt.Pick(t, []string{"", "eq", "eq", "not_eq", "not_eq", "contains", "not_contains"}), blanks: t.Chance(1, 6)}
		if kind == "font" && t.Bool() {
			x.target = "pattern"
		}
		if t.Chance(1, 4) { // none of the values
			x.qual, x.compare = "all", "not_eq"
		}
		x.expr = xlit(fc.String(pbt.Pick(t, smallFamilies)))
		r.tests = append(r.tests, x)
	}
	for n := 1 + t.Weighted(4, 2, 1); n > 0; n-- {
		e := xedit{name: pbt.Pick(t, names), binding: bind(),
			mode: pbt.Pick(t, []string{"assign", "assign_replace", "prepend", "prepend_first", "append", "append_last", "delete", "delete", "delete_all"})}
		if !strings.HasPrefix(e.mode, "delete") {
			for _, s := range fams(2) {
				e.exprs = append(e.exprs, xlit(fc.String(s)))
			}
		}
		r.edits = append(r.edits, e)
	}
	return r
}

var smallFamilies = []string{"A", "A", "a", "B", "B", "C", "A B", "ab"}

func runF10(t *pbt.T, families bool) {
	cfg := fc.NewConfig()
	names := pbt.Pick(t, [][]string{{"family"}, {"family"}, {"family", "style"}, {"family", "foundry"}})
	var rules []xrule
	var docs []string
	for n := 1 + t.Weighted(4, 1, 1); n > 0; n-- {
		var l []xrule
		k := 1 + t.Size(5)
		if families && t.Bool() {
			k += 3
		}
		for ; k > 0; k-- {
			if families {
				l = append(l, genFamilyRule(t, names))
			} else {
				l = append(l, genXRule(t))
			}
		}
		rules = append(rules, l...)
		docs = append(docs, xdoc(l))
	}
	t.Describe(func() string { return strings.Join(docs, "\n") })
	for _, d := range docs {
		var err error
		t.NoPanic("LoadFromMemory", func() { err = cfg.LoadFromMemory(strings.NewReader(d)) })
		if err != nil {
			t.Fatalf("well-formed document rejected: %s", err)
		}
	}
	custom := customObjects(cfg, []string{"va", "vb"})
	obj := func(n string) fc.Object {
		if o, ok := custom[n]; ok {
			return o
		}
		return objOf[n]
	}
	used := cfg
	switch t.Intn(4) {
	case 0:
		used = cfg.Copy()
	case 1: // rules added to a copy do not reach the original
		cp := cfg.Copy()
		cp.LoadFromMemory(strings.NewReader(`<fontconfig><match target="font"><edit name="family"><string>XXX</string></edit></match><match><edit name="family"><string>XXX</string></edit></match><match target="scan"><edit name="family"><string>XXX</string></edit></match></fontconfig>`))
	}
	for n := 1 + t.Intn(2); n > 0; n-- {
		p := xpattern(t, custom)
		q := xpattern(t, custom)
		if families {
			for _, x := range []fc.Pattern{p, q} {
				for _, name := range names {
					x.Del(objOf[name])
					for n := t.Intn(4); n > 0; n-- {
						x.Add(objOf[name], fc.String(pbt.Pick(t, smallFamilies)), true)
					}
				}
			}
		}
		kind := t.Intn(3)
		if kind != 1 && t.Bool() {
			q = nil
		}
		kname := []string{"pattern", "font", "scan"}[kind]
		dp, dq := descPattern(p), descPattern(q)
		t.Describe(func() string { return fmt.Sprintf("kind %s pattern %s\nquery %s", kname, dp, dq) })
		in := interp{p: modelOf(p), q: modelOf(q), kind: kname, obj: obj}
		if kname == "pattern" {
			refQueryDefaults(in.p, "en")
		}
		applied := 0
		for _, r := range rules {
			if in.rule(r) {
				applied++
			}
		}
		bq := showPattern(q, true)
		t.NoPanic("Substitute", func() {
			switch kind {
			case 0:
				used.Substitute(p, q, fc.MatchQuery)
			case 1:
				used.Substitute(p, q, fc.MatchResult)
			case 2:
				used.Substitute(p, q, fc.MatchScan)
			}
		})
		if in.odd {
			t.Label("undefined rounding")
			return
		}
		if applied > 0 {
			t.NonTrivial(docs[0] + dp + dq + kname)
			t.Label(fmt.Sprintf("%s, %d rules applied", kname, min(applied, 4)))
		}
		if d := in.p.diff(p); d != "" {
			t.Fatalf("after Substitute %s\ngot  %s\nwant %s", d, showPattern(p, true), in.p.show())
		}
		if showPattern(q, true) != bq {
			t.Fatalf("the query was modified")
		}
	}
}
