package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// ---------------------------------------------------------------- reference distances

func normName(s string) string {
	s = strings.ToLower(s)
	return strings.Map(func(r rune) rune {
		if r == ' ' || r == '\t' {
			return -1
		}
		return r
	}, s)
}

func stripPS(s string) string {
	return strings.ToLower(strings.Map(func(r rune) rune {
		if r == ' ' || r == '-' {
			return -1
		}
		return r
	}, s))
}

func primary(l string) string { return strings.SplitN(strings.ToLower(l), "-", 2)[0] }

// 0: same language, 1: same primary language, 2: others
func refLangTag(a, b string) int {
	if strings.EqualFold(a, b) && !strings.EqualFold(a, "und") {
		return 0
	}
	if primary(a) == primary(b) && primary(a) != "und" {
		return 1
	}
	return 2
}

func tagsOf(v fc.Value) []string {
	switch v := v.(type) {
	case fc.String:
		return []string{string(v)}
	case fc.Langset:
		s := v.String()
		if s == "" {
			return nil
		}
		return strings.Split(s, "|")
	}
	panic("not a language")
}

func refLang(a, b fc.Value) float32 {
	best := 2
	for _, x := range tagsOf(a) {
		for _, y := range tagsOf(b) {
			best = min(best, refLangTag(x, y))
		}
	}
	return float32(best)
}

// glob by dynamic programming
func refGlob(glob, s string) bool {
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for i := 0; i < len(glob); i++ {
		next := make([]bool, len(s)+1)
		switch glob[i] {
		case '*':
			any := false
			for j := range cur {
				any = any || cur[j]
				next[j] = any
			}
		default:
			for j := 0; j < len(s); j++ {
				next[j+1] = cur[j] && (glob[i] == '?' || glob[i] == s[j])
			}
		}
		cur = next
	}
	return cur[len(s)]
}

func bounds(v fc.Value) (float32, float32) {
	switch v := v.(type) {
	case fc.Int:
		return float32(v), float32(v)
	case fc.Float:
		return float32(v), float32(v)
	case fc.Range:
		return v.Begin, v.End
	}
	panic("not a number")
}

func abs32(f float32) float32 { return float32(math.Abs(float64(f))) }

func gap(a, b fc.Value) float32 {
	b1, e1 := bounds(a)
	b2, e2 := bounds(b)
	if e1 < b2 || e2 < b1 {
		return float32(math.Min(float64(abs32(b2-e1)), float64(abs32(b1-e2))))
	}
	return 0
}

// best value and distance from the query's value to the font's value
type refMatcher func(q, f fc.Value) (fc.Value, float32)

func rString(q, f fc.Value) (fc.Value, float32) {
	if strings.EqualFold(string(q.(fc.String)), string(f.(fc.String))) {
		return f, 0
	}
	return f, 1
}

func rFamily(q, f fc.Value) (fc.Value, float32) {
	if normName(string(q.(fc.String))) == normName(string(f.(fc.String))) {
		return f, 0
	}
	return f, 1
}

func rPS(q, f fc.Value) (fc.Value, float32) {
	a, b := stripPS(string(q.(fc.String))), stripPS(string(f.(fc.String)))
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	if len(a) == 0 {
		if len(b) == 0 {
			return f, 0
		}
		return f, 1
	}
	return f, float32(len(a)-n) / float32(len(a))
}

func rNumber(q, f fc.Value) (fc.Value, float32) {
	a, _ := bounds(q)
	b, _ := bounds(f)
	return f, abs32(b - a)
}

func rRange(q, f fc.Value) (fc.Value, float32) {
	b1, e1 := bounds(q)
	b2, e2 := bounds(f)
	var v float32
	switch {
	case e1 < b2:
		v = b2
	case e2 < b1:
		v = e2
	default:
		lo, hi := b1, e1
		if b2 > lo {
			lo = b2
		}
		if e2 < hi {
			hi = e2
		}
		v = (lo + hi) * .5
	}
	return fc.Float(v), gap(q, f)
}

func rSize(q, f fc.Value) (fc.Value, float32) {
	b1, e1 := bounds(q)
	b2, e2 := bounds(f)
	d := gap(q, f)
	if d == 0 && b2 != e2 && b1 == e2 { // the end of a range of sizes is excluded
		d = 1e-15
	}
	return fc.Float((b1 + e1) * .5), d
}

func rBool(q, f fc.Value) (fc.Value, float32) {
	best := f
	if f.(fc.Bool) == fc.DontCare {
		best = q
	}
	if q == f {
		return best, 0
	}
	return best, 1
}

func rCharset(q, f fc.Value) (fc.Value, float32) {
	a, b := charsetRunes(q.(fc.Charset)), f.(fc.Charset)
	n := 0
	for r := range a {
		if !b.HasChar(r) {
			n++
		}
	}
	return f, float32(n)
}

func rLang(q, f fc.Value) (fc.Value, float32) { return f, refLang(q, f) }

func rFile(q, f fc.Value) (fc.Value, float32) {
	a, b := string(q.(fc.String)), string(f.(fc.String))
	switch {
	case a == b:
		return f, 0
	case strings.ToLower(a) == strings.ToLower(b):
		return f, 1
	case refGlob(a, b):
		return f, 2
	}
	return f, 3
}

// documented order of priorities
var refOrder = []struct {
	name string
	o    fc.Object
	m    refMatcher
}{
	{"file", fc.FILE, rFile}, {"fontformat", fc.FONTFORMAT, rString}, {"variable", fc.VARIABLE, rBool}, {"scalable", fc.SCALABLE, rBool},
	{"color", fc.COLOR, rBool}, {"foundry", fc.FOUNDRY, rString}, {"charset", fc.CHARSET, rCharset}, {"family/strong", fc.FAMILY, nil},
	{"postscript/strong", fc.POSTSCRIPT_NAME, nil}, {"lang", fc.LANG, rLang}, {"family/weak", fc.FAMILY, nil}, {"postscript/weak", fc.POSTSCRIPT_NAME, nil},
	{"symbol", fc.SYMBOL, rBool}, {"spacing", fc.SPACING, rNumber}, {"size", fc.SIZE, rSize}, {"pixelsize", fc.PIXEL_SIZE, rNumber},
	{"style", fc.STYLE, rString}, {"slant", fc.SLANT, rNumber}, {"weight", fc.WEIGHT, rRange}, {"width", fc.WIDTH, rRange},
	{"fonthashint", fc.FONT_HAS_HINT, rBool}, {"decorative", fc.DECORATIVE, rBool}, {"antialias", fc.ANTIALIAS, rBool},
	{"rasterizer", fc.RASTERIZER, rString}, {"outline", fc.OUTLINE, rBool}, {"order", fc.ORDER, rNumber}, {"fontversion", fc.FONTVERSION, rNumber},
}

const langPri = 9

var refMatchers = map[fc.Object]refMatcher{fc.FAMILY: rFamily, fc.POSTSCRIPT_NAME: rPS}

func init() {
	for _, m := range refOrder {
		if m.m != nil {
			refMatchers[m.o] = m.m
		}
	}
}

func vals(p fc.Pattern, o fc.Object) []fc.Value {
	var out []fc.Value
	if l := p[o]; l != nil {
		for _, e := range *l {
			out = append(out, e.Value)
		}
	}
	return out
}

// bestOf returns the closest pair of values: the position in the query weighs less than any
// difference of one unit
func bestOf(m refMatcher, q, f []fc.Value) (best fc.Value, dist float32, kf int) {
	dist = math.MaxFloat32
	for j, a := range q {
		for k, b := range f {
			v, d := m(a, b)
			if d = d*1000 + float32(j); d < dist {
				best, dist, kf = v, d, k
			}
		}
	}
	return
}

func byBinding(p fc.Pattern, o fc.Object, strong bool) (out []fc.Value, index []int) {
	for i, e := range *p[o] {
		if (e.Binding != 0) == strong {
			out = append(out, e.Value)
			index = append(index, i)
		}
	}
	return
}

// refScore is the vector of distances of a font
func refScore(q, f fc.Pattern) []float32 {
	out := make([]float32, len(refOrder))
	for i, m := range refOrder {
		if q[m.o] == nil || f[m.o] == nil {
			continue
		}
		if m.m != nil {
			_, out[i], _ = bestOf(m.m, vals(q, m.o), vals(f, m.o))
			continue
		}
		// names: strong and weak values have distinct priorities
		l, idx := byBinding(q, m.o, strings.HasSuffix(m.name, "strong"))
		best := float32(math.MaxFloat32)
		for i, a := range l {
			for _, b := range vals(f, m.o) {
				var d float32
				if m.o == fc.FAMILY {
					_, d = rFamily(a, b)
					if d != 0 {
						continue
					}
				} else {
					_, d = rPS(a, b)
				}
				if d = d*1000 + float32(idx[i]); d < best {
					best = d
				}
			}
		}
		out[i] = best
	}
	return out
}

func lessScore(a, b []float32) (less bool, pri int) {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i], i
		}
	}
	return false, -1
}

// ---------------------------------------------------------------- generators

var matchPool = map[fc.Object]func(t *pbt.T) fc.Value{
	fc.FILE: func(t *pbt.T) fc.Value {
		return fc.String(pbt.Pick(t, []string{"/f/a.ttf", "/f/A.ttf", "/f/ab.ttf", "/f/b.otf", "/g/a.ttf", "", "/f/aXttf", "/f/a.ttf.ttf"}))
	},
	fc.FONTFORMAT:      poolStr("TrueType", "CFF", "truetype", "PCF"),
	fc.FOUNDRY:         poolStr("acme", "ACME", "other", "misc", ""),
	fc.STYLE:           poolStr("Bold", "bold", "Regular", "Bold Italic", ""),
	fc.RASTERIZER:      poolStr("FreeType", "freetype", "other"),
	fc.FAMILY:          poolStr("Foo", "foo", "F oo", "Bar", "BAR", "bar\t", "Baz", "Été", "ÉTÉ", "été ", "", " ", "Foo Bar", "foobar", "serif", "\u212Aelvin", "kelvin"),
	fc.POSTSCRIPT_NAME: poolStr("Foo-Bold", "FooBold", "foo bold", "Foo-BoldItalic", "Foo", "Bar", "Bar-Foo", "", "-", "-Foo", "É-Foo"),
	fc.VARIABLE:        poolBool, fc.SCALABLE: poolBool, fc.COLOR: poolBool, fc.SYMBOL: poolBool, fc.FONT_HAS_HINT: poolBool,
	fc.DECORATIVE: poolBool, fc.ANTIALIAS: poolBool, fc.OUTLINE: poolBool,
	fc.CHARSET: func(t *pbt.T) fc.Value {
		s := runeSet{}
		for n := t.Size(5); n > 0; n-- {
			s[pbt.Pick(t, []rune{0x20, 0x41, 0x42, 0x100, 0x2000, 0x10000, 0x1F600, 0x10FFFF})] = true
		}
		return s.charset()
	},
	fc.LANG: func(t *pbt.T) fc.Value {
		if t.Chance(1, 3) {
			return fc.String(pbt.Pick(t, []string{"en", "en-us", "fr", "ku-am", "ku-tr", "zh-cn", "zh-tw", "zh", "ku", "pa", "pap-an", "xx", "xx-yy", "EN", "und-zsye"}))
		}
		var tags []string
		for n := t.Size(3); n > 0; n-- {
			tags = append(tags, pbt.Pick(t, []string{"en", "fr", "ku-am", "ku-tr", "zh-cn", "zh-tw", "zh-hk", "pa", "pap-an", "pap-aw", "xx", "xx-yy", "und-zsye", "en-us", "mn-mn"}))
		}
		return mkLangset(tags)
	},
	fc.SPACING: poolInt(0, 90, 100, 110), fc.SLANT: poolInt(0, 100, 110), fc.ORDER: poolInt(0, 1, -1, 5), fc.FONTVERSION: poolInt(0, 65536, 131072, 0x7fffffff),
	fc.PIXEL_SIZE: func(t *pbt.T) fc.Value {
		return pbt.Pick(t, []fc.Value{fc.Int(12), fc.Float(12), fc.Float(13), fc.Float(16), fc.Int(8)})
	},
	fc.SIZE: func(t *pbt.T) fc.Value {
		return pbt.Pick(t, []fc.Value{fc.Int(12), fc.Float(12), fc.Float(13), fc.Range{Begin: 8, End: 12}, fc.Range{Begin: 12, End: 20}, fc.Range{Begin: 10, End: 14}, fc.Float(20)})
	},
	fc.WEIGHT: func(t *pbt.T) fc.Value {
		return pbt.Pick(t, []fc.Value{fc.Int(80), fc.Float(80), fc.Float(100), fc.Int(200), fc.Range{Begin: 40, End: 210}, fc.Range{Begin: 80, End: 90}, fc.Int(0), fc.Range{Begin: 90, End: 200}})
	},
	fc.WIDTH: func(t *pbt.T) fc.Value {
		return pbt.Pick(t, []fc.Value{fc.Int(100), fc.Float(100), fc.Float(75), fc.Range{Begin: 75, End: 125}, fc.Int(125), fc.Range{Begin: 50, End: 75}})
	},
}

// values giving distances which are not integers: only used for one single value
var fracPool = map[fc.Object]func(t *pbt.T) fc.Value{
	fc.PIXEL_SIZE: poolFloat, fc.SIZE: poolFloat, fc.WEIGHT: poolFloat, fc.WIDTH: poolFloat,
}

func poolStr(l ...string) func(t *pbt.T) fc.Value {
	return func(t *pbt.T) fc.Value { return fc.String(pbt.Pick(t, l)) }
}

func poolBool(t *pbt.T) fc.Value { return fc.Bool(t.Intn(2)) }

func poolFloat(t *pbt.T) fc.Value { return fc.Float(float32(t.Range(0, 800)) / 8) }

func poolInt(l ...int32) func(t *pbt.T) fc.Value {
	return func(t *pbt.T) fc.Value { return fc.Int(pbt.Pick(t, l)) }
}

var matchObjects []fc.Object

func init() {
	for o := range matchPool {
		matchObjects = append(matchObjects, o)
	}
	sort.Slice(matchObjects, func(i, j int) bool { return matchObjects[i] < matchObjects[j] })
}

func setRandom(t *pbt.T, p fc.Pattern, o fc.Object, multi bool) {
	p.Del(o)
	n := 1
	if multi && t.Chance(1, 3) {
		n += t.Intn(4)
	}
	for i := 0; i < n; i++ {
		if i != 0 && t.Chance(1, 3) { // repeated value
			v, _ := p.GetAt(o, t.Intn(i))
			p.Add(o, v, true)
			continue
		}
		p.Add(o, matchPool[o](t), true)
	}
}

func genQuery(t *pbt.T, objs []fc.Object) fc.Pattern {
	q := fc.NewPattern()
	for _, o := range objs {
		if !t.Chance(3, 4) {
			continue
		}
		setRandom(t, q, o, true)
		for i := range *q[o] {
			if t.Chance(1, 3) {
				(*q[o])[i].Binding = 0
			}
		}
		if o == fc.FILE && t.Chance(1, 2) {
			q.Del(o)
			q.AddString(o, pbt.Pick(t, []string{"*", "/f/*", "*.ttf", "/f/?.ttf", "/f/a*ttf", "*a*t*", "?", "**", "*b*", "/F/A.TTF", "/f/a.tt?f", "*/a.ttf*"}))
		}
		if f := fracPool[o]; f != nil && t.Chance(1, 5) {
			q.Del(o)
			q.Add(o, f(t), true)
		}
	}
	return q
}

// genFonts: variations around a base font, so that the comparison goes deep in the priorities.
// Each font has its own INDEX.
func genFonts(t *pbt.T, objs []fc.Object, n int) fc.Fontset {
	base := fc.NewPattern()
	for _, o := range objs {
		if t.Chance(5, 6) {
			setRandom(t, base, o, true)
		}
	}
	var fs fc.Fontset
	for i := 0; i < n; i++ {
		p := base.Duplicate()
		for k := t.Size(4); k > 0; k-- {
			o := pbt.Pick(t, objs)
			if t.Chance(1, 6) {
				p.Del(o)
			} else {
				setRandom(t, p, o, true)
				if f := fracPool[o]; f != nil && t.Chance(1, 6) {
					p.Del(o)
					p.Add(o, f(t), true)
				}
			}
		}
		p.AddInt(fc.INDEX, int32(i))
		fs = append(fs, p)
	}
	return fs
}

func pickObjects(t *pbt.T) []fc.Object {
	if t.Chance(1, 4) {
		return matchObjects
	}
	var out []fc.Object
	perm := t.Perm(len(matchObjects))
	for n := 1 + t.Size(9); n > 0 && len(perm) > 0; n-- {
		out = append(out, matchObjects[perm[0]])
		perm = perm[1:]
	}
	return out
}

// single keeps one value of the properties where a fractional distance is possible together with
// several values: the closest value is then not defined by the documentation
func single(q fc.Pattern, fs fc.Fontset) {
	for o := range fracPool {
		frac := false
		multi := false
		see := func(p fc.Pattern) {
			for _, v := range vals(p, o) {
				a, b := bounds(v)
				if a != float32(int(a)) || b != float32(int(b)) || (o == fc.SIZE && a != b) {
					frac = true
				}
			}
			multi = multi || len(vals(p, o)) > 1
		}
		see(q)
		for _, f := range fs {
			see(f)
		}
		if frac && multi {
			one := func(p fc.Pattern) {
				if p[o] != nil {
					*p[o] = (*p[o])[:1]
				}
			}
			one(q)
			for _, f := range fs {
				one(f)
			}
		}
	}
}

// dontCare sets some booleans of the query to "don't care", when all the fonts have them: this must have no effect
// on the ranking
func addDontCare(t *pbt.T, q fc.Pattern, fs fc.Fontset) {
	for _, o := range []fc.Object{fc.VARIABLE, fc.COLOR, fc.OUTLINE} {
		if q[o] == nil || len(*q[o]) != 1 || !t.Chance(1, 6) {
			continue
		}
		all := true
		for _, f := range fs {
			all = all && f[o] != nil
		}
		if all {
			(*q[o])[0].Value = fc.DontCare
		}
	}
}

var propF06 = &pbt.Prop{
	ID: "F06", Quick: 120000, Thorough: 6000000,
	Rule:        "queries over up to 27 compared properties (several values, strong and weak) against up to 12 fonts derived from a common base by a few changes; non trivial when at least two fonts have different distance vectors; labels count the deciding priority",
	Assumptions: []string{"a property with several values only has integral distances (the position in the query breaks ties below one unit)"},
	Checks: []pbt.Check{{Name: "match", Weight: 8, Run: func(t *pbt.T) {
		objs := pickObjects(t)
		fs := genFonts(t, objs, 1+t.Size(12))
		q := genQuery(t, objs)
		single(q, fs)
		addDontCare(t, q, fs)
		if t.Chance(1, 8) {
			q.SubstituteDefault()
		}
		t.Describe(func() string { return "query " + descPattern(q) + "\n" + descSet(fs) })
		bq, bf := showPattern(q, true), showSet(fs)
		want := 0
		best := refScore(q, fs[0])
		pri := -1
		for i, f := range fs[1:] {
			s := refScore(q, f)
			less, p := lessScore(s, best)
			if p > pri {
				pri = p
			}
			if less {
				want, best = i+1, s
			}
		}
		if pri >= 0 {
			t.NonTrivial(bq + bf)
			t.Label("decided by " + refOrder[pri].name)
		}
		cfg := fc.NewConfig()
		for round := 0; round < 2; round++ {
			var m fc.Pattern
			t.NoPanic("Match", func() { m = fs.Match(q, cfg) })
			if m == nil {
				t.Fatalf("no match in a non empty set")
			}
			if got, ok := m.GetInt(fc.INDEX); !ok || int(got) != want {
				t.Fatalf("font %d is selected, want %d (scores %v, %v)", got, want, refScore(q, fs[got]), best)
			}
			if showPattern(q, true) != bq || showSet(fs) != bf {
				t.Fatalf("Match modified its arguments")
			}
			if round == 0 { // other queries in between
				fs.Match(genQuery(t, objs), cfg)
				fs.Sort(q, true)
				fs.List(q)
			}
		}
	}}, {Name: "order of the set", Weight: 2, Run: func(t *pbt.T) {
		// the vector of the selected font does not depend on the order of the set
		objs := pickObjects(t)
		fs := genFonts(t, objs, 2+t.Size(8))
		q := genQuery(t, objs)
		single(q, fs)
		var shuffled fc.Fontset
		for _, i := range t.Perm(len(fs)) {
			shuffled = append(shuffled, fs[i])
		}
		t.Describe(func() string {
			return "query " + descPattern(q) + "\n" + descSet(fs) + " shuffled\n" + descSet(shuffled)
		})
		var a, b fc.Pattern
		t.NoPanic("Match", func() { a, b = fs.Match(q, fc.NewConfig()), shuffled.Match(q, fc.NewConfig()) })
		ia, _ := a.GetInt(fc.INDEX)
		ib, _ := b.GetInt(fc.INDEX)
		if fmt.Sprint(refScore(q, fs[ia])) != fmt.Sprint(refScore(q, fs[ib])) {
			t.Fatalf("font %d is selected before shuffling, %d after, with different distances", ia, ib)
		}
		// and a set of one font selects it
		if m := (fc.Fontset{fs[ia]}).Match(q, fc.NewConfig()); m == nil {
			t.Fatalf("no match in a set of one font")
		}
		if m := (fc.Fontset{}).Match(q, fc.NewConfig()); m != nil {
			t.Fatalf("match in an empty set")
		}
		t.NonTrivial(descPattern(q) + descSet(fs))
	}}},
}
