package main

import (
	"fmt"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

var nameLang = map[fc.Object]fc.Object{fc.FAMILY: fc.FAMILYLANG, fc.STYLE: fc.STYLELANG, fc.FULLNAME: fc.FULLNAMELANG}

func isNameLang(o fc.Object) bool {
	return o == fc.FAMILYLANG || o == fc.STYLELANG || o == fc.FULLNAMELANG
}

func mlist(p fc.Pattern, o fc.Object) []mval {
	var out []mval
	for _, e := range *p[o] {
		out = append(out, mval{e.Value, int(e.Binding)})
	}
	return out
}

func strong(l []mval) []mval {
	out := append([]mval(nil), l...)
	for i := range out {
		out[i].b = 1
	}
	return out
}

func front(l []mval, n int) []mval {
	if n >= len(l) {
		return l
	}
	out := []mval{l[n]}
	for i, v := range l {
		if i != n {
			out = append(out, v)
		}
	}
	return out
}

// refPrepare is the documented combination of a query and a font, without rules
func refPrepare(q, f fc.Pattern) mpat {
	out := mpat{}
	variable := false
	if l := vals(f, fc.VARIABLE); len(l) > 0 {
		b, ok := l[0].(fc.Bool)
		variable = ok && b != fc.False
	}
	axes := map[fc.Object]string{}
	for _, o := range sortedObjects(f) {
		if isNameLang(o) {
			continue
		}
		if lo, ok := nameLang[o]; ok && f[lo] != nil {
			if q[lo] == nil {
				out[o], out[lo] = mlist(f, o), mlist(f, lo)
				continue
			}
			// the name in the language asked comes first
			_, _, n := bestOf(rLang, vals(q, lo), vals(f, lo))
			out[o] = strong(front(mlist(f, o), n))
			out[lo] = strong(front(mlist(f, lo), n))
			continue
		}
		if q[o] == nil {
			out[o] = mlist(f, o)
			continue
		}
		m := refMatchers[o]
		if m == nil { // not a compared property: the first value of the font
			out[o] = []mval{{vals(f, o)[0], 1}}
			continue
		}
		v, _, _ := bestOf(m, vals(q, o), vals(f, o))
		out[o] = []mval{{v, 1}}
		if _, isRange := vals(f, o)[0].(fc.Range); isRange && variable {
			x := float32(v.(fc.Float))
			switch o {
			case fc.WEIGHT:
				axes[o] = fmt.Sprintf("wght=%g", fc.WeightToOT(x))
			case fc.WIDTH:
				axes[o] = fmt.Sprintf("wdth=%g", x)
			case fc.SIZE:
				axes[o] = fmt.Sprintf("opsz=%g", x)
			}
		}
	}
	for _, o := range sortedObjects(q) {
		if f[o] == nil && !isNameLang(o) {
			out[o] = mlist(q, o)
		}
	}
	if len(axes) > 0 {
		var l []string
		for _, o := range []fc.Object{fc.WEIGHT, fc.WIDTH, fc.SIZE} {
			if axes[o] != "" {
				l = append(l, axes[o])
			}
		}
		if cur := out[fc.FONT_VARIATIONS]; len(cur) > 0 {
			l = append(l, string(cur[0].v.(fc.String)))
		}
		out[fc.FONT_VARIATIONS] = []mval{{fc.String(strings.Join(l, ",")), 1}}
	}
	return out
}

var nameTags = []string{"en", "fr", "de", "ja", "zh-cn", "zh-tw", "en-us", "en-gb", "xx", "ku-tr", "und", "EN"}

// genPair gives a query and a font sharing several properties
func genPair(t *pbt.T) (q, f fc.Pattern) {
	objs := pickObjects(t)
	fs := genFonts(t, objs, 1)
	f = fs[0]
	q = genQuery(t, objs)
	// names with languages
	for _, o := range []fc.Object{fc.FAMILY, fc.STYLE, fc.FULLNAME} {
		if !t.Chance(1, 2) {
			continue
		}
		if t.Chance(5, 6) {
			f.Del(o)
			for n := 1 + t.Size(3); n > 0; n-- {
				f.AddString(o, pbt.Pick(t, []string{"Foo", "Bar", "Baz", "フー", "été", ""}))
			}
		}
		if t.Chance(3, 4) {
			for n := 1 + t.Size(3); n > 0; n-- {
				f.AddString(nameLang[o], pbt.Pick(t, nameTags))
			}
		}
		if t.Chance(2, 3) {
			for n := 1 + t.Size(2); n > 0; n-- {
				q.AddString(nameLang[o], pbt.Pick(t, nameTags))
			}
		}
	}
	if t.Chance(1, 3) {
		f.Del(fc.VARIABLE)
		f.Add(fc.VARIABLE, fc.Bool(1+t.Intn(2)), true)
		for _, o := range []fc.Object{fc.WEIGHT, fc.WIDTH, fc.SIZE} {
			if t.Bool() {
				f.Del(o)
				a := float32(t.Range(0, 800)) / 4
				f.Add(o, fc.Range{Begin: a, End: a + float32(t.Range(0, 400))/4}, true)
			}
			if t.Bool() {
				q.Del(o)
				setRandom(t, q, o, false)
				if t.Bool() {
					q.Del(o)
					q.Add(o, poolFloat(t), true)
				}
			}
		}
		if t.Bool() {
			pbt.Pick(t, []fc.Pattern{q, f}).AddString(fc.FONT_VARIATIONS, pbt.Pick(t, []string{"slnt=3", "wght=1", ""}))
		}
	}
	// other properties
	for _, p := range []fc.Pattern{q, f} {
		for n := t.Size(4); n > 0; n-- {
			o := genObject(t)
			if isNameLang(o) || o == fc.VARIABLE || p[o] != nil {
				continue
			}
			if refMatchers[o] != nil && o != fc.SIZE {
				setRandom(t, p, o, true)
				continue
			}
			if refMatchers[o] != nil {
				continue
			}
			for k := 1 + t.Intn(2); k > 0; k-- {
				p.Add(o, genValueFor(t, o, true), true)
			}
		}
		for _, l := range p {
			if t.Chance(1, 6) {
				(*l)[t.Intn(len(*l))].Binding = 0
			}
		}
	}
	if t.Chance(1, 6) {
		if l := q[fc.COLOR]; l != nil {
			(*l)[0].Value = fc.DontCare
		}
	}
	single(q, fc.Fontset{f})
	return
}

var fontRules = []string{
	``,
	`<match target="font"><edit name="antialias" mode="assign"><bool>false</bool></edit></match>`,
	`<match target="font"><test name="family" compare="eq"><string>Foo</string></test><edit name="style" mode="append"><string>matched</string></edit></match>`,
	`<match target="font"><test target="pattern" name="slant" compare="eq"><int>100</int></test><edit name="slant" mode="assign"><name target="pattern">slant</name></edit><edit name="weight" mode="delete"/></match>`,
	`<match target="pattern"><edit name="foundry" mode="assign"><string>never</string></edit></match>`,
	`<match target="scan"><edit name="foundry" mode="assign"><string>never</string></edit></match>`,
	`<match target="font"><edit name="pixelsize" mode="assign"><times><name>pixelsize</name><int>2</int></times></edit></match>`,
	`<match target="font"><edit name="fontvariations" mode="append"><string>added</string></edit></match>`,
}

var propF07 = &pbt.Prop{
	ID: "F07", Quick: 200000, Thorough: 8000000,
	Rule: "pairs of query and font over the compared properties, names in several languages, variable axes, custom and free properties, with and without font rules; non trivial when they share at least two properties and each has one of its own",
	Checks: []pbt.Check{{Name: "prepare", Weight: 4, Run: func(t *pbt.T) {
		q, f := genPair(t)
		t.Describe(func() string { return "query " + descPattern(q) + "\nfont " + descPattern(f) })
		bq, bf := showPattern(q, true), showPattern(f, true)
		want := refPrepare(q, f)
		var got fc.Pattern
		cfg := fc.NewConfig()
		t.NoPanic("PrepareRender", func() { got = cfg.PrepareRender(q, f) })
		if s := want.diff(got); s != "" {
			t.Fatalf("%s\n in %s", s, descPattern(got))
		}
		if showPattern(q, true) != bq || showPattern(f, true) != bf {
			t.Fatalf("PrepareRender modified its arguments")
		}
		shared, onlyQ, onlyF := 0, false, false
		for o := range q {
			if f[o] != nil {
				shared++
			} else {
				onlyQ = true
			}
		}
		for o := range f {
			onlyF = onlyF || q[o] == nil
		}
		if shared >= 2 && onlyQ && onlyF {
			t.NonTrivial(bq + bf)
		}
		if len(want[fc.FONT_VARIATIONS]) > 0 {
			t.Label("variations")
		}
		// the result is independent of the font and the query
		for o, l := range got {
			got.Add(o, (*l)[0].Value, false)
			for _, e := range *l {
				if c, ok := e.Value.(fc.Charset); ok {
					for _, r := range []rune{0x20, 0x41, 0x42, 0x100} {
						c.DelChar(r)
					}
				}
			}
			(*l)[0].Binding = 0
		}
		if showPattern(q, true) != bq || showPattern(f, true) != bf {
			t.Fatalf("the result of PrepareRender shares its values with its arguments")
		}
	}}, {Name: "rules", Weight: 1, Run: func(t *pbt.T) {
		q, f := genPair(t)
		var doc string
		for n := t.Size(4); n > 0; n-- {
			doc += pbt.Pick(t, fontRules) + "\n"
		}
		t.Describe(func() string { return "query " + descPattern(q) + "\nfont " + descPattern(f) + "\n" + doc })
		cfg := mustLoad("<fontconfig>" + doc + "</fontconfig>")
		bq, bf := showPattern(q, true), showPattern(f, true)
		plain := fc.NewConfig().PrepareRender(q, f)
		var got fc.Pattern
		t.NoPanic("Substitute", func() { cfg.Substitute(plain, q, fc.MatchResult) })
		t.NoPanic("PrepareRender", func() { got = cfg.PrepareRender(q, f) })
		if a, b := showPattern(got, true), showPattern(plain, true); a != b {
			t.Fatalf("with rules: %s\nrules applied to the plain result: %s", a, b)
		}
		if strings.Contains(showPattern(got, false), `"never"`) {
			t.Fatalf("a rule of another kind was applied")
		}
		if showPattern(q, true) != bq || showPattern(f, true) != bf {
			t.Fatalf("the arguments were modified")
		}
		if m := (fc.Fontset{f}).Match(q, cfg); showPattern(m, true) != showPattern(got, true) {
			t.Fatalf("Match does not give the prepared font")
		}
		if doc != "" {
			t.NonTrivial(bq + bf + doc)
		}
	}}},
}

// ------------------------------------------------------------------------------------ sort

// refSort returns the order of the fonts and the scores
func refSort(q fc.Pattern, fs fc.Fontset) ([]int, [][]float32) {
	scores := make([][]float32, len(fs))
	for i, f := range fs {
		scores[i] = refScore(q, f)
	}
	order := func(from []int) []int {
		out := make([]int, 0, len(fs))
		for _, i := range from { // insertion, stable
			k := len(out)
			for k > 0 {
				if less, _ := lessScore(scores[i], scores[out[k-1]]); !less {
					break
				}
				k--
			}
			out = append(out, 0)
			copy(out[k+1:], out[k:])
			out[k] = i
		}
		return out
	}
	start := make([]int, len(fs))
	for i := range start {
		start[i] = i
	}
	first := order(start)
	// only the fonts satisfying a language of the query not provided by a closer one keep their
	// language distance
	satisfied := make([]bool, len(vals(q, fc.LANG)))
	for _, i := range first {
		ok := false
		if scores[i][langPri] < 2000 && len(vals(fs[i], fc.LANG)) > 0 {
			for k, l := range vals(q, fc.LANG) {
				if !satisfied[k] && refLang(l, vals(fs[i], fc.LANG)[0]) < 2 {
					satisfied[k], ok = true, true
					break
				}
			}
		}
		if !ok {
			scores[i][langPri] = 10000
		}
	}
	// the fonts the languages do not separate keep their first order
	return order(first), scores
}

func fontCharset(f fc.Pattern) (runeSet, bool) {
	l := vals(f, fc.CHARSET)
	if len(l) == 0 {
		return nil, false
	}
	return charsetRunes(l[0].(fc.Charset)), true
}

func ids(fs fc.Fontset) []int {
	var out []int
	for _, f := range fs {
		i, _ := f.GetInt(fc.INDEX)
		out = append(out, int(i))
	}
	return out
}

var propF08 = &pbt.Prop{
	ID: "F08", Quick: 250000, Thorough: 8000000,
	Rule: "queries and up to 40 fonts derived from a common base (many ties), both trim modes; non trivial when the order changes or a font is dropped",
	Checks: []pbt.Check{{Name: "sort", Run: func(t *pbt.T) {
		objs := pickObjects(t)
		max := 12
		if t.Chance(1, 4) {
			max = 40
		}
		fs := genFonts(t, objs, t.Size(max))
		q := genQuery(t, objs)
		if t.Chance(1, 3) { // several languages
			q.Del(fc.LANG)
			for n := 1 + t.Intn(4); n > 0; n-- {
				q.Add(fc.LANG, matchPool[fc.LANG](t), true)
			}
			for _, f := range fs {
				if t.Bool() {
					setRandom(t, f, fc.LANG, true)
				}
			}
		}
		if t.Bool() {
			for _, f := range fs {
				if t.Chance(4, 5) {
					setRandom(t, f, fc.CHARSET, false)
				}
			}
		}
		single(q, fs)
		addDontCare(t, q, fs)
		t.Describe(func() string { return "query " + descPattern(q) + "\n" + descSet(fs) })
		bq, bf := showPattern(q, true), showSet(fs)
		order, scores := refSort(q, fs)
		union := runeSet{}
		var trimmed []int
		for n, i := range order {
			c, ok := fontCharset(fs[i])
			if !ok {
				continue
			}
			adds := false
			for r := range c {
				adds = adds || !union[r]
				union[r] = true
			}
			if n == 0 || adds {
				trimmed = append(trimmed, i)
			}
		}
		moved := false
		for i, k := range order {
			moved = moved || i != k
		}
		if len(fs) > 1 && (moved || len(trimmed) < len(fs)) {
			t.NonTrivial(bq + bf)
		}
		var all, some fc.Fontset
		var csAll, csSome fc.Charset
		t.NoPanic("Sort", func() {
			some, csSome = fs.Sort(q, true)
			all, csAll = fs.Sort(q, false)
		})
		if got := ids(all); fmt.Sprint(got) != fmt.Sprint(order) && len(got)+len(order) > 0 {
			desc := ""
			for i, k := range got {
				if i < len(order) && order[i] != k {
					desc = fmt.Sprintf("scores of %d: %v, of %d: %v", k, scores[k], order[i], scores[order[i]])
					break
				}
			}
			t.Fatalf("sorted fonts %v, want %v. %s", got, order, desc)
		}
		if got := ids(some); fmt.Sprint(got) != fmt.Sprint(trimmed) && len(got)+len(trimmed) > 0 {
			t.Fatalf("trimmed fonts %v, want %v (of %v)", got, trimmed, order)
		}
		if got := charsetRunes(csSome); csSome.Len() != len(union) || got.key() != union.key() {
			t.Fatalf("coverage %s, want %s", got.key(), union.key())
		}
		if got := charsetRunes(csAll); csAll.Len() != len(union) || got.key() != union.key() {
			t.Fatalf("without trimming, coverage %s, want %s", got.key(), union.key())
		}
		if showPattern(q, true) != bq || showSet(fs) != bf {
			t.Fatalf("Sort modified its arguments")
		}
		// the coverage is independent of the fonts
		for r := range union {
			csSome.DelChar(r)
			csAll.DelChar(r)
		}
		if showSet(fs) != bf {
			t.Fatalf("the coverage returned by Sort is shared with the fonts")
		}
	}}},
}
