package main

import (
	"fmt"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

func tagsSet(v fc.Value) tagSet {
	s := tagSet{}
	for _, t := range tagsOf(v) {
		s[strings.ToLower(t)] = true
	}
	return s
}

// refListed: the font's value matches the query's value
func refListed(f, q fc.Value) bool {
	kf, kq := kindOf(f), kindOf(q)
	num := func(k otype) bool { return k == oInt || k == oFloat || k == oRange }
	switch {
	case num(kf) && num(kq): // a font's value inside the range of the query
		b1, e1 := bounds(f)
		b2, e2 := bounds(q)
		return b1 >= b2 && e1 <= e2
	case kf == oLangset && (kq == oLangset || kq == oString), kf == oString && kq == oLangset:
		return tagsSet(f).includes(tagsSet(q))
	case kf != kq:
		return false
	case kf == oString:
		return normName(string(f.(fc.String))) == normName(string(q.(fc.String)))
	case kf == oBool:
		return f == q || f.(fc.Bool) == fc.DontCare
	case kf == oCharset:
		super := f.(fc.Charset)
		for r := range charsetRunes(q.(fc.Charset)) {
			if !super.HasChar(r) {
				return false
			}
		}
		return true
	}
	return f == q // matrices
}

func refListMatch(q, f fc.Pattern) bool {
	for o := range q {
		if o == fc.NAMELANG {
			continue
		}
		for _, v := range vals(q, o) {
			found := false
			for _, w := range vals(f, o) {
				found = found || refListed(w, v)
			}
			if !found {
				return false
			}
		}
	}
	return true
}

// index of the name in the wanted language, else the first one in the same language, else the first english one
func refNameIndex(f fc.Pattern, langs fc.Object, want string) int {
	same, english := -1, -1
	for i, v := range vals(f, langs) {
		tag := string(v.(fc.String))
		switch refLangTag(tag, want) {
		case 0:
			return i
		case 1:
			if same < 0 {
				same = i
			}
		}
		if english < 0 && refLangTag(tag, "en") == 0 {
			english = i
		}
	}
	if same > 0 {
		return same
	}
	if english > 0 {
		return english
	}
	return 0
}

func refProject(f fc.Pattern, objs []fc.Object, lang string) string {
	m := mpat{}
	for _, o := range objs {
		if f[o] == nil {
			continue
		}
		n := 0
		switch o {
		case fc.FAMILY, fc.FAMILYLANG:
			n = refNameIndex(f, fc.FAMILYLANG, lang)
		case fc.STYLE, fc.STYLELANG:
			n = refNameIndex(f, fc.STYLELANG, lang)
		case fc.FULLNAME, fc.FULLNAMELANG:
			n = refNameIndex(f, fc.FULLNAMELANG, lang)
		}
		m[o] = strong(front(mlist(f, o), n))
	}
	return m.show()
}

var listTags = []string{"en", "fr", "de", "ja", "en-us", "en-gb", "fr-ca", "xx", "und", "EN", "zh-cn", "zh-tw"}

var listPool = map[fc.Object]func(t *pbt.T) fc.Value{
	fc.MATRIX: func(t *pbt.T) fc.Value {
		return pbt.Pick(t, []fc.Value{fc.Identity, fc.Matrix{Xx: 1, Xy: 0.2, Yy: 1}, fc.Matrix{}})
	},
	fc.FULLNAME:               poolStr("Foo Bold", "foo bold", "Bar", "Été gras"),
	fc.INDEX:                  poolInt(0, 1, 65536),
	fc.ASPECT:                 func(t *pbt.T) fc.Value { return pbt.Pick(t, []fc.Value{fc.Int(1), fc.Float(1), fc.Float(1.5)}) },
	fc.FirstCustomObject + 7:  func(t *pbt.T) fc.Value { return listCustom(t) },
	fc.FirstCustomObject + 30: func(t *pbt.T) fc.Value { return listCustom(t) },
}

func listCustom(t *pbt.T) fc.Value {
	return pbt.Pick(t, []fc.Value{fc.Int(1), fc.Float(1), fc.String("a"), fc.String("A"), fc.True, fc.DontCare, fc.Range{Begin: 0, End: 2}, fc.Range{Begin: 1, End: 1},
		fc.String("en"), fc.NewLangset("en|fr"), fc.NewLangset("en"), fc.Matrix{}, fc.False})
}

var listObjects []fc.Object

func init() {
	listObjects = append(listObjects, matchObjects...)
	for _, o := range []fc.Object{fc.MATRIX, fc.FULLNAME, fc.INDEX, fc.ASPECT, fc.FirstCustomObject + 7, fc.FirstCustomObject + 30} {
		listObjects = append(listObjects, o)
	}
}

func listValue(t *pbt.T, o fc.Object) fc.Value {
	if g := listPool[o]; g != nil {
		return g(t)
	}
	v := matchPool[o](t)
	if kindOf(v) == oBool && t.Chance(1, 5) {
		return fc.DontCare
	}
	return v
}

func listFont(t *pbt.T, p fc.Pattern, o fc.Object) {
	p.Del(o)
	n := 1
	if t.Chance(1, 3) {
		n += t.Intn(3)
	}
	lo := nameLang[o]
	if lo != 0 {
		p.Del(lo)
	}
	for i := 0; i < n; i++ {
		p.Add(o, listValue(t, o), true)
		if lo != 0 && !t.Chance(1, 8) {
			p.AddString(lo, pbt.Pick(t, listTags))
		}
	}
	for i := range *p[o] {
		if t.Chance(1, 8) {
			(*p[o])[i].Binding = 0
		}
	}
}

func distinct(l []fc.Object) (out []fc.Object) {
	seen := map[fc.Object]bool{}
	for _, o := range l {
		if !seen[o] {
			out = append(out, o)
		}
		seen[o] = true
	}
	return
}

var propF09 = &pbt.Prop{
	ID: "F09", Quick: 120000, Thorough: 6000000,
	Rule: "sets of up to 14 fonts (variations of one base, over compared, uncompared and custom properties, names in several languages), queries taken from one of the fonts with some edits, any selection of properties (or none: all of them); non trivial when at least one font is listed and at least one is not, or when two fonts share a projection",
	Checks: []pbt.Check{{Name: "list", Run: func(t *pbt.T) {
		var objs []fc.Object
		perm := t.Perm(len(listObjects))
		for n := 1 + t.Size(8); n > 0; n-- {
			objs = append(objs, listObjects[perm[n]])
		}
		base := fc.NewPattern()
		for _, o := range objs {
			if t.Chance(5, 6) {
				listFont(t, base, o)
			}
		}
		var fs fc.Fontset
		for i := 1 + t.Size(13); i > 0; i-- {
			p := base.Duplicate()
			for k := t.Size(3); k > 0; k-- {
				o := pbt.Pick(t, objs)
				if t.Chance(1, 6) {
					p.Del(o)
					if lo := nameLang[o]; lo != 0 {
						p.Del(lo)
					}
				} else {
					listFont(t, p, o)
				}
			}
			fs = append(fs, p)
		}
		// query
		q := fc.NewPattern()
		from := pbt.Pick(t, fs)
		for k := t.Size(4); k > 0; k-- {
			o := pbt.Pick(t, objs)
			if t.Chance(1, 4) || from[o] == nil {
				q.Add(o, listValue(t, o), true)
			} else {
				v := pbt.Pick(t, vals(from, o))
				if s, ok := v.(fc.String); ok && t.Chance(1, 3) {
					v = fc.String(pbt.Pick(t, []string{strings.ToUpper(string(s)), " " + string(s), strings.ReplaceAll(string(s), " ", "")}))
				}
				q.Add(o, v, t.Bool())
			}
		}
		lang := "en" // normalised LANG
		if t.Chance(1, 2) {
			lang = pbt.Pick(t, listTags)
			q.AddString(fc.NAMELANG, lang)
		}
		var asked []fc.Object
		if t.Chance(4, 5) {
			for n := 1 + t.Size(4); n > 0; n-- {
				o := pbt.Pick(t, objs)
				asked = append(asked, o)
				if lo := nameLang[o]; lo != 0 && t.Bool() {
					asked = append(asked, lo)
				}
			}
			if t.Chance(1, 6) {
				asked = append(asked, genObject(t))
			}
			asked = distinct(asked)
		}
		t.Describe(func() string { return fmt.Sprintf("query %s objects %v\n%s", descPattern(q), asked, descSet(fs)) })
		bq, bf := showPattern(q, true), showSet(fs)
		proj := asked
		if len(proj) == 0 {
			proj = builtins
		}
		var want []string
		seen := map[string]bool{}
		nb, dup := 0, false
		for _, f := range fs {
			if !refListMatch(q, f) {
				continue
			}
			nb++
			k := refProject(f, proj, lang)
			if !seen[k] {
				seen[k] = true
				want = append(want, k)
			} else {
				dup = true
			}
		}
		if nb > 0 && nb < len(fs) || dup && len(want) > 1 {
			t.NonTrivial(bq + bf)
		}
		if dup {
			t.Label("shared projection")
		}
		var first string
		for round := 0; round < 2; round++ {
			var out fc.Fontset
			t.NoPanic("List", func() { out = fs.List(q, asked...) })
			got := map[string]bool{}
			for _, p := range out {
				k := showPattern(p, true)
				if got[k] {
					t.Fatalf("the projection %s is listed twice", k)
				}
				got[k] = true
				if !seen[k] {
					t.Fatalf("unexpected projection %s want one of %q", k, want)
				}
			}
			for _, k := range want {
				if !got[k] {
					t.Fatalf("the projection %s is missing", k)
				}
			}
			if showPattern(q, true) != bq || showSet(fs) != bf {
				t.Fatalf("List modified its arguments")
			}
			if round == 0 {
				first = showSet(out)
				// the result shares nothing with the set
				for _, p := range out {
					p.AddString(fc.FAMILY, "changed")
					p.Del(fc.STYLE)
				}
				if showSet(fs) != bf {
					t.Fatalf("the listed patterns share their content with the set")
				}
			} else if s := showSet(out); s != first {
				t.Fatalf("two calls give\n%s\nand\n%s", first, s)
			}
		}
	}}},
}
