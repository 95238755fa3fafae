package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

const maxInt = pango.MaxInt // the end of the attributes without bound

// span is the content of an attribute
type span struct {
	kind pango.AttrKind
	s, e int
	data string
	p    *pango.Attribute
}

func spans(l pango.AttrList) []span {
	out := make([]span, len(l))
	for i, a := range l {
		out[i] = span{a.Kind, a.StartIndex, a.EndIndex, fmt.Sprintf("%T:%v", a.Data, a.Data), a}
	}
	return out
}

func fmtSpans(l []span) string {
	var b strings.Builder
	for _, s := range l {
		fmt.Fprintf(&b, "[%d,%d)%v=%s ", s.s, s.e, s.kind, s.data)
	}
	return b.String()
}

// active returns the indices of the attributes of the given kind active at pos
func active(l []span, kind pango.AttrKind, pos int) (out []int) {
	for i, s := range l {
		if s.kind == kind && s.s <= pos && pos < s.e {
			out = append(out, i)
		}
	}
	return out
}

// valueAt is the value of the kind in effect at pos: the attribute which starts closest wins
func valueAt(l []span, kind pango.AttrKind, pos int) string {
	a := active(l, kind, pos)
	if len(a) == 0 {
		return ""
	}
	best := a[0]
	for _, i := range a {
		if l[i].s >= l[best].s {
			best = i
		}
	}
	return l[best].data
}

// the constructors, one value out of three
type maker struct {
	kind pango.AttrKind
	make func(i int) *pango.Attribute
	want func(i int) string
}

var someColors = []pango.AttrColor{{Red: 1, Green: 2, Blue: 3}, {Red: 0xffff}, {Green: 0x8000, Blue: 1}}

// the descriptions of a group of three share some of their fields
var someDescs = []func(d *pango.FontDescription){
	func(d *pango.FontDescription) { d.SetFamily("Sans") },
	func(d *pango.FontDescription) { d.SetFamily("Serif") },
	func(d *pango.FontDescription) { d.SetFamily("Sans"); d.SetSize(10 * pango.Scale) },

	func(d *pango.FontDescription) { d.SetWeight(pango.WEIGHT_BOLD) },
	func(d *pango.FontDescription) { d.SetWeight(pango.WEIGHT_LIGHT) },
	func(d *pango.FontDescription) { d.SetWeight(pango.WEIGHT_BOLD); d.SetStyle(pango.STYLE_ITALIC) },

	func(d *pango.FontDescription) { d.SetSize(10 * pango.Scale) },
	func(d *pango.FontDescription) { d.SetSize(11 * pango.Scale) },
	func(d *pango.FontDescription) { d.SetAbsoluteSize(10 * pango.Scale) },

	func(d *pango.FontDescription) { d.SetVariations("wght=200") },
	func(d *pango.FontDescription) { d.SetVariations("wght=300") },
	func(d *pango.FontDescription) { d.SetVariations("wdth=300") },

	func(d *pango.FontDescription) { d.SetGravity(pango.GRAVITY_EAST) },
	func(d *pango.FontDescription) { d.SetGravity(pango.GRAVITY_WEST) },
	func(d *pango.FontDescription) { d.SetGravity(pango.GRAVITY_NORTH) },

	func(d *pango.FontDescription) { d.SetStretch(pango.STRETCH_CONDENSED) },
	func(d *pango.FontDescription) { d.SetStretch(pango.STRETCH_EXPANDED) },
	func(d *pango.FontDescription) { d.SetStretch(pango.STRETCH_ULTRA_EXPANDED) },

	func(d *pango.FontDescription) { d.SetVariant(pango.VARIANT_SMALL_CAPS) },
	func(d *pango.FontDescription) { d.SetVariant(pango.VARIANT_UNICASE) },
	func(d *pango.FontDescription) { d.SetVariant(pango.VARIANT_TITLE_CAPS) },

	func(d *pango.FontDescription) { d.SetStyle(pango.STYLE_ITALIC) },
	func(d *pango.FontDescription) { d.SetStyle(pango.STYLE_OBLIQUE) },
	func(d *pango.FontDescription) { d.SetStyle(pango.STYLE_ITALIC); d.SetGravity(pango.GRAVITY_EAST) },
}

func descs(i int) pango.FontDescription {
	d := pango.NewFontDescription()
	someDescs[i](&d)
	return d
}

// descMaker yields the descriptions 3*j to 3*j+2
func descMaker(j int) maker {
	return maker{pango.ATTR_FONT_DESC, func(i int) *pango.Attribute { return pango.NewAttrFontDescription(descs(3*j + i)) }, func(i int) string { return descs(3*j + i).String() }}
}

var makers = []maker{
	{pango.ATTR_SIZE, func(i int) *pango.Attribute { return pango.NewAttrSize(1000 * i) }, func(i int) string { return fmt.Sprint(1000 * i) }},
	{pango.ATTR_ABSOLUTE_SIZE, func(i int) *pango.Attribute { return pango.NewAttrAbsoluteSize(1000 * i) }, func(i int) string { return fmt.Sprint(1000 * i) }},
	{pango.ATTR_WEIGHT, func(i int) *pango.Attribute { return pango.NewAttrWeight(pango.Weight(i * 300)) }, func(i int) string { return fmt.Sprint(300 * i) }},
	{pango.ATTR_FAMILY, func(i int) *pango.Attribute { return pango.NewAttrFamily(fmt.Sprint("f", i)) }, func(i int) string { return fmt.Sprint("f", i) }},
	{pango.ATTR_LANGUAGE, func(i int) *pango.Attribute { return pango.NewAttrLanguage([]pango.Language{"en", "fr", "ja"}[i]) }, func(i int) string { return []string{"en", "fr", "ja"}[i] }},
	{pango.ATTR_STYLE, func(i int) *pango.Attribute { return pango.NewAttrStyle(pango.Style(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_VARIANT, func(i int) *pango.Attribute { return pango.NewAttrVariant(pango.Variant(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_STRETCH, func(i int) *pango.Attribute { return pango.NewAttrStretch(pango.Stretch(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_FOREGROUND, func(i int) *pango.Attribute { return pango.NewAttrForeground(someColors[i]) }, colorString},
	{pango.ATTR_BACKGROUND, func(i int) *pango.Attribute { return pango.NewAttrBackground(someColors[i]) }, colorString},
	{pango.ATTR_UNDERLINE_COLOR, func(i int) *pango.Attribute { return pango.NewAttrUnderlineColor(someColors[i]) }, colorString},
	{pango.ATTR_OVERLINE_COLOR, func(i int) *pango.Attribute { return pango.NewAttrOverlineColor(someColors[i]) }, colorString},
	{pango.ATTR_STRIKETHROUGH_COLOR, func(i int) *pango.Attribute { return pango.NewAttrStrikethroughColor(someColors[i]) }, colorString},
	{pango.ATTR_FOREGROUND_ALPHA, func(i int) *pango.Attribute { return pango.NewAttrForegroundAlpha(uint16(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_BACKGROUND_ALPHA, func(i int) *pango.Attribute { return pango.NewAttrBackgroundAlpha(uint16(i * 30000)) }, func(i int) string { return fmt.Sprint(i * 30000) }},
	{pango.ATTR_UNDERLINE, func(i int) *pango.Attribute { return pango.NewAttrUnderline(pango.Underline(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_OVERLINE, func(i int) *pango.Attribute { return pango.NewAttrOverline(pango.Overline(i % 2)) }, func(i int) string { return fmt.Sprint(i % 2) }},
	{pango.ATTR_STRIKETHROUGH, func(i int) *pango.Attribute { return pango.NewAttrStrikethrough(i == 1) }, boolString},
	{pango.ATTR_ALLOW_BREAKS, func(i int) *pango.Attribute { return pango.NewAttrAllowBreaks(i == 1) }, boolString},
	{pango.ATTR_INSERT_HYPHENS, func(i int) *pango.Attribute { return pango.NewAttrInsertHyphens(i == 1) }, boolString},
	{pango.ATTR_FALLBACK, func(i int) *pango.Attribute { return pango.NewAttrFallback(i == 1) }, boolString},
	{pango.ATTR_RISE, func(i int) *pango.Attribute { return pango.NewAttrRise(i - 1) }, func(i int) string { return fmt.Sprint(i - 1) }},
	{pango.ATTR_LETTER_SPACING, func(i int) *pango.Attribute { return pango.NewAttrLetterSpacing(int32(i - 1)) }, func(i int) string { return fmt.Sprint(i - 1) }},
	{pango.ATTR_SCALE, func(i int) *pango.Attribute { return pango.NewAttrScale(float32(i) / 2) }, func(i int) string { return fmt.Sprintf("%f", float32(i)/2) }},
	{pango.ATTR_LINE_HEIGHT, func(i int) *pango.Attribute { return pango.NewAttrLineHeight(float32(i) / 2) }, func(i int) string { return fmt.Sprintf("%f", float32(i)/2) }},
	{pango.ATTR_ABSOLUTE_LINE_HEIGHT, func(i int) *pango.Attribute { return pango.NewAttrAbsoluteLineHeight(i * 100) }, func(i int) string { return fmt.Sprint(i * 100) }},
	{pango.ATTR_GRAVITY, func(i int) *pango.Attribute { return pango.NewAttrGravity(pango.Gravity(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_GRAVITY_HINT, func(i int) *pango.Attribute { return pango.NewAttrGravityHint(pango.GravityHint(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_FONT_FEATURES, func(i int) *pango.Attribute { return pango.NewAttrFontFeatures(fmt.Sprint("ss0", i)) }, func(i int) string { return fmt.Sprint("ss0", i) }},
	{pango.ATTR_SHOW, func(i int) *pango.Attribute { return pango.NewAttrShow(pango.ShowFlags(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_TEXT_TRANSFORM, func(i int) *pango.Attribute { return pango.NewAttrTextTransform(pango.TextTransform(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_BASELINE_SHIFT, func(i int) *pango.Attribute { return pango.NewAttrBaselineShift(i * 1025) }, func(i int) string { return fmt.Sprint(i * 1025) }},
	{pango.ATTR_FONT_SCALE, func(i int) *pango.Attribute { return pango.NewAttrFontScale(pango.FontScale(i)) }, func(i int) string { return fmt.Sprint(i) }},
	{pango.ATTR_WORD, func(i int) *pango.Attribute { return pango.NewAttrWord() }, func(i int) string { return "1" }},
	{pango.ATTR_SENTENCE, func(i int) *pango.Attribute { return pango.NewAttrSentence() }, func(i int) string { return "1" }},
	descMaker(0), descMaker(1), descMaker(2), descMaker(3), descMaker(4), descMaker(5), descMaker(6), descMaker(7),
	{pango.ATTR_SHAPE, func(i int) *pango.Attribute {
		return newShape(pango.Rectangle{Width: pango.Unit(i)}, pango.Rectangle{Width: 10})
	}, func(i int) string { return "shape" }},
}

func colorString(i int) string {
	return fmt.Sprintf("#%04x%04x%04x", someColors[i].Red, someColors[i].Green, someColors[i].Blue)
}
func boolString(i int) string { return map[bool]string{true: "1", false: "0"}[i == 1] }

// genRange yields a non-empty range in 0..12, sometimes open ended, sometimes empty
func genRange(t *pbt.T) (int, int) {
	s := t.Intn(12)
	switch t.Intn(8) {
	case 0:
		return 0, maxInt
	case 1:
		return s, maxInt
	case 2:
		return s, s
	}
	return s, s + 1 + t.Intn(12-s)
}

var positions = func() (out []int) {
	for i := 0; i <= 14; i++ {
		out = append(out, i)
	}
	return append(out, 1000, maxInt-1)
}()

func checkSorted(t *pbt.T, after []span, op string) {
	if !sort.SliceIsSorted(after, func(i, j int) bool { return after[i].s < after[j].s }) {
		t.Fatalf("%s: the list is not sorted by start: %s", op, fmtSpans(after))
	}
}

func sameSpans(a, b []span, ptr bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if !ptr {
			x.p, y.p = nil, nil
		}
		if x != y {
			return false
		}
	}
	return true
}

var propP01 = &pbt.Prop{
	ID: "P01", Quick: 400000, Thorough: 3000000,
	Rule: "random histories (up to 14 steps) of Insert, Change and Filter with attributes of a few kinds and values on overlapping, adjacent, empty and unbounded ranges; after each step the list is compared, position by position and kind by kind, with what the documentation says about its content before the step; non trivial when Change met an attribute of its kind",
	Sweep: func(t *pbt.T) {
		seen := map[pango.AttrKind]bool{}
		for _, m := range makers {
			seen[m.kind] = true
			for i := 0; i < 3; i++ {
				a := m.make(i)
				t.Evals(1)
				if a.Kind != m.kind || a.StartIndex != 0 || a.EndIndex != maxInt || a.Data.String() != m.want(i) {
					t.Fatalf("constructor of %v: got %v, data %s", m.kind, a, a.Data)
				}
				a.StartIndex, a.EndIndex = 3, 7
				if got, want := a.String(), fmt.Sprintf("[3,7]%s=%s", m.kind, m.want(i)); got != want {
					t.Fatalf("attribute printed as %q, want %q", got, want)
				}
			}
		}
	},
	Checks: []pbt.Check{{Name: "history", Run: func(t *pbt.T) {
		var list pango.AttrList
		var hist strings.Builder
		t.Describe(func() string { return hist.String() })
		nk := 1 + t.Intn(3)
		var ms []maker
		for i := 0; i < nk; i++ {
			ms = append(ms, pbt.Pick(t, makers))
		}
		met := false
		for k := 1 + t.Size(14); k > 0; k-- {
			before := spans(list)
			switch op := t.Weighted(4, 5, 1); op {
			case 0, 1:
				m := ms[t.Intn(nk)]
				attr := m.make(t.Intn(3))
				attr.StartIndex, attr.EndIndex = genRange(t)
				val := span{attr.Kind, attr.StartIndex, attr.EndIndex, fmt.Sprintf("%T:%v", attr.Data, attr.Data), attr}
				if op == 0 {
					fmt.Fprintf(&hist, "Insert %v\n", attr)
					t.NoPanic("Insert", func() { list.Insert(attr) })
					after := spans(list)
					// after the attributes with the same start
					i := 0
					for i < len(before) && before[i].s <= val.s {
						i++
					}
					want := append(append(append([]span{}, before[:i]...), val), before[i:]...)
					if !sameSpans(want, after, true) {
						t.Fatalf("after Insert: %s\nwant: %s", fmtSpans(after), fmtSpans(want))
					}
					continue
				}
				fmt.Fprintf(&hist, "Change %v\n", attr)
				t.NoPanic("Change", func() { list.Change(attr) })
				after := spans(list)
				checkSorted(t, after, "Change")
				if val.s == val.e {
					if !sameSpans(before, after, true) {
						t.Fatalf("Change with an empty range modified the list: %s", fmtSpans(after))
					}
					continue
				}
				for _, pos := range positions {
					for _, m := range ms {
						got := valueAt(after, m.kind, pos)
						want := valueAt(before, m.kind, pos)
						if m.kind == val.kind && val.s <= pos && pos < val.e {
							if want != "" {
								met = true
							}
							want = val.data
							if n := len(active(after, m.kind, pos)); n != 1 {
								t.Fatalf("after Change, %d attributes %v at %d: %s\nbefore: %s", n, m.kind, pos, fmtSpans(after), fmtSpans(before))
							}
						}
						if got != want {
							t.Fatalf("after Change, %v at %d is %q, want %q: %s\nbefore: %s", m.kind, pos, got, want, fmtSpans(after), fmtSpans(before))
						}
					}
				}
				// the other kinds are left alone
				other := func(l []span) (out []span) {
					for _, s := range l {
						if s.kind != val.kind {
							out = append(out, s)
						}
					}
					return out
				}
				if !sameSpans(other(before), other(after), true) {
					t.Fatalf("Change modified other attributes: %s\nbefore: %s", fmtSpans(after), fmtSpans(before))
				}
				// adjoining identical attributes are merged
				cur := after[active(after, val.kind, val.s)[0]]
				for _, pos := range []int{val.s - 1, val.e} {
					if a := active(after, val.kind, pos); pos >= 0 && pos < maxInt && len(a) == 1 && after[a[0]].data == val.data && after[a[0]].p.Kind != pango.ATTR_SHAPE && after[a[0]].p != cur.p {
						t.Fatalf("after Change, the attribute at %d is not merged: %s\nbefore: %s", pos, fmtSpans(after), fmtSpans(before))
					}
				}
				for _, s := range after {
					if s.kind == val.kind && s.s >= s.e {
						ok := false
						for _, b := range before {
							ok = ok || b.p == s.p && b.s == s.s && b.e == s.e
						}
						if !ok {
							t.Fatalf("after Change, an empty attribute remains: %s\nbefore: %s", fmtSpans(after), fmtSpans(before))
						}
					}
				}
			default:
				kind, minStart := ms[t.Intn(nk)].kind, t.Intn(8)
				fmt.Fprintf(&hist, "Filter kind %v from %d\n", kind, minStart)
				fn := func(a *pango.Attribute) bool { return a.Kind == kind && a.StartIndex >= minStart }
				var kept, out []span
				for _, s := range before {
					if fn(s.p) {
						out = append(out, s)
					} else {
						kept = append(kept, s)
					}
				}
				var removed pango.AttrList
				t.NoPanic("Filter", func() { removed = list.Filter(fn) })
				if !sameSpans(spans(removed), out, true) || !sameSpans(spans(list), kept, true) {
					t.Fatalf("Filter returned %s\nkept %s\nfrom %s", fmtSpans(spans(removed)), fmtSpans(spans(list)), fmtSpans(before))
				}
			}
		}
		if met {
			t.NonTrivial(hist.String())
		}
	}}},
}
