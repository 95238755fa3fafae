package main

import (
	"fmt"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// fields of a description, from its exported content
func descFields(d pango.FontDescription) string {
	return fmt.Sprintf("family %q weight %d style %d variant %d stretch %d size %d abs %v gravity %d variations %q",
		d.FamilyName, d.Weight, d.Style, d.Variant, d.Stretch, d.Size, d.SizeIsAbsolute, d.Gravity, d.Variations)
}

func (m mdesc) fields() string {
	g := m.grav
	if g == -1 {
		g = 0
	}
	return fmt.Sprintf("family %q weight %d style %d variant %d stretch %d size %d abs %v gravity %d variations %q",
		m.family, m.weight, m.style, m.variant, m.stretch, int(m.size), m.abs, g, m.vars)
}

var allWords = func() (out []string) {
	for _, l := range [][]word{weightWords, styleWords, variantWords, stretchWords, gravityWords} {
		for _, w := range l {
			out = append(out, w.s)
		}
	}
	return append(out, "normal")
}()

// genAnyFamily includes families which end like options or sizes
func genAnyFamily(t *pbt.T) string {
	f := genFamily(t)
	switch t.Intn(4) {
	case 0:
		f += " " + spell(t, pbt.Pick(t, allWords))
	case 1:
		f += " " + pbt.Pick(t, []string{"12", "10.5", "12px", "0", "NaN", "1e3", "-3", "Inf", "2000000", "7px"})
	case 2:
		f += " " + pbt.Pick(t, []string{"-", "bo-ld", "Auto", "Bold-", "weight=x", "Normal1", "px", "nan", "--", "Ultra"})
	}
	return f
}

func parseDesc(t *pbt.T, s string) (d pango.FontDescription) {
	t.NoPanic("NewFontDescriptionFrom", func() { d = pango.NewFontDescriptionFrom(s) })
	return d
}

// rebuilt sets the fields of d in a new description
func rebuilt(d pango.FontDescription, size, gravity bool) pango.FontDescription {
	out := pango.NewFontDescription()
	out.SetVariations(d.Variations)
	if gravity {
		out.SetGravity(d.Gravity)
	}
	if size && d.SizeIsAbsolute {
		out.SetAbsoluteSize(d.Size)
	} else if size {
		out.SetSize(d.Size)
	}
	out.SetStretch(d.Stretch)
	out.SetVariant(d.Variant)
	out.SetStyle(d.Style)
	out.SetWeight(d.Weight)
	out.SetFamily(d.FamilyName)
	return out
}

func roundTrip(t *pbt.T, d pango.FontDescription) {
	var s string
	t.NoPanic("String", func() { s = d.String() })
	back := parseDesc(t, s)
	if descFields(back) != descFields(d) {
		t.Fatalf("%s\nis printed as %q, parsed as\n%s", descFields(d), s, descFields(back))
	}
	if s2 := back.String(); s2 != s {
		t.Fatalf("%q is parsed then printed as %q", s, s2)
	}
}

var propP06 = &pbt.Prop{
	ID: "P06", Quick: 400000, Thorough: 20000000,
	Rule: "descriptions built by the setters (all weights, sizes in points and pixels, gravities, variations, families ending like options or numbers) printed and parsed back; strings spelling families, option words in any order, case and hyphenation, sizes and variations, whose content is known; strings of arbitrary words and runes; non trivial: a family and at least two other parts",
	Checks: []pbt.Check{
		{Name: "print", Weight: 2, Run: func(t *pbt.T) {
			d := pango.NewFontDescription()
			n := 0
			if t.Intn(4) != 0 {
				d.SetFamily(genAnyFamily(t))
			}
			if t.Bool() {
				n++
				w := pbt.Pick(t, weightWords).v
				if t.Intn(3) == 0 {
					w = 1 + t.Intn(1000)
				}
				d.SetWeight(pango.Weight(w))
			}
			if t.Bool() {
				n++
				d.SetStyle(pango.Style(t.Intn(3)))
			}
			if t.Bool() {
				n++
				d.SetVariant(pango.Variant(t.Intn(7)))
			}
			if t.Bool() {
				n++
				d.SetStretch(pango.Stretch(t.Intn(9)))
			}
			if t.Bool() {
				n++
				size := pbt.Pick(t, []int{0, 1, 512, 10 * 1024, 12800, 1000000 * 1024, t.Intn(1 << 20), t.Intn(1000000 * 1024)})
				if t.Intn(3) == 0 {
					d.SetAbsoluteSize(int32(size))
				} else {
					d.SetSize(int32(size))
				}
			}
			if t.Intn(3) == 0 {
				n++
				d.SetGravity(pango.Gravity(t.Intn(4)))
			}
			if t.Intn(3) == 0 {
				n++
				d.SetVariations(pbt.Pick(t, []string{"wght=200", "wght=200,wdth=5", "opsz=12.5"}))
			}
			t.Input("%s", descFields(d))
			roundTrip(t, d)
			if d.FamilyName != "" && n >= 2 {
				t.NonTrivial(descFields(d))
			}
		}},
		{Name: "spelled", Weight: 2, Run: func(t *pbt.T) {
			m := genDesc(t)
			// a family ended by a comma may end with anything
			if i := strings.Index(m.spelling, ","); m.family != "" && t.Intn(4) == 0 && i == -1 {
				f := m.family + " " + pbt.Pick(t, append([]string{"12", "12.5px", "0"}, allWords...))
				m.spelling = strings.Replace(strings.Join(strings.Fields(m.spelling), " "), m.family, f+",", 1)
				m.family = f
			}
			t.Input("%q", m.spelling)
			d := parseDesc(t, m.spelling)
			if got := descFields(d); got != m.fields() {
				t.Fatalf("parsed as %s\nwant %s", got, m.fields())
			}
			if d != rebuilt(d, m.hasSize, m.grav != -1) {
				t.Fatalf("the set fields are not tracked for %s", descFields(d))
			}
			roundTrip(t, d)
			if m.family != "" && len(strings.Fields(m.spelling)) >= 4 {
				t.NonTrivial(m.spelling)
			}
		}},
		{Name: "words", Weight: 1, Run: func(t *pbt.T) {
			var ws []string
			for n := t.Size(8); n > 0; n-- {
				w := spell(t, pbt.Pick(t, append([]string{"Foo", "12", "3px", "10.5", "NaN", "-1", "Inf", "weight=450", "weight=x", "-", "0", "auto"}, allWords...)))
				if w == "" {
					w = "-"
				}
				if t.Intn(6) == 0 {
					w += ","
				}
				ws = append(ws, w)
			}
			if len(ws) == 0 && t.Bool() {
				ws = append(ws, ",")
			}
			if t.Intn(5) == 0 {
				ws = append(ws, "@wght=200")
			}
			s := strings.Join(ws, " ")
			t.Input("%q", s)
			d := parseDesc(t, s)
			roundTrip(t, d)
			tracked := false
			for i := 0; i < 4; i++ {
				tracked = tracked || d == rebuilt(d, i&1 != 0, i&2 != 0)
			}
			if !tracked {
				t.Fatalf("the set fields are not tracked for %s", descFields(d))
			}
			if d.Size < 0 || float64(d.Size) > 1000000*pango.Scale {
				t.Fatalf("invalid size %d", d.Size)
			}
			if len(ws) >= 4 {
				t.NonTrivial(s)
			}
		}},
		{Name: "runes", Weight: 1, Run: func(t *pbt.T) {
			var b strings.Builder
			for n := t.Size(30); n > 0; n-- {
				b.WriteString(pbt.Pick(t, []string{" ", ",", "@", "=", "-", "1", "0", ".", "e", "px", "Bold", "\t", "\xff", "é", "漢", "\x00", "\u00a0", "\u2003", "İ", "a"}))
			}
			t.Input("%q", b.String())
			d := parseDesc(t, b.String())
			t.NoPanic("String", func() { parseDesc(t, d.String()) })
		}},
	},
}
