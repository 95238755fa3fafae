package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

var descMasks = []pango.FontMask{pango.FmFamily, pango.FmStyle, pango.FmVariant, pango.FmWeight, pango.FmStretch, pango.FmSize, pango.FmGravity, pango.FmVariations}

// descModel holds the fields which have been set; an absent field has its default
type descModel struct {
	family, vars                                   *string
	style, variant, weight, stretch, size, gravity *int
	abs                                            bool
}

func (m descModel) String() string {
	var out []string
	add := func(n string, s *string, i *int) {
		if s != nil {
			out = append(out, fmt.Sprintf("%s %q", n, *s))
		}
		if i != nil {
			out = append(out, fmt.Sprintf("%s %d", n, *i))
		}
	}
	add("family", m.family, nil)
	add("style", nil, m.style)
	add("variant", nil, m.variant)
	add("weight", nil, m.weight)
	add("stretch", nil, m.stretch)
	add("size", nil, m.size)
	if m.abs {
		out = append(out, "absolute")
	}
	add("gravity", nil, m.gravity)
	add("variations", m.vars, nil)
	return strings.Join(out, ", ")
}

func deref(p *int, def int) int {
	if p == nil {
		return def
	}
	return *p
}

func derefs(p *string) string {
	if p == nil {
		return ""
	}
	return *p
}

// content is the value of every field
func (m descModel) content() string {
	return fmt.Sprintf("family %q weight %d style %d variant %d stretch %d size %d abs %v gravity %d variations %q",
		derefs(m.family), deref(m.weight, 400), deref(m.style, 0), deref(m.variant, 0), deref(m.stretch, 4), deref(m.size, 0), m.abs, deref(m.gravity, 0), derefs(m.vars))
}

// build applies the fields set to a new description
func (m descModel) build() pango.FontDescription {
	d := pango.NewFontDescription()
	if m.vars != nil {
		d.SetVariations(*m.vars)
	}
	if m.gravity != nil {
		d.SetGravity(pango.Gravity(*m.gravity))
	}
	if m.size != nil && m.abs {
		d.SetAbsoluteSize(int32(*m.size))
	} else if m.size != nil {
		d.SetSize(int32(*m.size))
	}
	if m.stretch != nil {
		d.SetStretch(pango.Stretch(*m.stretch))
	}
	if m.variant != nil {
		d.SetVariant(pango.Variant(*m.variant))
	}
	if m.style != nil {
		d.SetStyle(pango.Style(*m.style))
	}
	if m.weight != nil {
		d.SetWeight(pango.Weight(*m.weight))
	}
	if m.family != nil {
		d.SetFamily(*m.family)
	}
	return d
}

// overlay replaces the fields of m by those set in o
func (m descModel) overlay(o descModel) descModel {
	if o.family != nil {
		m.family = o.family
	}
	if o.vars != nil {
		m.vars = o.vars
	}
	if o.style != nil {
		m.style = o.style
	}
	if o.variant != nil {
		m.variant = o.variant
	}
	if o.weight != nil {
		m.weight = o.weight
	}
	if o.stretch != nil {
		m.stretch = o.stretch
	}
	if o.size != nil {
		m.size, m.abs = o.size, o.abs
	}
	if o.gravity != nil {
		m.gravity = o.gravity
	}
	return m
}

func (m *descModel) unset(mask pango.FontMask) {
	if mask&pango.FmFamily != 0 {
		m.family = nil
	}
	if mask&pango.FmStyle != 0 {
		m.style = nil
	}
	if mask&pango.FmVariant != 0 {
		m.variant = nil
	}
	if mask&pango.FmWeight != 0 {
		m.weight = nil
	}
	if mask&pango.FmStretch != 0 {
		m.stretch = nil
	}
	if mask&pango.FmSize != 0 {
		m.size, m.abs = nil, false
	}
	if mask&pango.FmGravity != 0 {
		m.gravity = nil
	}
	if mask&pango.FmVariations != 0 {
		m.vars = nil
	}
}

var (
	descFamilies   = []string{"", "Latin", "latin", "LATIN", "Greek,Latin", "greek,latin", "", "a", "B"}
	descVariations = []string{"", "wght=200", "wdth=5", "wght=200,wdth=5"}
	descSizes      = []int{0, 1, 1024, 12 * 1024, -1, -1024, 1 << 30}
)

// step applies the same operation to a description and to its model
func descStep(t *pbt.T, d *pango.FontDescription, m *descModel, values int) string {
	switch t.Intn(11) {
	case 0:
		f := pbt.Pick(t, descFamilies)
		d.SetFamily(f)
		if m.family = &f; f == "" {
			m.family = nil
		}
		return fmt.Sprintf("family %q", f)
	case 1:
		v := t.Intn(min(3, values))
		d.SetStyle(pango.Style(v))
		m.style = &v
		return fmt.Sprint("style ", v)
	case 2:
		v := t.Intn(min(7, values))
		d.SetVariant(pango.Variant(v))
		m.variant = &v
		return fmt.Sprint("variant ", v)
	case 3:
		v := pbt.Pick(t, []int{400, 700, 100, 1000, 351}[:min(5, values)])
		d.SetWeight(pango.Weight(v))
		m.weight = &v
		return fmt.Sprint("weight ", v)
	case 4:
		v := pbt.Pick(t, []int{4, 0, 8, 3, 5}[:min(5, values)])
		d.SetStretch(pango.Stretch(v))
		m.stretch = &v
		return fmt.Sprint("stretch ", v)
	case 5, 6:
		v := pbt.Pick(t, descSizes)
		abs := t.Bool()
		if abs {
			d.SetAbsoluteSize(int32(v))
		} else {
			d.SetSize(int32(v))
		}
		if v >= 0 {
			m.size, m.abs = &v, abs
		}
		return fmt.Sprint("size ", v, abs)
	case 7:
		v := t.Intn(min(5, values+1))
		d.SetGravity(pango.Gravity(v))
		if m.gravity = &v; v == int(pango.GRAVITY_AUTO) {
			m.gravity = nil
		}
		return fmt.Sprint("gravity ", v)
	case 8:
		v := pbt.Pick(t, descVariations)
		d.SetVariations(v)
		if m.vars = &v; v == "" {
			m.vars = nil
		}
		return fmt.Sprintf("variations %q", v)
	case 9:
		u := pango.FontMask(0)
		for _, x := range descMasks {
			if t.Intn(3) == 0 {
				u |= x
			}
		}
		d.UnsetFields(u)
		m.unset(u)
		return fmt.Sprintf("unset %x", u)
	}
	u := pbt.Pick(t, descMasks)
	d.UnsetFields(u)
	m.unset(u)
	return fmt.Sprintf("unset %x", u)
}

func genModelDesc(t *pbt.T, max, values int) (pango.FontDescription, descModel, string) {
	d := pango.NewFontDescription()
	var m descModel
	var ops []string
	for k := t.Size(max); k > 0; k-- {
		ops = append(ops, descStep(t, &d, &m, values))
	}
	return d, m, "(" + strings.Join(ops, "; ") + ")"
}

// fieldsEqual compares the values, not the fields set
func (m descModel) equalFold(o descModel) bool {
	a, b := m, o
	a.family, b.family = nil, nil
	return a.content() == b.content() && strings.EqualFold(derefs(m.family), derefs(o.family))
}

var propP07 = &pbt.Prop{
	ID: "P07", Quick: 3000000, Thorough: 150000000,
	Rule: "histories of setters and unsets over a description (all fields, ignored and unsetting values included) compared after every operation with the description built from the fields still set; pairs of histories over few values compared by hash and by attribute merging; triples (context, two attributes) merged by the itemization; non trivial: a field set then unset or replaced, or descriptions sharing a field",
	Checks: []pbt.Check{
		{Name: "history", Weight: 3, Run: func(t *pbt.T) {
			d := pango.NewFontDescription()
			var m descModel
			var hist []string
			back := false
			for k := t.Size(20); k > 0; k-- {
				old := m
				hist = append(hist, descStep(t, &d, &m, 9))
				t.Input("%s", strings.Join(hist, "; "))
				if got := descFields(d); got != m.content() {
					t.Fatalf("the description is\n%s\nwant\n%s", got, m.content())
				}
				if w := m.build(); d != w {
					t.Fatalf("the description %#v differs from %#v, which sets the same fields", d, w)
				}
				back = back || old != m && (old.family != nil || old.vars != nil || old.weight != nil || old.size != nil)
				// a copy is independent
				c, cm := d, m
				descStep(t, &c, &cm, 9)
				if d != m.build() {
					t.Fatalf("a change to a copy changes the description")
				}
			}
			// nothing happens on nil
			var none *pango.FontDescription
			t.NoPanic("nil description", func() {
				none.SetFamily("a")
				none.SetGravity(pango.Gravity(t.Intn(5)))
				none.SetSize(3)
				none.SetAbsoluteSize(3)
				none.SetStretch(0)
				none.SetStyle(0)
				none.SetVariant(0)
				none.SetVariations("a")
				none.SetWeight(0)
				none.UnsetFields(3)
			})
			if back {
				t.NonTrivial(strings.Join(hist, "; "))
			}
		}},
		{Name: "equality", Weight: 2, Run: func(t *pbt.T) {
			d1, m1, h1 := genModelDesc(t, 6, 2)
			d2, m2, h2 := genModelDesc(t, 6, 2)
			if t.Bool() { // one field appart
				d2, m2, h2 = d1, m1, h1
				h2 += descStep(t, &d2, &m2, 2)
			}
			t.Input("%s\n%s", h1, h2)
			eq := m1.equalFold(m2)
			if got := d1.AsHash() == d2.AsHash(); got != eq {
				t.Fatalf("%s\n%s\nhash equal: %v, want %v", m1, m2, got, eq)
			}
			if h := d1.AsHash(); descFields(h) != strings.Replace(m1.content(), fmt.Sprintf("family %q", derefs(m1.family)), fmt.Sprintf("family %q", strings.ToLower(derefs(m1.family))), 1) {
				t.Fatalf("%s is hashed as %s", m1, descFields(h))
			}
			// adjacent attributes with the same description are one
			var l pango.AttrList
			a := pango.NewAttrFontDescription(d1)
			a.StartIndex, a.EndIndex = 0, 5
			b := pango.NewAttrFontDescription(d2)
			b.StartIndex, b.EndIndex = 5, 9
			l.Insert(a)
			l.Change(b)
			sameSet := d1.AsHash() == d2.AsHash() && m1.mask() == m2.mask()
			if (len(l) == 1) != sameSet {
				t.Fatalf("%s\n%s\n%d attributes after merging adjacent ones, equal: %v", m1, m2, len(l), sameSet)
			}
			if m1.mask()&m2.mask() != 0 {
				t.NonTrivial(h1 + "/" + h2)
			}
		}},
		{Name: "merge", Weight: 1, Run: func(t *pbt.T) {
			c, cm, h0 := genModelDesc(t, 8, 9)
			if cm.family == nil {
				f := "Latin"
				c.SetFamily(f)
				cm.family = &f
			}
			d1, m1, h1 := genModelDesc(t, 6, 9)
			d2, m2, h2 := genModelDesc(t, 6, 9)
			for _, d := range []*pango.FontDescription{&c, &d1, &d2} { // small caps choose another size
				d.UnsetFields(pango.FmVariant)
			}
			cm.variant, m1.variant, m2.variant = nil, nil, nil
			t.Input("context %s\nfirst %s\nsecond %s", h0, h1, h2)
			fm := newFontMap(theFaces()[0])
			ctx := pango.NewContext(fm)
			ctx.SetFontDescription(c)
			var l pango.AttrList
			for _, d := range []pango.FontDescription{d1, d2} {
				a := pango.NewAttrFontDescription(d)
				a.StartIndex, a.EndIndex = 0, 1
				l.Insert(a)
			}
			var items *pango.ItemList
			t.NoPanic("Itemize", func() { items = ctx.Itemize([]rune("a"), 0, 1, l) })
			if items == nil || items.Next != nil {
				t.Fatalf("not one item")
			}
			want := cm.overlay(m1).overlay(m2)
			// the gravity is resolved by the itemization
			got := fm.last.desc
			got.UnsetFields(pango.FmGravity)
			want.gravity = nil
			low := strings.ToLower(derefs(want.family))
			want.family = &low
			got.FamilyName = strings.ToLower(got.FamilyName)
			if descFields(got) != want.content() {
				t.Fatalf("the merged description is\n%s\nwant\n%s", descFields(got), want.content())
			}
			if m1.mask()&m2.mask() != 0 {
				t.NonTrivial(h0 + h1 + h2)
			}
		}},
		{Name: "strings", Weight: 1, Run: func(t *pbt.T) {
			// any family
			var rs []rune
			for k := t.Size(8); k > 0; k-- {
				rs = append(rs, pbt.Pick(t, pbt.Pick(t, pools)))
			}
			f := string(rs)
			if !utf8.ValidString(f) {
				t.Discard()
			}
			t.Input("family %q", f)
			d := pango.NewFontDescription()
			e := pango.NewFontDescription()
			d.SetFamily(f)
			e.SetFamily(strings.ToLower(f))
			if d.AsHash() != e.AsHash() {
				t.Fatalf("the hash depends on the case of the family")
			}
			if d.FamilyName != f {
				t.Fatalf("the family is %q", d.FamilyName)
			}
			d.UnsetFields(pango.FmFamily)
			if d != pango.NewFontDescription() {
				t.Fatalf("the family is not unset")
			}
		}},
	},
}

func (m descModel) mask() (out pango.FontMask) {
	for i, set := range []bool{m.family != nil, m.style != nil, m.variant != nil, m.weight != nil, m.stretch != nil, m.size != nil, m.gravity != nil, m.vars != nil} {
		if set {
			out |= descMasks[i]
		}
	}
	return out
}
