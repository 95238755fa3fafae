package main

import (
	"fmt"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

type mval struct {
	v fc.Value // private copy
	b int
}

// mpat is the model of a pattern
type mpat map[fc.Object][]mval

func (m mpat) copy() mpat {
	out := mpat{}
	for o, l := range m {
		out[o] = append([]mval(nil), l...)
	}
	return out
}

func (m mpat) diff(p fc.Pattern) string {
	for o, l := range m {
		if p[o] == nil {
			return fmt.Sprintf("%s is missing", o)
		}
		if len(*p[o]) != len(l) {
			return fmt.Sprintf("%s has %d values, want %d", o, len(*p[o]), len(l))
		}
		for i, e := range *p[o] {
			if showValue(e.Value) != showValue(l[i].v) {
				return fmt.Sprintf("%s[%d] is %s, want %s", o, i, descValue(e.Value), descValue(l[i].v))
			}
			if int(e.Binding) != l[i].b {
				return fmt.Sprintf("%s[%d] has binding %d, want %d", o, i, e.Binding, l[i].b)
			}
		}
	}
	for o, l := range p {
		if _, ok := m[o]; !ok && l != nil && len(*l) != 0 {
			return fmt.Sprintf("%s should not be there", o)
		}
	}
	return ""
}

// show is the equivalent of showPattern, with the bindings
func (m mpat) show() string {
	var l []fc.Object
	for o := range m {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	var b strings.Builder
	for _, o := range l {
		if len(m[o]) == 0 {
			continue
		}
		fmt.Fprintf(&b, "%s:", o)
		for _, v := range m[o] {
			fmt.Fprintf(&b, " %s/%d", showValue(v.v), v.b)
		}
		b.WriteString("\n")
	}
	return b.String()
}

func copyValue(v fc.Value) fc.Value {
	switch v := v.(type) {
	case fc.Charset:
		return v.Copy()
	case fc.Langset:
		return v.Copy()
	}
	return v
}

// every typed getter must agree with the model
func checkGetters(t *pbt.T, p fc.Pattern, m mpat, o fc.Object) {
	l := m[o]
	bad := func(name string, got, want interface{}) {
		t.Fatalf("%s(%s) = %v, want %v", name, o, got, want)
	}
	for i := 0; i < len(l)+2; i++ {
		v, r := p.GetAt(o, i)
		switch {
		case len(l) == 0 && r != fc.ResultNoMatch:
			bad("GetAt of a missing property", r, fc.ResultNoMatch)
		case len(l) != 0 && i >= len(l) && r != fc.ResultNoId:
			bad("GetAt out of range", r, fc.ResultNoId)
		case i < len(l) && (r != fc.ResultMatch || showValue(v) != showValue(l[i].v)):
			bad(fmt.Sprintf("GetAt %d", i), fmt.Sprint(r, v), descValue(l[i].v))
		}
	}
	var first fc.Value
	if len(l) != 0 {
		first = l[0].v
	}
	wb, okb := first.(fc.Bool)
	if g, ok := p.GetBool(o); g != wb || ok != okb {
		bad("GetBool", fmt.Sprint(g, ok), fmt.Sprint(wb, okb))
	}
	ws, oks := first.(fc.String)
	if g, ok := p.GetString(o); g != string(ws) || ok != oks {
		bad("GetString", fmt.Sprint(g, ok), fmt.Sprint(ws, oks))
	}
	wi, oki := first.(fc.Int)
	if g, ok := p.GetInt(o); g != int32(wi) || ok != oki {
		bad("GetInt", fmt.Sprint(g, ok), fmt.Sprint(wi, oki))
	}
	wf, okf := first.(fc.Float)
	if oki {
		wf, okf = fc.Float(wi), true
	}
	if g, ok := p.GetFloat(o); g != float32(wf) || ok != okf {
		bad("GetFloat", fmt.Sprint(g, ok), fmt.Sprint(wf, okf))
	}
	wm, okm := first.(fc.Matrix)
	if g, ok := p.GetMatrix(o); g != wm || ok != okm {
		bad("GetMatrix", fmt.Sprint(g, ok), fmt.Sprint(wm, okm))
	}
	wc, okc := first.(fc.Charset)
	if g, ok := p.GetCharset(o); ok != okc || charsetKey(g) != charsetKey(wc) {
		bad("GetCharset", fmt.Sprint(charsetKey(g), ok), fmt.Sprint(charsetKey(wc), okc))
	}
	var ss []string
	var is []int32
	var fs []float32
	var ms []fc.Matrix
	for _, e := range l {
		switch v := e.v.(type) {
		case fc.String:
			ss = append(ss, string(v))
		case fc.Int:
			is = append(is, int32(v))
		case fc.Float:
			fs = append(fs, float32(v))
		case fc.Matrix:
			ms = append(ms, v)
		}
	}
	cmp := func(name string, got, want interface{}) {
		if fmt.Sprint(got) != fmt.Sprint(want) {
			bad(name, got, want)
		}
	}
	cmp("GetStrings", p.GetStrings(o), ss)
	cmp("GetInts", p.GetInts(o), is)
	cmp("GetFloats", p.GetFloats(o), fs)
	cmp("GetMatrices", p.GetMatrices(o), ms)
	if o == fc.FONTFORMAT {
		cmp("Format", p.Format(), ws)
	}
	if o == fc.FILE || o == fc.INDEX {
		id := p.FaceID()
		wantFile, wantIdx := "", int32(0)
		if l := m[fc.FILE]; len(l) > 0 {
			s, _ := l[0].v.(fc.String)
			wantFile = string(s)
		}
		if l := m[fc.INDEX]; len(l) > 0 {
			s, _ := l[0].v.(fc.Int)
			wantIdx = int32(s)
		}
		if id.File != wantFile || uint32(id.Index)|uint32(id.Instance)<<16 != uint32(wantIdx) {
			bad("FaceID", fmt.Sprintf("%+v", id), fmt.Sprint(wantFile, wantIdx))
		}
	}
}

var propF04 = &pbt.Prop{
	ID: "F04", Quick: 300000, Thorough: 15000000,
	Rule: "histories of up to 40 operations (append, prepend, typed add, delete, duplicate, bulk build, mutation of values after handing them over) over 3 patterns and 12 properties, accepted and refused values; non trivial when the history has a refused value, a prepend on a non empty list and a duplicate",
	Checks: []pbt.Check{{Name: "history", Run: func(t *pbt.T) {
		const K = 3
		pats := [K]fc.Pattern{fc.NewPattern(), fc.NewPattern(), fc.NewPattern()}
		model := [K]mpat{{}, {}, {}}
		objs := []fc.Object{}
		for i := 0; i < 12; i++ {
			objs = append(objs, genObject(t))
		}
		var trace []string
		t.Describe(func() string { return strings.Join(trace, "\n") })
		refused, prepended, dup := false, false, false
		add := func(i int, o fc.Object, v fc.Value, app bool) {
			if !accepts(o, v) {
				refused = true
				return
			}
			l := model[i][o]
			e := mval{copyValue(v), 1}
			if app {
				model[i][o] = append(append([]mval(nil), l...), e)
			} else {
				prepended = prepended || len(l) > 0
				model[i][o] = append([]mval{e}, l...)
			}
		}
		for n := 1 + t.Size(40); n > 0; n-- {
			i := t.Intn(K)
			o := pbt.Pick(t, objs)
			switch t.Weighted(8, 3, 4, 2, 2, 1, 2) {
			case 0, 1:
				v := genValueFor(t, o, true)
				if t.Chance(1, 4) {
					v = genValue(t, oAny, true)
				}
				app := t.Bool()
				trace = append(trace, fmt.Sprintf("p%d.Add(%s, %s, %v)", i, o, descValue(v), app))
				add(i, o, v, app)
				t.NoPanic("Add", func() { pats[i].Add(o, v, app) })
				if c, ok := v.(fc.Charset); ok { // the pattern keeps its own copy
					for _, r := range universe[:40] {
						c.DelChar(r)
					}
				}
			case 2:
				switch t.Intn(4) {
				case 0:
					v := genInt(t)
					trace = append(trace, fmt.Sprintf("p%d.AddInt(%s, %d)", i, o, v))
					add(i, o, fc.Int(v), true)
					pats[i].AddInt(o, v)
				case 1:
					v := genFloat(t)
					trace = append(trace, fmt.Sprintf("p%d.AddFloat(%s, %g)", i, o, v))
					add(i, o, fc.Float(v), true)
					pats[i].AddFloat(o, v)
				case 2:
					v := genString(t)
					trace = append(trace, fmt.Sprintf("p%d.AddString(%s, %q)", i, o, v))
					add(i, o, fc.String(v), true)
					pats[i].AddString(o, v)
				case 3:
					v := t.Bool()
					trace = append(trace, fmt.Sprintf("p%d.AddBool(%s, %v)", i, o, v))
					b := fc.False
					if v {
						b = fc.True
					}
					add(i, o, b, true)
					pats[i].AddBool(o, v)
				}
			case 3:
				trace = append(trace, fmt.Sprintf("p%d.Del(%s)", i, o))
				pats[i].Del(o)
				delete(model[i], o)
			case 4:
				j := t.Intn(K)
				trace = append(trace, fmt.Sprintf("p%d = p%d.Duplicate()", i, j))
				pats[i] = pats[j].Duplicate()
				model[i] = model[j].copy()
				dup = true
			case 5:
				var els []fc.PatternElement
				model[i] = mpat{}
				for k := t.Size(5); k > 0; k-- {
					o := pbt.Pick(t, objs)
					v := genValue(t, oAny, true)
					if t.Bool() {
						v = genValueFor(t, o, true)
					}
					els = append(els, fc.PatternElement{Object: o, Value: v})
					add(i, o, v, true)
				}
				pats[i] = fc.BuildPattern(els...)
				trace = append(trace, fmt.Sprintf("p%d = BuildPattern(%v)", i, els))
			case 6: // change a value stored in one pattern: only this one changes
				type place struct {
					o fc.Object
					k int
				}
				var places []place
				for _, o := range objs {
					for k, x := range model[i][o] {
						if _, ok := x.v.(fc.Charset); ok {
							places = append(places, place{o, k})
						}
					}
				}
				if len(places) == 0 {
					break
				}
				at := pbt.Pick(t, places)
				v, _ := pats[i].GetAt(at.o, at.k)
				c, ok := v.(fc.Charset)
				if !ok {
					t.Fatalf("p%d: %s[%d] is not a character set", i, at.o, at.k)
				}
				if l := charsetRunes(c); len(l) > 0 {
					r := sortedRunes(l)[0]
					trace = append(trace, fmt.Sprintf("delete %#x from the charset %s[%d] of p%d", r, at.o, at.k, i))
					c.DelChar(r)
					l := append([]mval(nil), model[i][at.o]...)
					cp := l[at.k].v.(fc.Charset).Copy()
					cp.DelChar(r)
					l[at.k].v = cp
					model[i][at.o] = l
				}
			}
			for k := range pats {
				if s := model[k].diff(pats[k]); s != "" {
					t.Fatalf("p%d: %s", k, s)
				}
			}
		}
		for k := range pats {
			for _, o := range objs {
				checkGetters(t, pats[k], model[k], o)
			}
			checkGetters(t, pats[k], model[k], fc.FILE)
			t.NoPanic("String", func() { _ = pats[k].String() })
			if s := model[k].diff(pats[k]); s != "" {
				t.Fatalf("reading changed p%d: %s", k, s)
			}
		}
		if refused && prepended && dup {
			t.NonTrivial(strings.Join(trace, ";"))
		}
	}}},
}

func sortedRunes(s runeSet) []rune {
	var l []rune
	for _, r := range universe {
		if s[r] {
			l = append(l, r)
		}
	}
	return l
}
