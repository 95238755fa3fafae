package main

import (
	"fmt"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// content of a pattern as plain data
type entry struct {
	o fc.Object
	l []fc.Value
}

func genEntries(t *pbt.T, n int) []entry {
	var out []entry
	seen := map[fc.Object]bool{}
	for ; n > 0; n-- {
		o := genObject(t)
		if seen[o] {
			continue
		}
		seen[o] = true
		e := entry{o: o}
		for m := 1 + t.Size(3); m > 0; m-- {
			v := genValueFor(t, o, true)
			if s, ok := v.(fc.String); ok {
				v = fc.String(clip(string(s), 40))
			}
			e.l = append(e.l, v)
		}
		out = append(out, e)
	}
	return out
}

// build makes the pattern by a random history
func buildEntries(t *pbt.T, es []entry) fc.Pattern {
	p := fc.NewPattern()
	for _, i := range t.Perm(len(es)) {
		e := es[i]
		switch t.Intn(4) {
		case 0, 1:
			for _, v := range e.l {
				p.Add(e.o, v, true)
			}
		case 2: // prepend
			for j := len(e.l) - 1; j >= 0; j-- {
				p.Add(e.o, e.l[j], false)
			}
		case 3: // noise, removed
			p.Add(e.o, e.l[0], true)
			p.Add(fc.FAMILY, fc.Int(3), true) // refused
			p.Del(e.o)
			for _, v := range e.l {
				p.Add(e.o, rebuild(t, v), true)
			}
		}
		if t.Chance(1, 4) {
			(*p[e.o])[0].Binding = 0 // identity ignores bindings
		}
	}
	if t.Bool() {
		p = p.Duplicate()
	}
	return p
}

// rebuild makes the same value in another way
func rebuild(t *pbt.T, v fc.Value) fc.Value {
	switch v := v.(type) {
	case fc.Charset:
		var c fc.Charset
		l := sortedRunes(charsetRunes(v))
		tmp := pbt.Pick(t, universe)
		c.AddChar(tmp)
		c.DelChar(tmp)
		for _, i := range t.Perm(len(l)) {
			c.AddChar(l[i])
		}
		return c
	case fc.Langset:
		return v.Copy()
	}
	return v
}

func editValue(t *pbt.T, o fc.Object, v fc.Value) fc.Value {
	switch v := v.(type) {
	case fc.Int:
		if accepts(o, fc.Float(1)) && t.Bool() {
			return fc.Float(v) // another type
		}
		return v + fc.Int(pbt.Pick(t, []int32{1, -1, 256, 1 << 24, -1 << 31}))
	case fc.Float:
		if accepts(o, fc.Int(1)) && v == fc.Float(int32(v)) && t.Bool() {
			return fc.Int(v)
		}
		if accepts(o, fc.Range{}) && t.Bool() {
			return fc.Range{Begin: float32(v), End: float32(v)}
		}
		return v + v/1000000 + 0.5
	case fc.String:
		s := string(v)
		switch t.Intn(4) {
		case 0:
			return fc.String(s + pbt.Pick(t, []string{" ", "x", "\x00", "1", "|"}))
		case 1:
			return fc.String("x" + s)
		case 2:
			if s != "" {
				return fc.String(s[:len(s)-1])
			}
		}
		return genValueFor(t, o, true)
	case fc.Bool:
		return (v + 1 + fc.Bool(t.Intn(2))) % 3
	case fc.Matrix:
		switch t.Intn(4) {
		case 0:
			v.Xx = v.Xx + v.Xx/1000000 + 0.5
		case 1:
			v.Xx, v.Xy = v.Xy, v.Xx
		case 2:
			v.Yx, v.Xy = v.Xy, v.Yx
		case 3:
			v.Yy += v.Yy/1000000 + 0.5
		}
		return v
	case fc.Range:
		if t.Bool() {
			return fc.Range{Begin: v.End, End: v.Begin}
		}
		v.End += v.End/1000000 + 0.5
		return v
	case fc.Charset:
		c := v.Copy()
		r := pbt.Pick(t, universe)
		if c.HasChar(r) {
			c.DelChar(r)
		} else {
			c.AddChar(r)
		}
		return c
	case fc.Langset:
		return mkLangset(genLangs(t, true))
	}
	return v
}

func cloneEntries(es []entry) []entry {
	var out []entry
	for _, e := range es {
		out = append(out, entry{e.o, append([]fc.Value(nil), e.l...)})
	}
	return out
}

// edit makes one small difference (maybe none)
func editEntries(t *pbt.T, es []entry) ([]entry, string) {
	es = cloneEntries(es)
	if len(es) == 0 {
		return genEntries(t, 1), "add a property"
	}
	i := t.Intn(len(es))
	e := &es[i]
	switch t.Weighted(8, 2, 2, 2, 2, 1, 3, 2) {
	case 0:
		j := t.Intn(len(e.l))
		e.l[j] = editValue(t, e.o, e.l[j])
		return es, "edit a value"
	case 1:
		j, k := t.Intn(len(e.l)), t.Intn(len(e.l))
		e.l[j], e.l[k] = e.l[k], e.l[j]
		return es, "swap two values"
	case 2:
		j := t.Intn(len(e.l))
		e.l = append(e.l[:j], e.l[j+1:]...)
		if len(e.l) == 0 {
			es = append(es[:i], es[i+1:]...)
		}
		return es, "drop a value"
	case 3:
		e.l = append(e.l, genValueFor(t, e.o, true))
		return es, "append a value"
	case 4: // move a value to another property
		k := t.Intn(len(es))
		v := e.l[len(e.l)-1]
		if k != i && accepts(es[k].o, v) {
			e.l = e.l[:len(e.l)-1]
			es[k].l = append([]fc.Value{v}, es[k].l...)
			if len(e.l) == 0 {
				es = append(es[:i], es[i+1:]...)
			}
		}
		return es, "move a value to another property"
	case 5: // same values under another object
		o := genObject(t)
		for _, x := range es {
			if x.o == o {
				return es, "nothing"
			}
		}
		for _, v := range e.l {
			if !accepts(o, v) {
				return es, "nothing"
			}
		}
		e.o = o
		return es, "rename a property"
	case 6: // move bytes between strings, merge or split
		for j := 0; j+1 < len(e.l); j++ {
			a, ok1 := e.l[j].(fc.String)
			b, ok2 := e.l[j+1].(fc.String)
			if ok1 && ok2 {
				s := string(a) + string(b)
				switch t.Intn(3) {
				case 0:
					k := t.Intn(len(s) + 1)
					e.l[j], e.l[j+1] = fc.String(s[:k]), fc.String(s[k:])
				case 1:
					e.l[j] = fc.String(s)
					e.l = append(e.l[:j+1], e.l[j+2:]...)
				case 2:
					e.l[j] = a + "\x00" + b
					e.l = append(e.l[:j+1], e.l[j+2:]...)
				}
				return es, "move text between two strings"
			}
		}
		if s, ok := e.l[0].(fc.String); ok {
			k := t.Intn(len(s) + 1)
			e.l = append([]fc.Value{s[:k], s[k:]}, e.l[1:]...)
			return es, "split a string"
		}
		fallthrough
	default: // printable form of the value, with the type of a string
		if accepts(e.o, fc.String("")) {
			j := t.Intn(len(e.l))
			e.l[j] = fc.String(fmt.Sprint(e.l[j]))
			return es, "value printed as a string"
		}
		return es, "nothing"
	}
}

func entriesPattern(es []entry) string {
	p := fc.NewPattern()
	for _, e := range es {
		for _, v := range e.l {
			p.Add(e.o, v, true)
		}
	}
	return showPattern(p, false)
}

// langset values keep their order-free identity
var propF05 = &pbt.Prop{
	ID: "F05", Quick: 1200000, Thorough: 40000000,
	Rule:        "pairs of patterns of up to 8 properties built by different histories (order of properties, prepends, deletions, duplicates, bindings, charsets built in another order) and pairs differing by up to 2 small edits (value, type, order, property, split of strings, printed forms); non trivial when the pair has at least 2 properties and was edited",
	Assumptions: []string{"identity ignores the binding of values, as in the library's documentation", "no NaN and no negative zero"},
	Checks: []pbt.Check{{Name: "pairs", Run: func(t *pbt.T) {
		a := genEntries(t, t.Size(8))
		b := cloneEntries(a)
		what := "same content"
		edited := t.Chance(4, 5)
		if edited {
			b, what = editEntries(t, a)
			if t.Chance(1, 5) {
				b, _ = editEntries(t, b)
				what += ", and another edit"
			}
		}
		pa, pb := buildEntries(t, a), buildEntries(t, b)
		t.Describe(func() string { return fmt.Sprintf("%s\n%s\n%s", what, descPattern(pa), descPattern(pb)) })
		ka, kb := showPattern(pa, false), showPattern(pb, false)
		if edited && len(a) >= 2 {
			t.NonTrivial(ka + "\n" + kb)
		}
		if want := entriesPattern(a); ka != want {
			t.Fatalf("the pattern built is %s, want %s", ka, want)
		}
		t.Label(what)
		ha, hb := pa.Hash(), pb.Hash()
		if ha != pa.Hash() || ha != pa.Duplicate().Hash() {
			t.Fatalf("the hash is not stable")
		}
		if (ha == hb) != (ka == kb) {
			t.Fatalf("same hash: %v, same content: %v", ha == hb, ka == kb)
		}
		// listing all the properties keeps one pattern by content
		objs := []fc.Object{}
		for o := range pa {
			objs = append(objs, o)
		}
		for o := range pb {
			if pa[o] == nil {
				objs = append(objs, o)
			}
		}
		if len(objs) > 0 {
			n := len(fc.Fontset{pa, pb, pa.Duplicate()}.List(fc.NewPattern(), objs...))
			if want := map[bool]int{true: 1, false: 2}[ka == kb]; n != want {
				t.Fatalf("listing the two fonts gives %d patterns, want %d", n, want)
			}
		}
	}}},
}
