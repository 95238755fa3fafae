package main

import (
	"fmt"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// the algebra of charsets is reached through rules over custom properties
var (
	csConfig *fc.Config
	csObj    map[string]fc.Object
	csOps    = []string{"eq", "not_eq", "contains", "not_contains"}
)

func setupCharsetRules() {
	names := []string{"va", "vb", "union", "minus"}
	var b strings.Builder
	b.WriteString(`<fontconfig>
<match target="font"><edit name="union" mode="assign"><plus><name>va</name><name>vb</name></plus></edit>
<edit name="minus" mode="assign"><minus><name>va</name><name>vb</name></minus></edit></match>`)
	for _, op := range csOps {
		fmt.Fprintf(&b, `<match target="font"><test name="va" compare="%s"><name>vb</name></test><edit name="r_%s" mode="assign"><bool>true</bool></edit></match>`, op, op)
		names = append(names, "r_"+op)
	}
	b.WriteString("</fontconfig>")
	csConfig = mustLoad(b.String())
	csObj = customObjects(csConfig, names)
}

func isSubset(a, b runeSet) bool {
	for r := range a {
		if !b[r] {
			return false
		}
	}
	return true
}

var propF01 = &pbt.Prop{
	ID: "F01", Quick: 400000, Thorough: 20000000,
	Rule:  "up to 40 add/delete/copy/assign operations over 3 charsets, code points from page boundaries of all planes (plus arbitrary ones); non trivial when at least two pages are used and one deletion hits a member",
	Setup: func(string) { setupCharsetRules() },
	Checks: []pbt.Check{{Name: "history", Run: func(t *pbt.T) {
		const K = 3
		var cs [K]fc.Charset
		model := [K]runeSet{{}, {}, {}}
		var trace []string
		t.Describe(func() string { return strings.Join(trace, "; ") })
		deleted, pages := false, map[rune]bool{}
		extra := runeSet{}
		pick := func(i int) rune {
			switch t.Weighted(6, 3, 1) {
			case 0:
				return pbt.Pick(t, universe)
			case 1: // a member or a neighbour of one
				base := universe[t.Intn(len(universe))]
				return rune(min(0x10FFFF, max(0, int(base)+t.Range(-33, 33))))
			default:
				return rune(t.Intn(0x110000))
			}
		}
		var last rune
		for n := 1 + t.Size(40); n > 0; n-- {
			i := t.Intn(K)
			switch t.Weighted(6, 2, 2, 1, 1) {
			case 0:
				r := pick(i)
				last = r
				trace = append(trace, fmt.Sprintf("s%d.Add(%#x)", i, r))
				cs[i].AddChar(r)
				model[i][r] = true
				extra[r] = true
				pages[r>>8] = true
			case 1:
				r := pick(i)
				trace = append(trace, fmt.Sprintf("s%d.Del(%#x)", i, r))
				cs[i].DelChar(r)
				deleted = deleted || model[i][r]
				delete(model[i], r)
				extra[r] = true
			case 2: // delete something present, when possible
				trace = append(trace, fmt.Sprintf("s%d.Del(%#x)", i, last))
				deleted = deleted || model[i][last]
				cs[i].DelChar(last)
				delete(model[i], last)
			case 3:
				j := t.Intn(K)
				trace = append(trace, fmt.Sprintf("s%d = s%d.Copy()", i, j))
				cs[i] = cs[j].Copy()
				model[i] = model[j].copy()
			case 4: // a block
				start, l := t.Intn(len(universe)), 1+t.Intn(300)
				del := t.Chance(1, 3)
				trace = append(trace, fmt.Sprintf("s%d block %#x.. (%d) delete %v", i, universe[start], l, del))
				for k := start; k < len(universe) && k < start+l; k++ {
					r := universe[k]
					if del {
						cs[i].DelChar(r)
						deleted = deleted || model[i][r]
						delete(model[i], r)
					} else {
						cs[i].AddChar(r)
						model[i][r] = true
						pages[r>>8] = true
					}
				}
			}
		}
		for i := range cs {
			if got, want := cs[i].Len(), len(model[i]); got != want {
				t.Fatalf("s%d.Len() = %d, want %d", i, got, want)
			}
			for _, r := range universe {
				if got := cs[i].HasChar(r); got != model[i][r] {
					t.Fatalf("s%d.HasChar(%#x) = %v, want %v", i, r, got, model[i][r])
				}
			}
			for r := range extra {
				if got := cs[i].HasChar(r); got != model[i][r] {
					t.Fatalf("s%d.HasChar(%#x) = %v, want %v", i, r, got, model[i][r])
				}
			}
			// a copy is independent
			cp := cs[i].Copy()
			cp.AddChar(0x123456 & 0xFFFFF)
			for _, r := range []rune{universe[t.Intn(len(universe))], last} {
				cp.DelChar(r)
				if cs[i].HasChar(r) != model[i][r] {
					t.Fatalf("deleting %#x from a copy of s%d changed it", r, i)
				}
				cp.AddChar(r)
				if cs[i].HasChar(r) != model[i][r] {
					t.Fatalf("adding %#x to a copy of s%d changed it", r, i)
				}
			}
		}
		if deleted && len(pages) >= 2 {
			t.NonTrivial(strings.Join(trace, ";"))
		}
		same := func(what string, c fc.Charset, want runeSet) {
			if c.Len() != len(want) {
				t.Fatalf("%s has %d elements, want %d", what, c.Len(), len(want))
			}
			for r := range want {
				if !c.HasChar(r) {
					t.Fatalf("%s misses %#x", what, r)
				}
			}
		}
		// algebra
		a, b := 0, 1
		ma, mb := model[a], model[b]
		subAB, subBA := isSubset(ma, mb), isSubset(mb, ma)
		p := fc.NewPattern()
		p.Add(csObj["va"], cs[a], true)
		p.Add(csObj["vb"], cs[b], true)
		before := [2]string{charsetKey(cs[a]), charsetKey(cs[b])}
		csConfig.Substitute(p, fc.NewPattern(), fc.MatchResult)
		un, mi := ma.copy(), runeSet{}
		for r := range mb {
			un[r] = true
		}
		for r := range ma {
			if !mb[r] {
				mi[r] = true
			}
		}
		cu, ok1 := p.GetCharset(csObj["union"])
		cm, ok2 := p.GetCharset(csObj["minus"])
		if !ok1 || !ok2 {
			t.Fatalf("union / difference expressions gave no charset")
		}
		same("union of s0 and s1", cu, un)
		same("difference of s0 and s1", cm, mi)
		eq := subAB && subBA
		for i, want := range []bool{eq, !eq, subBA, !subBA} {
			_, got := p.GetBool(csObj["r_"+csOps[i]])
			if got != want {
				t.Fatalf("test s0 %s s1 is %v, want %v", csOps[i], got, want)
			}
		}
		if before != [2]string{charsetKey(cs[a]), charsetKey(cs[b])} {
			t.Fatalf("the operands changed")
		}
		// subset through listing, union through sorting, difference count through matching
		fa, fb := fc.NewPattern(), fc.NewPattern()
		fa.Add(fc.CHARSET, cs[a], true)
		fb.Add(fc.CHARSET, cs[b], true)
		fa.AddInt(fc.INDEX, 1)
		fb.AddInt(fc.INDEX, 2)
		q := fc.NewPattern()
		q.Add(fc.CHARSET, cs[b], true)
		if got := len(fc.Fontset{fa}.List(q, fc.INDEX)) == 1; got != subBA {
			t.Fatalf("listing the fonts covering s1 reports s0: %v, want %v", got, subBA)
		}
		_, cov := fc.Fontset{fa, fb}.Sort(fc.NewPattern(), true)
		same("sort coverage", cov, un)
		kept, _ := fc.Fontset{fa, fb}.Sort(fc.NewPattern(), true)
		if got, want := len(kept) == 1, subBA; got != want {
			t.Fatalf("trimmed sort drops s1: %v, want %v", got, want)
		}
		// third charset: the one missing fewer characters of s2 wins
		cnt := func(x, y runeSet) (n int) {
			for r := range x {
				if !y[r] {
					n++
				}
			}
			return
		}
		q2 := fc.NewPattern()
		q2.Add(fc.CHARSET, cs[2], true)
		want := int32(1)
		if cnt(model[2], mb) < cnt(model[2], ma) {
			want = 2
		}
		m := fc.Fontset{fa, fb}.Match(q2, fc.NewConfig())
		if got, _ := m.GetInt(fc.INDEX); got != want {
			t.Fatalf("matching s2 against s0 (missing %d) and s1 (missing %d) selects font %d", cnt(model[2], ma), cnt(model[2], mb), got)
		}
		if got, want := fa.Hash() == fb.Hash(), false; got != want { // differ by index
			t.Fatalf("patterns with different indices have the same hash")
		}
		fa.Del(fc.INDEX)
		fb.Del(fc.INDEX)
		if len(ma) > 0 || len(mb) > 0 {
			if got := fa.Hash() == fb.Hash(); got != eq {
				t.Fatalf("hashes of s0 and s1 equal: %v, sets equal: %v", got, eq)
			}
		}
	}}},
}
