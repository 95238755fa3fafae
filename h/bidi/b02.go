package main

import (
	"fmt"

	fb "github.com/benoitkugler/textprocessing/fribidi"
	"verifh/pbt"
	"verifh/uba"
)

// refReorder returns the visual order (list of logical offsets) of a line, and the final levels.
func refReorder(types []cls, levels []int, base int, reorderNSM bool) (order []int, lv []int) {
	n := len(types)
	lv = append([]int(nil), levels...)
	// L1.4
	for i := n - 1; i >= 0; i-- {
		c := types[i]
		if c == cWS || isExplicitOrBN(c) || c == cLRI || c == cRLI || c == cFSI || c == cPDI {
			lv[i] = base
			continue
		}
		break
	}
	// groups kept together: a base and its marks in right-to-left text (L3)
	group := make([]int, n) // end of the group starting here, or i+1
	for i := range group {
		group[i] = i + 1
	}
	if reorderNSM {
		for i := 0; i < n; {
			if lv[i]%2 == 0 {
				i++
				continue
			}
			j, end := i+1, i+1
			for j < n && lv[j] == lv[i] && (types[j] == cNSM || isExplicitOrBN(types[j])) {
				j++
				if types[j-1] == cNSM {
					end = j
				}
			}
			group[i] = end
			i = end
		}
	}
	// L2, recursively
	var rec func(lo, hi, level int) []int
	rec = func(lo, hi, level int) []int {
		// all positions have levels >= level; the pieces at deeper levels are units
		var units [][]int
		for i := lo; i < hi; {
			if lv[i] > level {
				j := i
				for j < hi && lv[j] > level {
					j++
				}
				units = append(units, rec(i, j, level+1))
				i = j
				continue
			}
			e := group[i]
			if e > i+1 {
				// marks after their base in visual order
				var u []int
				for k := i; k < e; k++ {
					u = append(u, k)
				}
				units = append(units, u)
				i = e
				continue
			}
			units = append(units, []int{i})
			i++
		}
		var out []int
		if level%2 == 1 {
			for k := len(units) - 1; k >= 0; k-- {
				out = append(out, units[k]...)
			}
		} else {
			for _, u := range units {
				out = append(out, u...)
			}
		}
		return out
	}
	return rec(0, n, 0), lv
}

func checkReorder(t *pbt.T, types []cls, levels []int, base int) {
	n := len(types)
	off := t.Range(0, n)
	length := t.Range(0, n-off)
	if t.Chance(1, 3) {
		off, length = 0, n
	}
	flags := fb.Options(0)
	if t.Bool() {
		flags |= fb.ReorderNSM
	}
	if t.Bool() {
		flags |= fb.ShapeMirroring | fb.ShapeArabPres
	}
	hasStr, hasMap := !t.Chance(1, 6), !t.Chance(1, 6)
	t.Input("types %s\nlevels %v, base level %d, line [%d, %d), flags %d, str %v map %v", showTypes(types, nil), levels, base, off, off+length, flags, hasStr, hasMap)
	ft, _ := toFb(types, nil)
	lv := make([]fb.Level, n)
	for i, l := range levels {
		lv[i] = fb.Level(l)
	}
	str := make([]rune, n)
	m := make([]int, n)
	for i := range str {
		str[i] = rune(0x1000 + i)
		m[i] = 7000 + i
	}
	dir := fb.ParType(fb.LTR)
	if base == 1 {
		dir = fb.RTL
	}
	var vs []rune
	var mp []int
	if hasStr {
		vs = str
	}
	if hasMap {
		mp = m
	}
	var mx fb.Level
	t.NoPanic("ReorderLine", func() { mx = fb.ReorderLine(flags, ft, length, off, dir, lv, vs, mp) })
	order, wantLv := refReorder(types[off:off+length], levels[off:off+length], base, flags&fb.ReorderNSM != 0)
	wantMax := 0
	for _, l := range wantLv {
		wantMax = max(wantMax, l)
	}
	if int(mx) != wantMax+1 {
		t.Fatalf("max level + 1 = %d, want %d", mx, wantMax+1)
	}
	for i := 0; i < n; i++ {
		wantS, wantM, wantL := rune(0x1000+i), 7000+i, levels[i]
		if i >= off && i < off+length {
			if hasStr {
				wantS = rune(0x1000 + off + order[i-off])
			}
			if hasMap {
				wantM = 7000 + off + order[i-off]
			}
			wantL = wantLv[i-off]
		}
		if str[i] != wantS {
			t.Fatalf("visual string at %d holds logical character %d, want %d", i, str[i]-0x1000, wantS-0x1000)
		}
		if m[i] != wantM {
			t.Fatalf("map at %d is %d, want %d", i, m[i]-7000, wantM-7000)
		}
		if int(lv[i]) != wantL {
			t.Fatalf("level at %d is %d, want %d", i, lv[i], wantL)
		}
	}
	if wantMax >= 1 && length >= 3 {
		t.NonTrivial(fmt.Sprint(types, levels, off, length, flags))
	}
	if wantMax >= 2 {
		t.Label("nested levels")
	}
}

func refLevels(types []cls, brk []int, bd int) *uba.Para {
	u := &uba.Para{Types: types, Brk: brk}
	u.Run(baseDirs[bd].base, baseDirs[bd].fallback)
	return u
}

func genFlags(t *pbt.T) fb.Options {
	if t.Chance(1, 3) {
		return fb.DefaultFlags
	}
	var f fb.Options
	for _, x := range []fb.Options{fb.ReorderNSM, fb.ShapeMirroring, fb.ShapeArabPres, fb.ShapeArabLiga} {
		if t.Bool() {
			f |= x
		}
	}
	return f
}

func checkVisual(t *pbt.T) {
	s := genText(t, 30)
	bd := t.Intn(5)
	flags := genFlags(t)
	t.Input("base %s flags %#x text %s", baseDirs[bd].name, int(flags), showRunes(s))
	types := textClasses(s)
	u := refLevels(types, textBrackets(s), bd)
	dir := baseDirs[bd].d
	orig := append([]rune(nil), s...)
	var v fb.Visual
	t.NoPanic("LogicalToVisual", func() { v, _ = fb.LogicalToVisual(flags, s, &dir) })
	if string(orig) != string(s) {
		t.Fatalf("the input text was modified")
	}
	n := len(s)
	if len(v.Str) != n || len(v.VisualToLogical) != n || len(v.EmbeddingLevels) != n {
		t.Fatalf("lengths %d %d %d, want %d", len(v.Str), len(v.VisualToLogical), len(v.EmbeddingLevels), n)
	}
	if n > 0 && dir.IsRtl() != (u.Base == 1) {
		t.Fatalf("resolved direction %v, want level %d", dir, u.Base)
	}
	seen := make([]bool, n)
	for _, l := range v.VisualToLogical {
		if l < 0 || l >= n || seen[l] {
			t.Fatalf("not a permutation: %v", v.VisualToLogical)
		}
		seen[l] = true
	}
	var inv []int
	t.NoPanic("inverse", func() { inv = v.LogicalToVisual() })
	for vi, l := range v.VisualToLogical {
		if inv[l] != vi {
			t.Fatalf("inverse map %v of %v", inv, v.VisualToLogical)
		}
	}
	got := make([]int, n)
	lv := make([]int, n)
	for i, l := range v.EmbeddingLevels {
		got[i] = int(l)
		lv[i] = int(l)
	}
	distinct := map[int]bool{}
	for i, c := range types {
		if isRemoved(c) {
			continue
		}
		distinct[got[i]] = true
		if got[i] != u.Levels[i] {
			t.Fatalf("level of character %d (%04X) is %d, want %d\n got %v\nwant %v", i, s[i], got[i], u.Levels[i], got, u.Levels)
		}
	}
	if len(distinct) > 1 {
		t.NonTrivial(fmt.Sprint(string(s), bd, flags))
	}
	// the order, from the levels reported (removed characters follow their level)
	order, _ := refReorder(types, lv, u.Base, flags&fb.ReorderNSM != 0)
	for i := range order {
		if v.VisualToLogical[i] != order[i] {
			t.Fatalf("visual order %v, want %v (levels %v)", v.VisualToLogical, order, lv)
		}
	}
	shaped := refShape(s, types, lv, flags)
	for vi, l := range v.VisualToLogical {
		if v.Str[vi] != shaped[l] {
			t.Fatalf("visual string %s: position %d shows %04X, want %04X (logical %d, %04X)", showRunes(v.Str), vi, v.Str[vi], shaped[l], l, s[l])
		}
	}
}

var propB02 = &pbt.Prop{
	ID: "B02", Quick: 2500000, Thorough: 150000000,
	Rule:        "lines: random classes with UAX#9 or arbitrary levels and any sub-range; texts: random mixed-script strings through the one-call conversion; non trivial when more than one level occurs",
	Assumptions: []string{"characters removed by X9 are ordered by the level reported for them"},
	Checks: []pbt.Check{
		{Name: "line-uba-levels", Run: func(t *pbt.T) {
			types, _ := genTypes(t, false)
			bd := t.Intn(5)
			u := refLevels(types, nil, bd)
			lv := append([]int(nil), u.Levels...)
			prev := u.Base
			for i, c := range types { // like the library, removed characters take the previous level
				if isRemoved(c) {
					lv[i] = prev
				}
				prev = lv[i]
			}
			checkReorder(t, types, lv, u.Base)
		}},
		{Name: "line-any-levels", Run: func(t *pbt.T) {
			types, _ := genTypes(t, false)
			lv := make([]int, len(types))
			mx := pbt.Pick(t, []int{1, 2, 3, 6, 126})
			for i := range lv {
				if i > 0 && t.Chance(1, 2) {
					lv[i] = lv[i-1]
				} else {
					lv[i] = t.Range(0, mx)
				}
			}
			checkReorder(t, types, lv, t.Intn(2))
		}},
		{Name: "logical-to-visual", Weight: 2, Run: checkVisual},
	},
}
