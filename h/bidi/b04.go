package main

import (
	"fmt"

	fb "github.com/benoitkugler/textprocessing/fribidi"
	"verifh/pbt"
)

func isMarkRemoved(r rune, c cls) bool {
	switch c {
	case cLRE, cRLE, cLRO, cRLO, cPDF, cBN, cLRI, cRLI, cFSI, cPDI:
		return true
	}
	return r == 0x200E || r == 0x200F
}

var propB04 = &pbt.Prop{
	ID: "B04", Quick: 2000000, Thorough: 120000000,
	Rule: "random strings rich in controls, random permutation as position maps, each list present or absent; non trivial when at least one character is removed and one kept and a map is given",
	Checks: []pbt.Check{{Name: "remove", Run: func(t *pbt.T) {
		s := genText(t, 24)
		if t.Bool() { // denser in marks
			for i := range s {
				if t.Chance(1, 3) {
					s[i] = pbt.Pick(t, pools[10+t.Intn(2)])
				}
			}
		}
		n := len(s)
		from := t.Perm(n) // position of each character of str in the other string
		if t.Chance(1, 4) {
			for i := range from {
				from[i] = i
			}
		}
		to := make([]int, n)
		for i, f := range from {
			to[f] = i
		}
		lv := make([]fb.Level, n)
		for i := range lv {
			lv[i] = fb.Level(t.Intn(4))
		}
		hasTo, hasFrom, hasLv := t.Bool(), t.Bool(), t.Bool()
		t.Input("text %s\nto %v (given %v) from %v (given %v) levels %v (given %v)", showRunes(s), to, hasTo, from, hasFrom, lv, hasLv)
		types := textClasses(s)
		var keep []int
		for i := range s {
			if !isMarkRemoved(s[i], types[i]) {
				keep = append(keep, i)
			}
		}
		str := append([]rune(nil), s...)
		var aTo, aFrom []int
		var aLv []fb.Level
		if hasTo {
			aTo = append([]int(nil), to...)
		}
		if hasFrom {
			aFrom = append([]int(nil), from...)
		}
		if hasLv {
			aLv = append([]fb.Level(nil), lv...)
		}
		var out []rune
		t.NoPanic("RemoveBidiMarks", func() { out = fb.RemoveBidiMarks(str, aTo, aFrom, aLv) })
		if len(out) != len(keep) {
			t.Fatalf("%d characters kept (%s), want %d", len(out), showRunes(out), len(keep))
		}
		for j, i := range keep {
			if out[j] != s[i] {
				t.Fatalf("kept character %d is %04X, want %04X", j, out[j], s[i])
			}
			if hasLv && aLv[j] != lv[i] {
				t.Fatalf("level of kept character %d is %d, want %d", j, aLv[j], lv[i])
			}
			if hasFrom && aFrom[j] != from[i] {
				t.Fatalf("position from this of kept character %d is %d, want %d", j, aFrom[j], from[i])
			}
		}
		if hasTo {
			want := make([]int, n)
			for i := range want {
				want[i] = -1
			}
			for j, i := range keep {
				want[from[i]] = j
			}
			if fmt.Sprint(want) != fmt.Sprint(aTo) {
				t.Fatalf("positions to this are %v, want %v", aTo, want)
			}
		}
		if len(keep) > 0 && len(keep) < n && (hasTo || hasFrom || hasLv) {
			t.NonTrivial(fmt.Sprint(string(s), from, hasTo, hasFrom, hasLv))
		}
	}}},
}
