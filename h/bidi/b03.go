package main

import (
	"fmt"

	fb "github.com/benoitkugler/textprocessing/fribidi"
	"verifh/pbt"
	"verifh/ucd"
)

var joiningOf = ucd.Table("Joining_Type", "U")

var lamAlef = map[[2]rune]rune{
	{0xFEDF, 0xFE82}: 0xFEF5, {0xFEDF, 0xFE84}: 0xFEF7, {0xFEDF, 0xFE88}: 0xFEF9, {0xFEDF, 0xFE8E}: 0xFEFB,
	{0xFEE0, 0xFE82}: 0xFEF6, {0xFEE0, 0xFE84}: 0xFEF8, {0xFEE0, 0xFE88}: 0xFEFA, {0xFEE0, 0xFE8E}: 0xFEFC,
}

// joinForm returns for each character whether it joins with the previous / next one
func refJoin(s []rune, types []cls, lv []int) (withPrev, withNext []bool) {
	n := len(s)
	withPrev, withNext = make([]bool, n), make([]bool, n)
	prev := -1 // last non transparent character
	broken := false
	for i := 0; i < n; i++ {
		jt := joiningOf(s[i])
		free := isExplicitOrBN(types[i]) // no level of its own
		if jt == "T" || jt == "U" && isIgnoredFormat(s[i], types[i]) {
			if jt == "T" && prev >= 0 && !free && !isExplicitOrBN(types[prev]) && lv[i] != lv[prev] {
				broken = true
			}
			continue
		}
		if prev >= 0 && !broken {
			sameLevel := free || isExplicitOrBN(types[prev]) || lv[i] == lv[prev]
			a, b := joiningOf(s[prev]), jt
			if sameLevel {
				// the side facing the next/previous character
				if joinsForward(a, lv[prev], isExplicitOrBN(types[prev])) && joinsBackward(b, lv[i], free) {
					withNext[prev] = true
					withPrev[i] = true
				}
			}
		}
		prev, broken = i, false
	}
	return
}

// in right-to-left text the next character stands on the left
func joinsForward(jt string, level int, free bool) bool {
	if level%2 == 1 || free {
		return jt == "D" || jt == "C" || jt == "L"
	}
	return jt == "D" || jt == "C" || jt == "R"
}

func joinsBackward(jt string, level int, free bool) bool {
	if level%2 == 1 || free {
		return jt == "D" || jt == "C" || jt == "R"
	}
	return jt == "D" || jt == "C" || jt == "L"
}

// (ZWNJ, MVS and the isolates are explicitly non-joining in ArabicShaping.txt)
func isIgnoredFormat(r rune, c cls) bool {
	if r == 0x200C || r == 0x180E {
		return false
	}
	switch c {
	case cBN, cLRE, cRLE, cLRO, cRLO, cPDF:
		return true
	}
	return false
}

func refShape(s []rune, types []cls, lv []int, flags fb.Options) []rune {
	out := append([]rune(nil), s...)
	if flags&fb.ShapeArabPres != 0 {
		prev, next := refJoin(s, types, lv)
		for i, r := range s {
			jt := joiningOf(r)
			if jt != "R" && jt != "D" && jt != "L" {
				continue
			}
			right, left := prev[i], next[i]
			if lv[i]%2 == 0 {
				right, left = left, right
			}
			k := 0
			if right {
				k |= 1
			}
			if left {
				k |= 2
			}
			if f := arabForms[r]; f[k] != 0 && r >= 0x600 && r < 0x700 {
				out[i] = f[k]
			}
		}
	}
	if flags&fb.ShapeArabLiga != 0 {
		for i := 0; i+1 < len(s); i++ {
			if lv[i]%2 == 1 && lv[i] == lv[i+1] {
				if l, ok := lamAlef[[2]rune{out[i], out[i+1]}]; ok {
					out[i], out[i+1] = 0xFEFF, l
				}
			}
		}
	}
	if flags&fb.ShapeMirroring != 0 {
		for i := range out {
			if lv[i]%2 == 1 {
				out[i] = mirrorOf(out[i])
			}
		}
	}
	return out
}

func genArabicText(t *pbt.T) []rune {
	n := t.Size(24)
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, pbt.Pick(t, pools[[]int{2, 3, 13, 9, 10, 11, 0, 8, 6, 12, 7}[t.Weighted(8, 3, 6, 3, 3, 2, 1, 2, 1, 1, 1)]]))
	}
	return out
}

var propB03 = &pbt.Prop{
	ID: "B03", Quick: 2500000, Thorough: 150000000,
	Rule: "random Arabic-rich strings (letters of all joining types, marks, ZWJ/ZWNJ, explicit controls, lam-alef pairs) in every base direction and option set; direct shaping over arbitrary levels; non trivial when shaping changes at least one character",
	Checks: []pbt.Check{
		{Name: "joining", Weight: 3, Run: func(t *pbt.T) {
			s := genArabicText(t)
			bd := t.Intn(5)
			flags := genFlags(t)
			t.Input("base %s flags %#x text %s", baseDirs[bd].name, int(flags), showRunes(s))
			types := textClasses(s)
			dir := baseDirs[bd].d
			var v fb.Visual
			t.NoPanic("LogicalToVisual", func() { v, _ = fb.LogicalToVisual(flags, s, &dir) })
			lv := make([]int, len(s))
			for i, l := range v.EmbeddingLevels {
				lv[i] = int(l)
			}
			want := refShape(s, types, lv, flags)
			changed := false
			for vi, l := range v.VisualToLogical {
				if want[l] != s[l] {
					changed = true
				}
				if v.Str[vi] != want[l] {
					t.Fatalf("logical character %d (%04X, level %d) is shown as %04X, want %04X", l, s[l], lv[l], v.Str[vi], want[l])
				}
			}
			if changed {
				t.NonTrivial(fmt.Sprint(string(s), bd, flags))
			}
			for _, r := range want {
				if r == 0xFEFF {
					t.Label("ligature or filler")
					break
				}
			}
		}},
		{Name: "mirroring", Weight: 1, Run: func(t *pbt.T) {
			n := t.Size(20)
			s := make([]rune, n)
			lv := make([]fb.Level, n)
			for i := range s {
				switch t.Intn(4) {
				case 0:
					s[i] = pbt.Pick(t, bracket)
				case 1:
					s[i] = pbt.Pick(t, allMirrors())
				case 2:
					s[i] = pbt.Pick(t, pbt.Pick(t, pools))
				default:
					s[i] = rune(t.Intn(0x110000))
				}
				lv[i] = fb.Level(t.Intn(6))
			}
			flags := genFlags(t)
			t.Input("flags %#x text %s levels %v", int(flags), showRunes(s), lv)
			out := append([]rune(nil), s...)
			t.NoPanic("Shape", func() { fb.Shape(flags, lv, nil, out) })
			for i := range s {
				want := s[i]
				if flags&fb.ShapeMirroring != 0 && lv[i]%2 == 1 && (ucd.AgeAtMost(s[i], 13, 0) || mirrorOf(s[i]) == s[i]) {
					want = mirrorOf(s[i])
					if want != s[i] {
						t.NonTrivial(fmt.Sprint(string(s), lv))
					}
				} else if flags&fb.ShapeMirroring != 0 && lv[i]%2 == 1 {
					continue
				}
				if out[i] != want {
					t.Fatalf("character %d (%04X, level %d) became %04X, want %04X", i, s[i], lv[i], out[i], want)
				}
			}
			t.NoPanic("Shape", func() { fb.Shape(flags, lv, nil, out) })
			if string(out) != string(s) {
				t.Fatalf("mirroring twice gives %s", showRunes(out))
			}
		}},
		{Name: "shape-given-joining", Weight: 1, Run: func(t *pbt.T) {
			// joining resolved by the caller: R joins right only (final), L left only (initial), D both (medial), U/G nothing
			n := t.Size(16)
			s := make([]rune, n)
			lv := make([]fb.Level, n)
			props := make([]fb.JoiningType, n)
			kinds := []fb.JoiningType{fb.U, fb.R, fb.D, fb.L, fb.C, fb.G}
			form := []int{-1, 1, 3, 2, -1, -1}
			ks := make([]int, n)
			for i := range s {
				s[i] = pbt.Pick(t, pools[[]int{2, 13, 3, 12, 0, 6}[t.Weighted(5, 6, 2, 2, 1, 1)]])
				lv[i] = fb.Level(t.Intn(3))
				if i > 0 && !t.Chance(1, 3) {
					lv[i] = lv[i-1]
				}
				ks[i] = t.Intn(len(kinds))
				props[i] = kinds[ks[i]]
			}
			flags := genFlags(t)
			t.Input("flags %#x text %s levels %v joining %v", int(flags), showRunes(s), lv, props)
			want := append([]rune(nil), s...)
			if flags&fb.ShapeArabPres != 0 {
				for i, r := range s {
					if k := form[ks[i]]; k >= 0 {
						if f := arabForms[r]; f[k] != 0 && r >= 0x600 && r < 0x700 {
							want[i] = f[k]
						}
					}
				}
			}
			if flags&fb.ShapeArabLiga != 0 {
				for i := 0; i+1 < n; i++ {
					if lv[i]%2 == 1 && lv[i] == lv[i+1] {
						if l, ok := lamAlef[[2]rune{want[i], want[i+1]}]; ok {
							want[i], want[i+1] = 0xFEFF, l
							t.NonTrivial(fmt.Sprint(string(s), lv, props))
						}
					}
				}
			}
			if flags&fb.ShapeMirroring != 0 {
				for i := range want {
					if lv[i]%2 == 1 {
						want[i] = mirrorOf(want[i])
					}
				}
			}
			out := append([]rune(nil), s...)
			t.NoPanic("Shape", func() { fb.Shape(flags, lv, props, out) })
			if string(out) != string(want) {
				t.Fatalf("got  %s\nwant %s", showRunes(out), showRunes(want))
			}
		}},
	},
}

var mirrorsAll []rune

func allMirrors() []rune {
	if mirrorsAll == nil {
		mirrorsAll = ucd.Explicit("Bidi_Mirroring_Glyph")
	}
	return mirrorsAll
}
