package main

import (
	"fmt"

	fb "github.com/benoitkugler/textprocessing/fribidi"
	"verifh/pbt"
	"verifh/uba"
	"verifh/ucd"
)

// rune ranges of noncharacters and unassigned code points may carry default classes that
// depend on the Unicode version: only the code points assigned in Unicode 13 and before
// (the version of the data the library is built on) are checked.
func checkRune(t *pbt.T, r rune) bool {
	assigned := ucd.AgeAtMost(r, 13, 0) && r != 0x1734 // (class changed in Unicode 14)
	bt := fb.GetBidiType(r)
	c, ok := fbToCls[bt]
	if !ok {
		t.Fatalf("U+%04X has unknown type %v", r, bt)
	}
	if assigned && clsNames[c] != bidiClassOf(r) {
		t.Fatalf("U+%04X has bidi type %s, Unicode says %s", r, clsNames[c], bidiClassOf(r))
	}
	br := fb.GetBracket(r)
	id := 0
	if assigned || ucd.Get("Age", r) == "" {
		id = uba.BracketID(r)
	} else if uba.BracketID(r) != 0 {
		return false
	}
	switch {
	case id == 0:
		if br != fb.NoBracket {
			t.Fatalf("U+%04X is not a bracket, got %x", r, br)
		}
	case id > 0:
		if br&openBit == 0 || br&^openBit == 0 {
			t.Fatalf("U+%04X is an opening bracket, got %x", r, br)
		}
	default:
		if br&openBit != 0 || br == 0 {
			t.Fatalf("U+%04X is a closing bracket, got %x", r, br)
		}
	}
	return assigned
}

func predicates(t *pbt.T, c cls) {
	ty := clsToFb[c]
	in := func(l ...cls) bool {
		for _, x := range l {
			if x == c {
				return true
			}
		}
		return false
	}
	check := func(name string, got, want bool) {
		if got != want {
			t.Fatalf("%s of class %s is %v", name, clsNames[c], got)
		}
	}
	check("letter", ty.IsLetter(), in(cL, cR, cAL))
	check("number", ty.IsNumber(), in(cEN, cAN))
	check("strong", ty.IsStrong(), in(cL, cR, cAL, cLRE, cRLE, cLRO, cRLO))
	check("right-to-left", ty.IsRtl(), in(cR, cAL, cRLE, cRLO, cRLI))
	check("isolate", ty.IsIsolate(), in(cLRI, cRLI, cFSI, cPDI))
	check("arabic", ty.IsArabic(), in(cAL, cAN))
	check("weak", ty.IsWeak(), in(cEN, cES, cET, cAN, cCS, cNSM, cBN, cPDF, cPDI))
}

var propB05 = &pbt.Prop{
	ID: "B05", Quick: 1000000, Thorough: 40000000,
	Rule:        "one full sweep of the code points, then random code points and pairs biased to brackets and mirrored characters; non trivial: assigned code points with a non default class, bracket or mirror",
	Assumptions: []string{"code points unassigned in Unicode 13 (the version of the data linked in) are only checked for totality"},
	Sweep: func(t *pbt.T) {
		n := 0
		for r := rune(0); r <= 0x10FFFF; r++ {
			if r >= 0xD800 && r < 0xE000 {
				continue
			}
			if checkRune(t, r) {
				n++
			}
		}
		for c := range clsToFb {
			predicates(t, cls(c))
		}
		t.Evals(n)
	},
	Checks: []pbt.Check{
		{Name: "pairs", Run: func(t *pbt.T) {
			all := append(ucd.Runes("Bidi_Paired_Bracket_Type", "O", "C", "o", "c"), 0)
			gen := func() rune {
				if t.Chance(9, 10) {
					return pbt.Pick(t, all)
				}
				return rune(t.Intn(0xD800))
			}
			a, b := gen(), gen()
			if t.Chance(1, 4) { // the pair
				if v := ucd.Get("Bidi_Paired_Bracket", a); v != "" {
					fmt.Sscanf(v, "%d", &b)
				}
			}
			t.Input("U+%04X U+%04X", a, b)
			checkRune(t, a)
			checkRune(t, b)
			if !ucd.AgeAtMost(a, 13, 0) || !ucd.AgeAtMost(b, 13, 0) {
				t.Discard()
			}
			ia, ib := uba.BracketID(a), uba.BracketID(b)
			if ia == 0 || ib == 0 {
				return
			}
			ga, gb := fb.GetBracket(a), fb.GetBracket(b)
			same := ga&^openBit == gb&^openBit
			abs := func(x int) int {
				if x < 0 {
					return -x
				}
				return x
			}
			if want := abs(ia) == abs(ib); same != want {
				t.Fatalf("brackets pair: %v, Unicode says %v", same, want)
			}
			t.NonTrivial(fmt.Sprint(a, b))
			if ia > 0 && ib == -ia {
				t.Label("matching pair")
			}
		}},
		{Name: "random", Run: func(t *pbt.T) {
			r := rune(t.Intn(0x110000))
			if r >= 0xD800 && r < 0xE000 {
				t.Discard()
			}
			t.Input("U+%04X", r)
			if checkRune(t, r) && bidiClassOf(r) != "L" {
				t.NonTrivial(fmt.Sprint(r))
			}
			// mirroring, through the public shaping function
			s := []rune{r}
			fb.Shape(fb.ShapeMirroring, []fb.Level{1}, nil, s)
			if ucd.AgeAtMost(r, 13, 0) && s[0] != mirrorOf(r) {
				t.Fatalf("mirror of U+%04X is U+%04X, want U+%04X", r, s[0], mirrorOf(r))
			}
		}},
	},
}
