package main

import (
	"fmt"
	"strings"

	fb "github.com/benoitkugler/textprocessing/fribidi"
	"verifh/pbt"
	"verifh/uba"
)

const openBit = fb.BracketType(1) << 31

func showTypes(types []cls, brk []int) string {
	var sb strings.Builder
	for i := 0; i < len(types); {
		j := i
		for j < len(types) && types[j] == types[i] && (brk == nil || (brk[j] == 0 && brk[i] == 0)) {
			j++
		}
		if j == i {
			j = i + 1
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		if brk != nil && brk[i] > 0 {
			fmt.Fprintf(&sb, "open%d", brk[i])
		} else if brk != nil && brk[i] < 0 {
			fmt.Fprintf(&sb, "close%d", -brk[i])
		} else {
			sb.WriteString(clsNames[types[i]])
		}
		if j-i > 1 {
			fmt.Fprintf(&sb, "*%d", j-i)
		}
		i = j
	}
	return sb.String()
}

// palettes restrict the classes to make interactions likely
var palettes = [][]cls{
	{cL, cR, cAL, cEN, cES, cET, cAN, cCS, cNSM, cBN, cS, cWS, cON, cLRE, cLRO, cRLE, cRLO, cPDF, cLRI, cRLI, cFSI, cPDI},
	{cL, cR, cEN, cON, cWS},
	{cL, cR, cAL, cEN, cES, cET, cAN, cCS, cNSM, cON},
	{cL, cR, cLRE, cRLE, cLRO, cRLO, cPDF, cON, cEN},
	{cL, cR, cLRI, cRLI, cFSI, cPDI, cON, cEN, cNSM},
	{cL, cR, cLRI, cRLI, cFSI, cPDI, cLRE, cRLE, cLRO, cRLO, cPDF, cON, cWS, cBN},
	{cR, cAL, cEN, cAN, cES, cCS, cET, cNSM, cBN},
	{cL, cR, cON, cNSM, cWS, cEN, cFSI, cRLI, cPDI},
	{cWS, cS, cON, cL, cR, cLRI, cPDI, cBN},
}

func genTypes(t *pbt.T, withBrackets bool) (types []cls, brk []int) {
	pal := pbt.Pick(t, palettes)
	n := t.Size(40)
	if withBrackets {
		brk = []int{}
	}
	for i := 0; i < n; i++ {
		rep := 1
		switch t.Weighted(60, 8, 1) {
		case 1:
			rep = t.Range(1, 4)
		case 2:
			rep = t.Range(1, 70) // deep nesting
		}
		b := 0
		c := cON
		if withBrackets && t.Chance(1, 3) {
			b = t.Range(1, 3)
			if t.Bool() {
				b = -b
			}
		} else {
			c = pbt.Pick(t, pal)
		}
		for k := 0; k < rep; k++ {
			types = append(types, c)
			if withBrackets {
				brk = append(brk, b)
			}
		}
	}
	if t.Chance(1, 8) {
		types = append(types, cB)
		if withBrackets {
			brk = append(brk, 0)
		}
	}
	return
}

func toFb(types []cls, brk []int) ([]fb.CharType, []fb.BracketType) {
	out := make([]fb.CharType, len(types))
	for i, c := range types {
		out[i] = clsToFb[c]
	}
	var bs []fb.BracketType
	if brk != nil {
		bs = make([]fb.BracketType, len(types))
		for i, b := range brk {
			if b > 0 {
				bs[i] = fb.BracketType(b) | openBit
			} else if b < 0 {
				bs[i] = fb.BracketType(-b)
			}
		}
	}
	return out, bs
}

var baseDirs = []struct {
	name           string
	d              fb.ParType
	base, fallback int
}{
	{"LTR", fb.LTR, 0, 0}, {"RTL", fb.RTL, 1, 1}, {"ON", fb.ON, -1, 0}, {"WLTR", fb.WLTR, -1, 0}, {"WRTL", fb.WRTL, -1, 1},
}

func checkLevels(t *pbt.T, types []cls, brk []int, bd int) {
	b := baseDirs[bd]
	t.Input("base %s, types: %s", b.name, showTypes(types, brk))
	ft, fbk := toFb(types, brk)
	u := &uba.Para{Types: types, Brk: brk}
	u.Run(b.base, b.fallback)
	dir := b.d
	var got []fb.Level
	var mx fb.Level
	t.NoPanic("GetParEmbeddingLevels", func() { got, mx = fb.GetParEmbeddingLevels(ft, fbk, &dir) })
	if len(got) != len(types) {
		t.Fatalf("%d levels for %d types", len(got), len(types))
	}
	if u.BracketOverflow {
		t.Label("bracket stack overflow")
	}
	distinct := map[int]bool{}
	for i, c := range types {
		if !isRemoved(c) {
			distinct[u.Levels[i]] = true
		}
	}
	if len(distinct) >= 2 {
		t.NonTrivial(fmt.Sprint(bd, types, brk))
	}
	if u.Overflow {
		t.Label("depth overflow")
	}
	if u.Pairs > 0 {
		t.Label("bracket pairs")
	}
	for i, c := range types {
		if isRemoved(c) {
			continue
		}
		if int(got[i]) != u.Levels[i] {
			t.Fatalf("level of character %d (%s) is %d, UAX#9 gives %d\n got %v\nwant %v", i, clsNames[c], got[i], u.Levels[i], got, u.Levels)
		}
	}
	if len(types) > 0 {
		var wantDir fb.ParType = fb.LTR
		if u.Base == 1 {
			wantDir = fb.RTL
		}
		if b.base < 0 && !dir.IsStrong() {
			// no strong character found: the weak direction passed stays
			if dir.IsRtl() != (u.Base == 1) {
				t.Fatalf("resolved direction %v, want level %d", dir, u.Base)
			}
		} else if dir.IsRtl() != wantDir.IsRtl() {
			t.Fatalf("resolved direction %v, want %v", dir, wantDir)
		}
		post := u.Base
		for i, c := range types {
			if !isRemoved(c) && u.Levels[i] > post {
				post = u.Levels[i]
			}
		}
		if int(mx) != u.Max+1 && int(mx) != post+1 {
			t.Fatalf("max level + 1 is %d, want %d", mx, u.Max+1)
		}
	} else if mx != 1 {
		t.Fatalf("empty input: max level + 1 is %d", mx)
	}
}

var propB01 = &pbt.Prop{
	ID: "B01", Quick: 2500000, Thorough: 150000000,
	Rule:        "random class sequences from nine palettes (0-40 draws, runs up to 70 for depth), optional bracket ids, five base directions; non trivial when at least two different resolved levels occur",
	Assumptions: []string{"explicit formatting characters and boundary neutrals (removed by X9) have unspecified levels"},
	Checks: []pbt.Check{
		{Name: "classes", Weight: 2, Run: func(t *pbt.T) {
			types, _ := genTypes(t, false)
			checkLevels(t, types, nil, t.Intn(5))
		}},
		{Name: "deep", Weight: 1, Run: func(t *pbt.T) {
			// nesting close to the limits of the algorithm, then anything
			var types []cls
			var brk []int
			for k := t.Range(1, 3); k > 0; k-- {
				c := pbt.Pick(t, []cls{cLRE, cRLE, cLRO, cRLO, cLRI, cRLI, cFSI, cPDI, cPDF, cON})
				b := 0
				if c == cON {
					b = t.Range(1, 3)
				}
				for n := t.Range(0, 66); n > 0; n-- {
					types, brk = append(types, c), append(brk, b)
				}
			}
			t2, b2 := genTypes(t, true)
			if n := len(t2); n > 0 && t2[n-1] == cB { // single paragraph
				t2, b2 = t2[:n-1], b2[:n-1]
			}
			types, brk = append(types, t2...), append(brk, b2...)
			for k := t.Range(0, 2); k > 0; k-- {
				c := pbt.Pick(t, []cls{cPDI, cPDF, cL, cR, cEN, cNSM})
				for n := t.Range(0, 66); n > 0; n-- {
					types, brk = append(types, c), append(brk, 0)
				}
			}
			checkLevels(t, types, brk, t.Intn(5))
		}},
		{Name: "brackets", Weight: 2, Run: func(t *pbt.T) {
			types, brk := genTypes(t, true)
			checkLevels(t, types, brk, t.Intn(5))
		}},
	},
}
