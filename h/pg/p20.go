package main

import (
	"fmt"
	"math"

	"github.com/benoitkugler/textlayout/language"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
	"verifh/ucd"
)

// Gravity of the scripts and of the matrices, scales of a matrix.

// scriptGravity is resolveGravity with the direction of the Unicode database
func scriptGravity(base pango.Gravity, upright bool, s *scriptInfo, hint pango.GravityHint) pango.Gravity {
	if hint != pango.GRAVITY_HINT_LINE || upright || base != pango.GRAVITY_EAST && base != pango.GRAVITY_WEST {
		return resolveGravity(base, upright, s.script, hint)
	}
	if (base == pango.GRAVITY_EAST) == s.rtl {
		return pango.GRAVITY_NORTH
	}
	return pango.GRAVITY_SOUTH
}

// matrixGravity returns the side of the device that the bottom of the text faces, or false near the diagonals
func matrixGravity(m *pango.Matrix) (pango.Gravity, bool) {
	if m == nil {
		return pango.GRAVITY_SOUTH, true
	}
	// image of the vertical axis, from the top (device y grows downwards)
	x, y := float64(m.Xy), float64(m.Yy)
	if math.Abs(math.Abs(x)-math.Abs(y)) <= 1e-6*(math.Abs(x)+math.Abs(y)) {
		return 0, false
	}
	angle := math.Atan2(x, y) // 0 to the bottom, growing to the right
	switch q := math.Round(angle / (math.Pi / 2)); q {
	case 0:
		return pango.GRAVITY_SOUTH, true
	case 1:
		return pango.GRAVITY_WEST, true // the text goes up: its glyphs are turned counter-clockwise
	case -1:
		return pango.GRAVITY_EAST, true
	}
	return pango.GRAVITY_NORTH, true
}

type gravityCase struct {
	base     pango.Gravity // of the context
	set      bool          // SetBaseGravity is called
	attr     pango.Gravity // or AUTO without attribute
	hint     pango.GravityHint
	before   *pango.Matrix // when the gravity is set
	matrix   *pango.Matrix
	text     []rune
	scripts  []*scriptInfo
	fontDesc bool // gravity given by the font description
}

func (g *gravityCase) run() []pango.Gravity {
	ctx := pango.NewContext(newFontMap(theFaces()...))
	ctx.Matrix = g.before
	if g.set {
		ctx.SetBaseGravity(g.base)
	}
	ctx.Matrix = g.matrix
	var attrs pango.AttrList
	if g.attr != pango.GRAVITY_AUTO && !g.fontDesc {
		attrs.Insert(pango.NewAttrGravity(g.attr))
	}
	if g.fontDesc {
		d := pango.NewFontDescription()
		d.SetGravity(g.attr)
		attrs.Insert(pango.NewAttrFontDescription(d))
	}
	if g.hint != pango.GRAVITY_HINT_NATURAL {
		attrs.Insert(pango.NewAttrGravityHint(g.hint))
	}
	out := make([]pango.Gravity, len(g.text))
	for l := ctx.Itemize(g.text, 0, len(g.text), attrs); l != nil; l = l.Next {
		for i := l.Data.Offset; i < l.Data.Offset+l.Data.Length; i++ {
			out[i] = l.Data.Analysis.Gravity
		}
	}
	return out
}

// want returns false if the gravity of the matrix is ambiguous
func (g *gravityCase) want() ([]pango.Gravity, bool) {
	ctx := pango.GRAVITY_SOUTH
	ok := true
	if g.set {
		ctx = g.base
		if ctx == pango.GRAVITY_AUTO {
			ctx, ok = matrixGravity(g.matrix)
		}
	}
	base := ctx
	if g.attr != pango.GRAVITY_AUTO {
		base = g.attr
	}
	up := uprightChars(g.text)
	out := make([]pango.Gravity, len(g.text))
	for i := range g.text {
		out[i] = scriptGravity(base, up[i], g.scripts[i], g.hint)
		if g.fontDesc && g.attr != pango.GRAVITY_AUTO {
			out[i] = g.attr
		}
	}
	return out, ok
}

func matrixText(m *pango.Matrix) string {
	if m == nil {
		return "none"
	}
	return fmt.Sprintf("%v", *m)
}

func (g *gravityCase) String() string {
	s := fmt.Sprintf("text %U, hint %d, matrix %s (%s before)", g.text, g.hint, matrixText(g.matrix), matrixText(g.before))
	if g.set {
		s += fmt.Sprintf(", base gravity %s", g.base)
	}
	if g.attr != pango.GRAVITY_AUTO || g.fontDesc {
		s += fmt.Sprintf(", gravity %s (font description %v)", g.attr, g.fontDesc)
	}
	return s
}

func genMatrix(t *pbt.T) *pango.Matrix {
	val := func() float32 {
		switch t.Intn(4) {
		case 0:
			return 0
		case 1:
			return float32(t.Range(-8, 8)) / 4
		case 2:
			return float32(t.Range(-2000, 2000)) / 100
		}
		return float32(math.Ldexp(float64(t.Range(-1000, 1000)), t.Range(-20, 10)))
	}
	switch t.Weighted(1, 3, 3, 2) {
	case 0:
		return nil
	case 1: // rotation and scale
		a := float64(t.Range(0, 359)) * math.Pi / 180
		if t.Bool() {
			a = float64(t.Intn(4)) * math.Pi / 2
		}
		sx, sy := float64(t.Range(1, 40))/8, float64(t.Range(1, 40))/8
		if t.Intn(4) == 0 {
			sy = -sy
		}
		return &pango.Matrix{Xx: float32(sx * math.Cos(a)), Xy: float32(sy * math.Sin(a)), Yx: float32(-sx * math.Sin(a)), Yy: float32(sy * math.Cos(a)), X0: val(), Y0: val()}
	case 2:
		return &pango.Matrix{Xx: val(), Xy: val(), Yx: val(), Yy: val(), X0: val(), Y0: val()}
	}
	m := pango.Identity
	return &m
}

var propP20 = &pbt.Prop{
	ID:   "P20",
	Rule: "an oblique or singular matrix, a vertical gravity with a script of another direction or with a hint, a matrix changed after the gravity",
	Assumptions: []string{
		"the scripts written from top to bottom are Bopomofo, Han, Hangul, Hiragana, Katakana, Mongolian, Yi and Samaritan, Ogham is written from bottom to top; horizontal directions and upright characters come from the Unicode database",
		"the gravity of a matrix exactly between two quarter turns is not asserted",
		"the orientation of the characters is the one of Unicode 11",
		"a vertical gravity attribute in an horizontal context is asserted for texts of one character",
		"the scales are compared up to the rounding of single precision terms",
	},
	Quick: 1500000, Thorough: 60000000, MaxChoices: 4000,
	Sweep: func(t *pbt.T) {
		d := langData()
		for i := range d.scripts {
			s := &d.scripts[i]
			letters := []rune{s.letters[0]}
			if r := s.letters[len(s.letters)/2]; language.LookupScript(r) == s.script {
				letters = append(letters, r)
			}
			for _, r := range letters {
				if !ucd.AgeAtMost(r, 11, 0) {
					continue
				}
				for base := pango.GRAVITY_SOUTH; base <= pango.GRAVITY_AUTO; base++ {
					for attr := pango.GRAVITY_SOUTH; attr <= pango.GRAVITY_AUTO; attr++ {
						for hint := pango.GRAVITY_HINT_NATURAL; hint <= pango.GRAVITY_HINT_LINE; hint++ {
							g := &gravityCase{base: base, set: true, attr: attr, hint: hint, text: []rune{r}, scripts: []*scriptInfo{s}}
							want, _ := g.want()
							if got := g.run(); got[0] != want[0] {
								t.Fatalf("script %s, %s: the gravity is %s, want %s", s.name, g, got[0], want[0])
							}
							t.Evals(1)
						}
					}
				}
			}
		}
	},
	Checks: []pbt.Check{
		{Name: "scale", Weight: 2, Run: runScale},
		{Name: "gravity", Weight: 2, Run: runGravity},
	},
}

func runGravity(t *pbt.T) {
	d := langData()
	g := &gravityCase{attr: pango.GRAVITY_AUTO, matrix: genMatrix(t)}
	g.before = g.matrix
	if t.Bool() {
		g.before = genMatrix(t)
	}
	if t.Intn(8) > 0 {
		g.set = true
		g.base = pango.GRAVITY_AUTO
		if t.Intn(3) == 0 {
			g.base = pango.Gravity(t.Intn(5))
		}
	}
	if t.Intn(4) == 0 {
		g.attr = pango.Gravity(t.Intn(5))
		g.fontDesc = t.Intn(3) == 0
	}
	g.hint = pango.GravityHint(t.Intn(3))
	for i, n := 0, t.Range(1, 4); i < n; i++ {
		s := &d.scripts[t.Intn(len(d.scripts))]
		if t.Bool() {
			s = d.byName[pbt.Pick(t, []string{"Latin", "Arabic", "Han", "Mongolian", "Ogham", "Yi", "Hebrew", "Samaritan"})]
		}
		g.scripts = append(g.scripts, s)
		g.text = append(g.text, d.char(t, s))
	}
	if g.attr.IsVertical() && !(g.set && g.base.IsVertical()) {
		// orientations are only told apart inside a text with a vertical context
		g.text, g.scripts = g.text[:1], g.scripts[:1]
	}
	for _, r := range g.text {
		if !ucd.AgeAtMost(r, 11, 0) {
			t.Discard()
		}
	}
	t.Input("%s", g)
	want, ok := g.want()
	if !ok {
		t.Discard()
	}
	got := g.run()
	for i := range got {
		if got[i] != want[i] {
			t.Fatalf("the gravity of %U (%s) is %s, want %s", g.text[i], g.scripts[i].name, got[i], want[i])
		}
		if want[i] == pango.GRAVITY_NORTH || g.base == pango.GRAVITY_AUTO && want[i] != pango.GRAVITY_SOUTH {
			t.NonTrivial(g.String())
			t.Label("turned by " + map[bool]string{true: "the matrix", false: "the gravity"}[g.base == pango.GRAVITY_AUTO && g.attr == pango.GRAVITY_AUTO])
		}
	}
}

func runScale(t *pbt.T) {
	m := genMatrix(t)
	t.Input("matrix %s", matrixText(m))
	x, y := m.GetFontScaleFactors()
	if m == nil {
		if x != 1 || y != 1 {
			t.Fatalf("scales %g %g without matrix", x, y)
		}
		return
	}
	xx, xy, yx, yy := float64(m.Xx), float64(m.Xy), float64(m.Yx), float64(m.Yy)
	wantX, wantY, tolY := math.Hypot(xx, yx), 0., 0.
	if wantX != 0 {
		wantY = math.Abs(xx*yy-yx*xy) / wantX
		tolY = 1e-6*(math.Abs(xx*yy)+math.Abs(yx*xy))/wantX + 1e-6*wantY
	}
	if !(math.Abs(float64(x)-wantX) <= 1e-6*wantX) || !(math.Abs(float64(y)-wantY) <= tolY) {
		t.Fatalf("scales %g %g, want %g %g", x, y, wantX, wantY)
	}
	for g := pango.GRAVITY_SOUTH; g <= pango.GRAVITY_AUTO; g++ {
		if g.IsVertical() != (g == pango.GRAVITY_EAST || g == pango.GRAVITY_WEST) || g.IsImproper() != (g == pango.GRAVITY_WEST || g == pango.GRAVITY_NORTH) {
			t.Fatalf("gravity %s: vertical %v, improper %v", g, g.IsVertical(), g.IsImproper())
		}
	}
	if xy != 0 && yx != 0 || wantY == 0 {
		t.NonTrivial(matrixText(m))
		if wantY == 0 {
			t.Label("singular")
		}
	}
}
