package main

import (
	"fmt"
	"math"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// offset is the one of a line of the given width
func (s *layoutSpec) lineOffset(rtl, paraStart bool, layoutWidth, width pango.Unit) pango.Unit {
	align := s.align
	if s.autoDir && rtl && align != pango.ALIGN_CENTER { // for a right to left line, left means right
		if align == pango.ALIGN_LEFT {
			align = pango.ALIGN_RIGHT
		} else {
			align = pango.ALIGN_LEFT
		}
	}
	var indent pango.Unit
	if paraStart && s.indent > 0 {
		indent = s.indent
	} else if !paraStart && s.indent < 0 {
		indent = -s.indent
	}
	free := layoutWidth - width
	if layoutWidth == 0 {
		free = 0
	}
	switch align {
	case pango.ALIGN_LEFT:
		return indent
	case pango.ALIGN_RIGHT:
		return free - indent
	}
	x := free / 2
	if layoutWidth%pango.Scale == 0 && width%pango.Scale == 0 && layoutWidth != 0 { // pixels
		x = pango.Unit(math.Floor(float64(x)/pango.Scale+0.5)) * pango.Scale
	}
	return x
}

type shiftKey struct {
	s, e, v int
}

// shifts computes the vertical offset of the runs of the lines, in logical order
type shifts map[shiftKey]pango.Unit

func (m shifts) offset(run, prev *pango.GlyphItem) (y pango.Unit) {
	for _, a := range run.Item.Analysis.ExtraAttrs {
		switch a.Kind {
		case pango.ATTR_RISE:
			y += pango.Unit(a.Data.(pango.AttrInt))
		case pango.ATTR_BASELINE_SHIFT:
			v := int(a.Data.(pango.AttrInt))
			k := shiftKey{a.StartIndex, a.EndIndex, v}
			if _, has := m[k]; !has {
				var sup, sub pango.Unit = 5000, 5000
				if prev != nil {
					f := prev.Item.Analysis.Font.(*font)
					if o := f.scaled(f.face.os2.SuperYOff); o != 0 {
						sup = o
					}
					if o := f.scaled(f.face.os2.SubYOff); o != 0 {
						sub = o
					}
				}
				switch {
				case v > 1024 || v < -1024:
					m[k] = pango.Unit(v)
				case v == 1:
					m[k] = sup
				case v == 2:
					m[k] = -sub
				default:
					m[k] = 0
				}
			}
			y += m[k]
		}
	}
	return y
}

// runLine is the vertical extent of a run in its line, without and with the line height
func runLine(run *pango.GlyphItem, offset pango.Unit) (r, line rect, height pango.Unit) {
	m := run.Item.Analysis.Font.(*font).metrics()
	r = rect{Y: -m.Ascent, Height: m.Ascent + m.Descent}
	var factor float32
	var absolute pango.Unit
	for _, a := range run.Item.Analysis.ExtraAttrs {
		switch a.Kind {
		case pango.ATTR_SHAPE:
			lr, ok := shapeRects[a.Data]
			if !ok {
				panic("unknown shape")
			}
			r.Y, r.Height = lr.Y, lr.Height
		case pango.ATTR_LINE_HEIGHT:
			factor = float32(a.Data.(pango.AttrFloat))
		case pango.ATTR_ABSOLUTE_LINE_HEIGHT:
			absolute = pango.Unit(a.Data.(pango.AttrInt))
		}
	}
	r.Y -= offset
	return r, withLineHeight(r, factor, absolute), m.Height
}

// near accepts the rounding of an offset of the font
func near(a, b pango.Unit) bool { return a-b <= 1 && b-a <= 1 }

func logicalRuns(line *pango.LayoutLine) (out []*pango.GlyphItem, order []int) {
	runs := runsOf(line)
	at := line.StartIndex
	for len(out) < len(runs) {
		n := len(out)
		for i, r := range runs {
			if r.Item.Offset == at && (len(order) == 0 || order[len(order)-1] != i) {
				out = append(out, r)
				order = append(order, i)
				at += r.Item.Length
				break
			}
		}
		if len(out) == n {
			return nil, nil
		}
	}
	return out, order
}

func checkExtents(t *pbt.T) {
	p := profile{maxText: 40, attrs: true}
	s := genSpec(t, p)
	withLigatures(t, s)
	if t.Chance(1, 3) {
		for k := t.Intn(3); k > 0; k-- {
			a := pango.NewAttrBaselineShift(pbt.Pick(t, []int{0, 1, 2, 2048, -3000, 1024, -1024, 1025, -1025}))
			if t.Intn(4) == 0 {
				a = pango.NewAttrRise(pbt.Pick(t, []int{1024, -2048, 300}))
			}
			if t.Intn(3) == 0 {
				a = genDecoration(t)
			}
			b := t.Intn(len(s.text) + 1)
			s.attrs = append(s.attrs, attrSpec{a, b, t.Range(b, len(s.text)+1)})
		}
	}
	t.Describe(s.show)
	l := s.fresh()
	ink, logical := dirty, dirty
	switch t.Intn(4) { // the order of the queries does not matter
	case 0:
		l.GetExtents(&ink, nil)
	case 1:
		l.GetSize()
	}
	lines := l.GetLinesReadonly()
	it := l.GetIter()
	open := shifts{}
	var (
		offsets         = make([]pango.Unit, len(lines))
		union0          rect
		inkUnion        rect
		baseline        pango.Unit
		y, natural      pango.Unit
		layoutWidth     = s.width
		extents, inks   []rect
		baselines       []pango.Unit
		heights         []pango.Unit
		kinds, multiple int
	)
	for i, line := range lines {
		r, lr, lk := dirty, dirty, dirty
		h := line.GetExtents(&lk, &r)
		it.GetLineExtents(nil, &lr)
		if lr.Width > natural {
			natural = lr.Width
		}
		extents, heights, inks = append(extents, lr), append(heights, h), append(inks, lk)
		baselines = append(baselines, it.GetBaseline())
		// the line is the union of its runs
		runs, order := logicalRuns(line)
		visual := runsOf(line)
		var w pango.Unit
		negative := false
		for _, run := range visual {
			for _, g := range run.Glyphs.Glyphs {
				w += g.Geometry.Width
				if g.Geometry.Width < 0 {
					negative = true
				}
			}
		}
		if !negative && (w != r.Width || r.X != 0) {
			t.Fatalf("line %d: extents %v, the glyphs have the width %d", i, r, w)
		}
		if len(visual) != 0 && runs == nil {
			t.Fatalf("line %d: the runs do not cover the line", i)
		}
		want, wantInk := make([]rect, len(visual)), make([]rect, len(visual))
		var all rect
		var height pango.Unit
		for k, run := range runs {
			var prev *pango.GlyphItem
			if k > 0 {
				prev = runs[k-1]
			}
			o := open.offset(run, prev)
			if o != 0 {
				kinds++
			}
			rr, rl, rh := runLine(run, o)
			checkRunAttrs(t, s, run)
			want[order[k]], wantInk[order[k]] = rr, runInk(run, o)
			if rh > height {
				height = rh
			}
			all = union(all, rl) // with the baseline
		}
		if len(visual) != 0 {
			if !near(r.Y, all.Y) || !near(r.Height, all.Height) {
				t.Fatalf("line %d: vertical extents %d +%d, want %d +%d", i, r.Y, r.Height, all.Y, all.Height)
			}
			if h != height {
				t.Fatalf("line %d: height %d, want %d", i, h, height)
			}
		}
		var x pango.Unit
		var lineInk rect
		for k, run := range visual {
			r := wantInk[k]
			r.X += x
			for _, g := range run.Glyphs.Glyphs {
				x += g.Geometry.Width
			}
			if lineInk.Width == 0 || lineInk.Height == 0 {
				lineInk = r
			} else if r.Width != 0 && r.Height != 0 {
				lineInk = union(lineInk, r)
			}
		}
		if lk.X != lineInk.X || lk.Width != lineInk.Width || !near(lk.Y, lineInk.Y) || !near(lk.Y+lk.Height, lineInk.Y+lineInk.Height) {
			t.Fatalf("line %d: ink %v, want %v", i, lk, lineInk)
		}
		if len(visual) == 0 { // the line of an empty paragraph
			er, el, eh := s.emptyLine(line.StartIndex)
			if r != el || h != eh || lk != (rect{}) {
				t.Fatalf("line %d: empty, extents %v, height %d, ink %v, want %v and %d", i, r, h, lk, el, eh)
			}
			er.Y += baselines[i]
			if rr := logicalOf(it.GetRunExtents); rr.Y != er.Y || rr.Height != er.Height || rr.Width != 0 {
				t.Fatalf("line %d: empty, run extents %v, want %v", i, rr, er)
			}
			kinds++
		}
		for k := range visual {
			if rk := inkOf(it.GetRunExtents); !near(rk.Y, baselines[i]+wantInk[k].Y) || rk.Height != wantInk[k].Height || rk.Width != wantInk[k].Width {
				t.Fatalf("line %d run %d: ink %v for the baseline %d, want %v", i, k, rk, baselines[i], wantInk[k])
			}
			rr := logicalOf(it.GetRunExtents)
			if !near(rr.Y, baselines[i]+want[k].Y) || rr.Height != want[k].Height {
				t.Fatalf("line %d run %d: vertical extents %d +%d for the baseline %d, want %d +%d", i, k, rr.Y-baselines[i], rr.Height, baselines[i], want[k].Y, want[k].Height)
			}
			if !it.NextRun() && i != len(lines)-1 {
				t.Fatalf("line %d run %d: no next run", i, k)
			}
		}
		offsets[i] = lr.X
		if i+1 < len(lines) {
			it.NextRun()
			if it.GetLine() != lines[i+1] {
				t.Fatalf("line %d: the iterator is not on the next line", i)
			}
		}
		if len(visual) > 1 {
			multiple++
		}
	}
	if layoutWidth < 0 {
		layoutWidth = natural
	}
	for i, line := range lines {
		lr := extents[i]
		r := dirty
		line.GetExtents(nil, &r)
		rtl := line.ResolvedDir == pango.DIRECTION_RTL
		if x := s.lineOffset(rtl, line.IsParagraphStart, layoutWidth, r.Width); lr.X-r.X != x {
			t.Fatalf("line %d: at %d with the width %d, want %d", i, lr.X, r.Width, x)
		}
		if i == 0 || s.lineSpacing == 0 {
			baseline = y - r.Y
		} else {
			baseline += pango.Unit(s.lineSpacing * float32(heights[i]))
		}
		if baselines[i] != baseline || lr.Y != baseline+r.Y || lr.Height != r.Height {
			t.Fatalf("line %d: baseline %d, extents %v, want the baseline %d", i, baselines[i], lr, baseline)
		}
		y = lr.Y + lr.Height + s.spacing
		k := inks[i]
		k.X += lr.X - r.X
		k.Y += baseline
		if i == 0 {
			union0, inkUnion = lr, k
		} else {
			union0, inkUnion = union(union0, lr), union(inkUnion, k)
		}
	}
	if s.width < 0 {
		union0.X, union0.Width = 0, natural
	}
	last := extents[len(extents)-1]
	union0.Y, union0.Height = 0, last.Y+last.Height // the lines may overlap
	l.GetExtents(&ink, &logical)
	if logical != union0 {
		t.Fatalf("logical extents %v, want %v for the lines %v", logical, union0, extents)
	}
	if ink != inkUnion {
		t.Fatalf("ink extents %v, want %v", ink, inkUnion)
	}
	if w, h := l.GetSize(); w != logical.Width || h != logical.Height {
		t.Fatalf("size %d %d for the extents %v", w, h, logical)
	}
	if l.GetBaseline() != baselines[0] {
		t.Fatalf("baseline %d, want %d", l.GetBaseline(), baselines[0])
	}
	if len(lines) > 1 && (kinds > 0 || multiple > 0) {
		t.NonTrivial(fmt.Sprint(string(s.text), s.width))
	}
}

// checkJustify compares the lines with and without justification
func checkJustify(t *pbt.T) {
	s := genSpec(t, profile{maxText: 50, attrs: t.Bool()})
	withLigatures(t, s)
	s.justify = true
	if s.width < 0 {
		s.width = pango.Unit(t.Size(200000))
	}
	plain := *s
	plain.justify = false
	t.Describe(s.show)
	l, ref := s.fresh(), plain.fresh()
	lines, refs := l.GetLinesReadonly(), ref.GetLinesReadonly()
	if len(lines) != len(refs) {
		t.Fatalf("%d lines, %d without justification", len(lines), len(refs))
	}
	attrs := l.GetCharacterAttributes()
	paras := paragraphsOf(s.text, s.single)
	pi, filled := 0, 0
	for i, line := range lines {
		r := refs[i]
		if line.StartIndex != r.StartIndex || line.Length != r.Length || line.IsParagraphStart != r.IsParagraphStart {
			t.Fatalf("line %d: [%d,+%d), [%d,+%d) without justification", i, line.StartIndex, line.Length, r.StartIndex, r.Length)
		}
		for line.StartIndex > paras[pi].end {
			pi++
		}
		end := line.StartIndex + line.Length
		wrapped := end < paras[pi].end || !s.single && line.Length > 0 && s.text[end-1] == lineSeparator
		goal := s.goalWidth(line.IsParagraphStart)
		runs, runs0 := runsOf(line), runsOf(r)
		if len(runs) != len(runs0) {
			t.Fatalf("line %d: %d runs, %d without justification", i, len(runs), len(runs0))
		}
		var w, w0, spaces pango.Unit
		gaps, negative := 0, false
		for _, run := range runs0 {
			for _, g := range run.Glyphs.Glyphs {
				negative = negative || g.Geometry.Width < 0
			}
		}
		for k, run := range runs {
			gs, gs0 := run.Glyphs, runs0[k].Glyphs
			if len(gs.Glyphs) != len(gs0.Glyphs) {
				t.Fatalf("line %d run %d: %d glyphs, %d without justification", i, k, len(gs.Glyphs), len(gs0.Glyphs))
			}
			for g := range gs.Glyphs {
				w += gs.Glyphs[g].Geometry.Width
				w0 += gs0.Glyphs[g].Geometry.Width
				if !negative && gs.Glyphs[g].Geometry.Width < gs0.Glyphs[g].Geometry.Width {
					t.Fatalf("line %d run %d: glyph %d is narrower than without justification", i, k, g)
				}
				if gs.LogClusters[g] != gs0.LogClusters[g] || gs.Glyphs[g].Glyph != gs0.Glyphs[g].Glyph {
					t.Fatalf("line %d run %d: another glyph %d", i, k, g)
				}
			}
			for _, c := range clustersOf(runs0[k]) {
				if c.width != 0 && attrs[c.start].IsExpandableSpace() {
					spaces += c.width
				}
				if c.width != 0 && attrs[c.start].IsCursorPosition() {
					gaps++
				}
			}
		}
		if negative {
			continue
		}
		want := w0
		if (wrapped || s.justifyLast) && w0 < goal && (spaces > 0 || gaps >= 2) {
			want = goal
			filled++
		}
		if w != want {
			t.Fatalf("line %d: width %d, want %d (goal %d, without justification %d, expandable spaces %d, %d clusters)", i, w, want, goal, w0, spaces, gaps)
		}
		if want == w0 {
			continue
		}
		// the space is added to the spaces, or else between the clusters, evenly
		for k, run := range runs {
			for ci, c := range clustersOf(run) {
				c0 := clustersOf(runs0[k])[ci]
				var add float64
				if spaces > 0 {
					if attrs[c.start].IsExpandableSpace() {
						add = float64(goal-w0) * float64(c0.width) / float64(spaces)
					}
				} else if c0.width != 0 && attrs[c.start].IsCursorPosition() {
					add = float64(goal-w0) / float64(gaps-1)
					if c.width == c0.width || math.Abs(float64(c.width-c0.width)-add/2) <= 2*pango.Scale {
						continue // on the edge of the line
					}
				}
				tol := 3.0
				if (goal-w0)%pango.Scale == 0 || spaces == 0 { // whole pixels
					tol = 2 * pango.Scale
				}
				if d := float64(c.width - c0.width); math.Abs(d-add) > tol {
					t.Fatalf("line %d run %d: the cluster of the character %d is expanded by %v, want %v", i, k, c.start, d, add)
				}
			}
		}
	}
	if filled > 0 {
		t.NonTrivial(fmt.Sprint(string(s.text), s.width))
	}
}

func (s *layoutSpec) goalWidth(first bool) pango.Unit {
	m := breakModel{s: s}
	return m.goal(first)
}

var propP18 = &pbt.Prop{
	ID: "P18", Quick: 300000, Thorough: 2000000,
	Rule: "layouts over fonts with fixed metrics; non trivial: several lines of several runs, a line which is stretched, or spaced letters",
	Checks: []pbt.Check{
		{Name: "extents", Weight: 3, Run: checkExtents},
		{Name: "justify", Weight: 3, Run: checkJustify},
		{Name: "letter spacing", Weight: 2, Run: checkSpacing},
		{Name: "units", Weight: 1, Run: checkUnits},
	},
}

// checkSpacing compares the lines with and without letter spacing
func checkSpacing(t *pbt.T) {
	s := genSpec(t, profile{maxText: 40, attrs: t.Bool()})
	s.width, s.justify = -1, false
	noSpacing(s)
	plain := *s
	ls := pango.Unit(pbt.Pick(t, []int32{1024, 2048, 500, 1, 333, 10000, 1023}))
	s.attrs = append(append([]attrSpec(nil), s.attrs...), attrSpec{pango.NewAttrLetterSpacing(int32(ls)), 0, maxInt})
	t.Describe(s.show)
	l, ref := s.fresh(), plain.fresh()
	attrs := l.GetCharacterAttributes()
	refs := ref.GetLinesReadonly()
	n := 0
	for li, line := range l.GetLinesReadonly() {
		runs, _ := logicalRuns(line)
		runs0, _ := logicalRuns(refs[li])
		// the features of the fonts change, such as the kerning, but these fonts have none
		if len(runs) != len(runs0) {
			t.Fatalf("line %d: %d runs, %d without spacing", li, len(runs), len(runs0))
		}
		var w, w0 pango.Unit
		clusters, zero := 0, false
		for k, run := range runs {
			for _, g := range run.Glyphs.Glyphs {
				w += g.Geometry.Width
			}
			cs := clustersOf(runs0[k])
			for _, c := range cs {
				w0 += c.width
				if attrs[c.start].IsCursorPosition() {
					clusters++
				} else if c.width != 0 {
					zero = true // a grapheme over several clusters
				}
			}
			if cs0 := clustersOf(run); len(cs0) != len(cs) || !attrs[run.Item.Offset].IsCursorPosition() {
				zero = true
			}
			if g := runs0[k].Glyphs.Glyphs; g[0].Geometry.Width == 0 || g[len(g)-1].Geometry.Width == 0 {
				zero = true // may be a collapsed space
			}
		}
		if zero || clusters == 0 {
			continue
		}
		if want := w0 + ls*pango.Unit(clusters-1); w != want {
			t.Fatalf("line %d: width %d, %d without spacing, want %d for %d characters", li, w, w0, want, clusters)
		}
		if clusters > 2 {
			n++
		}
	}
	if n > 0 {
		t.NonTrivial(fmt.Sprint(string(s.text), ls))
	}
}

// checkUnits compares the conversions to their definitions
func checkUnits(t *pbt.T) {
	u := pango.Unit(t.Range(-3000, 3000))
	if t.Bool() {
		u = pango.Unit(int32(t.U64()))
		if u > math.MaxInt32-2048 {
			u -= 4096
		}
	}
	t.Describe(func() string { return fmt.Sprint(int(u)) })
	v := float64(u) / pango.Scale
	if g, w := u.PixelsFloor(), int32(math.Floor(v)); g != w {
		t.Fatalf("PixelsFloor: %d, want %d", g, w)
	}
	if g, w := u.PixelsCeil(), int32(math.Ceil(v)); g != w {
		t.Fatalf("PixelsCeil: %d, want %d", g, w)
	}
	if g, w := u.Pixels(), int32(math.Floor(v+0.5)); g != w {
		t.Fatalf("Pixels: %d, want %d", g, w)
	}
	if g, w := u.Round(), pango.Unit(math.Floor(v+0.5))*pango.Scale; g != w {
		t.Fatalf("Round: %d, want %d", g, w)
	}
	t.NonTrivial(fmt.Sprint(int(u)))
}
