package main

import (
	"fmt"
	"sort"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// edge is the x position of one side of a character, in its line
type edge struct {
	x     pango.Unit
	slack pango.Unit
	known bool
}

// lineEdges has the positions in a line of its characters
type lineEdges struct {
	line       *pango.LayoutLine
	width      pango.Unit
	lead, tail []edge // of the grapheme of each character
	// of the part of the grapheme which is in the run of the character
	runLead, runTail []edge
	graphemes        [][2]int
	runs             []*pango.GlyphItem // visual
	runX             []pango.Unit
	runOf            []int
}

func (e *lineEdges) start() pango.Unit { // of the line
	if e.line.ResolvedDir == pango.DIRECTION_RTL {
		return e.width
	}
	return 0
}

func (e *lineEdges) end() pango.Unit { return e.width - e.start() }

// newLineEdges computes the positions from the glyphs of the line:
// the graphemes divide their cluster evenly, unless the font says otherwise
func newLineEdges(t *pbt.T, s *layoutSpec, line *pango.LayoutLine, la []pango.CharAttr) *lineEdges {
	n, s0 := line.Length, line.StartIndex
	e := &lineEdges{line: line, runs: runsOf(line), runOf: make([]int, n)}
	type place struct {
		x          pango.Unit // of the run
		x0, x1     pango.Unit // leading and trailing, in the run
		start, n   int        // of the cluster
		carets     []pango.Unit
		caretKnown bool
	}
	at := make([]place, n)
	var x pango.Unit
	for ri, r := range e.runs {
		e.runX = append(e.runX, x)
		runX := x
		f, _ := r.Item.Analysis.Font.(*font)
		liga := f != nil && f.face.name == "Liga"
		var ref []refGlyph
		if liga {
			ref, _ = refGlyphs(s.text, la, r.Item)
		}
		logical := r.GetLogicalWidths(s.text)
		for _, c := range clustersOf(r) {
			checkLogicalWidths(t, c.width, logical[c.start-r.Item.Offset:][:c.n])
			p := place{x: runX, x0: x - runX, x1: x + c.width - runX, start: c.start, n: c.n, caretKnown: !liga}
			x += c.width
			if !c.ltr {
				p.x0, p.x1 = p.x1, p.x0
			}
			for _, g := range ref {
				if g.start == c.start-r.Item.Offset && g.n == c.n && c.g1 == c.g0+1 && int(r.Glyphs.Glyphs[c.g0].Glyph) == g.gid {
					p.caretKnown = true
					for _, v := range g.caret {
						p.carets = append(p.carets, r.Glyphs.Glyphs[c.g0].Geometry.XOffset+pango.Unit((v*int(f.hb.XScale)+faceUPM/2)/faceUPM))
					}
				}
			}
			for k := 0; k < c.n; k++ {
				at[c.start+k-s0], e.runOf[c.start+k-s0] = p, ri
			}
		}
	}
	e.width = x
	boundary := func(i int) bool { return i == s0 || i == s0+n || la[i].IsCursorPosition() }
	pos := func(i int, trailing bool) edge {
		p := at[i-s0]
		all, before := 0, 0
		for k := p.start; k < p.start+p.n; k++ {
			if la[k].IsCursorPosition() {
				all++
				if k < i || trailing && k == i {
					before++
				}
			}
		}
		switch {
		case all == 0 && trailing, all > 0 && before == all:
			return edge{p.x + p.x1, 0, true}
		case before == 0:
			return edge{p.x + p.x0, 0, true}
		case !p.caretKnown:
			return edge{}
		case len(p.carets) >= before:
			t.Label("caret")
			return edge{p.x + p.x0 + p.carets[before-1], 1, true}
		}
		t.Label("inside a cluster")
		return edge{p.x + (pango.Unit(all-before)*p.x0+pango.Unit(before)*p.x1)/pango.Unit(all), 0, true}
	}
	e.lead, e.tail = make([]edge, n), make([]edge, n)
	e.runLead, e.runTail = make([]edge, n), make([]edge, n)
	for a := s0; a < s0+n; {
		b := a + 1
		for !boundary(b) {
			b++
		}
		e.graphemes = append(e.graphemes, [2]int{a, b})
		for i := a; i < b; i++ {
			lo, hi := i, i
			for lo > a && e.runOf[lo-1-s0] == e.runOf[i-s0] {
				lo--
			}
			for hi+1 < b && e.runOf[hi+1-s0] == e.runOf[i-s0] {
				hi++
			}
			e.lead[i-s0], e.tail[i-s0] = pos(a, false), pos(b-1, true)
			e.runLead[i-s0], e.runTail[i-s0] = pos(lo, false), pos(hi, true)
		}
		a = b
	}
	return e
}

// checkLogicalWidths: the width of a cluster is divided evenly among its characters
func checkLogicalWidths(t *pbt.T, width pango.Unit, widths []pango.Unit) {
	var sum pango.Unit
	n := pango.Unit(len(widths))
	for k, w := range widths {
		sum += w
		if d := w*n - width; k > 0 && (d <= -n || d >= n) {
			t.Fatalf("character %d of a cluster of %d characters of width %d has the width %d", k, n, width, w)
		}
	}
	if sum != width {
		t.Fatalf("the widths of the characters of a cluster are %v, which sum to %d, not %d", widths, sum, width)
	}
	if width%n != 0 {
		t.Label("uneven cluster")
	}
}

func (e edge) is(x pango.Unit) bool {
	return !e.known || x >= e.x-e.slack && x <= e.x+e.slack
}

// lineOf returns the line of an index, the one before it for an index in a paragraph delimiter
func lineOf(lines []*pango.LayoutLine, index int) int {
	li := 0
	for li+1 < len(lines) && lines[li+1].StartIndex <= index {
		li++
	}
	return li
}

// lineRects returns the extents of the lines, and of their runs (and their end), by visual position
func lineRects(l *pango.Layout, lines []*pango.LayoutLine) (rects []rect, runs [][]rect) {
	it := l.GetIter()
	for range lines {
		rects = append(rects, logicalOf(it.GetLineExtents))
		var rr []rect
		for ; it.GetRun() != nil; it.NextRun() {
			rr = append(rr, logicalOf(it.GetRunExtents))
		}
		runs = append(runs, append(rr, logicalOf(it.GetRunExtents)))
		it.NextRun()
	}
	return rects, runs
}

type placed struct {
	s     *layoutSpec
	l     *pango.Layout
	la    []pango.CharAttr
	lines []*pango.LayoutLine
	edges []*lineEdges
	rects []rect
	runs  [][]rect
}

func place(t *pbt.T, s *layoutSpec) *placed {
	l := s.fresh()
	p := &placed{s: s, l: l, la: l.GetCharacterAttributes(), lines: l.GetLinesReadonly()}
	for _, line := range p.lines {
		p.edges = append(p.edges, newLineEdges(t, s, line, p.la))
	}
	p.rects, p.runs = lineRects(l, p.lines)
	return p
}

// vertical returns the extents of the run of an index, at the end of the line if it is not inside
func (p *placed) vertical(li, index int) rect {
	e := p.edges[li]
	k := index - e.line.StartIndex
	if k >= 0 && k < e.line.Length {
		return p.runs[li][e.runOf[k]]
	}
	return p.runs[li][len(e.runs)]
}

func (p *placed) check(t *pbt.T) {
	for li, e := range p.edges {
		s0, n := e.line.StartIndex, e.line.Length
		for k := 0; k < n; k++ {
			if x := e.line.IndexToX(s0+k, false); !e.lead[k].is(x) {
				t.Fatalf("line %d: leading edge of %d at %d, want %d", li, s0+k, x, e.lead[k].x)
			}
			if x := e.line.IndexToX(s0+k, true); !e.tail[k].is(x) {
				t.Fatalf("line %d: trailing edge of %d at %d, want %d", li, s0+k, x, e.tail[k].x)
			}
		}
		if x := e.line.IndexToX(s0+n, t.Bool()); x != e.end() {
			t.Fatalf("line %d: the end is at %d, want %d", li, x, e.end())
		}
	}
	for index := 0; index <= len(p.s.text)+1; index++ {
		p.checkPos(t, index)
		p.checkDirection(t, index)
	}
	for k := t.Range(1, 6); k > 0; k-- {
		p.checkRanges(t, t.Intn(len(p.lines)))
	}
}

func (p *placed) checkPos(t *pbt.T, index int) {
	li := lineOf(p.lines, index)
	e := p.edges[li]
	got := dirty
	p.l.IndexToPos(index, &got)
	v := p.vertical(li, index)
	k := index - e.line.StartIndex
	lead, tail := edge{e.end(), 0, true}, edge{e.end(), 0, true}
	if k < e.line.Length {
		lead, tail = e.lead[k], e.tail[k]
	} else {
		t.Label("position of a line end")
	}
	if got.Y != v.Y || got.Height != v.Height {
		t.Fatalf("position %v for the index %d, whose run has the extents %v", got, index, v)
	}
	if x := p.rects[li].X; !lead.is(got.X-x) || !tail.is(got.X+got.Width-x) {
		t.Fatalf("position %v for the index %d, want %d to %d in the line at %d", got, index, lead.x, tail.x, x)
	}
}

func (p *placed) checkDirection(t *pbt.T, index int) {
	e := p.edges[lineOf(p.lines, index)]
	k := index - e.line.StartIndex
	if k >= e.line.Length {
		return
	}
	want := pango.DIRECTION_LTR
	if !e.runs[e.runOf[k]].LTR() {
		want = pango.DIRECTION_RTL
	}
	if got := p.l.GetDirectionAt(index); got != want {
		t.Fatalf("direction at %d: %d, want %d", index, got, want)
	}
}

// checkRanges checks the ranges of some text in a line
func (p *placed) checkRanges(t *pbt.T, li int) {
	e, lr := p.edges[li], p.rects[li]
	s0, n := e.line.StartIndex, e.line.Length
	start, end := s0+t.Range(-2, n), 0
	end = start + t.Range(1, n+3)
	if start < 0 {
		start = 0
	}
	if end > len(p.s.text)+1 {
		end = len(p.s.text) + 1
	}
	if start >= end || !regularEdges(e) {
		return
	}
	got := e.line.GetXRanges(start, end)
	if len(got)%2 != 0 {
		t.Fatalf("%d values for the ranges", len(got))
	}
	width := p.s.width
	if width < 0 {
		for _, r := range p.rects {
			if r.Width > width {
				width = r.Width
			}
		}
	}
	type span struct{ lo, hi edge }
	var want []span
	rtl := e.line.ResolvedDir == pango.DIRECTION_RTL
	before, after := start < s0, end > s0+n
	if rtl {
		before, after = after, before
	}
	known := func(x pango.Unit) edge { return edge{x, 0, true} }
	if before && lr.X > 0 {
		want = append(want, span{known(0), known(lr.X)})
		t.Label("extended")
	}
	for ri, r := range e.runs {
		lo, hi := r.Item.Offset, r.Item.Offset+r.Item.Length
		if lo < start {
			lo = start
		}
		if hi > end {
			hi = end
		}
		if lo >= hi {
			continue
		}
		if e.runOf[lo-s0] != ri {
			panic("run")
		}
		a, b := e.runLead[lo-s0], e.runTail[hi-1-s0]
		if a.x > b.x {
			a, b = b, a
		}
		a.x += lr.X
		b.x += lr.X
		want = append(want, span{a, b})
	}
	if after && lr.X+e.width < width {
		want = append(want, span{known(lr.X + e.width), known(width)})
		t.Label("extended")
	}
	ok := len(got) == 2*len(want)
	for i := 0; ok && i < len(want); i++ {
		w := want[i]
		ok = !w.lo.known || !w.hi.known || w.lo.is(got[2*i]) && w.hi.is(got[2*i+1])
	}
	if !ok {
		t.Fatalf("line %d [%d,+%d) at %d in the width %d: ranges of [%d,%d) are %v, want %v", li, s0, n, lr.X, width, start, end, got, want)
	}
	if len(want) > 1 {
		t.Label("several ranges")
	}
	for _, w := range want {
		if !w.lo.known || !w.hi.known || w.lo.slack != 0 || w.hi.slack != 0 {
			return // a caret of the font in a ligature, which may be out of a rounded glyph
		}
	}
	// ordered
	if !sort.SliceIsSorted(got, func(i, j int) bool { return got[i] < got[j] }) {
		t.Fatalf("line %d: ranges %v", li, got)
	}
}

func regularEdges(e *lineEdges) bool {
	for _, r := range e.runs {
		for _, g := range r.Glyphs.Glyphs {
			if g.Geometry.Width < 0 {
				return false
			}
		}
	}
	return true
}

func runP13(t *pbt.T, pr profile) {
	s := genSpec(t, pr)
	withLigatures(t, s)
	t.Describe(s.show)
	p := place(t, s)
	p.check(t)
	multi := false
	for _, e := range p.edges {
		multi = multi || len(e.runs) > 1
	}
	if multi && len(p.lines) > 1 {
		t.NonTrivial(fmt.Sprint(string(s.text), s.width))
	}
}

var propP13 = &pbt.Prop{
	ID: "P13", Quick: 300000, Thorough: 3000000,
	Rule: "layouts with generated texts, attributes and settings, queried at every index and for random ranges; non trivial: several lines, one of them with several runs",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 3, Run: func(t *pbt.T) { runP13(t, profile{maxText: 40}) }},
		{Name: "attributes", Weight: 3, Run: func(t *pbt.T) { runP13(t, profile{maxText: 40, attrs: true, ellipsize: true}) }},
		{Name: "gravity", Weight: 1, Run: func(t *pbt.T) { runP13(t, profile{maxText: 30, attrs: true, ellipsize: true, vertical: true}) }},
		{Name: "fonts", Weight: 1, Run: func(t *pbt.T) { runP13(t, profile{maxText: 20, attrs: true, ellipsize: true, noFont: true}) }},
	},
}
