package main

import (
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// A cluster of a line, in visual order
type refCluster struct {
	line, run    int // run is the index in visual order, or -1 at the end of the line
	g0, g1       int // glyphs
	start, n     int // characters
	ltr          bool
	width, x     pango.Unit
	terminatorLn int // number of characters of the terminator, if run == -1
}

// clustersOf reads the clusters of a run from its glyphs
func clustersOf(r *pango.GlyphItem) (out []refCluster) {
	lc := r.Glyphs.LogClusters
	for g := 0; g < len(lc); {
		h := g
		c := refCluster{g0: g, start: r.Item.Offset + lc[g], ltr: r.LTR()}
		for h < len(lc) && lc[h] == lc[g] {
			c.width += r.Glyphs.Glyphs[h].Geometry.Width
			h++
		}
		c.g1 = h
		out = append(out, c)
		g = h
	}
	for i := range out { // the length is given by the next cluster in logical order
		next := i + 1
		if !r.LTR() {
			next = i - 1
		}
		if next >= 0 && next < len(out) {
			out[i].n = out[next].start - out[i].start
		} else {
			out[i].n = r.Item.Offset + r.Item.Length - out[i].start
		}
	}
	return out
}

// lineClusters returns the clusters of each line
func lineClusters(s *layoutSpec, lines []*pango.LayoutLine) (out [][]refCluster) {
	for li, line := range lines {
		var l []refCluster
		for ri, r := range runsOf(line) {
			for _, c := range clustersOf(r) {
				c.line, c.run = li, ri
				l = append(l, c)
			}
		}
		end := refCluster{line: li, run: -1, start: line.StartIndex + line.Length}
		if li+1 < len(lines) && lines[li+1].IsParagraphStart {
			end.terminatorLn = 1
			if end.start+1 < len(s.text) && s.text[end.start] == '\r' && s.text[end.start+1] == '\n' {
				end.terminatorLn = 2
			}
		}
		out = append(out, append(l, end))
	}
	return out
}

type rect = pango.Rectangle

func union(a, b rect) rect {
	x0, y0, x1, y1 := a.X, a.Y, a.X+a.Width, a.Y+a.Height
	if b.X < x0 {
		x0 = b.X
	}
	if b.Y < y0 {
		y0 = b.Y
	}
	if b.X+b.Width > x1 {
		x1 = b.X + b.Width
	}
	if b.Y+b.Height > y1 {
		y1 = b.Y + b.Height
	}
	return rect{X: x0, Y: y0, Width: x1 - x0, Height: y1 - y0}
}

func logicalOf(f func(ink, logical *rect)) rect {
	r := dirty
	f(nil, &r)
	return r
}

func inkOf(f func(ink, logical *rect)) rect {
	r := dirty
	f(&r, nil)
	return r
}

func runP14(t *pbt.T, p profile) {
	s := genSpec(t, p)
	withLigatures(t, s)
	t.Describe(s.show)
	l := s.fresh()
	if t.Intn(4) == 0 { // the order of the queries does not matter
		r := dirty
		l.GetExtents(nil, &r)
	}
	lines := l.GetLinesReadonly()
	ref := lineClusters(s, lines)
	regular := !p.vertical // no glyph with a negative width
	for _, lc := range ref {
		for _, c := range lc {
			if c.width < 0 {
				regular = false
			}
		}
	}

	checkLineIter(t, l, lines)
	checkRunIter(t, l, lines, ref, regular)
	checkClusterIter(t, l, lines, ref)
	checkCharIter(t, l, ref)

	n := 0
	for _, line := range lines {
		n += len(runsOf(line))
	}
	if len(lines) >= 2 && n > len(lines) {
		t.NonTrivial(string(s.text))
	}
}

func checkLineIter(t *pbt.T, l *pango.Layout, lines []*pango.LayoutLine) {
	it := l.GetIter()
	var all rect
	for i := range lines {
		if it.GetLine() != lines[i] {
			t.Fatalf("line iterator: not on the line %d", i)
		}
		if it.IsAtLastLine() != (i == len(lines)-1) {
			t.Fatalf("line iterator: IsAtLastLine at line %d of %d", i, len(lines))
		}
		ink, logical, lineInk, lineLogical, ink2, logical2 := dirty, dirty, dirty, dirty, dirty, dirty
		it.GetLineExtents(&ink, &logical)
		it.GetLineExtents(&ink2, nil)
		it.GetLineExtents(nil, &logical2)
		if ink != ink2 || logical != logical2 {
			t.Fatalf("line %d: extents %v %v together, %v %v apart", i, ink, logical, ink2, logical2)
		}
		lines[i].GetExtents(&lineInk, &lineLogical)
		dx := logical.X - lineLogical.X
		b := it.GetBaseline()
		if i == 0 && b != l.GetBaseline() {
			t.Fatalf("baseline %d for the first line, %d for the layout", b, l.GetBaseline())
		}
		if logical.Y != lineLogical.Y+b || logical.Width != lineLogical.Width || logical.Height != lineLogical.Height {
			t.Fatalf("line %d: logical extents %v with the baseline %d, want %v", i, logical, b, lineLogical)
		}
		if ink.X != lineInk.X+dx || ink.Y != lineInk.Y+b || ink.Width != lineInk.Width || ink.Height != lineInk.Height {
			t.Fatalf("line %d: ink extents %v with the baseline %d and the offset %d, want %v", i, ink, b, dx, lineInk)
		}
		if i == 0 {
			all = logical
		} else {
			all = union(all, logical)
		}
		if it.NextLine() != (i < len(lines)-1) {
			t.Fatalf("line iterator: stops at %d of %d lines", i, len(lines))
		}
	}
	if it.NextLine() || it.GetLine() != lines[len(lines)-1] {
		t.Fatalf("line iterator: moves after the last line")
	}
}

func checkRunIter(t *pbt.T, l *pango.Layout, lines []*pango.LayoutLine, ref [][]refCluster, regular bool) {
	it := l.GetIter()
	for li, line := range lines {
		runs := runsOf(line)
		lineRect := logicalOf(it.GetLineExtents)
		lineInk := inkOf(it.GetLineExtents)
		x := lineRect.X
		for ri := 0; ri <= len(runs); ri++ {
			if it.GetLine() != line {
				t.Fatalf("run iterator: not on the line %d", li)
			}
			r := logicalOf(it.GetRunExtents)
			ink := inkOf(it.GetRunExtents)
			r2, ink2 := dirty, dirty
			it.GetRunExtents(&ink2, &r2)
			if r != r2 || ink != ink2 {
				t.Fatalf("line %d run %d: extents %v %v together, %v %v apart", li, ri, ink2, r2, ink, r)
			}
			if r.X != x {
				t.Fatalf("line %d: run %d of %d is at %d, want %d", li, ri, len(runs), r.X, x)
			}
			x += r.Width
			if ri < len(runs) {
				if it.GetRun() != runs[ri] {
					t.Fatalf("run iterator: not on run %d of line %d", ri, li)
				}
				var w pango.Unit
				for _, g := range runs[ri].Glyphs.Glyphs {
					w += g.Geometry.Width
				}
				if r.Width != w {
					t.Fatalf("line %d run %d: width %d, the glyphs have %d", li, ri, r.Width, w)
				}
				if regular && ink.Width > 0 && ink.Height > 0 && union(ink, lineInk) != lineInk {
					t.Fatalf("line %d run %d: ink %v, not in the one of the line %v", li, ri, ink, lineInk)
				}
			} else {
				if it.GetRun() != nil {
					t.Fatalf("run iterator: %d runs expected in line %d, got more", len(runs), li)
				}
				if it.Index != line.StartIndex+line.Length {
					t.Fatalf("line %d: index %d at the end of the line [%d,+%d)", li, it.Index, line.StartIndex, line.Length)
				}
				if r.Width != 0 {
					t.Fatalf("line %d: width %d at the end", li, r.Width)
				}
				if regular && x != lineRect.X+lineRect.Width {
					t.Fatalf("line %d: runs up to %d, the line is %v", li, x, lineRect)
				}
			}
			last := li == len(lines)-1 && ri == len(runs)
			if it.NextRun() == last {
				t.Fatalf("run iterator: stopped %v at run %d of line %d", last, ri, li)
			}
		}
	}
}

// checkClusterIter checks the visits of the clusters, and their positions
func checkClusterIter(t *pbt.T, l *pango.Layout, lines []*pango.LayoutLine, ref [][]refCluster) {
	var want []refCluster
	for li, lc := range ref {
		for _, c := range lc {
			if c.run != -1 || li == 0 && len(lc) == 1 { // the iterator always has a first position
				want = append(want, c)
			}
		}
	}
	it := l.GetIter()
	var x pango.Unit
	for i, c := range want {
		if it.GetLine() != lines[c.line] {
			t.Fatalf("cluster iterator: not on line %d at the cluster %d", c.line, i)
		}
		if c.run == -1 {
			if it.GetRun() != nil {
				t.Fatalf("cluster iterator: on a run in an empty line")
			}
		} else {
			run := runsOf(lines[c.line])[c.run]
			if it.GetRun() != run {
				t.Fatalf("cluster iterator: not on run %d of line %d at the cluster %d", c.run, c.line, i)
			}
			first := c.start
			if !c.ltr {
				first = c.start + c.n - 1
			}
			if it.Index != first {
				t.Fatalf("cluster iterator: index %d at the cluster %d, want %d", it.Index, i, first)
			}
			r := logicalOf(it.GetClusterExtents)
			runRect := logicalOf(it.GetRunExtents)
			if i == 0 || want[i-1].line != c.line || want[i-1].run != c.run {
				x = runRect.X
			}
			if r.X != x || r.Width != c.width {
				t.Fatalf("cluster iterator: cluster %d at %d with width %d, want %d, %d", i, r.X, r.Width, x, c.width)
			}
			x += r.Width
			ink := inkOf(it.GetClusterExtents)
			r2, ink2 := dirty, dirty
			it.GetClusterExtents(&ink2, &r2)
			if r2 != r || ink2 != ink {
				t.Fatalf("cluster iterator: extents %v %v together, %v %v apart at the cluster %d", ink2, r2, ink, r, i)
			}
		}
		if it.NextCluster() != (i+1 < len(want)) {
			t.Fatalf("cluster iterator: %v at cluster %d of %d", i+1 >= len(want), i, len(want))
		}
	}
}

// checkCharIter checks that each character is visited once
func checkCharIter(t *pbt.T, l *pango.Layout, ref [][]refCluster) {
	type char struct {
		c   *refCluster
		pos int
		at  int
	}
	var want []char
	for li := range ref {
		for ci := range ref[li] {
			c := &ref[li][ci]
			n := c.n
			if c.run == -1 {
				n = c.terminatorLn
				if n == 0 && li == 0 && ci == 0 {
					n = 1
				}
			}
			for k := 0; k < n; k++ {
				at := c.start + k
				if c.run == -1 {
					at = c.start
				} else if !c.ltr {
					at = c.start + c.n - 1 - k
				}
				want = append(want, char{c, k, at})
			}
		}
	}
	it := l.GetIter()
	var x pango.Unit
	for i, c := range want {
		if it.Index != c.at {
			t.Fatalf("character iterator: index %d at the position %d, want %d", it.Index, i, c.at)
		}
		r := it.GetCharExtents()
		cr := logicalOf(it.GetClusterExtents)
		if c.pos == 0 {
			x = cr.X
		}
		if r.X != x || r.Y != cr.Y || r.Height != cr.Height {
			t.Fatalf("character iterator: position %d has the extents %v in the cluster %v, want X = %d", i, r, cr, x)
		}
		if c.c.run != -1 {
			x += r.Width
		}
		if c.c.run != -1 && c.pos == c.c.n-1 && x != cr.X+cr.Width {
			t.Fatalf("character iterator: the characters do not fill the cluster %v: %d", cr, x)
		}
		if it.NextChar() != (i+1 < len(want)) {
			t.Fatalf("character iterator: %v at position %d of %d", i+1 >= len(want), i, len(want))
		}
	}
}

var propP14 = &pbt.Prop{
	ID: "P14", Quick: 300000, Thorough: 3000000,
	Rule: "layouts with generated texts, attributes and settings, iterated by lines, runs, clusters and characters; non trivial: at least two lines, and a line of several runs",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 2, Run: func(t *pbt.T) { runP14(t, profile{maxText: 40}) }},
		{Name: "attributes", Weight: 3, Run: func(t *pbt.T) { runP14(t, profile{maxText: 40, attrs: true, ellipsize: true}) }},
		{Name: "gravity", Weight: 1, Run: func(t *pbt.T) { runP14(t, profile{maxText: 30, attrs: true, ellipsize: true, vertical: true}) }},
		{Name: "fonts", Weight: 1, Run: func(t *pbt.T) { runP14(t, profile{maxText: 20, attrs: true, ellipsize: true, noFont: true}) }},
	},
}
