package main

import (
	"fmt"
	"sort"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// cursor is a position of a cursor in a line
type cursor struct {
	strong, weak edge
	sure         bool // otherwise strong and weak may be swapped
}

// cursorAt computes the cursors before the character at `index`, in the given line:
// the strong one is next to the neighbour which has the direction of the line, the weak
// one next to the other.
func (p *placed) cursorAt(li, index int) cursor {
	e := p.edges[li]
	base := 0
	if e.line.ResolvedDir == pango.DIRECTION_RTL {
		base = 1
	}
	x1, x2 := edge{e.start(), 0, true}, edge{e.end(), 0, true}
	l1, l2 := base, base
	k := index - e.line.StartIndex
	if k > 0 {
		x1, l1 = e.tail[k-1], int(e.runs[e.runOf[k-1]].Item.Analysis.Level)
	}
	if k < e.line.Length {
		x2, l2 = e.lead[k], int(e.runs[e.runOf[k]].Item.Analysis.Level)
	}
	b1, b2 := l1%2 == base, l2%2 == base
	switch {
	case b1 && !b2, b1 && b2 && l1 < l2:
		return cursor{x1, x2, true}
	case b2:
		return cursor{x2, x1, true}
	}
	return cursor{x2, x1, false}
}

func (p *placed) checkCursor(t *pbt.T, index int) {
	li := lineOf(p.lines, index)
	e := p.edges[li]
	at := index
	if end := e.line.StartIndex + e.line.Length; at > end {
		at = end
		t.Label("in a paragraph delimiter")
	}
	strong, weak := dirty, dirty
	switch t.Intn(3) { // together or apart
	case 0:
		p.l.GetCursorPos(index, &strong, &weak)
	default:
		p.l.GetCursorPos(index, &strong, nil)
		p.l.GetCursorPos(index, nil, &weak)
	}
	v := p.vertical(li, at)
	for _, r := range []rect{strong, weak} {
		if r.Width != 0 || r.Y != v.Y || r.Height != v.Height {
			t.Fatalf("cursor at %d: %v, the run has the extents %v", index, r, v)
		}
	}
	if at < e.line.StartIndex+e.line.Length && at > e.line.StartIndex && !p.la[at].IsCursorPosition() {
		return
	}
	c := p.cursorAt(li, at)
	x := p.rects[li].X
	s, w := strong.X-x, weak.X-x
	if !c.strong.is(s) || !c.weak.is(w) {
		if !c.sure && c.strong.is(w) && c.weak.is(s) {
			return
		}
		t.Fatalf("cursors at %d: strong %d, weak %d in a line at %d, want %d, %d", index, s, w, x, c.strong.x, c.weak.x)
	}
	if c.strong != c.weak {
		t.Label("split cursor")
	}
}

// stop is a position of the cursor on a line
type stop struct {
	pos int
	x   pango.Unit
}

// stops returns the positions of the cursor on a line, from left to right, as reported by GetCursorPos
func (p *placed) stops(li int, strong bool) (out []stop) {
	e := p.edges[li]
	s0, end := e.line.StartIndex, e.line.StartIndex+e.line.Length
	x0 := p.rects[li].X
	for i := s0; i <= end; i++ {
		if i < end && !p.la[i].IsCursorPosition() {
			continue
		}
		var x pango.Unit
		if i == end && li+1 < len(p.lines) && !p.lines[li+1].IsParagraphStart { // also the start of the next line
			c := p.cursorAt(li, i)
			x = c.weak.x
			if strong {
				x = c.strong.x
			}
			x += x0
		} else {
			x = p.cursorX(i, strong)
		}
		out = append(out, stop{i, x})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].x < out[j].x })
	return out
}

func (p *placed) cursorX(index int, strong bool) pango.Unit {
	var r rect
	if strong {
		p.l.GetCursorPos(index, &r, nil)
	} else {
		p.l.GetCursorPos(index, nil, &r)
	}
	return r.X
}

// walk moves the cursor from one end of the layout to the other
func (p *placed) walk(t *pbt.T, strong bool, dir int) {
	what := fmt.Sprintf("moving by %d (strong %v)", dir, strong)
	// the first position
	first, last := 0, len(p.lines)-1
	if dir < 0 {
		first, last = last, first
	}
	ordered := func(l []stop) []stop {
		if dir < 0 {
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
		}
		return l
	}
	l := ordered(p.stops(first, strong))
	index, trailing := p.encode(first, l[0].pos)
	moves := 0
	li, at := first, l[0].x // the current place
	pos := l[0].pos
	for {
		// where is the next one ?
		l := ordered(p.stops(li, strong))
		var next []stop
		nli := li
		for _, s := range l {
			if (dir > 0 && s.x > at || dir < 0 && s.x < at) && (len(next) == 0 || next[0].x == s.x) {
				next = append(next, s)
			}
		}
		for len(next) == 0 && nli != last {
			nli += dir
			for _, s := range ordered(p.stops(nli, strong)) {
				if s.pos != pos && (len(next) == 0 || next[0].x == s.x) { // the end of a line is the start of the next one
					next = append(next, s)
				}
			}
		}
		old := [2]int{index, trailing}
		t.NoPanic("MoveCursorVisually", func() { index, trailing = p.l.MoveCursorVisually(strong, index, trailing, dir*t.Range(1, 3)) })
		if moves++; moves > 4*len(p.s.text)+20 {
			t.Fatalf("%s: does not stop", what)
		}
		if len(next) == 0 {
			want := -1
			if dir > 0 {
				want = pango.MaxInt
			}
			if index != want || trailing != 0 {
				t.Fatalf("%s from %v: got %d, %d at the end of the layout", what, old, index, trailing)
			}
			break
		}
		ok := false
		for _, s := range next {
			if i, tr := p.encode(nli, s.pos); i == index && tr == trailing {
				ok = true
				pos = s.pos
			}
		}
		if !ok {
			t.Fatalf("%s from %v on line %d (position %d at %d): got %d, %d, want %v on line %d", what, old, li, pos, at, index, trailing, next, nli)
		}
		li, at = nli, next[0].x
	}
	t.Label("walk")
}

// encode returns the character and the offset of a position on a line
func (p *placed) encode(li, pos int) (index, trailing int) {
	line := p.lines[li]
	index = pos
	if pos == line.StartIndex+line.Length && line.Length > 0 {
		index--
		trailing++
		for index > line.StartIndex && !p.la[index].IsCursorPosition() {
			index--
			trailing++
		}
	}
	return index, trailing
}

func runP15(t *pbt.T, pr profile) {
	s := genSpec(t, pr)
	withLigatures(t, s)
	t.Describe(s.show)
	p := place(t, s)
	known := true
	for _, e := range p.edges {
		if !regularEdges(e) {
			return
		}
		for _, l := range [][]edge{e.lead, e.tail} {
			for _, x := range l {
				known = known && x.known
			}
		}
	}
	for index := 0; index <= len(s.text); index++ {
		p.checkCursor(t, index)
	}
	if !known {
		t.Label("unknown carets")
		return
	}
	strong := t.Chance(2, 3)
	for _, dir := range []int{1, -1} {
		p.walk(t, strong, dir)
	}
	for k := t.Intn(6); k > 0; k-- { // from anywhere
		index, trailing := t.Intn(len(s.text)+1), t.Intn(3)
		if index == len(s.text) {
			trailing = 0
		}
		dir := 1 - 2*t.Intn(2)
		var i, tr int
		t.NoPanic("MoveCursorVisually", func() { i, tr = p.l.MoveCursorVisually(strong, index, trailing, dir) })
		if dir < 0 && i == -1 && tr == 0 || dir > 0 && i == pango.MaxInt && tr == 0 {
			continue
		}
		if i < 0 || i > len(s.text) {
			t.Fatalf("moving by %d from %d, %d: got %d, %d", dir, index, trailing, i, tr)
		}
		li := lineOf(p.lines, i)
		valid := false
		for _, st := range p.stops(li, strong) {
			a, b := p.encode(li, st.pos)
			valid = valid || a == i && b == tr
		}
		if d := li - lineOf(p.lines, index); !valid || d*dir < 0 {
			t.Fatalf("moving by %d from %d, %d: got %d, %d on line %d", dir, index, trailing, i, tr, li)
		}
	}
	multi := false
	for _, e := range p.edges {
		multi = multi || len(e.runs) > 1
	}
	if multi && len(p.lines) > 1 {
		t.NonTrivial(fmt.Sprint(string(s.text), s.width))
	}
}

var propP15 = &pbt.Prop{
	ID: "P15", Quick: 120000, Thorough: 1500000,
	Rule: "layouts with generated texts, attributes and settings; the cursor is queried at every index and walks through the layout in both directions; non trivial: several lines, one of them with several runs",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 3, Run: func(t *pbt.T) { runP15(t, profile{maxText: 40}) }},
		{Name: "attributes", Weight: 3, Run: func(t *pbt.T) { runP15(t, profile{maxText: 40, attrs: true, ellipsize: true}) }},
		{Name: "gravity", Weight: 1, Run: func(t *pbt.T) { runP15(t, profile{maxText: 30, attrs: true, ellipsize: true, vertical: true}) }},
		{Name: "fonts", Weight: 1, Run: func(t *pbt.T) { runP15(t, profile{maxText: 20, attrs: true, ellipsize: true, noFont: true}) }},
	},
}
