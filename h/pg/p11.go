package main

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/fribidi"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
	"verifh/uba"
)

type paragraph struct{ start, end, next int }

// paragraphsOf splits the text at the paragraph separators
func paragraphsOf(text []rune, single bool) (out []paragraph) {
	start := 0
	for i := 0; !single && i < len(text); i++ {
		n := 0
		switch text[i] {
		case '\n', 0x2029:
			n = 1
		case '\r':
			n = 1
			if i+1 < len(text) && text[i+1] == '\n' {
				n = 2
			}
		}
		if n > 0 {
			out = append(out, paragraph{start, i, i + n})
			i += n - 1
			start = i + 1
		}
	}
	return append(out, paragraph{start, len(text), len(text)})
}

// strongDirection is the direction of the first strong character
func strongDirection(text []rune) int {
	for _, r := range text {
		switch uba.ClassName(r) {
		case "L", "LRE", "LRO":
			return 1
		case "R", "AL", "RLE", "RLO":
			return -1
		}
	}
	return 0
}

// checkLines checks the structure of the lines
func checkLines(t *pbt.T, s *layoutSpec, l *pango.Layout) {
	lines := l.GetLinesReadonly()
	if len(lines) != l.GetLineCount() {
		t.Fatalf("%d lines, and %d according to GetLineCount", len(lines), l.GetLineCount())
	}
	if len(lines) == 0 {
		t.Fatalf("no line")
	}
	paras := paragraphsOf(s.text, s.single)
	limited := s.ellipsize != pango.ELLIPSIZE_NONE && s.height >= 0
	dir := strongDirection(s.text)
	if dir == 0 {
		dir = 1
	}
	li := 0
	for pi, p := range paras {
		if li == len(lines) && limited && pi > 0 {
			break // no room for this paragraph
		}
		if d := strongDirection(s.text[p.start:p.end]); d != 0 {
			dir = d
		}
		pos := p.start
		for first := true; first || pos < p.end; first = false {
			if li == len(lines) {
				t.Fatalf("no line for the text from %d to %d", pos, p.end)
			}
			line := lines[li]
			if line.StartIndex != pos {
				t.Fatalf("line %d starts at %d, want %d", li, line.StartIndex, pos)
			}
			if line.IsParagraphStart != first {
				t.Fatalf("line %d: paragraph start is %v, want %v", li, line.IsParagraphStart, first)
			}
			if line.Length == 0 && p.start != p.end || line.StartIndex+line.Length > p.end {
				t.Fatalf("line %d: [%d,+%d) in the paragraph [%d,%d)", li, line.StartIndex, line.Length, p.start, p.end)
			}
			wantDir := dir
			if !s.autoDir {
				wantDir = 1
			}
			switch s.gravity {
			case pango.GRAVITY_NORTH:
				wantDir = -wantDir
			case pango.GRAVITY_EAST:
				wantDir = 1
			case pango.GRAVITY_WEST:
				wantDir = -1
			}
			want := pango.DIRECTION_LTR
			if wantDir < 0 {
				want = pango.DIRECTION_RTL
			}
			if line.ResolvedDir != want {
				t.Fatalf("line %d: direction %d, want %d", li, line.ResolvedDir, want)
			}
			checkRuns(t, s, li, line)
			pos += line.Length
			li++
		}
	}
	if li != len(lines) {
		t.Fatalf("%d lines, want %d", len(lines), li)
	}
}

// checkRuns checks that the runs cover the line, in visual order
func checkRuns(t *pbt.T, s *layoutSpec, li int, line *pango.LayoutLine) {
	runs := runsOf(line)
	seen := make([]int, line.Length)
	byStart := map[int]*pango.GlyphItem{}
	for i, r := range runs {
		it := r.Item
		if it.Length <= 0 || it.Offset < line.StartIndex || it.Offset+it.Length > line.StartIndex+line.Length {
			t.Fatalf("line %d [%d,+%d): run %d is [%d,+%d)", li, line.StartIndex, line.Length, i, it.Offset, it.Length)
		}
		for k := it.Offset; k < it.Offset+it.Length; k++ {
			seen[k-line.StartIndex]++
		}
		byStart[it.Offset] = r
		if msg := checkGlyphs(r); msg != "" {
			t.Fatalf("line %d run %d: %s (%s)", li, i, msg, showRun(r))
		}
	}
	for k, n := range seen {
		if n != 1 {
			t.Fatalf("line %d: character %d is in %d runs", li, k+line.StartIndex, n)
		}
	}
	// logical order, then visual order
	var order []*pango.GlyphItem
	for k := line.StartIndex; k < line.StartIndex+line.Length; k += byStart[k].Item.Length {
		order = append(order, byStart[k])
	}
	max := fribidi.Level(0)
	for _, r := range order {
		if r.Item.Analysis.Level > max {
			max = r.Item.Analysis.Level
		}
	}
	for lev := max; lev > 0; lev-- {
		for i := 0; i < len(order); {
			j := i
			for j < len(order) && order[j].Item.Analysis.Level >= lev {
				j++
			}
			for a, b := i, j-1; a < b; a, b = a+1, b-1 {
				order[a], order[b] = order[b], order[a]
			}
			i = j + 1
		}
	}
	for i, r := range runs {
		if order[i] != r {
			t.Fatalf("line %d: run %d in visual order starts at %d, want %d", li, i, r.Item.Offset, order[i].Item.Offset)
		}
	}
}

// checkGlyphs checks the clusters of a run
func checkGlyphs(r *pango.GlyphItem) string {
	lc := r.Glyphs.LogClusters
	if len(lc) != len(r.Glyphs.Glyphs) {
		return fmt.Sprintf("%d clusters for %d glyphs", len(lc), len(r.Glyphs.Glyphs))
	}
	if len(lc) == 0 {
		return "no glyph"
	}
	min := lc[0]
	for i, c := range lc {
		if c < 0 || c >= r.Item.Length {
			return fmt.Sprintf("cluster %d is %d", i, c)
		}
		if i > 0 && (r.LTR() && c < lc[i-1] || !r.LTR() && c > lc[i-1]) {
			return fmt.Sprintf("the clusters %d and %d are not in order", i-1, i)
		}
		if c < min {
			min = c
		}
	}
	if min != 0 {
		return fmt.Sprintf("the first cluster is %d", min)
	}
	return ""
}

func runP11(t *pbt.T, p profile) {
	s := genSpec(t, p)
	withLigatures(t, s)
	t.Describe(s.show)
	l := s.fresh()
	t.NoPanic("layout", func() { l.GetLineCount() })
	checkLines(t, s, l)
	n := 0
	for _, line := range l.GetLinesReadonly() {
		n += len(runsOf(line))
	}
	if l.GetLineCount() >= 2 && n > l.GetLineCount() {
		t.NonTrivial(string(s.text))
	}
}

var propP11 = &pbt.Prop{
	ID: "P11", Quick: 800000, Thorough: 3000000,
	Rule: "layouts with generated texts, attributes and settings; non trivial: at least two lines, and a line of several runs",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 2, Run: func(t *pbt.T) { runP11(t, profile{maxText: 40}) }},
		{Name: "attributes", Weight: 3, Run: func(t *pbt.T) { runP11(t, profile{maxText: 40, attrs: true, ellipsize: true}) }},
		{Name: "gravity", Weight: 1, Run: func(t *pbt.T) { runP11(t, profile{maxText: 30, attrs: true, ellipsize: true, vertical: true}) }},
		{Name: "fonts", Weight: 1, Run: func(t *pbt.T) { runP11(t, profile{maxText: 20, attrs: true, ellipsize: true, noFont: true}) }},
	},
}
