package main

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/pango"
	"golang.org/x/text/width"
	"verifh/pbt"
)

// ellipsis returns the index of the run of the ellipsis in logical order, or -1
func ellipsisRun(t *pbt.T, li int, runs []*pango.GlyphItem) int {
	at := -1
	for k, r := range runs {
		if r.Item.Analysis.Flags&pango.AFIsEllipsis != 0 {
			if at != -1 {
				t.Fatalf("line %d: two ellipses", li)
			}
			at = k
		}
	}
	return at
}

// maxLines computes the lines which may be ellipsized: it returns for each line
// of l whether it is the last one that its paragraph may have
func (s *layoutSpec) lastAllowed(lines []*pango.LayoutLine) (out []bool) {
	out = make([]bool, len(lines))
	if s.height < 0 {
		n := 0
		for i, line := range lines {
			if n++; line.IsParagraphStart {
				n = 1
			}
			out[i] = n == int(-s.height)
		}
		return out
	}
	empty := *s
	empty.text, empty.height = nil, -1
	r := dirty
	h := empty.fresh().GetLinesReadonly()[0].GetExtents(nil, &r)
	next, left := r.Height, s.height
	if s.lineSpacing != 0 {
		next = pango.Unit(s.lineSpacing * float32(h))
	}
	for i, line := range lines {
		out[i] = 2*next > left // there is no room for two more lines
		line.GetExtents(nil, &r)
		next = r.Height
		left -= r.Height + s.spacing
	}
	return out
}

func runP16(t *pbt.T, p profile, fix func(s *layoutSpec)) {
	p.ellipsize = true
	s := genSpec(t, p)
	withLigatures(t, s)
	s.ellipsize = pango.EllipsizeMode(t.Range(1, 3))
	if s.height == -1 && t.Intn(3) != 0 {
		s.height = pbt.Pick(t, []pango.Unit{-1, -2, -3, 0, 1, 20000, 30000, 100000, pango.Unit(t.Size(100000))})
	}
	if s.width < 0 {
		s.width = genWidth(t)
	}
	fix(s)
	for i, r := range s.text {
		if r == lineSeparator {
			s.text[i] = ' '
		}
	}
	t.Describe(s.show)
	wrapped := *s
	wrapped.ellipsize, wrapped.height = pango.ELLIPSIZE_NONE, -1
	m := newBreakModel(&wrapped)
	if m == nil {
		t.Discard()
	}
	m.s = s
	l, ref := s.fresh(), wrapped.fresh()
	lines, refs := l.GetLinesReadonly(), ref.GetLinesReadonly()
	if s.width < 0 {
		for i := range refs {
			if i >= len(lines) || lines[i].Length != refs[i].Length {
				t.Fatalf("without width: other lines")
			}
		}
		if l.IsEllipsized() {
			t.Fatalf("ellipsized without width")
		}
		return
	}
	last := s.lastAllowed(lines)
	paras := paragraphsOf(s.text, s.single)
	pi, ri, ellipses := 0, 0, 0
	for i, line := range lines {
		for line.StartIndex > paras[pi].end {
			pi++
		}
		for ri < len(refs) && refs[ri].StartIndex < line.StartIndex {
			ri++
		}
		end := line.StartIndex + line.Length
		if ri == len(refs) || refs[ri].StartIndex != line.StartIndex || refs[ri].IsParagraphStart != line.IsParagraphStart {
			t.Fatalf("line %d starts at %d, which is not the start of a wrapped line", i, line.StartIndex)
		}
		if i > 0 {
			// no text is lost
			prev := lines[i-1].StartIndex + lines[i-1].Length
			if line.IsParagraphStart {
				prev = paras[pi].start
			}
			if line.StartIndex != prev {
				t.Fatalf("line %d starts at %d, want %d", i, line.StartIndex, prev)
			}
		}
		runs, _ := logicalRuns(line)
		if line.Length > 0 && runs == nil {
			t.Fatalf("line %d: the runs do not cover the line", i)
		}
		e := ellipsisRun(t, i, runs)
		if !last[i] {
			if e != -1 {
				t.Fatalf("line %d has an ellipsis, although other lines may follow", i)
			}
			if line.Length != refs[ri].Length {
				t.Fatalf("line %d has %d characters, want %d", i, line.Length, refs[ri].Length)
			}
			continue
		}
		if end != paras[pi].end {
			t.Fatalf("line %d is the last one, and ends at %d before the end of the paragraph %d", i, end, paras[pi].end)
		}
		var total pango.Unit
		for k := line.StartIndex; k < end; k++ {
			total += m.w[k]
		}
		goal := s.goalWidth(line.IsParagraphStart)
		if (e != -1) != (total > goal) {
			t.Fatalf("line %d: ellipsis %v for the width %d and the text %d", i, e != -1, goal, total)
		}
		if e == -1 {
			continue
		}
		ellipses++
		checkEllipsis(t, m, i, line.StartIndex, end, runs, e, total, goal)
	}
	// the lines end with the text, or when there is no room for another
	if n := len(lines); lines[n-1].StartIndex+lines[n-1].Length != paras[len(paras)-1].end && s.height < 0 {
		t.Fatalf("the lines end at %d", lines[n-1].StartIndex+lines[n-1].Length)
	}
	if l.IsEllipsized() != (ellipses > 0) {
		t.Fatalf("IsEllipsized: %v for %d ellipses", l.IsEllipsized(), ellipses)
	}
	if ellipses > 0 {
		t.NonTrivial(fmt.Sprint(string(s.text), s.width, s.ellipsize))
	}
}

func checkEllipsis(t *pbt.T, m *breakModel, li, start, end int, runs []*pango.GlyphItem, e int, total, goal pango.Unit) {
	s := m.s
	dots := runs[e]
	a, b := dots.Item.Offset, dots.Item.Offset+dots.Item.Length
	if a >= b || !m.attrs[a].IsCursorPosition() && a != start || !m.attrs[b].IsCursorPosition() && b != end {
		t.Fatalf("line %d: the ellipsis replaces [%d,%d), which are not characters", li, a, b)
	}
	// the rest is kept
	var lw, ew pango.Unit
	for k, r := range runs {
		for _, g := range r.Glyphs.Glyphs {
			lw += g.Geometry.Width
		}
		if k == e {
			continue
		}
		for _, c := range clustersOf(r) {
			if c.width != m.w[c.start] {
				t.Fatalf("line %d: the character %d has the width %d, %d without ellipsis", li, c.start, c.width, m.w[c.start])
			}
		}
	}
	f := dots.Item.Analysis.Font.(*font)
	want := []rune{0x2026}
	if k := width.LookupRune(s.text[a]).Kind(); k == width.EastAsianFullwidth || k == width.EastAsianWide {
		want[0] = 0x22EF
	}
	order := f.fm.order(f.desc, dots.Item.Analysis.Language)
	known := f.desc.Variant == 0 // small capitals have other sizes
	for _, a := range s.attrs {
		known = known && a.proto.Kind != pango.ATTR_FONT_SCALE // replaces the family by the one of the font
	}
	if ref := m.fontAt[a]; known && ref != nil {
		d := ref.desc
		if d.FamilyName = f.desc.FamilyName; f.desc != d {
			t.Fatalf("line %d: the font of the ellipsis is %s, the one of the first character that it replaces %s", li, showFont(f), showFont(ref))
		}
	}
	for _, lang := range []pango.Language{dots.Item.Analysis.Language, s.language} {
		if lang == "ja" || lang == "ko" { // has preferred fonts
			known = false
		}
	}
	if known && len(order) != 0 {
		if !order[0].Get(want[0]) {
			want = []rune("...")
			for len(order) != 0 && !order[0].Get('.') {
				order = order[1:]
			}
			t.Label("three dots")
		}
	}
	if known && len(order) != 0 {
		if f.face != order[0] {
			t.Fatalf("line %d: the font of the ellipsis is %s, want %s", li, f.face.name, order[0].name)
		}
		if len(dots.Glyphs.Glyphs) != len(want) || int(dots.Glyphs.Glyphs[0].Glyph) != f.face.gids[want[0]] {
			t.Fatalf("line %d: the ellipsis is not %q", li, string(want))
		}
	}
	for k, g := range dots.Glyphs.Glyphs {
		if dots.Glyphs.LogClusters[k] != 0 {
			t.Fatalf("line %d: the ellipsis has several clusters", li)
		}
		w := pango.Unit(f.hb.GlyphHAdvance(pango.Glyph(g.Glyph).GID()))
		if s.round {
			w = w.Round()
		}
		ew += w
	}
	sum := func(i, j int) (w pango.Unit) {
		for ; i < j; i++ {
			w += m.w[i]
		}
		return w
	}
	fits := func(i, j int) bool { return total-sum(i, j)+ew <= goal }
	if fits(a, b) {
		if lw != goal {
			t.Fatalf("line %d: width %d, want %d", li, lw, goal)
		}
	} else if sum(a, b) != total {
		t.Fatalf("line %d: the width with the ellipsis is %d > %d, although [%d,%d) is kept from [%d,%d)", li, total-sum(a, b)+ew, goal, a, b, start, end)
	}
	switch {
	case s.ellipsize == pango.ELLIPSIZE_START && sum(start, a) != 0:
		t.Fatalf("line %d: [%d,%d) is kept at the start", li, start, a)
	case s.ellipsize == pango.ELLIPSIZE_END && sum(b, end) != 0:
		t.Fatalf("line %d: [%d,%d) is kept at the end", li, b, end)
	}
	wide := false
	for _, r := range s.text[start:end] {
		wide = wide || r >= 0x1100
	}
	if len(s.attrs) != 0 || wide { // the ellipsis may depend on its position
		if s.ellipsize == pango.ELLIPSIZE_START {
			for k := a + 1; k < b; k++ {
				if m.attrs[k].IsCursorPosition() && fits(a, k) {
					t.Fatalf("line %d: the ellipsis replaces [%d,%d), but [%d,%d) was enough", li, a, b, a, k)
				}
			}
		}
		return
	}
	// the gap grows from its center
	var center pango.Unit
	switch s.ellipsize {
	case pango.ELLIPSIZE_MIDDLE:
		center = total / 2
	case pango.ELLIPSIZE_END:
		center = total
	}
	i := start
	for i < end && sum(start, i)+m.w[i] <= center {
		i++
	}
	if i == end {
		i--
	}
	prev := func(i int) int {
		for i--; i > start && !m.attrs[i].IsCursorPosition(); i-- {
		}
		return i
	}
	next := func(i int) int {
		for i++; i < end && !m.attrs[i].IsCursorPosition(); i++ {
		}
		return i
	}
	i = prev(i + 1)
	j := next(i)
	for !fits(i, j) {
		// the next characters with a width on both sides
		i2, j2 := i, j
		for i2 > start && sum(i2, i) == 0 {
			i2 = prev(i2)
		}
		for j2 < end && sum(j, j2) == 0 {
			j2 = next(j2)
		}
		left, right := sum(i2, i) != 0, sum(j, j2) != 0
		if !left && !right {
			break
		}
		if left && (!right || center-sum(start, i2) < sum(start, j2)-center) {
			i = i2
		} else {
			j = j2
		}
	}
	if sum(i, j) != sum(a, b) || sum(start, i) != sum(start, a) {
		t.Fatalf("line %d: the ellipsis replaces [%d,%d), want [%d,%d) from the center %d", li, a, b, i, j, center)
	}
}

var propP16 = &pbt.Prop{
	ID: "P16", Quick: 300000, Thorough: 3000000,
	Rule: "layouts with an ellipsize mode over fonts with fixed metrics, compared to the ones without ellipsis; non trivial: at least one ellipsis",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 3, Run: func(t *pbt.T) { runP16(t, profile{maxText: 50}, noTabs) }},
		{Name: "attributes", Weight: 2, Run: func(t *pbt.T) { runP16(t, profile{maxText: 50, attrs: true}, noSpacing) }},
	},
}
