package main

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// breakModel knows the width of each character of a text without wrapping
type breakModel struct {
	s       *layoutSpec
	attrs   []pango.CharAttr
	w       []pango.Unit // by character; clusters on their first one
	hyphen  []pango.Unit // width of an hyphen after the character
	visible []bool       // the hyphen has a width, before rounding
	slack   pango.Unit   // uncertainty on the width of an hyphen
	inside  []bool       // the character is not the start of a cluster
	fontAt  []*font      // by character
}

func hyphenWidth(f pango.Font) pango.Unit {
	if f == nil {
		return 0
	}
	hb := f.GetHarfbuzzFont()
	for _, r := range []rune{0x2010, '-'} {
		if g, ok := hb.Face().NominalGlyph(r); ok {
			return pango.Unit(hb.GlyphHAdvance(g))
		}
	}
	return 0
}

// newBreakModel returns nil if the text has clusters of several graphemes, isolated marks,
// or if it may be broken inside a grapheme
func newBreakModel(s *layoutSpec) *breakModel {
	u := *s
	u.width, u.indent, u.justify = -1, 0, false
	l := u.fresh()
	n := len(s.text)
	m := &breakModel{s: s, attrs: l.GetCharacterAttributes(), w: make([]pango.Unit, n), hyphen: make([]pango.Unit, n), visible: make([]bool, n), inside: make([]bool, n), fontAt: make([]*font, n)}
	if s.round {
		m.slack = pango.Scale
	}
	for k := 0; k < n; k++ {
		if m.attrs[k].IsLineBreak() && !m.attrs[k].IsCursorPosition() {
			return nil // a mark after a space, which changes when it is broken
		}
	}
	lines := l.GetLinesReadonly()
	for li, lc := range lineClusters(s, lines) {
		for _, c := range lc {
			if c.run == -1 {
				continue
			}
			if unicodeMark(s.text[c.start]) {
				return nil // its width depends on the characters around it
			}
			m.w[c.start] = c.width
			run := runsOf(lines[li])[c.run]
			m.fontAt[c.start], _ = run.Item.Analysis.Font.(*font)
			h := hyphenWidth(run.Item.Analysis.Font)
			visible := h > 0
			if s.round {
				h = h.Round()
			}
			for _, a := range run.Item.Analysis.ExtraAttrs {
				if a.Kind == pango.ATTR_SHAPE {
					h = -1
				}
			}
			for k := c.start; k < c.start+c.n; k++ {
				if !visible && s.text[k] == 0x2027 {
					return nil // removed by an hyphen which may not be shown
				}
				m.hyphen[k] = h
				m.visible[k] = visible
				m.inside[k] = k > c.start
				if k > c.start && m.attrs[k].IsCursorPosition() {
					return nil
				}
			}
		}
	}
	return m
}

func (m *breakModel) needHyphen(at int) bool {
	if at == 0 || m.hyphen[at-1] < 0 { // imposed shapes have no hyphen
		return false
	}
	return m.attrs[at].IsBreakInsertsHyphen() || m.attrs[at].IsBreakRemovesPreceding()
}

// lineWidth is the width of a line [start, end) of a paragraph ending at paraEnd
func (m *breakModel) lineWidth(start, end, paraEnd int, collapse bool) (w, slack pango.Unit) {
	for k := start; k < end; k++ {
		w += m.w[k]
	}
	if end == start {
		return w, 0
	}
	last := end - 1
	switch {
	case end < paraEnd && m.needHyphen(end):
		w += m.hyphen[last]
		slack = m.slack
		for k, seen := last, 0; k >= start && seen < 4; k-- {
			r := m.s.text[k]
			if m.w[k] != 0 {
				seen++
			}
			if r >= 0x600 && r < 0x700 {
				slack += m.w[k] + m.hyphen[last] // another form of the letter before the hyphen
			}
		}
		if m.attrs[end].IsBreakRemovesPreceding() {
			w -= m.w[last]
		}
	case end == paraEnd && m.attrs[end].IsBreakInsertsHyphen():
		slack = m.slack // the last character of the paragraph shows an hyphen
	case m.attrs[last].IsWhite() && (end < paraEnd || collapse) && !m.inside[last]:
		w -= m.w[last]
	}
	return w, slack
}

// textWidth is the width of a line without the white spaces and the invisible
// characters at its end
func (m *breakModel) textWidth(start, end, paraEnd int) (w, slack pango.Unit) {
	if m.needHyphen(end) && (end == paraEnd || m.visible[end-1]) {
		return m.lineWidth(start, end, paraEnd, true)
	}
	for end > start && (m.attrs[end-1].IsWhite() || m.w[end-1] == 0) {
		end--
	}
	for k := start; k < end; k++ {
		w += m.w[k]
	}
	return w, 0
}

func (m *breakModel) canBreak(at int, wrap pango.WrapMode) bool {
	return m.attrs[at].IsLineBreak() || wrap == pango.WRAP_CHAR && m.attrs[at].IsCharBreak()
}

func (m *breakModel) goal(first bool) pango.Unit {
	w := m.s.width
	if m.s.align != pango.ALIGN_CENTER {
		if first && m.s.indent >= 0 {
			w -= m.s.indent
		} else if !first && m.s.indent < 0 {
			w += m.s.indent
		}
	}
	if w < 0 {
		w = 0
	}
	return w
}

const lineSeparator = 0x2028

// check compares one line to the rules
func (m *breakModel) check(start, end, paraEnd int, first bool) string {
	s := m.s
	forced := func(b int) bool { // by a line separator
		return !s.single && b > start && s.text[b-1] == lineSeparator
	}
	if forced(end) {
		if s.width >= 0 {
			if w, _ := m.textWidth(start, end, paraEnd); w <= m.goal(first) {
				return ""
			}
		} else {
			return ""
		}
	}
	for k := start + 1; k < end; k++ {
		if forced(k) {
			return fmt.Sprintf("the line contains the line separator %d", k-1)
		}
	}
	if s.width < 0 {
		if end != paraEnd {
			return "the line is wrapped, without width"
		}
		return ""
	}
	goal := m.goal(first)
	w, slack := m.textWidth(start, end, paraEnd)
	wide := s.wrap // allowed breaks for a line which is too long
	if wide == pango.WRAP_WORD_CHAR {
		wide = pango.WRAP_CHAR
	}
	if w-slack > goal {
		for b := start + 1; b < end; b++ {
			if m.canBreak(b, wide) {
				// a break with an hyphen must make the text fit
				bw, bs := m.textWidth(start, b, paraEnd)
				if bw+bs <= goal || !m.needHyphen(b) && bw < w-slack {
					return fmt.Sprintf("the line has the width %d > %d, it could have been broken at %d (width %d)", w, goal, b, bw)
				}
			}
		}
	}
	if end == paraEnd {
		return ""
	}
	// the break
	if !m.canBreak(end, wide) {
		return fmt.Sprintf("the line ends at %d, which is not a break", end)
	}
	next := s.wrap
	if s.wrap == pango.WRAP_WORD_CHAR {
		if !m.canBreak(end, pango.WRAP_WORD) {
			next = pango.WRAP_CHAR
			for b := start + 1; b < end; b++ {
				if bw, bs := m.lineWidth(start, b, paraEnd, true); m.canBreak(b, pango.WRAP_WORD) && bw+bs <= goal {
					return fmt.Sprintf("the line is broken in a word, although the words fit up to %d", b)
				}
			}
		}
	}
	if forced(end) {
		return ""
	}
	// the next chunk does not fit
	for b := end + 1; b <= paraEnd; b++ {
		if b != paraEnd && !m.canBreak(b, next) {
			continue
		}
		if bw, bs := m.lineWidth(start, b, paraEnd, false); bw+bs <= goal {
			return fmt.Sprintf("the line ends at %d, although the text up to %d fits: %d <= %d", end, b, bw, goal)
		}
		break
	}
	return ""
}

func runP12(t *pbt.T, p profile, fix func(s *layoutSpec)) {
	s := genSpec(t, p)
	fix(s)
	t.Describe(s.show)
	m := newBreakModel(s)
	if m == nil {
		t.Discard()
	}
	l := s.fresh()
	lines := l.GetLinesReadonly()
	paras := paragraphsOf(s.text, s.single)
	pi := 0
	wrapped := 0
	for i, line := range lines {
		for line.StartIndex > paras[pi].end {
			pi++
		}
		end := line.StartIndex + line.Length
		if line.Length == 0 {
			continue
		}
		if msg := m.check(line.StartIndex, end, paras[pi].end, line.IsParagraphStart); msg != "" {
			t.Fatalf("line %d [%d,%d): %s", i, line.StartIndex, end, msg)
		}
		if end < paras[pi].end {
			wrapped++
		}
		// the width of the line is the one of its characters
		r := dirty
		line.GetExtents(nil, &r)
		broken := end < paras[pi].end || !s.single && s.text[end-1] == lineSeparator
		want, slack := m.lineWidth(line.StartIndex, end, paras[pi].end, broken)
		if m.inside[line.StartIndex] || end < len(s.text) && m.inside[end] {
			t.Fatalf("line %d [%d,%d): broken in a cluster", i, line.StartIndex, end)
		}
		if !s.justify && (r.Width > want+slack || r.Width < want-slack) {
			t.Fatalf("line %d [%d,%d): width %d, want %d (hyphen %v)", i, line.StartIndex, end, r.Width, want, end < paras[pi].end && m.needHyphen(end))
		}
	}
	if wrapped >= 2 {
		t.NonTrivial(fmt.Sprint(string(s.text), s.width))
	}
}

// noTabs drops tabs, and the overrides of the direction, which change the forms
// of arabic letters when they are broken
func noTabs(s *layoutSpec) {
	for i, r := range s.text {
		if r == '\t' || r == 0x202d || r == 0x202e {
			s.text[i] = ' '
		}
	}
}

// noSpacing drops the attributes whose effect is not local
func noSpacing(s *layoutSpec) {
	noTabs(s)
	out := s.attrs[:0]
	for _, a := range s.attrs {
		if a.proto.Kind != pango.ATTR_LETTER_SPACING && a.proto.Kind != pango.ATTR_TEXT_TRANSFORM {
			out = append(out, a)
		}
	}
	s.attrs = out
}

var propP12 = &pbt.Prop{
	ID: "P12", Quick: 300000, Thorough: 3000000,
	Rule: "layouts over fonts with fixed metrics, with a width; the lines are compared to the widths of the characters without wrapping and to the allowed breaks; non trivial: at least two wrapped lines",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 3, Run: func(t *pbt.T) { runP12(t, profile{maxText: 50}, noTabs) }},
		{Name: "attributes", Weight: 3, Run: func(t *pbt.T) { runP12(t, profile{maxText: 50, attrs: true}, noSpacing) }},
		{Name: "kerning", Weight: 1, Run: runP12Kern},
	},
}
