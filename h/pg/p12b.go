package main

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// Texts whose width is not the sum of the widths of their characters: a part of
// the text is measured by laying it out alone.

func runP12Kern(t *pbt.T) {
	s := defaultSpec(newFontMap(ligaFace()))
	s.round = t.Bool()
	s.attrs = []attrSpec{{pango.NewAttrInsertHyphens(false), 0, 1000}}
	s.wrap = pbt.Pick(t, []pango.WrapMode{pango.WRAP_CHAR, pango.WRAP_CHAR, pango.WRAP_WORD, pango.WRAP_WORD_CHAR})
	for k := t.Range(1, 6); k > 0; k-- {
		if len(s.text) > 0 {
			s.text = append(s.text, ' ')
		}
		for n := t.Range(1, 4); n > 0; n-- {
			s.text = append(s.text, []rune(pbt.Pick(t, []string{"AV", "VA", "To", "Aé", "ffi", "fi", "ff", "st", "e", "To"}))...)
		}
	}
	n := len(s.text)
	cache := map[[2]int]pango.Unit{}
	// measure is the width of a line, without the space where it is broken
	measure := func(a, b int) pango.Unit {
		if b < n && s.text[b-1] == ' ' {
			b--
		}
		if a == b {
			return 0
		}
		w, ok := cache[[2]int{a, b}]
		if !ok {
			u := *s
			u.width, u.text = -1, s.text[a:b]
			w, _ = u.fresh().GetSize()
			cache[[2]int{a, b}] = w
		}
		return w
	}
	// sometimes exactly the width of a part of the text
	if a := t.Intn(n); t.Intn(3) > 0 {
		s.width = measure(a, min(n, a+1+t.Intn(12))) + pango.Unit(t.Intn(3)-1)
		if s.width < 0 {
			s.width = 0
		}
	} else {
		s.width = pango.Unit(t.Intn(60000))
	}
	t.Describe(s.show)
	l := s.fresh()
	attrs := l.GetCharacterAttributes()
	canBreak := func(b int, wrap pango.WrapMode) bool {
		return b == n || attrs[b].IsLineBreak() || wrap == pango.WRAP_CHAR && attrs[b].IsCharBreak()
	}
	// last is the end of the longest line which fits, -1 if there is none
	last := func(start int, wrap pango.WrapMode) (best int) {
		best = -1
		for b := start + 1; b <= n; b++ {
			w := measure(start, b)
			if canBreak(b, wrap) && w <= s.width {
				best = b
			}
			if w > s.width+3*5000 { // kernings and ligatures change the width by less
				break
			}
		}
		return best
	}
	exact, lines := 0, l.GetLinesReadonly()
	pos := 0
	for i, line := range lines {
		end := line.StartIndex + line.Length
		if line.StartIndex != pos {
			t.Fatalf("line %d starts at %d, not at %d", i, line.StartIndex, pos)
		}
		var r pango.Rectangle
		line.GetExtents(nil, &r)
		if w := measure(pos, end); r.Width != w {
			t.Fatalf("line %d [%d,%d): width %d, want %d", i, pos, end, r.Width, w)
		}
		wrap := s.wrap
		if wrap == pango.WRAP_WORD_CHAR {
			wrap = pango.WRAP_WORD
		}
		want := last(pos, wrap)
		if want == -1 && s.wrap == pango.WRAP_WORD_CHAR {
			wrap = pango.WRAP_CHAR
			want = last(pos, wrap)
		}
		if !canBreak(end, wrap) {
			t.Fatalf("line %d [%d,%d): broken where it may not", i, pos, end)
		}
		if want == -1 {
			for b := pos + 1; b < end; b++ {
				if canBreak(b, wrap) && measure(pos, b) < r.Width {
					t.Fatalf("line %d [%d,%d): width %d > %d, while it could have been broken at %d", i, pos, end, r.Width, s.width, b)
				}
			}
		} else if end != want {
			t.Fatalf("line %d [%d,%d) of width %d: the longest line which fits in %d ends at %d (width %d)", i, pos, end, r.Width, s.width, want, measure(pos, want))
		}
		if want != -1 && r.Width == s.width {
			t.Label("exact")
			exact++
		}
		pos = end
	}
	if pos != n {
		t.Fatalf("the lines end at %d of %d", pos, n)
	}
	if len(lines) > 1 {
		t.NonTrivial(fmt.Sprint(string(s.text), s.width, s.wrap))
	}
}
