package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/benoitkugler/textlayout/language"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
	"verifh/ucd"
)

// Attributes of a layout which override the boundaries inside their range.

type segRange struct {
	kind pango.AttrKind
	s, e int
	on   bool // value
}

func (r segRange) String() string {
	return fmt.Sprintf("%d[%d,%d)=%v", r.kind, r.s, r.e, r.on)
}

func (r segRange) attr() *pango.Attribute {
	var a *pango.Attribute
	switch r.kind {
	case pango.ATTR_ALLOW_BREAKS:
		a = pango.NewAttrAllowBreaks(r.on)
	case pango.ATTR_INSERT_HYPHENS:
		a = pango.NewAttrInsertHyphens(r.on)
	case pango.ATTR_WORD:
		a = pango.NewAttrWord()
	default:
		a = pango.NewAttrSentence()
	}
	a.StartIndex, a.EndIndex = r.s, r.e
	return a
}

// segParagraphs splits the text after its separators
func segParagraphs(text []rune) (out [][2]int) {
	s := 0
	for i := 0; i < len(text); i++ {
		switch r := text[i]; {
		case r == '\r' && i+1 < len(text) && text[i+1] == '\n':
		case r == '\r' || r == '\n' || r == 0x2029:
			out = append(out, [2]int{s, i + 1})
			s = i + 1
		}
	}
	return append(out, [2]int{s, len(text)})
}

const visibleDividers = "\u00ad\u05a0\u2010\u2012\u2013\u05be\u0f0b\u1361\u17d8\u17da\u2027|"

// breakInRange tells if a line may be broken at p, inside a range without breaks
func breakInRange(text []rune, s, p int) (allowed, known bool) {
	if strings.ContainsRune(visibleDividers, text[p-1]) {
		return true, p-1 > s // nothing is asserted after the first character of the range
	}
	if ucd.Get("Line_Break", text[p]) == "Space" || text[p] == ' ' {
		return false, true
	}
	i := p - 1
	for i > s && text[i] == ' ' {
		i--
	}
	if i == s {
		return false, text[i] != ' ' && text[i] != 0x200b
	}
	return text[i] == 0x200b, true
}

// boundaries of words or sentences
type units struct{ boundary, start, end []bool }

// override makes one unit of each range, and keeps what remains of the other ones
func (u units) override(ranges []segRange) {
	n := len(u.start) - 1
	in := make([]int, n) // unit of each character, 0 for none
	cur := 0
	for i := 0; i < n; i++ {
		if u.end[i] {
			cur = 0
		}
		if u.start[i] {
			cur = i + 1
		}
		in[i] = cur
	}
	for k, r := range ranges {
		for p := r.s; p < r.e; p++ {
			in[p] = -k - 1
			if p > r.s {
				u.boundary[p], u.start[p], u.end[p] = false, false, false
			}
		}
	}
	for _, r := range ranges {
		u.boundary[r.s], u.boundary[r.e] = true, true
		u.start[r.s], u.end[r.e] = true, true
		u.end[r.s] = r.s > 0 && in[r.s-1] != 0
		u.start[r.e] = r.e < n && in[r.e] != 0
	}
}

func genSegRanges(t *pbt.T, text []rune) (out []segRange) {
	pars := segParagraphs(text)
	for _, kind := range []pango.AttrKind{pango.ATTR_ALLOW_BREAKS, pango.ATTR_INSERT_HYPHENS, pango.ATTR_WORD, pango.ATTR_SENTENCE} {
		if t.Intn(3) == 0 {
			continue
		}
		breaks := kind == pango.ATTR_ALLOW_BREAKS || kind == pango.ATTR_INSERT_HYPHENS
		parts := pars
		if breaks && t.Intn(3) == 0 { // across paragraphs
			parts = [][2]int{{0, len(text)}}
		}
		for _, p := range parts {
			if strings.Trim(string(text[p[0]:p[1]]), "\r\n\u2029") == "" {
				continue
			}
			cuts := []int{}
			for i, n := 0, t.Intn(5); i < n; i++ {
				cuts = append(cuts, t.Range(p[0], p[1]))
			}
			sort.Ints(cuts)
			for i := 0; i+1 < len(cuts); i++ {
				if cuts[i] < cuts[i+1] && t.Intn(4) > 0 {
					out = append(out, segRange{kind, cuts[i], cuts[i+1], breaks && t.Intn(4) == 0})
				}
			}
		}
	}
	return out
}

func runSegAttrs(t *pbt.T) {
	text := genSegText(t, 24)
	if t.Bool() {
		for i, n := 0, t.Size(24); i < n; i++ {
			text = append(text, pbt.Pick(t, []rune("abz. A,-'\u00ad \u200b日。カナか가!?\u0301\n\u2010|…\u2028")))
		}
	}
	ranges := genSegRanges(t, text)
	t.Describe(func() string { return fmt.Sprintf("text %s\nattributes %v", showRunes(text), ranges) })
	build := func(attrs bool) []pango.CharAttr {
		l := pango.NewLayout(pango.NewContext(newFontMap(theFaces()...)))
		l.SetRunes(text)
		if attrs {
			var list pango.AttrList
			for _, r := range ranges {
				list.Insert(r.attr())
			}
			l.SetAttributes(list)
		}
		return l.GetCharacterAttributes()
	}
	var base, got []pango.CharAttr
	t.NoPanic("GetCharacterAttributes", func() { base, got = build(false), build(true) })
	if len(got) != len(text)+1 || len(base) != len(got) {
		t.Fatalf("%d and %d attributes for %d characters", len(base), len(got), len(text))
	}
	changed := false
	for _, p := range segParagraphs(text) {
		changed = checkSegParagraph(t, text, p[0], p[1], ranges, base, got) || changed
	}
	if changed {
		t.NonTrivial(fmt.Sprint(showRunes(text), ranges))
	}
}

func checkSegParagraph(t *pbt.T, all []rune, ps, pe int, ranges []segRange, base, got []pango.CharAttr) bool {
	text := all[ps:pe]
	n := len(text)
	byKind := map[pango.AttrKind][]segRange{}
	for _, r := range ranges {
		if r.on || r.s >= pe || r.e <= ps {
			continue
		}
		r.s, r.e = r.s-ps, r.e-ps
		if r.s < 0 {
			r.s = 0
		}
		if r.e > n {
			r.e = n
		}
		byKind[r.kind] = append(byKind[r.kind], r)
	}
	// the attributes at the end of a paragraph are the ones of the start of the next
	last := n
	if pe == len(all) && (n == 0 || !strings.ContainsRune("\r\n\u2029", all[pe-1])) {
		last = n + 1
	}
	indic := false // their tailoring depends on the limits of the items
	for _, r := range text {
		indic = indic || isIndic(language.LookupScript(r))
	}
	alone := pango.ComputeCharacterAttributes(text, -1)
	mk := func() units { return units{make([]bool, n+1), make([]bool, n+1), make([]bool, n+1)} }
	words, sentences := mk(), mk()
	for i := 0; i <= n; i++ {
		a := alone[i]
		words.boundary[i], words.start[i], words.end[i] = a.IsWordBoundary(), a.IsWordStart(), a.IsWordEnd()
		sentences.boundary[i], sentences.start[i], sentences.end[i] = a.IsSentenceBoundary(), a.IsSentenceStart(), a.IsSentenceEnd()
	}
	words.override(byKind[pango.ATTR_WORD])
	sentences.override(byKind[pango.ATTR_SENTENCE])
	changed := false
	for i := 0; i < last; i++ {
		b, g := base[ps+i], got[ps+i]
		fail := func(name string, got, want bool) {
			if got != want {
				t.Fatalf("position %d: %s is %v, want %v (%s, without attributes %s)", ps+i, name, got, want, showAttr(g), showAttr(b))
			}
		}
		if b != alone[i] && !indic && !(i == 0 && ps > 0) {
			t.Fatalf("position %d: %s, and %s for the paragraph alone", ps+i, showAttr(b), showAttr(alone[i]))
		}
		changed = changed || b != g
		in := func(kind pango.AttrKind) (segRange, bool) {
			for _, r := range byKind[kind] {
				if r.s < i && i < r.e {
					return r, true
				}
			}
			return segRange{}, false
		}
		noBreak, inNoBreak := in(pango.ATTR_ALLOW_BREAKS)
		word, inWord := in(pango.ATTR_WORD)
		_, inNoHyphen := in(pango.ATTR_INSERT_HYPHENS)

		fail("char break", g.IsCharBreak(), b.IsCharBreak() && !inNoBreak)
		fail("mandatory break", g.IsMandatoryBreak(), b.IsMandatoryBreak())
		want, known := b.IsLineBreak(), true
		for _, r := range []struct {
			segRange
			in bool
		}{{noBreak, inNoBreak}, {word, inWord}} {
			if r.in {
				w, k := breakInRange(text, r.s, i)
				if w && k || !b.IsMandatoryBreak() {
					want, known = w, k
				}
			}
		}
		for _, r := range byKind[pango.ATTR_WORD] {
			if r.s == i && i > 0 {
				want, known = true, true
			}
			if r.e == i && words.start[i] {
				want, known = true, true
			}
		}
		if known {
			fail("line break", g.IsLineBreak(), want)
		}
		fail("word start", g.IsWordStart(), words.start[i])
		fail("word end", g.IsWordEnd(), words.end[i])
		fail("word boundary", g.IsWordBoundary(), words.boundary[i])
		fail("sentence start", g.IsSentenceStart(), sentences.start[i])
		fail("sentence end", g.IsSentenceEnd(), sentences.end[i])
		fail("sentence boundary", g.IsSentenceBoundary(), sentences.boundary[i])
		fail("hyphen", g.IsBreakInsertsHyphen(), b.IsBreakInsertsHyphen() && !(inNoHyphen && !b.IsBreakRemovesPreceding()))
		fail("white space", g.IsWhite(), b.IsWhite())
		fail("cursor position", g.IsCursorPosition(), b.IsCursorPosition())
		fail("backspace", g.IsBackspaceDeletesCharacter(), b.IsBackspaceDeletesCharacter())
		fail("expandable space", g.IsExpandableSpace(), b.IsExpandableSpace())
		fail("removed character", g.IsBreakRemovesPreceding(), b.IsBreakRemovesPreceding())
	}
	return changed
}

var propP23 = &pbt.Prop{
	ID:   "P23",
	Rule: "the attributes change some boundary",
	Assumptions: []string{
		"the ranges of the attributes of one kind are disjoint; the ones of words and sentences are inside a paragraph",
		"nothing is asserted about the break after the first character of a range when it is an hyphen or a zero width space",
	},
	Quick: 300000, Thorough: 10000000, MaxChoices: 8000,
	Checks: []pbt.Check{{Name: "attributes", Weight: 1, Run: runSegAttrs}},
}
