package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/benoitkugler/textlayout/language"
	"github.com/benoitkugler/textprocessing/fribidi"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
	"verifh/ucd"
)

// characters whose properties depend on the version of Unicode
func segUnstable(r rune) bool {
	return r == 0x1dcd || r == 0x1dfc || r == 0x2057 || r == 0x295 || r >= 0xff10 && r <= 0xff19 || r >= 0x55a && r <= 0x55f || r == 0x58a
}

var (
	segOnce  sync.Once
	segKinds [][]rune // characters by classes
)

// segGroups groups the characters by their classes for all the rules
func segGroups() [][]rune {
	segOnce.Do(func() {
		groups := map[string][]rune{}
		for r := rune(0); r < 0x110000; r++ {
			if !ucd.AgeAtMost(r, 10, 0) || r >= 0xd800 && r < 0xe000 || segUnstable(r) {
				continue
			}
			if r >= 0xac40 && r < 0xd780 || r >= 0x4e20 && r < 0x9f00 || r >= 0x3410 && r < 0x4d00 || r >= 0x20010 && r < 0x2fff0 || r >= 0xe010 && r < 0xf8f0 || r > 0xf0010 {
				continue
			}
			c := segClassOf(r)
			k := fmt.Sprint(c.gb, c.wb, c.sb, c.lb, c.extPict)
			groups[k] = append(groups[k], r)
		}
		var keys []string
		for k := range groups {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			segKinds = append(segKinds, groups[k])
		}
	})
	return segKinds
}

// segPool lists characters for every rule
var segPool = []rune("aAéßZzĀ19.,;:!?'\"()[]-_/%$€£+…—’“»« \t\n\r\u00a0\u00ad\u0301\u0308\u200b\u200c\u200d\u2060\u2024\u2028\u2029\u0085\v\f\u2027\u05d0\u05d1\u05f3\u05f4\u0600\u0661\u066a\u0627\u0653\u0622\u064e一中々ーカキあいっ가각\u1100\u1161\u11a8กิเ\u0e33កា\u17d2က\u102bाक\u094d\u0903\u0d4e\u0dca\u0d9a\u202f\u3000\u2003\ufeff\ufffc\U0001F1E6\U0001F1E7\U0001F468\U0001F3FB\u2764\ufe0f\u231a\U0001F6F0〔〕。、！？～ⅠⅰªǅⒶ𝐀")

func genSegText(t *pbt.T, max int) []rune {
	var pal []rune
	groups := segGroups()
	for k := t.Range(1, 8); k > 0; k-- {
		if t.Bool() {
			pal = append(pal, pbt.Pick(t, segPool))
		} else {
			pal = append(pal, pbt.Pick(t, pbt.Pick(t, groups)))
		}
	}
	n := t.Size(max)
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		switch t.Intn(6) {
		case 0:
			out = append(out, pbt.Pick(t, segPool))
		case 1:
			out = append(out, pbt.Pick(t, pbt.Pick(t, groups)))
		default:
			out = append(out, pbt.Pick(t, pal))
		}
	}
	return out
}

func isIndic(s language.Script) bool {
	switch s {
	case language.Devanagari, language.Bengali, language.Gurmukhi, language.Gujarati, language.Oriya, language.Tamil, language.Telugu, language.Kannada, language.Malayalam, language.Sinhala:
		return true
	}
	return false
}

func between(r, a, b rune) bool { return a <= r && r <= b }

// runes made of several characters, which backspace deletes at once
func indicComposite(c rune) bool {
	switch c {
	case 0x931, 0xbca, 0xbcb, 0xbcc, 0xc47, 0xc48, 0xb48, 0xb4b, 0xb4c, 0xa5e, 0xa33, 0xa36, 0x9cb, 0x9cc, 0xcc7, 0xcc8, 0xcca, 0xccb:
		return true
	}
	return between(c, 0x958, 0x95f) || between(c, 0x9dc, 0x9df) || between(c, 0xa59, 0xa5c) || between(c, 0xd4a, 0xd4c)
}

func gcOf(r rune) string {
	if c := ucd.Get("General_Category", r); c != "" {
		return c
	}
	return "Cn"
}

// charAttrs is the reference for the attributes of a paragraph
type charAttrs struct {
	n                                          int
	line10, line13, mandatory, char, cursor    []bool
	word, wordStart, wordEnd                   []bool
	sentence, sentenceStart, sentenceEnd       []bool
	white, expandable, backspace, hyphen, drop []bool
	mid                                        []bool // before punctuation inside a word: a hyphen may be inserted or not
}

func referenceAttrs(text []rune) charAttrs {
	n := len(text)
	s := segTextOf(text)
	mk := func() []bool { return make([]bool, n+1) }
	o := charAttrs{n: n, char: mk(), cursor: mk(), word: mk(), wordStart: mk(), wordEnd: mk(), sentence: mk(), sentenceStart: mk(), sentenceEnd: mk(),
		white: mk(), expandable: mk(), backspace: mk(), hyphen: mk(), drop: mk(), mid: mk(), line10: mk(), line13: mk()}
	l10, mand := s.lines(false)
	l13, _ := s.lines(true)
	o.mandatory = mand
	last := rune(0) // the last base character
	gc := func(i int) string {
		if i == n {
			return "Zp"
		}
		return gcOf(text[i])
	}
	space := func(i int) bool {
		switch gc(i) {
		case "Zs", "Zl", "Zp":
			return true
		}
		return strings.ContainsRune("\t\n\r\f", text[i])
	}
	for i := 0; i <= n; i++ {
		o.cursor[i] = s.grapheme(i)
		o.char[i] = o.cursor[i]
		o.word[i] = s.word(i) && o.cursor[i]
		o.sentence[i] = s.sentence(i) && o.word[i]
		o.line10[i], o.line13[i] = s.lineRefined(l10, i), s.lineRefined(l13, i)
		o.white[i] = space(i)
		if i < n {
			o.expandable[i] = text[i] == ' ' || text[i] == 0xa0
		}
		var prev rune
		if i > 0 {
			prev = text[i-1]
		}
		// backspace
		joined := between(last, 0x20, 0x2af) || between(last, 0x1e00, 0x1eff) || between(last, 0x400, 0x52f) || between(last, 0x370, 0x3ff) ||
			between(last, 0x1f00, 0x1fff) || between(last, 0x3040, 0x30ff) || between(last, 0xac00, 0xd7a3) || ucd.Get("Emoji", last) != ""
		if i > 0 {
			if c := ucd.Get("Indic_Syllabic_Category", prev); c == "Virama" || c == "Vowel_Dependent" {
				joined = false
			}
		}
		o.backspace[i] = o.cursor[i] && !joined
		if i < n && !isOneOf(gc(i), "Mn", "Mc", "Me") {
			last = text[i]
		}
	}
	// words: runs of letters and digits
	inWord, letters := false, false
	var lastLetter rune
	jap := func(r rune) bool { return between(r, 0x2f00, 0x30ff) }
	hira := func(r rune) bool { return between(r, 0x3040, 0x309f) }
	kata := func(r rune) bool { return between(r, 0x30a0, 0x30ff) }
	kanji := func(r rune) bool { return between(r, 0x2f00, 0x2fdf) }
	for i := 0; i <= n; i++ {
		c := gc(i)
		switch {
		case isOneOf(c, "Mn", "Mc", "Me", "Cf"): // part of the word
		case c[0] == 'L' || c[0] == 'N':
			if !inWord {
				inWord, letters = true, c[0] == 'L'
				o.wordStart[i] = true
			} else if c[0] == 'L' && letters {
				a, b := lastLetter, text[i]
				if jap(a) != jap(b) || hira(a) && !hira(b) || kata(a) && !kata(b) && !hira(b) || kanji(a) && !kanji(b) && !hira(b) {
					o.wordEnd[i], o.wordStart[i] = true, true
				}
			}
			lastLetter = text[i]
		default:
			o.wordEnd[i] = inWord
			inWord = false
		}
	}
	// sentences, without the spaces around
	for i := 0; i < n; {
		j := i + 1
		for !o.sentence[j] {
			j++
		}
		a, b := i, j
		for a < b && o.white[a] {
			a++
		}
		for b > a && o.white[b-1] {
			b--
		}
		if a < b {
			o.sentenceStart[a] = true
			o.sentenceEnd[b] = true
		}
		i = j
	}
	// hyphens
	dash := func(i int) bool {
		if o.white[i] {
			return true
		}
		switch text[i] {
		case '-', 0x58a, 0x1400, 0x1806, 0x2010, 0x2e17, 0x2e40, 0x30a0, 0xfe63, 0xff0d:
			return true
		}
		return false
	}
	for i := 1; i <= n; i++ {
		o.mid[i] = i < n && !o.word[i] && isOneOf(s[i].wb, "MidLetter", "MidNum", "MidNumLet", "Single_Quote", "Double_Quote") && text[i-1] != 0x2027
		if !o.word[i] && !dash(i-1) && !dash(i) {
			switch language.LookupScript(text[i-1]) {
			case language.Common:
				o.hyphen[i] = text[i-1] == 0xad
			case language.Han, language.Hangul, language.Hiragana, language.Katakana:
			default:
				o.hyphen[i] = true
			}
		}
		if text[i-1] == 0x2027 {
			o.hyphen[i], o.drop[i] = true, true
		}
	}
	return o
}

// tailor applies the rules of the scripts
func (o *charAttrs) tailor(text []rune) {
	runs, _ := scriptRuns(text)
	for _, r := range runs {
		switch {
		case r.script == language.Arabic:
			for i := r.start; i < r.end; i++ {
				c := text[i]
				var prev rune
				if i > r.start {
					prev = text[i-1]
				}
				if between(c, 0x622, 0x626) || prev == 0x627 && between(c, 0x653, 0x655) || c == 0x654 && (prev == 0x648 || prev == 0x64a) {
					o.backspace[i+1] = false
				}
			}
		case isIndic(r.script):
			join := func(i int) {
				if !o.mandatory[i] {
					o.cursor[i], o.char[i], o.line10[i], o.line13[i] = false, false, false, false
				}
			}
			conjunct := false
			at := func(i int) rune {
				if i < r.start || i >= r.end {
					return 0
				}
				return text[i]
			}
			first := *o
			saved := [4]bool{first.line10[r.start], first.line13[r.start], first.cursor[r.start], first.backspace[r.start]}
			for i := r.start; i < r.end; i++ {
				if indicComposite(text[i]) {
					o.backspace[i+1] = false
				}
				c, next := text[i], at(i+1)
				if r.script == language.Sinhala {
					switch {
					case c == 0xdca && next == 0x200d || c == 0x200d && next == 0xdca:
						join(i)
						join(i + 1)
						conjunct = true
					case conjunct && (at(i-1) == 0x200d || at(i-1) == 0xdca) && between(c, 0xd9a, 0xdc6):
						join(i)
						conjunct = false
					case !conjunct && at(i-1) == 0xdca && c != 0x200d:
						o.cursor[i] = true
					}
				} else if at(i-1) != 0 && (c == 0x200c || c == 0x200d) {
					join(i)
					if next != 0 {
						join(i + 1)
						switch next {
						case 0x9cd, 0xacd, 0x94d, 0xccd, 0xd4d, 0xb4d, 0xa4d, 0xbcd, 0xc4d:
							if at(i+2) != 0 {
								join(i + 2)
							}
						}
					}
				}
			}
			// the start belongs to the previous text too
			i := r.start
			o.line10[i] = o.line10[i] || saved[0]
			o.line13[i] = o.line13[i] || saved[1]
			o.cursor[i] = o.cursor[i] || saved[2]
			o.backspace[i] = saved[3]
		}
	}
}

func showAttr(a pango.CharAttr) string {
	names := []string{"line", "mandatory", "char", "white", "cursor", "wordStart", "wordEnd", "sentence", "sentenceStart", "sentenceEnd", "backspace", "expandable", "word", "hyphen", "removes"}
	var out []string
	for i, n := range names {
		if a>>uint(i)&1 != 0 {
			out = append(out, n)
		}
	}
	return strings.Join(out, "+")
}

// compareAttrs compares the attributes of text[...] to those of the reference
func compareAttrs(got []pango.CharAttr, o charAttrs) string {
	if len(got) != o.n+1 {
		return fmt.Sprintf("%d attributes for %d characters", len(got), o.n)
	}
	for i, a := range got {
		bad := ""
		check := func(name string, g, w bool) {
			if g != w && bad == "" {
				bad = fmt.Sprintf("position %d: %s is %v, want %v (%s)", i, name, g, w, showAttr(a))
			}
		}
		check("cursor position", a.IsCursorPosition(), o.cursor[i])
		check("word boundary", a.IsWordBoundary(), o.word[i])
		check("sentence boundary", a.IsSentenceBoundary(), o.sentence[i])
		check("mandatory break", a.IsMandatoryBreak(), o.mandatory[i])
		if a.IsLineBreak() != o.line13[i] {
			check("line break", a.IsLineBreak(), o.line10[i])
		}
		if i > 0 {
			check("char break", a.IsCharBreak(), o.char[i])
		}
		check("white", a.IsWhite(), o.white[i])
		check("expandable space", a.IsExpandableSpace(), o.expandable[i])
		check("word start", a.IsWordStart(), o.wordStart[i])
		check("word end", a.IsWordEnd(), o.wordEnd[i])
		check("sentence start", a.IsSentenceStart(), o.sentenceStart[i])
		check("sentence end", a.IsSentenceEnd(), o.sentenceEnd[i])
		if i > 0 { // nothing to delete at the start
			check("backspace deletes character", a.IsBackspaceDeletesCharacter(), o.backspace[i])
		}
		if !o.mid[i] {
			check("break inserts hyphen", a.IsBreakInsertsHyphen(), o.hyphen[i])
		}
		check("break removes preceding", a.IsBreakRemovesPreceding(), o.drop[i])
		if bad != "" {
			return bad
		}
	}
	return ""
}

func runSegment(t *pbt.T, text []rune) {
	t.Input("%s", showRunes(text))
	var got []pango.CharAttr
	t.NoPanic("ComputeCharacterAttributes", func() { got = pango.ComputeCharacterAttributes(text, fribidi.Level(-1)) })
	o := referenceAttrs(text)
	_, depth := scriptRuns(text)
	if depth <= 128 {
		o.tailor(text)
		if msg := compareAttrs(got, o); msg != "" {
			t.Fatalf("%s", msg)
		}
	}
	// the starts and the ends alternate
	word, sentence := false, false
	for i, a := range got {
		if a.IsWordEnd() {
			if !word {
				t.Fatalf("position %d ends a word which has no start", i)
			}
			word = false
		}
		if a.IsWordStart() {
			if word {
				t.Fatalf("position %d starts a word in a word", i)
			}
			word = true
		}
		if a.IsSentenceEnd() {
			if !sentence {
				t.Fatalf("position %d ends a sentence which has no start", i)
			}
			sentence = false
		}
		if a.IsSentenceStart() {
			if sentence {
				t.Fatalf("position %d starts a sentence in a sentence", i)
			}
			sentence = true
		}
	}
	if word || sentence {
		t.Fatalf("a word or sentence has no end")
	}
	if t.Intn(8) == 0 {
		again := pango.ComputeCharacterAttributes(text, fribidi.Level(t.Intn(3)))
		for i := range got {
			if got[i] != again[i] {
				t.Fatalf("position %d: the attributes depend on the level", i)
			}
		}
	}
	words, sentences := 0, 0
	for _, a := range got {
		if a.IsWordStart() {
			words++
		}
		if a.IsSentenceStart() {
			sentences++
		}
	}
	if words >= 2 && len(text) > 4 {
		t.NonTrivial(showRunes(text))
	}
	if sentences >= 2 {
		t.Label("several sentences")
	}
}

var propP10 = &pbt.Prop{
	ID: "P10", Quick: 400000, Thorough: 30000000,
	Rule:        "texts of up to 40 characters taken among all the combinations of grapheme, word, sentence and line breaking classes; non trivial: at least two words",
	Assumptions: []string{"properties from the UCD, for characters assigned in Unicode 10 and stable since; where the line breaking rules of Unicode 10 and 13 differ, either is accepted"},
	Checks: []pbt.Check{
		{Name: "classes", Weight: 2, Run: func(t *pbt.T) { runSegment(t, genSegText(t, 40)) }},
		{Name: "texts", Weight: 1, Run: func(t *pbt.T) {
			text := genText(t, 40)
			for i, r := range text {
				if segUnstable(r) || !ucd.AgeAtMost(r, 10, 0) {
					text[i] = 'a'
				}
			}
			runSegment(t, text)
		}},
		{Name: "pairs", Weight: 1, Run: func(t *pbt.T) { // every character between two others
			var text []rune
			for k := t.Intn(3); k > 0; k-- {
				text = append(text, pbt.Pick(t, segPool))
			}
			text = append(text, pbt.Pick(t, pbt.Pick(t, segGroups())))
			for k := t.Intn(3); k > 0; k-- {
				text = append(text, pbt.Pick(t, segPool))
			}
			runSegment(t, text)
		}},
		{Name: "indic", Weight: 1, Run: func(t *pbt.T) { // joiners and viramas
			base := pbt.Pick(t, []rune{0x900, 0x980, 0xa00, 0xa80, 0xb00, 0xb80, 0xc00, 0xc80, 0xd00, 0xd80})
			virama := base + 0x4d
			if base == 0xd80 {
				virama = 0xdca
			}
			other := pbt.Pick(t, []rune{0x94d, 0x9cd, 0xdca, 0xacd})
			text := make([]rune, 0, 12)
			for k := 1 + t.Size(11); k > 0; k-- {
				var r rune
				switch t.Intn(8) {
				case 0, 1:
					r = 0x200c + rune(t.Intn(2))
				case 2, 3:
					r = virama
				case 4:
					r = other
				case 5:
					r = pbt.Pick(t, []rune{' ', 'a', '\n', 0x301, '1'})
				default:
					if r = base + rune(t.Intn(0x80)); segUnstable(r) || !ucd.AgeAtMost(r, 10, 0) || gcOf(r) == "Cn" {
						r = base + 0x1a
					}
				}
				text = append(text, r)
			}
			runSegment(t, text)
		}},
		{Name: "languages", Weight: 1, Run: runSegLanguages},
	},
}

// runSegLanguages: in a layout, the language of a text does not move its boundaries, but
// for Catalan, where a middle dot between two l is inside a word
func runSegLanguages(t *pbt.T) {
	n := 1 + t.Size(12)
	text := make([]rune, n)
	for i := range text {
		switch t.Intn(6) {
		case 0:
			text[i] = pbt.Pick(t, segPool)
			if isIndic(language.LookupScript(text[i])) || between(text[i], 0x653, 0x655) { // their rules depend on the items
				text[i] = 0xb7
			}
			if s := string(text[i]); s == "\n" || s == "\r" || s == "\u2029" {
				text[i] = ' '
			}
		case 1, 2:
			text[i] = pbt.Pick(t, []rune{0xb7, 0xb7, 0xb7, '\'', ' '})
		default:
			text[i] = pbt.Pick(t, []rune("lllLaé1"))
		}
	}
	lang := pbt.Pick(t, []string{"ca", "ca", "ca-es", "cat", "en", "fr"})
	a := pango.NewAttrLanguage(pango.Language(lang))
	a.StartIndex, a.EndIndex = 0, n
	if t.Bool() {
		a.StartIndex = t.Intn(n)
		a.EndIndex = a.StartIndex + 1 + t.Intn(n-a.StartIndex)
	}
	s, e := a.StartIndex, a.EndIndex
	t.Input("%s language %q in %d-%d", showRunes(text), lang, s, e)
	var got []pango.CharAttr
	item := make([]int, n) // the start of the item of each character
	t.NoPanic("GetCharacterAttributes", func() {
		l := pango.NewLayout(pango.NewContext(newFontMap(theFaces()...)))
		l.SetRunes(text)
		l.SetAttributes(pango.AttrList{a})
		got = l.GetCharacterAttributes()
		for k := 0; k < l.GetLineCount(); k++ {
			for _, r := range runsOf(l.GetLine(k)) {
				for i := r.Item.Offset; i < r.Item.Offset+r.Item.Length; i++ {
					item[i] = r.Item.Offset
				}
			}
		}
	})
	alone := pango.ComputeCharacterAttributes(text, -1)
	if len(got) != len(alone) {
		t.Fatalf("%d attributes for %d characters", len(got), n)
	}
	isL := func(i int) bool { return text[i] == 'l' || text[i] == 'L' }
	noEnd, noStart := map[int]bool{}, map[int]bool{}
	for i := s + 1; i+1 < e; i++ {
		if (lang == "ca" || lang == "ca-es") && isL(i-1) && text[i] == 0xb7 && isL(i+1) && item[i-1] == item[i+1] {
			noEnd[i], noStart[i+1] = true, true
			t.NonTrivial(showRunes(text))
		}
	}
	for i, g := range got {
		w := alone[i]
		if g.IsWordEnd() != (w.IsWordEnd() && !noEnd[i]) {
			t.Fatalf("position %d: word end is %v in a layout (%s), %s alone", i, g.IsWordEnd(), showAttr(g), showAttr(w))
		}
		if g.IsWordStart() != (w.IsWordStart() && !noStart[i]) {
			t.Fatalf("position %d: word start is %v in a layout (%s), %s alone", i, g.IsWordStart(), showAttr(g), showAttr(w))
		}
		const words = 1<<5 | 1<<6 // starts and ends
		if g&^words != w&^words {
			t.Fatalf("position %d: %s in a layout, %s alone", i, showAttr(g), showAttr(w))
		}
	}
}
