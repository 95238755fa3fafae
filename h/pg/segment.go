package main

import (
	"sync"

	"verifh/ucd"
)

// Reference implementation of the Unicode text segmentation rules, written from
// UAX #29 (revision 37, Unicode 13) and UAX #14 (revisions 39 and 45, Unicode 10 and 13).

// segClass holds the properties of a character
type segClass struct {
	gb, wb, sb, lb string
	extPict        bool
	unassigned     bool
	wide           bool
	mark           bool
}

var (
	segCache = map[rune]segClass{}
	segMu    sync.Mutex
)

func segClassOf(r rune) segClass {
	segMu.Lock()
	defer segMu.Unlock()
	if c, ok := segCache[r]; ok {
		return c
	}
	gc := ucd.Get("General_Category", r)
	ea := ucd.Get("East_Asian_Width", r)
	c := segClass{
		gb: ucd.Get("Grapheme_Cluster_Break", r), wb: ucd.Get("Word_Break", r), sb: ucd.Get("Sentence_Break", r), lb: ucd.Get("Line_Break", r),
		extPict:    ucd.Get("Extended_Pictographic", r) != "",
		unassigned: gc == "" || gc == "Cn" || gc == "Unassigned",
		wide:       ea == "F" || ea == "W" || ea == "H" || ea == "Fullwidth" || ea == "Wide" || ea == "Halfwidth",
		mark:       gc == "Mn" || gc == "Mc" || gc == "Nonspacing_Mark" || gc == "Spacing_Mark",
	}
	// Perl's tables refine some of the classes
	if c.gb == "ExtPict_XX" {
		c.gb = ""
	}
	switch c.wb {
	case "ExtPict_XX":
		c.wb = ""
	case "ExtPict_LE":
		c.wb = "ALetter"
	case "Perl_Tailored_HSpace":
		if c.wb = ""; gc == "Zs" && c.lb != "GL" {
			c.wb = "WSegSpace"
		}
	}
	segCache[r] = c
	return c
}

type segText []segClass

func segTextOf(text []rune) segText {
	out := make(segText, len(text))
	for i, r := range text {
		out[i] = segClassOf(r)
	}
	return out
}

func isOneOf(v string, l ...string) bool {
	for _, x := range l {
		if v == x {
			return true
		}
	}
	return false
}

// grapheme reports whether there is a grapheme boundary before position i
func (s segText) grapheme(i int) bool {
	if i == 0 || i == len(s) {
		return true
	}
	a, b := s[i-1].gb, s[i].gb
	switch {
	case a == "CR" && b == "LF": // GB3
		return false
	case isOneOf(a, "Control", "CR", "LF"), isOneOf(b, "Control", "CR", "LF"): // GB4, 5
		return true
	case a == "L" && isOneOf(b, "L", "V", "LV", "LVT"): // GB6
		return false
	case isOneOf(a, "LV", "V") && isOneOf(b, "V", "T"): // GB7
		return false
	case isOneOf(a, "LVT", "T") && b == "T": // GB8
		return false
	case isOneOf(b, "Extend", "ZWJ"): // GB9
		return false
	case b == "SpacingMark": // GB9a
		return false
	case a == "Prepend": // GB9b
		return false
	}
	if a == "ZWJ" && s[i].extPict { // GB11
		j := i - 2
		for j >= 0 && s[j].gb == "Extend" {
			j--
		}
		if j >= 0 && s[j].extPict {
			return false
		}
	}
	if b == "Regional_Indicator" { // GB12, 13
		n := 0
		for j := i - 1; j >= 0 && s[j].gb == "Regional_Indicator"; j-- {
			n++
		}
		if n%2 == 1 {
			return false
		}
	}
	return true
}

func wbSkip(v string) bool { return isOneOf(v, "Extend", "Format", "ZWJ") }

// word reports whether there is a word boundary before position i
func (s segText) word(i int) bool {
	if i == 0 || i == len(s) {
		return true
	}
	a, b := s[i-1].wb, s[i].wb
	newline := func(v string) bool { return isOneOf(v, "Newline", "CR", "LF") }
	switch {
	case a == "CR" && b == "LF": // WB3
		return false
	case newline(a), newline(b): // WB3a, 3b
		return true
	case a == "ZWJ" && s[i].extPict: // WB3c
		return false
	case a == "WSegSpace" && b == "WSegSpace": // WB3d
		return false
	case wbSkip(b): // WB4
		return false
	}
	prev := func(j int) int { // the last position before j not ignored
		j--
		for j >= 0 && wbSkip(s[j].wb) {
			j--
		}
		return j
	}
	at := func(j int) string {
		if j < 0 || j >= len(s) {
			return ""
		}
		return s[j].wb
	}
	pi := prev(i)
	ppi := -1
	if pi >= 0 {
		ppi = prev(pi)
		// what WB4 attaches to the start of the text or of a line stands alone
		for j := pi + 1; j < i; j++ {
			if pi >= 0 && newline(s[pi].wb) {
				pi = i - 1
				ppi = -1
				break
			}
		}
	}
	if pi >= 0 && ppi >= 0 && newline(s[ppi].wb) {
		ppi = -1
	}
	a = at(pi)
	if pi < 0 { // only ignored characters before: the last one is taken as any
		a = ""
	}
	ni := i + 1
	for ni < len(s) && wbSkip(s[ni].wb) {
		ni++
	}
	n, pp := at(ni), at(ppi)
	letter := func(v string) bool { return isOneOf(v, "ALetter", "Hebrew_Letter") }
	switch {
	case letter(a) && letter(b): // WB5
		return false
	case letter(a) && isOneOf(b, "MidLetter", "MidNumLet", "Single_Quote") && letter(n): // WB6
		return false
	case letter(pp) && isOneOf(a, "MidLetter", "MidNumLet", "Single_Quote") && letter(b): // WB7
		return false
	case a == "Hebrew_Letter" && b == "Single_Quote": // WB7a
		return false
	case a == "Hebrew_Letter" && b == "Double_Quote" && n == "Hebrew_Letter": // WB7b
		return false
	case pp == "Hebrew_Letter" && a == "Double_Quote" && b == "Hebrew_Letter": // WB7c
		return false
	case a == "Numeric" && b == "Numeric": // WB8
		return false
	case letter(a) && b == "Numeric": // WB9
		return false
	case a == "Numeric" && letter(b): // WB10
		return false
	case pp == "Numeric" && isOneOf(a, "MidNum", "MidNumLet", "Single_Quote") && b == "Numeric": // WB11
		return false
	case a == "Numeric" && isOneOf(b, "MidNum", "MidNumLet", "Single_Quote") && n == "Numeric": // WB12
		return false
	case a == "Katakana" && b == "Katakana": // WB13
		return false
	case isOneOf(a, "ALetter", "Hebrew_Letter", "Numeric", "Katakana", "ExtendNumLet") && b == "ExtendNumLet": // WB13a
		return false
	case a == "ExtendNumLet" && isOneOf(b, "ALetter", "Hebrew_Letter", "Numeric", "Katakana"): // WB13b
		return false
	}
	if b == "Regional_Indicator" { // WB15, 16
		c := 0
		for j := prev(i); j >= 0 && s[j].wb == "Regional_Indicator"; j = prev(j) {
			c++
		}
		if c%2 == 1 {
			return false
		}
	}
	return true
}

// sentence reports whether there is a sentence boundary before position i
func (s segText) sentence(i int) bool {
	if i == 0 || i == len(s) {
		return true
	}
	skip := func(v string) bool { return isOneOf(v, "Extend", "Format") }
	paraSep := func(v string) bool { return isOneOf(v, "Sep", "CR", "LF") }
	if s[i-1].sb == "CR" && s[i].sb == "LF" { // SB3
		return false
	}
	if paraSep(s[i-1].sb) { // SB4
		return true
	}
	if skip(s[i].sb) { // SB5
		return false
	}
	// the classes before i, without what SB5 ignores
	var before []string
	for j := 0; j < i; j++ {
		if skip(s[j].sb) && j > 0 && !paraSep(s[j-1].sb) {
			continue
		}
		if skip(s[j].sb) {
			before = append(before, "")
			continue
		}
		before = append(before, s[j].sb)
	}
	back := func(k int) string {
		if k >= len(before) {
			return ""
		}
		return before[len(before)-1-k]
	}
	b := s[i].sb
	if back(0) == "ATerm" && b == "Numeric" { // SB6
		return false
	}
	if isOneOf(back(1), "Upper", "Lower") && back(0) == "ATerm" && b == "Upper" { // SB7
		return false
	}
	// SATerm Close* Sp* ParaSep?
	k := 0
	sep := false
	if paraSep(back(0)) {
		sep = true
		k++
	}
	nsp := 0
	for back(k) == "Sp" {
		k++
		nsp++
	}
	for back(k) == "Close" {
		k++
	}
	term := back(k)
	if !isOneOf(term, "ATerm", "STerm") {
		return false // SB998
	}
	if !sep {
		if term == "ATerm" { // SB8
			for j := i; j < len(s); j++ {
				v := s[j].sb
				if v == "Lower" {
					return false
				}
				if isOneOf(v, "OLetter", "Upper", "Sep", "CR", "LF", "STerm", "ATerm") {
					break
				}
			}
		}
		if isOneOf(b, "SContinue", "STerm", "ATerm") { // SB8a
			return false
		}
		if nsp == 0 && (b == "Close" || b == "Sp" || paraSep(b)) { // SB9
			return false
		}
		if b == "Sp" || paraSep(b) { // SB10
			return false
		}
	}
	return true // SB11
}

// lines gives the line break opportunities at all the positions, and the mandatory ones;
// revision 45 (Unicode 13) differs from 39 (Unicode 10) for IN, wide OP and CP
func (s segText) lines(unicode13 bool) (allowed, mandatory []bool) {
	n := len(s)
	allowed, mandatory = make([]bool, n+1), make([]bool, n+1)
	allowed[n], mandatory[n] = true, true // LB3
	// LB1
	cl := make([]string, n)
	for i, c := range s {
		switch cl[i] = c.lb; c.lb {
		case "AI", "SG", "XX", "":
			cl[i] = "AL"
		case "SA":
			if cl[i] = "AL"; c.mark {
				cl[i] = "CM"
			}
		case "CJ":
			cl[i] = "NS"
		}
	}
	hard := func(v string) bool { return isOneOf(v, "BK", "CR", "LF", "NL") }
	// LB9, LB10: base[i] is the index of the character whose class i takes
	eff := make([]string, n)
	base := make([]int, n)
	attached := make([]bool, n)
	for i := range cl {
		eff[i], base[i] = cl[i], i
		if cl[i] == "CM" || cl[i] == "ZWJ" {
			if i > 0 && !hard(eff[i-1]) && eff[i-1] != "SP" && eff[i-1] != "ZW" {
				eff[i], base[i], attached[i] = eff[i-1], base[i-1], true
			} else {
				eff[i] = "AL"
			}
		}
	}
	for i := 1; i < n; i++ {
		allowed[i], mandatory[i] = s.lineAt(i, cl, eff, base, attached, unicode13)
	}
	return allowed, mandatory
}

func (s segText) lineAt(i int, cl, eff []string, base []int, attached []bool, unicode13 bool) (bool, bool) {
	hard := func(v string) bool { return isOneOf(v, "BK", "CR", "LF", "NL") }
	a, b := eff[i-1], cl[i]
	// LB4, 5
	if a == "BK" || a == "LF" || a == "NL" || a == "CR" && b != "LF" {
		return true, true
	}
	if a == "CR" {
		return false, false
	}
	if hard(b) { // LB6
		return false, false
	}
	if b == "SP" || b == "ZW" { // LB7
		return false, false
	}
	// before the spaces
	sp := i - 1
	for sp >= 0 && eff[sp] == "SP" {
		sp--
	}
	pre := ""
	if sp >= 0 {
		pre = eff[sp]
	}
	if pre == "ZW" { // LB8
		return true, false
	}
	if cl[i-1] == "ZWJ" { // LB8a
		return false, false
	}
	if attached[i] { // LB9
		return false, false
	}
	b = eff[i]
	space := a == "SP"
	// the class before the previous character
	pp := ""
	if j := base[i-1] - 1; j >= 0 {
		pp = eff[j]
	}
	switch {
	case a == "WJ" || b == "WJ": // LB11
		return false, false
	case a == "GL": // LB12
		return false, false
	case b == "GL" && !isOneOf(a, "SP", "BA", "HY"): // LB12a
		return false, false
	case b == "EX": // LB13 with example 7
		return false, false
	case isOneOf(b, "CL", "CP", "IS", "SY") && a != "NU":
		return false, false
	case pre == "OP": // LB14
		return false, false
	case pre == "QU" && b == "OP": // LB15
		return false, false
	case isOneOf(pre, "CL", "CP") && b == "NS": // LB16
		return false, false
	case pre == "B2" && b == "B2": // LB17
		return false, false
	case space: // LB18
		return true, false
	case a == "QU" || b == "QU": // LB19
		return false, false
	case a == "CB" || b == "CB": // LB20
		return true, false
	case isOneOf(b, "BA", "HY", "NS") || a == "BB": // LB21
		return false, false
	case pp == "HL" && isOneOf(a, "HY", "BA"): // LB21a
		return false, false
	case a == "SY" && b == "HL": // LB21b
		return false, false
	case b == "IN" && (unicode13 || isOneOf(a, "AL", "HL", "EX", "ID", "EB", "EM", "IN", "NU")): // LB22
		return false, false
	case isOneOf(a, "AL", "HL") && b == "NU", a == "NU" && isOneOf(b, "AL", "HL"): // LB23
		return false, false
	case a == "PR" && isOneOf(b, "ID", "EB", "EM"), isOneOf(a, "ID", "EB", "EM") && b == "PO": // LB23a
		return false, false
	case isOneOf(a, "PR", "PO") && isOneOf(b, "AL", "HL"), isOneOf(a, "AL", "HL") && isOneOf(b, "PR", "PO"): // LB24
		return false, false
	}
	// LB25, with example 7: ( PR | PO) ? ( OP | HY ) ? NU (NU | SY | IS) * (CL | CP) ? ( PR | PO) ?
	next := ""
	for j := i + 1; j < len(s); j++ {
		if !attached[j] {
			next = eff[j]
			break
		}
	}
	// number reports whether the characters up to j are NU (NU|SY|IS)*
	number := func(j int) bool {
		for j >= 0 && isOneOf(eff[j], "SY", "IS") {
			j = base[j] - 1
		}
		return j >= 0 && eff[j] == "NU"
	}
	switch {
	case isOneOf(a, "PR", "PO") && (b == "NU" || isOneOf(b, "OP", "HY") && next == "NU"):
		return false, false
	case isOneOf(a, "OP", "HY") && b == "NU":
		return false, false
	case number(i-1) && isOneOf(b, "NU", "SY", "IS", "CL", "CP", "PO", "PR"):
		return false, false
	case isOneOf(a, "CL", "CP") && number(base[i-1]-1) && isOneOf(b, "PO", "PR"):
		return false, false
	}
	hangul := func(v string) bool { return isOneOf(v, "JL", "JV", "JT", "H2", "H3") }
	switch {
	case a == "JL" && isOneOf(b, "JL", "JV", "H2", "H3"): // LB26
		return false, false
	case isOneOf(a, "JV", "H2") && isOneOf(b, "JV", "JT"):
		return false, false
	case isOneOf(a, "JT", "H3") && b == "JT":
		return false, false
	case hangul(a) && isOneOf(b, "IN", "PO"), a == "PR" && hangul(b): // LB27
		return false, false
	case isOneOf(a, "AL", "HL") && isOneOf(b, "AL", "HL"): // LB28
		return false, false
	case a == "IS" && isOneOf(b, "AL", "HL"): // LB29
		return false, false
	case isOneOf(a, "AL", "HL", "NU") && b == "OP" && !(unicode13 && s[i].wide): // LB30
		return false, false
	case a == "CP" && isOneOf(b, "AL", "HL", "NU") && !(unicode13 && s[base[i-1]].wide):
		return false, false
	case a == "EB" && b == "EM": // LB30b
		return false, false
	case unicode13 && b == "EM" && s[base[i-1]].extPict && s[base[i-1]].unassigned:
		return false, false
	}
	if b == "RI" && a == "RI" { // LB30a
		c := 0
		for j := i - 1; j >= 0 && eff[j] == "RI"; j = base[j] - 1 {
			c++
		}
		if c%2 == 1 {
			return false, false
		}
	}
	return true, false // LB31
}

// lineRefined drops the line breaks inside graphemes, but before the classes whose breaks
// UAX #14 rules on
func (s segText) lineRefined(l []bool, i int) bool {
	if i == 0 || i == len(s) || !l[i] || s.grapheme(i) {
		return l[i]
	}
	c := s[i]
	return isOneOf(c.lb, "EM", "ZWJ", "CM", "JL", "JV", "JT", "H2", "H3", "RI") || c.lb == "SA" && c.mark
}
