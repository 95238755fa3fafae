package uba

import (
	"fmt"
	"strings"

	"verifh/ucd"
)

// ClassName is the bidi class of the character in the UCD
var ClassName = ucd.Table("Bidi_Class", "L")

var clsByName = func() map[string]Cls {
	m := map[string]Cls{}
	for i, n := range ClsNames {
		m[n] = Cls(i)
	}
	return m
}()

// TextClasses returns the classes of the characters from the UCD
func TextClasses(s []rune) []Cls {
	out := make([]Cls, len(s))
	for i, r := range s {
		c, ok := clsByName[ClassName(r)]
		if !ok {
			panic("unknown class " + ClassName(r))
		}
		out[i] = c
	}
	return out
}

// canonical singleton decompositions of brackets
var canonical = map[rune]rune{
	0x2329: 0x3008,
	0x232A: 0x3009,
}

// BracketID is positive for an opening bracket, negative for a closing one
func BracketID(r rune) int {
	ty := strings.ToLower(ucd.Get("Bidi_Paired_Bracket_Type", r))
	if ty != "o" && ty != "c" {
		return 0
	}
	id := r
	if ty == "c" {
		var x rune
		fmt.Sscanf(ucd.Get("Bidi_Paired_Bracket", r), "%d", &x)
		id = x
	}
	if c, ok := canonical[id]; ok {
		id = c
	}
	if ty == "c" {
		return -int(id)
	}
	return int(id)
}

// Levels resolves the levels of the paragraph; base is -1 when it depends on the text.
func Levels(s []rune, base int) *Para {
	p := &Para{Types: TextClasses(s)}
	for _, r := range s {
		p.Brk = append(p.Brk, BracketID(r))
	}
	p.Run(base, 0)
	return p
}
