package main

import (
	"fmt"
	"strings"

	fb "github.com/benoitkugler/textprocessing/fribidi"
	"verifh/pbt"
	"verifh/uba"
	"verifh/ucd"
)

// interesting characters of every bidi class
var (
	latin   = []rune("abcXYZéß")
	hebrew  = []rune("אבגדהו\u05be\u05b7")
	arabic  = []rune("ابتثجدرسلمنهويأإآلالاةىءؤئـ")
	arabic2 = []rune{0x0670, 0x064B, 0x0651, 0x0640, 0x06CC, 0x06A9, 0x0698, 0x0671, 0x06D5, 0x0710, 0x0715, 0x0712, 0x07CA, 0x1820, 0x08A0, 0x0840, 0x0649, 0x06BA, 0x06BE, 0x06C1, 0x06D2}
	digits  = []rune("0129٠١٣۰۱")
	puncts  = []rune("+-*/,.:;!?#$%°€'\"")
	bracket = []rune("()[]{}<>«»‹›〈〉\u2329\u232A⟨⟩（）⁽⁾﹙﹚⦋⦌⌈⌉")
	mirror  = []rune{0x2208, 0x220B, 0x2264, 0x2265, 0x2215, 0x29F5, 0x223C, 0x223D, 0x2A7D, 0x2A7E, 0x00AB, 0x00BB, 0x2211, 0x221A}
	spaces  = []rune(" \t\u00a0\u2003\u2028\u001f\u3000")
	marks   = []rune{0x0300, 0x0301, 0x064E, 0x0652, 0x05B0, 0x20DD, 0xFE0F, 0x0E31}
	formats = []rune{0x200B, 0x200C, 0x200D, 0x200E, 0x200F, 0x061C, 0xFEFF, 0x00AD, 0x2060, 0x180E, 0x0000}
	explic  = []rune{0x202A, 0x202B, 0x202C, 0x202D, 0x202E, 0x2066, 0x2067, 0x2068, 0x2069}
	presf   = []rune{0xFEDF, 0xFEE0, 0xFE82, 0xFE84, 0xFE88, 0xFE8E, 0xFEFB, 0xFE8D, 0xFEDD}
	lamalef = []rune{0x0644, 0x0644, 0x0627, 0x0622, 0x0623, 0x0625, 0x0628}
	astral  = []rune{0x10800, 0x1E900, 0x1E922, 0x10D00, 0x1F600, 0x1EE00, 0x10FFFF, 0x10FFFD, 0x20000}
	pools   = [][]rune{latin, hebrew, arabic, arabic2, digits, puncts, bracket, mirror, spaces, marks, formats, explic, presf, lamalef, astral}
)

func genText(t *pbt.T, maxLen int) []rune {
	// a sub-palette of pools makes interactions likely
	k := t.Range(1, 6)
	var pal [][]rune
	for i := 0; i < k; i++ {
		pal = append(pal, pools[t.Weighted(2, 2, 4, 2, 2, 2, 3, 2, 3, 3, 2, 4, 1, 3, 1)])
	}
	n := t.Size(maxLen)
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, pbt.Pick(t, pbt.Pick(t, pal)))
	}
	if t.Chance(1, 10) {
		out = append(out, pbt.Pick(t, []rune{'\n', 0x2029}))
	}
	return out
}

func showRunes(s []rune) string {
	var sb strings.Builder
	for _, r := range s {
		if r > 0x20 && r < 0x7f {
			sb.WriteRune(r)
		} else {
			fmt.Fprintf(&sb, "<%04X>", r)
		}
	}
	return sb.String()
}

var (
	bidiClassOf = uba.ClassName
	mirrorOf    = func(r rune) rune {
		if v := ucd.Get("Bidi_Mirroring_Glyph", r); v != "" {
			var x rune
			fmt.Sscanf(v, "%d", &x)
			return x
		}
		return r
	}
)

var textClasses = uba.TextClasses

func textBrackets(s []rune) []int {
	out := make([]int, len(s))
	for i, r := range s {
		out[i] = uba.BracketID(r)
	}
	return out
}

func fbTypes(s []rune) []fb.CharType {
	out := make([]fb.CharType, len(s))
	for i, r := range s {
		out[i] = fb.GetBidiType(r)
	}
	return out
}

func isExplicitOrBN(c cls) bool { return isRemoved(c) }
