package main

import (
	"fmt"
	"strings"
	"unicode"

	"verifh/pbt"
)

func unicodeMark(r rune) bool { return unicode.In(r, unicode.Mn, unicode.Me) }

// characters which matter to the segmentation of the texts
var pools = [][]rune{
	[]rune("abcdefxyz"),                                                     // 0
	[]rune("ABCÉßéçÀıİ"),                                                    // 1
	[]rune("0123456789"),                                                    // 2
	[]rune(" \u00a0\u2003\u3000\u1680\u202f"),                               // 3 spaces
	[]rune("\t\n\r\u2028\u2029\u0085\v\f"),                                  // 4 controls
	[]rune(".,;:!?'\"-/%$&@#*+=_’…·\u2010\u2027\u058a\u2e17"),               // 5
	[]rune("()[]{}<>«»‹›“”‘’「」『』（）〈〉⟨⟩"),                                    // 6 pairs
	{0x300, 0x301, 0x327, 0x308, 0x20dd, 0x5b7, 0x64e, 0x93f, 0xe31, 0x94d}, // 7 marks
	[]rune("αβγδΑΒΩ"),                                                       // 8
	[]rune("бгджБГЖ"),                                                       // 9
	[]rune("אבגדת"),                                                         // 10
	[]rune("ابتثلمي٠١٢"),                                                    // 11
	[]rune("中文字日本漢"),                                                        // 12
	[]rune("あいうえカキクー々ゃゅ"),                                                   // 13
	[]rune("가각간각"),                                                        // 14
	[]rune("कखगघराजि्"),                                                     // 15
	[]rune("กขคงาเแ"),                                                       // 16
	{0x1f600, 0x1f468, 0x1f3fb, 0x1f3fd, 0x2764, 0x231a, 0x2600, 0x1f44d, 0x1f3f4, 0xa9, 0x203c, 0x1f3f3, 0x1f308},                                                 // 17 emojis
	{0xfe0e, 0xfe0f, 0x200d, 0x20e3, 0x20e0, 0xe0067, 0xe0062, 0xe007f, '1', '#', 0xe0030, 0xe0039, 0xe0061, 0xe007a, 0xe002f, 0xe003a, 0xe0060, 0xe007b, 0xe0020}, // 18
	{0x1f1e6, 0x1f1e7, 0x1f1fa, 0x1f1f8}, // 19
	{0x200b, 0x200c, 0x200d, 0x200e, 0x200f, 0xad, 0x2060, 0xfeff, 0x61c, 0x34f, 0x180e, 0x2063, 0x2064, 0x200a, 0x2010}, // 20
	{0x202a, 0x202b, 0x202c, 0x202d, 0x202e, 0x2066, 0x2067, 0x2068, 0x2069},                                             // 21
	{0xe000, 0xfffd, 0xfffc, 0x378, 0x10ffff, 0x10fffd, 0x10380, 0x13000, 0x1d400, 0x1d7ce, 0x20000, 0},                  // 22
	[]rune("ᚁᚂԱաბაⴀᐁᠠꀀ꤀ℌ①㈱㌀Å"),                                                                                           // 23 other scripts
}

// genText mixes a few of the pools
func genText(t *pbt.T, maxLen int) []rune {
	var pal [][]rune
	for k := t.Range(1, 5); k > 0; k-- {
		pal = append(pal, pools[t.Weighted(4, 3, 2, 4, 2, 3, 3, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 2, 1, 1, 1, 1, 1)])
	}
	n := t.Size(maxLen)
	out := make([]rune, 0, n)
	for i := 0; i < n; i++ {
		out = append(out, pbt.Pick(t, pbt.Pick(t, pal)))
	}
	return out
}

func showRunes(s []rune) string {
	var sb strings.Builder
	for i, r := range s {
		if i > 0 && i%10 == 0 {
			fmt.Fprintf(&sb, " (%d) ", i)
		}
		if r > 0x20 && r < 0x7f {
			sb.WriteRune(r)
		} else {
			fmt.Fprintf(&sb, "<%04X>", r)
		}
	}
	return sb.String()
}
