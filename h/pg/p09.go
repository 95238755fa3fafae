package main

import (
	"sync"

	"github.com/benoitkugler/textlayout/language"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// one character of each script, or two
var scriptChars = func() func() []rune {
	var once sync.Once
	var out []rune
	return func() []rune {
		once.Do(func() {
			seen := map[language.Script]int{}
			for r := rune(0); r < 0x20000; r++ {
				if s := language.LookupScript(r); realScript(s) && seen[s] < 2 {
					seen[s]++
					out = append(out, r)
				}
			}
		})
		return out
	}
}()

var propP09 = &pbt.Prop{
	ID: "P09", Quick: 1000000, Thorough: 20000000,
	Rule:        "texts made of nested, crossing and unmatched brackets among characters of every script, common and inherited ones, itemized with a font; the script reported for each character is compared with a reference; non trivial: a closing bracket outside of the run of its opening one",
	Assumptions: []string{"the script of the single characters is the one of the textlayout library"},
	Checks: []pbt.Check{{Name: "runs", Run: func(t *pbt.T) {
		all := scriptChars()
		var pal []rune
		for k := t.Range(1, 4); k > 0; k-- {
			pal = append(pal, pbt.Pick(t, all))
		}
		pairs := []rune(pairedChars)
		var pp []rune
		for k := t.Range(1, 3); k > 0; k-- {
			i := 2 * t.Intn(len(pairs)/2)
			pp = append(pp, pairs[i], pairs[i+1])
		}
		n := t.Size(40)
		var text []rune
		for len(text) < n {
			switch t.Weighted(4, 4, 2, 1) {
			case 0:
				text = append(text, pbt.Pick(t, pal))
			case 1:
				text = append(text, pbt.Pick(t, pp))
			case 2:
				text = append(text, pbt.Pick(t, []rune{' ', '.', '1', 0x301, 0x200d, 0xfe0f, 0x378, 0xe000, 0x1f600, 0x3001, '-'}))
			default: // many levels
				o := pbt.Pick(t, pp)
				for k := t.Intn(30); k > 0; k-- {
					text = append(text, o)
				}
			}
		}
		t.Input("%s", showRunes(text))
		ctx := pango.NewContext(newFontMap(theFaces()[0]))
		var l *pango.ItemList
		t.NoPanic("Itemize", func() { l = ctx.Itemize(text, 0, len(text), nil) })
		runs, depth := scriptRuns(text)
		want := make([]language.Script, len(text))
		runOf := make([]int, len(text))
		for k, r := range runs {
			for i := r.start; i < r.end; i++ {
				want[i] = r.script
				runOf[i] = k
			}
		}
		pos := 0
		for ; l != nil; l = l.Next {
			it := l.Data
			if it.Offset != pos || it.Length <= 0 {
				t.Fatalf("item of length %d at %d after %d", it.Length, it.Offset, pos)
			}
			for pos < it.Offset+it.Length && depth <= 128 {
				if pos >= len(text) {
					t.Fatalf("item past the end of the text")
				}
				if it.Analysis.Script != want[pos] {
					t.Fatalf("character %d has script %s, want %s", pos, it.Analysis.Script, want[pos])
				}
				if runOf[pos] != runOf[it.Offset] {
					t.Fatalf("the item at %d extends over several script runs", it.Offset)
				}
				if sc := language.LookupScript(text[pos]); realScript(sc) && sc != it.Analysis.Script {
					t.Fatalf("character %d of script %s is in a run of script %s", pos, sc, it.Analysis.Script)
				}
				pos++
			}
			pos = it.Offset + it.Length
		}
		if pos != len(text) {
			t.Fatalf("the items stop at %d", pos)
		}
		// brackets of several runs
		var stack []int
		for i, r := range text {
			if p, ok := pairOf[r]; ok && p%2 == 0 {
				stack = append(stack, i)
			} else if ok {
				for len(stack) > 0 && pairOf[text[stack[len(stack)-1]]] != p-1 {
					stack = stack[:len(stack)-1]
				}
				if len(stack) > 0 {
					if runOf[stack[len(stack)-1]] != runOf[i] {
						t.NonTrivial(showRunes(text))
					}
					stack = stack[:len(stack)-1]
				}
			}
		}
	}}},
}
