package main

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// checkTabs compares the widths of the tabs of a line without wrapping to the tab stops
func checkTabs(t *pbt.T) {
	s := genSpec(t, profile{maxText: 10})
	s.width, s.single, s.justify = -1, false, false
	if t.Intn(3) == 0 {
		s.width = 5000000 // wide enough
	}
	letters := []rune("abcdefg0123.,xyz")
	if t.Intn(3) == 0 {
		letters = []rune("\u05d0\u05d1\u05d2.,\u05d3\u05d4\u05d5")
	}
	s.text = s.text[:0]
	for k := t.Range(1, 5); k > 0; k-- {
		for n := t.Intn(6); n > 0; n-- {
			s.text = append(s.text, letters[t.Intn(len(letters))])
		}
		if s.text = append(s.text, '\t'); t.Intn(5) == 0 {
			s.text = append(s.text, '\n')
		}
	}
	for n := t.Intn(6); n > 0; n-- {
		s.text = append(s.text, letters[t.Intn(len(letters))])
	}
	if s.tabs = nil; t.Intn(4) != 0 {
		s.tabs = genTabs(t)
	}
	t.Describe(s.show)
	// the space
	sp := layoutSpec{fm: s.fm, ctxDesc: s.ctxDesc, language: s.language, gravity: s.gravity, round: s.round, text: []rune{' '}, fontDesc: s.fontDesc, width: -1, height: -1}
	space, _ := sp.fresh().GetSize()
	defaultTab := 8 * space
	if defaultTab == 0 {
		defaultTab = 50 * pango.Scale
	}
	var stops []pango.Tab
	if s.tabs != nil {
		for _, tab := range s.tabs.Tabs {
			if s.tabs.PositionsInPixels {
				tab.Location *= pango.Scale
			}
			stops = append(stops, tab)
		}
		for i := range stops { // by position
			for j := i; j > 0 && stops[j].Location < stops[j-1].Location; j-- {
				stops[j], stops[j-1] = stops[j-1], stops[j]
			}
		}
	}
	stop := func(i int) (pango.Tab, pango.Unit) {
		switch n := len(stops); {
		case i < n:
			return stops[i], 1
		case n > 0: // repeat the last gap
			last := stops[n-1]
			gap := last.Location
			if n > 1 {
				gap -= stops[n-2].Location
			}
			if gap <= 0 {
				gap = defaultTab
			}
			last.Location += gap * pango.Unit(i-n+1)
			return last, 1
		case s.tabs != nil:
			return pango.Tab{Location: defaultTab * pango.Unit(i)}, 1
		}
		return pango.Tab{Location: defaultTab * pango.Unit(i)}, defaultTab / 8
	}
	n := 0
	for li, line := range s.fresh().GetLinesReadonly() {
		runs, _ := logicalRuns(line)
		first, indent := 0, pango.Unit(0)
		if s.align != pango.ALIGN_CENTER && s.indent > 0 == line.IsParagraphStart {
			if indent = s.indent; indent < 0 {
				indent = -indent
			}
		}
		var x pango.Unit
		for i := 0; i < len(runs); i++ {
			w := runs[i].Glyphs
			var width pango.Unit
			for _, g := range w.Glyphs {
				width += g.Geometry.Width
			}
			if s.text[runs[i].Item.Offset] != '\t' {
				x += width
				continue
			}
			// the text up to the next tab
			var follow, toPoint pango.Unit
			half, found := pango.Unit(0), false
			var tab pango.Tab
			for {
				var min pango.Unit
				tab, min = stop(first)
				tab.Location -= indent
				if tab.Location >= x+min {
					break
				}
				first++
			}
			point := tab.DecimalPoint
			if point == 0 {
				point = '.'
			}
			for j := i + 1; j < len(runs) && s.text[runs[j].Item.Offset] != '\t'; j++ {
				var rw pango.Unit
				cs := clustersOf(runs[j])
				if !runs[j].LTR() {
					for a, b := 0, len(cs)-1; a < b; a, b = a+1, b-1 {
						cs[a], cs[b] = cs[b], cs[a]
					}
				}
				for _, c := range cs {
					rw += c.width
					if found {
						continue
					}
					if s.text[c.start] == point {
						found = true
						toPoint += c.width / 2
					} else {
						toPoint += c.width
					}
				}
				follow += rw
				half += rw / 2
			}
			want := tab.Location - x
			switch tab.Alignment {
			case pango.TAB_RIGHT:
				want -= follow
			case pango.TAB_CENTER:
				want -= half
			case pango.TAB_DECIMAL:
				want -= toPoint
			}
			if want < 0 {
				want = 0
			}
			if width != want {
				t.Fatalf("line %d: the tab at %d, from %d, has the width %d, want %d for the stop %v, indent %d, text %d", li, runs[i].Item.Offset, x, width, want, tab, indent, follow)
			}
			x += width
			n++
		}
	}
	if n >= 2 {
		t.NonTrivial(fmt.Sprint(string(s.text), stops))
	}
}

// checkTabCopies compares a history of changes of arrays to one of plain values
func checkTabCopies(t *pbt.T) {
	type model struct {
		tabs   []pango.Tab
		pixels bool
	}
	var (
		real  []*pango.TabArray
		want  []model
		log   []string
		where = func(k int) string { return fmt.Sprintf("array %d", k) }
	)
	t.Describe(func() string { return fmt.Sprint(log) })
	var none *pango.TabArray
	if none.Copy() != nil {
		t.Fatalf("the copy of nil is not nil")
	}
	a := genTabs(t)
	real, want = append(real, a), append(want, model{append([]pango.Tab(nil), a.Tabs...), a.PositionsInPixels})
	ctx := defaultSpec(newFontMap(theFaces()...)).newContext()
	for n := t.Range(2, 8); n > 0; n-- {
		k := t.Intn(len(real))
		switch t.Intn(6) {
		case 0, 1:
			log = append(log, "copy "+where(k))
			real = append(real, real[k].Copy())
			want = append(want, model{append([]pango.Tab(nil), want[k].tabs...), want[k].pixels})
		case 2:
			if len(want[k].tabs) != 0 {
				i := t.Intn(len(want[k].tabs))
				tab := pango.Tab{Location: pango.Unit(t.Intn(100)), Alignment: pango.TabAlign(t.Intn(4))}
				log = append(log, fmt.Sprintf("%s [%d] = %v", where(k), i, tab))
				real[k].Tabs[i], want[k].tabs[i] = tab, tab
			}
		case 3:
			tab := pango.Tab{Location: pango.Unit(t.Intn(100)), Alignment: pango.TabAlign(t.Intn(4))}
			log = append(log, fmt.Sprintf("%s += %v", where(k), tab))
			real[k].Tabs, want[k].tabs = append(real[k].Tabs, tab), append(want[k].tabs, tab)
		case 4:
			log = append(log, where(k)+" pixels")
			real[k].PositionsInPixels, want[k].pixels = !real[k].PositionsInPixels, !want[k].pixels
		case 5: // layouts do not change the array
			log = append(log, where(k)+" layout")
			l := pango.NewLayout(ctx)
			l.SetText("a\tb\tc")
			l.SetTabs(real[k])
			l.GetSize()
		}
		for k, a := range real {
			if a.PositionsInPixels != want[k].pixels || len(a.Tabs) != len(want[k].tabs) {
				t.Fatalf("%s is %v, want %v", where(k), *a, want[k])
			}
			for i, tab := range a.Tabs {
				if tab != want[k].tabs[i] {
					t.Fatalf("%s is %v, want %v", where(k), *a, want[k])
				}
			}
		}
	}
	if len(real) > 1 {
		t.NonTrivial(fmt.Sprint(log))
	}
}

var propP05 = &pbt.Prop{
	ID: "P05", Quick: 300000, Thorough: 3000000,
	Rule: "texts with tabs, without wrapping, over fonts with fixed metrics, and histories of changes of tab arrays; non trivial: at least two tabs, or two arrays",
	Checks: []pbt.Check{
		{Name: "stops", Weight: 4, Run: checkTabs},
		{Name: "copies", Weight: 1, Run: checkTabCopies},
	},
}
