package main

import (
	"fmt"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

func copyTabs(tabs *pango.TabArray) *pango.TabArray {
	if tabs == nil {
		return nil
	}
	return &pango.TabArray{Tabs: append([]pango.Tab(nil), tabs.Tabs...), PositionsInPixels: tabs.PositionsInPixels}
}

// set calls one setter of the layout
func (s *layoutSpec) set(l *pango.Layout, setter string, t *pbt.T) {
	switch setter {
	case "SetWidth":
		l.SetWidth(s.anyWidth())
	case "SetIndent":
		l.SetIndent(s.indent)
	case "SetSpacing":
		l.SetSpacing(s.spacing)
	case "SetLineSpacing":
		l.SetLineSpacing(s.lineSpacing)
	case "SetJustify":
		l.SetJustify(s.justify)
	case "SetJustifyLastLine":
		l.SetJustifyLastLine(s.justifyLast)
	case "SetAutoDir":
		l.SetAutoDir(s.autoDir)
	case "SetSingleParagraphMode":
		l.SetSingleParagraphMode(s.single)
	case "SetAlignment":
		l.SetAlignment(s.align)
	case "SetWrap":
		l.SetWrap(s.wrap)
	case "SetEllipsize":
		l.SetEllipsize(s.ellipsize)
		l.SetHeight(s.height)
	case "SetHeight":
		l.SetHeight(s.height)
	case "SetTabs":
		tabs := copyTabs(s.tabs)
		l.SetTabs(tabs)
		if tabs == nil {
			return
		}
		for i, tab := range tabs.Tabs {
			if tab != s.tabs.Tabs[i] {
				t.Fatalf("SetTabs modified its argument: %v, was %v", tabs.Tabs, s.tabs.Tabs)
			}
		}
		// the caller goes on with its array
		for i := range tabs.Tabs {
			tabs.Tabs[i].Location = 3
		}
		tabs.PositionsInPixels = !tabs.PositionsInPixels
	case "SetFontDescription":
		if s.fontDesc == nil {
			l.SetFontDescription(nil)
			return
		}
		d := *s.fontDesc
		l.SetFontDescription(&d)
		d.SetFamily("Wide")
		d.SetSize(55555)
	case "SetRunes":
		text := append([]rune(nil), s.text...)
		if t.Bool() {
			l.SetText(string(text))
			return
		}
		l.SetRunes(text)
		for i := range text {
			text[i] = 'x'
		}
	case "SetAttributes":
		l.SetAttributes(buildAttrs(s.attrs))
	default:
		panic(setter)
	}
}

// markup calls SetMarkup, maybe with an incorrect text
func (s *layoutSpec) markup(t *pbt.T, l *pango.Layout, p profile) string {
	d := genDoc(t, t.Intn(3))
	d.accel = 0
	src := d.String()
	if t.Intn(4) == 0 {
		spoil(t, d)
		src = d.String()
	}
	pm, err := pango.ParseMarkup([]byte(src), 0)
	if err != nil {
		if l.SetMarkup([]byte(src)) == nil {
			t.Fatalf("SetMarkup accepts %q", src)
		}
		return fmt.Sprintf("SetMarkup(%q)", src)
	}
	if len(pm.Text) > 2*p.maxText {
		return ""
	}
	var attrs []attrSpec
	for _, a := range pm.Attr {
		if !p.ok(a) {
			return ""
		}
		c := *a
		attrs = append(attrs, attrSpec{&c, a.StartIndex, a.EndIndex})
	}
	b := []byte(src)
	if err := l.SetMarkup(b); err != nil {
		t.Fatalf("SetMarkup(%q): %s", src, err)
	}
	for i := range b {
		b[i] = 'x'
	}
	s.text, s.attrs = pm.Text, attrs
	return "SetMarkup"
}

// query reads a part of the layout
func query(l *pango.Layout, t *pbt.T) string {
	switch t.Intn(9) {
	case 0:
		l.GetLineCount()
		return "GetLineCount"
	case 1:
		l.IsWrapped()
		l.IsEllipsized()
		return "IsWrapped"
	case 2:
		var r pango.Rectangle
		l.GetExtents(nil, &r)
		return "GetExtents(logical)"
	case 3:
		l.GetBaseline()
		return "GetBaseline"
	case 4:
		var r pango.Rectangle
		for i := 0; i < l.GetLineCount(); i++ {
			l.GetLine(i).GetExtents(nil, &r)
		}
		return "line GetExtents(logical)"
	case 5:
		var r pango.Rectangle
		for i := 0; i < l.GetLineCount(); i++ {
			l.GetLine(i).GetExtents(&r, nil)
		}
		return "line GetExtents(ink)"
	case 6:
		var r pango.Rectangle
		l.GetCursorPos(t.Intn(len(l.Text)+1), &r, nil)
		return "GetCursorPos"
	case 7:
		it := l.GetIter()
		for it.NextRun() {
		}
		return "iterate"
	}
	dumpLayout(l)
	return "everything"
}

func runP17(t *pbt.T, p profile) {
	s := genSpec(t, p)
	withLigatures(t, s)
	ctx := s.newContext()
	l := pango.NewLayout(ctx)
	s.apply(l)
	history := "\n  initially " + s.show() + "\n  history:"
	t.Describe(func() string { return history + "\n  finally " + s.show() })
	changed := map[string]bool{}
	queried := false
	steps := t.Range(1, 6)
	for k := 0; k < steps; k++ {
		name := ""
		switch t.Weighted(6, 2, 2, 2, 5) {
		case 0:
			name = s.vary(t, p)
			s.set(l, name, t)
		case 1:
			if t.Bool() {
				s.text = genLayoutText(t, p.maxText)
			} else if n := len(s.text); n > 0 { // another part of the text
				a := t.Intn(n)
				s.text = s.text[a:t.Range(a, n)]
			}
			name = "SetRunes"
			s.set(l, name, t)
		case 2:
			if p.attrs && t.Intn(4) == 0 {
				name = s.markup(t, l, p)
			} else if p.attrs {
				switch n := len(s.attrs); {
				case n >= 2 && t.Bool(): // the same ones in another order
					attrs := append([]attrSpec(nil), s.attrs...)
					i := t.Intn(n - 1)
					attrs[i], attrs[i+1] = attrs[i+1], attrs[i]
					s.attrs = attrs
				case n >= 1 && t.Bool(): // other bounds
					attrs := append([]attrSpec(nil), s.attrs...)
					i := t.Intn(n)
					attrs[i].s = t.Intn(len(s.text) + 1)
					attrs[i].e = t.Range(attrs[i].s, len(s.text)+1)
					s.attrs = attrs
				default:
					s.attrs = genAttrSpecs(t, len(s.text), p)
				}
				name = "SetAttributes"
				s.set(l, name, t)
			}
		case 3:
			switch t.Intn(5) {
			case 4:
				name = "other fonts"
				s.fm.faces = genFontMap(t).faces
				s.fm.sets = map[fontsetKey]*fontset{}
				s.fm.changes++
				s.fm.serial = 1000 + s.fm.changes
				if t.Bool() {
					s.fm.serial = 1000 - s.fm.changes
				}
			case 0:
				name = "context.SetFontDescription"
				s.ctxDesc = p.desc(t)
				ctx.SetFontDescription(s.ctxDesc)
			case 1:
				name = "context.SetLanguage"
				s.language = pbt.Pick(t, someLanguages)
				ctx.SetLanguage(s.language)
			case 2:
				name = "context.SetRoundGlyphPositions"
				s.round = !s.round
				ctx.SetRoundGlyphPositions(s.round)
			case 3:
				if p.vertical {
					name = "context.SetBaseGravity"
					s.gravity = pango.Gravity(t.Intn(4))
					ctx.SetBaseGravity(s.gravity)
				}
			}
		default:
			t.NoPanic("query", func() { name = "query " + query(l, t) })
			queried = true
		}
		if name != "" {
			history += " " + name
			changed[name] = queried
		}
		if k < steps-1 && t.Intn(3) > 0 {
			continue
		}
		var got, want []string
		t.NoPanic("queries", func() { got = dumpLayout(l) })
		t.NoPanic("queries of the fresh layout", func() { want = dumpLayout(s.fresh()) })
		if d := diffDump(got, want); d != "" {
			t.Fatalf("the layout is not the one of a fresh layout with the same settings:\n%s", d)
		}
		queried = true
		history += " (check)"
	}
	if len(s.text) > 0 {
		for name, q := range changed {
			if q {
				t.NonTrivial(name + string(s.text))
			}
		}
	}
}

var propP17 = &pbt.Prop{
	ID: "P17", Quick: 200000, Thorough: 3000000,
	Rule: "histories of setters and queries; non trivial: a setting is changed after a query, distinct by setting and text",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 2, Run: func(t *pbt.T) { runP17(t, profile{maxText: 24}) }},
		{Name: "attributes", Weight: 3, Run: func(t *pbt.T) { runP17(t, profile{maxText: 24, attrs: true, ellipsize: true}) }},
		{Name: "gravity", Weight: 1, Run: func(t *pbt.T) { runP17(t, profile{maxText: 20, attrs: true, ellipsize: true, vertical: true}) }},
		{Name: "fonts", Weight: 1, Run: func(t *pbt.T) { runP17(t, profile{maxText: 16, attrs: true, ellipsize: true, noFont: true}) }},
	},
}
