package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode"

	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textprocessing/pango"
	"golang.org/x/text/unicode/norm"
	"verifh/pbt"
	"verifh/sfnt"
)

// A font with ligatures and kernings, for latin and hebrew letters.

type ligature struct {
	text  string
	caret []int
	gid   int
}

var (
	ligaOnce  sync.Once
	ligaFaceV *face
	ligatures = []*ligature{{text: "ffi", caret: []int{210, 500}}, {text: "fi", caret: []int{300}}, {text: "ff"}, {text: "אל"}, {text: "st"}}
	kernings  = map[string]int{"AV": -80, "To": -120, "ב ": -60, "אב": 70, " a": 35, "VA": -50, "Aé": -10}
)

func ligaFace() *face {
	ligaOnce.Do(func() {
		ligaFaceV = newFace("Liga", "20-7e a0-ff 5d0-5ea 2010-2027", "\u0300\u0301\u0308\u200d", 750, 250, nil, func(f *face, s *sfnt.Font) {
			s.GSUB, s.GPOS = []string{"DFLT", "hebr"}, []string{"DFLT", "hebr"}
			s.Carets, s.Kerns = map[int][]int{}, map[[2]int]int{}
			for k, l := range ligatures {
				l.gid = len(s.Advances)
				s.Advances = append(s.Advances, 700+31*k)
				s.Boxes = append(s.Boxes, &sfnt.Box{XMin: 10, YMin: -40, XMax: 600, YMax: 700})
				var comps []int
				for _, r := range l.text {
					comps = append(comps, f.gids[r])
				}
				s.Ligatures = append(s.Ligatures, sfnt.Ligature{Comps: comps, Glyph: l.gid})
				if l.caret != nil {
					s.Carets[l.gid] = l.caret
				}
			}
			for k, v := range kernings {
				r := []rune(k)
				s.Kerns[[2]int{f.gids[r[0]], f.gids[r[1]]}] = v
			}
		})
	})
	return ligaFaceV
}

// withLigatures sometimes prefers the font with ligatures
func withLigatures(t *pbt.T, s *layoutSpec) {
	if t.Intn(3) == 0 {
		return
	}
	s.fm = newFontMap(append([]*face{ligaFace()}, s.fm.faces...)...)
	if words := []string{"ffi", "fi", "ff", "AV", "To", "אל", "אבאל", "ב ", "fe\u0301", "st", "Aé"}; t.Bool() && len(s.text) > 0 {
		for k := t.Range(1, 3); k > 0; k-- {
			w := []rune(pbt.Pick(t, words))
			at := t.Intn(len(s.text))
			copy(s.text[at:], w)
		}
	}
}

var mirrored = func() map[rune]rune {
	m := map[rune]rune{}
	l := []rune("()[]{}<>«»‹›「」『』（）〈〉⟨⟩")
	for i := 0; i < len(l); i += 2 {
		m[l[i]], m[l[i+1]] = l[i+1], l[i]
	}
	return m
}()

func ignorable(r rune) bool {
	switch {
	case r == 0xad, r == 0x34f, r == 0x61c, r == 0x180e, r >= 0x200b && r <= 0x200f, r >= 0x202a && r <= 0x202e, r >= 0x2060 && r <= 0x206f, r == 0xfeff:
		return true
	}
	return r == 0xfe0e || r == 0xfe0f
}

// simpleChar reports whether the glyph of the character does not depend on the others, ligatures and kernings aside
func simpleChar(f *face, r rune) bool {
	switch {
	case unicode.Is(unicode.M, r) || unicode.IsControl(r) || ignorable(r), unicode.Is(unicode.Z, r) && !f.Get(r):
		return false
	case r >= 0x1f3fb && r <= 0x1f3ff, r >= 0x1f1e6 && r <= 0x1f1ff, r >= 0xe0000 && r < 0xe1000, r == 0x2011, unicode.Is(unicode.Hangul, r):
		return false
	case norm.NFD.String(string(r)) != string(r) && !f.Get(r):
		return false
	}
	return unicode.In(r, unicode.Latin, unicode.Greek, unicode.Cyrillic, unicode.Hebrew, unicode.Han, unicode.Hiragana, unicode.Katakana) ||
		r < 0x300 || unicode.Is(unicode.P, r) && r < 0x3100 || unicode.Is(unicode.S, r)
}

// refGlyphs computes the glyphs of an item, in logical order; ok is false when it does not know
func refGlyphs(text []rune, la []pango.CharAttr, item *pango.Item) (out []refGlyph, ok bool) {
	f, a := item.Analysis.Font.(*font), item.Analysis
	transform, liga, nFeat, n := "none", true, 0, 0
	for _, e := range a.ExtraAttrs {
		switch e.Kind {
		case pango.ATTR_TEXT_TRANSFORM:
			transform = fmt.Sprint(e.Data)
			n++
		case pango.ATTR_LETTER_SPACING:
			liga = false
		case pango.ATTR_FONT_FEATURES:
			if strings.Contains(string(e.Data.(pango.AttrString)), "liga=0") {
				liga = false
			}
			nFeat++
		case pango.ATTR_SHOW:
			return nil, false
		}
	}
	if n > 1 || nFeat > 1 || a.Gravity != pango.GRAVITY_SOUTH {
		return nil, false
	}
	rtl := a.Level%2 != 0
	chars := append([]rune(nil), text[item.Offset:item.Offset+item.Length]...)
	for i, r := range chars {
		switch transform {
		case transformNames[pango.TEXT_TRANSFORM_LOWERCASE]:
			r = unicode.ToLower(r)
		case transformNames[pango.TEXT_TRANSFORM_UPPERCASE]:
			r = unicode.ToUpper(r)
		case transformNames[pango.TEXT_TRANSFORM_CAPITALIZE]:
			if la[item.Offset+i].IsWordStart() {
				r = unicode.ToTitle(r)
			}
		}
		if !simpleChar(f.face, r) {
			return nil, false
		}
		chars[i] = r
	}
	if f.face.name == "Liga" {
		native := !rtl
		for _, r := range chars {
			if unicode.Is(unicode.Hebrew, r) {
				native = rtl
			}
		}
		if !native || a.Script == 0 {
			return nil, false
		}
	}
	for i := 0; i < len(chars); {
		g := refGlyph{start: i, n: 1}
		r := chars[i]
		if m := mirrored[r]; rtl && m != 0 && f.face.Get(m) {
			r = m
		}
		g.gid = f.face.gids[r]
		if f.face.name == "Liga" && liga {
			for _, l := range ligatures {
				if w := []rune(l.text); i+len(w) <= len(chars) && string(chars[i:i+len(w)]) == l.text {
					g.gid, g.n, g.caret = l.gid, len(w), l.caret
					break
				}
			}
		}
		out = append(out, g)
		i += g.n
	}
	for i := range out {
		g := &out[i]
		g.width = pango.Unit(f.hb.GlyphHAdvance(fonts.GID(g.gid)))
		if f.face.name == "Liga" && i+1 < len(out) && g.n == 1 && out[i+1].n == 1 {
			if k, ok := kernings[string(chars[g.start])+string(chars[out[i+1].start])]; ok {
				g.width += pango.Unit((k*int(f.hb.XScale) + (faceUPM/2)*sign(k*int(f.hb.XScale))) / faceUPM)
			}
		}
		if g.width < 0 {
			g.width = -g.width
		}
	}
	return out, true
}

func sign(i int) int {
	if i < 0 {
		return -1
	}
	return 1
}

type refGlyph struct {
	start, n int
	gid      int
	width    pango.Unit
	caret    []int
}

var transformNames = func() map[pango.TextTransform]string {
	m := map[pango.TextTransform]string{}
	for i := pango.TextTransform(0); i < 4; i++ {
		m[i] = fmt.Sprint(pango.NewAttrTextTransform(i).Data)
	}
	return m
}()

func showGlyphs(g *pango.GlyphString) string {
	var b strings.Builder
	for i, x := range g.Glyphs {
		fmt.Fprintf(&b, " %d:%x%v", g.LogClusters[i], uint32(x.Glyph), x.Geometry)
	}
	return b.String()
}

func runP19(t *pbt.T, p profile) {
	s := genSpec(t, p)
	withLigatures(t, s)
	t.Describe(s.show)
	ctx := s.newContext()
	la := pango.ComputeCharacterAttributes(s.text, -1)
	var items *pango.ItemList
	t.NoPanic("Itemize", func() { items = ctx.Itemize(s.text, 0, len(s.text), buildAttrs(s.attrs)) })
	var reused pango.GlyphString // for all the items
	known := 0
	for l := items; l != nil; l = l.Next {
		item := l.Data
		lo, hi := item.Offset, item.Offset+item.Length
		gs := new(pango.GlyphString)
		t.NoPanic("Shape", func() { item.Shape(s.text, la[lo:], gs, 0) })
		gi := &pango.GlyphItem{Item: item, Glyphs: gs}
		if msg := checkGlyphs(gi); msg != "" {
			t.Fatalf("[%d,%d): %s:%s", lo, hi, msg, showGlyphs(gs))
		}
		item.Shape(s.text, la[lo:], &reused, 0)
		if a, b := showGlyphs(gs), showGlyphs(&reused); a != b {
			t.Fatalf("[%d,%d): with a reused string:%s, with a new one%s", lo, hi, b, a)
		}
		capitalize := false
		for _, a := range item.Analysis.ExtraAttrs {
			capitalize = capitalize || a.Kind == pango.ATTR_TEXT_TRANSFORM
		}
		if !capitalize {
			var o pango.GlyphString
			o.ShapeRange(s.text, lo, item.Length, &item.Analysis)
			if a, b := showGlyphs(gs), showGlyphs(&o); a != b {
				t.Fatalf("[%d,%d): ShapeRange:%s, Shape:%s", lo, hi, b, a)
			}
		}
		rounded := new(pango.GlyphString)
		item.Shape(s.text, la[lo:], rounded, 1)
		if len(rounded.Glyphs) != len(gs.Glyphs) {
			t.Fatalf("[%d,%d): %d rounded glyphs instead of %d", lo, hi, len(rounded.Glyphs), len(gs.Glyphs))
		}
		for i, g := range rounded.Glyphs {
			h := gs.Glyphs[i]
			h.Geometry = pango.GlyphGeometry{Width: h.Geometry.Width.Round(), XOffset: h.Geometry.XOffset.Round(), YOffset: h.Geometry.YOffset.Round()}
			if g != h || rounded.LogClusters[i] != gs.LogClusters[i] {
				t.Fatalf("[%d,%d): glyph %d is %v, rounded to %v", lo, hi, i, gs.Glyphs[i], g)
			}
		}
		checkWidths(t, s, gi)
		checkGlyphIter(t, s, gi)
		var ref []refGlyph
		if f, _ := item.Analysis.Font.(*font); f == nil {
			checkNoFont(t, s, gi)
		} else {
			checkInvisible(t, s, gi)
			var ok bool
			if ref, ok = refGlyphs(s.text, la, item); ok {
				known++
				checkRefGlyphs(t, gi, ref)
			}
			checkGlyphExtents(t, gi, f)
		}
		checkIndexToX(t, s, gi, ref)
	}
	if known > 0 {
		t.Label("known glyphs")
	}
	if known > 1 {
		t.NonTrivial(fmt.Sprint(string(s.text), s.ctxDesc, s.fm.names()))
	}
}

func checkRefGlyphs(t *pbt.T, gi *pango.GlyphItem, ref []refGlyph) {
	cs := clustersOf(gi)
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].start < cs[j].start })
	if len(cs) != len(ref) {
		t.Fatalf("item at %d: %d clusters, want %d:%s", gi.Item.Offset, len(cs), len(ref), showGlyphs(gi.Glyphs))
	}
	for i, c := range cs {
		r := ref[i]
		if c.start != gi.Item.Offset+r.start || c.n != r.n || c.g1 != c.g0+1 {
			t.Fatalf("item at %d: cluster [%d,+%d) instead of [%d,+%d):%s", gi.Item.Offset, c.start, c.n, gi.Item.Offset+r.start, r.n, showGlyphs(gi.Glyphs))
		}
		g := gi.Glyphs.Glyphs[c.g0]
		if int(g.Glyph) != r.gid {
			t.Fatalf("character %d: glyph %d, want %d", c.start, g.Glyph, r.gid)
		}
		if d := g.Geometry.Width - r.width; d < -1 || d > 1 || g.Geometry.XOffset != 0 || g.Geometry.YOffset != 0 {
			t.Fatalf("character %d: geometry %v, want the width %d", c.start, g.Geometry, r.width)
		}
		if r.n > 1 {
			t.Label("ligature")
		}
	}
}

// zeroWidth tells whether r is not shown even without font
func zeroWidth(r rune) bool {
	return r == 0xad || r == 0x34f || between(r, 0x200b, 0x200f) || between(r, 0x2028, 0x2028) || between(r, 0x202a, 0x202e) ||
		between(r, 0x2060, 0x2063) || between(r, 0x2066, 0x2069) || r == 0xfeff
}

// checkNoFont checks the glyphs of a text without font
func checkNoFont(t *pbt.T, s *layoutSpec, gi *pango.GlyphItem) {
	n := gi.Item.Length
	if len(gi.Glyphs.Glyphs) != n {
		t.Fatalf("without font: %d glyphs for %d characters", len(gi.Glyphs.Glyphs), n)
	}
	for k := 0; k < n; k++ {
		g := gi.Glyphs.Glyphs[k]
		i := k
		if !gi.LTR() {
			i = n - 1 - k
		}
		r := s.text[gi.Item.Offset+i]
		if !gi.LTR() && unicode.Is(unicode.Mn, r) { // in its cluster
			continue
		}
		switch {
		case zeroWidth(r):
			if g.Glyph != pango.GLYPH_EMPTY {
				t.Fatalf("without font: the invisible character %d has the glyph %x", i, g.Glyph)
			}
		case ignorable(r) || r == '\t' || r == '\n' || r == '\r' || r == 0x2028 || r == 0x2029:
			if g.Glyph != pango.GLYPH_EMPTY && g.Glyph != pango.AsUnknownGlyph(r) {
				t.Fatalf("without font: character %d has the glyph %x", i, g.Glyph)
			}
		case g.Glyph != pango.AsUnknownGlyph(r):
			t.Fatalf("without font: character %d has the glyph %x", i, g.Glyph)
		case g.Geometry.Width <= 0:
			t.Fatalf("without font: character %d has the width %d", i, g.Geometry.Width)
		}
	}
}

// checkInvisible checks that the ignorable characters are not visible
func checkInvisible(t *pbt.T, s *layoutSpec, gi *pango.GlyphItem) {
	for _, a := range gi.Item.Analysis.ExtraAttrs {
		if a.Kind == pango.ATTR_SHOW {
			return
		}
	}
	f := gi.Item.Analysis.Font.(*font)
	for _, c := range clustersOf(gi) {
		all := true
		for _, r := range s.text[c.start : c.start+c.n] {
			all = all && ignorable(r)
		}
		if !all || f.face.Get(0x25cc) { // may have a dotted circle
			continue
		}
		if c.width != 0 {
			t.Fatalf("the characters [%d,+%d) are ignorable, but have the width %d", c.start, c.n, c.width)
		}
		for _, g := range gi.Glyphs.Glyphs[c.g0:c.g1] {
			if int(g.Glyph) != f.face.gids[' '] && g.Glyph != pango.GLYPH_EMPTY {
				t.Fatalf("the characters [%d,+%d) are ignorable, but have the glyph %d", c.start, c.n, g.Glyph)
			}
		}
		t.Label("ignorable")
	}
}

func checkWidths(t *pbt.T, s *layoutSpec, gi *pango.GlyphItem) {
	got := gi.GetLogicalWidths(s.text)
	if len(got) != gi.Item.Length {
		t.Fatalf("%d logical widths for %d characters", len(got), gi.Item.Length)
	}
	want := make([]pango.Unit, len(got))
	for _, c := range clustersOf(gi) {
		n := pango.Unit(c.n)
		for k := 0; k < c.n; k++ {
			want[c.start-gi.Item.Offset+k] = c.width / n
		}
		want[c.start-gi.Item.Offset] += c.width % n
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Fatalf("item at %d: logical widths %v, want %v", gi.Item.Offset, got, want)
	}
}

func checkGlyphIter(t *pbt.T, s *layoutSpec, gi *pango.GlyphItem) {
	cs := clustersOf(gi)
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].start < cs[j].start })
	var it pango.GlyphItemIter
	at := 0
	check := func(what string) {
		c, off := cs[at], gi.Item.Offset
		if it.StartIndex != c.start || it.EndIndex != c.start+c.n || it.StartChar != c.start-off || it.EndChar != c.start+c.n-off {
			t.Fatalf("item at %d: after %s, the iterator is on [%d,%d) [%d,%d), want [%d,%d)", off, what, it.StartIndex, it.EndIndex, it.StartChar, it.EndChar, c.start, c.start+c.n)
		}
	}
	if t.Bool() {
		if !it.InitStart(gi, s.text) {
			t.Fatalf("InitStart: no cluster")
		}
		check("InitStart")
		for at+1 < len(cs) {
			if !it.NextCluster() {
				t.Fatalf("item at %d: NextCluster stops after %d clusters of %d", gi.Item.Offset, at+1, len(cs))
			}
			at++
			check("NextCluster")
		}
	} else {
		at = len(cs) - 1
		if !it.InitEnd(gi, s.text) {
			t.Fatalf("InitEnd: no cluster")
		}
		check("InitEnd")
		for at > 0 {
			if !it.PrevCluster() {
				t.Fatalf("item at %d: PrevCluster stops %d clusters before the start", gi.Item.Offset, at)
			}
			at--
			check("PrevCluster")
		}
	}
	for k := t.Intn(8); k > 0; k-- {
		if t.Bool() {
			if it.NextCluster() != (at+1 < len(cs)) {
				t.Fatalf("item at %d: NextCluster on the cluster %d of %d", gi.Item.Offset, at, len(cs))
			}
			if at+1 < len(cs) {
				at++
			}
			check("NextCluster")
		} else {
			if it.PrevCluster() != (at > 0) {
				t.Fatalf("item at %d: PrevCluster on the cluster %d of %d", gi.Item.Offset, at, len(cs))
			}
			if at > 0 {
				at--
			}
			check("PrevCluster")
		}
	}
}

func checkGlyphExtents(t *pbt.T, gi *pango.GlyphItem, f *font) {
	ink, logical := dirty, dirty
	var wantInk, wantLog rect
	gi.Glyphs.Extents(f, &ink, &logical)
	x := pango.Unit(0)
	for i, g := range gi.Glyphs.Glyphs {
		var gInk, gLog rect
		f.GlyphExtents(g.Glyph, &gInk, &gLog)
		if gInk.Width != 0 && gInk.Height != 0 {
			gInk.X += x + g.Geometry.XOffset
			gInk.Y += g.Geometry.YOffset
			if wantInk.Width != 0 {
				gInk = union(wantInk, gInk)
			}
			wantInk = gInk
		}
		if i == 0 {
			wantLog = rect{Y: gLog.Y, Height: gLog.Height}
		} else {
			y0, y1 := wantLog.Y, wantLog.Y+wantLog.Height
			if gLog.Y < y0 {
				y0 = gLog.Y
			}
			if gLog.Y+gLog.Height > y1 {
				y1 = gLog.Y + gLog.Height
			}
			wantLog.Y, wantLog.Height = y0, y1-y0
		}
		x += g.Geometry.Width
	}
	wantLog.Width = x
	if ink != wantInk || logical != wantLog {
		t.Fatalf("item at %d: extents %v %v, want %v %v", gi.Item.Offset, ink, logical, wantInk, wantLog)
	}
}

func checkIndexToX(t *pbt.T, s *layoutSpec, gi *pango.GlyphItem, ref []refGlyph) {
	text := s.text[gi.Item.Offset : gi.Item.Offset+gi.Item.Length]
	var x pango.Unit
	for _, c := range clustersOf(gi) {
		x0, x1 := x, x+c.width
		x = x1
		if !gi.LTR() {
			x0, x1 = x1, x0
		}
		for k := 0; k < c.n; k++ {
			for _, trailing := range []bool{false, true} {
				off := k
				if trailing {
					off++
				}
				slack := pango.Unit(0)
				want := (pango.Unit(c.n-off)*x0 + pango.Unit(off)*x1) / pango.Unit(c.n)
				if off > 0 && off < c.n {
					if f, _ := gi.Item.Analysis.Font.(*font); f != nil && f.face.name == "Liga" {
						if ref == nil {
							continue
						}
						if carets := caretsAt(ref, c.start-gi.Item.Offset); carets != nil {
							want = x0 + pango.Unit((carets[off-1]*int(f.hb.XScale)+faceUPM/2)/faceUPM)
							slack = 1 // rounding
							t.Label("caret")
						}
					}
				}
				if got := gi.Glyphs.IndexToX(text, &gi.Item.Analysis, c.start-gi.Item.Offset+k, trailing); got < want-slack || got > want+slack {
					t.Fatalf("character %d, trailing %v: x = %d, want %d", c.start+k, trailing, got, want)
				}
			}
		}
	}
	end := x
	if !gi.LTR() {
		end = 0
	}
	if got := gi.Glyphs.IndexToX(text, &gi.Item.Analysis, len(text), false); got != end {
		t.Fatalf("end of the item at %d: x = %d, want %d", gi.Item.Offset, got, end)
	}
}

func caretsAt(l []refGlyph, start int) []int {
	for _, g := range l {
		if g.start == start {
			return g.caret
		}
	}
	return nil
}

// checkUnshaped checks that the attributes which are not about shaping only split the runs
func checkUnshaped(t *pbt.T) {
	s := genSpec(t, profile{maxText: 40, attrs: true})
	withLigatures(t, s)
	kept := s.attrs[:0]
	for _, a := range s.attrs {
		switch a.proto.Kind {
		case pango.ATTR_UNDERLINE, pango.ATTR_STRIKETHROUGH, pango.ATTR_FOREGROUND, pango.ATTR_BACKGROUND, pango.ATTR_OVERLINE:
		default:
			kept = append(kept, a)
		}
	}
	s.attrs = kept
	kinds := []func() *pango.Attribute{
		func() *pango.Attribute { return pango.NewAttrUnderline(pango.Underline(t.Range(1, 3))) },
		func() *pango.Attribute { return pango.NewAttrStrikethrough(t.Bool()) },
		func() *pango.Attribute {
			return pango.NewAttrForeground(pango.AttrColor{Red: uint16(t.Intn(3))})
		},
		func() *pango.Attribute {
			return pango.NewAttrBackground(pango.AttrColor{Blue: uint16(t.Intn(3))})
		},
		func() *pango.Attribute { return pango.NewAttrOverline(pango.OVERLINE_SINGLE) },
	}
	n := len(s.text)
	own := map[pango.AttrKind]bool{}
	values := map[pango.AttrKind][]string{} // by character
	with := *s
	with.attrs = append([]attrSpec(nil), s.attrs...)
	for k := t.Range(1, 3); k > 0; k-- {
		mk := kinds[t.Intn(len(kinds))]
		a := mk()
		if own[a.Kind] {
			continue
		}
		own[a.Kind] = true
		values[a.Kind] = make([]string, n)
		for at := t.Intn(n + 1); at < n; { // disjoint ranges
			end := at + 1 + t.Size(n-at)
			if end > n {
				end = n
			}
			a := mk()
			for i := at; i < end; i++ {
				values[a.Kind][i] = fmt.Sprint(a.Data)
			}
			with.attrs = append(with.attrs, attrSpec{a, at, end})
			at = end + t.Intn(5)
			if t.Intn(3) == 0 {
				break
			}
		}
	}
	t.Describe(with.show)
	var lines []*pango.LayoutLine
	t.NoPanic("layout", func() { lines = with.fresh().GetLinesReadonly() })
	refs := s.fresh().GetLinesReadonly()
	if len(lines) != len(refs) {
		t.Fatalf("%d lines, %d without the attributes", len(lines), len(refs))
	}
	type glyph struct {
		g       pango.GlyphInfo
		cluster int
	}
	flat := func(line *pango.LayoutLine) (out []glyph) {
		for _, r := range runsOf(line) {
			for i, g := range r.Glyphs.Glyphs {
				out = append(out, glyph{g, r.Item.Offset + r.Glyphs.LogClusters[i]})
			}
		}
		return out
	}
	runs, before := 0, 0
	for i, line := range lines {
		if a, b := flat(line), flat(refs[i]); fmt.Sprint(a) != fmt.Sprint(b) {
			t.Fatalf("line %d: glyphs %v, without the attributes %v", i, a, b)
		}
		runs += len(runsOf(line))
		before += len(runsOf(refs[i]))
		for _, r := range runsOf(line) {
			if msg := checkGlyphs(r); msg != "" {
				t.Fatalf("line %d: %s", i, msg)
			}
			got := map[string]bool{}
			for _, e := range r.Item.Analysis.ExtraAttrs {
				if own[e.Kind] {
					got[fmt.Sprintf("%v %v", e.Kind, e.Data)] = true
				}
			}
			for _, c := range clustersOf(r) {
				want := map[string]bool{}
				for kind, v := range values {
					for _, x := range v[c.start : c.start+c.n] {
						if x != "" {
							want[fmt.Sprintf("%v %s", kind, x)] = true
						}
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fatalf("line %d: the run [%d,+%d) has the attributes %v, its cluster at %d %v", i, r.Item.Offset, r.Item.Length, got, c.start, want)
				}
			}
		}
	}
	if runs > before+1 {
		t.NonTrivial(fmt.Sprint(string(s.text), values, s.width))
	}
}

var propP19 = &pbt.Prop{
	ID: "P19", Quick: 300000, Thorough: 3000000,
	Rule: "items of generated texts, shaped with generated fonts; non trivial: at least two items whose glyphs are known from their characters, or runs split by attributes",
	Checks: []pbt.Check{
		{Name: "plain", Weight: 3, Run: func(t *pbt.T) { runP19(t, profile{maxText: 30}) }},
		{Name: "attributes", Weight: 3, Run: func(t *pbt.T) { runP19(t, profile{maxText: 30, attrs: true}) }},
		{Name: "gravity", Weight: 1, Run: func(t *pbt.T) { runP19(t, profile{maxText: 30, attrs: true, vertical: true}) }},
		{Name: "fonts", Weight: 1, Run: func(t *pbt.T) { runP19(t, profile{maxText: 20, attrs: true, noFont: true}) }},
		{Name: "unshaped attributes", Weight: 3, Run: checkUnshaped},
	},
}
