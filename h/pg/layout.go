package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// A layoutSpec holds all the settings of a layout and of its context.
type layoutSpec struct {
	fm       *fontMap
	ctxDesc  pango.FontDescription
	language pango.Language
	gravity  pango.Gravity
	round    bool
	matrix   *pango.Matrix

	text []rune
	// attributes, never modified after their creation
	attrs []attrSpec

	fontDesc             *pango.FontDescription
	width, height        pango.Unit
	indent, spacing      pango.Unit
	lineSpacing          float32
	justify, justifyLast bool
	autoDir, single      bool
	align                pango.Alignment
	wrap                 pango.WrapMode
	ellipsize            pango.EllipsizeMode
	tabs                 *pango.TabArray
}

// attrSpec describes an attribute so that it may be built several times
type attrSpec struct {
	proto *pango.Attribute // never given to a layout
	s, e  int
}

func buildAttrs(specs []attrSpec) (out pango.AttrList) {
	for _, a := range specs {
		c := *a.proto
		c.StartIndex, c.EndIndex = a.s, a.e
		out.Insert(&c)
	}
	return out
}

func (s *layoutSpec) newContext() *pango.Context {
	ctx := pango.NewContext(s.fm)
	s.setContext(ctx)
	return ctx
}

func (s *layoutSpec) setContext(ctx *pango.Context) {
	ctx.SetFontDescription(s.ctxDesc)
	ctx.SetLanguage(s.language)
	ctx.SetBaseGravity(s.gravity)
	ctx.SetRoundGlyphPositions(s.round)
}

// fresh builds a layout with the settings
func (s *layoutSpec) fresh() *pango.Layout {
	l := pango.NewLayout(s.newContext())
	s.apply(l)
	return l
}

func (s *layoutSpec) apply(l *pango.Layout) {
	l.SetRunes(s.text)
	l.SetAttributes(buildAttrs(s.attrs))
	l.SetFontDescription(s.fontDesc)
	l.SetWidth(s.anyWidth())
	l.SetEllipsize(s.ellipsize)
	l.SetHeight(s.height)
	l.SetIndent(s.indent)
	l.SetSpacing(s.spacing)
	l.SetLineSpacing(s.lineSpacing)
	l.SetJustify(s.justify)
	l.SetJustifyLastLine(s.justifyLast)
	l.SetAutoDir(s.autoDir)
	l.SetSingleParagraphMode(s.single)
	l.SetAlignment(s.align)
	l.SetWrap(s.wrap)
	if s.tabs != nil {
		l.SetTabs(&pango.TabArray{Tabs: append([]pango.Tab(nil), s.tabs.Tabs...), PositionsInPixels: s.tabs.PositionsInPixels})
	}
}

func (s *layoutSpec) show() string {
	var b strings.Builder
	fmt.Fprintf(&b, "fonts %s; context %s, language %q", s.fm.names(), descFields(s.ctxDesc), s.language)
	if s.gravity != pango.GRAVITY_SOUTH {
		fmt.Fprintf(&b, ", gravity %d", s.gravity)
	}
	if s.round {
		b.WriteString(", round")
	}
	fmt.Fprintf(&b, "\n  text %s (%q)", showRunes(s.text), string(s.text))
	if s.fontDesc != nil {
		fmt.Fprintf(&b, "\n  font %s", descFields(*s.fontDesc))
	}
	fmt.Fprintf(&b, "\n  width %d", s.width)
	if s.height != -1 {
		fmt.Fprintf(&b, ", height %d", s.height)
	}
	if s.indent != 0 {
		fmt.Fprintf(&b, ", indent %d", s.indent)
	}
	if s.spacing != 0 {
		fmt.Fprintf(&b, ", spacing %d", s.spacing)
	}
	if s.lineSpacing != 0 {
		fmt.Fprintf(&b, ", line spacing %g", s.lineSpacing)
	}
	if s.justify {
		b.WriteString(", justify")
	}
	if s.justifyLast {
		b.WriteString(", justify last line")
	}
	if !s.autoDir {
		b.WriteString(", no auto dir")
	}
	if s.single {
		b.WriteString(", single paragraph")
	}
	if s.align != 0 {
		fmt.Fprintf(&b, ", alignment %d", s.align)
	}
	if s.wrap != 0 {
		fmt.Fprintf(&b, ", wrap %d", s.wrap)
	}
	if s.ellipsize != 0 {
		fmt.Fprintf(&b, ", ellipsize %d", s.ellipsize)
	}
	if s.tabs != nil {
		fmt.Fprintf(&b, ", tabs %+v", *s.tabs)
	}
	for _, a := range s.attrs {
		fmt.Fprintf(&b, "\n  [%d,%d) %v = %v", a.s, a.e, a.proto.Kind, a.proto.Data)
	}
	return b.String()
}

func defaultSpec(fm *fontMap) *layoutSpec {
	d := pango.NewFontDescription()
	d.SetFamily("serif")
	d.SetSize(10000)
	return &layoutSpec{fm: fm, ctxDesc: d, language: "en", gravity: pango.GRAVITY_SOUTH, width: -1, height: -1, autoDir: true}
}

// profile selects what genSpec may vary
type profile struct {
	maxText   int
	vertical  bool // other gravities
	noFont    bool // texts without font
	ellipsize bool
	attrs     bool
}

// genLayoutText mixes words, separators and the characters of genText
func genLayoutText(t *pbt.T, max int) []rune {
	switch t.Intn(4) {
	case 0:
		return genText(t, max)
	case 1: // words
		words := []string{"the", "quick", "of", "a", "Zoë", "αβγ", "שלום", "العربية", "12.5", "co-op", "日本語", "ffi", "naïve", "e\u0301t\u0301", "हिन्दी", "ab\u00adcd"}
		seps := []string{" ", " ", " ", " ", "  ", ", ", ". ", "-", "\t", "\u00a0", "\u2028", "\n", "\r\n", "\u2029"}
		var pal []string
		for k := t.Range(1, 4); k > 0; k-- {
			pal = append(pal, pbt.Pick(t, words))
		}
		var out []rune
		n := t.Size(max)
		for len(out) < n {
			out = append(out, []rune(pbt.Pick(t, pal))...)
			out = append(out, []rune(pbt.Pick(t, seps))...)
		}
		if len(out) > n {
			out = out[:n]
		}
		return out
	case 2: // few kinds of characters
		pal := []rune{' ', 'a', 'b', pbt.Pick(t, []rune{'\n', '\t', 0x5d0, 0x301, 0x2028, 0xad, 0x200b, 0x4e2d, '-'})}
		out := make([]rune, t.Size(max))
		for i := range out {
			out[i] = pbt.Pick(t, pal)
		}
		return out
	}
	out := genText(t, max)
	for i := range out { // with spaces
		if t.Intn(4) == 0 {
			out[i] = ' '
		}
	}
	return out
}

func genTabs(t *pbt.T) *pango.TabArray {
	out := &pango.TabArray{PositionsInPixels: t.Bool()}
	for k := t.Intn(4); k > 0; k-- {
		loc := pango.Unit(t.Size(150000))
		if out.PositionsInPixels {
			loc = pango.Unit(t.Size(150))
		}
		tab := pango.Tab{Location: loc, Alignment: pango.TabAlign(t.Intn(4))}
		if t.Intn(3) == 0 {
			tab.DecimalPoint = pbt.Pick(t, []rune{',', '.', 'b'})
		}
		out.Tabs = append(out.Tabs, tab)
	}
	return out
}

// genWidth yields widths of a few characters
func genWidth(t *pbt.T) pango.Unit {
	switch t.Intn(6) {
	case 0:
		return -1
	case 1:
		return pango.Unit(t.Intn(3) * t.Intn(1024))
	case 2:
		return pango.Unit(t.Size(200)) * pango.Scale
	}
	return pango.Unit(t.Size(150000))
}

// logical rectangles of the shapes, which have no accessor
var shapeRects = map[pango.AttrData]pango.Rectangle{}

func newShape(ink, logical pango.Rectangle) *pango.Attribute {
	a := pango.NewAttrShape(ink, logical)
	shapeRects[a.Data] = logical
	shapeInks[a.Data] = ink
	return a
}

func genLayoutAttr(t *pbt.T) *pango.Attribute {
	switch t.Weighted(8, 3, 2, 2, 2, 2, 2, 2, 1, 2, 1, 1, 1) {
	case 0:
		return genItemAttr(t)
	case 1:
		return pango.NewAttrLetterSpacing(pbt.Pick(t, []int32{1024, 2048, 500, 1, 333, -300, 10000}))
	case 2:
		return pango.NewAttrRise(pbt.Pick(t, []int{1024, -2048, 300}))
	case 3:
		return newShape(pango.Rectangle{X: 10, Y: -500, Width: pango.Unit(t.Size(5000)), Height: 600}, pango.Rectangle{Y: -pango.Unit(t.Intn(3) * 5000), Width: pango.Unit(t.Size(20000)), Height: pango.Unit(t.Intn(3) * 7000)})
	case 4:
		return pango.NewAttrAllowBreaks(false)
	case 5:
		return pango.NewAttrInsertHyphens(t.Intn(4) == 0)
	case 6:
		return pango.NewAttrShow(pango.ShowFlags(t.Intn(8)))
	case 7:
		return pango.NewAttrUnderline(pango.Underline(t.Intn(5)))
	case 8:
		return pango.NewAttrLineHeight(pbt.Pick(t, []float32{0.5, 1, 1.5, 2}))
	case 9:
		return pango.NewAttrBaselineShift(pbt.Pick(t, []int{0, 1, 2, 2048, -3000}))
	case 10:
		return pango.NewAttrAbsoluteLineHeight(t.Intn(40000))
	case 11:
		return pango.NewAttrFontFeatures(pbt.Pick(t, []string{"liga=0", "kern", "smcp=1,liga", "x"}))
	}
	return pango.NewAttrTextTransform(pango.TextTransform(t.Intn(4)))
}

func genAttrSpecs(t *pbt.T, n int, p profile) (out []attrSpec) {
	for k := t.Weighted(3, 3, 2, 2, 1); k > 0; k-- {
		a := genLayoutAttr(t)
		if !p.ok(a) {
			continue
		}
		s := t.Intn(n + 1)
		e := t.Range(s, n+1)
		if t.Intn(4) == 0 {
			s, e = 0, maxInt
		}
		out = append(out, attrSpec{a, s, e})
	}
	return out
}

// ok reports whether the profile allows the attribute
func (p profile) ok(a *pango.Attribute) bool {
	switch a.Kind {
	case pango.ATTR_GRAVITY, pango.ATTR_GRAVITY_HINT:
		return p.vertical
	case pango.ATTR_FAMILY:
		s := string(a.Data.(pango.AttrString))
		return p.noFont || !strings.Contains(s, "nothing") && !strings.Contains(s, "empty")
	case pango.ATTR_FONT_DESC:
		return p.okDesc(a.Data.(pango.FontDescription))
	}
	return true
}

func (p profile) okDesc(d pango.FontDescription) bool {
	if !p.noFont && (strings.Contains(d.FamilyName, "nothing") || strings.Contains(d.FamilyName, "empty")) {
		return false
	}
	return p.vertical || d.Gravity == pango.GRAVITY_SOUTH
}

func (p profile) desc(t *pbt.T) pango.FontDescription {
	d := genContextDesc(t)
	if !p.okDesc(d) {
		d.SetFamily("Latin")
		d.SetGravity(pango.GRAVITY_SOUTH)
	}
	return d
}

func genSpec(t *pbt.T, p profile) *layoutSpec {
	if len(shapeRects) > 50000 {
		shapeRects = map[pango.AttrData]pango.Rectangle{}
		shapeInks = map[pango.AttrData]pango.Rectangle{}
	}
	s := defaultSpec(genFontMap(t))
	s.text = genLayoutText(t, p.maxText)
	if t.Bool() {
		s.ctxDesc = p.desc(t)
	}
	if t.Intn(4) == 0 {
		s.language = pbt.Pick(t, someLanguages)
	}
	if p.vertical {
		s.gravity = pango.Gravity(t.Intn(4))
	}
	s.round = t.Intn(4) == 0
	if p.attrs {
		s.attrs = genAttrSpecs(t, len(s.text), p)
	}
	for k := t.Intn(5); k > 0; k-- {
		s.vary(t, p)
	}
	s.width = genWidth(t)
	return s
}

// vary changes one setting of the layout
func (s *layoutSpec) vary(t *pbt.T, p profile) string {
	switch t.Weighted(3, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 2, 1) {
	case 0:
		s.width = genWidth(t)
		return "SetWidth"
	case 1:
		s.indent = pango.Unit(t.Range(-20000, 20000))
		if t.Intn(3) == 0 {
			s.indent = 0
		}
		return "SetIndent"
	case 2:
		s.spacing = pango.Unit(t.Range(-2000, 8000))
		return "SetSpacing"
	case 3:
		s.lineSpacing = pbt.Pick(t, []float32{0, 1, 1.5, 2, 0.5})
		return "SetLineSpacing"
	case 4:
		s.justify = !s.justify
		return "SetJustify"
	case 5:
		s.justifyLast = !s.justifyLast
		return "SetJustifyLastLine"
	case 6:
		s.autoDir = !s.autoDir
		return "SetAutoDir"
	case 7:
		s.single = !s.single
		return "SetSingleParagraphMode"
	case 8:
		s.align = pango.Alignment(t.Intn(3))
		return "SetAlignment"
	case 9:
		s.wrap = pango.WrapMode(t.Intn(3))
		return "SetWrap"
	case 10:
		if p.ellipsize {
			s.ellipsize = pango.EllipsizeMode(t.Intn(4))
			if s.ellipsize == pango.ELLIPSIZE_NONE {
				s.height = -1
			}
		}
		return "SetEllipsize"
	case 11:
		if p.ellipsize && s.ellipsize != pango.ELLIPSIZE_NONE {
			s.height = pbt.Pick(t, []pango.Unit{-1, -2, -3, 0, 1, 20000, 30000, 100000, pango.Unit(t.Size(100000))})
		}
		return "SetHeight"
	case 12:
		s.tabs = genTabs(t)
		return "SetTabs"
	}
	if s.fontDesc = nil; t.Bool() {
		d := p.desc(t)
		for _, m := range []pango.FontMask{pango.FmFamily, pango.FmSize, pango.FmStyle} {
			if t.Intn(3) == 0 {
				d.UnsetFields(m)
			}
		}
		s.fontDesc = &d
	}
	return "SetFontDescription"
}

func runsOf(line *pango.LayoutLine) (out []*pango.GlyphItem) {
	for r := line.Runs; r != nil; r = r.Next {
		out = append(out, r.Data)
	}
	return out
}

func showFont(f pango.Font) string {
	switch f := f.(type) {
	case nil:
		return "none"
	case *font:
		return f.face.name + ":" + descFields(f.desc)
	}
	return fmt.Sprintf("%T", f)
}

func showRun(r *pango.GlyphItem) string {
	var b strings.Builder
	a := r.Item.Analysis
	fmt.Fprintf(&b, "run [%d,%d) level %d flags %d gravity %d script %s lang %q font %s", r.Item.Offset, r.Item.Offset+r.Item.Length, a.Level, a.Flags, a.Gravity, a.Script, a.Language, showFont(a.Font))
	extra := append(pango.AttrList(nil), a.ExtraAttrs...)
	sort.SliceStable(extra, func(i, j int) bool { return extra[i].Kind < extra[j].Kind })
	for _, e := range extra {
		fmt.Fprintf(&b, " {%v=%v [%d,%d)}", e.Kind, e.Data, e.StartIndex, e.EndIndex)
	}
	for i, g := range r.Glyphs.Glyphs {
		fmt.Fprintf(&b, " %d:%x(%d,%d,%d)", r.Glyphs.LogClusters[i], uint32(g.Glyph), g.Geometry.Width, g.Geometry.XOffset, g.Geometry.YOffset)
	}
	return b.String()
}

// dumpLayout shows everything a layout tells
func dumpLayout(l *pango.Layout) []string {
	var out []string
	add := func(format string, args ...interface{}) { out = append(out, fmt.Sprintf(format, args...)) }
	if l.Width < -1 {
		add("width %d", l.Width)
	}
	add("%d lines, wrapped %v, ellipsized %v", l.GetLineCount(), l.IsWrapped(), l.IsEllipsized())
	for i, line := range l.GetLinesReadonly() {
		add("line %d: [%d,+%d) paragraph start %v direction %d", i, line.StartIndex, line.Length, line.IsParagraphStart, line.ResolvedDir)
		for _, r := range runsOf(line) {
			add("  %s", showRun(r))
		}
		ink, logical := dirty, dirty
		h := line.GetExtents(&ink, &logical)
		add("  extents %v %v height %d", ink, logical, h)
	}
	ink, logical := dirty, dirty
	l.GetExtents(&ink, &logical)
	add("extents %v %v, baseline %d", ink, logical, l.GetBaseline())
	it := l.GetIter()
	for {
		a, b, c, d := dirty, dirty, dirty, dirty
		it.GetLineExtents(&a, &b)
		it.GetRunExtents(&c, &d)
		add("at %d: baseline %d line %v %v run %v %v", it.Index, it.GetBaseline(), a, b, c, d)
		if !it.NextRun() {
			break
		}
	}
	attrs := l.GetCharacterAttributes()
	add("attributes %v", attrs)
	for i := 0; i <= len(l.Text); i++ {
		a, b, c := dirty, dirty, dirty
		l.GetCursorPos(i, &a, &b)
		l.IndexToPos(i, &c)
		add("index %d: cursors %v %v position %v direction %d", i, a, b, c, l.GetDirectionAt(i))
	}
	return out
}

func diffDump(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		a, b := "(nothing)", "(nothing)"
		if i < len(got) {
			a = got[i]
		}
		if i < len(want) {
			b = want[i]
		}
		if a != b {
			return fmt.Sprintf("got  %s\nwant %s", a, b)
		}
	}
	return ""
}

// dirty is given to the queries which fill a rectangle
var dirty = pango.Rectangle{X: 12345, Y: -777, Width: 4321, Height: 99}

// anyWidth is the width to set: all the negative values mean that there is none
func (s *layoutSpec) anyWidth() pango.Unit {
	if s.width == -1 {
		return -1 - pango.Unit(len(s.text)%3)*500
	}
	return s.width
}
