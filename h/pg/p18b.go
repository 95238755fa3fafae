package main

import (
	"math"
	"sort"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// rectangles of the ink of the shapes, which have no accessor
var shapeInks = map[pango.AttrData]rect{}

// activeAttr is the index of the attribute of the given kind which applies to the character,
// that is the last one to start, or -1
func activeAttr(attrs []attrSpec, kind pango.AttrKind, at int) int {
	best := -1
	for i, a := range attrs {
		if a.proto.Kind == kind && a.s <= at && at < a.e && (best == -1 || a.s >= attrs[best].s) {
			best = i
		}
	}
	return best
}

var (
	itemKinds  = []pango.AttrKind{pango.ATTR_RISE, pango.ATTR_SHAPE, pango.ATTR_LINE_HEIGHT, pango.ATTR_ABSOLUTE_LINE_HEIGHT, pango.ATTR_LETTER_SPACING}
	glyphKinds = []pango.AttrKind{pango.ATTR_UNDERLINE, pango.ATTR_OVERLINE, pango.ATTR_STRIKETHROUGH, pango.ATTR_FOREGROUND, pango.ATTR_FOREGROUND_ALPHA}
)

// checkRunAttrs compares the attributes of the run to the ones of its characters
func checkRunAttrs(t *pbt.T, s *layoutSpec, run *pango.GlyphItem) {
	start, end := run.Item.Offset, run.Item.Offset+run.Item.Length
	values := func(kind pango.AttrKind) (out []pango.AttrData) {
		for _, a := range run.Item.Analysis.ExtraAttrs {
			if a.Kind == kind {
				out = append(out, a.Data)
			}
		}
		return out
	}
	check := func(kind pango.AttrKind) {
		got := values(kind)
		for i := start; i < end; i++ {
			k := activeAttr(s.attrs, kind, i)
			if (k == -1) != (len(got) == 0) || len(got) > 1 || k != -1 && got[0] != s.attrs[k].proto.Data {
				t.Fatalf("run [%d,%d): attributes of kind %d %v, the character %d has %d", start, end, kind, got, i, k)
			}
		}
	}
	for _, k := range itemKinds {
		check(k)
	}
	for _, c := range clustersOf(run) {
		if c.n != 1 {
			return // the attributes are applied to whole clusters
		}
	}
	for _, k := range glyphKinds {
		check(k)
	}
}

// decoration is one which applyDecorations knows, with all its values
func genDecoration(t *pbt.T) *pango.Attribute {
	switch t.Intn(4) {
	case 0:
		return pango.NewAttrOverline(pango.Overline(t.Intn(2)))
	case 1:
		return pango.NewAttrStrikethrough(t.Intn(4) != 0)
	case 2:
		return pango.NewAttrForeground(pango.AttrColor{Red: uint16(t.Intn(3))})
	}
	return pango.NewAttrUnderline(pango.Underline(t.Intn(8)))
}

// runInk is the ink of the glyphs and of the lines drawn with them
func runInk(run *pango.GlyphItem, offset pango.Unit) rect {
	m := run.Item.Analysis.Font.(*font).metrics()
	var ink, logical rect
	run.Glyphs.Extents(run.Item.Analysis.Font, &ink, &logical)
	decorated, over, low, strike := false, false, false, false
	var below pango.Unit // under the baseline
	for _, a := range run.Item.Analysis.ExtraAttrs {
		switch a.Kind {
		case pango.ATTR_SHAPE:
			box, one := shapeRects[a.Data], shapeInks[a.Data]
			ink = one
			ink.Width += box.Width * pango.Unit(run.Item.Length-1)
			logical.Y, logical.Height = box.Y, box.Height
		case pango.ATTR_UNDERLINE:
			n := pango.Unit(0)
			switch pango.Underline(a.Data.(pango.AttrInt)) {
			case pango.UNDERLINE_NONE:
				continue
			case pango.UNDERLINE_SINGLE, pango.UNDERLINE_SINGLE_LINE:
				n = 1
			case pango.UNDERLINE_LOW:
				low = true
			default:
				n = 3
			}
			decorated = true
			if b := n*m.UnderlineThickness - m.UnderlinePosition; n != 0 && b > below {
				below = b
			}
		case pango.ATTR_OVERLINE:
			over = over || a.Data.(pango.AttrInt) == 1
		case pango.ATTR_STRIKETHROUGH:
			strike = strike || a.Data.(pango.AttrInt) == 1
		}
	}
	if decorated || over || strike { // all the width of the run
		x1 := ink.X + ink.Width
		if ink.X > logical.X {
			ink.X = logical.X
		}
		if x := logical.X + logical.Width; x > x1 {
			x1 = x
		}
		ink.Width = x1 - ink.X
		if strike && ink.Height == 0 {
			ink.Y, ink.Height = -m.StrikethroughPosition, m.StrikethroughThickness
		}
		bottom := ink.Y + ink.Height
		if over {
			ink.Y -= m.UnderlineThickness
		}
		if low {
			bottom += 2 * m.UnderlineThickness
		}
		if below > 0 && below > bottom {
			bottom = below
		}
		ink.Height = bottom - ink.Y
	}
	ink.Y -= offset
	return ink
}

// emptyLine is the vertical extent of a line without characters, without and with the line height
func (s *layoutSpec) emptyLine(at int) (r, line rect, height pango.Unit) {
	var spans []span
	for _, a := range s.attrs {
		spans = append(spans, span{a.proto.Kind, a.s, a.e, "", a.proto})
	}
	sort.SliceStable(spans, func(i, j int) bool { return spans[i].s < spans[j].s })
	desc := s.ctxDesc
	if s.fontDesc != nil {
		for _, f := range descSetters(*s.fontDesc) {
			f.set(&desc)
		}
	}
	lang := s.language
	if lang == "" {
		lang = defaultLang
	}
	setup := itemSetup{fm: s.fm, language: lang, desc: desc}
	p := setup.resolve(spans, at)
	list := s.fm.order(p.desc, lang)
	if len(list) == 0 {
		return rect{}, rect{}, 0
	}
	m := s.fm.font(list[0], p.desc).metrics()
	r = rect{Y: -m.Ascent, Height: m.Ascent + m.Descent}
	var factor float32
	var absolute pango.Unit
	if k := activeAttr(s.attrs, pango.ATTR_LINE_HEIGHT, at); k != -1 {
		factor = float32(s.attrs[k].proto.Data.(pango.AttrFloat))
	}
	if k := activeAttr(s.attrs, pango.ATTR_ABSOLUTE_LINE_HEIGHT, at); k != -1 {
		absolute = pango.Unit(s.attrs[k].proto.Data.(pango.AttrInt))
	}
	return r, withLineHeight(r, factor, absolute), m.Height
}

// withLineHeight applies the attributes of the line height
func withLineHeight(r rect, factor float32, absolute pango.Unit) rect {
	if factor != 0 || absolute != 0 {
		h := pango.Unit(math.Ceil(float64(factor * float32(r.Height))))
		if absolute > h {
			h = absolute
		}
		r.Y -= (h - r.Height) / 2
		r.Height = h
	}
	return r
}
