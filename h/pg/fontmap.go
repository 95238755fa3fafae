package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/fonts/truetype"
	"github.com/benoitkugler/textlayout/harfbuzz"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/sfnt"
)

// A font map over a few generated fonts, whose coverage is known and which
// remembers what it was asked for.

type face struct {
	name            string
	gids            map[rune]int
	runes           []rune // by glyph - 1
	advances        []int
	ascent, descent int
	os2             *sfnt.OS2
	hb              harfbuzz.Face
}

const faceUPM = 1000

func (f *face) Get(r rune) bool     { return f.gids[r] != 0 }
func (f *face) Set(rune, bool)      { panic("unused") }
func (f *face) advance(gid int) int { return f.advances[gid] }

func newFace(name string, ranges string, extra string, ascent, descent int, os2 *sfnt.OS2, more func(f *face, s *sfnt.Font)) *face {
	if os2 == nil {
		os2 = &sfnt.OS2{Version: 4, Weight: 400, Width: 5, XHeight: 600, CapHeight: 750, SubYSize: 550, SuperYSize: 580, SubYOff: 120, SuperYOff: 400}
	}
	f := &face{name: name, gids: map[rune]int{}, ascent: ascent, descent: descent, os2: os2, advances: []int{500}}
	add := func(r rune) {
		if f.gids[r] == 0 {
			f.runes = append(f.runes, r)
			f.gids[r] = len(f.runes)
			adv := 400 + 50*(int(r)%7)
			if unicodeMark(r) {
				adv = 0
			}
			f.advances = append(f.advances, adv)
		}
	}
	for _, rg := range strings.Fields(ranges) {
		var lo, hi rune
		if n, _ := fmt.Sscanf(rg, "%x-%x", &lo, &hi); n == 1 {
			hi = lo
		}
		for r := lo; r <= hi; r++ {
			add(r)
		}
	}
	for _, r := range extra {
		add(r)
	}
	s := &sfnt.Font{UPM: faceUPM, Ascent: ascent, Descent: -descent, Advances: f.advances, OS2: os2,
		Cmaps: []sfnt.Cmap{{Platform: 3, Encoding: 10, Format: 12, Map: f.gids}}}
	for gid, a := range f.advances {
		if gid > 0 && a == 0 {
			s.MarkGlyphs = append(s.MarkGlyphs, gid)
		}
		s.Boxes = append(s.Boxes, &sfnt.Box{XMin: 20, YMin: -50, XMax: 20 + 300, YMax: 600})
	}
	if more != nil {
		more(f, s)
	}
	f.advances = s.Advances
	l, err := truetype.Load(bytes.NewReader(s.Build()))
	if err != nil {
		panic(err)
	}
	f.hb = l[0].(harfbuzz.Face)
	return f
}

type fontKey struct {
	face *face
	desc pango.FontDescription
}

type font struct {
	fontKey
	hb *harfbuzz.Font
	fm *fontMap
}

func (f *font) FaceID() fonts.FaceID { return fonts.FaceID{File: f.face.name} }

func (f *font) Describe(absolute bool) pango.FontDescription {
	d := f.desc
	d.SetFamily(f.face.name)
	if absolute {
		d.SetAbsoluteSize(d.Size)
	}
	return d
}

func (f *font) GetCoverage(pango.Language) pango.Coverage { return f.face }

func (f *font) scaled(v int) pango.Unit { return pango.Unit(int(f.desc.Size) * v / faceUPM) }

func (f *font) GlyphExtents(g pango.Glyph, ink, logical *pango.Rectangle) {
	var i, l pango.Rectangle
	m := f.metrics()
	switch {
	case g == pango.GLYPH_EMPTY:
		l = pango.Rectangle{Y: -m.Ascent, Height: m.Ascent + m.Descent}
	case g&pango.GLYPH_UNKNOWN_FLAG != 0:
		l = pango.Rectangle{Y: -m.Ascent, Height: m.Ascent + m.Descent, Width: m.ApproximateCharWidth}
		i = l
	default:
		l = pango.Rectangle{Y: -m.Ascent, Height: m.Ascent + m.Descent, Width: pango.Unit(f.hb.GlyphHAdvance(fonts.GID(g)))}
		i = pango.Rectangle{X: f.scaled(20), Y: -f.scaled(600), Width: f.scaled(300), Height: f.scaled(650)}
	}
	if ink != nil {
		*ink = i
	}
	if logical != nil {
		*logical = l
	}
}

func (f *font) metrics() pango.FontMetrics {
	return pango.FontMetrics{
		Ascent: f.scaled(f.face.ascent), Descent: f.scaled(f.face.descent), Height: f.scaled(f.face.ascent + f.face.descent + 100),
		ApproximateCharWidth: f.scaled(500), ApproximateDigitWidth: f.scaled(500),
		UnderlinePosition: -f.scaled(100), UnderlineThickness: f.scaled(50),
		StrikethroughPosition: f.scaled(300), StrikethroughThickness: f.scaled(60),
	}
}
func (f *font) GetMetrics(pango.Language) pango.FontMetrics { return f.metrics() }
func (f *font) GetFontMap() pango.FontMap                   { return f.fm }
func (f *font) GetFeatures() []harfbuzz.Feature             { return nil }
func (f *font) GetHarfbuzzFont() *harfbuzz.Font             { return f.hb }

type fontset struct {
	fonts []*font
	lang  pango.Language
	desc  pango.FontDescription
}

func (s *fontset) GetLanguage() pango.Language { return s.lang }
func (s *fontset) Foreach(fn pango.FontsetForeachFunc) {
	for _, f := range s.fonts {
		if fn(f) {
			return
		}
	}
}

type fontsetKey struct {
	desc pango.FontDescription
	lang pango.Language
}

type fontMap struct {
	faces  []*face // in order of preference
	fonts  map[fontKey]*font
	sets   map[fontsetKey]*fontset
	serial uint
	// number of changes of the fonts: a serial number is never used again
	changes uint
	last    *fontset
	total   int
	mu      sync.Mutex // of fonts, sets and last
}

func newFontMap(faces ...*face) *fontMap {
	return &fontMap{faces: faces, fonts: map[fontKey]*font{}, sets: map[fontsetKey]*fontset{}, serial: 1}
}

func (m *fontMap) GetSerial() uint { return m.serial }

func (m *fontMap) font(f *face, desc pango.FontDescription) *font {
	k := fontKey{f, desc}
	if out := m.fonts[k]; out != nil {
		return out
	}
	hb := harfbuzz.NewFont(f.hb)
	hb.XScale, hb.YScale = desc.Size, desc.Size
	if desc.Gravity.IsImproper() {
		hb.XScale, hb.YScale = -desc.Size, -desc.Size
	}
	out := &font{k, hb, m}
	m.fonts[k] = out
	return out
}

// order lists the faces for the description: the families it names, then the others
func (m *fontMap) order(desc pango.FontDescription, lang pango.Language) (out []*face) {
	seen := map[*face]bool{}
	add := func(f *face) {
		if !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, name := range strings.Split(desc.FamilyName, ",") {
		name = strings.TrimSpace(name)
		if strings.EqualFold(name, "nothing") || strings.EqualFold(name, "empty") { // families without fallback
			return out
		}
		for _, f := range m.faces {
			if strings.EqualFold(name, f.name) {
				add(f)
			}
		}
	}
	if lang == "ja" || lang == "ko" {
		for _, f := range m.faces {
			if f.name == "Cjk" {
				add(f)
			}
		}
	}
	for _, f := range m.faces {
		add(f)
	}
	return out
}

func (m *fontMap) LoadFontset(_ *pango.Context, desc *pango.FontDescription, lang pango.Language) pango.Fontset {
	m.mu.Lock()
	defer m.mu.Unlock()
	k := fontsetKey{*desc, lang}
	s := m.sets[k]
	if s == nil {
		s = &fontset{desc: *desc, lang: lang}
		for _, f := range m.order(*desc, lang) {
			s.fonts = append(s.fonts, m.font(f, *desc))
		}
		m.sets[k] = s
	}
	m.last = s
	if len(s.fonts) == 0 && strings.HasSuffix(desc.FamilyName, "nothing") {
		return nil // instead of an empty set
	}
	return s
}

var (
	facesOnce sync.Once
	allFaces  []*face
)

// the fonts of the checks; the first ones are preferred
func theFaces() []*face {
	facesOnce.Do(func() {
		allFaces = []*face{
			newFace("Latin", "20-7e a0-17f 2010-2027 2030-203a", "\u0300\u0301\u0327\u200b", 800, 200,
				&sfnt.OS2{Version: 4, Weight: 400, Width: 5, XHeight: 450, CapHeight: 700, SubYSize: 600, SuperYSize: 700, SubYOff: 150, SuperYOff: 350}, nil),
			newFace("Greek", "20-40 370-3ff 400-45f", "\u0301\u2010", 900, 300, nil, nil),
			newFace("Semitic", "20-3f 5be-5f4 600-6ff fb50-fdff fe70-fefc", "\u200c\u200d\u200e\u200f", 700, 350, nil, nil),
			newFace("Cjk", "20 41-5a 3000-30ff 4e00-4eff ac00-ad00 ff01-ff5e", "", 880, 120,
				&sfnt.OS2{Version: 4, Weight: 400, Width: 5, XHeight: 500, CapHeight: 800, SubYSize: 500, SuperYSize: 650}, nil),
			newFace("Indic", "20 900-97f e01-e5b 1680-169c", "\u25cc", 1000, 400, nil, nil),
			newFace("Emoji", "20 23 2a 30-39 a9 ae 203c 200d 20e3 2194 231a 2600-26ff 2700-27bf fe0f 1f1e6-1f1ff 1f300-1f64f 1f900-1f9ff e0061-e007f", "", 950, 250, nil, nil),
			newFace("Wide", "20 61-7a 391-3c9 5d0-5ea 3041-3096 1f600-1f610", "", 600, 100, nil, nil),
		}
	})
	return allFaces
}
