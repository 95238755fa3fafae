package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"sort"
	"strings"
	"sync"

	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/fonts/truetype"
	"github.com/benoitkugler/textlayout/harfbuzz"
	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"github.com/benoitkugler/textprocessing/pango"
	"github.com/benoitkugler/textprocessing/pango/fcfonts"
	"verifh/pbt"
	"verifh/sfnt"
	"verifh/ucd"
)

// The font map of fontconfig, over generated font files.

type fileFace struct {
	file     string
	disk     bool // read by the default loader
	s        *sfnt.Font
	gids     map[rune]int
	patterns fc.Fontset
	face     harfbuzz.Face
}

type fileSpec struct {
	file, family, style string
	ranges              string
	weight, width       int
	italic              bool
	upm                 int
	ascent, descent     int
	gap                 int
	axes                []sfnt.Axis
	features            []string
	under, underThick   int
	strike, strikePos   int
}

var fileSpecs = []fileSpec{
	{file: "alpha.ttf", family: "Alpha", style: "Regular", ranges: "20-7e a0-ff 2010-2027", weight: 400, width: 5, upm: 1000, ascent: 800, descent: 200, gap: 90, under: -120, underThick: 55, strike: 49, strikePos: 310},
	{file: "alpha-b.ttf", family: "Alpha", style: "Bold", ranges: "20-7e a0-ff", weight: 700, width: 5, upm: 1000, ascent: 810, descent: 210, under: -110, underThick: 75, strike: 69, strikePos: 300},
	{file: "alpha-i.ttf", family: "Alpha", style: "Italic", ranges: "20-7e a0-ff", weight: 400, width: 5, italic: true, upm: 2048, ascent: 1700, descent: 420, gap: 10, under: -200, underThick: 90, strike: 100, strikePos: 600},
	{file: "alpha-c.ttf", family: "Alpha", style: "Condensed", ranges: "20-7e", weight: 400, width: 3, upm: 1000, ascent: 790, descent: 190, under: -100, underThick: 50, strike: 50, strikePos: 300},
	{file: "beta.ttf", family: "Beta", style: "Regular", ranges: "20-40 370-3ff 400-45f", weight: 400, width: 5, upm: 1024, ascent: 900, descent: 300, gap: 40, under: -90, underThick: 40, strike: 44, strikePos: 320},
	{file: "gamma.ttf", family: "Gamma", style: "Regular", ranges: "20 30-39 5d0-5ea 600-6ff", weight: 400, width: 5, upm: 2000, ascent: 1500, descent: 600, under: -220, underThick: 110, strike: 90, strikePos: 500},
	{file: "thin.ttf", family: "Thin Display", style: "Thin", ranges: "20-7e", weight: 100, width: 7, upm: 500, ascent: 400, descent: 110, under: -60, underThick: 10, strike: 11, strikePos: 140},
	{file: "mincho.ttf", family: "Mincho", style: "Regular", ranges: "20 41-5a 3000-30ff 4e00-4e80", weight: 500, width: 5, upm: 1000, ascent: 880, descent: 120, under: -75, underThick: 50, strike: 50, strikePos: 330},
	{file: "plain.ttf", family: "Plain", style: "Regular", ranges: "20-7e 1f600-1f60f", upm: 1000, ascent: 700, descent: 250, weight: 400, width: 5, under: -80, underThick: 30, strike: 31, strikePos: 222},
	{file: "vari.ttf", family: "Vari", style: "Regular", ranges: "20-7e", weight: 400, width: 5, upm: 1000, ascent: 850, descent: 150, under: -80, underThick: 30, strike: 30, strikePos: 250,
		axes: []sfnt.Axis{{Tag: "wght", Min: 100, Def: 400, Max: 900}, {Tag: "wdth", Min: 50, Def: 100, Max: 200}}},
}

var (
	filesOnce sync.Once
	theFilesV []*fileFace
)

func theFiles() []*fileFace {
	filesOnce.Do(func() {
		for k, sp := range fileSpecs {
			f := &fileFace{file: sp.file, gids: map[rune]int{}}
			adv := []int{sp.upm / 2}
			boxes := []*sfnt.Box{{XMin: 0, YMin: 0, XMax: sp.upm / 3, YMax: sp.upm / 2}}
			for _, rg := range strings.Fields(sp.ranges) {
				var lo, hi rune
				if n, _ := fmt.Sscanf(rg, "%x-%x", &lo, &hi); n == 1 {
					hi = lo
				}
				for r := lo; r <= hi; r++ {
					f.gids[r] = len(adv)
					w := sp.upm*2/5 + (int(r)*37+k*11)%(sp.upm/2)
					adv = append(adv, w)
					boxes = append(boxes, &sfnt.Box{XMin: w / 20, YMin: -(int(r) % 7) * sp.upm / 40, XMax: w - w/11, YMax: sp.upm/2 + int(r)%50})
				}
			}
			boxes[f.gids[' ']] = nil
			name := func(id int, v string) sfnt.Name {
				var b []byte
				for _, r := range v {
					b = append(b, byte(r>>8), byte(r))
				}
				return sfnt.Name{Platform: 3, Encoding: 1, Language: 0x409, ID: id, Value: b}
			}
			s := &sfnt.Font{UPM: sp.upm, Ascent: sp.ascent, Descent: -sp.descent, LineGap: sp.gap, Advances: adv, Boxes: boxes,
				Names: []sfnt.Name{name(1, sp.family), name(2, sp.style), name(4, sp.family+" "+sp.style), name(6, strings.ReplaceAll(sp.family+"-"+sp.style, " ", ""))},
				Cmaps: []sfnt.Cmap{{Platform: 3, Encoding: 10, Format: 12, Map: f.gids}},
				Axes:  sp.axes, UnderlinePos: sp.under, UnderlineThick: sp.underThick}
			{
				s.OS2 = &sfnt.OS2{Version: 4, Weight: sp.weight, Width: sp.width, XHeight: sp.upm / 2, CapHeight: sp.upm * 7 / 10, StrikeSize: sp.strike, StrikePos: sp.strikePos,
					SubYSize: sp.upm / 2, SuperYSize: sp.upm / 2, SubYOff: sp.upm / 7, SuperYOff: sp.upm / 3}
				if sp.italic {
					s.OS2.FsSelection = 1
				}
			}
			if sp.italic {
				s.MacStyle = 2
			}
			if sp.weight == 700 {
				s.MacStyle |= 1
			}
			f.s = s
			data := s.Build()
			var err error
			if f.patterns, err = fc.NewConfig().ScanFontRessource(bytes.NewReader(data), sp.file); err != nil {
				panic(err)
			}
			l, err := truetype.Load(bytes.NewReader(data))
			if err != nil {
				panic(err)
			}
			f.face = l[0].(harfbuzz.Face)
			theFilesV = append(theFilesV, f)
		}
	})
	return theFilesV
}

var (
	diskOnce           sync.Once
	diskV, absentV     []*fileFace
	diskData, diskFail []*os.File // unlinked, and read from /proc/self/fd
)

// diskFiles are the fonts as files, and the same ones as files which can't be loaded
func diskFiles() (good, bad []*fileFace) {
	diskOnce.Do(func() {
		save := func(data []byte) *os.File {
			f, err := os.CreateTemp("", "verif-p21-")
			if err != nil {
				panic(err)
			}
			os.Remove(f.Name())
			if _, err = f.Write(data); err != nil {
				panic(err)
			}
			return f
		}
		for k, f := range theFiles() {
			of := func(file string) *fileFace {
				c := *f
				c.file, c.disk, c.patterns = file, true, nil
				for _, p := range f.patterns {
					p = p.Duplicate()
					p.Del(fc.FILE)
					p.AddString(fc.FILE, file)
					c.patterns = append(c.patterns, p)
				}
				return &c
			}
			data := f.s.Build()
			diskData = append(diskData, save(data))
			diskV = append(diskV, of(fmt.Sprintf("/proc/self/fd/%d", diskData[k].Fd())))
			if k%2 == 0 {
				absentV = append(absentV, of("/proc/self/fd/none-"+f.file))
			} else { // corrupted
				diskFail = append(diskFail, save(data[:len(data)/3]))
				absentV = append(absentV, of(fmt.Sprintf("/proc/self/fd/%d", diskFail[len(diskFail)-1].Fd())))
			}
		}
	})
	return diskV, absentV
}

// memLoader loads the faces from memory, some of them failing
type memLoader struct{ missing map[string]bool }

func (l memLoader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	for _, f := range theFiles() {
		if f.file == key.File {
			if l.missing[key.File] {
				return nil, errors.New("missing")
			}
			return f.face, nil
		}
	}
	return nil, fmt.Errorf("unknown %v", key)
}

var fontConfigs = []string{
	``,
	`<alias><family>serif</family><prefer><family>Beta</family><family>Alpha</family></prefer></alias>
	 <alias><family>sans</family><prefer><family>Alpha</family></prefer></alias>`,
	`<match target="font"><test name="family"><string>Beta</string></test><edit name="matrix" mode="assign"><times><name>matrix</name><matrix><double>1</double><double>0.2</double><double>0</double><double>1</double></matrix></times></edit></match>
	 <match target="pattern"><edit name="family" mode="append_last"><string>Gamma</string></edit></match>`,
	`<match target="font"><edit name="fontfeatures" mode="append"><string>liga=0</string></edit></match>
	 <match target="pattern"><test name="lang" compare="contains"><string>ja</string></test><edit name="family" mode="prepend" binding="strong"><string>Mincho</string></edit></match>`,
}

func fontConfig(k int) *fc.Config {
	c := fc.NewConfig()
	if err := c.LoadFromMemory(strings.NewReader(`<?xml version="1.0"?><!DOCTYPE fontconfig SYSTEM "fonts.dtd"><fontconfig>` + fontConfigs[k] + `</fontconfig>`)); err != nil {
		panic(err)
	}
	return c
}

// a request to the font map
type fontRequest struct {
	desc     pango.FontDescription
	lang     pango.Language
	ctxLang  pango.Language
	matrix   *pango.Matrix
	noCtx    bool
	setOnly  bool // LoadFont otherwise
	metricsL []pango.Language
}

func (q *fontRequest) context(fm pango.FontMap) *pango.Context {
	ctx := pango.NewContext(fm)
	if q.ctxLang != "" {
		ctx.SetLanguage(q.ctxLang)
	}
	ctx.Matrix = q.matrix
	return ctx
}

func (q *fontRequest) String() string {
	m := "no matrix"
	if q.matrix != nil {
		m = fmt.Sprint(*q.matrix)
	}
	return fmt.Sprintf("%s lang %q context %q %s", showDesc(q.desc), q.lang, q.ctxLang, m)
}

func genFontRequest(t *pbt.T) *fontRequest {
	q := &fontRequest{desc: pango.NewFontDescription()}
	d := &q.desc
	if t.Intn(4) > 0 {
		l := []string{"Alpha", "Beta", "Gamma", "Thin Display", "Mincho", "Plain", "Vari", "serif", "sans", "unknown", "alpha", "BETA", "mincho", "Vari", "Vari"}
		n := t.Range(1, 3)
		var fam []string
		for ; n > 0; n-- {
			fam = append(fam, pbt.Pick(t, l))
		}
		d.SetFamily(strings.Join(fam, pbt.Pick(t, []string{",", ", "})))
	}
	if t.Bool() {
		d.SetWeight(pango.Weight(pbt.Pick(t, []int{100, 300, 400, 450, 600, 700, 900, 1000})))
	}
	if t.Intn(3) == 0 {
		d.SetStyle(pango.Style(t.Intn(3)))
	}
	if t.Intn(3) == 0 {
		d.SetStretch(pango.Stretch(t.Intn(9)))
	}
	if t.Intn(4) == 0 {
		d.SetVariant(pango.Variant(t.Intn(7)))
	}
	if t.Intn(5) == 0 {
		d.SetGravity(pango.Gravity(t.Intn(4)))
	}
	if t.Intn(5) == 0 {
		d.SetVariations(pbt.Pick(t, []string{"wght=700", "wght=250,wdth=150", "wdth=75", "xxxx=3"}))
	}
	switch size := int32(t.Range(1, 72*pango.Scale)); t.Intn(5) {
	case 0:
		d.SetAbsoluteSize(size)
	case 1:
		d.SetSize(size)
	default:
		d.SetSize(int32(t.Range(1, 40)) * pango.Scale)
	}
	if t.Intn(3) == 0 {
		q.lang = pbt.Pick(t, someLanguages)
	}
	q.ctxLang = pbt.Pick(t, []pango.Language{"en", "en", "ja", "el", "he"})
	if t.Intn(4) == 0 {
		m := pango.Identity
		switch t.Intn(3) {
		case 0:
			f := pbt.Pick(t, []float32{2, 0.5, 3, 1.5})
			m.Xx, m.Yy = f, f
		case 1: // a quarter turn
			m = pango.Matrix{Xx: 0, Xy: 1, Yx: -1, Yy: 0}
		case 2:
			m = pango.Matrix{Xx: 0.6, Xy: 0.8, Yx: -0.8, Yy: 0.6, X0: 5, Y0: 7}
		}
		q.matrix = &m
	}
	q.noCtx = q.matrix == nil && q.lang != "" && t.Bool()
	q.setOnly = t.Intn(3) > 0
	for k := t.Intn(4); k > 0; k-- {
		q.metricsL = append(q.metricsL, pbt.Pick(t, []pango.Language{"en", "ja", "el", "he", "ar", "ru", "fr", "", "sr", "sr", "uz", "az", "zh-cn", "de", "hy"}))
	}
	return q
}

func (q *fontRequest) language() pango.Language {
	if q.lang != "" && q.setOnly {
		return q.lang
	}
	return q.ctxLang
}

// query is the pattern of a request, before the substitutions
func (q *fontRequest) query() fc.Pattern {
	p := fc.NewPattern()
	d := q.desc
	for _, f := range strings.Split(d.FamilyName, ",") {
		if d.FamilyName != "" {
			p.AddString(fc.FAMILY, f)
		}
	}
	p.AddFloat(fc.WEIGHT, fc.WeightFromOT(float32(d.Weight)))
	p.AddInt(fc.SLANT, map[pango.Style]int32{pango.STYLE_NORMAL: 0, pango.STYLE_ITALIC: 100, pango.STYLE_OBLIQUE: 110}[d.Style])
	p.AddInt(fc.WIDTH, []int32{50, 63, 75, 87, 100, 113, 125, 150, 200}[d.Stretch])
	p.AddBool(fc.VERTICAL_LAYOUT, d.Gravity == pango.GRAVITY_EAST || d.Gravity == pango.GRAVITY_WEST)
	p.Add(fc.VARIABLE, fc.DontCare, true)
	p.AddFloat(fc.DPI, 96)
	px := q.pixels()
	p.AddFloat(fc.SIZE, float32(px)*(72./1024./96))
	p.AddFloat(fc.PIXEL_SIZE, float32(px)/1024)
	if d.Variations != "" {
		p.AddString(fc.FONT_VARIATIONS, d.Variations)
	}
	for _, f := range [][]string{pango.VARIANT_SMALL_CAPS: {"smcp"}, pango.VARIANT_ALL_SMALL_CAPS: {"smcp", "c2sc"}, pango.VARIANT_PETITE_CAPS: {"pcap"},
		pango.VARIANT_ALL_PETITE_CAPS: {"pcap", "c2pc"}, pango.VARIANT_UNICASE: {"unic"}, pango.VARIANT_TITLE_CAPS: {"titl"}}[d.Variant] {
		p.AddString(fc.FONT_FEATURES, f+"=1")
	}
	if l := q.language(); l != "" {
		p.AddString(fc.LANG, string(l))
	}
	return p
}

// pixels is the size on the device, in pango units
func (q *fontRequest) pixels() int {
	size := float64(q.desc.Size)
	if !q.desc.SizeIsAbsolute {
		size = size * 96 / 72
	}
	return int(math.Floor(size*float64(float32(q.scale())) + .5))
}

func (q *fontRequest) scale() float64 {
	if q.matrix == nil {
		return 1
	}
	m := q.matrix
	return math.Sqrt(math.Abs(float64(m.Xx)*float64(m.Yy) - float64(m.Xy)*float64(m.Yx))) // similarities
}

type fontWorld struct {
	config  *fc.Config
	cfgID   int
	db      fc.Fontset
	files   []*fileFace
	missing map[string]bool
	disk    bool // no loader
}

func genWorld(t *pbt.T) *fontWorld {
	w := &fontWorld{cfgID: t.Intn(len(fontConfigs)), missing: map[string]bool{}}
	w.config = fontConfig(w.cfgID)
	all := theFiles()
	if w.disk = t.Intn(5) == 0; w.disk {
		good, bad := diskFiles()
		for _, k := range t.Perm(len(good))[:t.Range(1, len(good))] {
			f := good[k]
			if len(w.files) > 0 && t.Intn(8) == 0 {
				f = bad[k]
				w.missing[f.file] = true
				t.Label("unusable files")
			}
			w.files = append(w.files, f)
			w.db = append(w.db, f.patterns...)
		}
		t.Label("files")
		return w
	}
	perm := t.Perm(len(all))
	for _, k := range perm[:t.Range(1, len(all))] {
		w.files = append(w.files, all[k])
		w.db = append(w.db, all[k].patterns...)
	}
	if len(w.files) > 1 && t.Intn(4) == 0 { // broken files
		for n := t.Range(1, 3); n > 0; n-- {
			w.missing[pbt.Pick(t, w.files[1:]).file] = true
		}
		t.Label("missing files")
	}
	return w
}

func (w *fontWorld) fontMap() *fcfonts.FontMap {
	fm := fcfonts.NewFontMap(w.config, w.db)
	if !w.disk {
		fm.SetFaceLoader(memLoader{w.missing})
	}
	return fm
}

// setTo gives the fonts and the configuration to a font map in use
func (w *fontWorld) setTo(fm *fcfonts.FontMap) {
	if w.disk {
		fm.SetFaceLoader(nil)
	} else {
		fm.SetFaceLoader(memLoader{w.missing})
	}
	fm.SetConfig(w.config, w.db)
}

func (w *fontWorld) names() (out []string) {
	for _, f := range w.files {
		s := f.file
		if f.disk {
			fam, _ := f.patterns[0].GetString(fc.FAMILY)
			s += " " + fam
		}
		if w.missing[s] {
			s += " (missing)"
		}
		out = append(out, s)
	}
	return out
}

// expected returns the patterns of the fonts for the request
func (w *fontWorld) expected(q *fontRequest) (out []fc.Pattern) {
	p := q.query()
	w.config.Substitute(p, nil, fc.MatchQuery)
	p.SubstituteDefault()
	sorted, _ := w.db.Sort(p.Duplicate(), true)
	for i, f := range sorted {
		r := w.config.PrepareRender(p, f)
		if i == 0 {
			r = w.db.Match(p.Duplicate(), w.config)
		}
		if !w.missing[r.FaceID().File] {
			out = append(out, r)
		}
	}
	return out
}

func fontsOf(fs pango.Fontset, max int) (out []*fcfonts.Font) {
	fs.Foreach(func(f pango.Font) bool {
		out = append(out, f.(*fcfonts.Font))
		return len(out) == max
	})
	return out
}

func withoutMatrix(p fc.Pattern) string {
	p = p.Duplicate()
	p.Del(fc.MATRIX)
	for o := fc.Object(fc.FirstCustomObject); o < fc.FirstCustomObject+8; o++ {
		p.Del(o) // the gravity: see checkFont
	}
	return sortedLines(p)
}

func sortedLines(p fc.Pattern) string {
	l := strings.Split(p.String(), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func runP21(t *pbt.T) {
	w := genWorld(t)
	var qs []*fontRequest
	n := t.Range(1, 4)
	for k := 0; k < n; k++ {
		q := genFontRequest(t)
		if k > 0 && t.Bool() { // nearly the same as before
			d := q.desc
			*q = *qs[t.Intn(k)]
			switch t.Intn(11) {
			case 0:
				q.lang = pbt.Pick(t, someLanguages)
			case 1:
				q.desc.SetWeight(d.Weight)
			case 2:
				q.desc.SetSize(d.Size)
			case 3:
				q.desc.SetVariations("wdth=60")
			case 4:
				q.desc.SetVariant(pango.Variant(t.Intn(7)))
			case 5:
				q.desc.SetStretch(pango.Stretch(t.Intn(9)))
			case 6:
				q.desc.SetStyle(pango.Style(t.Intn(3)))
			case 7:
				q.desc.SetGravity(pango.Gravity(t.Intn(4)))
			case 8:
				q.desc.SetFamily(d.FamilyName)
			case 9:
				if q.desc.SizeIsAbsolute {
					q.desc.SetSize(q.desc.Size)
				} else {
					q.desc.SetAbsoluteSize(q.desc.Size)
				}
			}
		}
		q.noCtx = q.noCtx && q.lang != ""
		qs = append(qs, q)
	}
	start := fmt.Sprintf("fonts %v, configuration %d", w.names(), w.cfgID)
	t.Describe(func() string {
		s := start
		for _, q := range qs {
			s += "\n  " + q.String()
		}
		return s
	})
	fm := w.fontMap()
	for k, q := range qs {
		if k > 0 && t.Intn(6) == 0 { // other fonts
			w2 := genWorld(t)
			*w = *w2
			fm.SetConfig(w.config, w.db)
			if w.disk {
				fm.SetFaceLoader(nil)
			} else {
				fm.SetFaceLoader(memLoader{w.missing})
			}
			t.Label("other configuration")
			t.Input("before %s: fonts %v, configuration %d", q, w.names(), w.cfgID)
		}
		want := w.expected(q)
		max := t.Range(1, pbt.Pick(t, []int{2, 4, 12}))
		got := q.load(t, fm, max)
		fresh := q.load(t, w.fontMap(), max)
		if !q.setOnly {
			max = 1
		}
		if max > len(want) {
			max = len(want)
		}
		if len(got) != max || len(fresh) != max {
			t.Fatalf("%s: %d fonts (%d from a fresh map), want %d of %d", q, len(got), len(fresh), max, len(want))
		}
		probe := t.Intn(max + 1)
		for i, f := range got {
			if g, e := withoutMatrix(f.Pattern), withoutMatrix(want[i]); g != e {
				t.Fatalf("%s: font %d is wrong: %s", q, i, diffLines(g, e))
			}
			checkFcMatrix(t, q, f, want[i])
			a, b := describeFont(f), describeFont(fresh[i])
			if a != b {
				t.Fatalf("%s: font %d, compared to a fresh map: %s", q, i, diffLines(a, b))
			}
			w.checkFont(t, q, fm, f)
			for _, lang := range q.metricsL {
				if i != probe {
					break
				}
				fm2 := w.fontMap()
				f2 := q.load(t, fm2, i+1)[i]
				m1, m2 := f.GetMetrics(lang), f2.GetMetrics(lang)
				if pango.SampleString(lang) == pango.SampleString("") {
					// the widths are the ones of the first language asked with this text
					m2.ApproximateCharWidth, m2.ApproximateDigitWidth = m1.ApproximateCharWidth, m1.ApproximateDigitWidth
				}
				if m1 != m2 {
					t.Fatalf("%s: font %d: metrics %v for %q, a fresh font has %v", q, i, m1, lang, m2)
				}
				if m := f.GetMetrics(lang); m != m1 {
					t.Fatalf("%s: font %d: metrics %v for %q, then %v", q, i, m1, lang, m)
				}
			}
		}
	}
	if len(qs) > 1 && len(w.files) > 2 {
		t.NonTrivial(fmt.Sprint(w.names(), qs[0]))
	}
}

func (q *fontRequest) load(t *pbt.T, fm *fcfonts.FontMap, max int) (out []*fcfonts.Font) {
	ctx := q.context(fm)
	t.NoPanic("load", func() {
		if q.setOnly {
			if q.noCtx {
				ctx = nil
			}
			fs := fm.LoadFontset(ctx, &q.desc, q.lang)
			if fs.GetLanguage() != q.language() {
				t.Fatalf("%s: language %q, want %q", q, fs.GetLanguage(), q.language())
			}
			out = fontsOf(fs, max)
		} else if f := pango.LoadFont(fm, ctx, &q.desc); f != nil {
			out = append(out, f.(*fcfonts.Font))
		}
	})
	return out
}

func describeFont(f *fcfonts.Font) string {
	hb := f.GetHarfbuzzFont()
	return fmt.Sprint(sortedLines(f.Pattern), "\n", showDesc(f.Describe(true)), showDesc(f.Describe(false)), hb.XScale, hb.YScale, hb.Ptem, f.FaceID(), f.GetFeatures())
}

func showDesc(d pango.FontDescription) string {
	return fmt.Sprintf("%q %d %d %d %d size %d %v gravity %d %q", d.FamilyName, d.Style, d.Variant, d.Weight, d.Stretch, d.Size, d.SizeIsAbsolute, d.Gravity, d.Variations)
}

// checkFcMatrix checks that the matrix of the font is the one of its pattern followed by the one of the context
func checkFcMatrix(t *pbt.T, q *fontRequest, f *fcfonts.Font, want fc.Pattern) {
	m := fc.Identity
	if q.matrix != nil {
		m = fc.Matrix{Xx: q.matrix.Xx, Xy: -q.matrix.Xy, Yx: -q.matrix.Yx, Yy: q.matrix.Yy}
	}
	if fm, ok := want.GetMatrix(fc.MATRIX); ok {
		m = fc.Matrix{Xx: m.Xx*fm.Xx + m.Xy*fm.Yx, Xy: m.Xx*fm.Xy + m.Xy*fm.Yy, Yx: m.Yx*fm.Xx + m.Yy*fm.Yx, Yy: m.Yx*fm.Xy + m.Yy*fm.Yy}
	}
	got, ok := f.Pattern.GetMatrix(fc.MATRIX)
	near := func(a, b float32) bool { return math.Abs(float64(a-b)) < 1e-4 }
	if !ok || !near(got.Xx, m.Xx) || !near(got.Xy, m.Xy) || !near(got.Yx, m.Yx) || !near(got.Yy, m.Yy) {
		t.Fatalf("%s: matrix %v, want %v", q, got, m)
	}
}

// axesOf parses the settings of the axes
func axesOf(variations string) map[string]float32 {
	out := map[string]float32{}
	for _, s := range strings.Split(variations, ",") {
		if v, err := harfbuzz.ParseVariation(s); err == nil {
			out[v.Tag.String()] = v.Value
		}
	}
	return out
}

func (w *fontWorld) checkFont(t *pbt.T, q *fontRequest, fm *fcfonts.FontMap, f *fcfonts.Font) {
	var file *fileFace
	for _, x := range w.files {
		if s, _ := f.Pattern.GetString(fc.FILE); s == x.file {
			file = x
		}
	}
	if file == nil || f.FaceID().File != file.file {
		t.Fatalf("%s: font %v", q, f.FaceID())
	}
	s := file.s
	// description
	d := f.Describe(false)
	fam, _ := f.Pattern.GetString(fc.FAMILY)
	wt, _ := f.Pattern.GetFloat(fc.WEIGHT)
	if d.FamilyName != fam || d.Weight != pango.Weight(fc.WeightToOT(wt)) {
		t.Fatalf("%s: description %s for %s", q, showDesc(d), f.Pattern)
	}
	slant, _ := f.Pattern.GetInt(fc.SLANT)
	if st := map[int32]pango.Style{0: pango.STYLE_NORMAL, 100: pango.STYLE_ITALIC, 110: pango.STYLE_OBLIQUE}[slant]; d.Style != st {
		t.Fatalf("%s: style %d for the slant %d", q, d.Style, slant)
	}
	if wd, ok := f.Pattern.GetFloat(fc.WIDTH); ok {
		for k, v := range []float32{50, 63, 75, 87, 100, 113, 125, 150, 200} {
			if v == wd && d.Stretch != pango.Stretch(k) {
				t.Fatalf("%s: stretch %d for the width %f", q, d.Stretch, wd)
			}
		}
	}
	if d.Variant != q.desc.Variant && q.desc.Variant != pango.VARIANT_NORMAL {
		t.Fatalf("%s: variant %d", q, d.Variant)
	}
	if d.Gravity != q.desc.Gravity {
		t.Fatalf("%s: gravity %d", q, d.Gravity)
	}
	px, _ := f.Pattern.GetFloat(fc.PIXEL_SIZE)
	size, _ := f.Pattern.GetFloat(fc.SIZE)
	if abs := f.Describe(true); !abs.SizeIsAbsolute || math.Abs(float64(abs.Size)-float64(px)*pango.Scale) > 1 {
		t.Fatalf("%s: absolute size %d for %f pixels", q, abs.Size, px)
	}
	if q.matrix == nil && (d.SizeIsAbsolute || math.Abs(float64(d.Size)-float64(size)*pango.Scale) > 1) {
		t.Fatalf("%s: size %d for %f points", q, d.Size, size)
	}
	pv, _ := f.Pattern.GetString(fc.FONT_VARIATIONS)
	if got, want := axesOf(d.Variations), axesOf(pv); fmt.Sprint(got) != fmt.Sprint(want) || len(strings.Split(d.Variations, ",")) > len(got)+1 {
		t.Fatalf("%s: variations %q, for %q", q, d.Variations, pv)
	}
	// the font of the description is the same
	if w.cfgID < 2 && q.matrix == nil {
		again, ok := pango.LoadFont(fm, q.context(fm), &d).(*fcfonts.Font)
		if !ok || again.FaceID() != f.FaceID() {
			t.Fatalf("%s: the description %s of %v selects %v", q, showDesc(d), f.FaceID(), again)
		}
		if g := again.Describe(false); fmt.Sprint(axesOf(g.Variations)) != fmt.Sprint(axesOf(d.Variations)) || math.Abs(float64(g.Size-d.Size)) > 2 ||
			g.Weight != d.Weight || g.Style != d.Style || g.Stretch != d.Stretch || g.Variant != d.Variant || g.FamilyName != d.FamilyName {
			t.Fatalf("%s: the description %s selects a font described by %s", q, showDesc(d), showDesc(g))
		}
	}
	// features
	var feats []string
	for _, x := range f.GetFeatures() {
		feats = append(feats, fmt.Sprintf("%s=%d", x.Tag, x.Value))
		if x.Start != 0 || x.End != harfbuzz.FeatureGlobalEnd {
			t.Fatalf("%s: feature %v", q, x)
		}
	}
	if l := f.Pattern.GetStrings(fc.FONT_FEATURES); fmt.Sprint(feats) != fmt.Sprint(l) {
		t.Fatalf("%s: features %v, want %v", q, feats, l)
	}
	// coverage
	cov := f.GetCoverage("")
	for _, r := range []rune{0, ' ', 'a', 'z', '~', 0x7f, 0xa0, 0xff, 0x370, 0x3b1, 0x45f, 0x460, 0x5d0, 0x6ff, 0x3042, 0x4e00, 0x4e80, 0x4e81, 0x1f600, 0x1f60f, 0x10ffff, rune(t.Intn(0x3100))} {
		if cov.Get(r) != (file.gids[r] != 0) {
			t.Fatalf("%s: %s covers U+%04X: %v", q, file.file, r, cov.Get(r))
		}
	}
	if q.desc.Gravity != pango.GRAVITY_SOUTH { // rotated
		return
	}
	// scale: the size in the coordinates of the user
	hb := f.GetHarfbuzzFont()
	scale := float64(px) * pango.Scale / q.scale()
	if math.Abs(float64(hb.YScale)-scale) > 2+scale/1e5 || math.Abs(float64(hb.XScale)-scale) > 2+scale/1e5 {
		t.Fatalf("%s: scale %d, %d, want %f", q, hb.XScale, hb.YScale, scale)
	}
	if ok := hb.Face() == file.face; file.disk {
		if tt, isTT := hb.Face().(*truetype.Font); !isTT || tt.NumGlyphs != len(s.Advances) || int(tt.Upem()) != s.UPM {
			t.Fatalf("%s: wrong face for %s", q, file.file)
		}
	} else if !ok {
		t.Fatalf("%s: wrong face for %s", q, file.file)
	}
	// glyphs
	em := func(v int) float64 { return float64(v) * float64(hb.YScale) / float64(s.UPM) }
	close := func(a pango.Unit, b float64) bool { return math.Abs(float64(a)-b) <= 2 }
	asc, desc := em(s.Ascent), -em(s.Descent)
	for k := 0; k < 4; k++ {
		gid := t.Intn(len(s.Advances))
		ink, logical := rect{X: 7, Y: 7, Width: 7, Height: 7}, rect{X: 8, Y: 8, Width: 8, Height: 8}
		f.GlyphExtents(pango.Glyph(gid), &ink, &logical)
		if logical.X != 0 || !close(logical.Width, em(s.Advances[gid])) || !close(logical.Y, -asc) || !close(logical.Height, asc+desc) {
			t.Fatalf("%s: glyph %d of %s: logical %v, want %f %f %f", q, gid, file.file, logical, em(s.Advances[gid]), -asc, asc+desc)
		}
		var b sfnt.Box
		if s.Boxes[gid] != nil {
			b = *s.Boxes[gid]
		}
		if len(s.Axes) == 0 && (!close(ink.X, em(b.XMin)) || !close(ink.Width, em(b.XMax-b.XMin)) || !close(ink.Y, -em(b.YMax)) || !close(ink.Height, em(b.YMax-b.YMin))) {
			t.Fatalf("%s: glyph %d of %s: ink %v, want %v at %f", q, gid, file.file, ink, b, em(1))
		}
		var ink2, logical2 rect
		f.GlyphExtents(pango.Glyph(gid), &ink2, nil)
		f.GlyphExtents(pango.Glyph(gid), nil, &logical2)
		if ink != ink2 || logical != logical2 {
			t.Fatalf("%s: glyph %d: other extents the second time", q, gid)
		}
	}
	ink, logical := rect{X: 7, Y: 7, Width: 7, Height: 7}, rect{X: 8, Y: 8, Width: 8, Height: 8}
	f.GlyphExtents(pango.GLYPH_EMPTY, &ink, &logical)
	if ink != (rect{}) || logical.Width != 0 || !close(logical.Height, asc+desc) {
		t.Fatalf("%s: extents of the empty glyph: %v %v", q, ink, logical)
	}
	// metrics
	var m pango.FontMetrics
	t.NoPanic("GetMetrics", func() { m = f.GetMetrics(q.ctxLang) })
	if !close(m.Ascent, asc) || !close(m.Descent, desc) || !close(m.Height, asc+desc+em(s.LineGap)) {
		t.Fatalf("%s: metrics %+v of %s, want %f %f %f", q, m, file.file, asc, desc, asc+desc+em(s.LineGap))
	}
	if !close(m.UnderlinePosition, em(s.UnderlinePos)) || !close(m.UnderlineThickness, em(s.UnderlineThick)) {
		t.Fatalf("%s: underline %d %d of %s, want %f %f", q, m.UnderlinePosition, m.UnderlineThickness, file.file, em(s.UnderlinePos), em(s.UnderlineThick))
	}
	if !close(m.StrikethroughPosition, em(s.OS2.StrikePos)) || !close(m.StrikethroughThickness, em(s.OS2.StrikeSize)) {
		t.Fatalf("%s: strikethrough %d %d of %s, want %f %f", q, m.StrikethroughPosition, m.StrikethroughThickness, file.file, em(s.OS2.StrikePos), em(s.OS2.StrikeSize))
	}
	if t.Intn(3) == 0 {
		w.checkApproximate(t, q, f, file, em)
	}
	ink, logical = rect{X: 7, Y: 7, Width: 7, Height: 7}, rect{X: 8, Y: 8, Width: 8, Height: 8}
	f.GlyphExtents(pango.AsUnknownGlyph('x'), &ink, &logical)
	if un := pango.FontGetMetrics(f, ""); logical != (rect{Y: -un.Ascent, Height: un.Ascent + un.Descent, Width: un.ApproximateCharWidth}) {
		t.Fatalf("%s: extents of an unknown glyph %v, metrics %+v", q, logical, un)
	}
	if ink.X < logical.X || ink.Y < logical.Y || ink.X+ink.Width > logical.X+logical.Width || ink.Y+ink.Height > logical.Y+logical.Height {
		t.Fatalf("%s: the box of an unknown glyph %v is outside of %v", q, ink, logical)
	}
	if q.matrix != nil {
		t.Label("matrix")
	}
}

// checkApproximate checks the widths of the metrics, when the font has all the characters
func (w *fontWorld) checkApproximate(t *pbt.T, q *fontRequest, f *fcfonts.Font, file *fileFace, em func(int) float64) {
	for _, x := range f.Pattern.GetMatrices(fc.MATRIX) {
		if x != fc.Identity {
			return
		}
	}
	if len(file.s.Axes) > 0 || q.desc.Variant != pango.VARIANT_NORMAL {
		return
	}
	// the widths are the ones of the first language asked with a text: use a fresh map
	fm := w.fontMap()
	ctx := pango.NewContext(fm)
	ctx.SetLanguage(q.ctxLang)
	d := f.Describe(true)
	l := fontsOf(fm.LoadFontset(ctx, &d, q.ctxLang), 1)
	if len(l) == 0 || l[0].FaceID() != f.FaceID() {
		return
	}
	m := l[0].GetMetrics(q.ctxLang)
	all := func(text string) bool {
		for _, r := range text {
			if file.gids[r] == 0 {
				return false
			}
		}
		return true
	}
	sum, max, cells, n := 0., 0., 0, 0
	sample := pango.SampleString(q.ctxLang)
	for _, r := range sample {
		sum += em(file.s.Advances[file.gids[r]])
		n++
		cells++
		if e := ucd.Get("East_Asian_Width", r); e == "W" || e == "F" {
			cells++
		}
	}
	for _, r := range "0123456789" {
		max = math.Max(max, em(file.s.Advances[file.gids[r]]))
	}
	near := func(a pango.Unit, b float64) bool { return math.Abs(float64(a)-b) <= pango.Scale } // positions are rounded
	if all(sample) {
		t.Label("sample of the language")
		if !near(m.ApproximateCharWidth, sum/float64(n)) && !near(m.ApproximateCharWidth, sum/float64(cells)) {
			t.Fatalf("%s: approximate width %d of the characters of %q, want %f or %f", q, m.ApproximateCharWidth, sample, sum/float64(n), sum/float64(cells))
		}
	}
	if all("0123456789") && !near(m.ApproximateDigitWidth, max) {
		t.Fatalf("%s: approximate width %d of the digits, want %f", q, m.ApproximateDigitWidth, max)
	}
}

// runP21Layout checks that each character uses the first font which has it
func runP21Layout(t *pbt.T) {
	w := genWorld(t)
	q := genFontRequest(t)
	q.desc.SetVariant(pango.VARIANT_NORMAL)
	if q.setOnly = true; q.desc.FamilyName == "" {
		q.desc.SetFamily("serif") // the one of the context
	}
	var text []rune
	for n := 1 + t.Size(12); n > 0; n-- {
		text = append(text, pbt.Pick(t, []rune("abzXéïαΩжЯאתابわ亜一")))
	}
	t.Input("fonts %v, configuration %d, %s, text %q", w.names(), w.cfgID, q, string(text))
	fm := w.fontMap()
	ctx := q.context(fm)
	layout := pango.NewLayout(ctx)
	layout.SetFontDescription(&q.desc)
	layout.SetText(string(text))
	var logical rect
	t.NoPanic("layout", func() { layout.GetExtents(nil, &logical) })
	files := layoutFonts(t, w, q, layout, text)
	if t.Intn(3) == 0 {
		// another configuration, for the same font map
		w = genWorld(t)
		t.Input("then fonts %v, configuration %d", w.names(), w.cfgID)
		t.Label("other configuration")
		w.setTo(fm)
		t.NoPanic("layout", func() { layout.GetExtents(nil, &logical) })
		for k := range layoutFonts(t, w, q, layout, text) {
			files[k] = true
		}
	}
	if len(files) > 1 {
		t.NonTrivial(fmt.Sprint(w.names(), string(text)))
	}
}

// layoutFonts checks the font of every glyph of the layout
func layoutFonts(t *pbt.T, w *fontWorld, q *fontRequest, layout *pango.Layout, text []rune) map[string]bool {
	files := map[string]bool{}
	for _, line := range layout.GetLinesReadonly() {
		for _, r := range runsOf(line) {
			q2 := *q
			q2.lang = r.Item.Analysis.Language
			fonts := w.expected(&q2)
			for k, g := range r.Glyphs.Glyphs {
				char := text[r.Item.Offset+r.Glyphs.LogClusters[k]]
				var want string
				for _, p := range fonts {
					for _, x := range w.files {
						if p.FaceID().File == x.file && want == "" && x.gids[char] != 0 {
							want = x.file
						}
					}
				}
				got := "none"
				if f, ok := r.Item.Analysis.Font.(*fcfonts.Font); ok {
					got = f.FaceID().File
				}
				unknown := g.Glyph&pango.GLYPH_UNKNOWN_FLAG != 0
				if want == "" {
					if !(unknown || g.Glyph == 0) || (got == "none") != (len(fonts) == 0) {
						t.Fatalf("no font has %q, shaped to %x with %s", char, g.Glyph, got)
					}
					t.Label("unknown character")
				} else if unknown || got != want {
					t.Fatalf("%q is shaped to %x with %s instead of %s", char, g.Glyph, got, want)
				} else if files[want] = true; int(g.Glyph) != gidIn(w, want, char) {
					t.Fatalf("%q is shaped to %x", char, g.Glyph)
				}
			}
		}
	}
	return files
}

// runContextMetrics checks the metrics of a context: the lines of the first font, but for
// the extents, which are enough for all the fonts of the sample text of the language
func runContextMetrics(t *pbt.T) {
	fm := newFontMap(theFaces()...)
	ctx := pango.NewContext(fm)
	desc := genContextDesc(t)
	desc.SetVariant(pango.VARIANT_NORMAL) // the small capitals are not measured
	lang := pbt.Pick(t, []pango.Language{"en", "ja", "he", "ar", "el", "ru", "hi", "th", "zh-cn", "ko", "fr", "vi", "sr", "xx", "my", "ta", "yi"})
	arg, argLang := &desc, lang
	if t.Intn(3) == 0 {
		ctx.SetFontDescription(desc)
		arg = nil
	}
	if t.Intn(3) == 0 {
		ctx.SetLanguage(lang)
		argLang = ""
	}
	t.Input("%s language %q, set on the context: %v, %v", showDesc(desc), lang, arg == nil, argLang == "")
	var m pango.FontMetrics
	t.NoPanic("GetMetrics", func() { m = ctx.GetMetrics(arg, argLang) })

	ref := pango.NewContext(fm)
	ref.SetFontDescription(desc)
	if argLang == "" {
		ref.SetLanguage(lang)
	}
	sample := []rune(pango.SampleString(lang))
	var first *font
	if fs := fm.LoadFontset(ref, &desc, lang); fs != nil {
		fs.Foreach(func(f pango.Font) bool {
			first = f.(*font)
			return true
		})
	}
	items := ref.Itemize(sample, 0, len(sample), nil)
	var width pango.Unit
	seen := map[*font]bool{}
	if first == nil {
		t.Label("no font")
		return
	}
	want := first.metrics()
	for it := items; it != nil; it = it.Next {
		if f, ok := it.Data.Analysis.Font.(*font); ok {
			seen[f] = true
			x := f.metrics()
			want.Ascent, want.Descent, want.Height = maxU(want.Ascent, x.Ascent), maxU(want.Descent, x.Descent), maxU(want.Height, x.Height)
		}
		var gs pango.GlyphString
		gs.ShapeRange(sample, it.Data.Offset, it.Data.Length, &it.Data.Analysis)
		for _, g := range gs.Glyphs {
			width += g.Geometry.Width
		}
	}
	cells := pango.Unit(0)
	for _, r := range sample {
		switch c := gcOf(r); {
		case c == "Mn" || c == "Me" || c == "Cf" || between(r, 0x1160, 0x11ff):
			continue
		}
		cells++
		if e := ucd.Get("East_Asian_Width", r); e == "W" || e == "F" {
			cells++
		}
	}
	want.ApproximateCharWidth = width / cells
	if m != want {
		t.Fatalf("metrics %+v, want %+v", m, want)
	}
	if len(seen) > 1 {
		t.NonTrivial(fmt.Sprint(showDesc(desc), lang))
		t.Label("several fonts in the sample")
	}
}

func maxU(a, b pango.Unit) pango.Unit {
	if a > b {
		return a
	}
	return b
}

func gidIn(w *fontWorld, file string, r rune) int {
	for _, x := range w.files {
		if x.file == file {
			return x.gids[r]
		}
	}
	return -1
}

func init() { log.SetOutput(io.Discard); _ = os.Stderr }

var propP21 = &pbt.Prop{
	ID: "P21", Quick: 1000, Thorough: 30000,
	Rule: "histories of requests to a font map over generated font files; non trivial: at least two requests and three fonts",
	Checks: []pbt.Check{
		{Name: "history", Weight: 2, Run: runP21},
		{Name: "layout", Weight: 1, Run: runP21Layout},
		{Name: "context metrics", Weight: 2, Run: runContextMetrics},
	},
}

// diffLines shows the lines which are in only one of the strings
func diffLines(got, want string) string {
	a, b := strings.Split(got, "\n"), strings.Split(want, "\n")
	minus := func(a, b []string) (out []string) {
		in := map[string]bool{}
		for _, l := range b {
			in[l] = true
		}
		for _, l := range a {
			if !in[l] {
				out = append(out, l)
			}
		}
		return out
	}
	return fmt.Sprintf("got %q instead of %q", minus(a, b), minus(b, a))
}
