package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"verifh/pbt"
	"verifh/sfnt"
)

// ------------------------------------------------------------------ names

type fname struct {
	plat, enc, lang, id int
	value               string // expected text
	tag                 string // expected language
}

var msLangs = []struct {
	id  int
	tag string
}{{0x409, "en"}, {0x809, "en"}, {0x40c, "fr"}, {0x407, "de"}, {0x411, "ja"}, {0x412, "ko"}, {0x804, "zh-cn"}, {0x404, "zh-tw"}, {0x419, "ru"}, {0x408, "el"}, {0xc0a, "es"}}

var macLangs = []struct {
	id  int
	tag string
}{{0, "en"}, {1, "fr"}, {2, "de"}, {3, "it"}, {14, "el"}, {32, "ru"}}

var (
	asciiWords = []string{"Foo", "Bar", "foo", "Foo Bar", "Neue Schrift", "Big Ben", "F(o)o", "A/B", "Fo o", "X"}
	styleWords = []string{"Regular", "Bold", "Light Italic", "Ultra", "Foo Ultra", "Ultrafine", "Extra Bold", "Semi Condensed Oblique", "SemiCondensed",
		"Kursiv", "Book", "Caps", "Shadow Heavy", "Demi", "Normal", "expanded", "Super-Black", "Black", "regular", "Roman", "Thin", "Ultra-Thin", "ultra2", "Medium Extended", "Antiqua", "Old.Ultra"}
	noticeWords = []string{"Copyright Adobe", "by Monotype and URW", "Bigelow & Holmes", "nobody", "LINOTYPE-HELL", "IBM Corp", "(c) Tiro Typeworks", "Microsoft and Monotype"}
)

func enc16(s string) []byte { return sfnt.UTF16(s) }

func encWith(e encoding.Encoding, s string) []byte {
	b, err := e.NewEncoder().Bytes([]byte(s))
	if err != nil {
		panic(err)
	}
	return b
}

// genName draws the encoding of a name and its text
func genName(t *pbt.T, id int, words []string) (fname, []byte) {
	n := fname{id: id, value: pbt.Pick(t, words)}
	if t.Chance(1, 8) {
		n.value = pbt.Pick(t, []string{" ", "\t", "\n "}) + n.value + pbt.Pick(t, []string{"", " ", "  "})
	}
	ms := func() {
		n.plat = 3
		l := pbt.Pick(t, msLangs)
		n.lang, n.tag = l.id, l.tag
	}
	switch t.Weighted(10, 4, 2, 2, 2, 1, 1, 1, 1, 1, 1) {
	case 0: // Microsoft, unicode
		ms()
		n.enc = pbt.Pick(t, []int{1, 1, 1, 10, 0})
		if t.Chance(1, 4) {
			n.value += pbt.Pick(t, []string{"é", "Ж", "Ω", "名", "😀", "ß"})
		}
		return n, enc16(n.value)
	case 1: // Macintosh
		n.plat = 1
		l := pbt.Pick(t, macLangs)
		n.lang, n.tag = l.id, l.tag
		if t.Chance(1, 4) && len(n.value) >= 3 {
			n.value += "é"
		}
		return n, encWith(charmap.Macintosh, n.value)
	case 2: // Unicode
		n.plat, n.enc, n.lang = 0, pbt.Pick(t, []int{3, 4, 0}), 0
		return n, enc16(n.value + "")
	case 3: // ISO
		n.plat, n.enc, n.lang = 2, t.Intn(3), 0
		if n.enc == 1 {
			return n, enc16(n.value)
		}
		if n.enc == 2 && t.Bool() {
			n.value += "é"
		}
		return n, encWith(charmap.ISO8859_1, n.value)
	case 4: // Japanese in the roman encoding of the Macintosh
		n.plat, n.enc, n.lang, n.tag = 1, 0, 0, "ja"
		n.value = pbt.Pick(t, []string{"ゴシック", "明朝", "平成角ゴシック"})
		return n, encWith(japanese.ShiftJIS, n.value)
	case 5:
		n.plat, n.enc, n.lang, n.tag = 1, 1, 11, "ja"
		n.value = pbt.Pick(t, []string{"ゴシック", "明朝", "Foo明朝"})
		return n, encWith(japanese.ShiftJIS, n.value)
	case 6:
		n.plat, n.enc, n.lang, n.tag = 3, 2, 0x411, "ja"
		n.value = pbt.Pick(t, []string{"ゴシック", "明朝", n.value})
		return n, encWith(japanese.ShiftJIS, n.value)
	case 7: // PRC: the encoding is the EUC one
		n.plat, n.enc, n.lang, n.tag = 3, 3, 0x804, "zh-cn"
		n.value = pbt.Pick(t, []string{"宋体", "黑体", n.value})
		return n, encWith(simplifiedchinese.GBK, n.value)
	case 8:
		n.plat, n.enc, n.lang, n.tag = 3, 4, 0x404, "zh-tw"
		n.value = pbt.Pick(t, []string{"宋體", "黑體", n.value})
		return n, encWith(traditionalchinese.Big5, n.value)
	case 9:
		n.plat, n.enc, n.lang, n.tag = 3, 5, 0x412, "ko"
		n.value = pbt.Pick(t, []string{"굴림", "돋움", n.value})
		return n, encWith(korean.EUCKR, n.value)
	default: // unsupported encoding: raw bytes
		ms()
		n.enc = 6
		return n, []byte(n.value)
	}
}

// ------------------------------------------------------------------ fonts

type faceModel struct {
	f     *sfnt.Font
	names []fname
	best  *sfnt.Cmap // nil: no usable mapping
	sym   bool
}

var cmapOrder = [][2]int{{3, 0}, {3, 10}, {0, 6}, {0, 4}, {3, 1}, {0, 3}, {0, 2}, {0, 1}, {0, 0}}

var cmapPools = [][2]rune{{0x20, 0x7E}, {0x41, 0x5A}, {0xA0, 0x17F}, {0x370, 0x3FF}, {0x400, 0x45F}, {0x5D0, 0x5EA}, {0xF000, 0xF0FF}, {0xFF, 0x101}, {0xFFF0, 0xFFFF}, {0x10000, 0x10010}, {0x1F600, 0x1F610}, {0x10FFF0, 0x10FFFF}, {0, 0x1F}}

func genCmap(t *pbt.T, plat, enc, format, nGlyphs int) sfnt.Cmap {
	c := sfnt.Cmap{Platform: plat, Encoding: enc, Format: format, Map: map[rune]int{}}
	max := rune(0xFFFF)
	if format >= 10 {
		max = 0x10FFFF
	}
	if format == 0 {
		max = 0x7F // the upper half is in the encoding of the Macintosh
	}
	add := func(r rune, g int) {
		if r <= max {
			c.Map[r] = g
		}
	}
	single := format == 6 || format == 10 // one contiguous array
	for n := 1 + t.Size(5); n > 0; n-- {
		p := pbt.Pick(t, cmapPools)
		if max == 0x7F {
			p = [2]rune{0, 0x7F}
		}
		lo := p[0] + rune(t.Intn(int(p[1]-p[0])+1))
		k := rune(t.Size(20))
		if t.Chance(1, 4) {
			lo, k = p[0], p[1]-p[0]
		}
		g := t.Intn(nGlyphs)
		step := t.Intn(3)
		for r := lo; r <= lo+k && r <= p[1]; r++ {
			add(r, g)
			switch step {
			case 1:
				g = (g + 1) % nGlyphs
			case 2:
				g = t.Intn(nGlyphs)
			}
		}
		if single {
			break
		}
	}
	if format == 0 || len(c.Map) == 0 {
		add(0x41, nGlyphs-1)
	}
	return c
}

func genFace(t *pbt.T) *faceModel {
	m := &faceModel{}
	n := 2 + t.Intn(7)
	f := &sfnt.Font{UPM: pbt.Pick(t, []int{1000, 2048, 16, 16384}), Revision: uint32(t.Intn(1 << 18)), MacStyle: t.Intn(4), Ascent: 800, Descent: -200}
	m.f = f
	for i := 0; i < n; i++ {
		f.Advances = append(f.Advances, pbt.Pick(t, []int{500, 500, 500, 0, 1000, 510, 505, 600, 1020, 980, 30000}))
	}
	if t.Chance(1, 3) { // monospace
		for i := range f.Advances {
			f.Advances[i] = pbt.Pick(t, []int{600, 600, 0, 601})
		}
	}
	if t.Chance(3, 4) {
		f.Boxes = make([]*sfnt.Box, n)
		for i := range f.Boxes {
			if t.Bool() {
				f.Boxes[i] = &sfnt.Box{XMin: 10, YMin: 0, XMax: 400, YMax: 700}
			}
		}
	}
	f.Hint = t.Bool()
	if t.Chance(1, 8) {
		f.Extra = map[string][]byte{"COLR": {0, 0}}
	}

	// mappings
	keys := [][2]int{{3, 1}, {3, 10}, {0, 3}, {0, 4}, {0, 6}, {3, 0}, {1, 0}, {0, 0}, {0, 1}, {0, 2}}
	weights := []int{8, 4, 2, 2, 1, 2, 3, 1, 1, 1}
	seen := map[[2]int]bool{}
	for k := 1 + t.Size(3); k > 0; k-- {
		id := keys[t.Weighted(weights...)]
		if seen[id] {
			continue
		}
		seen[id] = true
		format := pbt.Pick(t, []int{4, 4, 6})
		switch id {
		case [2]int{3, 10}, [2]int{0, 6}, [2]int{0, 4}:
			format = pbt.Pick(t, []int{12, 12, 13, 10, 4})
		case [2]int{1, 0}:
			format = pbt.Pick(t, []int{0, 6})
		case [2]int{3, 0}:
			format = 4
		}
		f.Cmaps = append(f.Cmaps, genCmap(t, id[0], id[1], format, n))
	}
	for _, id := range cmapOrder {
		for i, c := range f.Cmaps {
			if m.best == nil && c.Platform == id[0] && c.Encoding == id[1] {
				m.best = &f.Cmaps[i]
				m.sym = id == [2]int{3, 0}
			}
		}
	}

	// names
	if t.Chance(9, 10) {
		f.Names = []sfnt.Name{}
		type key struct{ p, e, l, i int }
		used := map[key]bool{}
		var raw [][]byte
		add := func(id int, words []string) {
			n, b := genName(t, id, words)
			if used[key{n.plat, n.enc, n.lang, id}] {
				return
			}
			used[key{n.plat, n.enc, n.lang, id}] = true
			m.names = append(m.names, n)
			raw = append(raw, b)
		}
		for k := 1 + t.Size(8); k > 0; k-- {
			switch t.Weighted(6, 2, 1, 4, 1, 1, 2, 1, 1, 1) {
			case 0:
				add(1, asciiWords)
			case 1:
				add(16, asciiWords)
			case 2:
				add(21, asciiWords)
			case 3:
				add(2, styleWords)
			case 4:
				add(17, styleWords)
			case 5:
				add(22, styleWords)
			case 6:
				add(pbt.Pick(t, []int{4, 18}), asciiWords)
			case 7:
				add(pbt.Pick(t, []int{7, 8}), noticeWords)
			case 8: // not used
				add(pbt.Pick(t, []int{0, 3, 5, 9, 11}), noticeWords)
			case 9: // PostScript
				v := pbt.Pick(t, []string{"Foo-Bar", "PSName", "X"})
				n := fname{plat: 3, enc: 1, lang: pbt.Pick(t, []int{0x409, 0x40c}), id: 6, value: v}
				b := enc16(v)
				if t.Chance(1, 3) {
					n.plat, n.enc, n.lang = 1, 0, 0
					b = []byte(v)
				}
				if k := (key{n.plat, n.enc, n.lang, 6}); !used[k] {
					used[k] = true
					m.names = append(m.names, n)
					raw = append(raw, b)
				}
			}
		}
		// instance names
		if t.Chance(1, 5) {
			for k := 1 + t.Intn(3); k > 0; k-- {
				add(300+k, styleWords)
			}
		}
		for i, n := range m.names {
			f.Names = append(f.Names, sfnt.Name{Platform: n.plat, Encoding: n.enc, Language: n.lang, ID: n.id, Value: raw[i]})
		}
	}

	if t.Chance(3, 4) {
		f.OS2 = &sfnt.OS2{
			Version: pbt.Pick(t, []int{0, 1, 2, 3, 4, 4, 5, 5}), Weight: pbt.Pick(t, []int{400, 700, 100, 0, 1000, 450, 900, 2000, 350, 5}), Width: 1 + t.Intn(9),
			VendID: pbt.Pick(t, []string{"ABCD", "ab", "", "X   "}), FsSelection: pbt.Pick(t, []int{0, 1, 32, 33, 512, 64, 256}),
		}
		if t.Chance(1, 8) {
			f.OS2.Width = pbt.Pick(t, []int{0, 10, 500})
		}
		if t.Chance(1, 3) {
			f.OS2.CodePage1 = uint32(t.Intn(16)) << 17
		}
		f.OS2.Lower = pbt.Pick(t, []int{0, 160, 20, 0xFFFE})
		f.OS2.Upper = f.OS2.Lower
		if t.Bool() {
			f.OS2.Upper = min(0xFFFF, f.OS2.Lower+t.Intn(400))
		}
	}
	tags := []string{"latn", "DFLT", "arab", "grek", "cyrl", "nko ", "a-b ", "math"}
	subset := func() []string {
		out := []string{}
		for _, s := range tags {
			if t.Chance(1, 3) {
				out = append(out, s)
			}
		}
		return out
	}
	if t.Chance(1, 3) {
		f.GSUB = subset()
	}
	if t.Chance(1, 3) {
		f.GPOS = subset()
	}
	return m
}

// genVariable adds axis and named instances
func (m *faceModel) genVariable(t *pbt.T) {
	f := m.f
	for _, tag := range []string{"wght", "wdth", "opsz", "slnt"} {
		if !t.Chance(1, 2) {
			continue
		}
		lims := pbt.Pick(t, [][3]float64{{100, 400, 900}, {400, 400, 700}, {50, 100, 150}, {100, 100, 100}, {500, 400, 900}, {8, 12, 72}, {0, 0, 10}, {1, 2, 4}})
		if tag == "slnt" {
			lims = [3]float64{-10, 0, 0}
		}
		f.Axes = append(f.Axes, sfnt.Axis{Tag: tag, Min: lims[0], Def: lims[1], Max: lims[2]})
	}
	if len(f.Axes) == 0 {
		return
	}
	if f.OS2 != nil && (f.OS2.Width < 1 || f.OS2.Width > 9) {
		f.OS2.Width = 5
	}
	if f.OS2 != nil && f.OS2.Version == 5 {
		f.OS2.Version = 4
	}
	if f.Boxes == nil { // the advances of an instance are read from the outlines
		f.Boxes = make([]*sfnt.Box, len(f.Advances))
	}
	if f.Names == nil {
		return
	}
	ps := -1
	if t.Bool() {
		ps = 6
	}
	for k := t.Size(4); k > 0; k-- {
		id := 302 + k
		n := fname{plat: 3, enc: 1, lang: 0x409, tag: "en", id: id, value: pbt.Pick(t, styleWords)}
		m.names = append(m.names, n)
		f.Names = append(f.Names, sfnt.Name{Platform: 3, Encoding: 1, Language: 0x409, ID: id, Value: enc16(n.value)})
		in := sfnt.Instance{Subfamily: id, PSName: ps}
		for _, a := range f.Axes {
			in.Coords = append(in.Coords, pbt.Pick(t, []float64{a.Def, a.Min, a.Max, a.Def}))
		}
		f.Instances = append(f.Instances, in)
	}
}

// ------------------------------------------------------------------ reference

func blankCase(s string) string { return strings.ReplaceAll(strings.ToLower(s), " ", "") }

func isEnglishName(n fname) bool {
	return n.plat == 1 && n.lang == 0 || n.plat == 3 && n.lang == 0x409
}

// names of one id, in the order in which they are used
func (m *faceModel) sorted(plat, id int) []fname {
	var l []fname
	for _, n := range m.names {
		if n.plat == plat && n.id == id {
			l = append(l, n)
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.enc != b.enc {
			return a.enc < b.enc
		}
		if isEnglishName(a) != isEnglishName(b) {
			return isEnglishName(a)
		}
		return a.lang < b.lang
	})
	return l
}

var foundries = [][2]string{{"Adobe", "adobe"}, {"Bigelow", "b&h"}, {"IBM", "ibm"}, {"LINOTYPE-HELL", "linotype"}, {"Microsoft", "microsoft"}, {"Monotype", "monotype"}, {"Tiro Typeworks", "tiro"}, {"URW", "urw"}}

type wordConst struct {
	name string
	v    float32
}

var weightWords = []wordConst{{"thin", 0}, {"extralight", 40}, {"ultralight", 40}, {"demilight", 55}, {"semilight", 55}, {"light", 50}, {"book", 75}, {"regular", 80}, {"normal", 80}, {"medium", 100},
	{"demibold", 180}, {"demi", 180}, {"semibold", 180}, {"extrabold", 205}, {"superbold", 205}, {"ultrabold", 205}, {"bold", 200}, {"ultrablack", 215}, {"superblack", 215}, {"extrablack", 215},
	{"<ultra", 205}, {"black", 210}, {"heavy", 210}}

var widthWords = []wordConst{{"ultracondensed", 50}, {"extracondensed", 63}, {"semicondensed", 87}, {"condensed", 75}, {"normal", 100}, {"semiexpanded", 113}, {"extraexpanded", 150}, {"ultraexpanded", 200}, {"expanded", 125}, {"extended", 125}}
var slantWords = []wordConst{{"italic", 100}, {"kursiv", 100}, {"oblique", 110}}
var decoWords = []wordConst{{"shadow", 1}, {"caps", 1}, {"antiqua", 1}, {"romansc", 1}, {"embosed", 1}, {"dunhill", 1}}
var widthClass = []float32{50, 63, 75, 87, 100, 113, 125, 150, 200}

// value of the first word found in the first style which has one
func findWord(styles []string, words []wordConst) float32 {
	alnum := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x7F
	}
	for _, s := range styles {
		for _, w := range words {
			if w.name[0] != '<' {
				if strings.Contains(blankCase(s), w.name) {
					return w.v
				}
				continue
			}
			low, word := strings.ToLower(s), w.name[1:]
			for i := 0; i+len(word) <= len(low); i++ {
				if low[i:i+len(word)] == word && (i == 0 || !alnum(low[i-1])) && (i+len(word) == len(low) || !alnum(low[i+len(word)])) {
					return w.v
				}
			}
		}
	}
	return -1
}

func (m *faceModel) charset() runeSet {
	out := runeSet{}
	for r, g := range m.best.Map {
		if g != 0 && !(r == 0xFFFF && m.best.Format == 4 && g == 0) {
			out[r] = true
		}
	}
	if m.sym {
		for r := rune(0xF000); r < 0xF100; r++ {
			if out[r] {
				out[r-0xF000] = true
			}
		}
	}
	return out
}

func near(a, b int) bool {
	d, x := a-b, a
	if d < 0 {
		d = -d
	}
	if b > x {
		x = b
	}
	return d*33 <= x
}

func (m *faceModel) spacing() (int32, bool) {
	var l []rune
	for r, g := range m.best.Map {
		if g != 0 {
			l = append(l, r)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	var adv []int
	for _, r := range l {
		a := m.f.Advances[m.best.Map[r]]
		old := a == 0
		for _, b := range adv {
			old = old || near(a, b)
		}
		if !old {
			adv = append(adv, a)
		}
		if len(adv) == 3 {
			return 0, false
		}
	}
	if len(adv) < 2 {
		return 100, true
	}
	lo, hi := min(adv[0], adv[1]), max(adv[0], adv[1])
	if near(2*lo, hi) {
		return 90, true
	}
	return 0, false
}

// validAxis returns the axis exposed as a range
func validAxis(a sfnt.Axis) bool {
	return a.Min <= a.Def && a.Def <= a.Max && a.Min != a.Max && a.Tag != "slnt"
}

// pattern is what the scan should report, before the scan rules. LANG is left to langCheck.
func (m *faceModel) pattern(file string, face int, inst int) mpat {
	f := m.f
	out := mpat{}
	add := func(o fc.Object, v fc.Value) { out[o] = append(out[o], mval{v, 1}) }
	b := func(x bool) fc.Bool {
		if x {
			return fc.True
		}
		return fc.False
	}
	color := f.Extra["COLR"] != nil
	add(fc.OUTLINE, fc.True)
	add(fc.SCALABLE, fc.True)
	add(fc.COLOR, b(color))

	variable, varWeight, varWidth, varSize := false, false, false, false
	wMult, wdMult := float32(1), float32(1)
	var instance *sfnt.Instance
	if inst == 0 {
		for _, a := range f.Axes {
			if !validAxis(a) {
				continue
			}
			variable = true
			switch a.Tag {
			case "wght":
				varWeight = true
				add(fc.WEIGHT, fc.Range{Begin: fc.WeightFromOT(float32(a.Min)), End: fc.WeightFromOT(float32(a.Max))})
			case "wdth":
				varWidth = true
				add(fc.WIDTH, fc.Range{Begin: float32(a.Min), End: float32(a.Max)})
			case "opsz":
				varSize = true
				add(fc.SIZE, fc.Range{Begin: float32(a.Min), End: float32(a.Max)})
			}
		}
	} else {
		instance = &f.Instances[inst-1]
		for i, a := range f.Axes {
			mult := float32(1)
			if a.Def != 0 {
				mult = float32(instance.Coords[i]) / float32(a.Def)
			}
			switch a.Tag {
			case "wght":
				wMult = mult
			case "wdth":
				wdMult = mult
			case "opsz":
				add(fc.SIZE, fc.Float(instance.Coords[i]))
			}
		}
	}
	add(fc.VARIABLE, b(variable))

	// names
	foundry := ""
	if f.OS2 != nil && f.OS2.Version >= 1 && f.OS2.VendID != "" {
		foundry = string(append([]byte(f.OS2.VendID), 0, 0, 0, 0)[:4])
	}
	type named struct{ text, tag string }
	lists := map[fc.Object][]named{}
	for _, plat := range []int{3, 0, 1, 2} {
		for _, id := range []int{21, 16, 1, 18, 4, 22, 17, 2, 7, 8} {
			look := id
			if instance != nil {
				if id == 22 || id == 17 || id == 4 {
					continue
				}
				if id == 2 {
					look = instance.Subfamily
				}
			}
			o := fc.Object(0)
			switch id {
			case 21, 16, 1:
				o = fc.FAMILY
			case 18, 4:
				o = fc.FULLNAME
			case 22, 17, 2:
				o = fc.STYLE
			}
			if variable && (o == fc.FULLNAME || o == fc.STYLE) {
				continue
			}
			for _, n := range m.sorted(plat, look) {
				if o == 0 {
					for _, fd := range foundries {
						if foundry == "" && strings.Contains(n.value, fd[0]) {
							foundry = fd[1]
						}
					}
					continue
				}
				text := strings.TrimSpace(n.value)
				dup := false
				for _, e := range lists[o] {
					dup = dup || blankCase(e.text) == blankCase(text)
				}
				if !dup {
					lists[o] = append(lists[o], named{text, n.tag})
				}
			}
		}
	}
	if len(lists[fc.FAMILY]) == 0 && file != "" {
		base := filepath.Base(file)
		if i := strings.LastIndexByte(base, '.'); i >= 0 {
			base = base[:i]
		}
		lists[fc.FAMILY] = []named{{base, "en"}}
	}
	if len(lists[fc.FAMILY]) == 0 && !variable && len(m.sorted(3, 6))+len(m.sorted(1, 6)) == 0 {
		return nil
	}
	if !variable && len(lists[fc.STYLE]) == 0 {
		lists[fc.STYLE] = []named{{"Regular", "en"}}
	}
	english := func(l []named) string {
		for _, e := range l {
			if e.tag == "en" {
				return e.text
			}
		}
		return l[0].text
	}
	var styles []string
	for _, o := range []fc.Object{fc.FAMILY, fc.STYLE} {
		langs := map[fc.Object]fc.Object{fc.FAMILY: fc.FAMILYLANG, fc.STYLE: fc.STYLELANG}[o]
		last := -1
		for i, e := range lists[o] {
			add(o, fc.String(e.text))
			if o == fc.STYLE {
				styles = append(styles, e.text)
			}
			if e.tag != "" {
				last = i
			}
		}
		for i := 0; i <= last; i++ { // one language for each name, up to the last known one
			tag := lists[o][i].tag
			if tag == "" {
				tag = "und"
			}
			add(langs, fc.String(tag))
		}
	}
	if !variable {
		// full name: english family and style
		full := english(lists[fc.FAMILY])
		if st := english(lists[fc.STYLE]); blankCase(st) != "regular" {
			full += " " + st
		}
		add(fc.FULLNAME, fc.String(full))
		add(fc.FULLNAMELANG, fc.String("en"))
		// PostScript name: Microsoft first, in english if possible
		ps := ""
		for _, n := range append(append([]fname(nil), m.sorted(3, 6)...), m.sorted(1, 6)...) {
			if ps == "" {
				ps = n.value
			}
		}
		if ps == "" {
			for _, r := range english(lists[fc.FAMILY]) {
				if strings.ContainsRune("\x04()/<>[]{}\t\f\r\n ", r) {
					r = '-'
				}
				ps += string(r)
			}
		}
		add(fc.POSTSCRIPT_NAME, fc.String(ps))
	}
	if file != "" {
		add(fc.FILE, fc.String(file))
	}
	add(fc.INDEX, fc.Int(face|inst<<16))
	add(fc.FONTVERSION, fc.Int(f.Revision))
	add(fc.ORDER, fc.Int(0))

	weight, width := float32(-1), float32(-1)
	if f.OS2 != nil {
		weight = fc.WeightFromOT(float32(f.OS2.Weight) * wMult)
		if w := f.OS2.Width; w >= 1 && w <= 9 {
			width = widthClass[w-1] * wdMult
		}
		// scripts
		set := map[string]bool{}
		for _, s := range append(append([]string(nil), f.GSUB...), f.GPOS...) {
			if !strings.Contains(s, "-") {
				set["otlayout:"+(s + "    ")[:4]] = true
			}
		}
		var caps []string
		for s := range set {
			caps = append(caps, s)
		}
		sort.Strings(caps)
		if len(caps) > 0 {
			add(fc.CAPABILITY, fc.String(strings.Join(caps, " ")))
		}
		if f.OS2.Version >= 5 && !varSize {
			lo, hi := float32(f.OS2.Lower)/20, float32(f.OS2.Upper)/20
			if lo == hi {
				add(fc.SIZE, fc.Float(lo))
			} else {
				add(fc.SIZE, fc.Range{Begin: lo, End: hi})
			}
		}
	}
	add(fc.FONT_HAS_HINT, b(f.Hint))
	if weight == -1 {
		weight = findWord(styles, weightWords)
	}
	if width == -1 {
		width = findWord(styles, widthWords)
	}
	slant := findWord(styles, slantWords)
	bold, italic := f.MacStyle&1 != 0, f.MacStyle&2 != 0
	if f.OS2 != nil && f.Boxes != nil {
		bold, italic = f.OS2.FsSelection&32 != 0, f.OS2.FsSelection&513 != 0
	}
	if slant == -1 {
		slant = 0
		if italic {
			slant = 100
		}
	}
	if weight == -1 {
		weight = 100
		if bold {
			weight = 200
		}
	}
	if width == -1 {
		width = 100
	}
	if foundry == "" {
		foundry = "unknown"
	}
	add(fc.SLANT, fc.Int(slant))
	if !varWeight {
		add(fc.WEIGHT, fc.Float(weight))
	}
	if !varWidth {
		add(fc.WIDTH, fc.Float(width))
	}
	add(fc.FOUNDRY, fc.String(foundry))
	add(fc.DECORATIVE, b(findWord(styles, decoWords) > 0))
	if m.best == nil {
		return nil
	}
	add(fc.SYMBOL, b(m.sym))
	if s, ok := m.spacing(); ok {
		add(fc.SPACING, fc.Int(s))
	}
	add(fc.FONTFORMAT, fc.String("TrueType"))
	return out
}

// faces lists the expected (face, instance) pairs
func (m *faceModel) indices() []int {
	out := []int{0}
	for i, in := range m.f.Instances {
		def := true
		for k, a := range m.f.Axes {
			def = def && in.Coords[k] == a.Def
		}
		if !def {
			out = append(out, i+1)
		}
	}
	return out
}

// ------------------------------------------------------------------ languages

// orthographies of the languages which fit in some pages of the charset, found by removing one character at a time
var (
	orthOnce   = map[string]runeSet{}
	orthRange  = [][2]rune{{0x20, 0x24F}, {0x2B0, 0x5FF}, {0x1E00, 0x1EFF}, {0x2010, 0x203F}}
	orthAnchor = map[string]string{
		"en": "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz", "fr": "éèàçœ", "de": "äöüß", "ru": "абвгдежзийклмнопрстуфхцчшщъыьэюяё", "el": "αβγδεζηθικλμνξοπρστυφχψωάέ", "he": "אבגדהוזחטיכלמנסעפצקרשת", "pl": "ąćęłńóśźż", "tr": "ğışç", "hy": "աբգ",
	}
)

func scanLangs(c sfnt.Cmap, codePage uint32) (map[string]bool, fc.Langset, error) {
	f := &sfnt.Font{UPM: 1000, Ascent: 800, Descent: -200, Advances: []int{500, 600}, Cmaps: []sfnt.Cmap{c}, OS2: &sfnt.OS2{Version: 4, Weight: 400, Width: 5, CodePage1: codePage}}
	fs, err := fc.NewConfig().ScanFontRessource(bytes.NewReader(f.Build()), "x")
	if err != nil || len(fs) != 1 {
		return nil, fc.Langset{}, fmt.Errorf("%d fonts, error %v", len(fs), err)
	}
	ls, _ := langOf(fs[0])
	out := map[string]bool{}
	for _, l := range strings.Split(ls.String(), "|") {
		if l != "" {
			out[l] = true
		}
	}
	return out, ls, nil
}

func langOf(p fc.Pattern) (fc.Langset, bool) {
	for _, v := range vals(p, fc.LANG) {
		l, ok := v.(fc.Langset)
		return l, ok
	}
	return fc.Langset{}, false
}

func cmap13(skip rune, ranges ...[2]rune) sfnt.Cmap {
	c := sfnt.Cmap{Platform: 3, Encoding: 10, Format: 13, Map: map[rune]int{}}
	for _, g := range ranges {
		for r := g[0]; r <= g[1]; r++ {
			if r != skip {
				c.Map[r] = 1
			}
		}
	}
	return c
}

func setupOrth() {
	all, _, err := scanLangs(cmap13(-1, orthRange...), 0)
	if err != nil {
		panic(err)
	}
	for l := range all {
		orthOnce[l] = runeSet{}
	}
	for _, g := range orthRange {
		for r := g[0]; r <= g[1]; r++ {
			left, _, err := scanLangs(cmap13(r, orthRange...), 0)
			if err != nil {
				panic(err)
			}
			for l := range all {
				if !left[l] {
					orthOnce[l][r] = true
				}
			}
		}
	}
}

// expected languages of a charset, among the ones of orthOnce
func expectLangs(cs runeSet) map[string]bool {
	out := map[string]bool{}
	for l, o := range orthOnce {
		ok := true
		for r := range o {
			if !cs[r] {
				ok = false
				break
			}
		}
		if ok {
			out[l] = true
		}
	}
	return out
}

// ------------------------------------------------------------------ comparing

func charsetDiff(c fc.Charset, want runeSet) string {
	n := 0
	for r := range want {
		if !c.HasChar(r) {
			return fmt.Sprintf("U+%04X is missing", r)
		}
		n++
	}
	if c.Len() != n {
		for r := rune(0); r <= 0x10FFFF; r++ {
			if c.HasChar(r) && !want[r] {
				return fmt.Sprintf("U+%04X is not mapped by the font", r)
			}
		}
		return fmt.Sprintf("%d characters instead of %d", c.Len(), n)
	}
	return ""
}

func (m *faceModel) compare(t *pbt.T, p fc.Pattern, want mpat, inst int) {
	if d := func() string {
		q := p.Duplicate()
		q.Del(fc.CHARSET)
		q.Del(fc.LANG)
		w := want.copy()
		if inst != 0 { // depends on the support of instances by the font library
			q.Del(fc.POSTSCRIPT_NAME)
			delete(w, fc.POSTSCRIPT_NAME)
		}
		return w.diff(q)
	}(); d != "" {
		t.Fatalf("%s\n%s", d, descPattern(p))
	}
	cs, ok := p.GetCharset(fc.CHARSET)
	if !ok {
		t.Fatalf("no charset")
	}
	set := m.charset()
	if d := charsetDiff(cs, set); d != "" {
		t.Fatalf("charset: %s", d)
	}
	ls, ok := langOf(p)
	if !ok {
		t.Fatalf("no language set")
	}
	wantL := expectLangs(set)
	if m.sym {
		wantL = nil
	}
	got := map[string]bool{}
	for _, l := range strings.Split(ls.String(), "|") {
		got[l] = l != ""
	}
	for l := range orthOnce {
		if got[l] != wantL[l] {
			t.Fatalf("language %s: got %v, want %v", l, got[l], wantL[l])
		}
	}
}

func (m *faceModel) describe() string {
	f := *m.f
	var b strings.Builder
	for _, n := range m.names {
		fmt.Fprintf(&b, "  name id %d platform %d encoding %d language %x: %q (%s)\n", n.id, n.plat, n.enc, n.lang, n.value, n.tag)
	}
	for _, c := range f.Cmaps {
		fmt.Fprintf(&b, "  cmap %d,%d format %d: ", c.Platform, c.Encoding, c.Format)
		var l []int
		for r := range c.Map {
			l = append(l, int(r))
		}
		sort.Ints(l)
		for i, r := range l {
			if i == 60 {
				b.WriteString("...")
				break
			}
			fmt.Fprintf(&b, "%x->%d ", r, c.Map[rune(r)])
		}
		b.WriteString("\n")
	}
	fmt.Fprintf(&b, "  advances %v, upem %d, macstyle %d, outlines %v, GSUB %q, GPOS %q, axes %v, instances %v, extra %v", f.Advances, f.UPM, f.MacStyle, f.Boxes != nil, f.GSUB, f.GPOS, f.Axes, f.Instances, len(f.Extra))
	if f.OS2 != nil {
		fmt.Fprintf(&b, ", OS/2 %+v", *f.OS2)
	}
	return b.String()
}

func scanBytes(t *pbt.T, cfg *fc.Config, data []byte, id string) (fs fc.Fontset, err error) {
	t.NoPanic("ScanFontRessource", func() { fs, err = cfg.ScanFontRessource(bytes.NewReader(data), id) })
	return
}

func genFontFile(t *pbt.T) ([]*faceModel, []byte) {
	var ms []*faceModel
	n := 1
	if t.Chance(1, 6) {
		n = 1 + t.Intn(3)
	}
	for i := 0; i < n; i++ {
		m := genFace(t)
		if t.Chance(1, 4) {
			m.genVariable(t)
		}
		ms = append(ms, m)
	}
	if n == 1 && t.Chance(9, 10) {
		return ms, ms[0].f.Build()
	}
	var l []*sfnt.Font
	for _, m := range ms {
		l = append(l, m.f)
	}
	return ms, sfnt.Collection(l...)
}

func describeFile(ms []*faceModel) string {
	var b strings.Builder
	for i, m := range ms {
		fmt.Fprintf(&b, "face %d:\n%s\n", i, m.describe())
	}
	return b.String()
}

// ------------------------------------------------------------------ independent reader of the character maps

func readCmap(data []byte) runeSet {
	u16 := func(o int) int { return int(binary.BigEndian.Uint16(data[o:])) }
	u32 := func(o int) int { return int(binary.BigEndian.Uint32(data[o:])) }
	base := -1
	for i := 0; i < u16(4); i++ {
		if o := 12 + 16*i; string(data[o:o+4]) == "cmap" {
			base = u32(o + 8)
		}
	}
	subs := map[[2]int]int{}
	for i := 0; i < u16(base+2); i++ {
		subs[[2]int{u16(base + 4 + 8*i), u16(base + 6 + 8*i)}] = base + u32(base+8+8*i)
	}
	out := runeSet{}
	for _, id := range cmapOrder {
		o, ok := subs[id]
		if !ok {
			continue
		}
		switch u16(o) {
		case 4:
			n := u16(o+6) / 2
			for i := 0; i < n; i++ {
				end, start := u16(o+14+2*i), u16(o+16+2*n+2*i)
				delta, ro := u16(o+16+4*n+2*i), u16(o+16+6*n+2*i)
				for c := start; c <= end; c++ {
					g := (c + delta) & 0xFFFF
					if ro != 0 {
						g = u16(o + 16 + 6*n + 2*i + ro + 2*(c-start))
						if g != 0 {
							g = (g + delta) & 0xFFFF
						}
					}
					if g != 0 {
						out[rune(c)] = true
					}
				}
			}
		case 12:
			for i := 0; i < u32(o+12); i++ {
				for c := u32(o + 16 + 12*i); c <= u32(o+20+12*i); c++ {
					if u32(o+24+12*i)+c-u32(o+16+12*i) != 0 {
						out[rune(c)] = true
					}
				}
			}
		default:
			return nil
		}
		return out
	}
	return nil
}

var realFonts []string

func loadRealFonts() {
	if realFonts != nil {
		return
	}
	l1, _ := filepath.Glob("/usr/share/fonts/truetype/dejavu/*.ttf")
	l2, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_ROOT"), "fonts", "*"))
	realFonts = append(l2, l1...)
	sort.Strings(realFonts)
}

var mutSources [][]byte

func setupF14(string) {
	setupOrth()
	for _, n := range []string{"weasyprint.otf", "8x16.pcf", "4x6.pcf"} {
		b, err := ioutil.ReadFile(filepath.Join(os.Getenv("VERIF_ROOT"), "fonts", n))
		if err != nil {
			panic(err)
		}
		mutSources = append(mutSources, b)
	}
}

// mutateFont damages a font file. The lengths in the directory are kept small, since the tables are
// allocated from them.
func mutateFont(t *pbt.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + t.Size(6); n > 0 && len(b) > 0; n-- {
		switch t.Weighted(3, 3, 2, 2, 2) {
		case 0: // truncation
			b = b[:t.Intn(len(b)+1)]
		case 1: // byte
			i := t.Intn(len(b))
			b[i] = pbt.Pick(t, []byte{0, 1, 0xFF, 0x7F, 0x80, b[i] + 1, b[i] ^ 4})
		case 2: // 16 bit word
			i := t.Intn(len(b)) &^ 1
			if i+2 <= len(b) {
				binary.BigEndian.PutUint16(b[i:], uint16(pbt.Pick(t, []int{0, 1, 2, 0xFFFF, 0x7FFF, 0x8000, 12, 100, 3})))
			}
		case 3: // copy of a part
			i, j := t.Intn(len(b)), t.Intn(len(b))
			k := min(t.Size(64), len(b)-max(i, j))
			copy(b[i:i+k], append([]byte(nil), b[j:j+k]...))
		case 4: // a field of one of the tables
			if len(b) < 28 {
				continue
			}
			nt := int(binary.BigEndian.Uint16(b[4:]))
			o := 12 + 16*t.Intn(max(1, min(nt, 30)))
			if o+16 > len(b) {
				continue
			}
			off := int(binary.BigEndian.Uint32(b[o+8:])) + 2*t.Intn(40)
			if off+2 <= len(b) && off > 0 {
				binary.BigEndian.PutUint16(b[off:], uint16(pbt.Pick(t, []int{0, 1, 2, 0xFFFF, 0x7FFF, 0x8000, 16, 200, 4})))
			}
		}
	}
	// bound the lengths of the directory
	bound := func(at int) {
		for i := 0; at >= 0 && at+12 < len(b) && i < int(binary.BigEndian.Uint16(b[at+4:])) && at+28+16*i <= len(b); i++ {
			l := b[at+12+16*i+12:]
			if n := binary.BigEndian.Uint32(l); n > 1<<18 {
				binary.BigEndian.PutUint32(l, n&0xFFFF)
			}
		}
	}
	if len(b) > 16 && string(b[:4]) == "ttcf" {
		for i := 0; i < min(100, int(binary.BigEndian.Uint32(b[8:]))) && 16+4*i <= len(b); i++ {
			bound(int(binary.BigEndian.Uint32(b[12+4*i:])))
		}
	} else {
		bound(0)
	}
	return b
}

var propF14 = &pbt.Prop{
	ID: "F14", Quick: 40000, Thorough: 2000000,
	Rule:  "generated OpenType fonts (names on every platform and encoding, character maps of formats 0, 4, 6, 10, 12 and 13, variable fonts, collections), damaged files, directory trees with selectors; non trivial when the file gives at least one pattern, when the damage is deeper than the header, when the tree holds two fonts",
	Setup: setupF14,
	Assumptions: []string{
		"the reading of the tables by the font library textlayout is correct for the fonts generated",
		"the orthographies are the ones of the table of the library, learnt one character at a time, and anchored on the alphabets of 9 languages",
		"the lengths in the table directory of damaged files are kept below 256 kB, since the font library allocates them without a check",
	},
	Sweep: func(t *pbt.T) {
		for l, s := range orthAnchor {
			for _, r := range s {
				if !orthOnce[l][r] {
					t.Fatalf("a font without U+%04X is reported to cover %s", r, l)
				}
			}
		}
		if len(orthOnce) < 80 {
			t.Fatalf("only %d languages are covered by the latin, greek, cyrillic, hebrew and armenian blocks", len(orthOnce))
		}
		loadRealFonts()
		for _, path := range realFonts {
			b, err := ioutil.ReadFile(path)
			if err != nil {
				continue
			}
			cfg := fc.NewConfig()
			fs, err := cfg.ScanFontFile(path)
			if err != nil || len(fs) != 1 {
				t.Fatalf("%s: %d fonts, error %v", path, len(fs), err)
			}
			t.Evals(1)
			if f, _ := fs[0].GetString(fc.FILE); f != path {
				t.Fatalf("%s: file is %q", path, f)
			}
			if b[0] == 0 || b[0] == 'O' {
				cs, _ := fs[0].GetCharset(fc.CHARSET)
				if d := charsetDiff(cs, readCmap(b)); d != "" {
					t.Fatalf("%s: charset: %s", path, d)
				}
				ls, _ := langOf(fs[0])
				want := expectLangs(readCmap(b))
				for l := range orthOnce {
					if strings.Contains("|"+ls.String()+"|", "|"+l+"|") != want[l] {
						t.Fatalf("%s: language %s, want %v", path, l, want[l])
					}
				}
			}
			base := filepath.Base(path)
			type known struct {
				family, style, ps, format string
				spacing                   int32
				weight                    float32
				slant                     int32
				pixel                     float32
			}
			if w, ok := map[string]known{
				"8x16.pcf":               {"Sony Fixed", "Regular", "Sony-Fixed", "PCF", 110, 80, 0, 16},
				"DejaVuSerif-Italic.ttf": {"DejaVu Serif", "Italic", "DejaVuSerif-Italic", "TrueType", 0, 80, 100, 0},
				"DejaVuSans-Bold.ttf":    {"DejaVu Sans", "Bold", "DejaVuSans-Bold", "TrueType", 0, 200, 0, 0},
				"DejaVuSansMono.ttf":     {"DejaVu Sans Mono", "Book", "DejaVuSansMono", "TrueType", 100, 80, 0, 0},
				"weasyprint.otf":         {"Ahem", "Regular", "WeasyPrint", "TrueType", 100, 80, 0, 0},
			}[base]; ok {
				p := fs[0]
				var g known
				g.family, _ = p.GetString(fc.FAMILY)
				g.style, _ = p.GetString(fc.STYLE)
				g.ps, _ = p.GetString(fc.POSTSCRIPT_NAME)
				g.format, _ = p.GetString(fc.FONTFORMAT)
				if i, ok := p.GetInt(fc.SPACING); ok {
					g.spacing = i
				}
				g.weight, _ = p.GetFloat(fc.WEIGHT)
				g.slant, _ = p.GetInt(fc.SLANT)
				g.pixel, _ = p.GetFloat(fc.PIXEL_SIZE)
				if g != w {
					t.Fatalf("%s: got %+v, want %+v", path, g, w)
				}
			}
		}
	},
	Checks: []pbt.Check{
		{Name: "font", Weight: 10, Run: func(t *pbt.T) {
			ms, data := genFontFile(t)
			id := pbt.Pick(t, []string{"font.ttf", "/a/b/Some Font.ttf", "/a.b/c.d/x", "x y.pfa", "noext", "./dir.x/My.Font.otf"})
			t.Describe(func() string { return fmt.Sprintf("file %q\n%s", id, describeFile(ms)) })
			fs, err := scanBytes(t, fc.NewConfig(), data, id)
			var want []mpat
			var of []*faceModel
			var insts []int
			for i, m := range ms {
				for _, inst := range m.indices() {
					if p := m.pattern(id, i, inst); p != nil {
						want = append(want, p)
						of = append(of, m)
						insts = append(insts, inst)
					}
				}
			}
			if (err != nil) != (len(want) == 0) || len(fs) != len(want) {
				t.Fatalf("got %d patterns (error %v), want %d", len(fs), err, len(want))
			}
			for i, p := range fs {
				of[i].compare(t, p, want[i], insts[i])
			}
			fs2, _ := scanBytes(t, fc.NewConfig(), data, id)
			for i, p := range fs2 {
				if p.Hash() != fs[i].Hash() {
					t.Fatalf("two scans of the same file differ")
				}
			}
			if len(fs) > 0 {
				t.NonTrivial(string(data))
				t.Label(fmt.Sprintf("%d patterns", min(len(fs), 4)))
			}
			for _, m := range ms {
				if m.best != nil {
					t.Label(fmt.Sprintf("cmap format %d", m.best.Format))
				}
				if m.f.Axes != nil {
					t.Label("variable")
				}
			}
		}},
		{Name: "han", Weight: 1, Run: func(t *pbt.T) {
			// code pages of CJK fonts
			bits := uint32(t.Intn(16))
			all, _, err := scanLangs(cmap13(-1, [2]rune{0x20, 0xFFFD}), bits<<17)
			t.Input("font covering the BMP, code pages %04b (ja, zh-cn, ko, zh-tw from the lowest bit)", bits)
			if err != nil {
				t.Fatalf("%v", err)
			}
			names := []string{"ja", "zh-cn", "ko", "zh-tw"}
			n := 0
			only := ""
			for i, l := range names {
				if bits>>i&1 == 1 {
					n++
					only = l
				}
			}
			for _, l := range names {
				if want := n != 1 || l == only; all[l] != want {
					t.Fatalf("language %s: %v, want %v", l, all[l], want)
				}
			}
			for l := range orthOnce {
				if !all[l] {
					t.Fatalf("language %s is missing", l)
				}
			}
			t.NonTrivial(fmt.Sprint(bits))
		}},
		{Name: "rules", Weight: 4, Run: func(t *pbt.T) {
			// scan rules and selectors
			ms, data := genFontFile(t)
			fams := append([]string{}, asciiWords...)
			for _, m := range ms {
				for _, n := range m.names {
					if s := strings.TrimSpace(n.value); n.id == 1 && s != "" && !strings.ContainsAny(s, "<&") {
						fams = append(fams, s, s, s, s, s)
					}
				}
			}
			var doc strings.Builder
			doc.WriteString("<fontconfig>")
			type edit struct {
				fam, to string
				obj     fc.Object
			}
			var edits []edit
			for k := t.Size(3); k > 0; k-- {
				e := edit{pbt.Pick(t, fams), pbt.Pick(t, []string{"Edited", "Regular", "Bold"}), pbt.Pick(t, []fc.Object{fc.STYLE, fc.FAMILY, fc.FOUNDRY})}
				edits = append(edits, e)
				fmt.Fprintf(&doc, `<match target="%s"><test name="family"><string>%s</string></test><edit name="%s" mode="assign" binding="strong"><string>%s</string></edit></match>`,
					"scan", e.fam, objName[e.obj], e.to)
			}
			if t.Bool() { // other kinds of rules do not run
				doc.WriteString(`<match target="pattern"><edit name="family" mode="assign"><string>no</string></edit></match><match target="font"><edit name="family" mode="assign"><string>no</string></edit></match>`)
			}
			var acc, rej []fc.Pattern
			for k := t.Size(3); k > 0; k-- {
				name := pbt.Pick(t, []string{"acceptfont", "rejectfont", "rejectfont"})
				p := fc.NewPattern()
				s := pbt.Pick(t, append([]string{"Edited"}, fams...))
				p.AddString(fc.FAMILY, s)
				fmt.Fprintf(&doc, `<selectfont><%s><pattern><patelt name="family"><string>%s</string></patelt>`, name, s)
				if t.Chance(1, 3) {
					p.AddInt(fc.SLANT, 100)
					doc.WriteString(`<patelt name="slant"><int>100</int></patelt>`)
				}
				fmt.Fprintf(&doc, `</pattern></%s></selectfont>`, name)
				if name == "acceptfont" {
					acc = append(acc, p)
				} else {
					rej = append(rej, p)
				}
			}
			doc.WriteString("</fontconfig>")
			t.Describe(func() string { return doc.String() + "\n" + describeFile(ms) })
			fs, _ := scanBytes(t, mustLoad(doc.String()), data, "f.ttf")
			plain, _ := scanBytes(t, fc.NewConfig(), data, "f.ttf")
			var want []string
			changed := false
			for _, p := range plain {
				for _, e := range edits {
					l := p.GetStrings(fc.FAMILY)
					at := -1
					for i := range l {
						if at < 0 && strings.EqualFold(l[i], e.fam) {
							at = i
						}
					}
					if at < 0 {
						continue
					}
					changed = true
					if e.obj == fc.FAMILY {
						q := fc.NewPattern()
						for i := range l {
							if i == at {
								q.AddString(fc.FAMILY, e.to)
							} else {
								q.AddString(fc.FAMILY, l[i])
							}
						}
						p[fc.FAMILY] = q[fc.FAMILY]
					} else {
						p.Del(e.obj)
						p.AddString(e.obj, e.to)
					}
				}
				if v, _ := p.GetBool(fc.VARIABLE); changed && v == fc.False {
					// the full name is built after the rules
					eng := func(o, langs fc.Object) string {
						l := p.GetStrings(o)
						for i, s := range p.GetStrings(langs) {
							if s == "en" {
								if i >= len(l) { // the rule has removed the english name
									t.Discard()
								}
								return l[i]
							}
						}
						return l[0]
					}
					st := eng(fc.STYLE, fc.STYLELANG)
					full := eng(fc.FAMILY, fc.FAMILYLANG)
					if blankCase(st) != "regular" {
						full += " " + st
					}
					p.Del(fc.FULLNAME)
					p.AddString(fc.FULLNAME, full)
				}
				in := func(l []fc.Pattern) bool {
					for _, q := range l {
						if refListMatch(q, p) {
							return true
						}
					}
					return false
				}
				if in(acc) || !in(rej) {
					want = append(want, showPattern(p, true))
				} else {
					t.Label("rejected")
				}
			}
			if len(fs) != len(want) {
				t.Fatalf("%d fonts, want %d", len(fs), len(want))
			}
			for i, p := range fs {
				if got := showPattern(p, true); got != want[i] {
					t.Fatalf("got\n%s\nwant\n%s", got, want[i])
				}
			}
			if changed {
				t.Label("edited")
			}
			if len(plain) > 0 && (changed || len(acc)+len(rej) > 0) {
				t.NonTrivial(doc.String() + string(data))
			}
		}},
		{Name: "damaged", Weight: 12, Run: func(t *pbt.T) {
			var src []byte
			if t.Chance(1, 3) {
				src = pbt.Pick(t, mutSources)
			} else {
				_, src = genFontFile(t)
			}
			data := mutateFont(t, src)
			t.Describe(func() string {
				return fmt.Sprintf("%d bytes (from %d bytes): %x", len(data), len(src), clip(string(data), 4000))
			})
			fs, err := scanBytes(t, fc.NewConfig(), data, "f.ttf")
			if err == nil && len(fs) == 0 {
				t.Fatalf("neither a font nor an error")
			}
			for _, p := range fs {
				if f, _ := p.GetString(fc.FILE); f != "f.ttf" {
					t.Fatalf("file is %q", f)
				}
				for o, l := range p {
					for _, v := range *l {
						if !accepts(o, v.Value) {
							t.Fatalf("invalid value for %s", o)
						}
						if c, ok := v.Value.(fc.Charset); ok {
							for _, r := range []rune{0x110000, 0x110001, math.MaxInt32} {
								if c.HasChar(r) {
									t.Fatalf("the charset has the character %x", r)
								}
							}
							_ = c.Len()
						}
					}
				}
			}
			if len(data) > 100 {
				t.NonTrivial(string(data))
			}
			if len(fs) > 0 {
				t.Label("still a font")
			}
			// with the list of faces
			t.Label("damaged")
		}},
		{Name: "tree", Weight: 2, Run: checkTree},
	},
}

func checkTree(t *pbt.T) {
	root, err := ioutil.TempDir("", "verif-f14-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	write := func(rel string, b []byte) {
		p := filepath.Join(root, rel)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := ioutil.WriteFile(p, b, 0o644); err != nil {
			panic(err)
		}
	}
	var desc []string
	dirs := []string{"a", "b", "a/sub", "a/.hid", "b/z.ttf"}
	os.MkdirAll(filepath.Join(root, "a/sub"), 0o755)
	os.MkdirAll(filepath.Join(root, "a/.hid"), 0o755)
	os.MkdirAll(filepath.Join(root, "b/z.ttf"), 0o755)
	valid := map[string]bool{} // relative path -> read as font
	links := map[string]string{}
	var fontFiles []string
	for k := t.Size(9); k > 0; k-- {
		d := pbt.Pick(t, dirs)
		name := pbt.Pick(t, []string{"f.ttf", "g.otf", "h", "1.ttf", "k.pcf", ".hidden.ttf", "m.afm", "m.pfm", "fonts.dir", "fonts.scale", "fonts.alias", "e.enc.gz", "n.dirx", "afm"})
		rel := d + "/" + name
		if _, dup := valid[rel]; dup || links[rel] != "" {
			continue
		}
		if t.Chance(1, 5) && len(fontFiles) > 0 {
			target := pbt.Pick(t, fontFiles)
			links[rel] = target
			os.Symlink(filepath.Join(root, target), filepath.Join(root, rel))
			desc = append(desc, rel+" -> "+target)
			continue
		}
		var b []byte
		switch t.Weighted(6, 1, 1, 1) {
		case 0:
			_, b = genFontFile(t)
			desc = append(desc, rel+" font")
			fontFiles = append(fontFiles, rel)
		case 1:
			b = mutSources[1]
			desc = append(desc, rel+" bitmap font")
			fontFiles = append(fontFiles, rel)
		case 2:
			b = []byte("junk")
			desc = append(desc, rel+" junk")
		case 3:
			desc = append(desc, rel+" empty")
		}
		valid[rel] = true
		write(rel, b)
	}
	// selectors
	var doc strings.Builder
	var accG, rejG []string
	var acc, rej []fc.Pattern
	doc.WriteString("<fontconfig>")
	for k := t.Size(3); k > 0; k-- {
		name := pbt.Pick(t, []string{"acceptfont", "rejectfont", "rejectfont"})
		if t.Chance(2, 3) {
			g := filepath.Join(root, pbt.Pick(t, []string{"a/*", "a/sub/*", "*/f.ttf", "b/?.ttf", "*", "a/sub/[f-h]*", "a/[fh]*"}))
			fmt.Fprintf(&doc, "<selectfont><%s><glob>%s</glob></%s></selectfont>", name, g, name)
			if name == "acceptfont" {
				accG = append(accG, g)
			} else {
				rejG = append(rejG, g)
			}
		} else {
			p := fc.NewPattern()
			s := pbt.Pick(t, asciiWords)
			p.AddString(fc.FAMILY, s)
			fmt.Fprintf(&doc, `<selectfont><%s><pattern><patelt name="family"><string>%s</string></patelt></pattern></%s></selectfont>`, name, s, name)
			if name == "acceptfont" {
				acc = append(acc, p)
			} else {
				rej = append(rej, p)
			}
		}
	}
	doc.WriteString("</fontconfig>")
	var roots []string
	for k := 1 + t.Size(4); k > 0; k-- {
		r := root
		if t.Chance(2, 3) {
			r = filepath.Join(root, pbt.Pick(t, dirs))
		}
		if t.Chance(1, 4) {
			r += "/"
		}
		roots = append(roots, r)
	}
	t.Describe(func() string {
		return fmt.Sprintf("tree %q\nroots %q\n%s", desc, roots, doc.String())
	})

	// reference: walk in lexical order, directories are read once
	seen := map[string]bool{}
	type partialFace struct{ file, family string }
	var partial []partialFace // faces of all the files
	var want []string
	nf := 0
	single := fc.NewConfig()
	globs := func(l []string, s string) bool {
		for _, g := range l {
			if refPathGlob(g, s) {
				return true
			}
		}
		return false
	}
	in := func(l []fc.Pattern, p fc.Pattern) bool {
		for _, q := range l {
			if refListMatch(q, p) {
				return true
			}
		}
		return false
	}
	var visit func(dir string)
	visit = func(dir string) {
		if seen[dir] {
			return
		}
		seen[dir] = true
		es, _ := ioutil.ReadDir(dir)
		for _, e := range es {
			p := filepath.Join(dir, e.Name())
			if e.IsDir() {
				visit(p)
				continue
			}
			rel, _ := filepath.Rel(root, p)
			n := e.Name()
			skip := n[0] == '.'
			for _, s := range []string{".enc.gz", ".afm", ".pfm", ".dir", ".scale", ".alias"} {
				skip = skip || strings.HasSuffix(n, s)
			}
			if skip {
				continue
			}
			if target, ok := links[rel]; ok {
				p = filepath.Join(root, target)
			}
			fs, err := single.ScanFontFile(p)
			// the file alone
			alone, err2 := ioutil.TempDir(root+"/..", "verif-f14b-")
			if err2 != nil {
				panic(err2)
			}
			os.Link(p, filepath.Join(alone, "x.ttf"))
			fds, _ := fc.PartialScanFontDirectories(alone)
			os.RemoveAll(alone)
			for _, fd := range fds {
				partial = append(partial, partialFace{p, fd.Family})
			}
			faces := 0
			last := int32(-1)
			for _, f := range fs {
				index, _ := f.GetInt(fc.INDEX)
				if index &= 0xffff; index != last { // not an instance
					last = index
					if faces++; faces > len(fds) {
						t.Fatalf("PartialScanFontDirectories: %d faces in %s, not %d", len(fds), p, faces)
					}
				}
			}
			if !globs(accG, p) && globs(rejG, p) {
				t.Label("glob rejected")
				continue
			}
			if err == nil {
				nf++
			}
			for _, f := range fs {
				if in(acc, f) || !in(rej, f) {
					want = append(want, f.Hash())
				}
			}
		}
	}
	for _, r := range roots {
		visit(filepath.Clean(r))
	}
	cfg := mustLoad(doc.String())
	var got fc.Fontset
	t.NoPanic("ScanFontDirectories", func() { got, err = cfg.ScanFontDirectories(roots...) })
	if err != nil {
		t.Fatalf("ScanFontDirectories: %v", err)
	}
	if len(got) != len(want) {
		t.Fatalf("%d fonts, want %d", len(got), len(want))
	}
	for i, p := range got {
		if p.Hash() != want[i] {
			t.Fatalf("font %d differs: %s", i, descPattern(p))
		}
	}
	// the summary has the faces of all the files
	faces, err := fc.PartialScanFontDirectories(roots...)
	if err != nil {
		t.Fatalf("PartialScanFontDirectories: %v", err)
	}
	if len(faces) != len(partial) {
		t.Fatalf("PartialScanFontDirectories: %d faces, want %d", len(faces), len(partial))
	}
	for i, f := range faces {
		if f.Family != partial[i].family {
			t.Fatalf("PartialScanFontDirectories: face %d has family %q, not %q (%s)", i, f.Family, partial[i].family, partial[i].file)
		}
	}
	if _, err := fc.PartialScanFontDirectories(filepath.Join(root, "missing")); err == nil {
		t.Fatalf("PartialScanFontDirectories: no error for a missing directory")
	}
	// the order of the roots does not change the fonts found
	perm := make([]string, len(roots))
	for i, j := range t.Perm(len(roots)) {
		perm[i] = roots[j]
	}
	again, err := cfg.ScanFontDirectories(perm...)
	if err != nil {
		t.Fatalf("ScanFontDirectories: %v", err)
	}
	var h []string
	for _, p := range again {
		h = append(h, p.Hash())
	}
	sort.Strings(h)
	sort.Strings(want)
	if strings.Join(h, "\n") != strings.Join(want, "\n") {
		t.Fatalf("the order of the directories changes the fonts found")
	}
	if _, err := cfg.ScanFontDirectories(filepath.Join(root, "missing")); err == nil {
		t.Fatalf("no error for a missing directory")
	}
	if nf >= 2 {
		t.NonTrivial(strings.Join(desc, "|") + strings.Join(roots, "|") + doc.String())
	}
	t.Label("tree")
}

// refPathGlob matches a whole path: * and ? do not match a slash, [a-b]
func refPathGlob(g, s string) bool {
	if g == "" {
		return s == ""
	}
	switch g[0] {
	case '*':
		for i := 0; ; i++ {
			if refPathGlob(g[1:], s[i:]) {
				return true
			}
			if i == len(s) || s[i] == '/' {
				return false
			}
		}
	case '?':
		return s != "" && s[0] != '/' && refPathGlob(g[1:], s[1:])
	case '[':
		end := strings.IndexByte(g, ']')
		if end < 0 || s == "" {
			return false
		}
		in := false
		class := g[1:end]
		for i := 0; i < len(class); i++ {
			if i+2 < len(class) && class[i+1] == '-' {
				in = in || class[i] <= s[0] && s[0] <= class[i+2]
				i += 2
			} else {
				in = in || class[i] == s[0]
			}
		}
		return in && refPathGlob(g[end+1:], s[1:])
	}
	return s != "" && g[0] == s[0] && refPathGlob(g[1:], s[1:])
}
