package main

import (
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

func init() {
	// the library reads its default language once from the environment
	os.Unsetenv("FC_LANG")
	os.Unsetenv("LC_ALL")
	os.Unsetenv("LC_CTYPE")
	if os.Getenv("VERIF_KEEP_LANG") == "" {
		os.Setenv("LANG", "en_US.UTF-8")
	}
	log.SetOutput(io.Discard)
}

// ------------------------------------------------------------------ charsets

// universe of the code points used by the generators: page boundaries, several planes,
// all the bits of some pages
var universe []rune

func init() {
	add := func(lo, hi rune) {
		for r := lo; r <= hi; r++ {
			universe = append(universe, r)
		}
	}
	add(0, 2)
	add(0x1E, 0x21)
	add(0x3F, 0x62)
	add(0x7E, 0x81)
	add(0xFC, 0x104)
	add(0x1FE, 0x201)
	add(0x2FF, 0x301)
	add(0x4FF, 0x505)
	add(0x2000, 0x2004)
	add(0xFEFE, 0xFF02)
	add(0xFFFD, 0x10003)
	add(0x100FF, 0x10101)
	add(0x1F600, 0x1F604)
	add(0x20000, 0x20002)
	add(0xFFFFF, 0x100002)
	add(0x10FFFD, 0x10FFFF)
}

type runeSet map[rune]bool

func (s runeSet) key() string {
	l := make([]int, 0, len(s))
	for r := range s {
		l = append(l, int(r))
	}
	sort.Ints(l)
	var b strings.Builder
	for _, r := range l {
		fmt.Fprintf(&b, "%x ", r)
	}
	return b.String()
}

func (s runeSet) copy() runeSet {
	out := runeSet{}
	for r := range s {
		out[r] = true
	}
	return out
}

func (s runeSet) charset() fc.Charset {
	var out fc.Charset
	l := make([]int, 0, len(s))
	for r := range s {
		l = append(l, int(r))
	}
	sort.Ints(l)
	for _, r := range l {
		out.AddChar(rune(r))
	}
	return out
}

// membership over the universe
func charsetKey(c fc.Charset) string {
	var b strings.Builder
	n := 0
	for _, r := range universe {
		if c.HasChar(r) {
			n++
			fmt.Fprintf(&b, "%x ", r)
		}
	}
	if l := c.Len(); l != n {
		fmt.Fprintf(&b, "(%d others)", l-n)
	}
	return b.String()
}

func charsetRunes(c fc.Charset) runeSet {
	out := runeSet{}
	for _, r := range universe {
		if c.HasChar(r) {
			out[r] = true
		}
	}
	return out
}

// ------------------------------------------------------------------ values

var knownLangs = []string{"en", "fr", "de", "ja", "ko", "zh-cn", "zh-tw", "zh-hk", "zh-sg", "zh-mo", "ku-am", "ku-tr", "pa", "pa-pk", "pap-an", "pap-aw", "mn-mn", "mn-cn", "ar", "und-zsye", "ti-er", "ti-et", "ps-af", "ps-pk", "az-az", "az-ir", "be", "ber-dz", "ber-ma", "zu", "aa", "vo", "nb", "nn", "no", "sr", "sh"}

// tags without orthography in the library
var unknownLangs = []string{"xx", "xx-yy", "xx-zz", "en-us", "en-gb", "fr-ca", "zh", "zh-xx", "qq-ab", "tlh", "ku", "pap", "zzz"}

func langKey(l fc.Langset) string {
	p := strings.Split(l.String(), "|")
	sort.Strings(p)
	return strings.Join(p, "|")
}

// showValue is a canonical form of a value: equal strings mean equal values
func showValue(v fc.Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case fc.Int:
		return fmt.Sprintf("int(%d)", v)
	case fc.Float:
		return fmt.Sprintf("float(%x)", math.Float32bits(float32(v)))
	case fc.String:
		return fmt.Sprintf("string(%q)", string(v))
	case fc.Bool:
		return fmt.Sprintf("bool(%d)", uint8(v))
	case fc.Matrix:
		return fmt.Sprintf("matrix(%x %x %x %x)", math.Float32bits(v.Xx), math.Float32bits(v.Xy), math.Float32bits(v.Yx), math.Float32bits(v.Yy))
	case fc.Range:
		return fmt.Sprintf("range(%x %x)", math.Float32bits(v.Begin), math.Float32bits(v.End))
	case fc.Charset:
		return "charset(" + charsetKey(v) + ")"
	case fc.Langset:
		return "langset(" + langKey(v) + ")"
	}
	return fmt.Sprintf("?%T", v)
}

// readable form for the descriptions
func descValue(v fc.Value) string {
	switch v := v.(type) {
	case fc.Float:
		return fmt.Sprintf("float(%g)", float32(v))
	case fc.Matrix:
		return fmt.Sprintf("matrix(%g %g %g %g)", v.Xx, v.Xy, v.Yx, v.Yy)
	case fc.Range:
		return fmt.Sprintf("range(%g %g)", v.Begin, v.End)
	}
	return showValue(v)
}

func sortedObjects(p fc.Pattern) []fc.Object {
	var l []fc.Object
	for o := range p {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// showPattern is the canonical form of a pattern, with or without the bindings
func showPattern(p fc.Pattern, bindings bool) string {
	if p == nil {
		return "<nil>"
	}
	var b strings.Builder
	for _, o := range sortedObjects(p) {
		l := p[o]
		if l == nil || len(*l) == 0 {
			continue
		}
		fmt.Fprintf(&b, "%s:", o)
		for _, v := range *l {
			b.WriteString(" " + showValue(v.Value))
			if bindings {
				fmt.Fprintf(&b, "/%d", uint8(v.Binding))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

func descPattern(p fc.Pattern) string {
	if p == nil {
		return "<nil>"
	}
	var b strings.Builder
	b.WriteString("{")
	for _, o := range sortedObjects(p) {
		l := p[o]
		if l == nil {
			fmt.Fprintf(&b, "%s: nil; ", o)
			continue
		}
		fmt.Fprintf(&b, "%s:", o)
		for _, v := range *l {
			fmt.Fprintf(&b, " %s/%s", descValue(v.Value), []string{"w", "s", "=", "?"}[min(int(v.Binding), 3)])
		}
		b.WriteString("; ")
	}
	return b.String() + "}"
}

func descSet(fs fc.Fontset) string {
	var b strings.Builder
	for i, p := range fs {
		fmt.Fprintf(&b, "  font %d %s\n", i, descPattern(p))
	}
	return b.String()
}

func showSet(fs fc.Fontset) string {
	var b strings.Builder
	for i, p := range fs {
		fmt.Fprintf(&b, "#%d\n%s", i, showPattern(p, true))
	}
	return b.String()
}

type otype uint8

const (
	oString otype = iota
	oInt
	oRange
	oFloat
	oBool
	oMatrix
	oCharset
	oLangset
	oAny
)

// documented types of the built-in objects (see the constants of the package)
var objType = map[fc.Object]otype{
	fc.FAMILY: oString, fc.FAMILYLANG: oString, fc.STYLE: oString, fc.STYLELANG: oString, fc.FULLNAME: oString, fc.FULLNAMELANG: oString,
	fc.SLANT: oInt, fc.WEIGHT: oRange, fc.WIDTH: oRange, fc.SIZE: oRange, fc.ASPECT: oFloat, fc.PIXEL_SIZE: oFloat, fc.SPACING: oInt,
	fc.FOUNDRY: oString, fc.ANTIALIAS: oBool, fc.HINT_STYLE: oInt, fc.HINTING: oBool, fc.VERTICAL_LAYOUT: oBool, fc.AUTOHINT: oBool,
	fc.GLOBAL_ADVANCE: oBool, fc.FILE: oString, fc.INDEX: oInt, fc.RASTERIZER: oString, fc.OUTLINE: oBool, fc.SCALABLE: oBool,
	fc.DPI: oFloat, fc.RGBA: oInt, fc.SCALE: oFloat, fc.MINSPACE: oBool, fc.CHARWIDTH: oInt, fc.CHAR_HEIGHT: oInt, fc.MATRIX: oMatrix,
	fc.CHARSET: oCharset, fc.LANG: oLangset, fc.FONTVERSION: oInt, fc.CAPABILITY: oString, fc.FONTFORMAT: oString, fc.EMBOLDEN: oBool,
	fc.EMBEDDED_BITMAP: oBool, fc.DECORATIVE: oBool, fc.LCD_FILTER: oInt, fc.NAMELANG: oString, fc.FONT_FEATURES: oString, fc.PRGNAME: oString,
	fc.HASH: oString, fc.POSTSCRIPT_NAME: oString, fc.COLOR: oBool, fc.SYMBOL: oBool, fc.FONT_VARIATIONS: oString, fc.VARIABLE: oBool,
	fc.FONT_HAS_HINT: oBool, fc.ORDER: oInt,
}

// XML names of the objects
var objName = map[fc.Object]string{
	fc.FAMILY: "family", fc.FAMILYLANG: "familylang", fc.STYLE: "style", fc.STYLELANG: "stylelang", fc.FULLNAME: "fullname", fc.FULLNAMELANG: "fullnamelang",
	fc.SLANT: "slant", fc.WEIGHT: "weight", fc.WIDTH: "width", fc.SIZE: "size", fc.ASPECT: "aspect", fc.PIXEL_SIZE: "pixelsize", fc.SPACING: "spacing",
	fc.FOUNDRY: "foundry", fc.ANTIALIAS: "antialias", fc.HINT_STYLE: "hintstyle", fc.HINTING: "hinting", fc.VERTICAL_LAYOUT: "verticallayout", fc.AUTOHINT: "autohint",
	fc.GLOBAL_ADVANCE: "globaladvance", fc.FILE: "file", fc.INDEX: "index", fc.RASTERIZER: "rasterizer", fc.OUTLINE: "outline", fc.SCALABLE: "scalable",
	fc.DPI: "dpi", fc.RGBA: "rgba", fc.SCALE: "scale", fc.MINSPACE: "minspace", fc.CHARWIDTH: "charwidth", fc.CHAR_HEIGHT: "charheight", fc.MATRIX: "matrix",
	fc.CHARSET: "charset", fc.LANG: "lang", fc.FONTVERSION: "fontversion", fc.CAPABILITY: "capability", fc.FONTFORMAT: "fontformat", fc.EMBOLDEN: "embolden",
	fc.EMBEDDED_BITMAP: "embeddedbitmap", fc.DECORATIVE: "decorative", fc.LCD_FILTER: "lcdfilter", fc.NAMELANG: "namelang", fc.FONT_FEATURES: "fontfeatures", fc.PRGNAME: "prgname",
	fc.HASH: "hash", fc.POSTSCRIPT_NAME: "postscriptname", fc.COLOR: "color", fc.SYMBOL: "symbol", fc.FONT_VARIATIONS: "fontvariations", fc.VARIABLE: "variable",
	fc.FONT_HAS_HINT: "fonthashint", fc.ORDER: "order",
}

var builtins []fc.Object

func init() {
	for o := fc.Object(1); o < fc.FirstCustomObject; o++ {
		if _, ok := objType[o]; !ok {
			panic(fmt.Sprintf("object %d has no type", o))
		}
		builtins = append(builtins, o)
	}
}

func typeOf(o fc.Object) otype {
	if t, ok := objType[o]; ok {
		return t
	}
	return oAny
}

func kindOf(v fc.Value) otype {
	switch v.(type) {
	case fc.String:
		return oString
	case fc.Int:
		return oInt
	case fc.Range:
		return oRange
	case fc.Float:
		return oFloat
	case fc.Bool:
		return oBool
	case fc.Matrix:
		return oMatrix
	case fc.Charset:
		return oCharset
	case fc.Langset:
		return oLangset
	}
	return oAny
}

// accepts: integers stand for floats, numbers for ranges, strings for language sets
func accepts(o fc.Object, v fc.Value) bool {
	t, k := typeOf(o), kindOf(v)
	switch t {
	case oAny:
		return true
	case oFloat:
		return k == oFloat || k == oInt
	case oRange:
		return k == oFloat || k == oInt || k == oRange
	case oLangset:
		return k == oLangset || k == oString
	}
	return t == k
}

var someStrings = []string{"", "a", "A", "b", "ab", "c", "a b", " a", "DejaVu Sans", "dejavu sans", "DejaVuSans", "Foo", "foo bar", "é", "Été", "x\x00y", "\xff\xfe", "1", "true", "1.5", "日本", "w", "]"}

func genString(t *pbt.T) string {
	switch t.Weighted(8, 2, 1) {
	case 0:
		return pbt.Pick(t, someStrings)
	case 1:
		n := t.Size(8)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(t.Intn(256))
		}
		return string(b)
	default:
		return strings.Repeat(pbt.Pick(t, []string{"x", "yz", "\x00"}), 1<<uint(t.Intn(12)))
	}
}

var someFloats = []float32{0, 1, -1, 0.5, 12, 75, 80, 80.5, 100, 200, 1e-3, 1e10, 3.25, math.MaxFloat32, math.SmallestNonzeroFloat32, 0.1, 16777217}

func genFloat(t *pbt.T) float32 {
	switch t.Weighted(8, 2, 1) {
	case 0:
		return pbt.Pick(t, someFloats)
	case 1:
		return float32(t.Range(-4000, 4000)) / 4
	default:
		f := math.Float32frombits(uint32(t.U64()))
		if f != f {
			return 7
		}
		return f
	}
}

func genInt(t *pbt.T) int32 {
	switch t.Weighted(6, 1, 1) {
	case 0:
		return int32(t.Range(-2, 210))
	case 1:
		return pbt.Pick(t, []int32{0, 1, -1, math.MaxInt32, math.MinInt32, 1 << 24, 65536, 255, 256, 65535})
	default:
		return int32(t.U64())
	}
}

func genRuneSet(t *pbt.T) runeSet {
	out := runeSet{}
	n := t.Size(6)
	for i := 0; i < n; i++ {
		start := t.Intn(len(universe))
		l := 1
		if t.Chance(1, 3) {
			l = 1 + t.Intn(70)
		}
		for j := start; j < start+l && j < len(universe); j++ {
			out[universe[j]] = true
		}
	}
	return out
}

func genLangs(t *pbt.T, unknown bool) []string {
	var out []string
	for n := t.Size(4); n > 0; n-- {
		if unknown && t.Chance(1, 4) {
			out = append(out, pbt.Pick(t, unknownLangs))
		} else {
			out = append(out, genKnownLang(t))
		}
	}
	return out
}

var orthoList = strings.Fields(orthographies)

// genKnownLang yields one of the languages with an orthography
func genKnownLang(t *pbt.T) string {
	if t.Bool() {
		return pbt.Pick(t, orthoList)
	}
	return pbt.Pick(t, knownLangs)
}

func mkLangset(tags []string) fc.Langset {
	if len(tags) == 0 {
		return fc.Langset{}
	}
	return fc.NewLangset(strings.Join(tags, "|"))
}

func genValue(t *pbt.T, k otype, unknownLang bool) fc.Value {
	switch k {
	case oString:
		return fc.String(genString(t))
	case oInt:
		return fc.Int(genInt(t))
	case oFloat:
		return fc.Float(genFloat(t))
	case oRange:
		return fc.Range{Begin: genFloat(t), End: genFloat(t)}
	case oBool:
		return fc.Bool(t.Intn(3))
	case oMatrix:
		return fc.Matrix{Xx: genFloat(t), Xy: genFloat(t), Yx: genFloat(t), Yy: genFloat(t)}
	case oCharset:
		return genRuneSet(t).charset()
	case oLangset:
		return mkLangset(genLangs(t, unknownLang))
	}
	return genValue(t, otype(t.Intn(int(oAny))), unknownLang)
}

// a value accepted by the object
func genValueFor(t *pbt.T, o fc.Object, unknownLang bool) fc.Value {
	switch k := typeOf(o); k {
	case oFloat:
		return genValue(t, pbt.Pick(t, []otype{oFloat, oInt}), unknownLang)
	case oRange:
		return genValue(t, pbt.Pick(t, []otype{oRange, oFloat, oInt}), unknownLang)
	case oLangset:
		if t.Chance(1, 4) {
			return fc.String(genKnownLang(t))
		}
		return genValue(t, oLangset, unknownLang)
	default:
		return genValue(t, k, unknownLang)
	}
}

func genObject(t *pbt.T) fc.Object {
	if t.Chance(1, 6) {
		return fc.FirstCustomObject + fc.Object(pbt.Pick(t, []int{0, 1, 20, 21, 22, 1000, 65000 - int(fc.FirstCustomObject)}))
	}
	return pbt.Pick(t, builtins)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func mustLoad(xml string) *fc.Config {
	c := fc.NewConfig()
	if err := c.LoadFromMemory(strings.NewReader(xml)); err != nil {
		panic(fmt.Sprintf("%s\n%s", err, xml))
	}
	return c
}

// customObjects returns the objects the configuration assigned to the custom names: each
// name must be given by the document `decl`
func customObjects(c *fc.Config, names []string) map[string]fc.Object {
	var b strings.Builder
	b.WriteString("<fontconfig><match target=\"font\">")
	for i, n := range names {
		fmt.Fprintf(&b, `<edit name="%s"><string>verif-id-%d</string></edit>`, n, i)
	}
	b.WriteString("</match></fontconfig>")
	cp := c.Copy()
	if err := cp.LoadFromMemory(strings.NewReader(b.String())); err != nil {
		panic(err)
	}
	p := fc.NewPattern()
	cp.Substitute(p, fc.NewPattern(), fc.MatchResult)
	out := map[string]fc.Object{}
	for i, n := range names {
		for o := range p {
			if s, ok := p.GetString(o); ok && s == fmt.Sprintf("verif-id-%d", i) {
				out[n] = o
			}
		}
		if out[n] == 0 {
			panic("custom object not found: " + n)
		}
	}
	return out
}
