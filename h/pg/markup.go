package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// exp is an attribute denoted by an element
type exp struct {
	kind pango.AttrKind
	val  string  // when not a number
	num  float64 // else
	tol  float64
	desc *mdesc // font descriptions
}

// mdesc is the content of a font description
type mdesc struct {
	family   string
	weight   int
	style    int
	variant  int
	stretch  int
	size     float64
	abs      bool
	hasSize  bool
	vars     string
	grav     int // -1 unset
	spelling string
}

func (e exp) String() string {
	if e.desc != nil {
		return fmt.Sprintf("%v=%+v", e.kind, *e.desc)
	}
	if e.val != "" {
		return fmt.Sprintf("%v=%s", e.kind, e.val)
	}
	return fmt.Sprintf("%v=%g", e.kind, e.num)
}

// fromAttr reads an attribute of the output
func fromAttr(a *pango.Attribute) exp {
	e := exp{kind: a.Kind}
	switch d := a.Data.(type) {
	case pango.AttrInt:
		e.num = float64(d)
	case pango.AttrFloat:
		e.num = float64(d)
	case pango.FontDescription:
		e.desc = &mdesc{family: d.FamilyName, weight: int(d.Weight), style: int(d.Style), variant: int(d.Variant), stretch: int(d.Stretch), size: float64(d.Size), abs: d.SizeIsAbsolute, vars: d.Variations, grav: int(d.Gravity)}
		probe := d
		probe.UnsetFields(pango.FmSize)
		e.desc.hasSize = probe != d
		probe = d
		probe.UnsetFields(pango.FmGravity)
		if probe == d {
			e.desc.grav = -1
		}
	default:
		e.val = a.Data.String()
	}
	return e
}

func (e exp) same(o exp) bool {
	if e.kind != o.kind || e.val != o.val || (e.desc == nil) != (o.desc == nil) {
		return false
	}
	if e.desc != nil {
		a, b := *e.desc, *o.desc
		a.spelling, b.spelling = "", ""
		return a == b
	}
	tol := math.Max(e.tol, o.tol)
	return math.Abs(e.num-o.num) <= tol+1e-5*math.Max(math.Abs(e.num), math.Abs(o.num))
}

// the attributes of <span>

// spanAttr is one generator of attribute values
type spanAttr struct {
	names []string
	gen   func(t *pbt.T) (string, []exp)
	bad   []string
}

type word struct {
	s string
	v int
}

var weightWords = []word{
	{"thin", 100}, {"ultra-light", 200}, {"extra-light", 200}, {"light", 300}, {"semi-light", 350}, {"demi-light", 350},
	{"book", 380}, {"regular", 400}, {"medium", 500}, {"semi-bold", 600}, {"demi-bold", 600}, {"bold", 700},
	{"ultra-bold", 800}, {"extra-bold", 800}, {"heavy", 900}, {"black", 900},
	{"ultra-heavy", 1000}, {"extra-heavy", 1000}, {"ultra-black", 1000}, {"extra-black", 1000},
}
var styleWords = []word{{"roman", 0}, {"oblique", 1}, {"italic", 2}}
var variantWords = []word{{"small-caps", 1}, {"all-small-caps", 2}, {"petite-caps", 3}, {"all-petite-caps", 4}, {"unicase", 5}, {"title-caps", 6}}
var stretchWords = []word{{"ultra-condensed", 0}, {"extra-condensed", 1}, {"condensed", 2}, {"semi-condensed", 3}, {"semi-expanded", 5}, {"expanded", 6}, {"extra-expanded", 7}, {"ultra-expanded", 8}}
var gravityWords = []word{{"not-rotated", 0}, {"south", 0}, {"upside-down", 2}, {"north", 2}, {"rotated-left", 1}, {"east", 1}, {"rotated-right", 3}, {"west", 3}}

// spell varies the case and drops hyphens
func spell(t *pbt.T, s string) string {
	if t.Intn(3) == 0 {
		s = strings.ReplaceAll(s, "-", "")
	}
	switch t.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	case 2:
		parts := strings.Split(s, "-")
		for i := range parts {
			parts[i] = strings.Title(parts[i])
		}
		return strings.Join(parts, "-")
	}
	return genCase(t, s)
}

func fieldGen(kind pango.AttrKind, words []word, normal int, more ...word) func(t *pbt.T) (string, []exp) {
	all := append(append([]word{{"normal", normal}}, words...), more...)
	return func(t *pbt.T) (string, []exp) {
		w := pbt.Pick(t, all)
		return spell(t, w.s), []exp{{kind: kind, num: float64(w.v)}}
	}
}

func enumGen(kind pango.AttrKind, words ...word) func(t *pbt.T) (string, []exp) {
	return func(t *pbt.T) (string, []exp) {
		w := pbt.Pick(t, words)
		return w.s, []exp{{kind: kind, num: float64(w.v)}}
	}
}

func boolGen(kind pango.AttrKind) func(t *pbt.T) (string, []exp) {
	return enumGen(kind, word{"true", 1}, word{"yes", 1}, word{"t", 1}, word{"y", 1}, word{"false", 0}, word{"no", 0}, word{"f", 0}, word{"n", 0})
}

func colorGen(kind, alpha pango.AttrKind) func(t *pbt.T) (string, []exp) {
	return func(t *pbt.T) (string, []exp) {
		var spec string
		if t.Bool() {
			spec = pbt.Pick(t, []string{"red", "blue", "white", "rebeccapurple"})
		} else {
			n := pbt.Pick(t, []int{3, 6, 9, 12})
			if alpha != 0 && t.Bool() {
				n = pbt.Pick(t, []int{4, 8, 16})
			}
			spec = "#"
			for i := 0; i < n; i++ {
				spec += string("0123456789abcdefABCDEF"[t.Intn(22)])
			}
		}
		c, _ := parseColor(spec, alpha != 0)
		out := []exp{{kind: kind, val: fmt.Sprintf("#%04x%04x%04x", c.r, c.g, c.b)}}
		if c.a != 0xffff {
			out = append(out, exp{kind: alpha, num: float64(c.a)})
		}
		return spec, out
	}
}

func alphaGen(kind pango.AttrKind) func(t *pbt.T) (string, []exp) {
	return func(t *pbt.T) (string, []exp) {
		if t.Bool() {
			v := 1 + t.Intn(100)
			return fmt.Sprintf("%d%%", v), []exp{{kind: kind, num: float64(v) * 65535 / 100, tol: 1}}
		}
		v := pbt.Pick(t, []int{1, 2, 0x7fff, 0x8000, 0xffff, 1 + t.Intn(0xffff)})
		return fmt.Sprint(v), []exp{{kind: kind, num: float64(v)}}
	}
}

// genLength yields a length in Pango units or points
func genLength(t *pbt.T, neg bool) (string, float64) {
	v := 1 + t.Intn(60)
	if neg && t.Intn(3) == 0 {
		v = -v
	}
	switch t.Intn(3) {
	case 0:
		return fmt.Sprint(v * 997), float64(v * 997)
	case 1:
		return fmt.Sprintf("%dpt", v), float64(v * 1024)
	}
	d := t.Intn(10)
	f := float64(v) + math.Copysign(float64(d)/10, float64(v))
	return fmt.Sprintf("%.1fpt", f), f * 1024
}

var scaleNames = []struct {
	s string
	n int
}{{"xx-small", -3}, {"x-small", -2}, {"small", -1}, {"medium", 0}, {"large", 1}, {"x-large", 2}, {"xx-large", 3}}

// families and words which are not keywords
var famWords = []string{"Sans", "DejaVu", "Serif", "Noto", "Mono", "Foo-Bar", "字体", "Ünder", "L10n", "3D", "a"}

func genFamily(t *pbt.T) string {
	var fams []string
	for i := 1 + t.Intn(2); i > 0; i-- {
		var ws []string
		for j := 1 + t.Intn(2); j > 0; j-- {
			ws = append(ws, pbt.Pick(t, famWords))
		}
		fams = append(fams, strings.Join(ws, " "))
	}
	return strings.Join(fams, ",")
}

// genDesc yields a description and its spelling
func genDesc(t *pbt.T) mdesc {
	d := mdesc{weight: 400, stretch: 4, grav: -1}
	var parts []string
	if t.Intn(3) != 0 {
		d.family = genFamily(t)
		f := d.family
		if t.Intn(3) == 0 {
			f = strings.ReplaceAll(f, ",", pbt.Pick(t, []string{", ", " ,", " , "}))
		}
		if t.Intn(4) == 0 {
			f += ","
		}
		parts = append(parts, f)
	}
	// style words: one of each category, in any order
	for _, c := range t.Perm(6) {
		if t.Intn(4) != 0 {
			continue
		}
		switch c {
		case 0:
			w := pbt.Pick(t, weightWords)
			d.weight = w.v
			parts = append(parts, spell(t, w.s))
		case 1:
			w := pbt.Pick(t, styleWords)
			d.style = w.v
			parts = append(parts, spell(t, w.s))
		case 2:
			w := pbt.Pick(t, variantWords)
			d.variant = w.v
			parts = append(parts, spell(t, w.s))
		case 3:
			w := pbt.Pick(t, stretchWords)
			d.stretch = w.v
			parts = append(parts, spell(t, w.s))
		case 4:
			w := pbt.Pick(t, gravityWords)
			d.grav = w.v
			parts = append(parts, spell(t, w.s))
		case 5:
			parts = append(parts, spell(t, "normal"))
		}
	}
	if t.Bool() {
		d.hasSize = true
		v := t.Intn(4000)
		var s string
		switch t.Intn(3) {
		case 0:
			v = v / 10 * 10
			s = fmt.Sprint(v / 10)
		case 1:
			s = fmt.Sprintf("%d.%d", v/10, v%10)
		default:
			s = fmt.Sprintf("%g", float64(v)/10)
		}
		d.size = math.Floor(float64(v)/10*1024 + 0.5)
		if t.Intn(4) == 0 {
			d.abs = true
			s += "px"
		}
		parts = append(parts, s)
	}
	if t.Intn(5) == 0 {
		d.vars = pbt.Pick(t, []string{"wght=200", "wght=200,wdth=50", "slnt=-12.5", "wght200"})
		parts = append(parts, "@"+d.vars)
	}
	sep := " "
	if t.Intn(4) == 0 {
		sep = pbt.Pick(t, []string{"  ", "\t", " \n "})
	}
	d.spelling = strings.Join(parts, sep)
	if t.Intn(6) == 0 {
		d.spelling = " " + d.spelling + "  "
	}
	if d.family == "" && len(parts) == 0 {
		d.spelling = "Normal"
	}
	return d
}

var spanAttrs = []spanAttr{
	{[]string{"font_family", "face"}, func(t *pbt.T) (string, []exp) {
		f := genFamily(t)
		return f, []exp{{kind: pango.ATTR_FAMILY, val: f}}
	}, nil},
	{[]string{"font_style", "style"}, fieldGen(pango.ATTR_STYLE, styleWords, 0), []string{"slanted", "italics", "ital ic", " italic", "ital", "ita-lic", "-", "bold"}},
	{[]string{"font_weight", "weight"}, func() func(t *pbt.T) (string, []exp) {
		named := fieldGen(pango.ATTR_WEIGHT, weightWords, 400)
		return func(t *pbt.T) (string, []exp) {
			if t.Intn(4) == 0 {
				v := pbt.Pick(t, []int{100, 150, 400, 450, 700, 1000, 1 + t.Intn(1000)})
				return fmt.Sprint(v), []exp{{kind: pango.ATTR_WEIGHT, num: float64(v)}}
			}
			return named(t)
		}
	}(), []string{"over", "bolder", "600.5", "6OO", "b-old", "--", "italic", "semi_bold "}},
	{[]string{"font_variant", "variant"}, fieldGen(pango.ATTR_VARIANT, variantWords, 0, word{"smallcaps", 1}), []string{"fancy", "small", "caps", "small--caps", "-"}},
	{[]string{"font_stretch", "stretch"}, fieldGen(pango.ATTR_STRETCH, stretchWords, 4), []string{"ultra", "wide", "con-densed", "-", "expand"}},
	{[]string{"font_features"}, func(t *pbt.T) (string, []exp) {
		v := pbt.Pick(t, []string{"liga=0", "dlig=1, -kern, afrc on", "ss01"})
		return v, []exp{{kind: pango.ATTR_FONT_FEATURES, val: v}}
	}, nil},
	{[]string{"foreground", "fgcolor", "color"}, colorGen(pango.ATTR_FOREGROUND, pango.ATTR_FOREGROUND_ALPHA), []string{"shubidoo", "#", "#12", "#12345", "rgb(1,2,3)", "#ggg", "red ", "#-1-1-1"}},
	{[]string{"background", "bgcolor"}, colorGen(pango.ATTR_BACKGROUND, pango.ATTR_BACKGROUND_ALPHA), []string{"shubidoo", "#", "#1234567", "0x000", "transparent"}},
	{[]string{"alpha", "fgalpha"}, alphaGen(pango.ATTR_FOREGROUND_ALPHA), []string{"seethru", "0", "-1", "65537", "100000", "101%", "0%", "-5%", "50.5%", "0.5", "50 %", "%", "9999999999999"}},
	{[]string{"background_alpha", "bgalpha"}, alphaGen(pango.ATTR_BACKGROUND_ALPHA), []string{"seethru", "0", "-100", "70000", "131072", "200%", "0%", "12px", "9999999999999"}},
	{[]string{"underline"}, enumGen(pango.ATTR_UNDERLINE, word{"none", 0}, word{"single", 1}, word{"double", 2}, word{"error", 4}, word{"single-line", 5}, word{"double-line", 6}, word{"error-line", 7}), []string{"dotted", "true", "1", "-", "sin-gle", "single line"}},
	{[]string{"underline_color"}, colorGen(pango.ATTR_UNDERLINE_COLOR, 0), []string{"shubidoo", "#1234", "#12345678"}},
	{[]string{"overline"}, enumGen(pango.ATTR_OVERLINE, word{"none", 0}, word{"single", 1}), []string{"dotted", "double", "yes"}},
	{[]string{"overline_color"}, colorGen(pango.ATTR_OVERLINE_COLOR, 0), []string{"shubidoo", "#1234", "#12345678"}},
	{[]string{"rise"}, func(t *pbt.T) (string, []exp) {
		s, v := genLength(t, true)
		return s, []exp{{kind: pango.ATTR_RISE, num: v, tol: 1}}
	}, []string{"sky", "pt", "5px", "5 pt", "1e400pt", "nanpt", "infpt", "5.5"}},
	{[]string{"strikethrough"}, boolGen(pango.ATTR_STRIKETHROUGH), []string{"x", "1", "TRU", "maybe"}},
	{[]string{"strikethrough_color"}, colorGen(pango.ATTR_STRIKETHROUGH_COLOR, 0), []string{"rot", "#1234", "#1234567890123456"}},
	{[]string{"fallback"}, boolGen(pango.ATTR_FALLBACK), []string{"x", "0"}},
	{[]string{"allow_breaks"}, boolGen(pango.ATTR_ALLOW_BREAKS), []string{"blue", "on"}},
	{[]string{"insert_hyphens"}, boolGen(pango.ATTR_INSERT_HYPHENS), []string{"blue", "off"}},
	{[]string{"show"}, func(t *pbt.T) (string, []exp) {
		names := []string{"spaces", "line-breaks", "ignorables"}
		if t.Intn(4) == 0 {
			return "none", []exp{{kind: pango.ATTR_SHOW, num: 0}}
		}
		v := 0
		var l []string
		for i := 1 + t.Intn(3); i > 0; i-- {
			k := t.Intn(3)
			v |= 1 << k
			l = append(l, names[k])
		}
		return strings.Join(l, "|"), []exp{{kind: pango.ATTR_SHOW, num: float64(v)}}
	}, []string{"all", "spaces|", "|", "spaces,ignorables", "spaces||ignorables", "tabs"}},
	{[]string{"lang"}, func(t *pbt.T) (string, []exp) {
		v := pbt.Pick(t, []string{"de", "en-us", "zh-tw", "ja"})
		return v, []exp{{kind: pango.ATTR_LANGUAGE, val: v}}
	}, nil},
	{[]string{"letter_spacing"}, func(t *pbt.T) (string, []exp) {
		v := t.Intn(4000) - 2000
		return fmt.Sprint(v), []exp{{kind: pango.ATTR_LETTER_SPACING, num: float64(v)}}
	}, []string{"wide", "1.5", "9999999999999", "10pt", "0x10"}},
	{[]string{"gravity"}, enumGen(pango.ATTR_GRAVITY, word{"south", 0}, word{"east", 1}, word{"north", 2}, word{"west", 3}), []string{"moon", "auto", "nor-th", "left"}},
	{[]string{"gravity_hint"}, enumGen(pango.ATTR_GRAVITY_HINT, word{"natural", 0}, word{"strong", 1}, word{"line", 2}), []string{"blue", "strongly"}},
	{[]string{"baseline_shift"}, func(t *pbt.T) (string, []exp) {
		switch t.Intn(4) {
		case 0:
			return "superscript", []exp{{kind: pango.ATTR_BASELINE_SHIFT, num: float64(pango.BASELINE_SHIFT_SUPERSCRIPT)}}
		case 1:
			return "subscript", []exp{{kind: pango.ATTR_BASELINE_SHIFT, num: float64(pango.BASELINE_SHIFT_SUBSCRIPT)}}
		case 2:
			return "none", []exp{{kind: pango.ATTR_BASELINE_SHIFT, num: 0}}
		}
		s, v := genLength(t, true)
		if math.Abs(v) <= 1030 {
			s, v = "5000", 5000
		}
		return s, []exp{{kind: pango.ATTR_BASELINE_SHIFT, num: v, tol: 1}}
	}, []string{"up", "1", "1024", "-1024", "0.5pt", "5px", "nanpt"}},
	{[]string{"font_scale"}, enumGen(pango.ATTR_FONT_SCALE, word{"none", 0}, word{"superscript", 1}, word{"subscript", 2}), []string{"big", "1.5", "small"}},
	{[]string{"line_height"}, func(t *pbt.T) (string, []exp) {
		if t.Bool() {
			v := 1025 + t.Intn(50000)
			return fmt.Sprint(v), []exp{{kind: pango.ATTR_ABSOLUTE_LINE_HEIGHT, num: float64(v)}}
		}
		v := 1 + t.Intn(40)
		if t.Intn(4) == 0 {
			return fmt.Sprint(v), []exp{{kind: pango.ATTR_LINE_HEIGHT, num: float64(v)}}
		}
		return fmt.Sprintf("%d.%d", v/10, v%10), []exp{{kind: pango.ATTR_LINE_HEIGHT, num: float64(v) / 10}}
	}, []string{"tall", "1,5", "2em", "50%", "nan", "inf"}},
	{[]string{"text_transform"}, enumGen(pango.ATTR_TEXT_TRANSFORM, word{"none", 0}, word{"lowercase", 1}, word{"uppercase", 2}, word{"capitalize", 3}), []string{"rotate", "upper"}},
	{[]string{"segment"}, func(t *pbt.T) (string, []exp) {
		if t.Bool() {
			return "word", []exp{{kind: pango.ATTR_WORD, num: 1}}
		}
		return "sentence", []exp{{kind: pango.ATTR_SENTENCE, num: 1}}
	}, []string{"paragraph", "words"}},
	{[]string{"size", "font_size"}, nil, []string{"blue", "0", "-10", "-5pt", "0pt", "12px", "12.5", "1e400pt", "nanpt", "infpt", "nan%", "inf%", "0%", "-20%", "%", "xxx-small", "Smaller", "99999999999"}},
	{[]string{"font", "font_desc"}, nil, nil},
}

// sizeState is what relative sizes are relative to
type sizeState struct {
	scale  float64 // factor of the sizes without known base
	size   float64 // known size
	abs    bool
	known  bool
	level  int
	change bool // the element changed the level
}

func (s *sizeState) attr() exp {
	f := math.Pow(1.2, float64(s.level))
	if s.known {
		k := pango.ATTR_SIZE
		if s.abs {
			k = pango.ATTR_ABSOLUTE_SIZE
		}
		return exp{kind: k, num: math.Trunc(s.size * f), tol: 1 + f}
	}
	return exp{kind: pango.ATTR_SCALE, num: f * s.scale}
}

// elem is a node of the document: an element or a text
type elem struct {
	tag   string
	attrs []mattr
	kids  []*elem
	raw   string // markup of a text
	text  []rune

	start, end int
	exps       []exp
	parent     *elem

	open, close string // replace the tags (invalid documents)
}

type mattr struct{ name, val, quote string }

// doc is a generated document
type doc struct {
	root  *elem
	accel rune
	text  []rune
	elems []*elem
	// the positions which are accelerators
	accels []int
	accelC rune
}

var textRunes = []rune("abc dÉ\n漢🙂'\"&<>;_&")

// genText yields a run of character data and its meaning
func (d *doc) genText(t *pbt.T) *elem {
	e := &elem{}
	var b strings.Builder
	pick := func() rune {
		r := pbt.Pick(t, textRunes)
		if r == '_' && d.accel != 0 {
			return '-'
		}
		return r
	}
	for n := 1 + t.Intn(4); n > 0; n-- {
		r := pick()
		if d.accel != 0 && t.Intn(4) == 0 {
			if t.Intn(3) == 0 { // literal marker
				b.WriteString("__")
				e.text = append(e.text, '_')
				continue
			}
			b.WriteString("_")
			d.accels = append(d.accels, len(d.text)+len(e.text))
			if d.accelC == 0 {
				d.accelC = r
			}
		}
		e.text = append(e.text, r)
		switch r {
		case '&':
			b.WriteString(pbt.Pick(t, []string{"&amp;", "&#38;", "&#x26;"}))
		case '<':
			b.WriteString(pbt.Pick(t, []string{"&lt;", "&#60;", "&#x3c;"}))
		case '>':
			b.WriteString(pbt.Pick(t, []string{"&gt;", "&#62;", ">"}))
		case '"':
			b.WriteString(pbt.Pick(t, []string{"&quot;", "\""}))
		case '\'':
			b.WriteString(pbt.Pick(t, []string{"&apos;", "'"}))
		default:
			if t.Intn(8) == 0 {
				fmt.Fprintf(&b, pbt.Pick(t, []string{"&#%d;", "&#x%x;", "&#x%X;"}), r)
			} else {
				b.WriteRune(r)
			}
		}
	}
	e.raw = b.String()
	return e
}

func (d *doc) gen(t *pbt.T, e *elem, depth int, st sizeState) {
	e.start = len(d.text)
	d.elems = append(d.elems, e)
	st.change = false
	d.denote(t, e, &st)
	for n := t.Intn(4); n > 0; n-- {
		switch k := t.Weighted(4, 4, 1); {
		case k == 0 || depth == 0 && k == 1:
			kid := d.genText(t)
			d.text = append(d.text, kid.text...)
			e.kids = append(e.kids, kid)
		case k == 1:
			kid := &elem{parent: e}
			kid.tag = pbt.Pick(t, []string{"span", "span", "span", "span", "b", "big", "i", "s", "sub", "sup", "small", "tt", "u", "markup"})
			e.kids = append(e.kids, kid)
			d.gen(t, kid, depth-1, st)
		default:
			kid := &elem{}
			switch t.Intn(3) {
			case 0:
				kid.raw = pbt.Pick(t, []string{"<!-- c -->", "<!--<b>-->", "<!---->"})
			case 1:
				kid.raw = "<?pi some?>"
			case 2:
				s := pbt.Pick(t, []string{"<b>", "&amp;", "x", "a > b"})
				kid.raw = "<![CDATA[" + s + "]]>"
				kid.text = []rune(s)
				d.text = append(d.text, kid.text...)
			}
			e.kids = append(e.kids, kid)
		}
	}
	e.end = len(d.text)
}

// denote chooses the attributes and records what they denote
func (d *doc) denote(t *pbt.T, e *elem, st *sizeState) {
	num := func(k pango.AttrKind, v int) { e.exps = append(e.exps, exp{kind: k, num: float64(v)}) }
	switch e.tag {
	case "b":
		num(pango.ATTR_WEIGHT, 700)
	case "i":
		num(pango.ATTR_STYLE, 2)
	case "s":
		num(pango.ATTR_STRIKETHROUGH, 1)
	case "u":
		num(pango.ATTR_UNDERLINE, 1)
	case "tt":
		e.exps = append(e.exps, exp{kind: pango.ATTR_FAMILY, val: "Monospace"})
	case "sub":
		num(pango.ATTR_FONT_SCALE, int(pango.FONT_SCALE_SUBSCRIPT))
		num(pango.ATTR_BASELINE_SHIFT, int(pango.BASELINE_SHIFT_SUBSCRIPT))
	case "sup":
		num(pango.ATTR_FONT_SCALE, int(pango.FONT_SCALE_SUPERSCRIPT))
		num(pango.ATTR_BASELINE_SHIFT, int(pango.BASELINE_SHIFT_SUPERSCRIPT))
	case "big":
		st.level++
		st.change = true
	case "small":
		st.level--
		st.change = true
	case "span":
		d.genSpan(t, e, st)
	}
	if st.change {
		e.exps = append(e.exps, st.attr())
	}
}

func (d *doc) genSpan(t *pbt.T, e *elem, st *sizeState) {
	set := map[int]bool{}
	for n := t.Intn(5); n > 0; n-- {
		i := t.Intn(len(spanAttrs))
		if t.Intn(3) == 0 { // favor the sizes and fonts
			i = len(spanAttrs) - 1 - t.Intn(2)
		}
		set[i] = true
	}
	// the font first, then the others
	var order []int
	for i := range spanAttrs {
		if set[i] {
			order = append(order, i)
		}
	}
	sort.SliceStable(order, func(a, b int) bool {
		return order[a] == len(spanAttrs)-1 && order[b] != len(spanAttrs)-1
	})
	vals := map[int]string{}
	for _, i := range order {
		a := spanAttrs[i]
		switch a.names[0] {
		case "font":
			desc := genDesc(t)
			e.exps = append(e.exps, exp{kind: pango.ATTR_FONT_DESC, desc: &desc})
			vals[i] = desc.spelling
			if desc.hasSize {
				*st = sizeState{scale: st.scale, size: desc.size, abs: desc.abs, known: true}
			}
		case "size":
			switch t.Intn(5) {
			case 0:
				s, v := genLength(t, false)
				vals[i] = s
				e.exps = append(e.exps, exp{kind: pango.ATTR_SIZE, num: v, tol: 1})
				*st = sizeState{scale: st.scale, size: v, known: true}
			case 1:
				vals[i] = "smaller"
				st.level--
				st.change = true
			case 2:
				vals[i] = "larger"
				st.level++
				st.change = true
			case 3:
				n := pbt.Pick(t, scaleNames)
				vals[i] = n.s
				f := math.Pow(1.2, float64(n.n))
				e.exps = append(e.exps, exp{kind: pango.ATTR_SCALE, num: f})
				*st = sizeState{scale: f}
			case 4:
				p := pbt.Pick(t, []string{"50", "200", "133.3", "100", "1"})
				vals[i] = p + "%"
				var f float64
				fmt.Sscan(p, &f)
				f /= 100
				e.exps = append(e.exps, exp{kind: pango.ATTR_SCALE, num: f})
				*st = sizeState{scale: f}
			}
		default:
			v, ex := a.gen(t)
			vals[i] = v
			e.exps = append(e.exps, ex...)
		}
	}
	// explicit alpha wins over the color: keep the order of the table
	for _, k := range t.Perm(len(order)) {
		i := order[k]
		name := pbt.Pick(t, spanAttrs[i].names)
		if t.Intn(3) == 0 {
			name = strings.ReplaceAll(name, "_", "-")
		}
		e.attrs = append(e.attrs, mattr{name, vals[i], pbt.Pick(t, []string{`"`, `'`})})
	}
}

func (e *elem) render(b *strings.Builder) {
	if e.tag == "" {
		b.WriteString(e.raw)
		return
	}
	top := e.parent == nil && e.tag == "root"
	var in strings.Builder
	for _, k := range e.kids {
		k.render(&in)
	}
	if top {
		b.WriteString(in.String())
		return
	}
	if e.open != "" {
		b.WriteString(e.open)
	} else {
		b.WriteString("<" + e.tag)
		for i, a := range e.attrs {
			b.WriteString([]string{" ", "\n  ", " "}[i%3])
			v := xmlAttr(a.val)
			if a.quote == `'` {
				v = strings.ReplaceAll(strings.ReplaceAll(v, "&quot;", `"`), "'", "&apos;")
			}
			b.WriteString(a.name + []string{"=", " = ", "="}[(i+len(a.val))%3] + a.quote + v + a.quote)
		}
		if in.Len() == 0 && e.close == "" && len(e.attrs)%2 == 1 {
			b.WriteString("/>")
			return
		}
		b.WriteString(">")
	}
	b.WriteString(in.String())
	if e.close != "" {
		b.WriteString(e.close)
	} else {
		b.WriteString("</" + e.tag + ">")
	}
}

func (d *doc) String() string {
	var b strings.Builder
	d.root.render(&b)
	return b.String()
}

func genDoc(t *pbt.T, depth int) *doc {
	d := &doc{root: &elem{tag: "root"}}
	if t.Intn(3) == 0 {
		d.accel = '_'
	}
	d.gen(t, d.root, depth, sizeState{scale: 1})
	return d
}

// effective computes what the attributes, by increasing precedence, mean together
func effective(l []exp) map[string]exp {
	out := map[string]exp{}
	put := func(k string, e exp) { out[k] = e }
	for _, e := range l {
		if d := e.desc; d != nil {
			if d.family != "" {
				put("family", exp{val: d.family})
			}
			put("weight", exp{num: float64(d.weight)})
			put("style", exp{num: float64(d.style)})
			put("variant", exp{num: float64(d.variant)})
			put("stretch", exp{num: float64(d.stretch)})
			if d.hasSize {
				k := pango.ATTR_SIZE
				if d.abs {
					k = pango.ATTR_ABSOLUTE_SIZE
				}
				put("size", exp{kind: k, num: d.size})
			}
			if d.vars != "" {
				put("variations", exp{val: d.vars})
			}
			if d.grav != -1 {
				put("font gravity", exp{num: float64(d.grav)})
			}
			continue
		}
		k := e.kind.String()
		kind := e.kind
		if k == "absolute-size" {
			k = "size"
		}
		e.kind = 0
		if k == "size" {
			e.kind = kind
		}
		put(k, e)
	}
	return out
}

// checkDoc compares the result with the document
func checkDoc(t *pbt.T, d *doc, pm pango.ParsedMarkup) {
	if string(pm.Text) != string(d.text) {
		t.Fatalf("text is %q, want %q", string(pm.Text), string(d.text))
	}
	if pm.AccelChar != d.accelC {
		t.Fatalf("accelerator is %q, want %q", pm.AccelChar, d.accelC)
	}
	// accelerators
	var rest pango.AttrList
	low := map[int]bool{}
	for _, a := range pm.Attr {
		if v, ok := a.Data.(pango.AttrInt); ok && a.Kind == pango.ATTR_UNDERLINE && int(v) == int(pango.UNDERLINE_LOW) {
			for p := a.StartIndex; p < a.EndIndex && p <= len(d.text); p++ {
				low[p] = true
			}
			continue
		}
		rest = append(rest, a)
	}
	for _, p := range d.accels {
		if !low[p] {
			t.Fatalf("no underline on the accelerator at %d: %s", p, fmtSpans(spans(pm.Attr)))
		}
		delete(low, p)
	}
	if len(low) != 0 {
		t.Fatalf("accelerators underlined at %v, want %v", low, d.accels)
	}
	// the attributes of each range
	type ranged struct {
		s, e int
		x    exp
	}
	var got, want []ranged
	for _, a := range rest {
		if a.StartIndex < a.EndIndex {
			got = append(got, ranged{a.StartIndex, a.EndIndex, fromAttr(a)})
		} else if a.StartIndex > a.EndIndex || a.StartIndex > len(d.text) {
			t.Fatalf("invalid range: %v", a)
		}
	}
	for _, e := range d.elems {
		for _, x := range e.exps {
			if e.start < e.end {
				want = append(want, ranged{e.start, e.end, x})
			}
		}
	}
	used := make([]bool, len(got))
	for _, w := range want {
		found := false
		for i, g := range got {
			if !used[i] && g.s == w.s && g.e == w.e && g.x.same(w.x) {
				used[i], found = true, true
				break
			}
		}
		if !found {
			t.Fatalf("missing attribute [%d,%d) %v in %v", w.s, w.e, w.x, got)
		}
	}
	for i, g := range got {
		if !used[i] {
			t.Fatalf("unexpected attribute [%d,%d) %v; want %v", g.s, g.e, g.x, want)
		}
	}
	// precedence
	for p := range d.text {
		var g, w []exp
		for _, x := range got {
			if x.s <= p && p < x.e {
				g = append(g, x.x)
			}
		}
		for _, x := range want {
			if x.s <= p && p < x.e {
				w = append(w, x.x)
			}
		}
		eg, ew := effective(g), effective(w)
		for k, v := range ew {
			if o, ok := eg[k]; !ok || !o.same(v) {
				t.Fatalf("at %d, %s is %v, want %v\nattributes %v", p, k, o, v, g)
			}
		}
	}
}

var propP02 = &pbt.Prop{
	ID: "P02", Quick: 500000, Thorough: 20000000,
	Rule: "random trees of all elements with all span attributes and aliases, values in all documented forms, text with entities, character references, CDATA, comments, optional accelerators; the model computes text, ranges, attribute values (relative sizes included) and, at each position, the value in effect of each field; non trivial: at least two nested elements with attributes over text",
	Checks: []pbt.Check{{Name: "document", Run: func(t *pbt.T) {
		d := genDoc(t, 1+t.Intn(4))
		src := d.String()
		t.Input("accel %q markup %q", d.accel, src)
		var pm pango.ParsedMarkup
		var err error
		t.NoPanic("ParseMarkup", func() { pm, err = pango.ParseMarkup([]byte(src), d.accel) })
		if err != nil {
			t.Fatalf("rejected: %v", err)
		}
		checkDoc(t, d, pm)
		for _, e := range d.elems {
			if e.parent != nil && len(e.exps) > 0 && len(e.parent.exps) > 0 && e.start < e.end {
				t.NonTrivial(src)
			}
		}
	}}},
}

// ---------------------------------------------------------------- P03

// spoil makes the document invalid, in one place, and says how; "" if it could not
func spoil(t *pbt.T, d *doc) string {
	var els, spansEls []*elem
	for _, e := range d.elems[1:] {
		els = append(els, e)
		if e.tag == "span" {
			spansEls = append(spansEls, e)
		}
	}
	junk := func(e *elem, raw string) {
		i := t.Intn(len(e.kids) + 1)
		e.kids = append(e.kids[:i], append([]*elem{{raw: raw}}, e.kids[i:]...)...)
	}
	any := func() *elem { return d.elems[t.Intn(len(d.elems))] }
	switch t.Intn(12) {
	case 0:
		s := pbt.Pick(t, []string{"<", "&", "&foo;", "& b", "</", "<b", "<>", "< b>x</b>", "<b></i>", "<b>", "</b>", "</span>", "</markup>", "&#0;", "&lt ", "<b/x", "<b / >", "\xff", "\xc3", "<span size=\"", "<span size=10>x</span>", "<span size>x</span>", "<span size='10\">x</span>", "]]>", "<!-- -- -->"})
		junk(any(), s)
		return "junk " + s
	case 1:
		s := pbt.Pick(t, []string{"boo", "B", "Span", "x", "font", "a", "span1", "x:b", "pango:span", "b:b"})
		junk(any(), "<"+s+">x</"+s+">")
		return "element " + s
	case 2:
		s := pbt.Pick(t, []string{"b", "big", "i", "s", "sub", "sup", "small", "tt", "u", "markup"})
		a := pbt.Pick(t, []string{"size='10'", "foo='bar'", "x=''", "font='Sans'"})
		junk(any(), "<"+s+" "+a+">x</"+s+">")
		return "attribute of " + s
	case 3:
		if len(spansEls) == 0 {
			return ""
		}
		e := pbt.Pick(t, spansEls)
		n := pbt.Pick(t, []string{"foo", "Size", "SIZE", "fontsize", "font__size", "weights", "fg", "id", "class", "x:size", "foo:font", "colour", "font_lang"})
		e.attrs = append(e.attrs, mattr{n, "10", `"`})
		return "unknown attribute " + n
	case 4, 5, 6, 7:
		// a bad value on a new or existing span
		a := pbt.Pick(t, spanAttrs)
		if len(a.bad) == 0 {
			return ""
		}
		v := pbt.Pick(t, a.bad)
		if t.Intn(6) == 0 && a.names[0] != "font" {
			v = ""
		}
		n := pbt.Pick(t, a.names)
		if len(spansEls) == 0 || t.Bool() {
			junk(any(), fmt.Sprintf(`<span %s="%s">x</span>`, n, xmlAttr(v)))
		} else {
			e := pbt.Pick(t, spansEls)
			var kept []mattr
			for _, x := range e.attrs {
				same := false
				for _, m := range a.names {
					same = same || strings.ReplaceAll(x.name, "-", "_") == m
				}
				if !same {
					kept = append(kept, x)
				}
			}
			e.attrs = append(kept, mattr{n, v, `"`})
		}
		return "bad value of " + n + ": " + v
	case 8:
		if len(spansEls) == 0 {
			return ""
		}
		e := pbt.Pick(t, spansEls)
		if len(e.attrs) == 0 {
			return ""
		}
		x := pbt.Pick(t, e.attrs)
		for _, a := range spanAttrs {
			for _, n := range a.names {
				if strings.ReplaceAll(x.name, "-", "_") == n {
					m := pbt.Pick(t, a.names)
					if t.Bool() {
						m = strings.ReplaceAll(m, "_", "-")
					}
					e.attrs = append(e.attrs, mattr{m, x.val, `"`})
					return "duplicate " + m
				}
			}
		}
		return ""
	case 9:
		if len(els) == 0 {
			return ""
		}
		e := pbt.Pick(t, els)
		e.close = pbt.Pick(t, []string{"</bogus>", "</ " + e.tag + ">", "<" + e.tag + ">", " ", "</" + e.tag + "></" + e.tag + ">", "</" + e.tag + "<", "</" + e.tag + " x='1'>", "</x:" + e.tag + ">"})
		return "closing " + e.close
	case 10:
		if len(els) == 0 {
			return ""
		}
		e := pbt.Pick(t, els)
		e.open = pbt.Pick(t, []string{" ", "<bogus>", "<" + e.tag + "<", "<" + e.tag + "><" + e.tag + ">", "<" + e.tag + "/>", "<x:" + e.tag + ">"})
		e.close = "</" + e.tag + ">"
		return "opening " + e.open
	default:
		s := pbt.Pick(t, []string{"</markup>", "</markup> ", "</markup>x", "</markup><b>x</b>", "</b>", "<b>", "</markup><markup>x"})
		d.root.kids = append(d.root.kids, &elem{raw: s})
		return "trailing " + s
	}
}

func checkAnyMarkup(t *pbt.T, src []byte, accel rune) bool {
	var pm pango.ParsedMarkup
	var err error
	t.NoPanic("ParseMarkup", func() { pm, err = pango.ParseMarkup(src, accel) })
	if err != nil {
		if len(pm.Text) != 0 || len(pm.Attr) != 0 {
			t.Fatalf("text %q returned with an error", string(pm.Text))
		}
		return false
	}
	checkSorted(t, spans(pm.Attr), "ParseMarkup")
	for _, a := range pm.Attr {
		if a.StartIndex < 0 || a.StartIndex > a.EndIndex || a.EndIndex > len(pm.Text) {
			t.Fatalf("attribute %v outside of the text (length %d)", a, len(pm.Text))
		}
	}
	for _, r := range pm.Text {
		if !utf8.ValidRune(r) {
			t.Fatalf("invalid rune %x in the text", r)
		}
	}
	return true
}

var propP03 = &pbt.Prop{
	ID: "P03", Quick: 500000, Thorough: 20000000,
	Rule: "valid documents made invalid in one known place (unknown element or attribute, attribute on a tag without, invalid or empty value, duplicate, aliases, unbalanced or trailing tags, bad references, invalid UTF-8) must be rejected; documents with random edits and strings of markup tokens must be rejected or yield ranges within the text; non trivial: documents which were rejected",
	Checks: []pbt.Check{
		{Name: "spoiled", Weight: 3, Run: func(t *pbt.T) {
			d := genDoc(t, t.Intn(3))
			what := spoil(t, d)
			src := d.String()
			t.Input("%s; accel %q markup %q", what, d.accel, src)
			if what == "" {
				t.Discard()
			}
			if checkAnyMarkup(t, []byte(src), d.accel) {
				t.Fatalf("invalid markup accepted: %s", what)
			}
			t.NonTrivial(src)
		}},
		{Name: "edited", Weight: 2, Run: func(t *pbt.T) {
			d := genDoc(t, t.Intn(3))
			src := []byte(d.String())
			for n := 1 + t.Intn(4); n > 0 && len(src) > 0; n-- {
				i := t.Intn(len(src))
				switch t.Intn(4) {
				case 0:
					src = append(src[:i:i], src[i+1:]...)
				case 1:
					src[i] = pbt.Pick(t, []byte("<>/&;\"'= abs_-\x00\xff\n"))
				case 2:
					j := i + t.Intn(len(src)-i+1)
					src = append(src[:j:j], src[i:]...)
				case 3:
					j := i + t.Intn(len(src)-i)
					src = append(src[:i:i], src[j:]...)
				}
			}
			t.Input("accel %q markup %q", d.accel, src)
			if !checkAnyMarkup(t, src, d.accel) {
				t.NonTrivial(string(src))
			}
		}},
		{Name: "tokens", Weight: 1, Run: func(t *pbt.T) {
			toks := []string{"<", ">", "</", "/>", "b", "span", "markup", " size=", "'10'", "\"larger\"", "font='Sans 10'", "x", "&", "amp;", "_", "__", "<b>", "</b>", "<span>", "</span>", "<u>", "</u>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!", "\xff", "&#10;", "é", " "}
			var b strings.Builder
			for n := t.Size(20); n > 0; n-- {
				b.WriteString(pbt.Pick(t, toks))
			}
			accel := []rune{0, '_'}[t.Intn(2)]
			t.Input("accel %q markup %q", accel, b.String())
			if !checkAnyMarkup(t, []byte(b.String()), accel) {
				t.NonTrivial(b.String())
			}
		}},
	},
}
