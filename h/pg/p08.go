package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
	"unicode"

	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/language"
	"github.com/benoitkugler/textprocessing/fribidi"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
	"verifh/uba"
	"verifh/ucd"
)

// The reference itemization: per character properties, computed from the
// documentation and the UCD, then the runs of equal properties.

func realScript(s language.Script) bool {
	return s != 0 && s != language.Unknown && s != language.Common && s != language.Inherited
}

const pairedChars = `()<>[]{}«»༺༻༼༽᚛᚜‘’“”‹›⁅⁆⁽⁾₍₎⟦⟧⟨⟩⟪⟫⟬⟭⟮⟯⦃⦄⦅⦆⦇⦈⦉⦊⦋⦌⦍⦎⦏⦐⦑⦒⦓⦔⦕⦖⦗⦘⧼⧽⸂⸃⸄⸅⸉⸊⸌⸍⸜⸝⸠⸡⸢⸣⸤⸥〈〉《》「」『』【】〔〕〖〗〘〙〚〛﹙﹚﹛﹜﹝﹞（）［］｛｝｟｠｢｣`

var pairOf = func() map[rune]int {
	m := map[rune]int{}
	for i, r := range []rune(pairedChars) {
		m[r] = i
	}
	return m
}()

type scriptRun struct {
	start, end int
	script     language.Script
}

// scriptRuns splits the text: a character of a specific script ends the run of another
// one, the others stay in the run, except closing brackets whose run is the one of their opening
func scriptRuns(text []rune) (out []*scriptRun, depth int) {
	type open struct {
		pair int
		run  *scriptRun
	}
	var stack []open
	for i := 0; i < len(text); {
		run := &scriptRun{start: i, script: language.Common}
		out = append(out, run)
		for ; i < len(text); i++ {
			r := text[i]
			sc := language.LookupScript(r)
			pair, isPair := pairOf[r]
			isPair = isPair && sc == language.Common
			if isPair && pair%2 == 0 {
				stack = append(stack, open{pair, run})
				if len(stack) > depth {
					depth = len(stack)
				}
			} else if isPair {
				for len(stack) > 0 && stack[len(stack)-1].pair != pair-1 {
					stack = stack[:len(stack)-1]
				}
				if len(stack) > 0 {
					sc = stack[len(stack)-1].run.script
				}
			}
			if realScript(sc) && realScript(run.script) && sc != run.script {
				break
			}
			if realScript(sc) {
				run.script = sc
			}
			if isPair && pair%2 == 1 && len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		}
		run.end = i
	}
	return out, depth
}

// the categories of UTS 51, as letters
func emojiCategory(r rune) byte {
	switch {
	case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == ' ':
		return 'x'
	case r >= '0' && r <= '9', r == '#', r == '*':
		return 'k'
	case r == 0x20e3:
		return 'c'
	case r == 0x20e0:
		return 'o'
	case r == 0x200d:
		return 'z'
	case r == 0xfe0e:
		return 't'
	case r == 0xfe0f:
		return 'v'
	case r == 0x1f3f4:
		return 'F'
	case r == 0xe007f:
		return 'e'
	case r >= 0xe0030 && r <= 0xe0039 || r >= 0xe0061 && r <= 0xe007a:
		return 's'
	case ucd.Get("Emoji_Modifier_Base", r) == "Y":
		return 'B'
	case ucd.Get("Emoji_Modifier", r) == "Y":
		return 'm'
	case r >= 0x1f1e6 && r <= 0x1f1ff:
		return 'r'
	case ucd.Get("Emoji_Presentation", r) == "Y":
		return 'P'
	case ucd.Get("Emoji", r) == "Y":
		return 'E'
	}
	return 'x'
}

var (
	textRe, emojiRe = func() (*regexp.Regexp, *regexp.Regexp) {
		anyEmoji := "[EPkBF]"
		elem := "(?:" + anyEmoji + "v|Bm|" + anyEmoji + ")"
		emoji := "^(?:P|F|B|" + anyEmoji + "v|Bm|rr|Fs+e|kvc|" + elem + "(?:z" + elem + ")+|" + anyEmoji + "o)"
		t, e := regexp.MustCompile("^"+anyEmoji+"t"), regexp.MustCompile(emoji)
		e.Longest()
		return t, e
	}()
)

// emojiChars tells which characters have an emoji presentation
func emojiChars(text []rune) []bool {
	var cats strings.Builder
	for _, r := range text {
		cats.WriteByte(emojiCategory(r))
	}
	out := make([]bool, len(text))
	s := cats.String()
	for i := 0; i < len(s); {
		t, e := len(textRe.FindString(s[i:])), len(emojiRe.FindString(s[i:]))
		n := 1
		if t >= e && t > 0 {
			n = t
		} else if e > 0 {
			n = e
			for j := 0; j < e; j++ {
				out[i+j] = true
			}
		}
		i += n
	}
	return out
}

var scriptsOf = map[pango.Language][]language.Script{
	"en": {language.Latin}, "fr": {language.Latin}, "ru": {language.Cyrillic}, "sr": {language.Cyrillic},
	"ja": {language.Han, language.Katakana, language.Hiragana}, "ko": {language.Hangul},
	"zh-cn": {language.Han}, "zh-tw": {language.Han}, "ar": {language.Arabic}, "he": {language.Hebrew},
	"hi": {language.Devanagari}, "el": {language.Greek}, "th": {language.Thai},
	"az-az": {language.Latin}, "az-ir": {language.Arabic},
}

var someLanguages = []pango.Language{"", "en", "en-us", "fr-ca", "ru", "sr", "ja", "ja-jp", "ko-kr", "zh-cn", "zh", "zh-tw", "ar", "ar-eg", "he", "hi", "el", "th", "az-az", "az-ir", "az", "xx", "tlh", "e", "engl"}

var sampleOf = map[language.Script]pango.Language{
	language.Latin: "en", language.Cyrillic: "ru", language.Greek: "el", language.Hebrew: "he", language.Arabic: "ar",
	language.Hiragana: "ja", language.Katakana: "ja", language.Hangul: "ko", language.Devanagari: "hi", language.Thai: "th",
	language.Georgian: "ka", language.Armenian: "hy", language.Bengali: "bn", language.Tibetan: "bo", language.Mongolian: "mn",
	language.Canadian_Aboriginal: "iu", language.Cherokee: "chr", language.Coptic: "cop", language.Ethiopic: "am", language.Ugaritic: "uga",
}

func derivedLanguage(lang pango.Language, script language.Script) pango.Language {
	scripts := scriptsOf[lang]
	if scripts == nil {
		scripts = scriptsOf[pango.Language(strings.Split(string(lang), "-")[0])]
	}
	ok := !realScript(script) || scripts == nil
	for _, s := range scripts {
		ok = ok || s == script
	}
	if ok {
		return lang
	}
	if l := sampleOf[script]; l != "" {
		return l
	}
	return "xx"
}

var verticalScripts = map[language.Script]bool{ // written from top to bottom
	language.Bopomofo: true, language.Han: true, language.Hangul: true, language.Hiragana: true, language.Katakana: true,
	language.Mongolian: true, language.Yi: true, language.Samaritan: true,
}

var rtlScripts = map[language.Script]bool{language.Arabic: true, language.Hebrew: true, language.Syriac: true, language.Thaana: true,
	language.Nko: true, language.Samaritan: true, language.Adlam: true}

func resolveGravity(base pango.Gravity, wide bool, script language.Script, hint pango.GravityHint) pango.Gravity {
	east := base == pango.GRAVITY_EAST
	if !east && base != pango.GRAVITY_WEST || wide {
		return base
	}
	flip := false
	switch {
	case hint == pango.GRAVITY_HINT_STRONG:
		return base
	case hint == pango.GRAVITY_HINT_LINE:
		flip = east == rtlScripts[script]
	case verticalScripts[script] || script == language.Ogham:
		flip = east == (script == language.Ogham)
	}
	if flip {
		return pango.GRAVITY_NORTH
	}
	return pango.GRAVITY_SOUTH
}

// uprightChars resolves the orientation of the characters: joined ones, selectors, tags
// and emoji modifiers follow what precedes
func uprightChars(text []rune) []bool {
	out := make([]bool, len(text))
	cur := false
	for i, r := range text {
		vo := ucd.Get("Vertical_Orientation", r)
		up := vo == "Upright" || strings.Contains(vo, "pright")
		follows := i > 0 && (r == 0x200d || text[i-1] == 0x200d || r == 0xfe0e || r == 0xfe0f || r >= 0xe0020 && r <= 0xe007f || r >= 0x1f3fb && r <= 0x1f3ff)
		if !follows {
			cur = up
		}
		out[i] = cur
	}
	return out
}

// neutralChar tells whether the character has no influence on the choice of fonts
func neutralChar(r rune) bool {
	return unicode.In(r, unicode.Cc, unicode.Cf, unicode.Cs, unicode.Zl, unicode.Zp) || unicode.Is(unicode.Zs, r) && r != 0x1680 ||
		r >= 0xfe00 && r <= 0xfe0f || r >= 0xe0100 && r <= 0xe01ef
}

type wantItem struct {
	s, e    int
	script  language.Script
	lang    pango.Language
	level   int
	gravity pango.Gravity
	flags   uint8
	font    *font
	extra   []span
	desc    pango.FontDescription
}

func (w wantItem) show() string {
	name := "no font"
	if w.font != nil {
		name = fmt.Sprintf("%s (%s)", w.font.face.name, descFields(w.font.desc))
	}
	sort.Slice(w.extra, func(i, j int) bool { return fmtSpans(w.extra[i:i+1]) < fmtSpans(w.extra[j:j+1]) })
	return fmt.Sprintf("[%d,%d) %s %q level %d gravity %d flags %d %s extra %s", w.s, w.e, w.script, w.lang, w.level, w.gravity, w.flags, name, fmtSpans(w.extra))
}

// itemSetup is the state of the context
type itemSetup struct {
	fm       *fontMap
	language pango.Language // as set
	desc     pango.FontDescription
	base     pango.Gravity
}

const defaultLang = "en-us"

func (c *itemSetup) lang() pango.Language {
	if c.language == "" {
		return defaultLang
	}
	return c.language
}

// attrProps are the properties that attributes give to a character
type attrProps struct {
	desc     pango.FontDescription
	lang     pango.Language
	gravity  pango.Gravity
	hint     pango.GravityHint
	fallback bool
	extra    []span
}

func intValue(a *pango.Attribute) int { return int(a.Data.(pango.AttrInt)) }

// resolve computes the properties at pos; the innermost attribute is the latest to start,
// or the latest inserted
func (c *itemSetup) resolve(attrs []span, pos int) attrProps {
	out := attrProps{desc: c.desc, lang: c.lang(), gravity: pango.GRAVITY_AUTO, fallback: true}
	type field = descField
	done := map[pango.FontMask]bool{}
	apply := func(fs ...field) {
		for _, f := range fs {
			if !done[f.mask] {
				done[f.mask] = true
				f.set(&out.desc)
			}
		}
	}
	kinds := map[pango.AttrKind]bool{}
	scale := float32(-1)
	for i := len(attrs) - 1; i >= 0; i-- {
		a := attrs[i]
		if pos < a.s || a.e <= pos {
			continue
		}
		first := !kinds[a.kind]
		kinds[a.kind] = true
		p := a.p
		switch a.kind {
		case pango.ATTR_FAMILY:
			apply(field{pango.FmFamily, func(d *pango.FontDescription) { d.SetFamily(string(p.Data.(pango.AttrString))) }})
		case pango.ATTR_STYLE:
			apply(field{pango.FmStyle, func(d *pango.FontDescription) { d.SetStyle(pango.Style(intValue(p))) }})
		case pango.ATTR_VARIANT:
			apply(field{pango.FmVariant, func(d *pango.FontDescription) { d.SetVariant(pango.Variant(intValue(p))) }})
		case pango.ATTR_WEIGHT:
			apply(field{pango.FmWeight, func(d *pango.FontDescription) { d.SetWeight(pango.Weight(intValue(p))) }})
		case pango.ATTR_STRETCH:
			apply(field{pango.FmStretch, func(d *pango.FontDescription) { d.SetStretch(pango.Stretch(intValue(p))) }})
		case pango.ATTR_SIZE:
			apply(field{pango.FmSize, func(d *pango.FontDescription) { d.SetSize(int32(intValue(p))) }})
		case pango.ATTR_ABSOLUTE_SIZE:
			apply(field{pango.FmSize, func(d *pango.FontDescription) { d.SetAbsoluteSize(int32(intValue(p))) }})
		case pango.ATTR_FONT_DESC:
			fd := p.Data.(pango.FontDescription)
			apply(descSetters(fd)...)
		case pango.ATTR_SCALE:
			if scale < 0 {
				scale = float32(p.Data.(pango.AttrFloat))
			}
		case pango.ATTR_LANGUAGE:
			if first {
				if l := pango.Language(p.Data.(pango.AttrString)); l != "" {
					out.lang = l
				}
			}
		default:
			switch a.kind {
			case pango.ATTR_FONT_FEATURES, pango.ATTR_BASELINE_SHIFT, pango.ATTR_FONT_SCALE:
				first = true
			}
			if !first {
				continue
			}
			out.extra = append(out.extra, span{a.kind, a.s, a.e, a.data, nil})
			switch a.kind {
			case pango.ATTR_FALLBACK:
				out.fallback = intValue(p) != 0
			case pango.ATTR_GRAVITY:
				out.gravity = pango.Gravity(intValue(p))
			case pango.ATTR_GRAVITY_HINT:
				out.hint = pango.GravityHint(intValue(p))
			}
		}
	}
	if scale >= 0 {
		size := int32(scale * float32(out.desc.Size))
		if out.desc.SizeIsAbsolute {
			out.desc.SetAbsoluteSize(size)
		} else {
			out.desc.SetSize(size)
		}
	}
	return out
}

// setFields finds the fields set in a description, from its content alone
func hasField(d pango.FontDescription, m pango.FontMask) bool {
	u := d
	u.UnsetFields(m)
	return u != d
}

type descField struct {
	mask pango.FontMask
	set  func(d *pango.FontDescription)
}

func descSetters(fd pango.FontDescription) (out []descField) {
	add := func(m pango.FontMask, set func(d *pango.FontDescription)) {
		if hasField(fd, m) {
			out = append(out, descField{m, set})
		}
	}
	add(pango.FmFamily, func(d *pango.FontDescription) { d.SetFamily(fd.FamilyName) })
	add(pango.FmStyle, func(d *pango.FontDescription) { d.SetStyle(fd.Style) })
	add(pango.FmVariant, func(d *pango.FontDescription) { d.SetVariant(fd.Variant) })
	add(pango.FmWeight, func(d *pango.FontDescription) { d.SetWeight(fd.Weight) })
	add(pango.FmStretch, func(d *pango.FontDescription) { d.SetStretch(fd.Stretch) })
	add(pango.FmSize, func(d *pango.FontDescription) {
		if fd.SizeIsAbsolute {
			d.SetAbsoluteSize(fd.Size)
		} else {
			d.SetSize(fd.Size)
		}
	})
	add(pango.FmGravity, func(d *pango.FontDescription) { d.SetGravity(fd.Gravity) })
	add(pango.FmVariations, func(d *pango.FontDescription) { d.SetVariations(fd.Variations) })
	return out
}

// levelsOf resolves the embedding levels of a paragraph; the levels of the characters
// which the algorithm removes are not specified, and taken from the library, and so are
// the levels of texts which are not one paragraph
func levelsOf(text []rune) ([]int, bool) {
	p := uba.Levels(text, -1)
	types := make([]fribidi.CharType, len(text))
	brackets := make([]fribidi.BracketType, len(text))
	for i, r := range text {
		types[i] = fribidi.GetBidiType(r)
		brackets[i] = fribidi.NoBracket
		if types[i] == fribidi.ON {
			brackets[i] = fribidi.GetBracket(r)
		}
	}
	base := fribidi.ParType(fribidi.WLTR)
	levels, _ := fribidi.GetParEmbeddingLevels(types, brackets, &base)
	several := false
	for i, c := range uba.TextClasses(text) {
		several = several || c == uba.B && i != len(text)-1
	}
	for i, c := range uba.TextClasses(text) {
		if uba.IsRemoved(c) || several {
			p.Levels[i] = int(levels[i])
		}
	}
	return p.Levels, several
}

// all the levels are equal to flat, if it is not -1 (and there is no answer if the levels have several parities)
func (c *itemSetup) itemize(text []rune, start, length int, attrs []span, flat int) []wantItem {
	part := text[start : start+length]
	n := len(part)
	levels, several := levelsOf(part)
	if flat != -1 {
		for i, l := range levels {
			levels[i] = flat
			if l&1 != flat && !several {
				return nil
			}
		}
	}
	emoji := emojiChars(part)
	scripts := make([]language.Script, n)
	scriptID := make([]int, n)
	runs, _ := scriptRuns(part)
	for k, r := range runs {
		for i := r.start; i < r.end; i++ {
			scripts[i] = r.script
			scriptID[i] = k
		}
	}
	var upright []bool
	vertical := c.base == pango.GRAVITY_EAST || c.base == pango.GRAVITY_WEST
	if vertical {
		upright = uprightChars(part)
	}
	bounds := map[int]bool{}
	for _, a := range attrs {
		bounds[a.s] = true
		bounds[a.e] = true
	}
	same := func(i, j int) bool {
		return levels[i] == levels[j] && emoji[i] == emoji[j] && scriptID[i] == scriptID[j] && !bounds[start+j] && (!vertical || upright[i] == upright[j])
	}
	var out []wantItem
	for i := 0; i < n; {
		j := i + 1
		for j < n && same(j-1, j) {
			j++
		}
		props := c.resolve(attrs, start+i)
		w := wantItem{script: scripts[i], lang: derivedLanguage(props.lang, scripts[i]), extra: props.extra}
		if vertical {
			w.flags = pango.AFCenterdBaseline
		}
		desc := props.desc
		if hasField(desc, pango.FmGravity) && desc.Gravity != pango.GRAVITY_AUTO {
			w.gravity = desc.Gravity
		} else {
			g := props.gravity
			if g == pango.GRAVITY_AUTO {
				g = c.base
			}
			w.gravity = resolveGravity(g, vertical && upright[i], scripts[i], props.hint)
			desc.SetGravity(w.gravity)
		}
		w.level = levels[i]
		switch w.gravity {
		case pango.GRAVITY_NORTH:
			w.level++
		case pango.GRAVITY_EAST:
			w.level = (w.level + 1) &^ 1
		case pango.GRAVITY_WEST:
			w.level |= 1
		}
		base := desc
		if emoji[i] {
			desc.SetFamily("emoji")
		}
		w.desc = desc
		var list []*face
		var fdesc pango.FontDescription
		if props.fallback {
			list, fdesc = c.fm.order(desc, w.lang), desc
		} else {
			list, fdesc = c.fm.order(base, c.language), base
			if len(list) > 0 {
				list = list[:1]
			}
		}
		items := c.fontItems(part[i:j], start+i, w, list, fdesc, props.fallback)
		// items without any font take the one which is given to the spaces after them
		if items[0].font != nil && (neutralChar(part[i]) || props.fallback && !covered(list, part[i])) {
			for k := len(out) - 1; k >= 0 && out[k].font == nil; k-- {
				out[k].font = items[0].font
			}
		}
		out = append(out, items...)
		i = j
	}
	return out
}

func covered(list []*face, r rune) bool {
	for _, f := range list {
		if f.gids[r] != 0 {
			return true
		}
	}
	return false
}

// fontItems splits a run by font
func (c *itemSetup) fontItems(part []rune, offset int, w wantItem, list []*face, desc pango.FontDescription, fallback bool) (out []wantItem) {
	n := len(part)
	pos := make([]int, n) // position of the font in the list, -1 for none
	find := func(r rune) int {
		for k, f := range list {
			if f.gids[r] != 0 || !fallback {
				return k
			}
		}
		return -1
	}
	first := -1
	for i, r := range part {
		pos[i] = -1
		if !neutralChar(r) {
			pos[i] = find(r)
		}
		if first == -1 {
			first = pos[i]
		}
	}
	if first == -1 {
		first = find(' ')
	}
	forced := func(i int) bool { return part[i] == '\t' || part[i] == 0x2028 }
	brk := func(i int) bool { return i == 0 || forced(i) || forced(i-1) }
	cur := first
	for i := range part {
		if pos[i] == -1 {
			pos[i] = cur
			continue
		}
		if pos[i] < cur && !brk(i) { // the spaces before it take this better font
			k := i
			for k > 0 && neutralChar(part[k-1]) && !brk(k) {
				k--
			}
			// up to the last forced break, which keeps its font
			if !brk(k) || !neutralChar(part[k]) {
				for ; k < i; k++ {
					pos[k] = pos[i]
				}
			}
		}
		cur = pos[i]
	}
	for i := 0; i < n; {
		j := i + 1
		for j < n && pos[j] == pos[i] && !brk(j) {
			j++
		}
		w.s, w.e = offset+i, offset+j
		w.font = nil
		if pos[i] != -1 {
			w.font = &font{fontKey: fontKey{list[pos[i]], desc}}
		}
		out = append(out, w)
		i = j
	}
	return out
}

// variants splits the items whose font has no support for their casing variant
func (c *itemSetup) variants(text []rune, items []wantItem) (out []wantItem) {
	for _, w := range items {
		v := pango.VARIANT_NORMAL
		if w.font != nil {
			v = w.font.desc.Variant
		}
		var lower, upper []*pango.Attribute
		small := func() *pango.Attribute { return pango.NewAttrFontScale(pango.FONT_SCALE_SMALL_CAPS) }
		switch v {
		case pango.VARIANT_NORMAL, pango.VARIANT_TITLE_CAPS:
			out = append(out, w)
			continue
		case pango.VARIANT_SMALL_CAPS, pango.VARIANT_PETITE_CAPS:
			lower = []*pango.Attribute{pango.NewAttrTextTransform(pango.TEXT_TRANSFORM_UPPERCASE), small()}
		case pango.VARIANT_ALL_SMALL_CAPS, pango.VARIANT_ALL_PETITE_CAPS:
			lower = []*pango.Attribute{pango.NewAttrTextTransform(pango.TEXT_TRANSFORM_UPPERCASE), small()}
			upper = []*pango.Attribute{small()}
		case pango.VARIANT_UNICASE:
			upper = []*pango.Attribute{small()}
		}
		transform := pango.TEXT_TRANSFORM_NONE
		for _, a := range w.extra {
			if a.kind == pango.ATTR_TEXT_TRANSFORM {
				for tr := pango.TEXT_TRANSFORM_NONE; tr <= pango.TEXT_TRANSFORM_CAPITALIZE; tr++ {
					if b := pango.NewAttrTextTransform(tr); fmt.Sprintf("%T:%v", b.Data, b.Data) == a.data {
						transform = tr
					}
				}
			}
		}
		for i := w.s; i < w.e; {
			kindOf := func(r rune) byte {
				if transform == pango.TEXT_TRANSFORM_LOWERCASE || neutralChar(r) || transform != pango.TEXT_TRANSFORM_UPPERCASE && unicode.IsLower(r) {
					return 'l'
				}
				return 'u'
			}
			kind := kindOf(text[i])
			j := i
			for j < w.e && (neutralChar(text[j]) || kindOf(text[j]) == kind) {
				j++
			}
			it := w
			it.s, it.e = i, j
			it.extra = append([]span(nil), w.extra...)
			add := lower
			if kind == 'u' {
				add = upper
			}
			for _, a := range add {
				it.extra = append(it.extra, span{a.Kind, i, j, fmt.Sprintf("%T:%v", a.Data, a.Data), nil})
			}
			out = append(out, it)
			i = j
		}
	}
	return out
}

var scaleByData = func() map[string]pango.FontScale {
	m := map[string]pango.FontScale{}
	for s := pango.FONT_SCALE_NONE; s <= pango.FONT_SCALE_SMALL_CAPS; s++ {
		a := pango.NewAttrFontScale(s)
		m[fmt.Sprintf("%T:%v", a.Data, a.Data)] = s
	}
	return m
}()

// scales applies the FONT_SCALE attributes: each one is relative to the font of the item before it
func (c *itemSetup) scales(items []wantItem) {
	type elt struct {
		end   int
		scale float64
	}
	var stack []elt
	var prev *face
	for i := range items {
		w := &items[i]
		for _, a := range w.extra {
			if a.kind != pango.ATTR_FONT_SCALE || a.s != w.s && (i != 0 || a.s > w.s) {
				continue
			}
			metric := func(m fonts.LineMetric, def float64) float64 {
				if prev == nil {
					return def
				}
				o := prev.os2
				switch m {
				case fonts.SuperscriptEmYSize:
					return float64(o.SuperYSize) / faceUPM
				case fonts.SubscriptEmYSize:
					return float64(o.SubYSize) / faceUPM
				}
				return float64(o.XHeight) / float64(o.CapHeight)
			}
			e := elt{end: a.e, scale: 1}
			switch scaleByData[a.data] {
			case pango.FONT_SCALE_SUPERSCRIPT:
				e.scale = metric(fonts.SuperscriptEmYSize, 1/1.2)
			case pango.FONT_SCALE_SUBSCRIPT:
				e.scale = metric(fonts.SubscriptEmYSize, 1/1.2)
			case pango.FONT_SCALE_SMALL_CAPS:
				e.scale = metric(fonts.XHeight, 0.8)
			}
			stack = append(stack, e)
		}
		scale := 1.
		scaled := len(stack) > 0
		var rest []elt
		for _, e := range stack {
			scale *= e.scale
			if e.end > w.e {
				rest = append(rest, e)
			}
		}
		stack = rest
		if scaled && w.font != nil {
			d := w.font.desc
			d.SetFamily(w.font.face.name)
			size := int32(scale * float64(d.Size))
			if d.SizeIsAbsolute {
				d.SetAbsoluteSize(size)
			} else {
				d.SetSize(size)
			}
			w.font = &font{fontKey: fontKey{w.font.face, d}}
		}
		prev = nil
		if w.font != nil {
			prev = w.font.face
		}
	}
}

func (c *itemSetup) reference(text []rune, start, length int, attrs []span, flat int) []wantItem {
	want := c.variants(text, c.itemize(text, start, length, attrs, flat))
	c.scales(want)
	return want
}

// sameFont accepts sizes which differ by rounding
func sameFont(a, b *font) bool {
	if a == nil || b == nil {
		return a == b
	}
	x, y := a.desc, b.desc
	if d := x.Size - y.Size; d < -1 || d > 1 || x.SizeIsAbsolute != y.SizeIsAbsolute {
		return false
	}
	x.UnsetFields(pango.FmSize)
	y.UnsetFields(pango.FmSize)
	return a.face == b.face && x == y
}

func gotItem(it *pango.Item) wantItem {
	w := wantItem{s: it.Offset, e: it.Offset + it.Length, script: it.Analysis.Script, lang: it.Analysis.Language, level: int(it.Analysis.Level),
		gravity: it.Analysis.Gravity, flags: it.Analysis.Flags}
	if f, ok := it.Analysis.Font.(*font); ok {
		w.font = f
	}
	for _, s := range spans(it.Analysis.ExtraAttrs) {
		s.p = nil
		w.extra = append(w.extra, s)
	}
	return w
}

func sameExtra(a, b []span) bool {
	if len(a) != len(b) {
		return false
	}
	var x, y []string
	for i := range a {
		x = append(x, fmtSpans(a[i:i+1]))
		y = append(y, fmtSpans(b[i:i+1]))
	}
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "") == strings.Join(y, "")
}

func compareItems(got *pango.ItemList, want []wantItem) string {
	var list []wantItem
	for l := got; l != nil; l = l.Next {
		list = append(list, gotItem(l.Data))
	}
	for i := 0; i < len(list) || i < len(want); i++ {
		if i >= len(list) {
			return fmt.Sprintf("%d items instead of %d: %s is missing", len(list), len(want), want[i].show())
		}
		if i >= len(want) {
			return fmt.Sprintf("%d items instead of %d: %s is unexpected", len(list), len(want), list[i].show())
		}
		g, w := list[i], want[i]
		if g.s != w.s || g.e != w.e || g.script != w.script || g.lang != w.lang || g.level != w.level || g.gravity != w.gravity || g.flags != w.flags ||
			!sameFont(g.font, w.font) || !sameExtra(g.extra, w.extra) {
			return fmt.Sprintf("item %d is\n%s\nwant\n%s", i, g.show(), w.show())
		}
	}
	return ""
}

// genContextDesc changes some fields of the default description
func genContextDesc(t *pbt.T) pango.FontDescription {
	d := pango.NewFontDescription()
	d.SetFamily(pbt.Pick(t, []string{"serif", "Latin", "Cjk,Latin", "wide, Semitic", "Greek", "serif", "Wide", "Indic,nothing", "nothing", "empty"}))
	d.SetSize(pbt.Pick(t, []int32{12 * pango.Scale, 10 * pango.Scale, 1000, 12345}))
	if t.Intn(4) == 0 {
		d.SetAbsoluteSize(pbt.Pick(t, []int32{12 * pango.Scale, 20000}))
	}
	if t.Intn(4) == 0 {
		d.SetWeight(pango.WEIGHT_BOLD)
	}
	if t.Intn(4) == 0 {
		d.SetStyle(pango.STYLE_ITALIC)
	}
	if t.Intn(4) == 0 {
		d.SetStretch(pango.STRETCH_CONDENSED)
	}
	if t.Intn(5) == 0 {
		d.SetVariant(pango.Variant(t.Intn(7)))
	}
	if t.Intn(6) == 0 {
		d.SetGravity(pango.Gravity(t.Intn(4)))
	}
	if t.Intn(6) == 0 {
		d.SetVariations("wght=200")
	}
	return d
}

// genItemAttr yields an attribute which matters to the itemization
func genItemAttr(t *pbt.T) *pango.Attribute {
	switch t.Weighted(4, 3, 2, 3, 2, 2, 1, 1, 2, 2, 2, 6) {
	case 0:
		return pango.NewAttrLanguage(pbt.Pick(t, someLanguages))
	case 1:
		return pango.NewAttrFamily(pbt.Pick(t, []string{"Latin", "Cjk", "greek,indic", "Unknown", "Wide", "nothing", "empty", "Latin,nothing"}))
	case 2:
		return pango.NewAttrSize(pbt.Pick(t, []int{1000, 20 * pango.Scale, 0}))
	case 3:
		return pango.NewAttrFontDescription(genContextDescPart(t))
	case 4:
		return pango.NewAttrScale(pbt.Pick(t, []float32{0.5, 1.2, 1, 2.5}))
	case 5:
		return pango.NewAttrFallback(t.Intn(4) == 0)
	case 6:
		return pango.NewAttrGravity(pango.Gravity(t.Intn(5)))
	case 7:
		return pango.NewAttrGravityHint(pango.GravityHint(t.Intn(3)))
	case 8:
		return pango.NewAttrVariant(pango.Variant(t.Intn(7)))
	case 9:
		return pango.NewAttrFontScale(pango.FontScale(t.Intn(4)))
	case 10:
		return pango.NewAttrTextTransform(pango.TextTransform(t.Intn(4)))
	}
	return pbt.Pick(t, makers).make(t.Intn(3))
}

func genContextDescPart(t *pbt.T) pango.FontDescription {
	d := genContextDesc(t)
	for _, m := range []pango.FontMask{pango.FmFamily, pango.FmStyle, pango.FmVariant, pango.FmWeight, pango.FmStretch, pango.FmSize, pango.FmGravity, pango.FmVariations} {
		if t.Bool() {
			d.UnsetFields(m)
		}
	}
	return d
}

func genFontMap(t *pbt.T) *fontMap {
	faces := theFaces()
	if t.Intn(3) == 0 {
		p := t.Perm(len(faces))
		var l []*face
		for _, i := range p[:t.Range(1, len(faces))] {
			l = append(l, faces[i])
		}
		faces = l
	}
	return newFontMap(faces...)
}

func (m *fontMap) names() string {
	var l []string
	for _, f := range m.faces {
		l = append(l, f.name)
	}
	return strings.Join(l, ",")
}

func runItemize(t *pbt.T, vertical bool) {
	fm := genFontMap(t)
	ctx := pango.NewContext(fm)
	var c itemSetup
	c.fm = fm
	hist := fmt.Sprintf("fonts %s", fm.names())
	t.Describe(func() string { return hist })
	c.desc = pango.NewFontDescription()
	c.desc.SetFamily("serif")
	c.desc.SetStyle(pango.STYLE_NORMAL)
	c.desc.SetVariant(pango.VARIANT_NORMAL)
	c.desc.SetWeight(pango.WEIGHT_NORMAL)
	c.desc.SetStretch(pango.STRETCH_NORMAL)
	c.desc.SetSize(12 * pango.Scale)
	for k := t.Weighted(0, 4, 1, 1); k > 0; k-- {
		oneItemize(t, ctx, &c, &hist, vertical)
	}
}

func oneItemize(t *pbt.T, ctx *pango.Context, c *itemSetup, histP *string, vertical bool) {
	hist := *histP
	defer func() { *histP = hist }()
	if t.Bool() {
		c.desc = genContextDesc(t)
		ctx.SetFontDescription(c.desc)
		hist += "; " + descFields(c.desc)
	}
	if t.Bool() {
		c.language = pbt.Pick(t, someLanguages)
		ctx.SetLanguage(c.language)
		hist += fmt.Sprintf("; language %q", c.language)
	}
	c.base = pango.GRAVITY_SOUTH
	ctx.SetBaseGravity(c.base)
	if vertical || t.Intn(10) == 0 {
		g := pango.GRAVITY_NORTH
		if vertical {
			g = pbt.Pick(t, []pango.Gravity{pango.GRAVITY_EAST, pango.GRAVITY_WEST})
		}
		c.base = g
		if t.Intn(3) == 0 { // deduced from the matrix
			big := pango.Fl(t.Range(1, 50)) / 4
			small := big * pango.Fl(t.Range(-9, 9)) / 10
			m := pango.Matrix{Xx: pango.Fl(t.Range(-5, 5)), Yx: pango.Fl(t.Range(-5, 5)), X0: 3, Y0: -2}
			switch g {
			case pango.GRAVITY_NORTH:
				m.Xy, m.Yy = small, -big
			case pango.GRAVITY_EAST:
				m.Xy, m.Yy = -big, small
			default:
				m.Xy, m.Yy = big, small
			}
			ctx.Matrix = &m
			ctx.SetBaseGravity(pango.GRAVITY_AUTO)
		} else {
			ctx.SetBaseGravity(g)
		}
		hist += fmt.Sprintf("; gravity %d", g)
	}
	text := genText(t, 30)
	start, length := 0, len(text)
	if t.Intn(4) == 0 && len(text) > 0 {
		start = t.Intn(len(text))
		length = t.Intn(len(text) - start + 1)
	}
	var attrs pango.AttrList
	if t.Intn(3) != 0 {
		for n := t.Size(6); n > 0; n-- {
			a := genItemAttr(t)
			s := t.Intn(len(text) + 1)
			a.StartIndex, a.EndIndex = s, s+1+t.Intn(len(text)-s+1)
			switch t.Intn(6) {
			case 0:
				a.StartIndex, a.EndIndex = 0, maxInt
			case 1:
				a.EndIndex = maxInt
			}
			if a.Kind == pango.ATTR_GRAVITY {
				if g := pango.Gravity(intValue(a)); !vertical && g.IsVertical() {
					continue // needs widths, which are only computed for vertical contexts
				}
			}
			attrs.Insert(a)
		}
	}
	list := spans(attrs)
	hist += fmt.Sprintf("\ntext %s\nfrom %d length %d\n%s\n", showRunes(text), start, length, fmtSpans(list))
	textCopy := append([]rune(nil), text...)
	var got *pango.ItemList
	t.NoPanic("Itemize", func() { got = ctx.Itemize(text, start, length, attrs) })
	if string(text) != string(textCopy) || !sameSpans(spans(attrs), list, true) {
		t.Fatalf("the arguments are modified: %s %s", showRunes(text), fmtSpans(spans(attrs)))
	}
	for l := got; l != nil; l = l.Next {
		if strings.Contains(hist, "nothing") || strings.Contains(hist, "empty") {
			break // the text without font takes the font of the next one
		}
		if f, _ := l.Data.Analysis.Font.(*font); f != nil && f.desc.Gravity != l.Data.Analysis.Gravity {
			t.Fatalf("item at %d: gravity %d, font with gravity %d", l.Data.Offset, l.Data.Analysis.Gravity, f.desc.Gravity)
		}
	}
	if vertical {
		for _, e := range emojiChars(text[start : start+length]) {
			if e {
				t.Discard() // the orientation of emojis is not documented
			}
		}
	}
	want := c.reference(text, start, length, list, -1)
	if msg := compareItems(got, want); msg != "" {
		// directional controls may be ignored in texts with one direction
		ok := false
		for level := 0; level < 2; level++ {
			flat := c.reference(text, start, length, list, level)
			ok = ok || flat != nil && compareItems(got, flat) == ""
		}
		if !ok {
			t.Fatalf("%s", msg)
		}
	}
	if len(want) >= 3 {
		t.NonTrivial(showRunes(text))
	}
	if t.Intn(3) == 0 {
		hist += applyAttributes(t, got, text)
	}
}

// applyAttributes adds attributes to the items, where they are active
func applyAttributes(t *pbt.T, got *pango.ItemList, text []rune) string {
	var attrs pango.AttrList
	for n := 1 + t.Size(6); n > 0; n-- {
		a := pbt.Pick(t, makers).make(t.Intn(3))
		s := t.Intn(len(text) + 1)
		a.StartIndex, a.EndIndex = s, s+1+t.Intn(len(text)-s+1)
		if t.Intn(6) == 0 {
			a.EndIndex = maxInt
		}
		for l := got; l != nil && t.Intn(3) == 0; l = l.Next { // on the items
			switch t.Intn(6) {
			case 0:
				a.StartIndex = l.Data.Offset
			case 1:
				a.StartIndex = l.Data.Offset + l.Data.Length
			case 2:
				a.EndIndex = l.Data.Offset
			case 3:
				a.EndIndex = l.Data.Offset + l.Data.Length
			}
		}
		if a.StartIndex < a.EndIndex {
			attrs.Insert(a)
		}
	}
	list := spans(attrs)
	hist := "; applied " + fmtSpans(list)
	t.Input("applied %s", fmtSpans(list))
	var want [][]span
	for l := got; l != nil; l = l.Next {
		w := append([]span(nil), gotItem(l.Data).extra...)
		seen := map[string]bool{}
		for pos := l.Data.Offset; pos < l.Data.Offset+l.Data.Length; pos++ {
			kinds := map[pango.AttrKind]bool{}
			for i := len(list) - 1; i >= 0; i-- {
				a := list[i]
				if pos < a.s || a.e <= pos {
					continue
				}
				all := a.kind == pango.ATTR_FONT_DESC || a.kind == pango.ATTR_BASELINE_SHIFT || a.kind == pango.ATTR_FONT_SCALE
				if kinds[a.kind] && !all {
					continue
				}
				kinds[a.kind] = true
				if k := fmtSpans(list[i : i+1]); !seen[k] {
					seen[k] = true
					a.p = nil
					w = append(w, a)
				}
			}
		}
		want = append(want, w)
	}
	t.NoPanic("ApplyAttributes", func() { got.ApplyAttributes(attrs) })
	if !sameSpans(spans(attrs), list, true) {
		t.Fatalf("the attributes are modified: %s", fmtSpans(spans(attrs)))
	}
	for i, l := 0, got; l != nil; i, l = i+1, l.Next {
		if g := gotItem(l.Data); !sameExtra(g.extra, want[i]) {
			t.Fatalf("attributes applied to item %d: %s, want %s", i, g.show(), fmtSpans(want[i]))
		}
	}
	t.Label("applied attributes")
	return hist
}

var propP08 = &pbt.Prop{
	ID: "P08", Quick: 500000, Thorough: 30000000,
	Rule: "texts mixing scripts, emojis, marks, controls and bidi characters, itemized with random context (fonts with known coverage, description, language, gravity) and attributes; all items compared with a reference itemization; non trivial: at least three items",
	Checks: []pbt.Check{
		{Name: "horizontal", Weight: 4, Run: func(t *pbt.T) { runItemize(t, false) }},
		{Name: "vertical", Weight: 1, Run: func(t *pbt.T) { runItemize(t, true) }},
	},
}
