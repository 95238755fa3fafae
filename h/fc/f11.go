package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// ------------------------------------------------------------------ environment

type langProbe struct{ Lang, NameLang, Sub []string }

// the library reads the environment once: other environments are observed in child processes
func init() {
	if os.Getenv("VERIF_LANG_PROBE") == "" {
		return
	}
	var out langProbe
	p := fc.NewPattern()
	fc.NewConfig().Substitute(p, nil, fc.MatchQuery)
	for _, v := range vals(p, fc.LANG) {
		out.Lang = append(out.Lang, string(v.(fc.String)))
	}
	p = fc.NewPattern()
	p.SubstituteDefault()
	for _, v := range vals(p, fc.NAMELANG) {
		out.NameLang = append(out.NameLang, string(v.(fc.String)))
	}
	if s := os.Getenv("VERIF_LANG_HAS"); s != "" {
		p = fc.NewPattern()
		p.AddString(fc.LANG, s)
		fc.NewConfig().Substitute(p, nil, fc.MatchQuery)
		for _, v := range vals(p, fc.LANG) {
			out.Sub = append(out.Sub, string(v.(fc.String)))
		}
	}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
	os.Exit(0)
}

func probeLangs(env []string) (langProbe, string) {
	var base []string
	for _, e := range os.Environ() {
		if k := strings.SplitN(e, "=", 2)[0]; k != "LANG" && k != "LC_ALL" && k != "LC_CTYPE" && k != "FC_LANG" {
			base = append(base, e)
		}
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(append(base, "VERIF_LANG_PROBE=1", "VERIF_KEEP_LANG=1"), env...)
	b, err := cmd.Output()
	var out langProbe
	if err == nil {
		err = json.Unmarshal(b, &out)
	}
	if err != nil {
		return out, fmt.Sprint(err)
	}
	return out, ""
}

// the languages with an orthography in fontconfig
const orthographies = `aa ab af agr ak am an anp ar as ast av ay ayc az-az az-ir ba be bem ber-dz ber-ma bg bh bhb bho bi bin bm bn bo br brx bs bua byn ca ce ch chm chr ckb cmn co cop crh cs csb cu cv cy da de doi dsb dv dz ee el en eo es et eu fa fat ff fi fil fj fo fr fur fy ga gd gez gl gn got gu gv ha hak haw he hi hif hne ho hr hsb ht hu hy hz ia id ie ig ii ik io is it iu ja jv ka kaa kab ki kj kk kl km kn ko kok kr ks ku-am ku-iq ku-ir ku-tr kum kv kw kwm ky la lah lb lez lg li lij ln lo lt lv lzh mag mai mfe mg mh mhr mi miq mjw mk ml mn-cn mn-mn mni mnw mo mr ms mt my na nan nb nds ne ng nhn niu nl nn no nqo nr nso nv ny oc om or os ota pa pa-pk pap-an pap-aw pl ps-af ps-pk pt qu quz raj rif rm rn ro ru rw sa sah sat sc sco sd se sel sg sgs sh shn shs si sid sk sl sm sma smj smn sms sn so sq sr ss st su sv sw syr szl ta tcy te tg th the ti-er ti-et tig tk tl tn to tpi tr ts tt tw ty tyv ug uk und-zmth und-zsye unm ur uz ve vi vo vot wa wae wal wen wo xh yap yi yo yue yuw za zh-cn zh-hk zh-mo zh-sg zh-tw zu`

var isKnownLang = map[string]bool{}

var localeSyntax = regexp.MustCompile(`^([a-z]*)(?:[_-]([a-z]*))?(?:\.([^@]*))?(?:@(.*))?$`)

// one locale (language[_territory][.codeset][@modifier]) as a language tag, or ""
func refLocale(s string) string {
	l := strings.ToLower(s)
	switch l {
	case "c", "posix", "c.utf-8", "c.utf8":
		return "en"
	}
	m := localeSyntax.FindStringSubmatch(l)
	if m == nil {
		panic("locale " + s)
	}
	lang, terr := m[1], m[2]
	if len(lang) != 2 && len(lang) != 3 {
		return ""
	}
	if terr != "" && len(terr) != 2 && len(terr) != 3 && !(terr[0] == 'z' && len(terr) < 5) {
		return ""
	}
	if terr != "" && m[4] == "" && isKnownLang[lang+"-"+terr] {
		return lang + "-" + terr
	}
	if isKnownLang[lang] {
		return lang
	}
	return s
}

func refDefaultLangs(env map[string]string) []string {
	s := ""
	for _, k := range []string{"FC_LANG", "LC_ALL", "LC_CTYPE", "LANG"} {
		if s == "" {
			s = env[k]
		}
	}
	var out []string
	seen := map[string]bool{}
	for _, l := range strings.Split(s, ":") {
		if l = refLocale(l); l != "" && !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	if len(out) == 0 {
		out = []string{"en"}
	}
	return out
}

func genLocale(t *pbt.T) string {
	s := pbt.Pick(t, []string{"C", "POSIX", "C.UTF-8", "c.utf8", "en_US", "en", "fr_FR", "fr_CA.UTF-8", "de_DE@euro", "zh_TW", "zh_CN.GB18030", "zh_HK", "zh-tw", "ku_TR", "ku_IQ", "pap_AW", "ja_JP.eucJP", "xx_YY", "xx", "x", "fran", "francais", "en_USAA", "und_zsye", "sr_RS@latin", "ber_MA", "mn_MN.UTF-8", "", "a_bc"})
	if t.Chance(1, 5) {
		s = pbt.Pick(t, append(append([]string(nil), knownLangs...), unknownLangs...))
		s = strings.ReplaceAll(s, "-", "_")
	}
	if t.Chance(1, 8) {
		s = strings.ToUpper(s)
	}
	if t.Chance(1, 6) && !strings.ContainsAny(s, ".@") {
		s += pbt.Pick(t, []string{".UTF-8", ".iso88591", "@latin", ".UTF-8@euro"})
	}
	return s
}

// ------------------------------------------------------------------ defaults

func refFirstNum(m mpat, o fc.Object, def float64) float64 {
	if len(m[o]) > 0 {
		switch v := m[o][0].v.(type) {
		case fc.Int:
			return float64(v)
		case fc.Float:
			return float64(v)
		}
	}
	return def
}

// refDefaults completes a query. The returned map gives the expected numbers of
// the computed properties
func refDefaults(m mpat, namelang string) map[fc.Object]float64 {
	def := func(o fc.Object, v fc.Value) {
		if len(m[o]) == 0 {
			m[o] = []mval{{v, 1}}
		}
	}
	def(fc.WEIGHT, fc.Int(80))
	def(fc.SLANT, fc.Int(0))
	def(fc.WIDTH, fc.Int(100))
	for o, b := range map[fc.Object]fc.Bool{fc.HINTING: 1, fc.VERTICAL_LAYOUT: 0, fc.AUTOHINT: 0, fc.GLOBAL_ADVANCE: 1, fc.EMBEDDED_BITMAP: 1, fc.DECORATIVE: 0, fc.SYMBOL: 0, fc.VARIABLE: 0} {
		def(o, b)
	}
	num := map[fc.Object]float64{}
	size := refFirstNum(m, fc.SIZE, 12)
	if len(m[fc.SIZE]) > 0 {
		if r, ok := m[fc.SIZE][0].v.(fc.Range); ok {
			size = (float64(r.Begin) + float64(r.End)) / 2
		}
	}
	scale, dpi := refFirstNum(m, fc.SCALE, 1), refFirstNum(m, fc.DPI, 75)
	if len(m[fc.PIXEL_SIZE]) == 0 {
		num[fc.SIZE], num[fc.SCALE], num[fc.DPI], num[fc.PIXEL_SIZE] = size, scale, dpi, size*scale*dpi/72
	} else {
		num[fc.SIZE] = refFirstNum(m, fc.PIXEL_SIZE, 0) * 72 / dpi / scale
	}
	for o := range num {
		delete(m, o)
	}
	def(fc.FONTVERSION, fc.Int(0x7fffffff))
	def(fc.HINT_STYLE, fc.Int(3))
	def(fc.NAMELANG, fc.String(namelang))
	for _, o := range []fc.Object{fc.FAMILYLANG, fc.STYLELANG, fc.FULLNAMELANG} {
		if len(m[o]) == 0 {
			m[o] = []mval{{m[fc.NAMELANG][0].v, 1}, {fc.String("en-us"), 0}}
		}
	}
	exe, _ := os.Executable()
	def(fc.PRGNAME, fc.String(exe))
	def(fc.ORDER, fc.Int(0))
	return num
}

var defaultsObjects = []fc.Object{fc.WEIGHT, fc.SLANT, fc.WIDTH, fc.HINTING, fc.VERTICAL_LAYOUT, fc.AUTOHINT, fc.GLOBAL_ADVANCE, fc.EMBEDDED_BITMAP, fc.DECORATIVE,
	fc.SYMBOL, fc.VARIABLE, fc.FONTVERSION, fc.HINT_STYLE, fc.NAMELANG, fc.FAMILYLANG, fc.STYLELANG, fc.FULLNAMELANG, fc.PRGNAME, fc.ORDER}

func genMeasure(t *pbt.T) float32 {
	return pbt.Pick(t, []float32{12, 1, 72, 75, 96, 100, 0.5, 10.5, 2, 144, 300, 8, 11})
}

var propF11 = &pbt.Prop{
	ID: "F11", Quick: 250000, Thorough: 10000000,
	Rule:        "queries with any subset of the properties which have a default (values of any accepted type, several values), of the sizes, dpi and scale, and other properties; environments with any of the four variables set to lists of locales, valid or not; non trivial when the query has at least one property with a default and misses another",
	Assumptions: []string{"scale and dpi are positive and sizes are finite; computed sizes are compared with a relative tolerance of 1e-5"},
	Setup: func(string) {
		setupLangRules()
		for _, l := range strings.Fields(orthographies) {
			isKnownLang[l] = true
		}
	},
	Checks: []pbt.Check{
		{Name: "defaults", Weight: 600, Run: func(t *pbt.T) {
			p := fc.NewPattern()
			has := 0
			add := func(o fc.Object, v fc.Value) {
				p.Add(o, v, true)
				(*p[o])[len(*p[o])-1].Binding = (*p[o])[0].Binding
				if t.Chance(1, 3) {
					(*p[o])[len(*p[o])-1].Binding = 0
				}
			}
			for _, o := range defaultsObjects {
				if t.Chance(1, 3) {
					for n := 1 + t.Weighted(4, 1, 1); n > 0; n-- {
						add(o, genValueFor(t, o, true))
					}
					has++
				}
			}
			for _, o := range []fc.Object{fc.SIZE, fc.PIXEL_SIZE, fc.SCALE, fc.DPI} {
				if !t.Chance(2, 5) {
					continue
				}
				has++
				for n := 1 + t.Weighted(4, 1, 1); n > 0; n-- {
					f := genMeasure(t)
					switch t.Weighted(3, 2, 1) {
					case 0:
						add(o, fc.Float(f))
					case 1:
						add(o, fc.Int(math.Ceil(float64(f))))
					case 2:
						if o == fc.SIZE {
							add(o, fc.Range{Begin: f, End: f + genMeasure(t)})
						} else {
							add(o, fc.Float(f+0.25))
						}
					}
				}
			}
			for n := t.Size(4); n > 0; n-- {
				o := genObject(t)
				if typed := o < fc.FirstCustomObject; typed && o != fc.SIZE && o != fc.PIXEL_SIZE && o != fc.SCALE && o != fc.DPI && p[o] == nil {
					add(o, genValueFor(t, o, true))
				}
			}
			t.Describe(func() string { return descPattern(p) })
			if has > 0 && has < len(defaultsObjects)+4 {
				t.NonTrivial(showPattern(p, true))
			}
			m := mpat{}
			for o := range p {
				m[o] = mlist(p, o)
			}
			num := refDefaults(m, "en")
			check := func(round string) {
				rest := mpat{}
				for o := range p {
					if want, ok := num[o]; ok {
						l := mlist(p, o)
						if len(l) != 1 || l[0].b != 1 {
							t.Fatalf("%s: %s has values %v, want the strong value %g", round, o, l, want)
						}
						f, isF := l[0].v.(fc.Float)
						if !isF || math.Abs(float64(f)-want) > 1e-5*math.Abs(want) {
							t.Fatalf("%s: %s is %s, want %g", round, o, descValue(l[0].v), want)
						}
						continue
					}
					rest[o] = mlist(p, o)
				}
				for o, want := range num {
					if p[o] == nil {
						t.Fatalf("%s: %s is missing, want %g", round, o, want)
					}
				}
				if got, want := rest.show(), m.show(); got != want {
					t.Fatalf("%s: got\n%s\nwant\n%s", round, got, want)
				}
			}
			t.NoPanic("SubstituteDefault", func() { p.SubstituteDefault() })
			check("once")
			t.NoPanic("SubstituteDefault", func() { p.SubstituteDefault() })
			check("twice")
		}},
		{Name: "environment", Weight: 1, Run: func(t *pbt.T) {
			env := map[string]string{}
			for _, k := range []string{"FC_LANG", "LC_ALL", "LC_CTYPE", "LANG"} {
				if t.Chance(1, 2) {
					var l []string
					for n := t.Weighted(1, 4, 2, 1); n > 0; n-- {
						l = append(l, genLocale(t))
					}
					env[k] = strings.Join(l, ":")
				}
			}
			want := refDefaultLangs(env)
			has := ""
			if t.Bool() {
				has = pbt.Pick(t, append([]string{"xx-qq", "und", "EN"}, want...))
			}
			t.Input("environment %q, query with language %q", env, has)
			if len(env) > 1 || len(want) > 1 {
				t.NonTrivial(fmt.Sprint(env, has))
			}
			var l []string
			for k, v := range env {
				l = append(l, k+"="+v)
			}
			got, msg := probeLangs(append(l, "VERIF_LANG_HAS="+has))
			if msg != "" {
				t.Fatalf("the library failed: %s", msg)
			}
			if fmt.Sprint(got.Lang) != fmt.Sprint(want) {
				t.Fatalf("default languages %q, want %q", got.Lang, want)
			}
			if len(got.NameLang) != 1 || got.NameLang[0] != want[0] {
				t.Fatalf("language of the names %q, want %q", got.NameLang, want[:1])
			}
			if has != "" {
				sub := []string{has}
				for _, w := range want {
					sat := false
					for _, s := range sub {
						sat = sat || strings.EqualFold(s, w) || strings.EqualFold(s, "und")
					}
					if sat {
						break
					}
					sub = append(sub, w)
				}
				if fmt.Sprint(got.Sub) != fmt.Sprint(sub) {
					t.Fatalf("languages of the query %q, want %q", got.Sub, sub)
				}
			}
		}},
	},
}
