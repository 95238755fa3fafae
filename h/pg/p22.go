package main

import (
	"fmt"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"github.com/benoitkugler/textlayout/language"
	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
	"verifh/ucd"
)

// Language tags: the scripts of a language, the language of a script, the sample texts.

const defaultSample = "The quick brown fox jumps over the lazy dog."

// scriptInfo is a script of the Unicode database which the library knows
type scriptInfo struct {
	name    string
	script  language.Script
	letters []rune // assigned up to Unicode 13
	rtl     bool
}

type langTables struct {
	scripts []scriptInfo // real ones
	byName  map[string]*scriptInfo
	uses    map[string][]language.Script
	tags    []string // keys of uses
	main    map[language.Script]string
	sample  map[string]string
	samples []string // keys of sample
}

var langData = func() func() *langTables {
	var once sync.Once
	var d *langTables
	return func() *langTables { once.Do(func() { d = newLangTables() }); return d }
}()

func newLangTables() *langTables {
	d := &langTables{byName: map[string]*scriptInfo{}, uses: map[string][]language.Script{}, main: map[language.Script]string{}, sample: map[string]string{}}
	letters := map[string][]rune{}
	rtl := map[string]int{}
	for r := rune(0); r <= 0x2ffff; r++ {
		name := ucd.Get("Script", r)
		if name == "" || name == "Common" || name == "Inherited" || name == "Unknown" || len(letters[name]) >= 60 || !ucd.AgeAtMost(r, 13, 0) {
			continue
		}
		if gc := ucd.Get("General_Category", r); !strings.HasPrefix(gc, "L") && !strings.HasSuffix(gc, "etter") {
			continue
		}
		if v := ucd.Get("Bidi_Class", r); v == "R" || v == "AL" || strings.HasPrefix(v, "Right") || strings.HasPrefix(v, "Arabic_Letter") {
			rtl[name]++
		} else if v == "L" || strings.HasPrefix(v, "Left") {
			rtl[name]--
		}
		letters[name] = append(letters[name], r)
	}
	var names []string
	for n := range letters {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := language.LookupScript(letters[n][0])
		if realScript(s) {
			d.scripts = append(d.scripts, scriptInfo{n, s, letters[n], rtl[n] > 0})
		}
	}
	for i := range d.scripts {
		d.byName[d.scripts[i].name] = &d.scripts[i]
	}
	for _, line := range strings.Split(strings.TrimSpace(langScripts), "\n") {
		f := strings.Fields(line)
		d.tags = append(d.tags, f[0])
		for _, n := range f[1:] {
			d.uses[f[0]] = append(d.uses[f[0]], d.byName[n].script)
		}
	}
	for _, line := range strings.Split(strings.TrimSpace(scriptLangs), "\n") {
		f := strings.Fields(line)
		d.main[d.byName[f[0]].script] = f[1]
	}
	for _, s := range langSamples {
		d.samples = append(d.samples, s[0])
		d.sample[s[0]] = s[1]
	}
	return d
}

// bestTag returns the longest key which is a prefix of the tag, up to a '-', or the tag
func bestTag(tag string, has func(string) bool) string {
	for {
		if has(tag) {
			return tag
		}
		i := strings.LastIndexByte(tag, '-')
		if i < 0 {
			return ""
		}
		tag = tag[:i]
	}
}

func (d *langTables) sampleOf(tag string) string {
	if b := bestTag(tag, func(s string) bool { _, ok := d.sample[s]; return ok }); b != "" {
		return d.sample[b]
	}
	return defaultSample
}

// includes is true if the language may be written with the script
func (d *langTables) includes(tag string, script language.Script) bool {
	b := bestTag(tag, func(s string) bool { _, ok := d.uses[s]; return ok })
	if b == "" || !realScript(script) {
		return true
	}
	for _, s := range d.uses[b] {
		if s == script {
			return true
		}
	}
	return false
}

// derived is the language of a run of text; preferred are the ones of the user
func (d *langTables) derived(tag string, script language.Script, preferred []string) string {
	if d.includes(tag, script) {
		return tag
	}
	for _, p := range preferred {
		if d.includes(p, script) {
			return p
		}
	}
	if l := d.main[script]; l != "" {
		return l
	}
	return "xx"
}

func genTag(t *pbt.T) string {
	d := langData()
	list := d.tags
	if t.Bool() {
		list = d.samples
	}
	tag := pbt.Pick(t, list)
	letter := func() string { return string(rune('a' + t.Intn(26))) }
	switch t.Weighted(4, 4, 2, 2, 1, 1, 1, 1) {
	case 1:
		tag += "-" + pbt.Pick(t, []string{"us", "cn", "x", "latn", "cyrl-rs", "tw", "", "zh", "419", "ir", "arab"})
	case 2:
		tag += letter()
	case 3:
		if i := strings.IndexByte(tag, '-'); i > 0 && t.Bool() {
			tag = tag[:i]
		} else {
			tag = tag[:t.Intn(len(tag))]
		}
	case 4:
		i := t.Intn(len(tag))
		tag = tag[:i] + letter() + tag[i+1:]
	case 5:
		tag = letter() + letter()
	case 6:
		tag = letter() + letter() + letter()
	case 7:
		tag = letter() + tag
	}
	return tag
}

// spellTag writes the tag in another way, with the same canonical form
func spellTag(t *pbt.T, tag string) string {
	var b strings.Builder
	for _, r := range tag {
		if r == '-' && t.Bool() {
			r = pbt.Pick(t, []rune{'_', '@'})
		} else if t.Bool() {
			r = []rune(strings.ToUpper(string(r)))[0]
		}
		b.WriteRune(r)
		if t.Intn(12) == 0 {
			b.WriteString(pbt.Pick(t, []string{"!", "é", "(", "~", "+", "日"}))
		}
	}
	return b.String()
}

func (d *langTables) char(t *pbt.T, s *scriptInfo) rune {
	r := pbt.Pick(t, s.letters)
	if language.LookupScript(r) != s.script {
		r = s.letters[0]
	}
	return r
}

func itemLanguages(text []rune, ctxLang string, attr *pango.Attribute) []string {
	ctx := pango.NewContext(newFontMap(theFaces()...))
	if ctxLang != "" {
		ctx.SetLanguage(pango.Language(ctxLang))
	}
	var attrs pango.AttrList
	if attr != nil {
		attrs.Insert(attr)
	}
	out := make([]string, len(text))
	for l := ctx.Itemize(text, 0, len(text), attrs); l != nil; l = l.Next {
		for i := l.Data.Offset; i < l.Data.Offset+l.Data.Length; i++ {
			out[i] = string(l.Data.Analysis.Language)
		}
	}
	return out
}

// langChild prints the language of a letter of each script, in a text in another language
func langChild() {
	for _, s := range langData().scripts {
		fmt.Println(s.name, itemLanguages(s.letters[:1], otherLanguage(&s), nil)[0])
	}
}

// otherLanguage does not use the script
func otherLanguage(s *scriptInfo) string {
	if s.name == "Latin" {
		return "ru"
	}
	return "en"
}

var propP22 = &pbt.Prop{
	ID:   "P22",
	Rule: "a tag with a record and an extension or a near miss, a script that the language does not include, a list of preferred languages with several entries",
	Assumptions: []string{
		"the scripts of the languages are the ones of their orthographies in fontconfig, snapshot in the harness; the sample texts and the representative languages of the scripts are snapshots too",
		"the letters of a script are known to the library up to Unicode 13",
	},
	Quick: 24000, Thorough: 300000, MaxChoices: 4000,
	Sweep: func(t *pbt.T) {
		d := langData()
		for _, tag := range append(append([]string(nil), d.tags...), d.samples...) {
			for _, suffix := range []string{"", "-xx", "-", "q", "-latn-xx"} {
				tag := tag + suffix
				if got, want := pango.SampleString(pango.Language(tag)), d.sampleOf(tag); got != want {
					t.Fatalf("the sample of %q is %q, want %q", tag, got, want)
				}
				t.Evals(1)
			}
			for i := range d.scripts {
				s := &d.scripts[i]
				got := itemLanguages(s.letters[:1], tag, nil)[0]
				if want := d.derived(tag, s.script, nil); got != want {
					t.Fatalf("a letter of the %s script (%U) in a text in %q has language %q, want %q", s.name, s.letters[0], tag, got, want)
				}
				t.Evals(1)
			}
		}
	},
	Checks: []pbt.Check{
		{Name: "sample", Weight: 14, Run: runLangSample},
		{Name: "script", Weight: 14, Run: runLangScript},
		{Name: "environment", Weight: 1, Run: runLangEnvironment},
	},
}

func runLangSample(t *pbt.T) {
	d := langData()
	tag := genTag(t)
	raw := spellTag(t, tag)
	t.Input("tag %q written %q", tag, raw)
	lang := pango.Language(tag)
	want := d.sampleOf(tag)
	if tag == "" {
		want = d.sampleOf("en-us")
	}
	if got := pango.SampleString(lang); got != want {
		t.Fatalf("sample %q, want %q", got, want)
	}
	if _, exact := d.sample[tag]; !exact {
		t.NonTrivial(tag)
		if want != defaultSample {
			t.Label("range of another tag")
		} else {
			t.Label("unknown")
		}
	}
	// in a markup
	if raw != "" && !strings.ContainsAny(raw, "&<>\"'") {
		p, err := pango.ParseMarkup([]byte("<span lang=\""+raw+"\">x</span>"), 0)
		if err != nil {
			t.Fatalf("markup: %s", err)
		}
		if len(p.Attr) != 1 || p.Attr[0].Kind != pango.ATTR_LANGUAGE {
			t.Fatalf("markup: attributes %v", p.Attr)
		}
		ref := pango.NewAttrLanguage(lang)
		if got, want := fmt.Sprint(p.Attr[0].Data), fmt.Sprint(ref.Data); got != want {
			t.Fatalf("markup: the language is %q, want %q", got, want)
		}
	}
}

func runLangScript(t *pbt.T) {
	d := langData()
	n := t.Range(1, 4)
	var text []rune
	var scripts []*scriptInfo
	for i := 0; i < n; i++ {
		s := &d.scripts[t.Intn(len(d.scripts))]
		if t.Intn(3) == 0 {
			s = d.byName[pbt.Pick(t, []string{"Latin", "Cyrillic", "Arabic", "Han", "Hiragana", "Hangul", "Devanagari", "Greek"})]
		}
		scripts = append(scripts, s)
		text = append(text, d.char(t, s))
	}
	ctxLang := genTag(t)
	var attr *pango.Attribute
	tags := make([]string, n)
	for i := range tags {
		tags[i] = ctxLang
		if ctxLang == "" {
			tags[i] = "en-us"
		}
	}
	desc := ""
	if t.Bool() {
		l := genTag(t)
		if l != "" {
			attr = pango.NewAttrLanguage(pango.Language(l))
			i := t.Intn(n)
			j := t.Range(i+1, n)
			attr.StartIndex, attr.EndIndex = i, j
			for k := i; k < j; k++ {
				tags[k] = l
			}
			desc = fmt.Sprintf(", [%d,%d) in %q", i, j, l)
		}
	}
	t.Input("text %U in %q%s", text, ctxLang, desc)
	got := itemLanguages(text, ctxLang, attr)
	for i := range text {
		want := d.derived(tags[i], scripts[i].script, nil)
		if got[i] != want {
			t.Fatalf("the language of %U (%s) is %q, want %q", text[i], scripts[i].name, got[i], want)
		}
		if want != tags[i] {
			t.NonTrivial(fmt.Sprint(tags[i], " ", scripts[i].name))
			t.Label("language of the script")
		} else if b := bestTag(tags[i], func(s string) bool { return d.uses[s] != nil }); b == "" {
			t.Label("unknown tag")
		}
	}
}

func runLangEnvironment(t *pbt.T) {
	d := langData()
	gen := func() (string, []string) {
		var list []string
		var b strings.Builder
		for i, n := 0, t.Size(6); i < n; i++ {
			if i > 0 || t.Intn(6) == 0 {
				b.WriteString(pbt.Pick(t, []string{":", ";", ",", " ", "\t", "::", ": "}))
			}
			if t.Intn(8) == 0 {
				b.WriteString("C")
				continue
			}
			tag := pbt.Pick(t, d.tags)
			if t.Intn(3) == 0 {
				tag = genTag(t)
			}
			if tag == "" || tag == "c" {
				tag = "en"
			}
			list = append(list, tag)
			b.WriteString(spellTag(t, tag))
		}
		if t.Intn(6) == 0 {
			b.WriteString(":")
		}
		return b.String(), list
	}
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "LANGUAGE=") && !strings.HasPrefix(e, "PANGO_LANGUAGE=") {
			env = append(env, e)
		}
	}
	var list []string
	desc := ""
	if t.Bool() {
		var s string
		s, list = gen()
		env = append(env, "LANGUAGE="+s)
		desc += fmt.Sprintf(" LANGUAGE=%q", s)
	}
	if t.Bool() || desc == "" {
		var s string
		s, list = gen()
		env = append(env, "PANGO_LANGUAGE="+s)
		desc += fmt.Sprintf(" PANGO_LANGUAGE=%q", s)
	}
	t.Input("environment%s", desc)
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(exe, "lang-child")
	cmd.Env = env
	b, err := cmd.CombinedOutput()
	if err != nil {
		t.Fatalf("the process fails: %s\n%s", err, b)
	}
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	if len(lines) != len(d.scripts) {
		t.Fatalf("output %s", b)
	}
	for i := range d.scripts {
		s := &d.scripts[i]
		if got, want := lines[i], s.name+" "+d.derived(otherLanguage(s), s.script, list); got != want {
			t.Fatalf("script and language %q, want %q", got, want)
		}
	}
	if len(list) > 1 {
		t.NonTrivial(strings.Join(list, " "))
	}
}
