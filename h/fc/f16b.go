package main

import (
	"fmt"
	"regexp"
	"strings"
	"sync"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// The family substitutions of the standard configuration may be exported, to be
// applied without fontconfig: their interpretation is compared with Substitute.

type exportedSub struct {
	test, lang, family string
	op                 string
	add                []string
	imp                byte
	comment            string
}

var (
	exportOnce     sync.Once
	exported       []exportedSub
	exportedLangs  []string
	exportedFamily []string
	exportErr      error

	reFamTest  = regexp.MustCompile(`^(familyEquals|familyContains)\((".*")\)$`)
	reLangTest = regexp.MustCompile(`^(langAndFamilyEqual|langEqualsAndNoFamily)\{lang: language\.Lang(\w+),family: (".*")\}$`)
)

func unquote(s string) (out string) { fmt.Sscanf(s, "%q", &out); return }

func loadExported() {
	subs, err := fc.GenerateSubstitution()
	if err != nil {
		exportErr = err
		return
	}
	langs, fams := map[string]bool{}, map[string]bool{}
	for _, s := range subs {
		e := exportedSub{op: s.OpCode, add: s.AdditionalFamilies, imp: s.Importance, comment: s.Comment}
		if m := reFamTest.FindStringSubmatch(s.TestCode); m != nil {
			e.test, e.family = m[1], unquote(m[2])
		} else if m := reLangTest.FindStringSubmatch(s.TestCode); m != nil {
			e.test, e.lang, e.family = m[1], strings.ReplaceAll(strings.ToLower(m[2]), "_", "-"), unquote(m[3])
		} else if s.TestCode == "noGenericFamily{}" {
			e.test = "noGenericFamily"
		} else {
			exportErr = fmt.Errorf("unknown test %s", s.TestCode)
			return
		}
		if len(e.add) == 0 {
			exportErr = fmt.Errorf("no family added by %s", s.TestCode)
			return
		}
		if e.lang != "" && !langs[e.lang] {
			langs[e.lang] = true
			exportedLangs = append(exportedLangs, e.lang)
		}
		for _, f := range append([]string{e.family}, e.add...) {
			if f != "" && !fams[f] {
				fams[f] = true
				exportedFamily = append(exportedFamily, f)
			}
		}
		exported = append(exported, e)
	}
}

func sameFamily(a, b string) bool {
	fold := func(s string) string { return strings.ToLower(strings.ReplaceAll(s, " ", "")) }
	return fold(a) == fold(b)
}

type boundFamily struct {
	name    string
	binding int // 0 weak, 1 strong, 2 same
}

func (e *exportedSub) apply(l []boundFamily, lang string) ([]boundFamily, bool) {
	at := -1
	find := func(match func(string) bool) int {
		for i, f := range l {
			if match(f.name) {
				return i
			}
		}
		return -1
	}
	switch e.test {
	case "familyEquals":
		at = find(func(s string) bool { return sameFamily(s, e.family) })
	case "familyContains":
		at = find(func(s string) bool { return strings.Contains(strings.ToLower(s), strings.ToLower(e.family)) })
	case "langAndFamilyEqual":
		if lang == e.lang {
			at = find(func(s string) bool { return sameFamily(s, e.family) })
		}
	case "langEqualsAndNoFamily":
		if lang == e.lang && find(func(s string) bool { return sameFamily(s, e.family) }) == -1 {
			at = 0
		}
	case "noGenericFamily":
		if find(func(s string) bool {
			return sameFamily(s, "serif") || sameFamily(s, "sans-serif") || sameFamily(s, "monospace")
		}) == -1 {
			at = 0
		}
	}
	if at == -1 {
		return l, false
	}
	b := 0
	switch e.imp {
	case 's':
		b = 1
	case 'e':
		// there is no value to take the binding from at the ends
		if len(l) > 0 && e.op != "opAppendLast" && e.op != "opPrependFirst" {
			b = l[at].binding
		}
	}
	var add []boundFamily
	for _, f := range e.add {
		add = append(add, boundFamily{f, b})
	}
	cut := func(i int, skip int) []boundFamily {
		out := append([]boundFamily(nil), l[:i]...)
		return append(append(out, add...), l[i+skip:]...)
	}
	switch e.op {
	case "opAppend":
		return cut(at+1, 0), true
	case "opAppendLast":
		return cut(len(l), 0), true
	case "opPrepend":
		return cut(at, 0), true
	case "opPrependFirst":
		return cut(0, 0), true
	}
	return cut(at, 1), true
}

func runExported(t *pbt.T) {
	exportOnce.Do(loadExported)
	if exportErr != nil {
		t.Fatalf("GenerateSubstitution: %s", exportErr)
	}
	lang := "en"
	if t.Bool() {
		lang = pbt.Pick(t, append(exportedLangs, "fr", "zh", "und"))
	}
	p := fc.NewPattern()
	p.AddString(fc.LANG, lang)
	var l []boundFamily
	for n := 1 + t.Size(3); n > 0; n-- {
		f := "Other"
		if t.Chance(5, 6) {
			f = pbt.Pick(t, exportedFamily)
		}
		switch t.Intn(6) {
		case 0:
			f = strings.ToUpper(f)
		case 1:
			f = strings.ReplaceAll(f, " ", "")
		case 2:
			f += " x"
		}
		p.AddString(fc.FAMILY, f)
		l = append(l, boundFamily{f, 1})
	}
	query := fmt.Sprintf("lang %s families %v", lang, l)
	t.Describe(func() string { return query })
	applied := 0
	for i := range exported {
		var ok bool
		// the rule appends after the first family
		if exported[i].test == "langEqualsAndNoFamily" && lang == exported[i].lang && len(l) > 1 {
			t.Label("approximated")
			return
		}
		if l, ok = exported[i].apply(l, lang); ok {
			applied++
		}
	}
	t.NoPanic("Substitute", func() { fc.Standard.Substitute(p, nil, fc.MatchQuery) })
	normalized := false // und-zmth "contains" mt
	for _, x := range *p[fc.LANG] {
		normalized = normalized || x.Value == fc.Value(fc.String(lang))
	}
	if !normalized {
		t.Label("language normalized")
		return
	}
	var got []boundFamily
	if v := p[fc.FAMILY]; v != nil {
		for _, x := range *v {
			s, _ := x.Value.(fc.String)
			got = append(got, boundFamily{string(s), int(x.Binding)})
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(l) {
		t.Fatalf("families %v\nwith the exported substitutions %v", got, l)
	}
	if applied >= 3 {
		t.NonTrivial(query)
	}
}
