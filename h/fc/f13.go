package main

import (
	"fmt"
	"sort"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// tagSet is the model of a language set
type tagSet map[string]bool

func (s tagSet) key() string {
	var l []string
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, "|")
}

// same language, and same territory or one is missing
func refTagContains(super, sub string) bool {
	if super == sub {
		return true
	}
	return strings.HasPrefix(super, sub+"-") || strings.HasPrefix(sub, super+"-")
}

func (s tagSet) contains(tag string) bool {
	for k := range s {
		if refTagContains(k, tag) {
			return true
		}
	}
	return false
}

func (s tagSet) includes(o tagSet) bool {
	for k := range o {
		if !s.contains(k) {
			return false
		}
	}
	return true
}

func (s tagSet) distance(tag string) int {
	best := 2
	for k := range s {
		best = min(best, refLangTag(k, tag))
	}
	return best
}

var (
	lsConfig *fc.Config
	lsObj    map[string]fc.Object
)

func setupLangRules() {
	names := []string{"va", "vb", "union", "minus"}
	var b strings.Builder
	b.WriteString(`<fontconfig>
<match target="font"><edit name="union" mode="assign"><plus><name>va</name><name>vb</name></plus></edit>
<edit name="minus" mode="assign"><minus><name>va</name><name>vb</name></minus></edit></match>`)
	for _, op := range csOps {
		fmt.Fprintf(&b, `<match target="font"><test name="va" compare="%s"><name>vb</name></test><edit name="r_%s" mode="assign"><bool>true</bool></edit></match>`, op, op)
		names = append(names, "r_"+op)
	}
	b.WriteString("</fontconfig>")
	lsConfig = mustLoad(b.String())
	lsObj = customObjects(lsConfig, names)
}

var moreUnknown = []string{"xx", "xx-yy", "xx-zz", "en-us", "en-gb", "fr-ca", "zh", "zh-xx", "qq-ab", "tlh", "ku", "pap", "zzz", "a", "en-"}

func genTags(t *pbt.T) []string {
	var out []string
	for n := t.Size(6); n > 0; n-- {
		switch t.Weighted(3, 2, 2) {
		case 0:
			out = append(out, pbt.Pick(t, knownLangs))
		case 1:
			out = append(out, pbt.Pick(t, moreUnknown))
		default: // any language of the library
			l := pbt.Pick(t, allLangs)
			if t.Intn(3) == 0 && !strings.Contains(l, "-") {
				l += "-" + pbt.Pick(t, []string{"et", "us", "zz", "er"})
			}
			out = append(out, l)
		}
	}
	return out
}

// all the languages of the library, found by asking it
var allLangs []string

func setupAllLangs() {
	if len(allLangs) > 0 {
		return
	}
	// languages without orthography are not written in the caches
	known := func(tag string) bool {
		q := fc.NewPattern()
		q.Add(fc.LANG, fc.NewLangset(tag), true)
		return roundTripLang(q) == tag
	}
	for a := byte('a'); a <= 'z'; a++ {
		for b := byte('a'); b <= 'z'; b++ {
			l := string([]byte{a, b})
			if known(l) {
				allLangs = append(allLangs, l)
			}
		}
	}
	for _, l := range orthoList {
		if len(l) > 2 && known(l) {
			allLangs = append(allLangs, l)
		}
	}
}

var propF13 = &pbt.Prop{
	ID: "F13", Quick: 250000, Thorough: 10000000,
	Rule:  "pairs of sets of up to 6 language tags, with and without territory, known (every two-letter language of the library and the ones with territories) or not; non trivial when both sets are non empty and different, and share a primary language",
	Setup: func(string) { setupLangRules(); setupAllLangs() },
	Checks: []pbt.Check{{Name: "sets", Run: func(t *pbt.T) {
		la, lb := genTags(t), genTags(t)
		if t.Chance(1, 3) {
			lb = append(append([]string(nil), la...), lb...)
			if t.Bool() && len(lb) > 0 {
				lb = lb[1:]
			}
		}
		tag := pbt.Pick(t, append(append(append([]string(nil), knownLangs...), moreUnknown...), append(la, lb...)...))
		if len(la) > 0 && t.Intn(3) == 0 { // same language, other territory
			if tag = primary(pbt.Pick(t, la)); tag == "und" { // undefined, which matches no language
				tag = "und-zsye"
			} else if t.Bool() {
				tag += "-" + pbt.Pick(t, []string{"et", "us", "zz", "er"})
			}
		}
		t.Input("a = %q, b = %q, tag %q", la, lb, tag)
		build := func(l []string) (fc.Langset, tagSet) {
			m := tagSet{}
			var tags []string
			for _, i := range t.Perm(len(l)) {
				m[l[i]] = true
				tags = append(tags, l[i])
				if t.Chance(1, 6) {
					tags = append(tags, l[i]) // twice
				}
				if t.Chance(1, 10) {
					tags = append(tags, "")
				}
			}
			return fc.NewLangset(strings.Join(tags, "|")), m
		}
		a, ma := build(la)
		b, mb := build(lb)
		common := false
		for x := range ma {
			for y := range mb {
				common = common || primary(x) == primary(y)
			}
		}
		if common && ma.key() != mb.key() {
			t.NonTrivial(ma.key() + "/" + mb.key())
		}
		if got := langKey(a); got != ma.key() {
			t.Fatalf("the set %q contains %q", la, got)
		}
		a2, _ := build(la) // another order
		cp := a.Copy()
		if langKey(a2) != ma.key() || langKey(cp) != ma.key() {
			t.Fatalf("copy or reordered set: %q, %q, want %q", langKey(a2), langKey(cp), ma.key())
		}
		pat := func(v fc.Value) fc.Pattern {
			p := fc.NewPattern()
			p.Add(fc.LANG, v, true)
			return p
		}
		if pat(a).Hash() != pat(a2).Hash() || pat(a).Hash() != pat(cp).Hash() || (pat(a).Hash() == pat(b).Hash()) != (ma.key() == mb.key()) {
			t.Fatalf("identity of the sets does not agree with their content")
		}
		// rules
		p := fc.NewPattern()
		p.Add(lsObj["va"], a, true)
		p.Add(lsObj["vb"], b, true)
		t.NoPanic("Substitute", func() { lsConfig.Substitute(p, fc.NewPattern(), fc.MatchResult) })
		un, mi := tagSet{}, tagSet{}
		for k := range ma {
			un[k] = true
			if !mb[k] {
				mi[k] = true
			}
		}
		for k := range mb {
			un[k] = true
		}
		for name, want := range map[string]tagSet{"union": un, "minus": mi} {
			v, r := p.GetAt(lsObj[name], 0)
			ls, ok := v.(fc.Langset)
			if r != fc.ResultMatch || !ok {
				t.Fatalf("%s is not a language set: %v", name, v)
			}
			if langKey(ls) != want.key() {
				t.Fatalf("%s is %q, want %q", name, langKey(ls), want.key())
			}
		}
		if langKey(a) != ma.key() || langKey(b) != mb.key() {
			t.Fatalf("the operands changed")
		}
		eq, inc := ma.key() == mb.key(), ma.includes(mb)
		for i, want := range []bool{eq, !eq, inc, !inc} {
			if _, got := p.GetBool(lsObj["r_"+csOps[i]]); got != want {
				t.Fatalf("test a %s b is %v, want %v", csOps[i], got, want)
			}
		}
		// listing: the font must include the language(s) of the query
		if got := len(fc.Fontset{pat(a)}.List(pat(b), fc.LANG)) == 1; got != inc {
			t.Fatalf("listing the fonts supporting b gives a: %v, want %v", got, inc)
		}
		if got, want := len(fc.Fontset{pat(a)}.List(pat(fc.String(tag)), fc.LANG)) == 1, ma.contains(tag); got != want {
			t.Fatalf("listing the fonts supporting %s gives a: %v, want %v", tag, got, want)
		}
		// distances, seen by comparing with fonts at known distances of the query
		type probe struct {
			q    fc.Value
			f    fc.Value
			want int
			what string
		}
		setDist := 2
		for k := range ma {
			setDist = min(setDist, mb.distance(k))
		}
		probes := []probe{
			{fc.String(tag), a, ma.distance(tag), "tag against set"},
			{a, fc.String(tag), ma.distance(tag), "set against tag"},
			{a, b, setDist, "set against set"},
		}
		for _, pr := range probes {
			got := langDistance(t, pr.q, pr.f)
			if got != pr.want {
				t.Fatalf("%s: distance %d, want %d (query %s, font %s)", pr.what, got, pr.want, descValue(pr.q), descValue(pr.f))
			}
		}
	}}},
}

// langDistance observes the language distance between a query and a font: two other fonts of the set have
// distances 1 and 2 for sure, and the weight (of lower priority) breaks the ties
func langDistance(t *pbt.T, q, f fc.Value) int {
	query := fc.NewPattern()
	query.Add(fc.LANG, q, true)
	query.AddInt(fc.WEIGHT, 0)
	wins := func(other fc.Value, myWeight, otherWeight int32) bool {
		me, ot := fc.NewPattern(), fc.NewPattern()
		me.Add(fc.LANG, f, true)
		me.AddInt(fc.INDEX, 1)
		me.AddInt(fc.WEIGHT, myWeight)
		if other != nil {
			ot.Add(fc.LANG, other, true)
		}
		ot.AddInt(fc.INDEX, 2)
		ot.AddInt(fc.WEIGHT, otherWeight)
		m := fc.Fontset{me, ot}.Match(query, fc.NewConfig())
		i, _ := m.GetInt(fc.INDEX)
		return i == 1
	}
	// a font without language is at distance 0: being as close means a distance of 0
	if wins(nil, 0, 100) {
		return 0
	}
	// a language of its own: at distance 2
	if wins(fc.String("vvv"), 100, 0) {
		return 1
	}
	return 2
}
