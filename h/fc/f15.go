package main

import (
	"bytes"
	"fmt"
	"strings"
	"sync"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// One operation on a configuration and a font set shared between goroutines. Its result is a text.
type sharedOp struct {
	name string
	run  func(cfg *fc.Config, fs fc.Fontset) string
}

func guarded(f func() string) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("PANIC: %v", e)
		}
	}()
	return f()
}

func genSharedOp(t *pbt.T, objs []fc.Object, custom map[string]fc.Object, data []byte, cache []byte) sharedOp {
	query := func() fc.Pattern {
		q := genQuery(t, objs)
		if t.Chance(1, 2) {
			x := xpattern(t, custom)
			for o, l := range x {
				if q[o] == nil {
					q[o] = l
				}
			}
		}
		return q
	}
	single := func(q fc.Pattern) fc.Pattern { return q }
	mut := t.Bool()
	touch := func(p fc.Pattern) { // the caller owns the patterns it receives
		if mut && p != nil {
			p.Del(fc.FAMILY)
			p.AddString(fc.FAMILY, "mine")
			p.AddInt(fc.SLANT, 100)
			for _, o := range []fc.Object{fc.STYLE, fc.LANG, fc.WEIGHT} {
				if l := p[o]; l != nil {
					for i := range *l {
						(*l)[i].Binding = 2
					}
				}
			}
		}
	}
	switch t.Weighted(6, 4, 4, 4, 3, 2, 1, 1, 2, 1, 1, 2) {
	case 0:
		q := single(query())
		return sharedOp{"substitute and match", func(cfg *fc.Config, fs fc.Fontset) string {
			p := q.Duplicate()
			cfg.Substitute(p, nil, fc.MatchQuery)
			p.SubstituteDefault()
			r := fs.Match(p, cfg)
			s := showPattern(p, true) + "\n"
			if r != nil {
				s += showPattern(r, true)
			}
			touch(r)
			touch(p)
			return s
		}}
	case 1:
		q, trim := single(query()), t.Bool()
		return sharedOp{"sort", func(cfg *fc.Config, fs fc.Fontset) string {
			r, cs := fs.Sort(q, trim)
			s := showSet(r) + charsetKey(cs)
			for i := range r {
				r[i] = nil // the list belongs to the caller
			}
			return s
		}}
	case 2:
		q := fc.NewPattern()
		if t.Bool() {
			q = query()
			for o := range q {
				if t.Chance(2, 3) {
					q.Del(o)
				}
			}
		}
		var want []fc.Object
		for i := 1 + t.Intn(3); i > 0; i-- {
			want = append(want, pbt.Pick(t, append([]fc.Object{fc.FAMILY, fc.LANG, fc.CHARSET}, objs...)))
		}
		want = distinct(want)
		return sharedOp{"list", func(cfg *fc.Config, fs fc.Fontset) string {
			r := fs.List(q, want...)
			s := showSet(r)
			for _, p := range r {
				touch(p)
			}
			return s
		}}
	case 3:
		q, n := query(), t.U64()
		return sharedOp{"prepare", func(cfg *fc.Config, fs fc.Fontset) string {
			if len(fs) == 0 {
				return ""
			}
			r := cfg.PrepareRender(q, fs[int(n%uint64(len(fs)))])
			s := showPattern(r, true)
			touch(r)
			return s
		}}
	case 4:
		kind := t.Intn(3)
		p, q := xpattern(t, custom), xpattern(t, custom)
		return sharedOp{"substitute", func(cfg *fc.Config, fs fc.Fontset) string {
			d := p.Duplicate()
			confSubst(cfg, d, q, []string{"pattern", "font", "scan"}[kind])
			return showPattern(d, true)
		}}
	case 5:
		n := t.U64()
		return sharedOp{"read", func(cfg *fc.Config, fs fc.Fontset) string {
			if len(fs) == 0 {
				return ""
			}
			f := fs[int(n%uint64(len(fs)))]
			d := f.Duplicate()
			s := fmt.Sprint(f.Hash(), len(f.String()), showPattern(d, true))
			for _, o := range sortedObjects(f) {
				v, _ := f.GetAt(o, 0)
				s += showValue(v)
			}
			touch(d)
			return s
		}}
	case 6:
		return sharedOp{"serialize", func(cfg *fc.Config, fs fc.Fontset) string {
			var b bytes.Buffer
			if err := fs.Serialize(&b); err != nil {
				return err.Error()
			}
			l, err := fc.LoadFontset(&b)
			return fmt.Sprint(showSet(l), err)
		}}
	case 7:
		return sharedOp{"load", func(cfg *fc.Config, fs fc.Fontset) string {
			l, err := fc.LoadFontset(bytes.NewReader(cache))
			return fmt.Sprint(showSet(l), err)
		}}
	case 8:
		return sharedOp{"scan", func(cfg *fc.Config, fs fc.Fontset) string {
			l, err := cfg.ScanFontRessource(bytes.NewReader(data), "f.ttf")
			return fmt.Sprint(showSet(l), err)
		}}
	case 9:
		doc := xdoc([]xrule{genXRule(t)})
		return sharedOp{"extend a copy", func(cfg *fc.Config, fs fc.Fontset) string {
			c := cfg.Copy()
			err := c.LoadFromMemory(strings.NewReader(doc))
			p := fc.NewPattern()
			c.Substitute(p, p.Duplicate(), fc.MatchResult)
			return fmt.Sprint(showPattern(p, true), err)
		}}
	case 10:
		doc := xdoc([]xrule{genXRule(t), genXRule(t)})
		return sharedOp{"another configuration", func(*fc.Config, fc.Fontset) string {
			c := fc.NewConfig()
			err := c.LoadFromMemory(strings.NewReader(doc))
			p := fc.NewPattern()
			c.Substitute(p, p.Duplicate(), fc.MatchResult)
			return fmt.Sprint(showPattern(p, true), err)
		}}
	default:
		tags := genLangs(t, true)
		set := genRuneSet(t)
		return sharedOp{"values", func(*fc.Config, fc.Fontset) string {
			l := mkLangset(tags)
			c := set.charset()
			return langKey(l) + charsetKey(c) + fmt.Sprint(c.Len(), fc.WeightFromOT(450))
		}}
	}
}

// deepCopy rebuilds every value of the set
func deepCopy(fs fc.Fontset) fc.Fontset {
	var out fc.Fontset
	for _, p := range fs {
		q := fc.NewPattern()
		for o, l := range p {
			for i, e := range *l {
				v := e.Value
				switch x := v.(type) {
				case fc.Charset:
					v = charsetRunes(x).charset()
				case fc.Langset:
					v = x.Copy()
				}
				q.Add(o, v, true)
				(*q[o])[i].Binding = e.Binding
			}
		}
		out = append(out, q)
	}
	return out
}

var propF15 = &pbt.Prop{
	ID: "F15", Quick: 3000, Thorough: 100000, MaxChoices: 30000,
	Rule:        "2 to 6 goroutines, each running 1 to 5 operations (matching, sorting, listing, rendering preparation, substitutions, scanning, caching, copies) on a shared configuration and font set under the race detector; non trivial when two goroutines run at least two operations of which one is a query",
	Assumptions: []string{"schedules are the ones chosen by the Go scheduler: the race detector reports unordered accesses even when they do not overlap"},
	Checks: []pbt.Check{{Name: "shared", Weight: 10, Run: func(t *pbt.T) { checkShared(t, false) }},
		{Name: "standard", Weight: 1, Run: func(t *pbt.T) { checkShared(t, true) }}},
}

func checkShared(t *pbt.T, standard bool) {
	objs := pickObjects(t)
	fs := genFonts(t, objs, t.Size(8))
	alone := deepCopy(fs)
	var rules []xrule
	for k := t.Size(5); k > 0; k-- {
		rules = append(rules, genXRule(t))
	}
	doc := xdoc(rules)
	sel := ""
	if t.Bool() {
		sel = `<fontconfig><selectfont><rejectfont><pattern><patelt name="family"><string>Foo</string></patelt></pattern><glob>/nowhere/*</glob></rejectfont><acceptfont><pattern><patelt name="slant"><int>100</int></patelt></pattern></acceptfont></selectfont></fontconfig>`
	}
	load := func() *fc.Config {
		if standard {
			return fc.Standard
		}
		c := mustLoad(doc)
		if sel != "" {
			c.LoadFromMemory(strings.NewReader(sel))
		}
		return c
	}
	cfg, cfgAlone := load(), load()
	custom := map[string]fc.Object{"va": 90, "vb": 91} // unused by the standard rules
	if !standard {
		custom = customObjects(cfgAlone, []string{"va", "vb"})
		cfg.Copy()
	}
	_, data := genFontFile(t)
	var cache bytes.Buffer
	alone.Serialize(&cache)

	var progs [][]sharedOp
	var names []string
	n := 2 + t.Intn(5)
	nOps := 0
	for i := 0; i < n; i++ {
		var ops []sharedOp
		for k := 1 + t.Intn(5); k > 0; k-- {
			op := genSharedOp(t, objs, custom, data, cache.Bytes())
			ops = append(ops, op)
			names = append(names, fmt.Sprintf("%d: %s", i, op.name))
			t.Label(op.name)
			nOps++
		}
		progs = append(progs, ops)
	}
	t.Describe(func() string {
		return fmt.Sprintf("operations %q\n%s\n%s", names, doc, descSet(fs))
	})
	results := make([][]string, n)
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range progs {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			for _, op := range progs[i] {
				op := op
				results[i] = append(results[i], guarded(func() string { return op.run(cfg, fs) }))
			}
		}(i)
	}
	start.Done()
	done.Wait()
	for i, ops := range progs {
		for j, op := range ops {
			op := op
			want := guarded(func() string { return op.run(cfgAlone, alone) })
			if got := results[i][j]; got != want {
				t.Fatalf("goroutine %d, operation %d (%s): got\n%s\nalone\n%s", i, j, op.name, got, want)
			}
		}
	}
	if nOps > n {
		t.NonTrivial(strings.Join(names, "|") + doc + descSet(fs))
	}
}
