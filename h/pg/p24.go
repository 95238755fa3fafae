package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/benoitkugler/textlayout/fonts"
	"github.com/benoitkugler/textlayout/fonts/truetype"
	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"github.com/benoitkugler/textprocessing/fribidi"
	"github.com/benoitkugler/textprocessing/pango"
	"github.com/benoitkugler/textprocessing/pango/fcfonts"
	"verifh/pbt"
)

// Several goroutines, each with its own objects.

// ownLoader parses the fonts again for each font map, as the default loader does
type ownLoader struct {
	missing map[string]bool
	data    map[string][]byte
}

func (l ownLoader) LoadFace(key fonts.FaceID, format fc.FontFormat) (fonts.Face, error) {
	data := l.data[key.File]
	if l.missing[key.File] || data == nil {
		return nil, errors.New("missing")
	}
	f, err := truetype.Load(bytes.NewReader(data))
	if err != nil {
		return nil, err
	}
	return f[0], nil
}

var fileData = func() func() map[string][]byte {
	var once sync.Once
	var out map[string][]byte
	return func() map[string][]byte {
		once.Do(func() {
			out = map[string][]byte{}
			for _, f := range theFiles() {
				out[f.file] = f.s.Build()
			}
		})
		return out
	}
}()

func (w *fontWorld) ownFontMap() *fcfonts.FontMap {
	fm := fcfonts.NewFontMap(w.config, w.db)
	if !w.disk {
		fm.SetFaceLoader(ownLoader{w.missing, fileData()})
	}
	return fm
}

// parOp returns a text which only depends on the operation
type parOp struct {
	name string
	run  func() string
}

func guarded(f func() string) (out string) {
	defer func() {
		if e := recover(); e != nil {
			out = fmt.Sprintf("PANIC: %v", e)
		}
	}()
	return f()
}

var parProfile = profile{ellipsize: true, attrs: true, vertical: true, noFont: true, maxText: 25}

// genParOp makes an operation: everything random is drawn here
// shared is the font map used by several goroutines, if any: it is safe for that
func genParOp(t *pbt.T, w *fontWorld, shared *fontMap) parOp {
	own := func(fm *fontMap) *fontMap {
		if shared != nil {
			return shared
		}
		return newFontMap(fm.faces...)
	}
	switch t.Weighted(8, 3, 4, 4, 3, 3, 3, 2, 3, 2, 3) {
	case 0:
		s := genSpec(t, parProfile)
		return parOp{"layout", func() string {
			c := *s
			c.fm = own(s.fm)
			return strings.Join(dumpLayout(c.fresh()), "\n")
		}}
	case 1:
		s := genSpec(t, parProfile)
		s2 := *s
		s2.vary(t, parProfile)
		return parOp{"changed layout", func() string {
			c := *s
			c.fm = own(s.fm)
			l := c.fresh()
			out := fmt.Sprint(l.GetLineCount())
			d := s2
			d.fm = c.fm
			d.apply(l)
			return out + strings.Join(dumpLayout(l), "\n")
		}}
	case 2:
		q := genFontRequest(t)
		return parOp{"fonts", func() string {
			fm := w.ownFontMap()
			var b strings.Builder
			ctx := q.context(fm)
			for _, f := range fontsOf(fm.LoadFontset(ctx, &q.desc, q.lang), 3) {
				b.WriteString(describeFont(f))
				fmt.Fprint(&b, f.GetMetrics(q.lang))
				cov := f.GetCoverage(q.lang)
				var ink, logical pango.Rectangle
				for _, r := range "aé א中" {
					fmt.Fprint(&b, cov.Get(r))
				}
				f.GlyphExtents(3, &ink, &logical)
				fmt.Fprint(&b, ink, logical)
			}
			return b.String()
		}}
	case 3:
		q := genFontRequest(t)
		text := string(genLayoutText(t, 20))
		return parOp{"text in the fonts", func() string {
			l := pango.NewLayout(q.context(w.ownFontMap()))
			l.SetFontDescription(&q.desc)
			l.SetText(text)
			var b strings.Builder
			for _, line := range l.GetLinesReadonly() {
				for _, r := range runsOf(line) {
					fmt.Fprintln(&b, r.Item.Offset, r.Item.Length, r.Glyphs)
				}
			}
			return b.String()
		}}
	case 4:
		d := genDoc(t, 1+t.Size(3)).String()
		return parOp{"markup", func() string {
			pm, err := pango.ParseMarkup([]byte(d), '_')
			out := fmt.Sprint(string(pm.Text), pm.AccelChar, err)
			for _, a := range pm.Attr {
				out += fmt.Sprint(a.Kind, a.StartIndex, a.EndIndex, fromAttr(a))
			}
			return out
		}}
	case 5:
		text, lang := genLayoutText(t, 30), pbt.Pick(t, someLanguages)
		return parOp{"break", func() string {
			return string(lang) + fmt.Sprint(pango.ComputeCharacterAttributes(text, -1))
		}}
	case 6:
		text := genLayoutText(t, 30)
		s := defaultSpec(genFontMap(t))
		s.language = pbt.Pick(t, someLanguages)
		s.attrs = genAttrSpecs(t, len(text), parProfile)
		return parOp{"itemize", func() string {
			c := *s
			c.fm = own(s.fm)
			ctx := c.newContext()
			var b strings.Builder
			for l := ctx.Itemize(text, 0, len(text), buildAttrs(s.attrs)); l != nil; l = l.Next {
				a := l.Data.Analysis
				fmt.Fprintln(&b, l.Data.Offset, l.Data.Length, a.Level, a.Gravity, a.Script, a.Language, a.Flags, showFont(a.Font))
			}
			return b.String()
		}}
	case 7:
		tag := genTag(t)
		sc := pbt.Pick(t, langData().scripts)
		return parOp{"languages", func() string {
			l := pango.Language(tag)
			s := defaultSpec(newFontMap(theFaces()...))
			s.language = l
			out := pango.SampleString(l)
			for it := s.newContext().Itemize(sc.letters[:1], 0, 1, nil); it != nil; it = it.Next {
				out += fmt.Sprint(it.Data.Analysis.Script, it.Data.Analysis.Language)
			}
			return out
		}}
	case 10:
		var text []rune
		for k := t.Range(5, 20); k > 0; k-- {
			text = append(text, pbt.Pick(t, langData().scripts).letters[0])
		}
		return parOp{"scripts", func() string {
			s := defaultSpec(newFontMap(theFaces()...))
			ctx, out := s.newContext(), ""
			for i := range text {
				for it := ctx.Itemize(text[:i+1], i, 1, nil); it != nil; it = it.Next {
					out += fmt.Sprint(it.Data.Analysis.Script, it.Data.Analysis.Language)
				}
			}
			return out
		}}
	case 8:
		text := genText(t, 40)
		dir := pbt.Pick(t, []fribidi.ParType{fribidi.LTR, fribidi.RTL, fribidi.ON, fribidi.WLTR})
		return parOp{"bidi", func() string {
			d := dir
			v, n := fribidi.LogicalToVisual(fribidi.DefaultFlags, append([]rune(nil), text...), &d)
			return fmt.Sprint(v, n, d)
		}}
	default:
		desc := genContextDesc(t)
		return parOp{"description", func() string {
			s := desc.String()
			d := pango.NewFontDescriptionFrom(s)
			return s + d.String()
		}}
	}
}

// preferred has the languages of the user, which are used for their scripts
var preferred = sync.OnceFunc(func() { os.Setenv("PANGO_LANGUAGE", "fr:ru:el:ja:ar:hi:th:he:ko") })

func runParallel(t *pbt.T) {
	preferred()
	w := genWorld(t)
	n := 2 + t.Intn(5)
	progs := make([][]parOp, n)
	var names []string
	ops := 0
	var shared *fontMap
	if t.Bool() {
		shared = genFontMap(t)
		t.Label("shared font map")
	}
	for i := range progs {
		for k := 1 + t.Intn(4); k > 0; k-- {
			op := genParOp(t, w, shared)
			progs[i] = append(progs[i], op)
			names = append(names, fmt.Sprintf("%d: %s", i, op.name))
			t.Label(op.name)
			ops++
		}
	}
	t.Input("operations %q, fonts %v", names, w.names())
	t.Input("shared font map: %v", shared != nil)
	results := make([][]string, n)
	var start, done sync.WaitGroup
	start.Add(1)
	for i := range progs {
		done.Add(1)
		go func(i int) {
			defer done.Done()
			start.Wait()
			for _, op := range progs[i] {
				results[i] = append(results[i], guarded(op.run))
			}
		}(i)
	}
	start.Done()
	done.Wait()
	var key strings.Builder
	for i, l := range progs {
		for j, op := range l {
			want := guarded(op.run)
			if got := results[i][j]; got != want {
				t.Fatalf("goroutine %d, operation %d (%s): got\n%s\nalone\n%s\n%s", i, j, op.name, got, want, diffLines(got, want))
			}
			key.WriteString(want)
		}
	}
	if ops > n {
		t.NonTrivial(key.String())
	}
}

var propP24 = &pbt.Prop{
	ID: "P24", Quick: 250, Thorough: 12000, MaxChoices: 60000,
	Rule:        "2 to 6 goroutines, each running 1 to 4 operations on objects of its own (layouts, font maps over the same configuration and fonts, markup, segmentation, itemization, bidi), half of the time with one font map safe for concurrent use shared by the layouts, under the race detector; non trivial when a goroutine runs at least two operations",
	Assumptions: []string{"schedules are the ones chosen by the Go scheduler: the race detector reports unordered accesses even when they do not overlap", "the faces of a font map are not shared with another one, as with the default loader"},
	Checks:      []pbt.Check{{Name: "parallel", Weight: 1, Run: runParallel}},
}
