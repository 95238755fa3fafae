package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// genPattern is a pattern with values of every kind and every binding
func genPattern(t *pbt.T, maxObj int, unknownLang bool) fc.Pattern {
	p := fc.NewPattern()
	for n := t.Size(maxObj); n > 0; n-- {
		o := genObject(t)
		m := 1 + t.Size(4)
		if t.Chance(1, 200) {
			m = 300
		}
		for ; m > 0; m-- {
			p.Add(o, genValueFor(t, o, unknownLang), t.Bool())
			if l := *p[o]; t.Chance(1, 3) {
				switch t.Intn(3) {
				case 1:
					l[t.Intn(len(l))].Binding = 0
				case 2:
					l[t.Intn(len(l))].Binding = 2
				}
			}
		}
	}
	return p
}

func genSet(t *pbt.T, maxFonts, maxObj int) fc.Fontset {
	var fs fc.Fontset
	for n := t.Size(maxFonts); n > 0; n-- {
		fs = append(fs, genPattern(t, maxObj, false))
	}
	return fs
}

type chunkReader struct {
	b []byte
	n int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := min(min(r.n, len(p)), len(r.b))
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

var errDisk = errors.New("disk full")

type failWriter struct{ left int }

func (w *failWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n := w.left
		w.left = 0
		return n, errDisk
	}
	w.left -= len(p)
	return len(p), nil
}

type failReader struct {
	r io.Reader
}

func (r failReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	if err == io.EOF {
		err = errDisk
	}
	return n, err
}

func kinds(fs fc.Fontset) int {
	seen := map[otype]bool{}
	for _, p := range fs {
		for _, l := range p {
			for _, v := range *l {
				seen[kindOf(v.Value)] = true
			}
		}
	}
	return len(seen)
}

var propF02 = &pbt.Prop{
	ID: "F02", Quick: 60000, Thorough: 3000000,
	Rule:        "up to 12 patterns of up to 25 properties (built-in and custom) with up to 300 values of every type and binding, written and read back whole or by chunks, or to a failing medium; non trivial when the set has at least two fonts and three kinds of values",
	Assumptions: []string{"language sets only hold languages known to the library (others are documented as not written)", "no NaN; less than 65536 values by property"},
	Checks: []pbt.Check{{Name: "roundtrip", Weight: 5, Run: func(t *pbt.T) {
		fs := genSet(t, 12, 25)
		t.Describe(func() string { return descSet(fs) })
		before := showSet(fs)
		var buf bytes.Buffer
		var err error
		t.NoPanic("Serialize", func() { err = fs.Serialize(&buf) })
		if err != nil {
			t.Fatalf("Serialize failed: %s", err)
		}
		if showSet(fs) != before {
			t.Fatalf("Serialize changed the font set")
		}
		if len(fs) >= 2 && kinds(fs) >= 3 {
			t.NonTrivial(before)
		}
		var src io.Reader = bytes.NewReader(buf.Bytes())
		if t.Bool() {
			src = &chunkReader{buf.Bytes(), 1 + t.Size(60)}
		}
		var back fc.Fontset
		t.NoPanic("LoadFontset", func() { back, err = fc.LoadFontset(src) })
		if err != nil {
			t.Fatalf("loading what was just written failed: %s", err)
		}
		if after := showSet(back); after != before {
			t.Fatalf("font sets differ.\nwritten:\n%s\nread:\n%s", before, after)
		}
		for i := range fs {
			if fs[i].Hash() != back[i].Hash() {
				t.Fatalf("font %d has another hash after reading", i)
			}
			if len(fs[i]) != len(back[i]) {
				t.Fatalf("font %d has %d properties after reading, want %d", i, len(back[i]), len(fs[i]))
			}
		}
		// the fonts read are independent
		if len(back) >= 2 {
			back[0].AddString(fc.FAMILY, "changed")
			if showSet(back[1:]) != showSet(fs[1:]) {
				t.Fatalf("the fonts read share values")
			}
		}
	}}, {Name: "medium", Weight: 1, Run: func(t *pbt.T) {
		fs := genSet(t, 6, 10)
		t.Describe(func() string { return descSet(fs) })
		var buf bytes.Buffer
		if err := fs.Serialize(&buf); err != nil {
			t.Fatalf("Serialize failed: %s", err)
		}
		k := t.Intn(buf.Len() + 1)
		t.Input("the medium fails at byte %d", k)
		// the encoding depends on the iteration order of maps: stay away from the end
		if k < buf.Len()-100 {
			var err error
			t.NoPanic("Serialize", func() { err = fs.Serialize(&failWriter{k}) })
			if err == nil {
				t.Fatalf("writing to a medium failing at byte %d of about %d gives no error", k, buf.Len())
			}
			t.NonTrivial(fmt.Sprint(k, descSet(fs)))
		}
		if k < buf.Len() {
			var err error
			t.NoPanic("LoadFontset", func() { _, err = fc.LoadFontset(failReader{bytes.NewReader(buf.Bytes()[:k])}) })
			if err == nil {
				t.Fatalf("reading from a medium failing at byte %d of %d gives no error", k, buf.Len())
			}
		}
	}}, {Name: "files", Weight: 1, Run: checkCacheFile}},
}

func gunzip(b []byte) []byte {
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	out, err := io.ReadAll(r)
	if err != nil {
		panic(err)
	}
	return out
}

func gz(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// mutate applies a few random edits
func mutate(t *pbt.T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := 1 + t.Size(4); n > 0; n-- {
		if len(b) == 0 {
			b = append(b, 0)
		}
		i := t.Intn(len(b))
		switch t.Weighted(4, 4, 2, 1, 1, 1) {
		case 0:
			b[i] ^= 1 << uint(t.Intn(8))
		case 1:
			b[i] = byte(pbt.Pick(t, []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 37, 0x7F, 0x80, 0xFF}))
		case 2:
			b[i] = byte(t.Intn(256))
		case 3: // insert
			b = append(b[:i], append([]byte{byte(t.Intn(256))}, b[i:]...)...)
		case 4: // delete some
			j := min(len(b), i+1+t.Intn(8))
			b = append(b[:i], b[j:]...)
		case 5: // copy some bytes elsewhere
			j := t.Intn(len(b))
			copy(b[j:], append([]byte(nil), b[i:min(len(b), i+1+t.Intn(40))]...))
		}
	}
	return b
}

// validSet reports the first invalid value of a font set
func validSet(fs fc.Fontset, hint []byte) string {
	for i, p := range fs {
		if p == nil {
			return fmt.Sprintf("font %d is nil", i)
		}
		for o, l := range p {
			if l == nil {
				return fmt.Sprintf("font %d: nil list for %s", i, o)
			}
			for _, e := range *l {
				if e.Value == nil {
					return fmt.Sprintf("font %d: nil value for %s", i, o)
				}
				if !accepts(o, e.Value) {
					return fmt.Sprintf("font %d: %s does not accept %s", i, o, descValue(e.Value))
				}
				if uint8(e.Binding) > 2 {
					return fmt.Sprintf("font %d: unknown binding %d for %s", i, e.Binding, o)
				}
				switch v := e.Value.(type) {
				case fc.Bool:
					if v > fc.DontCare {
						return fmt.Sprintf("font %d: invalid boolean %d", i, v)
					}
				case fc.Charset:
					// every element must be found
					if s := checkCharset(v, hint); s != "" {
						return fmt.Sprintf("font %d: %s", i, s)
					}
				case fc.Langset:
					if s := pbt.Panics(func() { _ = v.String() }); s != "" {
						return fmt.Sprintf("font %d: invalid language set: %s", i, s)
					}
				}
			}
		}
	}
	return ""
}

// a charset is coherent when its length agrees with its members. The pages are first looked for
// among the 16 bits values found in the input, then everywhere.
func checkCharset(c fc.Charset, hint []byte) string {
	count := func(pages map[rune]bool) (n int) {
		for p := range pages {
			for k := p << 8; k < p<<8+256; k++ {
				if c.HasChar(k) {
					n++
				}
			}
		}
		return n
	}
	pages := map[rune]bool{}
	for i := 0; i+1 < len(hint); i++ {
		pages[rune(hint[i])<<8|rune(hint[i+1])] = true
		pages[rune(hint[i+1])<<8|rune(hint[i])] = true
	}
	l := c.Len()
	if len(pages) < 5000 && count(pages) == l {
		return ""
	}
	for p := rune(0); p < 0x10000; p++ {
		pages[p] = true
	}
	if n := count(pages); l != n {
		return fmt.Sprintf("inconsistent charset: length %d but %d members", l, n)
	}
	return ""
}

var batteryQueries []fc.Pattern

func init() {
	q1 := fc.NewPattern()
	q1.AddString(fc.FAMILY, "DejaVu Sans")
	q1.AddInt(fc.WEIGHT, 80)
	q1.AddFloat(fc.SIZE, 12)
	q1.AddString(fc.LANG, "fr")
	q1.AddBool(fc.SCALABLE, true)
	q2 := q1.Duplicate()
	q2.AddString(fc.FILE, "/x/*.ttf")
	q2.AddString(fc.POSTSCRIPT_NAME, "ab")
	q2.AddString(fc.FAMILY, "")
	q2.Add(fc.CHARSET, runeSet{0x41: true, 0x10000: true}.charset(), true)
	q3 := q2.Duplicate()
	q3.SubstituteDefault()
	batteryQueries = []fc.Pattern{fc.NewPattern(), q1, q2, q3}
}

// battery uses a font set in all the public ways
func battery(t *pbt.T, fs fc.Fontset) {
	t.NoPanic("using the loaded set", func() {
		for _, p := range fs {
			p.Hash()
			_ = p.String()
			d := p.Duplicate()
			d.SubstituteDefault()
			p.FaceID()
			p.Format()
			for _, l := range p {
				for _, v := range *l {
					_ = fmt.Sprint(v.Value)
				}
			}
		}
		var buf bytes.Buffer
		fs.Serialize(&buf)
		if _, err := fc.LoadFontset(&buf); err != nil {
			t.Fatalf("writing and loading again failed: %s", err)
		}
		for _, q := range batteryQueries {
			fs.Match(q, fc.NewConfig())
			fs.Sort(q, true)
			fs.Sort(q, false)
			fs.List(q)
		}
	})
}

func loadChecked(t *pbt.T, input []byte) (fs fc.Fontset, err error) {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	t.NoPanic("LoadFontset", func() { fs, err = fc.LoadFontset(bytes.NewReader(input)) })
	runtime.ReadMemStats(&m1)
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 64<<20+uint64(len(input))*5000 {
		t.Fatalf("loading %d bytes allocated %d bytes", len(input), d)
	}
	return
}

func checkLoaded(t *pbt.T, input, hint []byte) (fc.Fontset, error) {
	fs, err := loadChecked(t, input)
	if err != nil {
		return nil, err
	}
	if s := validSet(fs, hint); s != "" {
		t.Fatalf("loading gave no error and an invalid set: %s", s)
	}
	battery(t, fs)
	return fs, nil
}

// a small set, so that mutations hit meaningful bytes
func genSmallSet(t *pbt.T) fc.Fontset {
	var fs fc.Fontset
	for n := 1 + t.Size(2); n > 0; n-- {
		fs = append(fs, genPattern(t, 4, false))
	}
	return fs
}

// the encoding of one-property patterns does not depend on the iteration order of maps
func genTinySet(t *pbt.T) fc.Fontset {
	var fs fc.Fontset
	for n := 1 + t.Size(3); n > 0; n-- {
		p := fc.NewPattern()
		o := genObject(t)
		for m := 1 + t.Intn(2); m > 0; m-- {
			v := genValueFor(t, o, false)
			if s, ok := v.(fc.String); ok {
				v = fc.String(clip(string(s), 6))
			}
			p.Add(o, v, true)
		}
		fs = append(fs, p)
	}
	return fs
}

func encode(t *pbt.T, fs fc.Fontset) []byte {
	var buf bytes.Buffer
	if err := fs.Serialize(&buf); err != nil {
		t.Fatalf("Serialize failed: %s", err)
	}
	return buf.Bytes()
}

// splitPayload returns the patterns of a payload: their number, then their lengths and contents
func splitPayload(b []byte) (out [][]byte) {
	if len(b) < 4 {
		return nil
	}
	n := int(binary.BigEndian.Uint32(b))
	b = b[4:]
	for len(b) >= 4 {
		l := int(binary.BigEndian.Uint32(b))
		if l < 0 || l > len(b)-4 {
			return nil
		}
		out = append(out, b[4:4+l])
		b = b[4+l:]
	}
	if len(b) != 0 || len(out) != n {
		return nil
	}
	return out
}

func joinPayload(pats [][]byte) []byte {
	out := binary.BigEndian.AppendUint32(nil, uint32(len(pats)))
	for _, p := range pats {
		out = binary.BigEndian.AppendUint32(out, uint32(len(p)))
		out = append(out, p...)
	}
	return out
}

var propF03 = &pbt.Prop{
	ID: "F03", Quick: 30000, Thorough: 1500000,
	Rule:        "truncations, bit flips, byte edits, insertions, deletions and splices of the compressed or (re-compressed) inner bytes of valid caches, plus raw bytes; every accepted result is checked value by value and used in all the public ways; non trivial when the edit is inside the payload of a cache with at least one font",
	Assumptions: []string{"memory bound: 64 MB + 5000 bytes by input byte (the compression format itself expands up to 1032 times)"},
	Checks: []pbt.Check{{Name: "payload", Weight: 6, Run: func(t *pbt.T) {
		fs := genTinySet(t)
		payload := gunzip(encode(t, fs))
		mut := mutate(t, payload)
		t.Describe(func() string {
			return fmt.Sprintf("%s payload %x\n mutated %x", descSet(fs), clip(string(payload), 400), clip(string(mut), 400))
		})
		_, err := checkLoaded(t, gz(mut), mut)
		if !bytes.Equal(payload, mut) {
			t.NonTrivial(string(mut))
		}
		if err == nil {
			t.Label("accepted")
		} else {
			t.Label("rejected")
		}
	}}, {Name: "large payload", Weight: 1, Run: func(t *pbt.T) {
		fs := genSmallSet(t)
		mut := mutate(t, gunzip(encode(t, fs)))
		t.Describe(func() string { return fmt.Sprintf("%s mutated payload %x", descSet(fs), clip(string(mut), 400)) })
		t.NonTrivial(string(mut))
		checkLoaded(t, gz(mut), mut)
	}}, {Name: "cut pattern", Weight: 2, Run: func(t *pbt.T) {
		// one pattern is cut, with the right length: its end is met inside of a value
		fs := genTinySet(t)
		payload := gunzip(encode(t, fs))
		pats := splitPayload(payload)
		if pats == nil {
			t.Discard() // another format
		}
		k := t.Intn(len(pats))
		was := len(pats[k])
		pats[k] = pats[k][:t.Intn(was+1)]
		more := t.Intn(4) == 0
		if more {
			pats[k] = append(pats[k][:len(pats[k]):len(pats[k])], byte(t.Intn(256)))
		}
		mut := joinPayload(pats)
		t.Describe(func() string {
			return fmt.Sprintf("%s payload %x\n pattern %d cut to %d: %x", descSet(fs), clip(string(payload), 400), k, len(pats[k]), clip(string(mut), 400))
		})
		if len(pats[k]) != was {
			t.NonTrivial(string(mut))
		}
		if back, err := checkLoaded(t, gz(mut), payload); err == nil && !more {
			// the cut is between two properties: nothing comes from beyond
			if again := gunzip(encode(t, back)); len(again) != len(mut) {
				t.Fatalf("a pattern cut inside of a value is accepted: it has %d bytes, and %d once written again", len(mut), len(again))
			}
			t.Label("accepted cut")
		}
	}}, {Name: "truncation", Weight: 2, Run: func(t *pbt.T) {
		fs := genTinySet(t)
		c := encode(t, fs)
		payload := gunzip(c)
		what := "cache"
		var in []byte
		k := 0
		if t.Bool() {
			k = t.Intn(len(c))
			in = c[:k]
		} else {
			what = "payload"
			k = t.Intn(len(payload))
			in = gz(payload[:k])
		}
		t.Describe(func() string {
			return fmt.Sprintf("%s%s of %d bytes (payload %d) truncated to %d", descSet(fs), what, len(c), len(payload), k)
		})
		t.NonTrivial(string(in))
		back, err := checkLoaded(t, in, payload)
		if err == nil {
			t.Fatalf("a truncated %s is accepted (%d fonts)", what, len(back))
		}
	}}, {Name: "compressed", Weight: 2, Run: func(t *pbt.T) {
		fs := genSmallSet(t)
		c := encode(t, fs)
		mut := mutate(t, c)
		t.Describe(func() string {
			return fmt.Sprintf("%s cache %x\n mutated %x", descSet(fs), clip(string(c), 400), clip(string(mut), 400))
		})
		if bytes.Equal(mut, c) {
			return
		}
		t.NonTrivial(string(mut))
		back, err := checkLoaded(t, mut, gunzip(c))
		if err == nil && showSet(back) != showSet(fs) {
			t.Fatalf("a corrupted cache is accepted with another content:\n%s", descSet(back))
		}
	}}, {Name: "raw", Weight: 1, Run: func(t *pbt.T) {
		b := make([]byte, t.Size(60))
		for i := range b {
			b[i] = byte(pbt.Pick(t, []int{0, 0, 0, 1, 2, 4, 8, 0x1f, 0x8b, 0xff, t.Intn(256)}))
		}
		t.Input("bytes %x", b)
		checkLoaded(t, b, nil)
		t.NonTrivial(string(b))
		checkLoaded(t, gz(b), b)
	}}},
}

var _ = strings.Join

// language of the pattern after being written and read
func roundTripLang(p fc.Pattern) string {
	var buf bytes.Buffer
	if err := (fc.Fontset{p}).Serialize(&buf); err != nil {
		return ""
	}
	fs, err := fc.LoadFontset(&buf)
	if err != nil || len(fs) != 1 {
		return ""
	}
	v, _ := fs[0].GetAt(fc.LANG, 0)
	l, _ := v.(fc.Langset)
	return l.String()
}

// checkCacheFile goes through files: the cache is created or replaced.
func checkCacheFile(t *pbt.T) {
	fs := genSet(t, 6, 10)
	t.Describe(func() string { return descSet(fs) })
	var buf bytes.Buffer
	if err := fs.Serialize(&buf); err != nil {
		t.Fatalf("Serialize failed: %s", err)
	}
	dir, err := os.MkdirTemp("", "verif-f02-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "cache")
	if _, err := fc.LoadFontsetFile(file); err == nil {
		t.Fatalf("a missing file is loaded")
	}
	if _, err := fc.LoadFontsetFile(dir); err == nil {
		t.Fatalf("a directory is loaded")
	}
	load := func(b []byte) (back fc.Fontset, err error) {
		if err := os.WriteFile(file, b, 0o644); err != nil {
			panic(err)
		}
		t.NoPanic("LoadFontsetFile", func() { back, err = fc.LoadFontsetFile(file) })
		return
	}
	back, err := load(buf.Bytes())
	if err != nil {
		t.Fatalf("loading what was just written failed: %s", err)
	}
	if showSet(back) != showSet(fs) {
		t.Fatalf("font sets differ.\nwritten:\n%s\nread:\n%s", showSet(fs), showSet(back))
	}
	k := t.Intn(buf.Len())
	if _, err := load(buf.Bytes()[:k]); err == nil {
		t.Fatalf("a file cut at byte %d of %d is loaded", k, buf.Len())
	}
	if len(fs) >= 2 {
		t.NonTrivial(descSet(fs))
	}
	if !t.Chance(1, 500) {
		return
	}
	// the fonts installed, over a previous file or not
	if t.Bool() {
		os.WriteFile(file, bytes.Repeat([]byte("previous "), t.Size(1<<17)), 0o644)
	} else {
		os.Remove(file)
	}
	dirs, err := fc.DefaultFontDirs()
	if err != nil {
		t.Fatalf("DefaultFontDirs: %s", err)
	}
	want, err := fc.Standard.ScanFontDirectories(dirs...)
	if err != nil {
		t.Fatalf("ScanFontDirectories: %s", err)
	}
	var got fc.Fontset
	t.NoPanic("ScanAndCache", func() { got, err = fc.ScanAndCache(file) })
	if err != nil {
		t.Fatalf("ScanAndCache: %s", err)
	}
	if back, err = fc.LoadFontsetFile(file); err != nil {
		t.Fatalf("loading the file of ScanAndCache: %s", err)
	}
	if showSet(got) != showSet(want) {
		t.Fatalf("ScanAndCache does not return the fonts of the default directories")
	}
	if showSet(back) != showSet(want) {
		t.Fatalf("the file of ScanAndCache does not hold the fonts of the default directories")
	}
	if _, err := fc.ScanAndCache(filepath.Join(dir, "missing", "cache")); err == nil {
		t.Fatalf("ScanAndCache: no error for a file which can't be created")
	}
	t.Label("ScanAndCache")
}
