// Package sfnt writes small OpenType fonts, used as inputs by the checks.
package sfnt

import (
	"encoding/binary"
	"sort"
)

type Name struct {
	Platform, Encoding, Language, ID int
	Value                            []byte
}

// Cmap is one character mapping. Format is 0, 4, 6, 10, 12 or 13.
type Cmap struct {
	Platform, Encoding int
	Format             int
	Map                map[rune]int
}

type OS2 struct {
	Version               int
	Weight, Width         int
	VendID                string // 4 bytes
	FsSelection           int
	CodePage1             uint32
	CodePage2             uint32
	Lower, Upper          int // version 5
	StrikeSize, StrikePos int
	XHeight, CapHeight    int
	SubYSize, SuperYSize  int
	SubYOff, SuperYOff    int
}

type Axis struct {
	Tag           string
	Min, Def, Max float64
}

type Instance struct {
	Subfamily int
	Coords    []float64
	PSName    int // -1: no field in the table
}

type Box struct{ XMin, YMin, XMax, YMax int }

type Ligature struct {
	Comps []int // glyphs
	Glyph int
}

type Font struct {
	UPM                          int
	Revision                     uint32
	MacStyle                     int
	Ascent, Descent, LineGap     int
	Names                        []Name
	Cmaps                        []Cmap
	Advances                     []int // one for each glyph
	Boxes                        []*Box
	NoHhea                       bool
	OS2                          *OS2
	Hint                         bool
	GSUB, GPOS                   []string // scripts
	Ligatures                    []Ligature
	Kerns                        map[[2]int]int // pairs of glyphs
	MarkGlyphs                   []int          // GDEF class 3
	Carets                       map[int][]int  // GDEF ligature carets
	Axes                         []Axis
	Instances                    []Instance
	UnderlinePos, UnderlineThick int
	Extra                        map[string][]byte
}

type w struct{ b []byte }

func (x *w) u8(v ...int) {
	for _, i := range v {
		x.b = append(x.b, byte(i))
	}
}

func (x *w) u16(v ...int) {
	for _, i := range v {
		x.b = binary.BigEndian.AppendUint16(x.b, uint16(i))
	}
}

func (x *w) u32(v ...uint32) {
	for _, i := range v {
		x.b = binary.BigEndian.AppendUint32(x.b, i)
	}
}
func (x *w) tag(s string) { x.b = append(x.b, (s + "    ")[:4]...) }

func fixed(f float64) uint32 { return uint32(int32(f * 65536)) }

func (f *Font) head() []byte {
	var x w
	x.u32(0x00010000, f.Revision, 0, 0x5F0F3CF5)
	x.u16(0, f.UPM)
	x.u32(0, 0, 0, 0)
	x.u16(0, f.Descent, f.UPM, f.Ascent, f.MacStyle, 6, 2)
	x.u16(1, 0) // long loca
	return x.b
}

func (f *Font) hhea() []byte {
	var x w
	x.u32(0x00010000)
	x.u16(f.Ascent, f.Descent, f.LineGap)
	max := 0
	for _, a := range f.Advances {
		if a > max {
			max = a
		}
	}
	x.u16(max, 0, 0, max, 1, 0, 0, 0, 0, 0, 0, 0, len(f.Advances))
	return x.b
}

func (f *Font) hmtx() []byte {
	var x w
	for i, a := range f.Advances {
		lsb := 0
		if i < len(f.Boxes) && f.Boxes[i] != nil {
			lsb = f.Boxes[i].XMin
		}
		x.u16(a, lsb)
	}
	return x.b
}

func (f *Font) maxp() []byte {
	var x w
	x.u32(0x00010000)
	x.u16(len(f.Advances), 4, 1, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0)
	return x.b
}

func (f *Font) post() []byte {
	var x w
	x.u32(0x00030000, 0)
	x.u16(f.UnderlinePos, f.UnderlineThick)
	x.u32(0, 0, 0, 0, 0)
	return x.b
}

func (f *Font) glyf() (loca, glyf []byte) {
	var l, g w
	for i := range f.Advances {
		l.u32(uint32(len(g.b)))
		if i >= len(f.Boxes) || f.Boxes[i] == nil {
			continue
		}
		b := *f.Boxes[i]
		g.u16(1, b.XMin, b.YMin, b.XMax, b.YMax)
		g.u16(3)                           // end point
		g.u16(0)                           // instructions
		g.u8(1, 1, 1, 1)                   // on curve, 16-bit deltas
		g.u16(b.XMin, 0, b.XMax-b.XMin, 0) // x
		g.u16(b.YMin, b.YMax-b.YMin, 0, b.YMin-b.YMax)
		for len(g.b)%4 != 0 {
			g.u8(0)
		}
	}
	l.u32(uint32(len(g.b)))
	return l.b, g.b
}

func (o *OS2) build(f *Font) []byte {
	var x w
	x.u16(o.Version, f.UPM/2, o.Weight, o.Width, 0)
	x.u16(0, o.SubYSize, 0, o.SubYOff, 0, o.SuperYSize, 0, o.SuperYOff, o.StrikeSize, o.StrikePos, 0)
	x.b = append(x.b, make([]byte, 10)...)
	x.u32(0, 0, 0, 0)
	v := [4]byte{}
	copy(v[:], o.VendID)
	x.b = append(x.b, v[:]...)
	x.u16(o.FsSelection, 0x20, 0xFFFF, f.Ascent, f.Descent, f.LineGap, f.Ascent, -f.Descent)
	if o.Version >= 1 {
		x.u32(o.CodePage1, o.CodePage2)
	}
	if o.Version >= 2 {
		x.u16(o.XHeight, o.CapHeight, 0, 32, 2)
	}
	if o.Version >= 5 {
		x.u16(o.Lower, o.Upper)
	}
	return x.b
}

func (f *Font) name() []byte {
	var x, data w
	l := append([]Name(nil), f.Names...)
	x.u16(0, len(l), 6+12*len(l))
	for _, n := range l {
		x.u16(n.Platform, n.Encoding, n.Language, n.ID, len(n.Value), len(data.b))
		data.b = append(data.b, n.Value...)
	}
	return append(x.b, data.b...)
}

type seg struct{ start, end rune }

func runes(m map[rune]int) []rune {
	var l []rune
	for r := range m {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (c Cmap) build() []byte {
	var x w
	l := runes(c.Map)
	switch c.Format {
	case 0:
		x.u16(0, 262, 0)
		for r := rune(0); r < 256; r++ {
			x.u8(c.Map[r])
		}
	case 6:
		var body w
		first, n := rune(0), 0
		if len(l) > 0 {
			first, n = l[0], int(l[len(l)-1]-l[0])+1
		}
		for i := 0; i < n; i++ {
			body.u16(c.Map[first+rune(i)])
		}
		x.u16(6, 10+len(body.b), 0, int(first), n)
		x.b = append(x.b, body.b...)
	case 4:
		// one segment by run; alternately with a delta or an array of indices
		type run struct {
			s, e   rune
			direct bool
		}
		var rs []run
		for _, r := range l {
			if k := len(rs) - 1; k >= 0 && rs[k].e+1 == r {
				prev := c.Map[rs[k].e]
				if c.Map[r] == prev+1 || !rs[k].direct {
					rs[k].e = r
					continue
				}
				if rs[k].s == rs[k].e {
					rs[k].e = r
					rs[k].direct = false
					continue
				}
			}
			rs = append(rs, run{r, r, true})
		}
		rs2 := append(rs, run{0xFFFF, 0xFFFF, true})
		if len(l) > 0 && l[len(l)-1] == 0xFFFF {
			rs2 = rs
		}
		n := len(rs2)
		var ends, starts, deltas, offs, arr w
		for i, r := range rs2 {
			ends.u16(int(r.e))
			starts.u16(int(r.s))
			g, has := c.Map[r.s]
			switch {
			case !has:
				deltas.u16(1)
				offs.u16(0)
			case r.direct:
				deltas.u16(g - int(r.s))
				offs.u16(0)
			default:
				deltas.u16(0)
				offs.u16(2*(n-i) + len(arr.b))
				for k := r.s; k <= r.e; k++ {
					arr.u16(c.Map[k])
				}
			}
		}
		total := 16 + 8*n + len(arr.b)
		x.u16(4, total, 0, 2*n, 0, 0, 0)
		x.b = append(x.b, ends.b...)
		x.u16(0)
		x.b = append(x.b, starts.b...)
		x.b = append(x.b, deltas.b...)
		x.b = append(x.b, offs.b...)
		x.b = append(x.b, arr.b...)
	case 10:
		var body w
		first, n := rune(0), 0
		if len(l) > 0 {
			first, n = l[0], int(l[len(l)-1]-l[0])+1
		}
		for i := 0; i < n; i++ {
			body.u16(c.Map[first+rune(i)])
		}
		x.u16(10, 0)
		x.u32(uint32(20+len(body.b)), 0, uint32(first), uint32(n))
		x.b = append(x.b, body.b...)
	case 12, 13:
		var body w
		n := uint32(0)
		for i := 0; i < len(l); {
			j := i + 1
			for j < len(l) && l[j] == l[j-1]+1 &&
				(c.Format == 12 && c.Map[l[j]] == c.Map[l[j-1]]+1 || c.Format == 13 && c.Map[l[j]] == c.Map[l[i]]) {
				j++
			}
			body.u32(uint32(l[i]), uint32(l[j-1]), uint32(c.Map[l[i]]))
			n++
			i = j
		}
		x.u16(c.Format, 0)
		x.u32(uint32(16+len(body.b)), 0, n)
		x.b = append(x.b, body.b...)
	}
	return x.b
}

func (f *Font) cmap() []byte {
	l := append([]Cmap(nil), f.Cmaps...)
	sort.SliceStable(l, func(i, j int) bool {
		a, b := l[i], l[j]
		return a.Platform < b.Platform || a.Platform == b.Platform && a.Encoding < b.Encoding
	})
	var x, data w
	x.u16(0, len(l))
	for _, c := range l {
		x.u16(c.Platform, c.Encoding)
		x.u32(uint32(4 + 8*len(l) + len(data.b)))
		data.b = append(data.b, c.build()...)
	}
	return append(x.b, data.b...)
}

// script list with, for every script, the given features in the default language
func scriptList(scripts []string, nbFeatures int) []byte {
	l := append([]string(nil), scripts...)
	sort.Strings(l)
	var x, data w
	x.u16(len(l))
	for _, s := range l {
		x.tag(s)
		x.u16(2 + 6*len(l) + len(data.b))
		if nbFeatures == 0 {
			data.u16(0, 0)
		} else {
			data.u16(4, 0, 0, 0xFFFF, nbFeatures)
			for i := 0; i < nbFeatures; i++ {
				data.u16(i)
			}
		}
	}
	return append(x.b, data.b...)
}

func layout(scripts []string, feature string, lookupType int, subtable []byte) []byte {
	nb := 0
	if subtable != nil {
		nb = 1
	}
	sl := scriptList(scripts, nb)
	var fl, ll w
	if subtable == nil {
		fl.u16(0)
		ll.u16(0)
	} else {
		fl.u16(1)
		fl.tag(feature)
		fl.u16(8)
		fl.u16(0, 1, 0)
		ll.u16(1, 4)
		ll.u16(lookupType, 0, 1, 8)
		ll.b = append(ll.b, subtable...)
	}
	var x w
	x.u32(0x00010000)
	x.u16(10, 10+len(sl), 10+len(sl)+len(fl.b))
	x.b = append(x.b, sl...)
	x.b = append(x.b, fl.b...)
	x.b = append(x.b, ll.b...)
	return x.b
}

func (f *Font) ligatures() []byte {
	if len(f.Ligatures) == 0 {
		return nil
	}
	by := map[int][]Ligature{}
	var firsts []int
	for _, l := range f.Ligatures {
		if by[l.Comps[0]] == nil {
			firsts = append(firsts, l.Comps[0])
		}
		by[l.Comps[0]] = append(by[l.Comps[0]], l)
	}
	sort.Ints(firsts)
	var x, cov, sets w
	cov.u16(1, len(firsts))
	head := 6 + 2*len(firsts)
	for _, g := range firsts {
		cov.u16(g)
	}
	x.u16(1, head, len(firsts))
	for _, g := range firsts {
		x.u16(head + len(cov.b) + len(sets.b))
		ls := by[g]
		sort.SliceStable(ls, func(i, j int) bool { return len(ls[i].Comps) > len(ls[j].Comps) })
		var s, d w
		s.u16(len(ls))
		for _, l := range ls {
			s.u16(2 + 2*len(ls) + len(d.b))
			d.u16(l.Glyph, len(l.Comps))
			d.u16(l.Comps[1:]...)
		}
		sets.b = append(sets.b, s.b...)
		sets.b = append(sets.b, d.b...)
	}
	x.b = append(x.b, cov.b...)
	x.b = append(x.b, sets.b...)
	return x.b
}

func (f *Font) kerns() []byte {
	if len(f.Kerns) == 0 {
		return nil
	}
	by := map[int][][2]int{}
	var firsts []int
	for k, v := range f.Kerns {
		if by[k[0]] == nil {
			firsts = append(firsts, k[0])
		}
		by[k[0]] = append(by[k[0]], [2]int{k[1], v})
	}
	sort.Ints(firsts)
	var x, cov, sets w
	cov.u16(1, len(firsts))
	cov.u16(firsts...)
	head := 10 + 2*len(firsts)
	x.u16(1, head, 4, 0, len(firsts))
	for _, g := range firsts {
		x.u16(head + len(cov.b) + len(sets.b))
		l := by[g]
		sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
		sets.u16(len(l))
		for _, p := range l {
			sets.u16(p[0], p[1])
		}
	}
	x.b = append(x.b, cov.b...)
	x.b = append(x.b, sets.b...)
	return x.b
}

func (f *Font) gdef() []byte {
	var x w
	x.u32(0x00010000)
	l := append([]int(nil), f.MarkGlyphs...)
	sort.Ints(l)
	carets := 0
	if len(f.Carets) != 0 {
		carets = 12 + 4 + 6*len(l)
	}
	x.u16(12, 0, carets, 0)
	x.u16(2, len(l))
	for _, g := range l {
		x.u16(g, g, 3)
	}
	if carets == 0 {
		return x.b
	}
	var gs []int
	for g := range f.Carets {
		gs = append(gs, g)
	}
	sort.Ints(gs)
	var cov, sets w
	cov.u16(1, len(gs))
	cov.u16(gs...)
	head := 4 + 2*len(gs)
	x.u16(head, len(gs))
	for _, g := range gs {
		x.u16(head + len(cov.b) + len(sets.b))
		sets.u16(len(f.Carets[g]))
		for i := range f.Carets[g] {
			sets.u16(2 + 2*len(f.Carets[g]) + 4*i)
		}
		for _, c := range f.Carets[g] {
			sets.u16(1, c)
		}
	}
	x.b = append(x.b, cov.b...)
	x.b = append(x.b, sets.b...)
	return x.b
}

func (f *Font) fvar() []byte {
	var x w
	size := 4 + 4*len(f.Axes)
	ps := false
	for _, i := range f.Instances {
		ps = ps || i.PSName >= 0
	}
	if ps {
		size += 2
	}
	x.u16(1, 0, 16, 2, len(f.Axes), 20, len(f.Instances), size)
	for i, a := range f.Axes {
		x.tag(a.Tag)
		x.u32(fixed(a.Min), fixed(a.Def), fixed(a.Max))
		x.u16(0, 256+i)
	}
	for _, in := range f.Instances {
		x.u16(in.Subfamily, 0)
		for _, c := range in.Coords {
			x.u32(fixed(c))
		}
		if ps {
			x.u16(in.PSName)
		}
	}
	return x.b
}

func (f *Font) tables() map[string][]byte {
	t := map[string][]byte{"head": f.head(), "maxp": f.maxp(), "cmap": f.cmap(), "post": f.post()}
	if !f.NoHhea {
		t["hhea"], t["hmtx"] = f.hhea(), f.hmtx()
	}
	if f.Names != nil {
		t["name"] = f.name()
	}
	if f.OS2 != nil {
		t["OS/2"] = f.OS2.build(f)
	}
	if f.Boxes != nil {
		t["loca"], t["glyf"] = f.glyf()
	}
	if f.Hint {
		t["prep"] = []byte{0}
	}
	if f.GSUB != nil {
		t["GSUB"] = layout(f.GSUB, "liga", 4, f.ligatures())
	}
	if f.GPOS != nil {
		t["GPOS"] = layout(f.GPOS, "kern", 2, f.kerns())
	}
	if f.MarkGlyphs != nil {
		t["GDEF"] = f.gdef()
	}
	if f.Axes != nil {
		t["fvar"] = f.fvar()
	}
	for k, v := range f.Extra {
		if v == nil {
			delete(t, k)
		} else {
			t[k] = v
		}
	}
	return t
}

func directory(t map[string][]byte, base int) (dir, data []byte) {
	var tags []string
	for k := range t {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	var x w
	x.u32(0x00010000)
	x.u16(len(tags), 0, 0, 0)
	start := base + 12 + 16*len(tags)
	for _, k := range tags {
		x.tag(k)
		x.u32(0, uint32(start+len(data)), uint32(len(t[k])))
		data = append(data, t[k]...)
		for len(data)%4 != 0 {
			data = append(data, 0)
		}
	}
	return x.b, data
}

// Build returns the font file
func (f *Font) Build() []byte {
	dir, data := directory(f.tables(), 0)
	return append(dir, data...)
}

// Collection returns a .ttc file
func Collection(fonts ...*Font) []byte {
	var x w
	x.tag("ttcf")
	x.u32(0x00010000, uint32(len(fonts)))
	base := 12 + 4*len(fonts)
	var body []byte
	for _, f := range fonts {
		x.u32(uint32(base + len(body)))
		dir, data := directory(f.tables(), base+len(body))
		body = append(append(body, dir...), data...)
	}
	return append(x.b, body...)
}

// UTF16 encodes a name for the Unicode and Microsoft platforms
func UTF16(s string) []byte {
	var x w
	for _, r := range s {
		if r >= 0x10000 {
			r -= 0x10000
			x.u16(0xD800+int(r>>10), 0xDC00+int(r&0x3FF))
		} else {
			x.u16(int(r))
		}
	}
	return x.b
}
