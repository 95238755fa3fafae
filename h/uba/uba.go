// Package uba is a reference implementation of UAX #9.
package uba

// An implementation of UAX #9 written from the text of the annex, on classes.

import fb "github.com/benoitkugler/textprocessing/fribidi"

type Cls int

const (
	L Cls = iota
	R
	AL
	EN
	ES
	ET
	AN
	CS
	NSM
	BN
	B
	S
	WS
	ON
	LRE
	LRO
	RLE
	RLO
	PDF
	LRI
	RLI
	FSI
	PDI
)

var ClsNames = []string{"L", "R", "AL", "EN", "ES", "ET", "AN", "CS", "NSM", "BN", "B", "S", "WS", "ON", "LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"}

var ClsToFb = []fb.CharType{fb.LTR, fb.RTL, fb.AL, fb.EN, fb.ES, fb.ET, fb.AN, fb.CS, fb.NSM, fb.BN, fb.BS, fb.SS, fb.WS, fb.ON, fb.LRE, fb.LRO, fb.RLE, fb.RLO, fb.PDF, fb.LRI, fb.RLI, fb.FSI, fb.PDI}

var FbToCls = func() map[fb.CharType]Cls {
	m := map[fb.CharType]Cls{}
	for i, t := range ClsToFb {
		m[t] = Cls(i)
	}
	return m
}()

const MaxDepth = 125

// brk: 0 no bracket, >0 opening of that id, <0 closing of that id
type Para struct {
	Types           []Cls
	Brk             []int
	Base            int
	Levels          []int
	Max             int // before L1
	BracketOverflow bool
	Overflow        bool
	Pairs           int // bracket pairs resolved
}

func IsIsoInit(c Cls) bool { return c == LRI || c == RLI || c == FSI }
func IsRemoved(c Cls) bool {
	switch c {
	case RLE, LRE, RLO, LRO, PDF, BN:
		return true
	}
	return false
}

// matchingPDI[i] for isolate initiators (len if none), matchingInit for PDI (-1 if none): BD9
func Isolates(types []Cls) (pdi, init []int) {
	pdi, init = make([]int, len(types)), make([]int, len(types))
	for i := range init {
		init[i] = -1
		pdi[i] = len(types)
	}
	for i, c := range types {
		if !IsIsoInit(c) {
			continue
		}
		depth := 1
		for j := i + 1; j < len(types); j++ {
			if IsIsoInit(types[j]) {
				depth++
			} else if types[j] == PDI {
				depth--
				if depth == 0 {
					pdi[i] = j
					init[j] = i
					break
				}
			} else if types[j] == B {
				break
			}
		}
	}
	return
}

// FirstStrong implements P2/P3 on [from, to); -1 if none
func FirstStrong(types []Cls, pdi []int, from, to int) int {
	for i := from; i < to; i++ {
		switch types[i] {
		case L:
			return 0
		case R, AL:
			return 1
		case LRI, RLI, FSI:
			if pdi[i] >= to {
				return -1
			}
			i = pdi[i]
		}
	}
	return -1
}

// run computes levels; base is the paragraph level or -1 for auto with the given fallback.
func (u *Para) Run(base, fallback int) {
	n := len(u.Types)
	pdi, initOf := Isolates(u.Types)
	if base < 0 {
		base = FirstStrong(u.Types, pdi, 0, n)
		if base < 0 {
			base = fallback
		}
	}
	u.Base = base
	lv := make([]int, n)
	ty := append([]Cls(nil), u.Types...)
	// X1-X8
	type st struct {
		level    int
		override Cls // ON neutral
		isolate  bool
	}
	stack := []st{{base, ON, false}}
	oi, oe, vi := 0, 0, 0
	nextOdd := func(l int) int { return (l + 1) | 1 }
	nextEven := func(l int) int { return (l + 2) &^ 1 }
	for i := 0; i < n; i++ {
		c := u.Types[i]
		top := stack[len(stack)-1]
		switch c {
		case RLE, LRE, RLO, LRO:
			lv[i] = top.level
			nl := nextEven(top.level)
			if c == RLE || c == RLO {
				nl = nextOdd(top.level)
			}
			ov := ON
			if c == RLO {
				ov = R
			} else if c == LRO {
				ov = L
			}
			if nl <= MaxDepth && oi == 0 && oe == 0 {
				stack = append(stack, st{nl, ov, false})
			} else {
				u.Overflow = true
				if oi == 0 {
					oe++
				}
			}
		case RLI, LRI, FSI:
			lv[i] = top.level
			if top.override != ON {
				ty[i] = top.override
			}
			rtl := c == RLI
			if c == FSI {
				rtl = FirstStrong(u.Types, pdi, i+1, pdi[i]) == 1
			}
			nl := nextEven(top.level)
			if rtl {
				nl = nextOdd(top.level)
			}
			if nl <= MaxDepth && oi == 0 && oe == 0 {
				vi++
				stack = append(stack, st{nl, ON, true})
			} else {
				u.Overflow = true
				oi++
			}
		case PDI:
			if oi > 0 {
				oi--
			} else if vi > 0 {
				oe = 0
				for !stack[len(stack)-1].isolate {
					stack = stack[:len(stack)-1]
				}
				stack = stack[:len(stack)-1]
				vi--
			}
			top = stack[len(stack)-1]
			lv[i] = top.level
			if top.override != ON {
				ty[i] = top.override
			}
		case PDF:
			if oi > 0 {
			} else if oe > 0 {
				oe--
			} else if !top.isolate && len(stack) >= 2 {
				stack = stack[:len(stack)-1]
			}
			lv[i] = top.level
		case B:
			lv[i] = base
		case BN:
			lv[i] = top.level
		default:
			lv[i] = top.level
			if top.override != ON {
				ty[i] = top.override
			}
		}
	}
	// X9/X10: isolating run sequences over kept characters
	var kept []int
	for i := 0; i < n; i++ {
		if !IsRemoved(u.Types[i]) {
			kept = append(kept, i)
		}
	}
	// level runs
	var runs [][]int
	for k := 0; k < len(kept); {
		j := k
		for j < len(kept) && lv[kept[j]] == lv[kept[k]] {
			j++
		}
		runs = append(runs, kept[k:j])
		k = j
	}
	runOf := map[int]int{}
	for ri, r := range runs {
		runOf[r[0]] = ri
	}
	var seqs [][]int
	for _, r := range runs {
		if u.Types[r[0]] == PDI && initOf[r[0]] >= 0 {
			continue
		}
		seq := append([]int(nil), r...)
		for {
			last := seq[len(seq)-1]
			if IsIsoInit(u.Types[last]) && pdi[last] < n {
				ri, ok := runOf[pdi[last]]
				if !ok {
					break // (the PDI is inside the same level run: cannot be last then)
				}
				seq = append(seq, runs[ri]...)
				continue
			}
			break
		}
		seqs = append(seqs, seq)
	}
	keptIdx := map[int]int{}
	for k, i := range kept {
		keptIdx[i] = k
	}
	res := append([]int(nil), lv...)
	for _, seq := range seqs {
		u.resolveSequence(seq, ty, lv, res, kept, keptIdx, pdi)
	}
	u.Max = base
	for _, i := range kept {
		if res[i] > u.Max {
			u.Max = res[i]
		}
	}
	// L1 1-4 on the whole paragraph
	reset := true
	for i := n - 1; i >= 0; i-- {
		switch u.Types[i] {
		case B, S:
			res[i] = base
			reset = true
		case WS, FSI, LRI, RLI, PDI:
			if reset {
				res[i] = base
			}
		case RLE, LRE, RLO, LRO, PDF, BN:
		default:
			reset = false
		}
	}
	u.Levels = res
}

func dirOf(l int) Cls {
	if l%2 == 1 {
		return R
	}
	return L
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (u *Para) resolveSequence(seq []int, ty []Cls, lv, res, kept []int, keptIdx map[int]int, pdi []int) {
	lev := lv[seq[0]]
	// sos / eos
	prevLev := u.Base
	if k := keptIdx[seq[0]]; k > 0 {
		prevLev = lv[kept[k-1]]
	}
	last := seq[len(seq)-1]
	nextLev := u.Base
	if k := keptIdx[last]; k+1 < len(kept) {
		nextLev = lv[kept[k+1]]
	}
	if IsIsoInit(u.Types[last]) && pdi[last] == len(u.Types) {
		nextLev = u.Base
	}
	sos, eos := dirOf(maxI(lev, prevLev)), dirOf(maxI(lev, nextLev))
	n := len(seq)
	t := make([]Cls, n)
	for i, p := range seq {
		t[i] = ty[p]
	}
	// W1
	prev := sos
	for i := range t {
		if t[i] == NSM {
			if i > 0 {
				// isolate initiators and PDI give ON
				switch u.Types[seq[i-1]] {
				case LRI, RLI, FSI, PDI:
					if t[i-1] == u.Types[seq[i-1]] { // not overridden
						t[i] = ON
					} else {
						t[i] = t[i-1]
					}
				default:
					t[i] = t[i-1]
				}
			} else {
				t[i] = sos
			}
		}
	}
	// W2
	strong := sos
	for i := range t {
		switch t[i] {
		case L, R, AL:
			strong = t[i]
		case EN:
			if strong == AL {
				t[i] = AN
			}
		}
	}
	// W3
	for i := range t {
		if t[i] == AL {
			t[i] = R
		}
	}
	// W4
	for i := 1; i+1 < n; i++ {
		if t[i] == ES && t[i-1] == EN && t[i+1] == EN {
			t[i] = EN
		} else if t[i] == CS && t[i-1] == t[i+1] && (t[i-1] == EN || t[i-1] == AN) {
			t[i] = t[i-1]
		}
	}
	// W5
	for i := 0; i < n; {
		if t[i] != ET {
			i++
			continue
		}
		j := i
		for j < n && t[j] == ET {
			j++
		}
		if (i > 0 && t[i-1] == EN) || (j < n && t[j] == EN) {
			for k := i; k < j; k++ {
				t[k] = EN
			}
		}
		i = j
	}
	// W6
	for i := range t {
		switch t[i] {
		case ES, ET, CS:
			t[i] = ON
		}
	}
	// W7
	strong = sos
	for i := range t {
		switch t[i] {
		case L, R:
			strong = t[i]
		case EN:
			if strong == L {
				t[i] = L
			}
		}
	}
	_ = prev
	// N0
	if u.Brk != nil {
		u.brackets(seq, t, ty, sos, lev)
	}
	// N1 N2
	isNI := func(c Cls) bool {
		switch c {
		case B, S, WS, ON, FSI, LRI, RLI, PDI:
			return true
		}
		return false
	}
	asStrong := func(c Cls) Cls {
		if c == L {
			return L
		}
		return R
	}
	for i := 0; i < n; {
		if !isNI(t[i]) {
			i++
			continue
		}
		j := i
		for j < n && isNI(t[j]) {
			j++
		}
		l, r := sos, eos
		if i > 0 {
			l = asStrong(t[i-1])
		}
		if j < n {
			r = asStrong(t[j])
		}
		v := dirOf(lev)
		if l == r {
			v = l
		}
		for k := i; k < j; k++ {
			t[k] = v
		}
		i = j
	}
	// I1 I2
	for i, p := range seq {
		l := lev
		if lev%2 == 0 {
			if t[i] == R {
				l++
			} else if t[i] == AN || t[i] == EN {
				l += 2
			}
		} else if t[i] == L || t[i] == EN || t[i] == AN {
			l++
		}
		res[p] = l
	}
}

func (u *Para) brackets(seq []int, t, ty []Cls, sos Cls, lev int) {
	type op struct{ id, pos int }
	type pair struct{ o, c int }
	var stack []op
	var pairs []pair
loop:
	for i, p := range seq {
		b := u.Brk[p]
		if b == 0 || t[i] != ON {
			continue
		}
		if b > 0 {
			if len(stack) == 63 {
				u.BracketOverflow = true
				break loop
			}
			stack = append(stack, op{b, i})
		} else {
			for k := len(stack) - 1; k >= 0; k-- {
				if stack[k].id == -b {
					pairs = append(pairs, pair{stack[k].pos, i})
					stack = stack[:k]
					break
				}
			}
		}
	}
	u.Pairs += len(pairs)
	// logical order of opening
	for i := range pairs {
		for j := i + 1; j < len(pairs); j++ {
			if pairs[j].o < pairs[i].o {
				pairs[i], pairs[j] = pairs[j], pairs[i]
			}
		}
	}
	strongOf := func(c Cls) Cls {
		switch c {
		case L:
			return L
		case R, EN, AN, AL:
			return R
		}
		return ON
	}
	e := dirOf(lev)
	for _, pr := range pairs {
		foundE, foundO := false, false
		for i := pr.o + 1; i < pr.c; i++ {
			s := strongOf(t[i])
			if s == e {
				foundE = true
			} else if s != ON {
				foundO = true
			}
		}
		var set Cls = ON
		if foundE {
			set = e
		} else if foundO {
			ctx := sos
			for i := pr.o - 1; i >= 0; i-- {
				if s := strongOf(t[i]); s != ON {
					ctx = s
					break
				}
			}
			if ctx != e {
				set = ctx
			} else {
				set = e
			}
		}
		if set == ON {
			continue
		}
		for _, at := range []int{pr.o, pr.c} {
			t[at] = set
			for k := at + 1; k < len(seq) && ty[seq[k]] == NSM; k++ {
				t[k] = set
			}
		}
	}
}
