// Package pbt is a small property-based testing engine: a case is a sequence
// of bounded random choices, so that every generated value can be shrunk and
// replayed from the choices alone.
package pbt

import (
	"fmt"
	"hash/fnv"
	"math"
	"runtime/debug"
	"strings"
)

// ---------------------------------------------------------------- choices

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func mix(a, b uint64) uint64 {
	r := rng{a*0x2545F4914F6CDD1D + b}
	r.next()
	return r.next()
}

type stop struct{}    // failure reported by the check
type discard struct{} // case outside of the property's domain
type overrun struct{} // replay longer than allowed

// T is one generated case.
type T struct {
	r       *rng
	replay  []uint64
	isRep   bool
	Choices []uint64
	maxLen  int

	Tier string // quick or thorough

	failed  bool
	message string

	desc    []func() string
	keys    []uint64
	labels  map[string]int
	known   map[string]int
	evals   int
	Verbose bool
}

// choose returns a value in [0, n); 0 is the simplest choice.
func (t *T) choose(n uint64) uint64 {
	if n == 0 {
		n = 1
	}
	var v uint64
	if t.isRep {
		if i := len(t.Choices); i < len(t.replay) {
			v = t.replay[i]
			if v >= n {
				v = n - 1
			}
		}
	} else {
		v = t.r.next() % n
	}
	t.Choices = append(t.Choices, v)
	if len(t.Choices) > t.maxLen {
		panic(overrun{})
	}
	return v
}

// Intn returns an int in [0, n).
func (t *T) Intn(n int) int { return int(t.choose(uint64(n))) }

// Range returns an int in [lo, hi]; lo is the simplest.
func (t *T) Range(lo, hi int) int {
	if hi < lo {
		hi = lo
	}
	return lo + int(t.choose(uint64(hi-lo)+1))
}

// Bool is false or true with equal probability.
func (t *T) Bool() bool { return t.choose(2) == 1 }

// Chance is true with probability num/den (false is the simplest).
func (t *T) Chance(num, den int) bool { return int(t.choose(uint64(den))) >= den-num }

// U64 returns any 64 bits value.
func (t *T) U64() uint64 { return t.choose(math.MaxUint64) }

// Size returns a length in [0, max], biased to small ones.
func (t *T) Size(max int) int {
	switch t.Intn(4) {
	case 0:
		return t.Range(0, min(max, 3))
	case 1, 2:
		return t.Range(0, min(max, max/4+1))
	default:
		return t.Range(0, max)
	}
}

// Weighted picks an index with the given weights.
func (t *T) Weighted(ws ...int) int {
	tot := 0
	for _, w := range ws {
		tot += w
	}
	v := t.Intn(tot)
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

// Pick returns one element of l.
func Pick[E any](t *T, l []E) E { return l[t.Intn(len(l))] }

// Perm is a random permutation of 0..n-1.
func (t *T) Perm(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - t.Intn(i+1) // 0: identity
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- verdicts

// Fatalf reports a violation and ends the case.
func (t *T) Fatalf(format string, args ...interface{}) {
	t.failed = true
	t.message = fmt.Sprintf(format, args...)
	panic(stop{})
}

// Discard ends the case, which is not counted.
func (t *T) Discard() { panic(discard{}) }

// Describe registers a printer of the generated input, used in replay files and samples.
func (t *T) Describe(f func() string) { t.desc = append(t.desc, f) }

// Input registers a printf-style description (evaluated lazily).
func (t *T) Input(format string, args ...interface{}) {
	t.desc = append(t.desc, func() string { return fmt.Sprintf(format, args...) })
}

// NonTrivial counts the case as non trivial; key identifies it (for distinctness).
func (t *T) NonTrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	t.keys = append(t.keys, h.Sum64())
}

// Label counts a class of cases.
func (t *T) Label(l string) {
	if t.labels == nil {
		t.labels = map[string]int{}
	}
	t.labels[l]++
}

// Evals adds n evaluated instances to the count of this case (default 1 per case).
func (t *T) Evals(n int) { t.evals += n }

// Known declares that the case hits the recorded finding `key`. It returns true
// if this finding is listed in known_findings.txt, in which case the caller
// must not report it.
func (t *T) Known(key string) bool {
	if !knownKeys[key] {
		return false
	}
	if t.known == nil {
		t.known = map[string]int{}
	}
	t.known[key]++
	return true
}

// NoPanic runs f and reports a panic of the code under test as a violation.
func (t *T) NoPanic(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case stop, discard, overrun:
				panic(r)
			}
			t.Fatalf("%s panicked: %v\n%s", what, r, trimStack(string(debug.Stack())))
		}
	}()
	f()
}

// Panics returns the panic value of f as a string, or "".
func Panics(f func()) (out string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case stop, discard, overrun:
				panic(r)
			}
			out = fmt.Sprintf("panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	var out []string
	for i := 0; i < len(lines) && len(out) < 24; i++ {
		if strings.Contains(lines[i], "textprocessing") || strings.Contains(lines[i], "/repo/") || strings.Contains(lines[i], "/textlayout") {
			out = append(out, strings.TrimSpace(lines[i]))
		}
	}
	return strings.Join(out, "\n")
}

// Check is one executable relation of a property.
type Check struct {
	Name   string
	Weight int // share of the cases (default 1)
	Run    func(t *T)
}

// Prop is a property with its checks.
type Prop struct {
	ID          string
	Rule        string // what makes a case non trivial
	Assumptions []string
	Quick       int               // number of cases in the quick tier
	Thorough    int               // number of cases in the thorough tier (default: 40 x quick)
	MaxChoices  int               // default 1 << 16
	Serial      bool              // run by one single worker
	Sweep       func(t *T)        // run once, by the first worker (exhaustive or witness parts)
	Setup       func(tier string) // run once in each worker
	Checks      []Check
}

type outcome struct {
	failed, discarded bool
	message           string
}

// run executes one case.
func run(c *Check, t *T) (o outcome) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch r.(type) {
		case stop:
			o.failed, o.message = true, t.message
		case discard, overrun:
			o.discarded = true
		default:
			o.failed = true
			o.message = fmt.Sprintf("unexpected panic: %v\n%s", r, trimStack(string(debug.Stack())))
		}
	}()
	c.Run(t)
	return
}

func (t *T) description() string {
	var out []string
	for _, f := range t.desc {
		s := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					s = fmt.Sprintf("(description panicked: %v)", r)
				}
			}()
			s = f()
		}()
		out = append(out, s)
	}
	return strings.Join(out, "\n")
}
