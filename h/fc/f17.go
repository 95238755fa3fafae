package main

import (
	"fmt"
	"math"

	fc "github.com/benoitkugler/textprocessing/fontconfig"
	"verifh/pbt"
)

// named weights on the two scales
var namedWeights = [][2]float64{{100, 0}, {200, 40}, {300, 50}, {350, 55}, {380, 75}, {400, 80}, {500, 100}, {600, 180}, {700, 200}, {800, 205}, {900, 210}, {1000, 215}}

func interpolate(x float64, from, to int) float64 {
	for i := 1; i < len(namedWeights); i++ {
		a, b := namedWeights[i-1], namedWeights[i]
		if x <= b[from] {
			return a[to] + (x-a[from])*(b[to]-a[to])/(b[from]-a[from])
		}
	}
	panic("out of range")
}

func refFromOT(x float64) float64 {
	switch {
	case x < 0:
		return -1
	case x <= 100:
		return 0
	case x >= 1000:
		return 215
	}
	return interpolate(x, 0, 1)
}

func refToOT(x float64) float64 {
	if x < 0 || x > 215 {
		return -1
	}
	return interpolate(x, 1, 0)
}

func checkWeight(t *pbt.T, x float32) {
	t.Evals(1)
	var a, b float32
	t.NoPanic("WeightFromOT", func() { a = fc.WeightFromOT(x) })
	t.NoPanic("WeightToOT", func() { b = fc.WeightToOT(x) })
	if w := refFromOT(float64(x)); math.Abs(float64(a)-w) > 1e-3 {
		t.Fatalf("WeightFromOT(%v) = %v, want %v", x, a, w)
	}
	if w := refToOT(float64(x)); math.Abs(float64(b)-w) > 1e-2 {
		t.Fatalf("WeightToOT(%v) = %v, want %v", x, b, w)
	}
	if x >= 100 && x <= 1000 {
		if back := fc.WeightToOT(a); math.Abs(float64(back-x)) > 0.02 {
			t.Fatalf("WeightToOT(WeightFromOT(%v)) = %v", x, back)
		}
	}
	if x >= 0 && x <= 215 {
		if back := fc.WeightFromOT(b); math.Abs(float64(back-x)) > 0.01 {
			t.Fatalf("WeightFromOT(WeightToOT(%v)) = %v", x, back)
		}
	}
}

var propF17 = &pbt.Prop{
	ID: "F17", Quick: 1000000, Thorough: 20000000,
	Rule: "weights on the two scales: the sweep goes through all the multiples of 1/16 from -10 to 1100; random pairs of floats (dense around the named weights) for the order; non trivial when a weight is in range",
	Sweep: func(t *pbt.T) {
		for i := -160; i <= 1100*16; i++ {
			checkWeight(t, float32(i)/16)
		}
		for _, w := range namedWeights { // exactly
			if v := fc.WeightFromOT(float32(w[0])); v != float32(w[1]) {
				t.Fatalf("WeightFromOT(%v) = %v", w[0], v)
			}
			if v := fc.WeightToOT(float32(w[1])); v != float32(w[0]) {
				t.Fatalf("WeightToOT(%v) = %v", w[1], v)
			}
		}
		for _, x := range []float32{-1, -0.5, float32(math.Inf(-1)), -math.MaxFloat32} {
			if a, b := fc.WeightFromOT(x), fc.WeightToOT(x); a != -1 || b != -1 {
				t.Fatalf("%v: %v %v", x, a, b)
			}
		}
		for _, x := range []float32{1000.0001, 5000, float32(math.Inf(1)), math.MaxFloat32} {
			if a, b := fc.WeightFromOT(x), fc.WeightToOT(x); a != 215 || b != -1 {
				t.Fatalf("%v: %v %v", x, a, b)
			}
		}
		// the constants agree with the names
		for _, c := range []struct {
			name string
			w    float32
		}{{"thin", fc.WEIGHT_THIN}, {"extralight", fc.WEIGHT_EXTRALIGHT}, {"light", fc.WEIGHT_LIGHT}, {"book", fc.WEIGHT_BOOK}, {"regular", fc.WEIGHT_REGULAR}, {"medium", fc.WEIGHT_MEDIUM},
			{"demibold", fc.WEIGHT_DEMIBOLD}, {"bold", fc.WEIGHT_BOLD}, {"extrabold", fc.WEIGHT_EXTRABOLD}, {"black", fc.WEIGHT_BLACK}} {
			if float32(xconsts[c.name]) != c.w {
				t.Fatalf("constant %s is %v", c.name, c.w)
			}
		}
	},
	Checks: []pbt.Check{{Name: "pair", Run: func(t *pbt.T) {
		gen := func() float32 {
			switch t.Intn(5) {
			case 0:
				return float32(t.Range(-100, 110000)) / 100
			case 1:
				return math.Float32frombits(uint32(t.U64()))
			case 2:
				return float32(pbt.Pick(t, namedWeights)[t.Intn(2)])
			case 3: // neighbours
				x := float32(pbt.Pick(t, namedWeights)[t.Intn(2)])
				for k := t.Size(4); k > 0; k-- {
					x = math.Nextafter32(x, pbt.Pick(t, []float32{-1000, 2000}))
				}
				return x
			default:
				return float32(t.U64()%(1<<24)) / (1 << 24) * 1000
			}
		}
		x, y := gen(), gen()
		if x != x || y != y {
			t.Discard()
		}
		if x > y {
			x, y = y, x
		}
		t.Input("%v, %v", x, y)
		checkWeight(t, x)
		checkWeight(t, y)
		if a, b := fc.WeightFromOT(x), fc.WeightFromOT(y); a > b {
			t.Fatalf("WeightFromOT is not monotone: %v > %v", a, b)
		}
		if a, b := fc.WeightToOT(x), fc.WeightToOT(y); a > b && y <= 215 {
			t.Fatalf("WeightToOT is not monotone: %v > %v", a, b)
		}
		if y >= 0 && x <= 1000 {
			t.NonTrivial(fmt.Sprint(x, y))
		}
	}}},
}
