package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/benoitkugler/textprocessing/pango"
	"verifh/pbt"
)

// xmlAttr escapes a value for use in a double quoted attribute
func xmlAttr(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '"':
			b.WriteString("&quot;")
		case r == '\n' || r == '\t' || r == '\r':
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

var colorAttrs = []struct {
	name  string
	kind  pango.AttrKind
	alpha pango.AttrKind
}{
	{"foreground", pango.ATTR_FOREGROUND, pango.ATTR_FOREGROUND_ALPHA},
	{"fgcolor", pango.ATTR_FOREGROUND, pango.ATTR_FOREGROUND_ALPHA},
	{"color", pango.ATTR_FOREGROUND, pango.ATTR_FOREGROUND_ALPHA},
	{"background", pango.ATTR_BACKGROUND, pango.ATTR_BACKGROUND_ALPHA},
	{"bgcolor", pango.ATTR_BACKGROUND, pango.ATTR_BACKGROUND_ALPHA},
	{"underline_color", pango.ATTR_UNDERLINE_COLOR, 0},
	{"overline_color", pango.ATTR_OVERLINE_COLOR, 0},
	{"strikethrough_color", pango.ATTR_STRIKETHROUGH_COLOR, 0},
}

type rgba struct{ r, g, b, a uint16 }

// parseColor is the reference: ok is false for what is not a color specification
func parseColor(spec string, withAlpha bool) (c rgba, ok bool) {
	if strings.HasPrefix(spec, "#") {
		hex := spec[1:]
		n := 0
		for k := 1; k <= 4; k++ {
			if len(hex) == 3*k {
				n = 3
			}
		}
		if withAlpha && (len(hex) == 4 || len(hex) == 8 || len(hex) == 16) {
			n = 4
		}
		if n == 0 {
			return c, false
		}
		for i := 0; i < len(hex); i++ {
			if !strings.ContainsRune("0123456789abcdefABCDEF", rune(hex[i])) {
				return c, false
			}
		}
		w := len(hex) / n
		comp := [4]uint16{3: 0xffff}
		for i := 0; i < n; i++ {
			// the digits are repeated to fill 16 bits
			d := strings.Repeat(hex[i*w:(i+1)*w], 4)[:4]
			v, _ := new(big.Int).SetString(d, 16)
			comp[i] = uint16(v.Uint64())
		}
		return rgba{comp[0], comp[1], comp[2], comp[3]}, true
	}
	lower := strings.Map(func(r rune) rune {
		if 'A' <= r && r <= 'Z' {
			return r + 32
		}
		return r
	}, spec)
	v, ok := cssColors[lower]
	if !ok {
		v, ok = x11Colors[lower]
	}
	return rgba{uint16(v[0]) * 257, uint16(v[1]) * 257, uint16(v[2]) * 257, 0xffff}, ok
}

var colorNames = func() (out []string) {
	for n := range cssColors {
		out = append(out, n)
	}
	for n := range x11Colors {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}()

// checkColor parses spec as the value of the attribute
func checkColor(t *pbt.T, attr int, spec string) bool {
	ca := colorAttrs[attr]
	want, ok := parseColor(spec, ca.alpha != 0)
	t.Evals(1)
	var pm pango.ParsedMarkup
	var err error
	t.NoPanic("ParseMarkup", func() {
		pm, err = pango.ParseMarkup([]byte(fmt.Sprintf(`<span %s="%s">ab</span>`, ca.name, xmlAttr(spec))), 0)
	})
	if !ok {
		if err == nil {
			t.Fatalf("%s=%q is accepted: %s", ca.name, spec, fmtSpans(spans(pm.Attr)))
		}
		return false
	}
	if err != nil {
		t.Fatalf("%s=%q is rejected: %v", ca.name, spec, err)
	}
	var wantAttrs []string
	wantAttrs = append(wantAttrs, fmt.Sprintf("%v %#04x %#04x %#04x", ca.kind, want.r, want.g, want.b))
	if want.a != 0xffff {
		wantAttrs = append(wantAttrs, fmt.Sprintf("%v %#04x", ca.alpha, want.a))
	}
	var got []string
	for _, a := range pm.Attr {
		switch d := a.Data.(type) {
		case pango.AttrColor:
			got = append(got, fmt.Sprintf("%v %#04x %#04x %#04x", a.Kind, d.Red, d.Green, d.Blue))
			back, ok := parseColor(d.String(), false)
			if !ok || back.r != d.Red || back.g != d.Green || back.b != d.Blue {
				t.Fatalf("color %v printed as %q", d, d.String())
			}
		case pango.AttrInt:
			got = append(got, fmt.Sprintf("%v %#04x", a.Kind, int(d)))
		default:
			got = append(got, a.String())
		}
		if a.StartIndex != 0 || a.EndIndex != 2 {
			t.Fatalf("%s=%q: wrong range %v", ca.name, spec, a)
		}
	}
	sort.Strings(got)
	sort.Strings(wantAttrs)
	if strings.Join(got, ", ") != strings.Join(wantAttrs, ", ") {
		t.Fatalf("%s=%q: got %q, want %q", ca.name, spec, got, wantAttrs)
	}
	return true
}

func genCase(t *pbt.T, s string) string {
	switch t.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	}
	b := []byte(s)
	for i := range b {
		if t.Bool() {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

var propP04 = &pbt.Prop{
	ID: "P04", Quick: 60000, Thorough: 2000000,
	Rule: "all CSS and X11 color names, all hexadecimal forms with random digits of both cases, mutations of both (signs, spaces, other digits, other lengths, letters changed) as value of the 8 color attributes, against a table from the CSS standard and a reference hexadecimal reader; non trivial: accepted specifications, and rejected ones at one edit from an accepted one",
	Sweep: func(t *pbt.T) {
		for i, n := range colorNames {
			for j := range colorAttrs {
				if !checkColor(t, j, n) {
					t.Fatalf("unknown %s", n)
				}
			}
			checkColor(t, i%len(colorAttrs), strings.ToUpper(n))
		}
		// all the values of a component
		for v := 0; v < 1<<16; v++ {
			if v < 1<<4 {
				checkColor(t, 0, fmt.Sprintf("#%x00%x", v, v))
			}
			if v < 1<<8 {
				checkColor(t, 0, fmt.Sprintf("#00%02x00%02X", v, v))
			}
			if v < 1<<12 {
				checkColor(t, 5, fmt.Sprintf("#%03x000%03X", v, v))
			}
			if v%7 == 0 {
				checkColor(t, 3, fmt.Sprintf("#0000%04x0000%04X", v, v))
				checkColor(t, 6, fmt.Sprintf("#0000%04x%04X", v, 0xffff-v))
			}
		}
	},
	Checks: []pbt.Check{{Name: "spec", Run: func(t *pbt.T) {
		attr := t.Intn(len(colorAttrs))
		var spec string
		if t.Intn(3) == 0 {
			spec = genCase(t, pbt.Pick(t, colorNames))
		} else {
			n := pbt.Pick(t, []int{3, 6, 9, 12, 4, 8, 16, 0, 1, 2, 5, 7, 10, 15, 18})
			b := []byte{'#'}
			for i := 0; i < n; i++ {
				b = append(b, "0123456789abcdefABCDEF"[t.Intn(22)])
			}
			spec = string(b)
		}
		near := false
		if t.Intn(3) == 0 { // edit
			if _, near = parseColor(spec, colorAttrs[attr].alpha != 0); spec != "" {
				b := []rune(spec)
				at := t.Intn(len(b))
				c := pbt.Pick(t, []rune("+-_ xXgG.,#\t0a%é１"))
				switch t.Intn(4) {
				case 0:
					b[at] = c
				case 1:
					b = append(b[:at], append([]rune{c}, b[at:]...)...)
				case 2:
					b = append(b, c)
				case 3:
					b = append(b[:at], b[at+1:]...)
				}
				spec = string(b)
			}
		}
		t.Input("%s=%q", colorAttrs[attr].name, spec)
		if spec == "" {
			return
		}
		if ok := checkColor(t, attr, spec); ok || near {
			t.NonTrivial(spec)
		}
	}}},
}
