// Package ucd gives access to a snapshot of the Unicode Character Database
// (15.0, dumped from Perl's copy by tools/gen_ucd.pl), used as oracle data.
package ucd

import (
	"bufio"
	"bytes"
	"compress/gzip"
	_ "embed"
	"sort"
	"strconv"
	"strings"
	"sync"
)

//go:embed ucd.txt.gz
var data []byte

type rng struct {
	lo, hi rune
	v      string
}

var (
	once  sync.Once
	props map[string][]rng
)

func load() {
	props = map[string][]rng{}
	zr, err := gzip.NewReader(bytes.NewReader(data))
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(zr)
	for sc.Scan() {
		f := strings.Split(sc.Text(), "\t")
		lo, _ := strconv.ParseUint(f[1], 16, 32)
		hi, _ := strconv.ParseUint(f[2], 16, 32)
		props[f[0]] = append(props[f[0]], rng{rune(lo), rune(hi), f[3]})
	}
}

// Get returns the value of the property, or "" for its default.
func Get(prop string, r rune) string {
	once.Do(load)
	l := props[prop]
	i := sort.Search(len(l), func(i int) bool { return l[i].hi >= r })
	if i < len(l) && l[i].lo <= r {
		return l[i].v
	}
	return ""
}

// Table returns a lookup function with the given default.
func Table(prop, def string) func(rune) string {
	return func(r rune) string {
		if v := Get(prop, r); v != "" {
			return v
		}
		return def
	}
}

// Runes lists the code points having a given value of a property.
func Runes(prop string, values ...string) []rune {
	once.Do(load)
	var out []rune
	for _, x := range props[prop] {
		for _, v := range values {
			if x.v == v {
				for r := x.lo; r <= x.hi; r++ {
					out = append(out, r)
				}
			}
		}
	}
	return out
}

// Explicit lists the code points with a non default value.
func Explicit(prop string) []rune {
	once.Do(load)
	var out []rune
	for _, x := range props[prop] {
		for r := x.lo; r <= x.hi; r++ {
			out = append(out, r)
		}
	}
	return out
}

// AgeAtMost reports whether the code point was assigned in the given version or before.
func AgeAtMost(r rune, major, minor int) bool {
	a := Get("Age", r)
	if a == "" || a == "Unassigned" {
		return false
	}
	i := strings.IndexByte(a, '.')
	ma, _ := strconv.Atoi(a[:i])
	mi, _ := strconv.Atoi(a[i+1:])
	return ma < major || ma == major && mi <= minor
}
