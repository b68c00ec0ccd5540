package cond

import (
	"bytes"
	"math"
	"reflect"
	"testing"
)

type zzRow struct {
	A int64
	B string
	F float64
	X []byte
}

// Random condition trees over random rows against a direct evaluation.
func TestReplayC21(t *testing.T) {
	z := zzStart(t)
	defer z.done()
	ints := []int64{math.MinInt64, -1, 0, 1, 2, math.MaxInt64}
	strs := []string{"", "a", "b", "a\x00", "ab"}
	flts := []float64{math.Inf(-1), -0.0, 0, 1, math.Inf(1), math.NaN()}
	byts := [][]byte{nil, {}, {0}, {1}, {1, 2}}
	row := func() zzRow {
		return zzRow{ints[z.r.Intn(len(ints))], strs[z.r.Intn(len(strs))], flts[z.r.Intn(len(flts))], byts[z.r.Intn(len(byts))]}
	}
	type oracle func(r zzRow) bool
	var gen func(d int) (Cond[zzRow], oracle, string)
	leaf := func() (Cond[zzRow], oracle, string) {
		op := z.r.Intn(5)
		name := []string{"Eq", "Gt", "Gte", "Lt", "Lte"}[op]
		switch z.r.Intn(3) {
		case 0:
			v := ints[z.r.Intn(len(ints))]
			g := func(r zzRow) int64 { return r.A }
			c := []Cond[zzRow]{Eq(g, v), Gt(g, v), Gte(g, v), Lt(g, v), Lte(g, v)}[op]
			return c, func(r zzRow) bool {
				return []bool{r.A == v, r.A > v, r.A >= v, r.A < v, r.A <= v}[op]
			}, name + "(A)"
		case 1:
			v := strs[z.r.Intn(len(strs))]
			g := func(r zzRow) string { return r.B }
			c := []Cond[zzRow]{Eq(g, v), Gt(g, v), Gte(g, v), Lt(g, v), Lte(g, v)}[op]
			return c, func(r zzRow) bool {
				return []bool{r.B == v, r.B > v, r.B >= v, r.B < v, r.B <= v}[op]
			}, name + "(B)"
		}
		if op == 0 {
			v := byts[z.r.Intn(len(byts))]
			c := Eq(func(r zzRow) []byte { return r.X }, v)
			return c, func(r zzRow) bool {
				if r.X == nil || v == nil {
					return r.X == nil && v == nil
				}
				return bytes.Equal(r.X, v)
			}, "Eq(X)"
		}
		v := flts[z.r.Intn(len(flts))]
		g := func(r zzRow) float64 { return r.F }
		c := []Cond[zzRow]{Func(func(zzRow) bool { return true }), Gt(g, v), Gte(g, v), Lt(g, v), Lte(g, v)}[op]
		return c, func(r zzRow) bool {
			return []bool{true, r.F > v, r.F >= v, r.F < v, r.F <= v}[op]
		}, name + "(F)"
	}
	type part struct {
		c Cond[zzRow]
		o oracle
		s string
	}
	var parts []part // conditions built before, used again inside others
	var gen0 func(d int) (Cond[zzRow], oracle, string)
	gen = func(d int) (Cond[zzRow], oracle, string) {
		if len(parts) > 0 && z.r.Intn(4) == 0 {
			p := parts[z.r.Intn(len(parts))]
			return p.c, p.o, p.s
		}
		c, o, s := gen0(d)
		parts = append(parts, part{c, o, s})
		return c, o, s
	}
	gen0 = func(d int) (Cond[zzRow], oracle, string) {
		if d == 0 || z.r.Intn(4) == 0 {
			return leaf()
		}
		if z.r.Intn(3) == 0 {
			c, o, s := gen(d - 1)
			return Not(c), func(r zzRow) bool { return !o(r) }, "Not(" + s + ")"
		}
		n := z.r.Intn(5)
		var cs []Cond[zzRow]
		var os []oracle
		all := z.r.Intn(2) == 0
		s := map[bool]string{true: "And(", false: "Or("}[all]
		for i := 0; i < n; i++ {
			c, o, x := gen(d - 1)
			cs, os = append(cs, c), append(os, o)
			s += x + ","
		}
		ev := func(r zzRow) bool {
			for _, o := range os {
				if o(r) != all {
					return !all
				}
			}
			return all
		}
		keep := append([]Cond[zzRow]{}, cs...)
		var c Cond[zzRow]
		if all {
			c = And(cs...)
		} else {
			c = Or(cs...)
		}
		for i := range keep {
			if reflect.ValueOf(keep[i]).Pointer() != reflect.ValueOf(cs[i]).Pointer() {
				z.fail("building %s changed the parts", s)
			}
		}
		// the caller reuses its slice afterwards
		for i := range cs {
			cs[i] = Func(func(zzRow) bool { return z.r.Intn(2) == 0 })
		}
		return c, ev, s + ")"
	}
	for it := 0; z.more(it, 20000); it++ {
		z.n++
		z.guard("condition", func() {
			parts = nil
			for k := 0; k < 4; k++ {
				gen(2)
			}
			gen(3)
			for k := 0; k < 60; k++ {
				r := row()
				p := parts[z.r.Intn(len(parts))]
				c, o, s := p.c, p.o, p.s
				if got, want := c.Eval(r), o(r); got != want {
					z.fail("%s on row %+v: got %v, want %v", s, r, got, want)
					return
				}
				if got, want := c.Eval(r), o(r); got != want {
					z.fail("%s on row %+v evaluated again: got %v, want %v", s, r, got, want)
					return
				}
			}
		})
	}
}
