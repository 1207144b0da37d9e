package main

import (
	"fmt"
	"math/big"
	"strings"
)

// C29: equality compares the value.

// fzFacts: the field values known to be zero, and those known to be non-zero.
func fzFacts(f *Facts) (zero, non []*FPoly) {
	for x := f; x != nil; x = x.parent {
		if d, ok := x.adat.(*fzData); ok && strings.HasPrefix(x.atom, "fz:") {
			if x.aval {
				zero = append(zero, d.v)
			} else {
				non = append(non, d.v)
			}
		}
	}
	return
}

// equated solves p = 0 with two terms for one atom: y is the value q.
func equated(p *FPoly) (y *Atom, q *FPoly, ok bool) {
	if len(p.t) != 2 {
		return
	}
	for i := range p.t {
		m, o := p.t[i], p.t[1-i]
		for j, x := range m.m {
			a := atoms[x.a]
			if x.e.Cmp(b1) != 0 || (y != nil && y.id > a.id) {
				continue
			}
			fine := true
			for _, z := range o.m {
				fine = fine && z.a != x.a && (!a.nz || atoms[z.a].nz)
			}
			var rest []fpow
			for k, z := range m.m {
				if k != j {
					fine = fine && atoms[z.a].nz
					rest = append(rest, z)
				}
			}
			if !fine {
				continue
			}
			inv, good := finv(&FPoly{t: []fterm{{rest, m.c}}})
			if !good {
				continue
			}
			y, q, ok = a, fneg(fmul(&FPoly{t: []fterm{o}}, inv)), true
		}
	}
	return
}

// inSpan: is p a linear combination of the others?
func inSpan(p *FPoly, l []*FPoly) bool {
	rows := []*FPoly{}
	reduce := func(q *FPoly) *FPoly {
		for _, r := range rows {
			k := fmonoKey(r.t[0].m)
			for _, t := range q.t {
				if fmonoKey(t.m) == k {
					q = fsub(q, fscale(r, new(big.Int).Mul(t.c, new(big.Int).ModInverse(r.t[0].c, fieldP))))
					break
				}
			}
		}
		return q
	}
	for _, x := range l {
		// the rows are kept so that the leading monomial of one does not occur in later ones
		if y := reduce(x); !y.isZero() {
			for i := range rows {
				k := fmonoKey(y.t[0].m)
				for _, t := range rows[i].t {
					if fmonoKey(t.m) == k {
						rows[i] = fsub(rows[i], fscale(y, new(big.Int).Mul(t.c, new(big.Int).ModInverse(y.t[0].c, fieldP))))
						break
					}
				}
			}
			rows = append(rows, y)
		}
	}
	return reduce(p).isZero()
}

// boolAlts: the alternatives of a boolean result.
func (c *Checker) boolAlts(o Outcome, i int) []condAlt {
	b, ok := o.vals[i].(BoolV)
	if !ok {
		panic(undecided("result is %T instead of a boolean", o.vals[i]))
	}
	return c.e.splitOrKnown(b.c, o.st.facts)
}

// equalPair: the outcomes of a comparison are true exactly when all of want are zero.
func (c *Checker) equalPair(where string, outs []Outcome, want []*FPoly) {
	rule := "equal exactly when the values are equal"
	seen := map[bool]bool{}
	for _, o := range outs {
		if o.pan != nil {
			c.fail("no panic", where, "panics: %s", o.pan.desc)
			continue
		}
		for _, a := range c.boolAlts(o, 0) {
			seen[a.v] = true
			zero, non := fzFacts(a.f)
			w := append([]*FPoly{}, want...)
			sub := func(y *Atom, x *FPoly) {
				for _, l := range [][]*FPoly{zero, non, w} {
					for i := range l {
						l[i] = fsubst(l[i], y.id, x)
					}
				}
			}
			for changed := true; changed; {
				changed = false
				for _, z := range zero {
					z = stripNZ(z)
					if x, y, ok := equated(z); ok {
						sub(x, y)
						changed = true
						break
					}
				}
			}
			for i := range zero {
				zero[i] = stripNZ(fexpand(zero[i]))
			}
			if a.v {
				for _, x := range w {
					c.ob(rule, where, inSpan(fexpand(x), zero), "it returns true although %s may be non-zero, on the path %s", x, clip(factsString(a.f)))
				}
				continue
			}
			// false: impossible when all of want are zero
			for _, x := range w {
				if x.isZero() {
					continue
				}
				if p, q, ok := equated(stripNZ(x)); ok {
					sub(p, q)
				}
			}
			possible := true
			for _, n := range non {
				if fexpand(n).isZero() {
					possible = false
				}
			}
			c.ob(rule, where, !possible, "it returns false although the values may be equal, on the path %s", clip(factsString(a.f)))
		}
	}
	c.ob("both results occur", where, seen[true] && seen[false], "only %v", seen)
}

func init() {
	reg("equal", []string{"encode.contracts", "group.convert"}, func(c *Checker) {
		c.try("equality of field elements", tFE+".Equals", func() {
			fn := c.mustFn(tFE + ".Equals")
			a, b := fAtom(getAtom("eq a", nil)), fAtom(getAtom("eq b", nil))
			outs := c.call(c.e.newState(), fn, c.feVal(feAtom(a, "eqa", encInNum)), c.feVal(feAtom(b, "eqb", encInNum)))
			c.equalPair(fnName(fn), outs, []*FPoly{fsub(a, b)})
		})
		c.try("zero test of field elements", tFE+".IsNonZero", func() {
			fn := c.mustFn(tFE + ".IsNonZero")
			a := fAtom(getAtom("eq a", nil))
			for _, o := range c.call(c.e.newState(), fn, c.feVal(feAtom(a, "eqa", encInNum))) {
				if o.pan != nil {
					c.fail("no panic", fnName(fn), "panics: %s", o.pan.desc)
					continue
				}
				for _, x := range c.boolAlts(o, 0) {
					c.ob("non-zero exactly when the value is not zero", fnName(fn), decideIs(condFZero(a), !x.v, x.f), "")
				}
			}
		})
		for _, n := range []int{32, 64} {
			c.equalBytes(tEFE, n)
		}
		c.equalBytes(tEGE, 32)
		fn := c.mustFn(tGE + ".Equals")
		for _, cs := range []string{"P2", "P3", "P1xP1", "PRECOMPUTED", "CACHED"} {
			where := fmt.Sprintf("%s of two points in %s", fnName(fn), cs)
			c.try("equality of group elements", where, func() {
				st := c.e.newState()
				p, t1 := c.genericPoint(st, c.cs(cs), "Q1")
				q, t2 := c.genericPoint(st, c.cs(cs), "Q2")
				x1, y1 := tauXY(t1)
				x2, y2 := tauXY(t2)
				c.equalPair(where, c.call(st, fn, p, q), []*FPoly{fsub(x1, x2), fsub(y1, y2)})
			})
		}
	})
}

// equalBytes: the comparison of encoded elements is true exactly when all bytes are equal.
func (c *Checker) equalBytes(typ string, n int) {
	fn := c.P.fn(typ + ".Equals")
	if fn == nil {
		return
	}
	where := fmt.Sprintf("%s of %d bytes", fnName(fn), n)
	c.try("equality of encoded elements", where, func() {
		a, b := symBytes("eqx", n), symBytes("eqy", n)
		st := c.e.newState()
		mk := func(x []*Poly) PtrV {
			var p PtrV
			if typ == tEFE {
				p, st = c.efe(st, x, "caller")
			} else {
				p, st = c.ege(st, x, "caller")
			}
			return p
		}
		p := mk(a)
		q := mk(b)
		want := ropeEqCond(ropeBytes(a), ropeBytes(b), nil)
		for _, o := range c.call(st, fn, p, q) {
			if o.pan != nil {
				c.fail("no panic", where, "panics: %s", o.pan.desc)
				continue
			}
			for _, x := range c.boolAlts(o, 0) {
				c.ob("equal exactly when all bytes are equal", where, decideIs(want, x.v, x.f), "it returns %v on the path %s", x.v, clip(factsString(x.f)))
			}
		}
	})
}
