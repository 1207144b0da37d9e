package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C32: an operation on group elements in coordinates that it is not made for refuses, by a panic, an error or nil, or
// gives the right point all the same; it never gives another point.

// systems: the coordinate systems, and one that does not exist.
var systems = []string{"AFFINE", "P2", "P3", "P1xP1", "PRECOMPUTED", "CACHED", "none"}

// systemPoint: a generic point in one of them.
func (c *Checker) systemPoint(st *State, cs, name string) (PtrV, *Tau) {
	if cs != "none" {
		return c.genericPoint(st, c.cs(cs), name)
	}
	k := int64(0)
	for _, s := range systems[:6] {
		if v := c.cs(s); v >= k {
			k = v + 1
		}
	}
	tau := tauOf(name, pInt(1))
	p3 := c.cs("P3")
	l := c.pointLimbs(p3, tau, "generic "+name, func(k, i int) Iv { return limbIv(i, c.inBound(p3, k), 100) }, nil)
	return c.mkGE(st, "point "+name, "caller", k, l), tau
}

// orRefuses: every outcome is a refusal, or right.
func (c *Checker) orRefuses(where string, outs []Outcome, right func(o Outcome, v Val) (bool, string)) {
	n := 0
	for _, o := range outs {
		if o.pan != nil || len(o.vals) == 0 {
			n++
			continue
		}
		v, er := geResult(o)
		if er != nil {
			bad, known := isErr(er)
			if !c.ob("outcome is known", where, known, "unknown error value") {
				continue
			}
			if bad {
				n++
				continue
			}
		}
		if isNilPtr(v) {
			n++
			continue
		}
		ok, why := right(o, v)
		c.ob("unsupported coordinates are refused", where, ok, "%s", why)
	}
	if n > 0 {
		c.ob("unsupported coordinates are refused", where, true, "")
	}
	c.ob("there is an outcome", where, len(outs) > 0, "no path returns")
}

// isPoint: the value is the point tau.
func (c *Checker) isPoint(tau *Tau) func(o Outcome, v Val) (bool, string) {
	return func(o Outcome, v Val) (bool, string) {
		_, got, err := c.recognise(o.st, v)
		if err != nil {
			return false, fmt.Sprintf("it returns something that is not the point it stands for: %v", err)
		}
		if !c.tauEq(got, tau, o.st.facts) {
			return false, fmt.Sprintf("it returns %s instead of %s", c.tauString(got), c.tauString(tau))
		}
		return true, ""
	}
}

// gePars: the parameters of a method of group elements are n points (and nothing else but a coordinate system).
func gePars(fn *ssa.Function, n int) bool {
	for _, p := range fn.Params {
		switch t, _ := namedOf(p.Type()); t {
		case tGE:
			n--
		case "CoordinateSystem":
		default:
			return false
		}
	}
	return n == 0
}

func init() {
	reg("group.refuse", []string{"group.ops", "group.convert", "encode.contracts"}, func(c *Checker) {
		two := func(name string, law func(a, b *Tau) *Tau) {
			fn := c.P.fn(tGE + "." + name)
			if fn == nil || !gePars(fn, 2) {
				return // not one of the names that the tests pin
			}
			for _, a := range systems {
				for _, b := range systems {
					where := fmt.Sprintf("%s on %s and %s", fnName(fn), a, b)
					c.try("unsupported coordinates are refused", where, func() {
						st := c.e.newState()
						p, t1 := c.systemPoint(st, a, "R1")
						q, t2 := c.systemPoint(st, b, "R2")
						c.orRefuses(where, c.callC(st, fn, p, q), c.isPoint(law(t1, t2)))
					})
				}
			}
		}
		add := func(a, b *Tau) *Tau { return tauSub(a, tauScale(b, pInt(-1))) }
		for _, n := range []string{"add", "precomputedAdd"} {
			two(n, add)
		}
		for _, n := range []string{"subtract", "precomputedSubtract"} {
			two(n, tauSub)
		}
		one := func(name string, k int64) {
			fn := c.P.fn(tGE + "." + name)
			if fn == nil || !gePars(fn, 1) {
				return
			}
			to := []string{""}
			if len(fn.Params) == 2 {
				to = systems
			}
			for _, a := range systems {
				for _, b := range to {
					where := fmt.Sprintf("%s on %s", fnName(fn), a)
					if b != "" {
						where += " to " + b
					}
					c.try("unsupported coordinates are refused", where, func() {
						st := c.e.newState()
						p, tau := c.systemPoint(st, a, "R1")
						args := []Val{p}
						want := c.isPoint(tauScale(tau, pInt(k)))
						if b != "" {
							n := int64(99)
							if b != "none" {
								n = c.cs(b)
							}
							args = append(args, IntV{pInt(n)})
							is := want
							want = func(o Outcome, v Val) (bool, string) {
								if k, _, err := c.recognise(o.st, v); err == nil && k != n {
									return false, fmt.Sprintf("the result is in coordinate system %d instead of %d", k, n)
								}
								return is(o, v)
							}
						}
						c.orRefuses(where, c.callC(st, fn, args...), want)
					})
				}
			}
		}
		one("dbl", 2)
		one("negate", -1)
		for _, n := range []string{"toP2", "toP3", "toCached", "toCoordinateSystem"} {
			one(n, 1)
		}
		for _, a := range systems {
			fn := c.mustFn(tGE + ".Encode")
			where := fnName(fn) + " of " + a
			c.try("unsupported coordinates are refused", where, func() {
				st := c.e.newState()
				p, tau := c.systemPoint(st, a, "R1")
				want := ropeBytes(compressed(tauXY(tau)))
				c.orRefuses(where, c.callC(st, fn, p), func(o Outcome, v Val) (bool, string) {
					return c.sameBytes(o.st, c.field(o.st, v, tEGE, "Raw"), want)
				})
			})
		}
		// the curve equation of elements of which it cannot be told
		for _, a := range systems {
			fn := c.mustFn(tGE + ".SatisfiesCurveEquation")
			where := fnName(fn) + " of " + a
			c.try("unsupported coordinates are refused", where, func() {
				st := c.e.newState()
				p, _ := c.systemPoint(st, a, "R1")
				c.orRefuses(where, c.callC(st, fn, p), func(o Outcome, v Val) (bool, string) {
					b, ok := v.(BoolV)
					return ok && decideIs(b.c, true, o.st.facts), "it says that a point of the curve is none"
				})
			})
		}
		c.moveRefuses()
		c.untabled()
	})
}

// moveRefuses: the conditional moves of points, whatever they are called: two elements and a number; the result is the
// first for 0, the second for 1, and nothing else gives a point.
func (c *Checker) moveRefuses() {
	for _, fn := range c.repoFuncs() {
		if fn.Object() == nil || fn.Object().Name() != "cmov" || len(fn.Params) != 3 {
			continue
		}
		n1, _ := namedOf(fn.Params[0].Type())
		n2, _ := namedOf(fn.Params[1].Type())
		if n1 != tGE || n2 != tGE {
			continue
		}
		if b, ok := fn.Params[2].Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Int {
			continue
		}
		for _, a := range systems[:6] {
			for _, b := range systems[:6] {
				where := fmt.Sprintf("%s of %s and %s", fnName(fn), a, b)
				c.try("a move that is none is refused", where, func() {
					st := c.e.newState()
					p, t1 := c.systemPoint(st, a, "R1")
					q, t2 := c.systemPoint(st, b, "R2")
					for n, t := range []*Tau{t1, t2} {
						t := t
						c.orRefuses(fmt.Sprintf("%s for %d", where, n), c.callC(st.clone(), fn, p, q, IntV{pInt(int64(n))}), func(o Outcome, v Val) (bool, string) {
							return c.isPoint(t)(o, v)
						})
					}
					for _, r := range [][2]*big.Int{{new(big.Int).Neg(pow2(63)), bi(-1)}, {b2, new(big.Int).Sub(pow2(63), b1)}} {
						k := pSym(newSym("the condition of the move", r[0], r[1]))
						c.orRefuses(where, c.callC(st.clone(), fn, p, q, IntV{k}), func(o Outcome, v Val) (bool, string) {
							return false, "it gives a result for a condition that is neither 0 nor 1"
						})
					}
				})
			}
		}
	}
}

// untabled: multiplication by means of a table that was never built is refused.
func (c *Checker) untabled() {
	fn := c.mustFn(tGE + ".scalarMultiply")
	where := fnName(fn) + " without a table"
	c.try("multiplication without a table is refused", where, func() {
		st := c.e.newState()
		p, _ := c.genericPoint(st, c.cs("P3"), "A")
		b, n := scalarBytes("untabled", 127)
		e, st := c.efe(st, b, "caller")
		c.orRefuses(where, c.callC(st, fn, p, e), c.isPoint(tauOf("A", n)))
	})
}
