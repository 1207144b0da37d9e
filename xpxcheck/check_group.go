package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

func init() {
	reg("group.ops", []string{"field.ops", "field.invert", "consts.field"}, func(c *Checker) {
		found := c.discoverGE()
		want := func(name, law string, combos ...[]string) {
			fn := c.P.fn(tGE + "." + name)
			if fn == nil {
				c.fail("operation exists", name, "missing")
				return
			}
			k := found[fn]
			for _, co := range combos {
				ok := false
				if k != nil {
					for _, gc := range k.cases {
						same := len(gc.in) == len(co)
						for i := range co {
							same = same && gc.in[i] == c.cs(co[i])
						}
						ok = ok || (same && gc.law == law)
					}
				}
				why := ""
				if !ok {
					why = c.whyNotLaw(fn, co, law)
				}
				c.ob("result is "+law, fmt.Sprintf("%s on %v", fnName(fn), co), ok, "%s", why)
			}
		}
		want("dbl", "2a", []string{"P2"}, []string{"P3"})
		want("add", "a+b", []string{"P3", "CACHED"})
		want("subtract", "a-b", []string{"P3", "CACHED"})
		// the mixed operations, whatever they are called
		for _, law := range []string{"a+b", "a-b"} {
			ok := false
			for _, k := range found {
				for _, gc := range k.cases {
					if gc.law == law && len(gc.in) == 2 && gc.in[1] == c.cs("PRECOMPUTED") {
						ok = true
					}
				}
			}
			why := ""
			if !ok {
				for _, n := range []string{"precomputedAdd", "precomputedSubtract"} {
					if fn := c.P.fn(tGE + "." + n); fn != nil {
						why += n + ": " + c.whyNotLaw(fn, []string{"P3", "PRECOMPUTED"}, law) + "; "
					}
				}
			}
			c.ob("mixed addition with a precomputed point: "+law, "P3 and PRECOMPUTED", ok, "%s", why)
		}
	})

	reg("group.convert", []string{"group.ops"}, func(c *Checker) {
		conv := func(name string, from, to string) {
			fn := c.P.fn(tGE + "." + name)
			if fn == nil {
				c.fail("conversion exists", name, "missing")
				return
			}
			where := fmt.Sprintf("%s from %s to %s", fnName(fn), from, to)
			c.try("conversion keeps the point", where, func() {
				st := c.e.newState()
				p, tau := c.genericPoint(st, c.cs(from), "C")
				args := []Val{p}
				if len(fn.Params) == 2 {
					args = append(args, IntV{pInt(c.cs(to))})
				}
				c.samePoint(where, c.call(st, fn, args...), to, tau)
			})
		}
		for _, x := range [][3]string{
			{"toCoordinateSystem", "P2", "P2"}, {"toCoordinateSystem", "P3", "P2"}, {"toCoordinateSystem", "P3", "P3"},
			{"toCoordinateSystem", "P3", "CACHED"}, {"toCoordinateSystem", "P1xP1", "P2"}, {"toCoordinateSystem", "P1xP1", "P3"},
			{"toCoordinateSystem", "P1xP1", "P1xP1"}, {"toCoordinateSystem", "PRECOMPUTED", "PRECOMPUTED"}, {"toCoordinateSystem", "CACHED", "CACHED"},
			{"toP2", "P3", "P2"}, {"toP2", "P2", "P2"}, {"toP2", "P1xP1", "P2"}, {"toP3", "P1xP1", "P3"}, {"toP3", "P3", "P3"}, {"toCached", "P3", "CACHED"},
		} {
			if c.P.fn(tGE+"."+x[0]) == nil && x[0] != "toP2" && x[0] != "toCached" {
				continue // not one of the names that the tests pin
			}
			conv(x[0], x[1], x[2])
		}
		c.try("negation", tGE+".negate", func() {
			fn := c.mustFn(tGE + ".negate")
			st := c.e.newState()
			p, tau := c.genericPoint(st, c.cs("P3"), "C")
			c.samePoint(fnName(fn)+" is the inverse", c.call(st, fn, p), "P3", tauScale(tau, pInt(-1)))
		})
		c.tableOwners()
	})
}

// tableOwners: what the operations return for points that have tables carries no table, or its own.
func (c *Checker) tableOwners() {
	all := []string{"P2", "P3", "P1xP1", "PRECOMPUTED", "CACHED"}
	for _, fn := range c.repoFuncs() {
		fn := fn
		res := fn.Signature.Results()
		if res.Len() == 0 {
			continue
		}
		if n, _ := namedOf(res.At(0).Type()); n != tGE {
			continue
		}
		combos := [][]Val{{}}
		names := []string{""}
		points := 0
		for _, p := range fn.Params {
			n, _ := namedOf(p.Type())
			var opts []Val
			var on []string
			switch {
			case n == tGE:
				points++
				for _, k := range all {
					opts = append(opts, StrV{ropeBytes(constPolys([]byte(k)))})
					on = append(on, k)
				}
			case n == "CoordinateSystem":
				for _, k := range all {
					opts = append(opts, IntV{pInt(c.cs(k))})
					on = append(on, "to "+k)
				}
			default:
				points = -9
			}
			var nc [][]Val
			var nn []string
			for i := range combos {
				for j := range opts {
					nc = append(nc, append(append([]Val(nil), combos[i]...), opts[j]))
					nn = append(nn, names[i]+" "+on[j])
				}
			}
			combos, names = nc, nn
		}
		if points < 1 || points > 2 {
			continue
		}
		for i, co := range combos {
			where := fnName(fn) + " on" + names[i]
			done := c.quiet(func() {
				st := c.e.newState()
				var args []Val
				for k, v := range co {
					if s, ok := v.(StrV); ok {
						t, _ := s.r.text()
						v, _ = c.tabledPoint(st, c.cs(t), fmt.Sprintf("G%d", k+1))
					}
					args = append(args, v)
				}
				for _, o := range c.call(st, fn, args...) {
					if o.pan != nil {
						continue
					}
					v, er := geResult(o)
					if er != nil && !isNilPtr(er) {
						continue
					}
					_, got, err := c.recognise(o.st, v)
					if err != nil {
						got = nil
					}
					if why := c.foreignTable(o.st, v, got); why != "" {
						c.facts["foreign "+where] = why
					}
				}
			})
			if !done {
				continue // not an operation on such points
			}
			why, bad := c.facts["foreign "+where].(string)
			c.ob("a result carries no table of another point", where, !bad, "%s", why)
		}
	}
}

// samePoint: every outcome returns the point tau in the coordinate system.
func (c *Checker) samePoint(where string, outs []Outcome, cs string, tau *Tau, alt ...func(f *Facts) *Tau) {
	if len(outs) == 0 {
		c.fail("returns", where, "no path returns")
	}
	for _, o := range outs {
		if o.pan != nil {
			c.fail("no panic", where, "panics: %s", o.pan.desc)
			continue
		}
		v, er := geResult(o)
		if er != nil && !isNilPtr(er) {
			c.fail("no error", where, "returns an error")
			continue
		}
		k, got, err := c.recognise(o.st, v)
		if err != nil {
			c.fail("result is the expected point", where, "%v", err)
			continue
		}
		g, _ := c.coords(o.st, v)
		c.ob("result is in coordinate system "+cs, where, k == c.cs(cs), "it is in %d", k)
		same := c.tauEq(got, tau, o.st.facts)
		for _, t := range alt {
			same = same || c.tauEq(got, t(o.st.facts), o.st.facts)
		}
		c.ob("result is the expected point", where, same, "it is %s instead of %s", c.tauString(got), c.tauString(tau))
		why := c.foreignTable(o.st, v, tau)
		c.ob("a result carries no table of another point", where, why == "", "%s", why)
		ko, li, ok := c.operandInBounds(g, o.st.facts)
		c.ob("result limbs stay in bounds", where, ok, "limb %d of coordinate %d", li, ko)
	}
}

// tauEq: are the two points equal under the facts?
func (c *Checker) tauEq(a, b *Tau, f *Facts) bool {
	if a == nil || b == nil {
		return false
	}
	d := tauMap(tauSub(a, b), func(p *Poly) *Poly { return expandNums(expand(normPoly(p, f), f), nil) })
	return d.isZero()
}

func (c *Checker) whyNotLaw(fn *ssa.Function, co []string, law string) (why string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecidedErr); ok {
				why = u.msg
				return
			}
			why = fmt.Sprint(r)
		}
	}()
	_, outs, taus, _ := c.runGE(fn, co)
	if len(outs) != 1 {
		return fmt.Sprintf("%d outcomes", len(outs))
	}
	if outs[0].pan != nil {
		return "panics: " + outs[0].pan.desc
	}
	v, _ := geResult(outs[0])
	g, err := c.coords(outs[0].st, v)
	if err != nil {
		return err.Error()
	}
	b := taus[0]
	if len(taus) > 1 {
		b = taus[1]
	}
	if err := c.matchLaw(g, law, taus[0], b); err != nil {
		return err.Error()
	}
	return "the law holds, but a limb may leave its bounds"
}
