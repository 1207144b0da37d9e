package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C27: the reference arithmetic on big integers agrees with the field, the group and the scalars modulo L.

const tRef = "mathUtils"

// refs: the exported reference object
func (c *Checker) ref() PtrV {
	g, ok := c.P.pkg.Members["MathUtils"].(*ssa.Global)
	if !ok {
		panic(undecided("the variable MathUtils is missing"))
	}
	return PtrV{obj: c.e.globalObj(g)}
}

// refCall runs a method of the reference object.
func (c *Checker) refCall(st *State, name string, args ...Val) (string, []Outcome) {
	fn := c.mustFn(tRef + "." + name)
	return fnName(fn), c.call(st, fn, append([]Val{c.ref()}, args...)...)
}

func (c *Checker) bigArg(st *State, p *Poly) PtrV {
	return c.ptrTo(st, "number", "caller", BigV{p: p}, nil)
}

func (c *Checker) bigRes(o Outcome) *Poly {
	p, ok := o.vals[0].(PtrV)
	if !ok || p.obj == 0 {
		return nil
	}
	v, ok := c.e.load(o.st, p).(BigV)
	if !ok {
		panic(undecided("the result is %T", c.e.load(o.st, p)))
	}
	return normPoly(v.p, o.st.facts)
}

// refTry runs a method; k checks one outcome that does not panic.
func (c *Checker) refTry(rule, name, of string, mk func() (*State, []Val), k func(where string, o Outcome)) {
	c.try(rule, tRef+"."+name+of, func() {
		st, args := mk()
		where, outs := c.refCall(st, name, args...)
		where += of
		c.ob("returns", where, len(outs) > 0, "no path returns")
		for i, o := range outs {
			w := where
			if len(outs) > 1 {
				w = pathName(where, i, len(outs))
			}
			if o.pan != nil {
				c.fail("no panic", w, "panics: %s", o.pan.desc)
				continue
			}
			if n := len(o.vals); n == 2 && !isNilPtr(o.vals[1]) {
				c.fail("no error", w, "returns an error")
				continue
			}
			k(w, o)
		}
	})
}

// refuses: the method does not return a result: every path panics or returns an error
func (c *Checker) refuses(rule, name, of string, mk func() (*State, []Val)) {
	c.try(rule, tRef+"."+name+of, func() {
		st, args := mk()
		where, outs := c.refCall(st, name, args...)
		for i, o := range outs {
			if o.pan == nil && (len(o.vals) < 2 || isNilPtr(o.vals[1])) {
				c.fail(rule, pathName(where+of, i, len(outs)), "a result is returned")
			}
		}
		c.ob(rule, where+of, len(outs) > 0, "no path ends")
	})
}

// number32: an integer below 2^256 (top 255) or 2^255 (top 127), as its bytes
func number32(name string, top int64) ([]*Poly, *Poly) { return scalarBytes(name, top) }

func (c *Checker) sameNum(rule, where string, got, want *Poly, f *Facts) {
	if got == nil {
		c.fail(rule, where, "the result is nil")
		return
	}
	d := collapse(expand(psub(unname(got), want), f))
	c.ob(rule, where, d.isZero(), "it is %s instead of %s", clip(got.String()), clip(want.String()))
}

func (c *Checker) sameByteList(rule, where string, got, want []*Poly, f *Facts) {
	if !c.ob(rule+": length", where, len(got) == len(want), "%d bytes", len(got)) {
		return
	}
	for i := range got {
		if !condHolds(condEQ(psub(normPoly(got[i], f), normPoly(want[i], f))), f) {
			c.fail(rule, fmt.Sprintf("%s, byte %d", where, i), "it is %s instead of %s", clip(got[i].String()), clip(want[i].String()))
			return
		}
	}
	c.ob(rule, where, true, "")
}

func init() {
	reg("ref.convert", []string{"encode.contracts", "consts.field"}, func(c *Checker) {
		for _, n := range []int{0, 1, 31, 32, 33, 64} {
			b := symBytes("ref.b", n)
			c.refTry("value of the bytes", "BytesToBigInteger", fmt.Sprintf(" of %d bytes", n), func() (*State, []Val) {
				st := c.e.newState()
				return st, []Val{c.newSlice(st, "bytes", "caller", b)}
			}, func(w string, o Outcome) { c.sameNum("value of the bytes", w, c.bigRes(o), valueLE(b), o.st.facts) })
		}
		for _, n := range []int{32, 64} {
			b := symBytes("ref.e", n)
			c.refTry("value of the bytes", "EncodedFieldToBigInteger", fmt.Sprintf(" of %d bytes", n), func() (*State, []Val) {
				p, st := c.efe(c.e.newState(), b, "caller")
				return st, []Val{p}
			}, func(w string, o Outcome) { c.sameNum("value of the bytes", w, c.bigRes(o), valueLE(b), o.st.facts) })
		}
		a := getAtom("ref a", nil)
		c.refTry("canonical value of the field element", "FieldToBigInteger", "", func() (*State, []Val) {
			return c.e.newState(), []Val{c.feVal(feAtom(fAtom(a), "ref a", encInNum))}
		}, func(w string, o Outcome) {
			c.sameNum("canonical value of the field element", w, c.bigRes(o), pSym(encFamily(fAtom(a)).num), o.st.facts)
		})
		l := symLimbs("ref.l", 330, 100)
		c.refTry("sum of the limbs", "IntsToBigInteger", "", func() (*State, []Val) {
			e := make([]Val, len(l))
			for i, p := range l {
				e[i] = IntV{p}
			}
			return c.e.newState(), []Val{ArrayV{e}}
		}, func(w string, o Outcome) { c.sameNum("sum of the limbs", w, c.bigRes(o), limbSum(l), o.st.facts) })
		num := func(top int64) ([]*Poly, func() (*State, []Val)) {
			b, n := number32("ref.n", top)
			return b, func() (*State, []Val) {
				st := c.e.newState()
				return st, []Val{c.bigArg(st, n)}
			}
		}
		b, mk := num(255)
		c.refTry("the bytes of the number", "ToByteArray", "", mk, func(w string, o Outcome) {
			c.sameByteList("the bytes of the number", w, c.bytes(o.st, o.vals[0]), b, o.st.facts)
		})
		for _, n := range []string{"ToEncodedFieldElement", "toEncodedFieldElement"} {
			c.refTry("the bytes of the number", n, "", mk, func(w string, o Outcome) {
				c.sameByteList("the bytes of the number", w, c.rawBytes(o.st, o.vals[0], tEFE), b, o.st.facts)
			})
		}
		// numbers that do not fit are refused
		big256 := newSym("ref.big", pow2(256), nil)
		for _, n := range []string{"ToByteArray", "ToEncodedFieldElement", "toEncodedFieldElement", "ToFieldElement"} {
			c.refuses("a number of more than 256 bits is refused", n, "", func() (*State, []Val) {
				st := c.e.newState()
				return st, []Val{c.bigArg(st, pSym(big256))}
			})
		}
		bf, mkf := num(127)
		c.refTry("the field element of the number", "ToFieldElement", "", mkf, func(w string, o Outcome) {
			v := c.value(c.limbs(o.st, o.vals[0]), o.st.facts)
			want := decValue(bf, o.st.facts)
			c.ob("the field element of the number", w, fzero(fsub(v, want)), "it is %s instead of %s", v, want)
			_, in := limbsWithin(c.limbs(o.st, o.vals[0]), mulOutNum, mulOutDen, o.st.facts)
			c.ob("limbs are in bounds", w, in, "")
		})
	})
	reg("ref.scalar", []string{"init"}, func(c *Checker) {
		for _, n := range []int{32, 64} {
			b := symBytes("ref.r", n)
			c.refTry("residue modulo L", "ReduceModGroupOrder", fmt.Sprintf(" of %d bytes", n), func() (*State, []Val) {
				p, st := c.efe(c.e.newState(), b, "caller")
				return st, []Val{p}
			}, func(w string, o Outcome) {
				c.sameByteList("residue modulo L", w, c.rawBytes(o.st, o.vals[0], tEFE), modLFamily(valueLE(b)).polys(), o.st.facts)
			})
		}
		x, y, z := symBytes("ref.x", 32), symBytes("ref.y", 32), symBytes("ref.z", 32)
		c.refTry("a*b+c modulo L", "multiplyAndAddModGroupOrder", "", func() (*State, []Val) {
			px, st := c.efe(c.e.newState(), x, "caller")
			py, st := c.efe(st, y, "caller")
			pz, st := c.efe(st, z, "caller")
			return st, []Val{px, py, pz}
		}, func(w string, o Outcome) {
			want := padd(pmul(valueLE(x), valueLE(y)), valueLE(z))
			c.sameByteList("a*b+c modulo L", w, c.rawBytes(o.st, o.vals[0], tEFE), modLFamily(want).polys(), o.st.facts)
		})
	})
	reg("ref.points", []string{"ref.convert", "group.convert"}, func(c *Checker) {
		c.ob("d is not a square and -1 is one", "curve constant", denomLemma, "")
		in := []string{"P2", "P3"}
		fn := c.mustFn(tRef + ".AddGroupElements")
		k := &geContract{fn: fn, geIx: []int{1, 2}}
		for _, a := range in {
			for _, b := range in {
				of := fmt.Sprintf(" on %s and %s", a, b)
				var t1, t2 *Tau
				c.refTry("result is a+b", "AddGroupElements", of, func() (*State, []Val) {
					st := c.e.newState()
					p, x := c.genericPoint(st, c.cs(a), "G1")
					q, y := c.genericPoint(st, c.cs(b), "G2")
					t1, t2 = x, y
					return st, []Val{p, q}
				}, func(w string, o Outcome) {
					if gc := c.refLaw("result is a+b", w, o, "a+b", t1, t2); gc != nil {
						gc.in = []int64{c.cs(a), c.cs(b)}
						k.cases = append(k.cases, gc)
					}
				})
			}
			var t *Tau
			c.refTry("result is 2a", "DoubleGroupElement", " on "+a, func() (*State, []Val) {
				st := c.e.newState()
				p, x := c.genericPoint(st, c.cs(a), "G1")
				t = x
				return st, []Val{p}
			}, func(w string, o Outcome) { c.refLaw("result is 2a", w, o, "2a", t, t) })
		}
		c.refTry("result is -a", "NegateGroupElement", "", func() (*State, []Val) {
			st := c.e.newState()
			p, _ := c.genericPoint(st, c.cs("P3"), "G1")
			return st, []Val{p}
		}, func(w string, o Outcome) { c.samePoint(w, []Outcome{o}, "P3", tauOf("G1", pInt(-1))) })
		for _, a := range csNames {
			if a != "P2" && a != "P3" {
				for _, b := range csNames {
					for _, x := range [][2]string{{a, b}, {b, a}} {
						c.refuses("only P2 and P3 are added", "AddGroupElements", fmt.Sprintf(" on %s and %s", x[0], x[1]), func() (*State, []Val) {
							st := c.e.newState()
							p, _ := c.genericPoint(st, c.cs(x[0]), "G1")
							q, _ := c.genericPoint(st, c.cs(x[1]), "G2")
							return st, []Val{p, q}
						})
					}
				}
			}
			if a != "P3" {
				c.refuses("only P3 is negated", "NegateGroupElement", " of "+a, func() (*State, []Val) {
					st := c.e.newState()
					p, _ := c.genericPoint(st, c.cs(a), "G1")
					return st, []Val{p}
				})
			}
		}
		// (x*y + z*t)/d for field values, d not zero
		var va []*FPoly
		for _, n := range []string{"x", "y", "z", "t", "d"} {
			va = append(va, fAtom(getAtom("ref q"+n, func(a *Atom) { a.nz = n == "d" })))
		}
		want := fmul(fadd(fmul(va[0], va[1]), fmul(va[2], va[3])), finverse(va[4]))
		c.refTry("quotient is (x*y+z*t)/d", "XMulY_Plus_ZMulT_DelD", "", func() (*State, []Val) {
			st := c.e.newState()
			args := []Val{BigV{p: pSym(encFamily(va[0]).num), shared: true}}
			for _, v := range va[1:] {
				args = append(args, c.bigArg(st, pSym(encFamily(v).num)))
			}
			return st, args
		}, func(w string, o Outcome) {
			n := c.bigRes(o)
			c.ob("quotient is (x*y+z*t)/d", w, n != nil && fzero(fsub(fieldOf(n, o.st.facts), want)) && inRange(n, fieldP, o.st.facts), "it is %v", n)
		})
		if len(k.cases) == 4 {
			c.facts["refAdd"] = k
		}
	})
	reg("ref.multiply", []string{"ref.points"}, func(c *Checker) {
		k := c.facts["refAdd"].(*geContract)
		c.e.contracts[k.fn] = c.geHandler(k)
		defer delete(c.e.contracts, k.fn)
		mul := c.mustFn(tRef + ".ScalarMultiplyGroupElement")
		enc := c.mustFn(tFE + ".Encode")
		a := getAtom("ref f", nil)
		// the encoding of the multiplier, as bits
		bits := make([]*Poly, 32)
		n := pInt(0)
		for i := range bits {
			bits[i] = pInt(0)
			for j := 0; j < 8 && 8*i+j < 255; j++ {
				y := pSym(newSym(fmt.Sprintf("ref bit%d", 8*i+j), b0, b1))
				bits[i] = padd(bits[i], pscale(y, pow2(uint(j))))
				n = padd(n, pscale(y, pow2(uint(8*i+j))))
			}
		}
		old := c.e.contracts[enc]
		fl := feAtom(fAtom(a), "ref f", encInNum)
		for _, cs := range []string{"P2", "P3"} {
			c.try("result is f*g", tRef+".ScalarMultiplyGroupElement of "+cs, func() {
				c.e.contracts[enc] = func(call *Call) []Branch {
					if !isNilPtr(call.args[0]) {
						if l := c.limbs(call.st, call.args[0]); polysKey(l) == polysKey(fl) {
							p, st := c.efe(call.st, bits, "fresh")
							return one(st, p)
						}
					}
					return old(call)
				}
				c.e.mergeOn = &mergeSpec{geOK: true, c: c, lost: map[string]int{}, limit: 2000}
				defer func() { c.e.contracts[enc] = old; c.e.mergeOn = nil }()
				st := c.e.newState()
				p, tau := c.genericPoint(st, c.cs(cs), "A")
				where, outs := c.refCall(st, "ScalarMultiplyGroupElement", p, c.feVal(fl))
				c.samePoint(where+" of "+cs, outs, "P3", tauScale(tau, n))
			})
		}
		// f1*g1 - f2*g2
		c.e.contracts[mul] = func(call *Call) []Branch {
			g, err := c.coords(call.st, call.args[1])
			if err != nil {
				return nil
			}
			_, tau, err := c.recogniseCoords(g)
			if err != nil || g.cs != c.cs("P2") && g.cs != c.cs("P3") {
				return nil
			}
			if _, _, ok := c.operandInBounds(g, call.st.facts); !ok {
				return nil
			}
			l := c.limbs(call.st, call.args[2])
			if _, ok := limbsWithin(l, encInNum, encInDen, call.st.facts); !ok {
				return nil
			}
			f := encFamily(fexpand(c.value(l, call.st.facts))).num
			var deps []int32
			key := polysKey(l)
			for _, x := range g.l {
				if x != nil {
					key += "/" + polysKey(x)
				}
			}
			r := c.pointLimbs(c.cs("P3"), tauScale(tau, pSym(f)), "ref mul "+key, c.boundIv(c.cs("P3")), deps)
			return one(call.st, c.mkGE(call.st, "result of "+mul.Name(), "fresh", c.cs("P3"), r))
		}
		defer delete(c.e.contracts, mul)
		a1, a2 := getAtom("ref f1", nil), getAtom("ref f2", nil)
		for _, x := range []string{"P2", "P3"} {
			for _, y := range []string{"P2", "P3"} {
				c.refTry("result is f1*g1-f2*g2", "doubleScalarMultiplyGroupElements", fmt.Sprintf(" of %s and %s", x, y), func() (*State, []Val) {
					st := c.e.newState()
					p, _ := c.genericPoint(st, c.cs(x), "A")
					q, _ := c.genericPoint(st, c.cs(y), "C")
					return st, []Val{p, c.feVal(feAtom(fAtom(a1), "ref f1", encInNum)), q, c.feVal(feAtom(fAtom(a2), "ref f2", encInNum))}
				}, func(w string, o Outcome) {
					n1, n2 := pSym(encFamily(fAtom(a1)).num), pSym(encFamily(fAtom(a2)).num)
					c.samePoint(w, []Outcome{o}, "P3", tauSub(tauOf("A", n1), tauOf("C", n2)))
				})
			}
		}
	})
	reg("ref.coords", []string{"ref.convert", "group.convert"}, func(c *Checker) {
		for _, from := range csNames {
			for _, to := range csNames {
				var tau *Tau
				c.refTry("conversion keeps the point", "ToRepresentation", fmt.Sprintf(" from %s to %s", from, to), func() (*State, []Val) {
					st := c.e.newState()
					p, t := c.genericPoint(st, c.cs(from), "C")
					tau = t
					return st, []Val{p, IntV{pInt(c.cs(to))}}
				}, func(w string, o Outcome) { c.samePoint(w, []Outcome{o}, to, tau) })
			}
		}
	})
	reg("ref.decode", []string{"ref.convert", "group.convert"}, func(c *Checker) {
		euler := new(big.Int).Exp(new(big.Int).Mul(new(big.Int).Neg(b1), curveDInv), new(big.Int).Rsh(pm1, 1), fieldP)
		c.ob("-1/d is not a square", "curve constant", euler.Cmp(pm1) == 0, "")
		st := c.e.newState()
		b := symBytes("ref.cmp", 32)
		where, outs := c.refCall(st, "ToGroupElement", c.newSlice(st, "compressed point", "caller", b))
		c.decompressed(where, b, outs)

		// the x coordinate alone
		yb, y := number32("ref.y", 127)
		yv := decValue(yb, nil)
		u := fsub(fmul(yv, yv), fInt(1))
		v := fadd(fscale(fmul(yv, yv), curveD), fInt(1))
		for _, neg := range []bool{false, true} {
			st := c.e.newState()
			where, outs := c.refCall(st, "GetAffineXFromAffineY", c.bigArg(st, y), BoolV{cBool(neg)})
			where += fmt.Sprintf(" with sign %v", neg)
			ok, bad := 0, 0
			for i, o := range outs {
				w := pathName(where, i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				if !isNilPtr(o.vals[1]) {
					bad++
					c.ob("an error comes without a coordinate", w, isNilPtr(o.vals[0]), "")
					c.ob("rejected only when u/v has no square root", w, c.noRoot(o.st.facts, u, v), "the path conditions do not exclude a square root: %s", clip(factsString(o.st.facts)))
					continue
				}
				ok++
				n := c.bigRes(o)
				if n == nil {
					c.fail("returns a number", w, "it is nil")
					continue
				}
				c.ob("the coordinate is reduced", w, inRange(n, fieldP, o.st.facts), "it may be outside [0,p)")
				x := fexpand(fieldOf(n, o.st.facts))
				c.ob("x solves the curve equation", w, condHolds(condFZero(fsub(fmul(fmul(x, x), nameIf(v)), nameIf(u))), o.st.facts), "v*x^2 = u does not follow from the path conditions: %s", clip(factsString(o.st.facts)))
				want := pInt(0)
				if neg {
					want = pInt(1)
				}
				c.ob("the parity of x is as asked (x = 0 excepted)", w, c.parityIs(x, want, o.st.facts), "it does not follow from the path conditions: %s", clip(factsString(o.st.facts)))
			}
			c.ob("coordinates are found", where, ok > 0, "no path returns a coordinate")
			c.ob("non-points are rejected", where, bad > 0, "no path returns an error")
		}
	})
}

// refLaw: the result is the sum of the points by the law of the curve; the case of a contract if so
func (c *Checker) refLaw(rule, where string, o Outcome, law string, a, b *Tau) *geCase {
	g, err := c.coords(o.st, o.vals[0])
	if err != nil {
		c.fail(rule, where, "%v", err)
		return nil
	}
	if err := c.matchLaw(g, law, a, b); err != nil {
		c.fail(rule, where, "%v", err)
		return nil
	}
	c.ob(rule, where, true, "")
	c.ob("result is in coordinate system P3", where, g.cs == c.cs("P3"), "it is in %d", g.cs)
	why := c.foreignTable(o.st, o.vals[0], nil)
	c.ob("a result carries no table of another point", where, why == "", "%s", why)
	ko, li, ok := c.operandInBounds(g, o.st.facts)
	if !c.ob("result limbs stay in bounds", where, ok, "limb %d of coordinate %d", li, ko) {
		return nil
	}
	gc := &geCase{out: g.cs, law: law}
	for k := range g.l {
		for i := range g.l[k] {
			gc.iv[k][i] = bounds(g.l[k][i], o.st.facts, stepsDeep, nil)
			if gc.iv[k][i].lo == nil || gc.iv[k][i].hi == nil {
				return nil
			}
		}
	}
	return gc
}

// parityIs: the parity of the canonical representative of x is bit, or x is zero
func (c *Checker) parityIs(x *FPoly, bit *Poly, f *Facts) bool {
	return decideIs(condEQ(psub(parityOf(encFamily(fexpand(x)).polys()), bit)), true, f) ||
		decideIs(condEQ(psub(parityOf(encFamily(fneg(fexpand(x))).polys()), bit)), false, f)
}
