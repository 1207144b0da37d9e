package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
)

// C30: predicates, constructors and strings of field and group elements.

// predicate: the outcomes are true exactly when the condition holds
func (c *Checker) predicate(what, where string, outs []Outcome, want *Cond) {
	seen := map[bool]bool{}
	for _, o := range outs {
		if o.pan != nil {
			c.fail("no panic", where, "panics: %s", o.pan.desc)
			continue
		}
		for _, x := range c.boolAlts(o, 0) {
			seen[x.v] = true
			c.ob("true exactly when "+what, where, decideIs(want, x.v, x.f), "it returns %v on the path %s", x.v, clip(factsString(x.f)))
		}
	}
	v, known := decide(want, nil)
	c.ob("every answer that can be right occurs", where, (known && seen[v]) || (!known && seen[true] && seen[false]), "only %v", seen)
}

// freePoint: a group element whose affine coordinates are arbitrary (it need not be on the curve)
func (c *Checker) freePoint(st *State, cs string) (p PtrV, x, y *FPoly) {
	x, y = fAtom(getAtom("free x", nil)), fAtom(getAtom("free y", nil))
	sc := func(n string) *FPoly {
		return fAtom(getAtom("free scale "+n, func(a *Atom) { a.kind, a.nz = aScale, true }))
	}
	z := sc("z")
	k := c.cs(cs)
	v := [4]*FPoly{fmul(x, z), fmul(y, z), z, nil}
	switch cs {
	case "P3":
		v[3] = fmul(fmul(x, y), z)
	case "P1xP1":
		t := sc("t")
		v[1], v[3] = fmul(y, t), t
	}
	var l [4][]*Poly
	for i, f := range v {
		if f != nil {
			l[i] = feAtom(f, fmt.Sprintf("free %s %d", cs, i), c.inBound(k, i))
		}
	}
	return c.mkGE(st, "free point", "caller", k, l), x, y
}

func init() {
	reg("element.predicates", []string{"encode.contracts", "group.convert"}, func(c *Checker) {
		a := fAtom(getAtom("el a", nil))
		arg := func() Val { return c.feVal(feAtom(a, "ela", encInNum)) }
		c.try("sign of field elements", tFE+".IsNegative", func() {
			fn := c.mustFn(tFE + ".IsNegative")
			c.predicate("the value in [0,p) is odd", fnName(fn), c.call(c.e.newState(), fn, arg()), condEQ(psub(parityOf(encFamily(a).polys()), pInt(1))))
		})
		c.try("zero test of field elements", tFE+".IsNonZero", func() {
			fn := c.mustFn(tFE + ".IsNonZero")
			c.predicate("the value is not zero", fnName(fn), c.call(c.e.newState(), fn, arg()), cnot(condFZero(a)))
		})
		for _, n := range []int{32, 64} {
			b := symBytes(fmt.Sprintf("el b%d", n), n)
			for _, q := range []struct {
				name, what string
				want       *Cond
			}{
				{"IsNegative", "the lowest bit is set", condEQ(psub(pmod2k(b[0], 1, nil), pInt(1)))},
				{"IsNonZero", "some byte is not zero", cnot(ropeEqCond(ropeBytes(b), ropeBytes(zeroPolys(n)), nil))},
			} {
				fn := c.mustFn(tEFE + "." + q.name)
				where := fmt.Sprintf("%s of %d bytes", fnName(fn), n)
				c.try("predicate of encoded elements", where, func() {
					p, st := c.efe(c.e.newState(), b, "caller")
					c.predicate(q.what, where, c.call(st, fn, p), q.want)
				})
			}
		}
		for _, cs := range []string{"P2", "P3", "P1xP1"} {
			fn := c.mustFn(tGE + ".SatisfiesCurveEquation")
			where := fnName(fn) + " in " + cs
			c.try("curve equation", where, func() {
				st := c.e.newState()
				p, x, y := c.freePoint(st, cs)
				xx, yy := fmul(x, x), fmul(y, y)
				eq := fsub(fadd(fInt(1), fscale(fmul(xx, yy), curveD)), fsub(yy, xx))
				c.predicate("-x^2 + y^2 = 1 + d*x^2*y^2", where, c.call(st, fn, p), condFZero(eq))
			})
		}
		c.try("root of a fraction", "Ed25519FieldElementSqrt", func() {
			fn := c.mustFn("Ed25519FieldElementSqrt")
			u, v := fAtom(getAtom("root u", nil)), fAtom(getAtom("root v", nil))
			outs := c.call(c.e.newState(), fn, c.feVal(feAtom(u, "rootu", 110)), c.feVal(feAtom(v, "rootv", 110)))
			for i, o := range outs {
				w := pathName(fnName(fn), i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				x := c.value(c.limbs(o.st, o.vals[0]), o.st.facts)
				// x = k*u^m*v^n with k^8 = 1, 8m = 4 and 8n = -4 modulo p-1: (v*x^2)^4 = u^4
				good := len(x.t) == 1 && len(x.t[0].m) == 2
				if good {
					good = new(big.Int).Exp(x.t[0].c, bi(8), fieldP).Cmp(b1) == 0
					for _, f := range x.t[0].m {
						want := int64(4)
						if f.a == v.t[0].m[0].a {
							want = -4
						} else if f.a != u.t[0].m[0].a {
							good = false
						}
						d := new(big.Int).Sub(new(big.Int).Mul(f.e, bi(8)), bi(want))
						good = good && f.e.Sign() > 0 && d.Mod(d, pm1).Sign() == 0
					}
				}
				c.ob("x is a root of u/v up to a fourth root of unity", w, good, "it is %s", clip(x.String()))
				i, in := limbsWithin(c.limbs(o.st, o.vals[0]), mulOutNum, mulOutDen, o.st.facts)
				c.ob("limbs are in bounds", w, in, "limb %d", i)
			}
		})
		c.try("table test", tGE+".IsPrecomputedForDoubleScalarMultiplication", func() {
			fn := c.mustFn(tGE + ".IsPrecomputedForDoubleScalarMultiplication")
			st := c.e.newState()
			p, _ := c.genericPoint(st, c.cs("P3"), "A")
			c.predicate("the table exists", fnName(fn)+" of a new point", c.call(st, fn, p), cFalse)
			st = c.precomputed(st, p, "PrecomputeForDoubleScalarMultiplication")
			c.predicate("the table exists", fnName(fn)+" after it was built", c.call(st, fn, p), cTrue)
		})
	})

	reg("element.construct", []string{"init"}, func(c *Checker) {
		c.try("encoded field element", "NewEd25519EncodedFieldElement", func() {
			fn := c.mustFn("NewEd25519EncodedFieldElement")
			st := c.e.newState()
			a, r, n := c.anyBytes(st, "efe.bytes")
			is := func(k int64) *Cond { return condEQ(psub(n, pInt(k))) }
			got := map[int]bool{}
			outs := c.call(st, fn, a)
			for i, o := range outs {
				w := pathName(fnName(fn), i, len(outs))
				bad, ok := c.outcome(w, o)
				if !ok {
					continue
				}
				f := o.st.facts
				if bad {
					c.ob("rejected only when there are not 32 or 64 bytes", w, impossible(f, is(32)) && impossible(f, is(64)), "rejected under %s", clip(factsString(f)))
					continue
				}
				k := 0
				for _, m := range []int{32, 64} {
					if condHolds(is(int64(m)), f) {
						k = m
					}
				}
				got[k] = true
				if !c.ob("accepted only when there are 32 or 64 bytes", w, k > 0, "accepted under %s", clip(factsString(f))) {
					continue
				}
				same, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], tEFE, "Raw"), r)
				c.ob("the element holds the bytes", w, same, "%s", why)
			}
			c.ob("both lengths are accepted", fnName(fn), got[32] && got[64], "%v", got)
		})
		c.try("encoded group element", "NewEd25519EncodedGroupElement", func() {
			fn := c.mustFn("NewEd25519EncodedGroupElement")
			st := c.e.newState()
			a, r, n := c.anyBytes(st, "ege.bytes")
			c.accepts(fnName(fn), c.call(st, fn, a), condEQ(psub(n, pInt(32))), "there are 32 bytes", func(w string, o Outcome) {
				same, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], tEGE, "Raw"), r)
				c.ob("the element holds the bytes", w, same, "%s", why)
			})
		})
		limbs := func(n string) []*Poly { return symLimbs("con."+n, 330, 100) }
		c.try("field element", "NewEd25519FieldElement", func() {
			fn := c.mustFn("NewEd25519FieldElement")
			st := c.e.newState()
			l := limbs("f")
			o := c.one(c.call(st, fn, c.feVal(l).f[c.fieldIdx(tFE, "Raw")]), fnName(fn))
			c.ob("the element holds the limbs", fnName(fn), polysKey(c.limbs(o.st, o.vals[0])) == polysKey(l), "")
		})
		for _, k := range []struct {
			fn, cs string
			n      int
		}{{"NewEd25519GroupElementAffine", "AFFINE", 3}, {"NewEd25519GroupElementP2", "P2", 3}, {"NewEd25519GroupElementP3", "P3", 4},
			{"NewEd25519GroupElementP1XP1", "P1xP1", 4}, {"NewEd25519GroupElementPrecomputed", "PRECOMPUTED", 3}, {"NewEd25519GroupElementCached", "CACHED", 4},
			{"NewEd25519GroupElement", "AFFINE", 4}, {"NewEd25519GroupElement", "P3", 4}, {"NewEd25519GroupElement", "CACHED", 4}} {
			where := k.fn + " in " + k.cs
			c.try("group element", where, func() {
				fn := c.mustFn(k.fn)
				st := c.e.newState()
				var args []Val
				if k.fn == "NewEd25519GroupElement" {
					args = append(args, IntV{pInt(c.cs(k.cs))})
				}
				var l [4][]*Poly
				for i := 0; i < k.n; i++ {
					l[i] = limbs(fmt.Sprintf("%c", 'x'+i))
					args = append(args, c.ptrTo(st, "coordinate", "caller", c.feVal(l[i]), c.P.typ(tFE)))
				}
				o := c.one(c.call(st, fn, args...), where)
				s, ok := c.geStruct(o.st, o.vals[0])
				if !ok {
					c.fail("a group element is returned", where, "%T", o.vals[0])
					return
				}
				g := c.geShape()
				cs, ok := normPoly(s.f[g.cs].(IntV).p, o.st.facts).isConst()
				c.ob("the coordinate system is as asked", where, ok && cs.Int64() == c.cs(k.cs), "it is %v", cs)
				for i, ix := range []int{g.x, g.y, g.z, g.t} {
					w := fmt.Sprintf("%s, coordinate %d", where, i)
					p, is := s.f[ix].(PtrV)
					if !is {
						c.fail("the coordinate is the argument", w, "it is %T", s.f[ix])
						continue
					}
					if l[i] == nil {
						c.ob("no other coordinate is set", w, p.obj == 0, "it is set")
						continue
					}
					c.ob("the coordinate is the argument", w, p.obj != 0 && polysKey(c.limbs(o.st, p)) == polysKey(l[i]), "it is not")
				}
			})
		}
	})

	reg("element.strings", []string{"encode.contracts"}, func(c *Checker) {
		c.try("string of a field element", tFE+".String", func() {
			fn := c.mustFn(tFE + ".String")
			a := fAtom(getAtom("str a", nil))
			st := c.e.newState()
			p := c.ptrTo(st, "field element", "caller", c.feVal(feAtom(a, "stra", encInNum)), c.P.typ(tFE))
			outs := c.call(st, fn, p)
			for i, o := range outs {
				w := pathName(fnName(fn), i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				c.hexString(w, o, ropeBytes(encFamily(a).polys()))
			}
		})
		for _, n := range []int{32, 64} {
			c.try("string of an encoded field element", tEFE+".String", func() {
				fn := c.mustFn(tEFE + ".String")
				b := symBytes(fmt.Sprintf("str b%d", n), n)
				p, st := c.efe(c.e.newState(), b, "caller")
				outs := c.call(st, fn, p)
				for i, o := range outs {
					w := pathName(fmt.Sprintf("%s of %d bytes", fnName(fn), n), i, len(outs))
					if o.pan != nil {
						c.fail("no panic", w, "panics: %s", o.pan.desc)
						continue
					}
					c.hexString(w, o, ropeBytes(b))
				}
			})
		}
	})

	reg("element.accessors", []string{"encode.contracts"}, func(c *Checker) {
		for _, cs := range []string{"AFFINE", "P2", "P3", "P1xP1", "PRECOMPUTED", "CACHED"} {
			n := 3
			if cs == "P3" || cs == "P1xP1" || cs == "CACHED" {
				n = 4
			}
			point := func(st *State) (PtrV, []*FPoly, [4][]*Poly) {
				var l [4][]*Poly
				var v []*FPoly
				for i := 0; i < n; i++ {
					v = append(v, fAtom(getAtom(fmt.Sprintf("acc %d", i), nil)))
					l[i] = feAtom(v[i], fmt.Sprintf("acc%d", i), encInNum)
				}
				return c.mkGE(st, "element", "caller", c.cs(cs), l), v, l
			}
			c.try("coordinates", "accessors in "+cs, func() {
				st := c.e.newState()
				p, _, l := point(st)
				for i, m := range []string{"GetX", "GetY", "GetZ", "GetT"} {
					fn := c.mustFn(tGE + "." + m)
					w := fnName(fn) + " in " + cs
					o := c.one(c.call(st.clone(), fn, p), w)
					r, ok := o.vals[0].(PtrV)
					if !ok {
						c.fail("a coordinate is returned", w, "%T", o.vals[0])
					} else if i >= n {
						c.ob("there is no such coordinate", w, r.obj == 0, "something is returned")
					} else {
						c.ob("the coordinate is returned", w, r.obj != 0 && polysKey(c.limbs(o.st, r)) == polysKey(l[i]), "it is not")
					}
				}
				fn := c.mustFn(tGE + ".GetCoordinateSystem")
				o := c.one(c.call(st, fn, p), fnName(fn))
				k, ok := o.vals[0].(IntV)
				c.ob("the coordinate system is returned", fnName(fn)+" in "+cs, ok && normPoly(k.p, o.st.facts).isInt(c.cs(cs)), "it is not")
			})
			c.try("string of a group element", tGE+".String in "+cs, func() {
				fn := c.mustFn(tGE + ".String")
				st := c.e.newState()
				p, v, _ := point(st)
				outs := c.call(st, fn, p)
				c.ob("returns", fnName(fn)+" in "+cs, len(outs) > 0, "no path returns")
				for i, o := range outs {
					w := pathName(fnName(fn)+" in "+cs, i, len(outs))
					if o.pan != nil {
						c.fail("no panic", w, "panics: %s", o.pan.desc)
						continue
					}
					got, ok := hexFields(o, "X=#\nY=#\nZ=#\nT=#\n"[:4*n])
					for k := range v {
						ok = ok && ropeBytes(got[k]).norm(o.st.facts).Key() == ropeBytes(encFamily(v[k]).polys()).norm(o.st.facts).Key()
					}
					c.ob("the string lists the hex forms of the coordinates", w, ok, "it is %v", o.vals[0])
				}
			})
		}
	})

	reg("element.coordinates", []string{"encode.contracts", "group.convert"}, func(c *Checker) {
		b := symBytes("aff.b", 32)
		y := decValue(b, nil)
		u := fsub(fmul(y, y), fInt(1))
		v := fadd(fscale(fmul(y, y), curveD), fInt(1))
		isX := func(w string, x *FPoly, f *Facts) {
			c.ob("x solves the curve equation", w, condHolds(condFZero(fsub(fmul(fmul(x, x), nameIf(v)), nameIf(u))), f), "v*x^2 = u does not follow from the path conditions: %s", clip(factsString(f)))
			c.ob("the parity of x is the top bit (x = 0 excepted)", w, c.parityIs(x, pfloor(b[31], 7, nil), f), "it does not follow from the path conditions: %s", clip(factsString(f)))
		}
		isY := func(w string, r *FPoly, f *Facts) {
			c.ob("y is the decoded y", w, underFacts(fsub(r, y), f).isZero(), "y is %s", r)
		}
		for _, m := range []string{"GetAffineX", "GetAffineY"} {
			c.try("coordinates of an encoded point", tEGE+"."+m, func() {
				fn := c.mustFn(tEGE + "." + m)
				p, st := c.ege(c.e.newState(), b, "caller")
				outs := c.call(st, fn, p)
				good := 0
				for i, o := range outs {
					w := pathName(fnName(fn), i, len(outs))
					bad, ok := c.outcome(w, o)
					if !ok {
						continue
					}
					if bad {
						c.ob("rejected only when u/v has no square root", w, m == "GetAffineX" && c.noRoot(o.st.facts, u, v), "the path conditions do not exclude a square root: %s", clip(factsString(o.st.facts)))
						continue
					}
					good++
					r := c.value(c.limbs(o.st, o.vals[0]), o.st.facts)
					if m == "GetAffineX" {
						isX(w, r, o.st.facts)
					} else {
						isY(w, r, o.st.facts)
					}
				}
				c.ob("a coordinate is returned", fnName(fn), good > 0, "no path succeeds")
			})
		}
		c.try("string of an encoded point", tEGE+".String", func() {
			fn := c.mustFn(tEGE + ".String")
			p, st := c.ege(c.e.newState(), b, "caller")
			outs := c.call(st, fn, p)
			good := 0
			for i, o := range outs {
				w := pathName(fnName(fn), i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				got, ok := hexFields(o, "x=#\ny=#\n")
				if !ok {
					s, is := o.vals[0].(StrV)
					c.ob("something else is written only when u/v has no square root", w, c.noRoot(o.st.facts, u, v), "the path conditions do not exclude a square root: %s", clip(factsString(o.st.facts)))
					c.ob("the string tells what is wrong", w, is && len(s.r.s) > 0, "it is empty")
					continue
				}
				good++
				x, y := encOf(got[0]), encOf(got[1])
				if x == nil || y == nil {
					c.fail("the string lists canonical coordinates", w, "it is %v", o.vals[0])
					continue
				}
				isX(w, x, o.st.facts)
				isY(w, y, o.st.facts)
			}
			c.ob("coordinates are written", fnName(fn), good > 0, "no path writes them")
		})
	})

	reg("keypair.predicates", []string{"init"}, func(c *Checker) {
		c.try("presence of a private key", "KeyPair.HasPrivateKey", func() {
			fn := c.mustFn("KeyPair.HasPrivateKey")
			for _, with := range []bool{false, true} {
				st := c.e.newState()
				raw, _, _ := c.anyBytes(st, "public key")
				pub, st := c.pubKey(st, raw)
				priv := PtrV{}
				if with {
					r, _, _ := c.anyBytes(st, "private key")
					o := c.one(c.call(st, c.mustFn("NewPrivateKey"), r), "NewPrivateKey")
					priv, st = o.vals[0].(PtrV), o.st
				}
				v := c.mk("KeyPair", map[string]Val{"PrivateKey": priv, "PublicKey": pub})
				kp := c.ptrTo(st, "key pair", "caller", v, c.P.typ("KeyPair"))
				c.predicate("there is a private key", fmt.Sprintf("%s, private key %v", fnName(fn), with), c.call(st, fn, kp), cBool(with))
			}
		})
		c.try("compressed keys", "Ed25519KeyAnalyzer.IsKeyCompressed", func() {
			fn := c.mustFn("Ed25519KeyAnalyzer.IsKeyCompressed")
			o := c.one(c.call(c.e.newState(), c.mustFn("NewEd25519KeyAnalyzer")), "NewEd25519KeyAnalyzer")
			raw, _, n := c.anyBytes(o.st, "public key")
			pub, st := c.pubKey(o.st, raw)
			c.predicate("the key has 32 bytes", fnName(fn), c.call(st, fn, o.vals[0], pub), condEQ(psub(n, pInt(32))))
		})
	})
}

func zeroPolys(n int) []*Poly {
	r := make([]*Poly, n)
	for i := range r {
		r[i] = pInt(0)
	}
	return r
}

// hexFields: the returned string is the pattern, in which every # stands for the hex form of 32 bytes
func hexFields(o Outcome, pattern string) ([][]*Poly, bool) {
	s, ok := o.vals[0].(StrV)
	if !ok {
		return nil, false
	}
	var t []*Poly
	for _, g := range s.r.norm(o.st.facts).s {
		if g.bytes == nil {
			return nil, false
		}
		t = append(t, g.bytes...)
	}
	var r [][]*Poly
	for _, k := range []byte(pattern) {
		if k != '#' {
			if len(t) == 0 || !t[0].isInt(int64(k)) {
				return nil, false
			}
			t = t[1:]
			continue
		}
		if len(t) < 64 {
			return nil, false
		}
		f := ropeBytes(t[:64])
		t = t[64:]
		if x, ok := f.text(); ok {
			d, err := hex.DecodeString(x)
			if err != nil {
				return nil, false
			}
			var b []*Poly
			for _, y := range d {
				b = append(b, pInt(int64(y)))
			}
			r = append(r, b)
			continue
		}
		src, ok := hexSource(f, o.st.facts)
		if !ok {
			return nil, false
		}
		var b []*Poly
		for _, g := range src.norm(o.st.facts).s {
			b = append(b, g.bytes...)
		}
		if len(b) != 32 {
			return nil, false
		}
		r = append(r, b)
	}
	return r, len(t) == 0
}
