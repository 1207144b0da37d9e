package main

import (
	"encoding/hex"
	"fmt"
	"math/big"
)

// C23, C24, C25, C26, C28: constructors, serialisation, hash helpers, facades.

// anyString: a string of any length
func (c *Checker) anyString(name string) (StrV, *Rope, *Poly) {
	a := newArr(name)
	n := symKeyed("len:"+name, "", func() *Sym { return newSym("len("+name+")", b0, bi(1<<40)) })
	r := ropeArr(a, pInt(0), pSym(n))
	return StrV{r}, r, pSym(n)
}

func hexOK(r *Rope, f *Facts) *Cond { return condAtom("hexok:"+r.norm(f).Key(), nil) }

// unhex: the bytes that an unknown hex string of even length denotes
func unhex(r *Rope, f *Facts) *Rope {
	r = r.norm(f)
	a := newArr("unhex{" + r.Key() + "}")
	a.deps = ropeDeps(r)
	return ropeArr(a, pInt(0), pfloor(normPoly(r.length(), f), 1, f))
}

// errAlts splits on the error result of an outcome when it is not known.
func (c *Checker) outcome(w string, o Outcome) (failed, ok bool) {
	if o.pan != nil {
		c.fail("no panic", w, "panics: %s", o.pan.desc)
		return false, false
	}
	bad, known := isErr(o.vals[len(o.vals)-1])
	if !known {
		c.fail("outcome is known", w, "unknown error value")
		return false, false
	}
	if bad {
		c.ob("no object comes with an error", w, isNilPtr(o.vals[0]), "an object is returned")
		return true, true
	}
	c.ob("an object comes without an error", w, !isNilPtr(o.vals[0]), "nil is returned with a nil error")
	return false, true
}

func init() {
	reg("model.construct", []string{"init"}, func(c *Checker) {
		// keys from hex strings
		for _, k := range []struct{ fn, typ string }{{"NewPrivateKeyfromHexString", "PrivateKey"}, {"NewPublicKeyfromHex", "PublicKey"}} {
			fn := c.mustFn(k.fn)
			c.try("key from hex", k.fn, func() {
				st := c.e.newState()
				s, r, n := c.anyString("hex string")
				outs := c.call(st, fn, s)
				odd := ropeCat(constStr("0"), r)
				good := 0
				for i, o := range outs {
					w := pathName(k.fn, i, len(outs))
					bad, ok := c.outcome(w, o)
					if !ok {
						continue
					}
					f := o.st.facts
					even := decideIs(condEQ(psub(n, pInt(64))), true, f) && condHolds(hexOK(r, f), f)
					odd63 := decideIs(condEQ(psub(n, pInt(63))), true, f) && condHolds(hexOK(odd, f), f)
					if bad {
						no := impossible(f, condEQ(psub(n, pInt(64))), hexOK(r, f)) && impossible(f, condEQ(psub(n, pInt(63))), hexOK(odd, f))
						c.ob("rejected only when it is not the hex form of 32 bytes", w, no, "rejected under %s", clip(factsString(f)))
						continue
					}
					good++
					if !c.ob("accepted only when it is the hex form of 32 bytes", w, even || odd63, "accepted under %s", clip(factsString(f))) {
						continue
					}
					src := r
					if odd63 {
						src = odd
					}
					ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], k.typ, "Raw"), unhex(src, f))
					c.ob("the key holds the bytes", w, ok, "%s", why)
				}
				c.ob("keys are accepted", k.fn, good > 0, "no path accepts")
			})
		}
		// NewSignature
		c.try("signature from parts", "NewSignature", func() {
			fn := c.mustFn("NewSignature")
			st := c.e.newState()
			a, ra, na := c.anyBytes(st, "new.R")
			b, rb, nb := c.anyBytes(st, "new.S")
			eq := cand(condEQ(psub(na, pInt(32))), condEQ(psub(nb, pInt(32))))
			c.accepts("NewSignature", c.call(st, fn, a, b), eq, "both parts have 32 bytes", func(w string, o Outcome) {
				ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "R"), ra)
				c.ob("R is the first part", w, ok, "%s", why)
				ok, why = c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "S"), rb)
				c.ob("S is the second part", w, ok, "%s", why)
			})
		})
		c.try("signature from bytes", "NewSignatureFromBytes", func() {
			fn := c.mustFn("NewSignatureFromBytes")
			st := c.e.newState()
			a, ra, na := c.anyBytes(st, "new.bytes")
			c.accepts("NewSignatureFromBytes", c.call(st, fn, a), condEQ(psub(na, pInt(64))), "there are 64 bytes", func(w string, o Outcome) {
				f := o.st.facts
				ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "R"), part(ra, pInt(0), pInt(32), f))
				c.ob("R is the first half", w, ok, "%s", why)
				ok, why = c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "S"), part(ra, pInt(32), pInt(32), f))
				c.ob("S is the second half", w, ok, "%s", why)
			})
		})
		for mask := 0; mask < 4; mask++ {
			name := []string{"NewSignatureFromBigInt", "NewSignatureFromBigInt with a nil R", "NewSignatureFromBigInt with a nil S", "NewSignatureFromBigInt with two nils"}[mask]
			c.try("signature from integers", name, func() {
				fn := c.mustFn("NewSignatureFromBigInt")
				st := c.e.newState()
				mk := func(nm string, isNil bool) (Val, *Poly) {
					y := symKeyed("int:"+nm, "", func() *Sym { return newSym(nm, nil, nil) })
					if isNil {
						return PtrV{}, pSym(y)
					}
					return c.ptrTo(st, nm, "caller", BigV{p: pSym(y)}, nil), pSym(y)
				}
				r, pr := mk("the integer R", mask&1 != 0)
				s, ps := mk("the integer S", mask&2 != 0)
				in := func(p *Poly) *Cond { return cand(condGE(p), condGE(psub(pConst(new(big.Int).Sub(pow2(256), b1)), p))) }
				spec := cand(in(pr), in(ps))
				if mask != 0 {
					spec = cFalse
				}
				c.accepts(name, c.call(st, fn, r, s), spec, "both integers are in [0, 2^256)", func(w string, o Outcome) {
					for _, x := range []struct {
						f string
						p *Poly
					}{{"R", pr}, {"S", ps}} {
						ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", x.f), ropeBytes(leBytes(x.p, 32, o.st.facts)))
						c.ob(x.f+" is the integer in little-endian bytes", w, ok, "%s", why)
					}
				})
			})
		}
		for _, def := range []bool{true, false} {
			name := "NewKeyPair with the default engine"
			if !def {
				name = "NewKeyPair with a seed engine"
			}
			c.try("key pair from two keys", name, func() {
				fn := c.mustFn("NewKeyPair")
				st := c.e.newState()
				a, _, na := c.anyBytes(st, "public key")
				pub, st := c.pubKey(st, a)
				kraw, _, _ := c.anyBytes(st, "private key")
				priv, st := c.privKey(st, kraw)
				eng := IfaceV{}
				if !def {
					eng = c.seedEngine(st, reader("custom"))
				}
				for _, p := range []Val{priv, PtrV{}} {
					p := p
					c.accepts(name, c.call(st.clone(), fn, p, pub, eng), condEQ(psub(na, pInt(32))), "the public key has 32 bytes", func(w string, o Outcome) {
						c.ob("the pair holds the given keys", w, samePtr(c.field(o.st, o.vals[0], "KeyPair", "PrivateKey"), p) && samePtr(c.field(o.st, o.vals[0], "KeyPair", "PublicKey"), pub), "it does not")
					})
				}
			})
		}
	})

	reg("model.serial", []string{"model.construct"}, func(c *Checker) {
		rb, sb := symBytes("ser.R", 32), symBytes("ser.S", 32)
		all := append(append([]*Poly(nil), rb...), sb...)
		sig := func() (*State, PtrV) {
			st := c.e.newState()
			v := c.mk("Signature", map[string]Val{"R": c.newSlice(st, "R", "caller", rb), "S": c.newSlice(st, "S", "caller", sb)})
			return st, c.ptrTo(st, "signature", "caller", v, c.P.typ("Signature"))
		}
		parts := func(w string, outs []Outcome) {
			c.ob("returns", w, len(outs) > 0, "no path returns")
			for _, o := range outs {
				bad, ok := c.outcome(w, o)
				if !ok || !c.ob("parsing succeeds", w, !bad, "it fails under %s", clip(factsString(o.st.facts))) {
					continue
				}
				ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "R"), ropeBytes(rb))
				c.ob("R survives", w, ok, "%s", why)
				ok, why = c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "S"), ropeBytes(sb))
				c.ob("S survives", w, ok, "%s", why)
			}
		}
		c.try("signature bytes", "Signature.Bytes", func() {
			st, s := sig()
			o := c.one(c.call(st, c.mustFn("Signature.Bytes"), s), "Signature.Bytes")
			ok, why := c.sameBytes(o.st, o.vals[0], ropeBytes(all))
			c.ob("the bytes are R followed by S", "Signature.Bytes", ok, "%s", why)
			parts("NewSignatureFromBytes of Signature.Bytes", c.call(o.st, c.mustFn("NewSignatureFromBytes"), o.vals[0]))
		})
		c.try("signature string", "Signature.String", func() {
			st, s := sig()
			o := c.one(c.call(st, c.mustFn("Signature.String"), s), "Signature.String")
			c.hexString("Signature.String", o, ropeBytes(all))
		})
		c.try("signature integers", "Signature.GetR, GetS", func() {
			st, s := sig()
			var ints []Val
			for _, x := range []struct {
				fn string
				b  []*Poly
			}{{"Signature.GetR", rb}, {"Signature.GetS", sb}} {
				o := c.one(c.call(st, c.mustFn(x.fn), s), x.fn)
				st = o.st
				v, ok := c.e.load(st, o.vals[0].(PtrV)).(BigV)
				c.ob("the integer is the little-endian value", x.fn, ok && condHolds(condEQ(psub(v.p, valueLE(x.b))), st.facts), "it is %v", v)
				ints = append(ints, o.vals[0])
			}
			parts("NewSignatureFromBigInt of GetR and GetS", c.call(st, c.mustFn("NewSignatureFromBigInt"), ints[0], ints[1]))
		})
		for _, k := range []struct{ typ, mk, str, parse string }{
			{"PrivateKey", "NewPrivateKey", "PrivateKey.String", "NewPrivateKeyfromHexString"},
			{"PublicKey", "NewPublicKey", "PublicKey.String", "NewPublicKeyfromHex"},
			{"PublicKey", "NewPublicKey", "PublicKey.hex", "NewPublicKeyfromHex"},
		} {
			if c.P.fn(k.str) == nil && k.str == "PublicKey.hex" {
				continue // not exported
			}
			c.try("key string", k.str, func() {
				// any length
				st := c.e.newState()
				raw, rope, _ := c.anyBytes(st, "key")
				o := c.one(c.call(st, c.mustFn(k.mk), raw), k.mk)
				o = c.one(c.call(o.st, c.mustFn(k.str), o.vals[0]), k.str)
				c.hexString(k.str, o, rope)
				// 32 bytes, and back
				st = c.e.newState()
				b := symBytes("key", 32)
				o = c.one(c.call(st, c.mustFn(k.mk), c.newSlice(st, "key", "caller", b)), k.mk)
				o = c.one(c.call(o.st, c.mustFn(k.str), o.vals[0]), k.str)
				c.hexString(k.str, o, ropeBytes(b))
				w := k.parse + " of " + k.str
				outs := c.call(o.st, c.mustFn(k.parse), o.vals[0])
				c.ob("returns", w, len(outs) > 0, "no path returns")
				for _, o := range outs {
					bad, ok := c.outcome(w, o)
					if !ok || !c.ob("parsing succeeds", w, !bad, "it fails") {
						continue
					}
					ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], k.typ, "Raw"), ropeBytes(b))
					c.ob("the key survives", w, ok, "%s", why)
				}
			})
		}
	})

	reg("model.integer", []string{"model.construct"}, func(c *Checker) {
		for n := 0; n <= 32; n++ {
			w := fmt.Sprintf("NewPrivateKeyFromBigInt of %d bytes", n)
			c.try("private key from an integer", w, func() {
				b := symBytes("key.int", n)
				if n > 0 {
					b[n-1] = pSym(newSym("key.int.top", b1, b255))
				}
				st := c.e.newState()
				o := c.one(c.call(st, c.mustFn("NewPrivateKeyFromBigInt"), c.ptrTo(st, "the integer", "caller", BigV{p: valueLE(b)}, nil)), w)
				want := make([]*Poly, 32)
				for i := range want {
					want[31-i] = pInt(0)
					if i < n {
						want[31-i] = b[i]
					}
				}
				ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "PrivateKey", "Raw"), ropeBytes(want))
				c.ob("the raw form is the integer in 32 big-endian bytes", w, ok, "%s", why)
				o = c.one(c.call(o.st, c.mustFn("PrivateKey.String"), o.vals[0]), "PrivateKey.String")
				c.hexString("PrivateKey.String of "+w, o, ropeBytes(want))
				outs := c.call(o.st, c.mustFn("NewPrivateKeyfromHexString"), o.vals[0])
				c.ob("returns", w, len(outs) > 0, "no path returns")
				for _, o := range outs {
					bad, ok := c.outcome(w, o)
					if !ok || !c.ob("parsing succeeds", w, !bad, "it fails") {
						continue
					}
					ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "PrivateKey", "Raw"), ropeBytes(want))
					c.ob("the key survives", w, ok, "%s", why)
				}
			})
		}
	})

	reg("model.hash", []string{"init"}, func(c *Checker) {
		for _, h := range []struct {
			fn, alg string
			n       int
		}{{"HashesSha_256", "sha256", 32}, {"HashesKeccak_256", "keccak256", 32}, {"HashesSha3_256", "sha3-256", 32}, {"HashesSha3_512", "sha3-512", 64}, {"HashesRipemd160", "ripemd160", 20}} {
			fn := c.mustFn(h.fn)
			counts := []int{1}
			if fn.Signature.Variadic() {
				counts = nil
				max := 64
				if c.thor {
					max = 400
				}
				for i := 0; i <= max; i++ {
					counts = append(counts, i)
				}
			}
			for _, n := range counts {
				where := h.fn
				if fn.Signature.Variadic() {
					where = fmt.Sprintf("%s of %d parts", h.fn, n)
				}
				c.try("digest", where, func() {
					for _, fault := range []bool{false, true} {
						c.e.hashFault = fault
						st := c.e.newState()
						for round := 0; round < 2; round++ {
							var parts []Val
							in := &Rope{}
							for i := 0; i < n; i++ {
								s, r, _ := c.anyBytes(st, fmt.Sprintf("input %d.%d", round, i))
								parts = append(parts, s)
								in = ropeCat(in, r)
							}
							var arg Val
							if fn.Signature.Variadic() {
								id := c.e.newObj("parts", "caller", nil)
								st.set(id, ArrayV{parts})
								k := pInt(int64(n))
								arg = SliceV{obj: id, off: pInt(0), len: k, cap: k}
								if n == 0 {
									arg = SliceV{off: pInt(0), len: pInt(0), cap: pInt(0)}
								}
							} else {
								arg = parts[0]
							}
							outs := c.call(st, fn, arg)
							good := 0
							for i, o := range outs {
								w := pathName(where, i, len(outs))
								bad, ok := c.outcome(w, o)
								if !ok {
									continue
								}
								hit := 0
								for _, ev := range o.st.events() {
									if ev.kind == "fault" {
										hit++
									}
								}
								if bad {
									c.ob("fails only when hashing fails", w, hit > 0, "it returns an error")
									continue
								}
								c.ob("succeeds only when hashing succeeds", w, hit == 0, "an error of the hash is dropped")
								if hit > 0 {
									continue
								}
								good++
								ok, why := c.sameBytes(o.st, o.vals[0], ropeBytes(hashFamily(h.alg, h.n, in, o.st.facts).polys()))
								c.ob("the result is the named digest of the whole input", w, ok, "%s", why)
								st = o.st
							}
							c.ob("a digest is returned", where, good > 0, "no path succeeds")
						}
					}
				})
				c.e.hashFault = false
			}
		}
	})
}

func samePtr(a, b Val) bool {
	x, ok1 := a.(PtrV)
	y, ok2 := b.(PtrV)
	return ok1 && ok2 && x.obj == y.obj && fmt.Sprint(x.path) == fmt.Sprint(y.path)
}

// accepts: succeeds exactly under the condition
func (c *Checker) accepts(where string, outs []Outcome, spec *Cond, what string, check func(w string, o Outcome)) {
	good := 0
	for i, o := range outs {
		w := pathName(where, i, len(outs))
		bad, ok := c.outcome(w, o)
		if !ok {
			continue
		}
		f := o.st.facts
		if bad {
			c.ob("rejected only when not: "+what, w, impossible(f, spec), "rejected under %s", clip(factsString(f)))
			continue
		}
		good++
		if c.ob("accepted only when "+what, w, condHolds(spec, f), "accepted under %s", clip(factsString(f))) {
			check(w, o)
		}
	}
	c.ob("something is accepted", where, good > 0 || spec == cFalse, "no path accepts")
}

// hexString: the result is the hex form of the bytes
func (c *Checker) hexString(w string, o Outcome, want *Rope) {
	s, ok := o.vals[0].(StrV)
	if !ok {
		c.fail("the string is the hex form", w, "%T", o.vals[0])
		return
	}
	if t, ok := s.r.text(); ok {
		var b []*Poly
		x, err := hex.DecodeString(t)
		for _, y := range x {
			b = append(b, pInt(int64(y)))
		}
		c.ob("the string is the hex form of all bytes in order", w, err == nil && ropeBytes(b).norm(o.st.facts).Key() == want.norm(o.st.facts).Key(), "it is %s", clip(t))
		return
	}
	src, ok := hexSource(s.r, o.st.facts)
	c.ob("the string is the hex form of all bytes in order", w, ok && src.norm(o.st.facts).Key() == want.norm(o.st.facts).Key(), "it is %s", clip(s.r.String()))
}

// impossible: the conditions cannot all hold (each is assumed in turn, and every fact is looked at again under it)
func impossible(f *Facts, cs ...*Cond) bool {
	for _, c := range cs {
		g, ok := assume(c, true, f)
		if !ok {
			return true
		}
		f = g
		for h := f; h != nil; h = h.parent {
			if h.eq != nil {
				if c, ok := normPoly(h.eq, f).isConst(); ok && c.Sign() != 0 {
					return true
				}
			}
			if h.ge != nil {
				if c, ok := normPoly(h.ge, f).isConst(); ok && c.Sign() < 0 {
					return true
				}
			}
			if p, ok := h.adat.(*Poly); ok && h.atom == neKey(p) && !h.aval && normPoly(p, f).isZero() {
				return true
			}
		}
	}
	return false
}
