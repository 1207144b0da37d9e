package main

import (
	"go/types"
)

// C26: facades and defaults. C28: failed operations.

// sameVal: identical values (the same object, the same unknown result)
func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case PtrV:
		return samePtr(a, b)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && x.off.eq(y.off) && x.len.eq(y.len)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok || (x.t == nil) != (y.t == nil) {
			return false
		}
		return x.t == nil || (types.Identical(x.t, y.t) && sameVal(x.v, y.v))
	case ExtV:
		y, ok := b.(ExtV)
		return ok && x == y
	case BoolV:
		y, ok := b.(BoolV)
		return ok && x.c.key() == y.c.key()
	case IntV:
		y, ok := b.(IntV)
		return ok && x.p.eq(y.p)
	}
	return false
}

// producer: the call on an unknown implementation that produced the value, as its i-th result
func producer(st *State, v Val) (*mockCall, int) {
	for _, ev := range st.events() {
		if ev.kind != "mock" {
			continue
		}
		d := ev.data.(*mockCall)
		for i, r := range d.res {
			n, k := isNilVal(r)
			if (!k || !n) && sameVal(r, v) {
				return d, i
			}
		}
	}
	return nil, 0
}

func mockCalls(st *State, method string) (l []*mockCall) {
	for _, ev := range st.events() {
		if d, ok := ev.data.(*mockCall); ok && ev.kind == "mock" && d.method == method {
			l = append(l, d)
		}
	}
	return
}

// delegates: the outcome hands on exactly the results of one call of the method, on the receiver, with the arguments
func (c *Checker) delegates(where string, outs []Outcome, method string, recv func(st *State, v Val) bool, args ...Val) {
	c.ob("returns", where, len(outs) > 0, "no path returns")
	for i, o := range outs {
		w := pathName(where, i, len(outs))
		if o.pan != nil {
			c.fail("no panic", w, "panics: %s", o.pan.desc)
			continue
		}
		l := mockCalls(o.st, method)
		if !c.ob("delegates once to "+method, w, len(l) == 1, "%s is called %d times", method, len(l)) {
			continue
		}
		d := l[0]
		c.ob(method+" is called on the configured object", w, recv(o.st, d.recv), "it is called on %v", d.recv)
		ok := len(d.args) == len(args)
		for i := range args {
			ok = ok && sameVal(d.args[i], args[i])
		}
		c.ob("arguments are handed on unchanged", w, ok, "%s is called with other arguments", method)
		ok = len(d.res) == len(o.vals)
		for i := range o.vals {
			ok = ok && sameVal(d.res[i], o.vals[i])
		}
		c.ob("results are handed on unchanged", w, ok, "the result is not that of %s", method)
	}
}

func is(x Val) func(st *State, v Val) bool {
	return func(st *State, v Val) bool { return sameVal(v, x) || sameVal(v, stripIface(x)) }
}
func stripIface(v Val) Val {
	if i, ok := v.(IfaceV); ok {
		return i.v
	}
	return v
}

// madeBy: the receiver is the result of the method of the object
func madeBy(x Val, method string, args ...Val) func(st *State, v Val) bool {
	return func(st *State, v Val) bool {
		for _, d := range mockCalls(st, method) {
			if len(d.res) == 1 && (sameVal(stripIface(d.res[0]), v) || sameVal(d.res[0], v)) && sameVal(d.recv, stripIface(x)) && len(d.args) == len(args) {
				ok := true
				for i := range args {
					ok = ok && sameVal(d.args[i], args[i])
				}
				if ok {
					return true
				}
			}
		}
		return false
	}
}

func mock(typ, name string) IfaceV { return IfaceV{extType("mock:" + typ), ExtV{"mock", name}} }

func (c *Checker) opaque(st *State, typ, name string) PtrV {
	t := c.P.typ(typ)
	id := c.e.newObj(name, "caller", t)
	c.e.base[id] = UnkV{"content of " + name}
	return PtrV{obj: id}
}

func (c *Checker) seedEngine(st *State, seed Val) IfaceV {
	t := c.P.typ("Ed25519SeedCryptoEngine")
	s := c.structOf("Ed25519SeedCryptoEngine")
	fields := map[string]Val{}
	for i := 0; i < s.NumFields(); i++ {
		if types.IsInterface(s.Field(i).Type()) {
			fields[s.Field(i).Name()] = seed
		}
	}
	if len(fields) != 1 {
		panic(undecided("the engine has %d fields of interface type, expected its randomness source", len(fields)))
	}
	p := c.ptrTo(st, "engine", "caller", c.mk("Ed25519SeedCryptoEngine", fields), t)
	return IfaceV{types.NewPointer(t), p}
}

func init() {
	reg("facade.delegate", []string{"init"}, func(c *Checker) {
		type op struct {
			name string
			args func(st *State) []Val
		}
		data := func(st *State) Val { s, _, _ := c.anyBytes(st, "data"); return s }
		ops := []op{
			{"Sign", func(st *State) []Val { return []Val{data(st)} }},
			{"Verify", func(st *State) []Val { return []Val{data(st), c.opaque(st, "Signature", "signature")} }},
			{"Verify", func(st *State) []Val { return []Val{data(st), PtrV{}} }},
			{"IsCanonicalSignature", func(st *State) []Val { return []Val{c.opaque(st, "Signature", "signature")} }},
			{"MakeSignatureCanonical", func(st *State) []Val { return []Val{c.opaque(st, "Signature", "signature")} }},
		}
		for _, o := range ops {
			w := "Signer." + o.name
			c.try("facade", w, func() {
				st := c.e.newState()
				m := mock("DsaSigner", "the signer")
				sg := c.one(c.call(st, c.mustFn("NewSigner"), m), "NewSigner")
				args := o.args(sg.st)
				c.delegates(w, c.bound(w, sg.vals[0])(sg.st, args...), o.name, is(m), args...)
			})
			c.try("facade", w+" of NewSignerFromKeyPair", func() {
				st := c.e.newState()
				m := mock("CryptoEngine", "the engine")
				kp := c.opaque(st, "KeyPair", "key pair")
				sg := c.one(c.call(st, c.mustFn("NewSignerFromKeyPair"), kp, m), "NewSignerFromKeyPair")
				args := o.args(sg.st)
				c.delegates(w+" of NewSignerFromKeyPair", c.bound(w, sg.vals[0])(sg.st, args...), o.name, madeBy(m, "CreateDsaSigner", kp), args...)
			})
		}
		c.try("facade", "NewBlockCipher", func() {
			st := c.e.newState()
			m := mock("CryptoEngine", "the engine")
			a, b := c.opaque(st, "KeyPair", "sender"), c.opaque(st, "KeyPair", "recipient")
			c.delegates("NewBlockCipher", c.call(st, c.mustFn("NewBlockCipher"), a, b, m), "CreateBlockCipher", is(m), a, b)
		})
		c.try("facade", "NewKeyPairByEngine", func() {
			st := c.e.newState()
			m := mock("CryptoEngine", "the engine")
			c.delegates("NewKeyPairByEngine", c.call(st, c.mustFn("NewKeyPairByEngine"), m), "GenerateKeyPair", madeBy(m, "CreateKeyGenerator"))
		})
		c.try("facade", "NewKeyPair without a public key", func() {
			st := c.e.newState()
			w := "NewKeyPair without a public key"
			m := mock("CryptoEngine", "the engine")
			priv := c.opaque(st, "PrivateKey", "private key")
			outs := c.call(st, c.mustFn("NewKeyPair"), priv, PtrV{}, m)
			c.ob("returns", w, len(outs) > 0, "no path returns")
			for i, o := range outs {
				w := pathName(w, i, len(outs))
				bad, ok := c.outcome(w, o)
				if !ok || !c.ob("succeeds", w, !bad, "it returns an error") {
					continue
				}
				d, _ := producer(o.st, c.field(o.st, o.vals[0], "KeyPair", "PublicKey"))
				ok = d != nil && d.method == "DerivePublicKey" && len(d.args) == 1 && sameVal(d.args[0], priv) && madeBy(m, "CreateKeyGenerator")(o.st, d.recv)
				c.ob("the public key is derived by the engine from the private key", w, ok, "it is not")
				c.ob("the private key is kept", w, samePtr(c.field(o.st, o.vals[0], "KeyPair", "PrivateKey"), priv), "it is not")
			}
		})
		for _, havePriv := range []bool{true, false} {
			c.try("facade", "NewKeyPair with a public key", func() {
				st := c.e.newState()
				w := "NewKeyPair with a public key"
				m := mock("CryptoEngine", "the engine")
				priv, pub := c.opaque(st, "PrivateKey", "private key"), c.opaque(st, "PublicKey", "public key")
				if !havePriv {
					priv = PtrV{}
					w += " only"
				}
				outs := c.call(st, c.mustFn("NewKeyPair"), priv, pub, m)
				yes, no := 0, 0
				for i, o := range outs {
					w := pathName(w, i, len(outs))
					bad, ok := c.outcome(w, o)
					if !ok {
						continue
					}
					l := mockCalls(o.st, "IsKeyCompressed")
					if !c.ob("the engine's analyzer judges the public key", w, len(l) == 1 && len(l[0].args) == 1 && sameVal(l[0].args[0], pub) && madeBy(m, "CreateKeyAnalyzer")(o.st, l[0].recv), "it does not") {
						continue
					}
					res := l[0].res[0].(BoolV).c
					if bad {
						no++
						c.ob("refused only when the analyzer refuses", w, decideIs(res, false, o.st.facts), "it is refused")
						continue
					}
					yes++
					c.ob("accepted only when the analyzer accepts", w, decideIs(res, true, o.st.facts), "it is accepted")
					c.ob("the pair holds the given keys", w, samePtr(c.field(o.st, o.vals[0], "KeyPair", "PrivateKey"), priv) && samePtr(c.field(o.st, o.vals[0], "KeyPair", "PublicKey"), pub), "it does not")
				}
				c.ob("both answers occur", w, yes > 0 && no > 0, "%d accepted, %d refused", yes, no)
			})
		}
	})

	// the default engine, an engine with its own source
	reg("facade.default", []string{"protocol"}, func(c *Checker) {
		engines := []struct {
			name, src string
			mk        func(st *State) IfaceV
		}{
			{"the default engine", "system", func(st *State) IfaceV { return IfaceV{} }},
			{"an engine with its own source", "custom", func(st *State) IfaceV { return c.seedEngine(st, reader("custom")) }},
			{"an engine without a source", "system", func(st *State) IfaceV { return c.seedEngine(st, IfaceV{}) }},
		}
		for _, e := range engines {
			signer := func(m string) func(st *State, kp PtrV) (*State, callee) {
				return func(st *State, kp PtrV) (*State, callee) {
					sg := c.one(c.call(st, c.mustFn("NewSignerFromKeyPair"), kp, e.mk(st)), "NewSignerFromKeyPair")
					return sg.st, c.bound("Signer."+m, sg.vals[0])
				}
			}
			c.signCheck("Signer.Sign with "+e.name, signer("Sign"))
			c.verifyCheck("Signer.Verify with "+e.name, signer("Verify"))
			ciph := func(m string) func(st *State, s, t PtrV) (*State, callee) {
				return func(st *State, s, t PtrV) (*State, callee) {
					o := c.one(c.call(st, c.mustFn("NewBlockCipher"), s, t, e.mk(st)), "NewBlockCipher")
					return o.st, c.method(o.vals[0], "BlockCipher", m)
				}
			}
			c.encryptCheck("BlockCipher.Encrypt with "+e.name, 5, e.src, true, ciph("Encrypt"))
			c.decryptCheck("BlockCipher.Decrypt with "+e.name, true, false, ciph("Decrypt"))
			c.generateCheck("NewKeyPairByEngine with "+e.name, e.src, func(st *State) []Outcome {
				eng := e.mk(st)
				if eng.t == nil {
					return c.free("NewRandomKeyPair")(st)
				}
				return c.free("NewKeyPairByEngine")(st, eng)
			})
			w := "NewKeyPair with " + e.name
			c.try("derivation", w, func() {
				st := c.e.newState()
				raw, rope, _ := c.anyBytes(st, "private key")
				priv, st := c.privKey(st, raw)
				o := c.one(c.call(st, c.mustFn("NewKeyPair"), priv, PtrV{}, e.mk(st)), "NewKeyPair")
				if bad, ok := c.outcome(w, o); !ok || bad {
					c.fail("succeeds", w, "it fails")
					return
				}
				ok, why := c.sameBytes(o.st, c.field(o.st, c.field(o.st, o.vals[0], "KeyPair", "PublicKey"), "PublicKey", "Raw"), ropeBytes(compressedTau(tauOf("B", clampedOf(rope, o.st.facts)))))
				c.ob("the public key is derived from the private key", w, ok, "%s", why)
			})
			w = "IsKeyCompressed of " + e.name
			c.try("analyzer", w, func() {
				st := c.e.newState()
				eng := e.mk(st)
				if eng.t == nil {
					return // covered by the constructor of key pairs
				}
				o := c.one(c.method(eng, "CryptoEngine", "CreateKeyAnalyzer")(st), "CreateKeyAnalyzer")
				raw, _, n := c.anyBytes(o.st, "public key")
				pub, st := c.pubKey(o.st, raw)
				yes, no := 0, 0
				for _, r := range c.method(o.vals[0], "KeyAnalyzer", "IsKeyCompressed")(st, pub) {
					for _, a := range c.boolAlts(r, 0) {
						is32 := condEQ(psub(n, pInt(32)))
						if a.v {
							yes++
							c.ob("compressed only when 32 bytes", w, condHolds(is32, a.f), "under %s", clip(factsString(a.f)))
						} else {
							no++
							c.ob("not compressed only when not 32 bytes", w, decideIs(is32, false, a.f), "under %s", clip(factsString(a.f)))
						}
					}
				}
				c.ob("both answers occur", w, yes > 0 && no > 0, "%d yes, %d no", yes, no)
			})
		}
	})

	reg("failures", []string{"protocol"}, func(c *Checker) {
		// report: no result with an error, a result without one; an incomplete read is an error
		report := func(where string, outs []Outcome, mustFail bool) {
			c.ob("returns", where, len(outs) > 0, "no path returns")
			good := 0
			for i, o := range outs {
				w := pathName(where, i, len(outs))
				bad, ok := c.outcome(w, o)
				if !ok {
					continue
				}
				broken := ""
				for _, ev := range o.st.events() {
					if d, is := ev.data.(*readEvent); is && ev.kind == "read" && d.kind != "full" {
						broken = "an incomplete read at " + ev.at
					}
					if ev.kind == "fault" {
						broken = "a failure at " + ev.at
					}
				}
				c.ob("an internal failure is reported", w, broken == "" || bad, "%s does not make it fail", broken)
				if mustFail {
					c.ob("is refused", w, bad, "it succeeds under %s", clip(factsString(o.st.facts)))
				}
				if !bad {
					good++
				}
			}
			if !mustFail {
				c.ob("can succeed", where, good > 0, "no path succeeds")
			}
		}
		run := func(where string, mustFail bool, k func(st *State) []Outcome) {
			c.try("failure", where, func() { report(where, k(c.e.newState()), mustFail) })
		}
		pair := func(st *State, name string, have bool) (*State, PtrV, Val, Val) {
			raw, _, _ := c.anyBytes(st, name+" private key")
			var priv Val = PtrV{}
			if have {
				priv, st = c.privKey(st, raw)
			}
			pub, st := c.pubKey(st, c.newSlice(st, name+" public key", "caller", symBytes("fail."+name, 32)))
			return st, c.keyPair(st, priv, pub), priv, pub
		}
		for _, have := range []bool{true, false} {
			suffix := ""
			if !have {
				suffix = " without a private key"
			}
			run("Sign"+suffix, !have, func(st *State) []Outcome {
				st, kp, _, _ := pair(st, "signer", have)
				m, _, _ := c.anyBytes(st, "message")
				sg := c.one(c.call(st, c.mustFn("NewEd25519DsaSigner"), kp), "NewEd25519DsaSigner")
				return c.bound("Ed25519DsaSigner.Sign", sg.vals[0])(sg.st, m)
			})
			for _, src := range []IfaceV{reader("custom"), {}} {
				name := "Encrypt" + suffix
				if src.t == nil {
					name += " with the default source"
				}
				run(name, !have, func(st *State) []Outcome {
					st, s, _, _ := pair(st, "sender", have)
					st, t, _, _ := pair(st, "recipient", false)
					ci, st := c.cipher(st, s, t, src)
					m, _, _ := c.blockMsg(st, "message", 3)
					return c.bound("Ed25519BlockCipher.Encrypt", ci)(st, m)
				})
			}
			run("Decrypt"+suffix, !have, func(st *State) []Outcome {
				st, s, _, _ := pair(st, "sender", false)
				st, t, _, _ := pair(st, "recipient", have)
				ci, st := c.cipher(st, s, t, reader("custom"))
				m, _, _ := c.anyBytes(st, "ciphertext")
				return c.bound("Ed25519BlockCipher.Decrypt", ci)(st, m)
			})
			run("GetSharedKey"+suffix, !have, func(st *State) []Outcome {
				st, s, _, _ := pair(st, "sender", have)
				st, t, priv, _ := pair(st, "recipient", have)
				ci, st := c.cipher(st, s, t, reader("custom"))
				raw, _, _ := c.anyBytes(st, "public key")
				pub, st := c.pubKey(st, raw)
				return c.bound("Ed25519BlockCipher.GetSharedKey", ci)(st, priv, pub, c.newSlice(st, "salt", "caller", symBytes("fail.salt", 32)))
			})
		}
		for _, src := range []IfaceV{reader("custom"), {}} {
			name := "GenerateKeyPair"
			if src.t == nil {
				name += " with the default source"
			}
			run(name, false, func(st *State) []Outcome {
				gen := c.one(c.call(st, c.mustFn("NewEd25519KeyGenerator"), src), "NewEd25519KeyGenerator")
				return c.bound("Ed25519KeyGenerator.GenerateKeyPair", gen.vals[0])(gen.st)
			})
		}
		run("NewRandomKeyPair", false, func(st *State) []Outcome { return c.free("NewRandomKeyPair")(st) })
		run("MakeSignatureCanonical", false, func(st *State) []Outcome {
			st, kp, _, _ := pair(st, "signer", false)
			sg := c.one(c.call(st, c.mustFn("NewEd25519DsaSigner"), kp), "NewEd25519DsaSigner")
			r, _, _ := c.anyBytes(sg.st, "R")
			v := c.mk("Signature", map[string]Val{"R": r, "S": c.newSlice(sg.st, "S", "caller", symBytes("fail.S", 32))})
			return c.bound("Ed25519DsaSigner.MakeSignatureCanonical", sg.vals[0])(sg.st, c.ptrTo(sg.st, "signature", "caller", v, c.P.typ("Signature")))
		})
		for _, fn := range []string{"NewEd25519EncodedFieldElement", "NewEd25519EncodedGroupElement"} {
			run(fn, false, func(st *State) []Outcome {
				raw, _, _ := c.anyBytes(st, "raw")
				return c.call(st, c.mustFn(fn), raw)
			})
		}
		for _, fn := range []string{"NewPrivateKeyfromHexString", "NewPublicKeyfromHex"} {
			run(fn, false, func(st *State) []Outcome {
				s, _, _ := c.anyString("hex string")
				return c.call(st, c.mustFn(fn), s)
			})
		}
		run("NewSignature", false, func(st *State) []Outcome {
			r, _, _ := c.anyBytes(st, "fail.new.R")
			s, _, _ := c.anyBytes(st, "fail.new.S")
			return c.call(st, c.mustFn("NewSignature"), r, s)
		})
		run("NewSignatureFromBytes", false, func(st *State) []Outcome {
			raw, _, _ := c.anyBytes(st, "fail.new.bytes")
			return c.call(st, c.mustFn("NewSignatureFromBytes"), raw)
		})
		for mask := 0; mask < 4; mask++ {
			name := "NewSignatureFromBigInt" + []string{"", " with a nil R", " with a nil S", " with two nils"}[mask]
			run(name, mask != 0, func(st *State) []Outcome {
				mk := func(nm string, isNil bool) Val {
					if isNil {
						return PtrV{}
					}
					return c.ptrTo(st, nm, "caller", BigV{p: pSym(symKeyed("int:"+nm, "", func() *Sym { return newSym(nm, nil, nil) }))}, nil)
				}
				return c.call(st, c.mustFn("NewSignatureFromBigInt"), mk("fail.int.R", mask&1 != 0), mk("fail.int.S", mask&2 != 0))
			})
		}
		for _, def := range []bool{true, false} {
			for _, have := range []bool{true, false} {
				name := "NewKeyPair"
				if !have {
					name += " without a private key"
				}
				if !def {
					name += " with a seed engine"
				}
				run(name, false, func(st *State) []Outcome {
					raw, _, _ := c.anyBytes(st, "fail.pair.public")
					pub, st := c.pubKey(st, raw)
					var priv Val = PtrV{}
					if have {
						kraw, _, _ := c.anyBytes(st, "fail.pair.private")
						priv, st = c.privKey(st, kraw)
					}
					eng := IfaceV{}
					if !def {
						eng = c.seedEngine(st, reader("custom"))
					}
					return c.call(st, c.mustFn("NewKeyPair"), priv, pub, eng)
				})
			}
		}
		run("NewKeyPairByEngine", false, func(st *State) []Outcome {
			return c.call(st, c.mustFn("NewKeyPairByEngine"), c.seedEngine(st, reader("custom")))
		})
		c.try("failure", "decompression", func() {
			b := symBytes("fail.point", 32)
			for _, fn := range []string{tEGE + ".Decode", tEGE + ".GetAffineX"} {
				p, st := c.ege(c.e.newState(), b, "caller")
				outs := c.callC(st, c.mustFn(fn), p)
				report(fn, outs, false)
				n := 0
				for _, o := range outs {
					if o.pan == nil && !isNilPtr(o.vals[1]) {
						n++
					}
				}
				c.ob("can fail", fn, n > 0, "no path fails")
			}
		})
	})
}
