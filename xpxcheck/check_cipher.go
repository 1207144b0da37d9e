package main

import (
	"fmt"
)

// C08, C09, C10: the block cipher.

// blockMsg: a message of 16*q + r bytes
func (c *Checker) blockMsg(st *State, name string, r int) (SliceV, *Rope, *Poly) {
	a := newArr(name)
	q := symKeyed("blocks:"+name, "", func() *Sym { return newSym("blocks("+name+")", b0, bi(1<<36)) })
	n := padd(pscale(pSym(q), bi(16)), pInt(int64(r)))
	rope := ropeArr(a, pInt(0), n)
	save := c.e.ownNew
	c.e.ownNew = "caller"
	s := c.e.newBytes(st, name, rope)
	c.e.ownNew = save
	return s, rope, n
}

func (c *Checker) cipher(st *State, sender, recipient PtrV, seed IfaceV) (Val, *State) {
	o := c.one(c.call(st, c.mustFn("NewEd25519BlockCipher"), sender, recipient, seed), "NewEd25519BlockCipher")
	return o.vals[0], o.st
}

// sharedKey: SHA3-256(enc(n*P) xor salt)
func sharedKey(tau *Tau, salt *Rope, f *Facts) []*Poly {
	e := compressedTau(tau)
	x := make([]*Poly, 32)
	for i := range x {
		sb := part(salt, pInt(int64(i)), pInt(1), f)
		x[i] = bitXor(normPoly(e[i], f), segByte(sb.s[0]), 8, false, f)
	}
	return hashFamily("sha3-256", 32, ropeBytes(x), f).polys()
}

func padding(r int) []*Poly {
	p := make([]*Poly, 16-r)
	for i := range p {
		p[i] = pInt(int64(16 - r))
	}
	return p
}

func init() {
	reg("cipher.encrypt", []string{"protocol"}, func(c *Checker) {
		fn := c.mustFn("Ed25519BlockCipher.Encrypt")
		run := func(where string, r int, seed IfaceV, src string, havePriv bool) {
			c.encryptCheck(where, r, src, havePriv, func(st *State, s, t PtrV) (*State, callee) {
				ci, st := c.cipher(st, s, t, seed)
				return st, c.bound("Ed25519BlockCipher.Encrypt", ci)
			})
		}
		for r := 0; r < 16; r++ {
			run(fmt.Sprintf("%s of 16q+%d bytes", fnName(fn), r), r, reader("custom"), "custom", true)
		}
		run(fnName(fn)+" with the default source", 5, IfaceV{}, "system", true)
		run(fnName(fn)+" without a private key", 5, reader("custom"), "custom", false)
	})

	reg("cipher.decrypt", []string{"protocol"}, func(c *Checker) {
		fn := c.mustFn("Ed25519BlockCipher.Decrypt")
		run := func(where string, havePriv, isNil bool) {
			c.decryptCheck(where, havePriv, isNil, func(st *State, s, t PtrV) (*State, callee) {
				ci, st := c.cipher(st, s, t, reader("custom"))
				return st, c.bound("Ed25519BlockCipher.Decrypt", ci)
			})
		}
		run(fnName(fn), true, false)
		run(fnName(fn)+" of nil", true, true)
		run(fnName(fn)+" without a private key", false, false)
	})

	reg("cipher.roundtrip", []string{"protocol"}, func(c *Checker) {
		run := func(where string, r int, both bool) {
			c.try("round trip", where, func() {
				st := c.e.newState()
				pair := func(name string) PtrV {
					raw, _, _ := c.anyBytes(st, name)
					var priv Val
					priv, st = c.privKey(st, raw)
					o := c.one(c.call(st, c.mustFn("NewKeyPair"), priv, PtrV{}, IfaceV{}), "NewKeyPair")
					if bad, k := isErr(o.vals[1]); bad || !k {
						panic(undecided("NewKeyPair fails for a private key"))
					}
					st = o.st
					return o.vals[0].(PtrV)
				}
				s, t := pair("sender's private key"), pair("recipient's private key")
				public := func(kp PtrV) PtrV { return c.keyPair(st, PtrV{}, c.field(st, kp, "KeyPair", "PublicKey")) }
				es, et := s, t
				if !both {
					et = public(t)
				}
				ci, st2 := c.cipher(st, es, et, reader("custom"))
				st = st2
				m, mrope, _ := c.blockMsg(st, "message", r)
				outs := c.bound("Ed25519BlockCipher.Encrypt", ci)(st, m)
				n := 0
				for i, o := range outs {
					w := pathName(where, i, len(outs))
					if o.pan != nil {
						c.fail("no panic", w, "encryption panics: %s", o.pan.desc)
						continue
					}
					bad, known := isErr(o.vals[1])
					if !known {
						c.fail("outcome is known", w, "unknown error value")
						continue
					}
					if bad {
						continue
					}
					n++
					st = o.st
					ds, dt := s, t
					if !both {
						ds = public(s)
					}
					cj, dst := c.cipher(st, ds, dt, reader("custom"))
					douts := c.bound("Ed25519BlockCipher.Decrypt", cj)(dst, o.vals[0])
					c.ob("decryption returns", w, len(douts) > 0, "no path returns")
					for _, d := range douts {
						if d.pan != nil {
							c.fail("no panic", w, "decryption panics: %s", d.pan.desc)
							continue
						}
						bad, known := isErr(d.vals[1])
						if !c.ob("decryption succeeds", w, known && !bad, "it returns an error under %s", clip(factsString(d.st.facts))) {
							continue
						}
						ok, why := c.sameBytes(d.st, d.vals[0], mrope)
						c.ob("decryption returns the message", w, ok, "%s", why)
					}
				}
				c.ob("encryption succeeds", where, n > 0, "no path returns a ciphertext")
			})
		}
		for r := 0; r < 16; r++ {
			for _, both := range []bool{true, false} {
				w := fmt.Sprintf("encrypt, then decrypt 16q+%d bytes", r)
				if !both {
					w += ", each party with its own private key only"
				}
				run(w, r, both)
			}
		}
	})
}

// part of a rope that is known to be long enough
func part(r *Rope, off, n *Poly, f *Facts) *Rope {
	s, ok := r.norm(f).sub(off, padd(off, n), f)
	if !ok {
		panic(undecided("part [%s, +%s] of %s", off, n, clip(r.String())))
	}
	return s.norm(f)
}

// encryptCheck: the cipher produces salt, IV and the CBC ciphertext, or fails
func (c *Checker) encryptCheck(where string, r int, src string, havePriv bool, mk func(st *State, s, t PtrV) (*State, callee)) {
	c.try("encryption", where, func() {
		st := c.e.newState()
		kraw, krope, _ := c.anyBytes(st, "sender's private key")
		pb := symBytes("enc.P", 32)
		pub, st := c.pubKey(st, c.newSlice(st, "recipient's public key", "caller", pb))
		spub, st := c.pubKey(st, c.newSlice(st, "sender's public key", "caller", symBytes("enc.A", 32)))
		var priv Val = PtrV{}
		if havePriv {
			priv, st = c.privKey(st, kraw)
		}
		st, enc := mk(st, c.keyPair(st, priv, spub), c.keyPair(st, PtrV{}, pub))
		m, mrope, _ := c.blockMsg(st, "message", r)
		outs := enc(st, m)
		good, bad := 0, 0
		for i, o := range outs {
			w := pathName(where, i, len(outs))
			if o.pan != nil {
				c.fail("no panic", w, "panics: %s", o.pan.desc)
				continue
			}
			f := o.st.facts
			rd, whole := c.reads(w, o.st, src)
			isBad, known := isErr(o.vals[1])
			if !known {
				c.fail("outcome is known", w, "unknown error value")
				continue
			}
			point := decideIs(decCondF(pb, f), true, f)
			if isBad {
				bad++
				c.ob("no ciphertext comes with an error", w, isNilPtr(o.vals[0]), "a slice is returned")
				c.ob("fails only for a reason", w, !whole || decideIs(decCondF(pb, f), false, f) || !havePriv, "it fails although the source delivers and the key is a point")
				continue
			}
			good++
			if !c.ob("encryption needs the private key", w, havePriv, "it succeeds without a private key") {
				continue
			}
			c.ob("succeeds only when every read is complete", w, whole, "a read was short or failed")
			c.ob("succeeds only for a curve point", w, point, "the recipient's key may not be a point")
			n := normPoly(rd.length(), f)
			if !c.ob("48 random bytes are read", w, n.isInt(48), "%s bytes are read", n) {
				continue
			}
			salt, iv := part(rd, pInt(0), pInt(32), f), part(rd, pInt(32), pInt(16), f)
			key := sharedKey(tauOf(decNameF(pb, f), clampedOf(krope, f)), salt, f)
			plain := ropeCat(mrope, ropeBytes(padding(r))).norm(f)
			arr := cbcArr(true, ropeBytes(key).norm(f), iv, plain, plain.length())
			want := ropeCat(rd, ropeArr(arr, pInt(0), normPoly(plain.length(), f)))
			ok, why := c.sameBytes(o.st, o.vals[0], want)
			c.ob("the output is salt, IV and the CBC ciphertext of the padded message", w, ok, "%s", why)
		}
		c.ob("both outcomes occur", where, (good > 0) == havePriv && bad > 0, "%d successes, %d failures", good, bad)
	})
}

// decryptCheck: the cipher returns correctly padded plaintext or an error
func (c *Checker) decryptCheck(where string, havePriv, isNil bool, mk func(st *State, s, t PtrV) (*State, callee)) {
	c.try("decryption", where, func() {
		st := c.e.newState()
		kraw, krope, _ := c.anyBytes(st, "recipient's private key")
		pb := symBytes("dec.P", 32)
		pub, st := c.pubKey(st, c.newSlice(st, "sender's public key", "caller", pb))
		rpub, st := c.pubKey(st, c.newSlice(st, "recipient's public key", "caller", symBytes("dec.A", 32)))
		var priv Val = PtrV{}
		if havePriv {
			priv, st = c.privKey(st, kraw)
		}
		st, dec := mk(st, c.keyPair(st, PtrV{}, pub), c.keyPair(st, priv, rpub))
		in, irope, n := c.anyBytes(st, "ciphertext")
		if isNil {
			in = SliceV{off: pInt(0), len: pInt(0), cap: pInt(0)}
		}
		outs := dec(st, in)
		good, bad := 0, 0
		for i, o := range outs {
			w := pathName(where, i, len(outs))
			if o.pan != nil {
				c.fail("no panic", w, "panics: %s", o.pan.desc)
				continue
			}
			f := o.st.facts
			isBad, known := isErr(o.vals[1])
			if !known {
				c.fail("outcome is known", w, "unknown error value")
				continue
			}
			if isBad {
				bad++
				c.ob("no plaintext comes with an error", w, isNilPtr(o.vals[0]), "a slice is returned")
				continue
			}
			good++
			if !c.ob("decryption needs the private key", w, havePriv, "it succeeds without a private key") {
				continue
			}
			if !c.ob("at least one block", w, condHolds(condGE(psub(n, pInt(64))), f), "the input may be shorter than 64 bytes") {
				continue
			}
			body := normPoly(psub(n, pInt(48)), f)
			c.ob("whole blocks", w, condHolds(condEQ(psub(body, pscale(pfloor(body, 4, f), bi(16)))), f), "the ciphertext may not be whole blocks")
			c.ob("succeeds only for a curve point", w, condHolds(decCondF(pb, f), f), "the sender's key may not be a point")
			salt, iv := part(irope, pInt(0), pInt(32), f), part(irope, pInt(32), pInt(16), f)
			key := sharedKey(tauOf(decNameF(pb, f), clampedOf(krope, f)), salt, f)
			arr := cbcArr(false, ropeBytes(key).norm(f), iv, part(irope, pInt(48), body, f), body)
			last := normPoly(arr.at(normPoly(psub(body, pInt(1)), f)), f)
			p, isConst := last.isConst()
			if !c.ob("padding is between 1 and 16", w, isConst && p.Sign() > 0 && p.Cmp(bi(16)) <= 0, "the last byte is %s", last) {
				continue
			}
			all := true
			for k := int64(1); k <= p.Int64(); k++ {
				x := normPoly(arr.at(normPoly(psub(body, pInt(k)), f)), f)
				if !condHolds(condEQ(psub(x, pConst(p))), f) {
					all = false
				}
			}
			c.ob("the padding is complete", w, all, "a padding byte is not known to be %s", p)
			ok, why := c.sameBytes(o.st, o.vals[0], ropeArr(arr, pInt(0), normPoly(psub(body, pConst(p)), f)))
			c.ob("the plaintext is the decryption without the padding", w, ok, "%s", why)
		}
		c.ob("both outcomes occur", where, (good > 0) == (havePriv && !isNil) && bad > 0, "%d successes, %d failures", good, bad)
	})
}
