package main

func init() {
	// C01: sign, then verify
	reg("proto.roundtrip", []string{"protocol"}, func(c *Checker) {
		for _, both := range []bool{true, false} {
			where := "sign, then verify with the whole key pair"
			if !both {
				where = "sign, then verify with the public key only"
			}
			c.try("accepted", where, func() {
				st := c.e.newState()
				kraw, _, _ := c.anyBytes(st, "private key")
				mraw, _, _ := c.anyBytes(st, "message")
				priv, st := c.privKey(st, kraw)
				pair := c.one(c.call(st, c.mustFn("NewKeyPair"), priv, PtrV{}, IfaceV{}), "NewKeyPair")
				if bad, k := isErr(pair.vals[1]); bad || !k {
					panic(undecided("NewKeyPair fails for a private key"))
				}
				kp := pair.vals[0].(PtrV)
				sg := c.one(c.call(pair.st, c.mustFn("NewEd25519DsaSigner"), kp), "NewEd25519DsaSigner")
				n := 0
				outs := c.bound("Ed25519DsaSigner.Sign", sg.vals[0])(sg.st, mraw)
				for i, o := range outs {
					w := pathName(where, i, len(outs))
					if o.pan != nil {
						c.fail("no panic", w, "signing panics: %s", o.pan.desc)
						continue
					}
					bad, known := isErr(o.vals[1])
					if !known {
						c.fail("outcome is known", w, "unknown error value")
						continue
					}
					if bad {
						continue
					}
					n++
					vst, vk := o.st, kp
					if !both {
						pub := c.field(vst, kp, "KeyPair", "PublicKey")
						vk = c.keyPair(vst, PtrV{}, pub)
					}
					vs := c.one(c.call(vst, c.mustFn("NewEd25519DsaSigner"), vk), "NewEd25519DsaSigner")
					vouts := c.bound("Ed25519DsaSigner.Verify", vs.vals[0])(vs.st, mraw, o.vals[0])
					c.ob("verification returns", w, len(vouts) > 0, "no path returns")
					for _, v := range vouts {
						if v.pan != nil {
							c.fail("no panic", w, "verification panics: %s", v.pan.desc)
							continue
						}
						c.ob("the signature is accepted", w, decideIs(v.vals[0].(BoolV).c, true, v.st.facts), "%s: it is rejected under %s", clip(v.vals[0].(BoolV).c.String()), clip(factsString(v.st.facts)))
					}
				}
				c.ob("signing succeeds", where, n > 0, "no path returns a signature")
			})
		}
	})

	// C07: key generation
	reg("proto.generate", []string{"protocol"}, func(c *Checker) {
		fn := c.mustFn("Ed25519KeyGenerator.GenerateKeyPair")
		for _, custom := range []bool{true, false} {
			where := fnName(fn) + " with a configured source"
			src := "custom"
			if !custom {
				where, src = fnName(fn)+" without a configured source", "system"
			}
			c.generateCheck(where, src, func(st *State) []Outcome {
				seed := IfaceV{}
				if custom {
					seed = reader("custom")
				}
				gen := c.one(c.call(st, c.mustFn("NewEd25519KeyGenerator"), seed), "NewEd25519KeyGenerator")
				return c.bound("Ed25519KeyGenerator.GenerateKeyPair", gen.vals[0])(gen.st)
			})
		}
	})
}

// generateCheck: a key pair is generated from 32 bytes of the source, or an error is returned
func (c *Checker) generateCheck(where, src string, gen func(st *State) []Outcome) {
	c.try("key generation", where, func() {
		outs := gen(c.e.newState())
		good, bad := 0, 0
		for i, o := range outs {
			w := pathName(where, i, len(outs))
			if o.pan != nil {
				c.fail("no panic", w, "panics: %s", o.pan.desc)
				continue
			}
			rd, whole := c.reads(w, o.st, src)
			isBad, known := isErr(o.vals[1])
			if !known {
				c.fail("outcome is known", w, "unknown error value")
				continue
			}
			if isBad {
				bad++
				c.ob("no key pair comes with an error", w, isNilPtr(o.vals[0]), "a key pair is returned")
				c.ob("fails only when the source fails", w, !whole, "it fails although all reads succeed")
				continue
			}
			good++
			f := o.st.facts
			c.ob("succeeds only when every read is complete", w, whole, "a read was short or failed")
			n := normPoly(rd.length(), f)
			c.ob("exactly 32 bytes are read", w, n.isInt(32), "%s bytes are read", n)
			kp := o.vals[0]
			priv, pub := c.field(o.st, kp, "KeyPair", "PrivateKey"), c.field(o.st, kp, "KeyPair", "PublicKey")
			ok, why := c.sameBytes(o.st, c.field(o.st, priv, "PrivateKey", "Raw"), rd)
			c.ob("the private key is the bytes that were read", w, ok, "%s", why)
			ok, why = c.sameBytes(o.st, c.field(o.st, pub, "PublicKey", "Raw"), ropeBytes(compressedTau(tauOf("B", clampedOf(rd, f)))))
			c.ob("the public key belongs to the private key", w, ok, "%s", why)
		}
		c.ob("success and failure both occur", where, good > 0 && bad > 0, "%d successes, %d failures", good, bad)
	})
}

func reader(name string) IfaceV { return IfaceV{extType("io.Reader"), ExtV{"reader", name}} }

// reads: the bytes that were read in order, and whether every read was complete
func (c *Checker) reads(w string, st *State, src string) (*Rope, bool) {
	r := &Rope{}
	whole := true
	for _, ev := range st.events() {
		if ev.kind != "read" {
			continue
		}
		d := ev.data.(*readEvent)
		c.ob("reads use the configured source", w, d.reader == src, "%s is read at %s", d.reader, ev.at)
		if d.kind != "full" {
			whole = false
		}
		r = ropeCat(r, ropeArr(d.arr, d.off, d.n))
	}
	return r.norm(st.facts), whole
}
