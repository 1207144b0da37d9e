package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// Contracts of the scalar arithmetic and the scalar multiplications for the protocol level.

// An entry of a table of multiples of a point.
type tableEntry struct {
	tau  *Tau
	slot int
	i, j int
}

// entries: the objects that are entries of known tables
func (c *Checker) entries() map[int]*tableEntry {
	m, ok := c.facts["entries"].(map[int]*tableEntry)
	if !ok {
		m = map[int]*tableEntry{}
		c.facts["entries"] = m
	}
	return m
}

// tableRows: the entries of the table in a slot of a point, row by row (one row for the double table)
func (c *Checker) tableRows(st *State, ge Val, slot int) (rows [][]int, ok bool) {
	g, ok := c.geStruct(st, ge)
	if !ok {
		return nil, false
	}
	defer func() {
		if r := recover(); r != nil {
			rows, ok = nil, false
		}
	}()
	row := func(v Val) bool {
		var l []int
		for _, x := range c.ptrSlice(st, v) {
			p, is := x.(PtrV)
			if !is || len(p.path) > 0 {
				return false
			}
			l = append(l, p.obj)
		}
		rows = append(rows, l)
		return true
	}
	if slot == c.geShape().double {
		return rows, row(g.f[slot])
	}
	for _, r := range c.ptrSlice(st, g.f[slot]) {
		if !row(r) {
			return nil, false
		}
	}
	return rows, true
}

// tableOf: the point whose table is in the slot
func (c *Checker) tableOf(st *State, ge Val, slot int) *Tau {
	rows, ok := c.tableRows(st, ge, slot)
	if !ok {
		return nil
	}
	want, width := 32, 8
	if slot == c.geShape().double {
		want = 1
	}
	if len(rows) != want {
		return nil
	}
	var tau *Tau
	for i, r := range rows {
		if len(r) != width {
			return nil
		}
		for j, o := range r {
			en := c.entries()[o]
			if en == nil || en.slot != slot || en.i != i || en.j != j || (tau != nil && en.tau.Key() != tau.Key()) {
				return nil
			}
			tau = en.tau
		}
	}
	return tau
}

// numOfScalar: the number of 32 bytes, proved to be below 2^k.
func (c *Checker) numOfScalar(call *Call, v Val, k uint) (*Poly, []*Poly) {
	b := c.normBytes(call.st, c.rawBytes(call.st, v, tEFE))
	if len(b) != 32 {
		panic(undecided("%s gets a scalar of %d bytes, called from %s", call.name, len(b), call.where()))
	}
	n := canonNum(b, call.st.facts)
	top := new(big.Int).Sub(pow2(k), b1)
	if k == 255 {
		need := Iv{b0, bi(127)}
		if bounds(b[31], call.st.facts, stepsDeep, &need).within(b0, bi(127)) {
			return n, b
		}
	}
	if !condHolds(condGE(psub(pConst(top), n)), call.st.facts) {
		panic(undecided("the scalar of %s may reach 2^%d, called from %s", call.name, k, call.where()))
	}
	return n, b
}

func (c *Checker) boundIv(cs int64) func(k, i int) Iv {
	return func(k, i int) Iv { return limbIv(i, c.inBound(cs, k), 100) }
}

func init() {
	reg("scalar.contracts", []string{"scalar.modQ", "scalar.mulAdd"}, func(c *Checker) { c.installScalar() })
	reg("mul.contracts", []string{"mul.tables", "mul.single", "mul.double"}, func(c *Checker) { c.installMul() })
	reg("protocol", []string{"scalar.contracts", "mul.contracts", "decode.contract", "group.encode"}, func(c *Checker) {})
}

func (c *Checker) installScalar() {
	if fn := c.P.fn(tEFE + ".modQ"); fn != nil {
		c.e.contracts[fn] = func(call *Call) []Branch {
			if isNilPtr(call.args[0]) {
				return nil
			}
			b := c.normBytes(call.st, c.rawBytes(call.st, call.args[0], tEFE))
			if len(b) != 64 || allConst(b) {
				return nil
			}
			p, st := c.efe(call.st, modLFamily(collapse(valueLE(b))).polys(), "fresh")
			return one(st, p)
		}
	}
	if fn := c.P.fn(tEFE + ".multiplyAndAddModQ"); fn != nil {
		c.e.contracts[fn] = func(call *Call) []Branch {
			var n []*Poly
			for _, a := range call.args {
				if isNilPtr(a) {
					return nil
				}
				b := c.normBytes(call.st, c.rawBytes(call.st, a, tEFE))
				if len(b) != 32 {
					return nil
				}
				n = append(n, canonNum(b, call.st.facts))
			}
			p, st := c.efe(call.st, modLFamily(padd(pmul(n[0], n[1]), n[2])).polys(), "fresh")
			return one(st, p)
		}
	}
}

func (c *Checker) installMul() {
	g := c.geShape()
	bp, st0 := c.basePoint()
	for _, slot := range []int{g.single, g.double} {
		rows, _ := c.tableRows(st0, bp, slot)
		for i, r := range rows {
			for j, o := range r {
				c.entries()[o] = &tableEntry{tauOf("B", pInt(1)), slot, i, j}
			}
		}
	}
	pre := func(name string, slot int) {
		fn := c.P.fn(tGE + "." + name)
		if fn == nil {
			return
		}
		c.e.contracts[fn] = func(call *Call) []Branch {
			p, ok := call.args[0].(PtrV)
			if !ok || p.obj == 0 {
				return nil
			}
			s, ok := c.geStruct(call.st, p)
			if !ok {
				return nil
			}
			if n, k := isNilVal(s.f[slot]); !k || !n {
				return nil
			}
			cs, tau, err := c.recognise(call.st, p)
			if err != nil || cs != c.cs("P3") {
				panic(undecided("%s on a point that is not recognised: %v, called from %s", fnName(fn), err, call.where()))
			}
			st := call.st
			mk := func(label string, v []Val) SliceV {
				id := c.e.newObj(label, "fresh", nil)
				st.set(id, ArrayV{v})
				n := pInt(int64(len(v)))
				return SliceV{obj: id, off: pInt(0), len: n, cap: n}
			}
			row := func(i int) SliceV {
				var l []Val
				for j := 0; j < 8; j++ {
					id := c.e.newObj("table entry", "fresh", nil)
					c.e.base[id] = UnkV{"entry of a table of " + c.tauString(tau)}
					c.entries()[id] = &tableEntry{tau, slot, i, j}
					l = append(l, PtrV{obj: id})
				}
				return mk("table row", l)
			}
			table := row(0)
			if slot == g.single {
				l := []Val{table}
				for i := 1; i < 32; i++ {
					l = append(l, row(i))
				}
				table = mk("table", l)
			}
			c.e.noteWrite(call.st, p.obj, nil, call.site)
			path := append(append([]int(nil), p.path...), slot)
			c.e.storeAt(call.st, p.obj, path, nil, table)
			return one(call.st, nil)
		}
	}
	pre("PrecomputeForScalarMultiplication", g.single)
	pre("PrecomputeForDoubleScalarMultiplication", g.double)
	table := func(call *Call, v Val, slot int) *Tau {
		if isNilPtr(v) {
			return nil
		}
		return c.tableOf(call.st, v, slot)
	}
	result := func(call *Call, cs string, tau *Tau, deps []int32) []Branch {
		l := c.pointLimbs(c.cs(cs), tau, "mul:"+tau.Key(), c.boundIv(c.cs(cs)), deps)
		p := c.mkGE(call.st, "product", "fresh", c.cs(cs), l)
		return one(call.st, TupleV{p, IfaceV{}})
	}
	if fn := c.P.fn(tGE + ".scalarMultiply"); fn != nil {
		c.e.contracts[fn] = func(call *Call) []Branch {
			t := table(call, call.args[0], g.single)
			if t == nil || isNilPtr(call.args[1]) {
				return nil
			}
			n, b := c.numOfScalar(call, call.args[1], 255)
			tau := tauMap(t, func(p *Poly) *Poly { return pmul(p, n) })
			return result(call, "P3", tau, append(famDeps([][]*Poly{b}), tauDeps(t)...))
		}
	}
	if fn := c.P.fn(tGE + ".doubleScalarMultiplyVariableTime"); fn != nil {
		c.e.contracts[fn] = func(call *Call) []Branch {
			tb := table(call, call.args[0], g.double)
			ta := table(call, call.args[1], g.double)
			if tb == nil || ta == nil || isNilPtr(call.args[2]) || isNilPtr(call.args[3]) {
				return nil
			}
			na, ba := c.numOfScalar(call, call.args[2], 253)
			nb, bb := c.numOfScalar(call, call.args[3], 253)
			tau := tauSub(tauMap(tb, func(p *Poly) *Poly { return pmul(p, nb) }), tauMap(ta, func(p *Poly) *Poly { return pmul(p, na) }))
			return result(call, "P2", tau, append(famDeps([][]*Poly{ba, bb}), tauDeps(ta)...))
		}
	}
}

func tauDeps(t *Tau) []int32 {
	m := map[int32]bool{}
	for _, x := range t.t {
		depSyms(x.c, m)
		for _, d := range pointDeps[x.pt] {
			m[d] = true
		}
	}
	var r []int32
	for s := range m {
		r = append(r, s)
	}
	return r
}

// ---- protocol values --------------------------------------------------------

// anyBytes: a byte slice of any length.
func (c *Checker) anyBytes(st *State, name string) (SliceV, *Rope, *Poly) {
	a := newArr(name)
	n := symKeyed("len:"+name, "", func() *Sym { return newSym("len("+name+")", b0, bi(1<<40)) })
	r := ropeArr(a, pInt(0), pSym(n))
	save := c.e.ownNew
	c.e.ownNew = "caller"
	s := c.e.newBytes(st, name, r)
	c.e.ownNew = save
	c.e.objs[s.obj].nilIf = pSym(n)
	return s, r, pSym(n)
}

func (c *Checker) one(outs []Outcome, what string) Outcome {
	if len(outs) != 1 || outs[0].pan != nil {
		if len(outs) == 1 {
			panic(undecided("%s panics: %s", what, outs[0].pan.desc))
		}
		panic(undecided("%s has %d outcomes", what, len(outs)))
	}
	return outs[0]
}

func (c *Checker) privKey(st *State, raw SliceV) (Val, *State) {
	o := c.one(c.call(st, c.mustFn("NewPrivateKey"), raw), "NewPrivateKey")
	return o.vals[0], o.st
}
func (c *Checker) pubKey(st *State, raw SliceV) (Val, *State) {
	o := c.one(c.call(st, c.mustFn("NewPublicKey"), raw), "NewPublicKey")
	return o.vals[0], o.st
}

// keyPair: a pair around the two keys (nil for an absent one)
func (c *Checker) keyPair(st *State, priv, pub Val) PtrV {
	v := c.mk("KeyPair", map[string]Val{"PrivateKey": priv, "PublicKey": pub})
	return c.ptrTo(st, "key pair", "caller", v, c.P.typ("KeyPair"))
}

// digestOf a rope
func sha512Of(r *Rope, f *Facts) []*Poly { return hashFamily("sha3-512", 64, r, f).polys() }

// clampedOf: the clamped scalar of the private key bytes, as a number
func clampedOf(key *Rope, f *Facts) *Poly {
	d := sha512Of(key, f)
	b := append([]*Poly(nil), d[:32]...)
	b[0] = pscale(pfloor(b[0], 3, f), bi(8))
	b[31] = padd(pmod2k(b[31], 6, f), pInt(64))
	return canonNum(b, f)
}

// canonNum: the number of the bytes in a canonical form
func canonNum(b []*Poly, f *Facts) *Poly { return collapse(expand(collapse(valueLE(b)), f)) }

func compressedTau(t *Tau) []*Poly {
	x, y := tauXY(t)
	return compressed(x, y)
}

// sameBytes: the bytes of the slice are the rope, under the facts
func (c *Checker) sameBytes(st *State, v Val, want *Rope) (bool, string) {
	s, ok := v.(SliceV)
	if !ok {
		return false, fmt.Sprintf("it is %T", v)
	}
	got := c.e.ropeOf(st, s).norm(st.facts)
	if s.obj == 0 {
		got = &Rope{}
	}
	w := want.norm(st.facts)
	if got.Key() == w.Key() || condHolds(ropeEqCond(got, w, st.facts), st.facts) {
		return true, ""
	}
	return false, fmt.Sprintf("it is %s instead of %s", clip(got.String()), clip(w.String()))
}

func (c *Checker) field(st *State, v Val, typ, f string) Val {
	if p, ok := v.(PtrV); ok {
		if p.obj == 0 {
			panic(undecided("%s is nil", typ))
		}
		v = c.e.load(st, p)
	}
	s, ok := v.(StructV)
	if !ok {
		panic(undecided("%s is %T", typ, v))
	}
	return s.f[c.fieldIdx(typ, f)]
}

// pathName
func pathName(where string, i, n int) string { return fmt.Sprintf("%s, path %d of %d", where, i+1, n) }

// isErr: (failed, known)
func isErr(v Val) (bool, bool) {
	n, k := isNilVal(v)
	return !n, k
}

func init() {
	// C06: DerivePublicKey
	reg("proto.derive", []string{"protocol"}, func(c *Checker) {
		fn := c.mustFn("Ed25519KeyGenerator.DerivePublicKey")
		c.try("public key", fnName(fn), func() {
			st := c.e.newState()
			raw, rope, _ := c.anyBytes(st, "private key")
			priv, st := c.privKey(st, raw)
			gen := c.one(c.call(st, c.mustFn("NewEd25519KeyGenerator"), IfaceV{}), "NewEd25519KeyGenerator")
			outs := c.bound("Ed25519KeyGenerator.DerivePublicKey", gen.vals[0])(gen.st, priv)
			c.ob("returns", fnName(fn), len(outs) > 0, "no path returns")
			for i, o := range outs {
				w := pathName(fnName(fn), i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				want := compressedTau(tauOf("B", clampedOf(rope, o.st.facts)))
				ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "PublicKey", "Raw"), ropeBytes(want))
				c.ob("the public key is the encoding of the clamped hash half times B", w, ok, "%s", why)
			}
		})
	})

	// C03: Sign
	reg("proto.sign", []string{"protocol"}, func(c *Checker) {
		c.signCheck(fnName(c.mustFn("Ed25519DsaSigner.Sign")), func(st *State, kp PtrV) (*State, callee) {
			sg := c.one(c.call(st, c.mustFn("NewEd25519DsaSigner"), kp), "NewEd25519DsaSigner")
			return sg.st, c.bound("Ed25519DsaSigner.Sign", sg.vals[0])
		})
	})

	// C02, C05: Verify
	reg("proto.verify", []string{"protocol"}, func(c *Checker) {
		fn := c.mustFn("Ed25519DsaSigner.Verify")
		where := fnName(fn)
		setup := func() (*State, Val, []*Poly, SliceV, *Rope) {
			st := c.e.newState()
			mraw, mrope, _ := c.anyBytes(st, "message")
			ab := symBytes("ver.A", 32)
			pub, st := c.pubKey(st, c.newSlice(st, "public key", "caller", ab))
			sg := c.one(c.call(st, c.mustFn("NewEd25519DsaSigner"), c.keyPair(st, PtrV{}, pub)), "NewEd25519DsaSigner")
			return sg.st, sg.vals[0], ab, mraw, mrope
		}
		sig := func(st *State, r, s Val) PtrV {
			v := c.mk("Signature", map[string]Val{"R": r, "S": s})
			return c.ptrTo(st, "signature", "caller", v, c.P.typ("Signature"))
		}
		reject := func(name string, mk func(st *State) (Val, bool)) {
			w0 := where + ", " + name
			c.try("rejects", w0, func() {
				st, sg, _, m, _ := setup()
				s, ok := mk(st)
				if !ok {
					return
				}
				outs := c.bound("Ed25519DsaSigner.Verify", sg)(st, m, s)
				c.ob("returns", w0, len(outs) > 0, "no path returns")
				for i, o := range outs {
					w := pathName(w0, i, len(outs))
					if o.pan != nil {
						c.fail("no panic", w, "panics: %s", o.pan.desc)
						continue
					}
					c.ob("is rejected", w, decideIs(o.vals[0].(BoolV).c, false, o.st.facts), "it may be accepted")
				}
			})
		}
		nilSlice := SliceV{off: pInt(0), len: pInt(0), cap: pInt(0)}
		anyLen := func(st *State, name string, below bool) SliceV {
			s, _, n := c.anyBytes(st, name)
			cd := condGE(psub(n, pInt(33)))
			if below {
				cd = condGE(psub(pInt(31), n))
			}
			f, ok := assume(cd, true, st.facts)
			if !ok {
				panic(undecided("length of %s", name))
			}
			st.facts = f
			return s
		}
		reject("a nil signature", func(st *State) (Val, bool) { return PtrV{}, true })
		for _, b := range []bool{true, false} {
			b := b
			n := map[bool]string{true: "shorter", false: "longer"}[b]
			reject("R "+n+" than 32 bytes", func(st *State) (Val, bool) {
				s, _, _ := c.anyBytes(st, "sig.S")
				return sig(st, anyLen(st, "sig.R", b), s), true
			})
			reject("S "+n+" than 32 bytes", func(st *State) (Val, bool) {
				return sig(st, c.newSlice(st, "R", "caller", symBytes("ver.R", 32)), anyLen(st, "sig.S", b)), true
			})
		}
		reject("nil R", func(st *State) (Val, bool) {
			s, _, _ := c.anyBytes(st, "sig.S")
			return sig(st, nilSlice, s), true
		})
		reject("nil S", func(st *State) (Val, bool) {
			return sig(st, c.newSlice(st, "R", "caller", symBytes("ver.R", 32)), nilSlice), true
		})
		c.try("short public keys", where, func() {
			w0 := where + ", a public key shorter than 32 bytes"
			st := c.e.newState()
			m, _, _ := c.anyBytes(st, "message")
			pub, st := c.pubKey(st, anyLen(st, "ver.key", true))
			sg := c.one(c.call(st, c.mustFn("NewEd25519DsaSigner"), c.keyPair(st, PtrV{}, pub)), "NewEd25519DsaSigner")
			s := sig(sg.st, c.newSlice(sg.st, "R", "caller", symBytes("ver.R", 32)), c.newSlice(sg.st, "S", "caller", symBytes("ver.S", 32)))
			outs := c.bound("Ed25519DsaSigner.Verify", sg.vals[0])(sg.st, m, s)
			c.ob("returns", w0, len(outs) > 0, "no path returns")
			for i, o := range outs {
				w := pathName(w0, i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				c.ob("is rejected", w, decideIs(o.vals[0].(BoolV).c, false, o.st.facts), "it may be accepted")
			}
		})
		c.verifyCheck(where, func(st *State, kp PtrV) (*State, callee) {
			sg := c.one(c.call(st, c.mustFn("NewEd25519DsaSigner"), kp), "NewEd25519DsaSigner")
			return sg.st, c.bound("Ed25519DsaSigner.Verify", sg.vals[0])
		})
	})

	// C04
	reg("proto.canonical", []string{"scalar.contracts"}, func(c *Checker) {
		setup := func() (*State, Val, PtrV, []*Poly, []*Poly) {
			st := c.e.newState()
			pub, st := c.pubKey(st, c.newSlice(st, "public key", "caller", symBytes("can.A", 32)))
			sg := c.one(c.call(st, c.mustFn("NewEd25519DsaSigner"), c.keyPair(st, PtrV{}, pub)), "NewEd25519DsaSigner")
			st = sg.st
			rb, sb := symBytes("can.R", 32), symBytes("can.S", 32)
			v := c.mk("Signature", map[string]Val{"R": c.newSlice(st, "R", "caller", rb), "S": c.newSlice(st, "S", "caller", sb)})
			return st, sg.vals[0], c.ptrTo(st, "signature", "caller", v, c.P.typ("Signature")), rb, sb
		}
		fn := c.mustFn("Ed25519DsaSigner.IsCanonicalSignature")
		where := fnName(fn)
		c.try("canonical", where, func() {
			st, sg, s, _, sb := setup()
			n := valueLE(sb)
			lo, hi := condGE(psub(n, pInt(1))), condGE(psub(pConst(new(big.Int).Sub(groupL, b1)), n))
			outs := c.bound("Ed25519DsaSigner.IsCanonicalSignature", sg)(st, s)
			yes, no := 0, 0
			for i, o := range outs {
				w := pathName(where, i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				for _, a := range c.e.splitOrKnown(o.vals[0].(BoolV).c, o.st.facts) {
					if a.v {
						yes++
						c.ob("canonical only when 0 < S < L", w, condHolds(lo, a.f) && condHolds(hi, a.f), "reported canonical under %s", clip(factsString(a.f)))
					} else {
						no++
						c.ob("not canonical only when S = 0 or S >= L", w, decideIs(lo, false, a.f) || decideIs(hi, false, a.f), "reported not canonical under %s", clip(factsString(a.f)))
					}
				}
			}
			c.ob("both answers occur", where, yes > 0 && no > 0, "%d yes, %d no", yes, no)
		})
		fm := c.mustFn("Ed25519DsaSigner.MakeSignatureCanonical")
		where2 := fnName(fm)
		c.try("canonicalising", where2, func() {
			st, sg, s, rb, sb := setup()
			outs := c.bound("Ed25519DsaSigner.MakeSignatureCanonical", sg)(st, s)
			c.ob("returns", where2, len(outs) > 0, "no path returns")
			for i, o := range outs {
				w := pathName(where2, i, len(outs))
				if o.pan != nil {
					c.fail("no panic", w, "panics: %s", o.pan.desc)
					continue
				}
				bad, known := isErr(o.vals[1])
				if !c.ob("canonicalising succeeds", w, known && !bad, "it returns an error") {
					continue
				}
				ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "R"), ropeBytes(rb))
				c.ob("R is kept", w, ok, "%s", why)
				ok, why = c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "S"), ropeBytes(modLFamily(valueLE(sb)).polys()))
				c.ob("S is reduced modulo L", w, ok, "%s", why)
			}
		})
	})
}

// signature: the bytes of R and S of the deterministic signature
func (c *Checker) signature(key *Rope, ab []*Poly, m *Rope, f *Facts) ([]*Poly, []*Poly) {
	d := sha512Of(key, f)
	r := modLFamily(collapse(valueLE(sha512Of(ropeCat(ropeBytes(d[32:]), m), f))))
	R := compressedTau(tauOf("B", pSym(r.num)))
	h := modLFamily(collapse(valueLE(sha512Of(ropeCat(ropeCat(ropeBytes(R), ropeBytes(ab)), m), f))))
	S := modLFamily(padd(pmul(pSym(h.num), clampedOf(key, f)), pSym(r.num)))
	return R, S.polys()
}

// callee: a function or method that the property is about, with its receiver
type callee func(st *State, args ...Val) []Outcome

func (c *Checker) bound(name string, recv Val) callee {
	fn := c.mustFn(name)
	return c.hist(func(st *State, args ...Val) []Outcome { return c.call(st, fn, append([]Val{recv}, args...)...) })
}

// free: a function without receiver
func (c *Checker) free(name string) callee {
	fn := c.mustFn(name)
	return c.hist(func(st *State, args ...Val) []Outcome { return c.call(st, fn, args...) })
}

// method of an interface value or of a pointer to a type of the package
func (c *Checker) method(recv Val, iface, name string) callee {
	r, ok := recv.(IfaceV)
	if !ok {
		panic(undecided("%s is %T, not an interface value", iface, recv))
	}
	it, ok := c.P.typ(iface).Underlying().(*types.Interface)
	if !ok {
		panic(undecided("%s is not an interface", iface))
	}
	for i := 0; i < it.NumMethods(); i++ {
		if m := it.Method(i); m.Name() == name {
			return c.hist(func(st *State, args ...Val) []Outcome {
				var outs []Outcome
				for _, b := range c.e.invoke(st, r, m, args, nil, nil) {
					o := Outcome{st: b.st, pan: b.pan}
					if t, ok := b.v.(TupleV); ok {
						o.vals = t
					} else if b.pan == nil {
						o.vals = []Val{b.v}
					}
					outs = append(outs, o)
				}
				return outs
			})
		}
	}
	panic(undecided("%s has no method %s", iface, name))
}

// signCheck: the signer signs with the deterministic scheme
func (c *Checker) signCheck(where string, mk func(st *State, kp PtrV) (*State, callee)) {
	c.try("signature", where, func() {
		st := c.e.newState()
		kraw, krope, _ := c.anyBytes(st, "private key")
		mraw, mrope, _ := c.anyBytes(st, "message")
		ab := symBytes("sign.A", 32)
		priv, st := c.privKey(st, kraw)
		pub, st := c.pubKey(st, c.newSlice(st, "public key", "caller", ab))
		kp := c.keyPair(st, priv, pub)
		st, sign := mk(st, kp)
		outs := sign(st, mraw)
		good := 0
		for i, o := range outs {
			w := pathName(where, i, len(outs))
			if o.pan != nil {
				c.fail("no panic", w, "panics: %s", o.pan.desc)
				continue
			}
			f := o.st.facts
			R, S := c.signature(krope, ab, mrope, f)
			bad, known := isErr(o.vals[1])
			if !known {
				c.fail("outcome is known", w, "unknown error value")
				continue
			}
			if bad {
				nS := collapse(valueLE(S))
				c.ob("signing fails only when S would be zero", w, condHolds(condEQ(nS), f), "it fails under %s", clip(factsString(f)))
				continue
			}
			good++
			ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "R"), ropeBytes(R))
			c.ob("R is the encoding of r*B", w, ok, "%s", why)
			ok, why = c.sameBytes(o.st, c.field(o.st, o.vals[0], "Signature", "S"), ropeBytes(S))
			c.ob("S is r + h*a mod L", w, ok, "%s", why)
			for _, ev := range o.st.events() {
				if ev.kind == "read" {
					c.fail("signing is deterministic", w, "randomness is read at %s", ev.at)
				}
			}
		}
		c.ob("signing succeeds", where, good > 0, "no path returns a signature")
	})
}

// verifyCheck: the verifier accepts exactly the signatures that satisfy the equation
func (c *Checker) verifyCheck(where string, mk func(st *State, kp PtrV) (*State, callee)) {
	c.try("verification", where, func() {
		st := c.e.newState()
		m, mrope, _ := c.anyBytes(st, "message")
		ab := symBytes("ver.A", 32)
		pub, st := c.pubKey(st, c.newSlice(st, "public key", "caller", ab))
		st, verify := mk(st, c.keyPair(st, PtrV{}, pub))
		rb, sb := symBytes("ver.R", 32), symBytes("ver.S", 32)
		sv := c.mk("Signature", map[string]Val{"R": c.newSlice(st, "R", "caller", rb), "S": c.newSlice(st, "S", "caller", sb)})
		outs := verify(st, m, c.ptrTo(st, "signature", "caller", sv, c.P.typ("Signature")))
		yes, no := 0, 0
		for i, o := range outs {
			w := pathName(where, i, len(outs))
			if o.pan != nil {
				c.fail("no panic", w, "panics: %s", o.pan.desc)
				continue
			}
			for _, alt := range c.boolAlts(o, 0) {
				res, f := alt.v, alt.f
				h := modLFamily(collapse(valueLE(sha512Of(ropeCat(ropeCat(ropeBytes(rb), ropeBytes(ab)), mrope), f))))
				nS := valueLE(sb)
				tau := tauSub(tauOf("B", nS), tauOf(decNameF(ab, f), pSym(h.num)))
				conds := []struct {
					name string
					c    *Cond
				}{
					{"S > 0", condGE(psub(nS, pInt(1)))},
					{"S < L", condGE(psub(pConst(new(big.Int).Sub(groupL, b1)), nS))},
					{"A is not all zero", cnot(ropeEqCond(ropeBytes(ab), ropeBytes(constPolys(make([]byte, 32))), f))},
					{"A is a point", decCondF(ab, f)},
					{"R is the encoding of S*B - h*A", ropeEqCond(ropeBytes(rb), ropeBytes(compressedTau(tau)), f)},
				}
				if res {
					yes++
					for _, x := range conds {
						c.ob("accepted only when "+x.name, w, condHolds(x.c, f), "it does not follow from the path conditions %s", clip(factsString(f)))
					}
					continue
				}
				no++
				bad := ""
				var all []*Cond
				for _, x := range conds {
					if decideIs(x.c, false, f) {
						bad = x.name
					}
					all = append(all, x.c)
				}
				c.ob("rejected only when a condition fails", w, bad != "" || impossible(f, all...), "rejected under %s", clip(factsString(f)))
			}
		}
		c.ob("verification accepts and rejects", where, yes > 0 && no > 0, "%d accepting and %d rejecting paths", yes, no)
	})
}
