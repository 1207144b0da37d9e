package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// C12/C17: contracts of encoding and decoding, and what point compression and decompression compute on top of them.

// pointDeps: the symbols that a named point is a function of.
var pointDeps = map[string][]int32{}

// compressedOf: the point whose compressed form these bytes are.
func compressedOf(b []*Poly, f *Facts) (*Tau, bool) {
	fam := encFamOf(b, f)
	if fam == nil {
		return nil, false
	}
	v := fexpand(fam.val)
	if len(v.t) != 1 || len(v.t[0].m) != 1 || v.t[0].c.Cmp(b1) != 0 {
		return nil, false
	}
	ay := atoms[v.t[0].m[0].a]
	if ay.kind != aPtY || v.t[0].m[0].e.Cmp(b1) != 0 {
		return nil, false
	}
	top := psub(normPoly(b[31], f), pSym(fam.s[31]))
	for _, sg := range []int64{1, -1} {
		x := fscale(fAtom(atoms[ay.pair]), bi(sg))
		if normPoly(psub(top, pscale(parityOf(encFamily(x).polys()), pow2(7))), f).isZero() {
			return tauScale(ay.tau, pInt(sg)), true
		}
	}
	return nil, false
}

// parityOf: the lowest bit of little-endian bytes
func parityOf(b []*Poly) *Poly { return pmod2k(b[0], 1, nil) }

// compressed: the 32 bytes of the compressed form of the affine point (x, y)
func compressed(x, y *FPoly) []*Poly {
	r := encFamily(y).polys()
	r[31] = padd(r[31], pscale(parityOf(encFamily(x).polys()), pow2(7)))
	return r
}

// encWithTop: bytes that are the encoding of v, but for a top bit that decoding drops
func encWithTop(b []*Poly, f *Facts) *FPoly {
	fam := encFamOf(b, f)
	if fam == nil {
		return nil
	}
	d := normPoly(psub(b[31], pSym(fam.s[31])), f)
	// d is 0 or 128
	for _, t := range d.t {
		if new(big.Int).Mod(t.c, bi(128)).Sign() != 0 {
			return nil
		}
	}
	need := Iv{b0, bi(128)}
	if !bounds(d, f, stepsDeep, &need).within(b0, bi(128)) {
		return nil
	}
	return fam.val
}

// encFamOf: the family whose bytes the first 31 of these 32 are (some of them may be known); the last one mentions
// its last byte or is known as well.
func encFamOf(b []*Poly, f *Facts) *Family {
	if len(b) != 32 {
		return nil
	}
	var fam *Family
	for i := 0; i < 32 && fam == nil; i++ {
		for _, s := range normPoly(b[i], f).syms() {
			if y := syms[s]; y.fam != nil && y.fam.kind == "enc" && y.famIdx == i {
				fam = y.fam
			}
		}
	}
	if fam == nil {
		return nil
	}
	for i := 0; i < 31; i++ {
		if normPoly(b[i], f).Key() != normPoly(pSym(fam.s[i]), f).Key() {
			return nil
		}
	}
	return fam
}

// decValue: the field value that decoding 32 bytes gives
func decValue(b []*Poly, f *Facts) *FPoly {
	if allConst(b) {
		n, _ := valueLE(b).isConst()
		n = new(big.Int).And(n, new(big.Int).Sub(pow2(255), b1))
		return fConst(n)
	}
	if v := encWithTop(b, f); v != nil {
		return v
	}
	num := pcomb(valueLE(b), new(big.Int).Neg(pow2(255)), pfloor(b[31], 7, f))
	return fieldOf(num, f)
}

func (c *Checker) installEncode() {
	if fn := c.P.fn(tFE + ".Encode"); fn != nil && c.groups["field.encode"].ok {
		c.e.contracts[fn] = func(call *Call) []Branch {
			if isNilPtr(call.args[0]) {
				return nil
			}
			l := c.limbs(call.st, call.args[0])
			if allConst(l) {
				return nil
			}
			if i, ok := limbsWithin(l, encInNum, encInDen, call.st.facts); !ok {
				panic(undecided("the operand of %s may exceed the limb bound at limb %d, called from %s", fnName(fn), i, call.where()))
			}
			p, st := c.efe(call.st, encFamily(fexpand(c.value(l, call.st.facts))).polys(), "fresh")
			return one(st, p)
		}
	}
	if fn := c.P.fn(tEFE + ".Decode"); fn != nil && c.groups["field.decode"].ok {
		c.e.contracts[fn] = func(call *Call) []Branch {
			if isNilPtr(call.args[0]) {
				return nil
			}
			b := c.normBytes(call.st, c.rawBytes(call.st, call.args[0], tEFE))
			if allConst(b) || len(b) != 32 {
				return nil
			}
			v := decValue(b, call.st.facts)
			l := limbFamily("dec:"+polysKey(b), v, fam101, famDeps([][]*Poly{b})).polys()
			return c.retFE(call, l)
		}
	}
}

// discoverTests finds the functions that tell whether a field element is zero or odd and installs their contracts.
func (c *Checker) discoverTests() {
	zero := func(v *FPoly) *Cond { return condFZero(v) }
	odd := func(v *FPoly) *Cond { return condEQ(psub(parityOf(encFamily(fexpand(v)).polys()), pInt(1))) }
	tests := []struct {
		name string
		cond func(v *FPoly) *Cond
	}{
		{"f = 0", zero},
		{"f != 0", func(v *FPoly) *Cond { return cnot(zero(v)) }},
		{"f is odd", odd},
		{"f is even", func(v *FPoly) *Cond { return cnot(odd(v)) }},
	}
	for _, fn := range c.repoFuncs() {
		fn := fn
		if c.e.contracts[fn] != nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if n, _ := namedOf(fn.Params[0].Type()); n != tFE {
			continue
		}
		if b, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		c.quiet(func() {
			a := fAtom(getAtom("tested value", nil))
			outs := c.call(c.e.newState(), fn, c.feVal(feAtom(a, "tested", encInNum)))
			for _, t := range tests {
				want := t.cond(a)
				seen := map[bool]bool{}
				good := true
				for _, o := range outs {
					if o.pan != nil {
						return
					}
					for _, x := range c.boolAlts(o, 0) {
						seen[x.v] = true
						good = good && decideIs(want, x.v, x.f)
					}
				}
				if !good || !seen[true] || !seen[false] {
					continue
				}
				t := t
				c.notes[fnName(fn)+": "+t.name] = true
				c.e.contracts[fn] = func(call *Call) []Branch {
					if isNilPtr(call.args[0]) {
						return nil
					}
					l := c.limbs(call.st, call.args[0])
					if _, ok := limbsWithin(l, encInNum, encInDen, call.st.facts); !ok || allConst(l) {
						return nil
					}
					return one(call.st, BoolV{t.cond(c.value(l, call.st.facts))})
				}
				return
			}
		})
	}
}

func (c *Checker) normBytes(st *State, b []*Poly) []*Poly {
	return normPolys(b, st.facts)
}

// ege builds an encoded group element through the constructor of the package.
func (c *Checker) ege(st *State, b []*Poly, owner string) (PtrV, *State) {
	fn := c.mustFn("NewEd25519EncodedGroupElement")
	outs := c.call(st, fn, c.newSlice(st, "encoded group element bytes", owner, b))
	if len(outs) != 1 || outs[0].pan != nil || len(outs[0].vals) != 2 {
		panic(undecided("NewEd25519EncodedGroupElement does not accept %d bytes", len(b)))
	}
	p, ok := outs[0].vals[0].(PtrV)
	if !ok || p.obj == 0 {
		panic(undecided("NewEd25519EncodedGroupElement rejects %d bytes", len(b)))
	}
	return p, outs[0].st
}

func nameIf(p *FPoly) *FPoly {
	if len(p.t) > 1 {
		return fAtom(nameF(p))
	}
	return p
}

func init() {
	reg("encode.contracts", []string{"field.encode", "field.decode", "field.ops", "field.invert"}, func(c *Checker) {
		c.installEncode()
		a := getAtom("encode a", nil)
		fn := c.mustFn(tFE + ".Encode")
		outs := c.callC(c.e.newState(), fn, c.feVal(feAtom(fAtom(a), "a", encInNum)))
		ok := len(outs) == 1 && outs[0].pan == nil
		if ok {
			v := encOf(c.rawBytes(outs[0].st, outs[0].vals[0], tEFE))
			ok = v != nil && v.Key() == fAtom(a).Key()
		}
		c.ob("encoding has a usable contract", fnName(fn), ok, "")
		c.discoverTests()
	})

	reg("group.encode", []string{"encode.contracts", "group.convert"}, func(c *Checker) {
		fn := c.mustFn(tGE + ".Encode")
		for _, cs := range []string{"P2", "P3", "P1xP1"} {
			where := fnName(fn) + " of " + cs
			c.try("compressed form is y with the parity of x", where, func() {
				st := c.e.newState()
				p, tau := c.genericPoint(st, c.cs(cs), "E")
				x, y := tauXY(tau)
				want := compressed(x, y)
				outs := c.call(st, fn, p)
				if len(outs) == 0 {
					c.fail("returns", where, "no path returns")
				}
				for _, o := range outs {
					if o.pan != nil {
						c.fail("no panic", where, "panics: %s", o.pan.desc)
						continue
					}
					v, er := geResult(o)
					if er != nil && !isNilPtr(er) {
						c.fail("no error", where, "returns an error")
						continue
					}
					b := c.normBytes(o.st, c.rawBytes(o.st, v, tEGE))
					if !c.ob("32 bytes", where, len(b) == 32, "%d bytes", len(b)) {
						continue
					}
					for i := range b {
						c.ob("compressed form is y with the parity of x", fmt.Sprintf("%s, byte %d", where, i), condHolds(condEQ(psub(b[i], want[i])), o.st.facts), "byte is %s, expected %s", clip(b[i].String()), clip(want[i].String()))
					}
				}
			})
		}
	})

	reg("group.decode", []string{"encode.contracts", "group.convert"}, func(c *Checker) {
		// -1/d is not a square, so d*y^2+1 is never zero
		euler := new(big.Int).Exp(new(big.Int).Mul(new(big.Int).Neg(b1), curveDInv), new(big.Int).Rsh(pm1, 1), fieldP)
		c.ob("-1/d is not a square", "curve constant", euler.Cmp(pm1) == 0, "")
		fn := c.mustFn(tEGE + ".Decode")
		where := fnName(fn)
		b := symBytes("cmp.b", 32)
		p, st := c.ege(c.e.newState(), b, "caller")
		c.facts["decodeIv"] = c.decompressed(where, b, c.call(st, fn, p))
	})

	// the contract of decompression
	reg("decode.contract", []string{"group.decode", "group.encode"}, func(c *Checker) {
		iv := c.facts["decodeIv"].([4][10]Iv)
		fn := c.mustFn(tEGE + ".Decode")
		c.e.contracts[fn] = func(call *Call) []Branch {
			if isNilPtr(call.args[0]) {
				return nil
			}
			raw, ok := c.e.bytesOf(call.st, c.field(call.st, call.args[0], tEGE, "Raw").(SliceV))
			if !ok {
				return nil // of any length: what it does is seen in its body
			}
			b := c.normBytes(call.st, raw)
			if allConst(b) || len(b) != 32 {
				return nil
			}
			if tau, ok := compressedOf(b, call.st.facts); ok {
				return c.decodedPoint(call, call.st, tau, "dec", iv, famDeps([][]*Poly{b}))
			}
			name := decName(b)
			pointDeps[name] = famDeps([][]*Poly{b})
			var r []Branch
			for _, a := range c.e.splitOrKnown(decCond(b), call.st.facts) {
				st := call.st.clone()
				st.facts = a.f
				if !a.v {
					r = append(r, Branch{st: st, v: TupleV{PtrV{}, c.e.newError("not a curve point", nil, st)}})
					continue
				}
				r = append(r, c.decodedPoint(call, st, tauOf(name, pInt(1)), "dec", iv, pointDeps[name])...)
			}
			return r
		}
		st := c.e.newState()
		b := symBytes("cmp.b", 32)
		p, st := c.ege(st, b, "caller")
		outs := c.callC(st, fn, p)
		c.ob("decompression has a usable contract", fnName(fn), len(outs) == 2, "%d outcomes", len(outs))
	})
}

// decompressed: the outcomes of decompressing the 32 bytes are those of the definition; the bounds of the limbs
func (c *Checker) decompressed(where string, b []*Poly, outs []Outcome) [4][10]Iv {
	y := decValue(b, nil)
	u := fsub(fmul(y, y), fInt(1))
	v := fadd(fscale(fmul(y, y), curveD), fInt(1))
	bit := pfloor(b[31], 7, nil)
	ok, bad := 0, 0
	var iv [4][10]Iv
	for n, o := range outs {
		w := fmt.Sprintf("%s, path %d of %d", where, n+1, len(outs))
		if o.pan != nil {
			c.fail("no panic", w, "panics: %s", o.pan.desc)
			continue
		}
		if len(o.vals) != 2 {
			panic(undecided("%s returns %d values", where, len(o.vals)))
		}
		if !isNilPtr(o.vals[1]) {
			bad++
			c.ob("an error comes without a point", w, isNilPtr(o.vals[0]), "")
			c.ob("rejected only when u/v has no square root", w, c.noRoot(o.st.facts, u, v), "the path conditions do not exclude a square root: %s", clip(factsString(o.st.facts)))
			continue
		}
		ok++
		g, err := c.coords(o.st, o.vals[0])
		if err != nil || g.x == nil || g.y == nil || g.z == nil || g.t == nil {
			c.fail("returns a complete point", w, "%v", err)
			continue
		}
		why := c.foreignTable(o.st, o.vals[0], nil)
		c.ob("a result carries no table of another point", w, why == "", "%s", why)
		c.ob("result is in P3 coordinates", w, g.cs == c.cs("P3"), "it is in %d", g.cs)
		c.ob("y is the decoded y", w, underFacts(fsub(g.y, y), o.st.facts).isZero(), "y is %s, expected %s, difference %s", g.y, y, underFacts(fsub(g.y, y), o.st.facts))
		c.ob("Z is one", w, fexpand(fsub(g.z, fInt(1))).isZero(), "Z is %s", g.z)
		c.ob("T is x*y", w, underFacts(fsub(g.t, fmul(g.x, g.y)), o.st.facts).isZero(), "T is %s", g.t)
		c.ob("x solves the curve equation", w, condHolds(condFZero(fsub(fmul(fmul(g.x, g.x), nameIf(v)), nameIf(u))), o.st.facts), "v*x^2 = u does not follow from the path conditions: %s", clip(factsString(o.st.facts)))
		c.ob("the parity of x is the top bit (x = 0 excepted)", w, c.parityIs(g.x, bit, o.st.facts), "it does not follow from the path conditions: %s", clip(factsString(o.st.facts)))
		ko, li, in := c.operandInBounds(g, o.st.facts)
		c.ob("limbs of the decompressed point are in bounds", w, in, "limb %d of coordinate %d", li, ko)
		for k := range g.l {
			for i := range g.l[k] {
				x := bounds(g.l[k][i], o.st.facts, stepsDeep, nil)
				if x.lo == nil || x.hi == nil {
					continue
				}
				y := &iv[k][i]
				if y.lo == nil || x.lo.Cmp(y.lo) < 0 {
					y.lo = x.lo
				}
				if y.hi == nil || x.hi.Cmp(y.hi) > 0 {
					y.hi = x.hi
				}
			}
		}
	}
	c.ob("points are accepted", where, ok > 0, "no path returns a point")
	c.ob("non-points are rejected", where, bad > 0, "no path returns an error")
	return iv
}

// decNameF, decCondF: the same of bytes some of which are known
func decNameF(b []*Poly, f *Facts) string { return decName(normPolys(b, f)) }

func decCondF(b []*Poly, f *Facts) *Cond { return decCond(normPolys(b, f)) }

func normPolys(b []*Poly, f *Facts) []*Poly {
	r := make([]*Poly, len(b))
	for i, x := range b {
		r[i] = normPoly(x, f)
	}
	return r
}

func decName(b []*Poly) string { return "D:" + polysKey(b) }

func decCond(b []*Poly) *Cond { return condAtom("point:"+polysKey(b), &decDeps{b}) }

type decDeps struct{ b []*Poly }

func (d *decDeps) deps(out map[int32]bool) {
	for _, p := range d.b {
		depSyms(p, out)
	}
}

func (c *Checker) decodedPoint(call *Call, st *State, tau *Tau, key string, iv [4][10]Iv, deps []int32) []Branch {
	l := c.pointLimbs(c.cs("P3"), tau, key+":"+tau.Key(), func(k, i int) Iv { return iv[k][i] }, deps)
	// Z is one
	for i := range l[2] {
		l[2][i] = pInt(0)
	}
	l[2][0] = pInt(1)
	x, y := tauXY(tau)
	for k, v := range []*FPoly{x, y, nil, fmul(x, y)} {
		if v != nil {
			k := k
			l[k] = limbFamily(fmt.Sprintf("pt1.%d:%s:%s", k, key, v.Key()), v, func(i int) Iv { return iv[k][i] }, deps).polys()
		}
	}
	p := c.mkGE(st, "decompressed point", "fresh", c.cs("P3"), l)
	return one(st, TupleV{p, IfaceV{}})
}

// noRoot: the facts exclude v*x^2 = u for every x: a candidate s with v*s^2/u = (u^a v^b)^((p-1)/4), a and b odd,
// is neither a root of +u nor of -u.
func (c *Checker) noRoot(f *Facts, u, v *FPoly) bool {
	un, vn := nameF(u), nameF(v)
	// monomials e with "e - u is not zero" known, and with "e + u is not zero" known
	minus, plus := map[string]*FPoly{}, map[string]bool{}
	for x := f; x != nil; x = x.parent {
		if x.atom == "" || x.aval || !strings.HasPrefix(x.atom, "fz:") {
			continue
		}
		d, ok := x.adat.(*fzData)
		if !ok {
			continue
		}
		for _, t := range d.v.t {
			mono := &FPoly{t: []fterm{{t.m, b1}}}
			for _, sg := range []*big.Int{b1, bm1} {
				if condFZero(fsub(mono, fscale(u, sg))).atom == x.atom {
					if sg.Sign() > 0 {
						minus[mono.Key()] = mono
					} else {
						plus[mono.Key()] = true
					}
				}
			}
		}
	}
	q := new(big.Int).Rsh(pm1, 2)
	for k, e := range minus {
		if !plus[k] {
			continue
		}
		eu, ev := new(big.Int), new(big.Int)
		ok := true
		for _, x := range e.t[0].m {
			switch x.a {
			case un.id:
				eu = x.e
			case vn.id:
				ev = x.e
			default:
				ok = false
			}
		}
		eu = new(big.Int).Sub(eu, b1)
		odd := func(x *big.Int) bool {
			k, r := new(big.Int).QuoRem(x, q, new(big.Int))
			return r.Sign() == 0 && k.Bit(0) == 1
		}
		if ok && odd(eu) && odd(ev) {
			return true
		}
	}
	return false
}

func condHolds(cd *Cond, f *Facts) bool { return decideIs(cd, true, f) }

func decideIs(cd *Cond, want bool, f *Facts) bool {
	v, k := decide(cd, f)
	return k && v == want
}
