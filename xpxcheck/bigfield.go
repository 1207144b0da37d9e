package main

import (
	"math/big"
)

// Big integers modulo p and modulo L: what the reference implementation computes with.

// bigNames: long sums that have been given a name, so that products of them stay products
var bigNames = map[int32]bool{}

// fieldSym: symbols whose residue modulo p is a value of its own
func fieldSym(s int32) bool {
	y := syms[s]
	return bigNames[s] || (y.fam != nil && y.famIdx == -1 && y.fam.kind == "enc")
}

func fieldSymVal(s int32) *FPoly {
	y := syms[s]
	if bigNames[s] {
		return nameIf(fieldOf(y.def, nil))
	}
	if v := factored[y.fam]; v != nil {
		return v
	}
	return nameIf(y.fam.val)
}

func onlyFieldSyms(p *Poly) bool {
	for _, t := range p.t {
		for _, s := range t.m {
			if !fieldSym(s) {
				return false
			}
		}
	}
	return true
}

// nameNum names a sum of more than one term.
func nameNum(p *Poly) *Poly {
	if len(p.t) < 2 || (len(p.t) <= 4 && onlyFieldSyms(p)) {
		return p
	}
	return pSym(symKeyed("bn:"+p.Key(), "", func() *Sym {
		s := newSym("("+p.String()+")", nil, nil)
		s.kind = symNamed
		s.def = p
		iv := bounds(p, nil, stepsCheap, nil)
		s.lo, s.hi = iv.lo, iv.hi
		bigNames[s.id] = true
		return s
	}))
}

// unname replaces the names by the sums.
func unname(p *Poly) *Poly {
	for {
		pick := int32(-1)
		for _, s := range p.syms() {
			if bigNames[s] {
				pick = s
				break
			}
		}
		if pick < 0 {
			return p
		}
		p = psubst(p, pick, syms[pick].def)
	}
}

// residueAtom: the residue modulo p of an integer of which nothing else is known, as a multiple of an atom
func residueAtom(p *Poly) *FPoly {
	p = p.modCoefs(fieldP)
	if p.isZero() {
		return fInt(0)
	}
	c := p.t[0].c
	p = pscale(p, new(big.Int).ModInverse(c, fieldP)).modCoefs(fieldP)
	return fscale(fAtom(getAtom("num:"+p.Key(), func(a *Atom) {
		a.num = p
		m := map[int32]bool{}
		depSyms(p, m)
		for s := range m {
			a.deps = append(a.deps, s)
		}
	})), c)
}

// underFacts: the value with the integers of which it consists normalised under the facts
func underFacts(p *FPoly, f *Facts) *FPoly {
	p = fexpand(p)
	for _, a := range p.atoms() {
		if n := atoms[a].num; n != nil {
			if v := fieldOf(normPoly(n, f), f); v.Key() != fAtom(atoms[a]).Key() {
				p = fsubst(p, a, v)
			}
		}
	}
	return fexpand(p)
}

// fieldOf: the residue of an integer modulo p
func fieldOf(p *Poly, f *Facts) *FPoly {
	p = collapse(p)
	val := fInt(0)
	raw := pInt(0)
	for _, t := range p.t {
		ok := true
		for _, s := range t.m {
			ok = ok && fieldSym(s)
		}
		if !ok {
			raw = pcomb(raw, t.c, &Poly{t: []term{{t.m, b1}}})
			continue
		}
		v := fConst(t.c)
		for _, s := range t.m {
			v = fmul(v, fieldSymVal(s))
		}
		val = fadd(val, v)
	}
	if raw.isZero() {
		return val
	}
	raw = collapse(expand(raw, f))
	if !onlyRaw(raw) {
		return fadd(val, fieldOf(raw, f))
	}
	raw = raw.modCoefs(fieldP)
	if v, ok := sumValue(raw); ok {
		return fadd(val, v)
	}
	k := raw.constTerm()
	return fadd(fadd(val, fConst(k)), residueAtom(psub(raw, pConst(k))))
}

func onlyRaw(p *Poly) bool {
	for _, t := range p.t {
		if len(t.m) == 0 {
			continue
		}
		ok := true
		for _, s := range t.m {
			ok = ok && fieldSym(s)
		}
		if ok {
			return false
		}
	}
	return true
}

// factored: values that are products of powers of named sums, as such
var factored = map[*Family]*FPoly{}

// numModP: the canonical representative of a field value
func numModP(v *FPoly) *Poly {
	w := fclear(v, false)
	v = fexpand(w)
	if k, ok := v.isConst(); ok {
		return pConst(k)
	}
	y := encFamily(v).num
	if fam := syms[y.id].fam; len(w.t) == 1 && len(v.t) > 1 && factored[fam] == nil {
		factored[fam] = w
	}
	return pSym(y)
}

// inRange: is 0 <= p < m known?
func inRange(p *Poly, m *big.Int, f *Facts) bool {
	top := new(big.Int).Sub(m, b1)
	return bounds(p, f, stepsDeep, &Iv{b0, top}).within(b0, top)
}

// bigMod: x mod m
func bigMod(x *Poly, m *big.Int, f *Facts) *Poly {
	if k, ok := x.isConst(); ok {
		return pConst(new(big.Int).Mod(k, m))
	}
	if m.Sign() <= 0 {
		return nil
	}
	if x.single() != nil && inRange(x, m, f) {
		return x
	}
	switch {
	case m.Cmp(fieldP) == 0:
		return numModP(fieldOf(x, f))
	case m.Cmp(groupL) == 0:
		v := collapse(expand(unname(x), f))
		if inRange(v, m, f) {
			return v
		}
		return pSym(modLFamily(v).num)
	case inRange(x, m, f):
		return x
	case new(big.Int).And(m, new(big.Int).Sub(m, b1)).Sign() == 0:
		return collapse(pmod2k(inBytes(unname(x)), uint(m.BitLen()-1), f))
	}
	return nil
}

// inBytes replaces the numbers of byte families by their bytes.
func inBytes(p *Poly) *Poly {
	for _, s := range p.syms() {
		y := syms[s]
		if y.fam != nil && y.famIdx == -1 && y.fam.step == 8 {
			p = psubst(p, s, valueLE(y.fam.polys()))
		}
	}
	return p
}

// bigPow: x^e for small e, by itself; modulo p for any e
func bigPow(x *Poly, e, m *big.Int, f *Facts) *Poly {
	if e.Sign() < 0 {
		return nil
	}
	if m == nil || m.Sign() == 0 {
		if e.BitLen() > 5 {
			return nil
		}
		x = nameNum(x)
		r := pInt(1)
		for i := int64(0); i < e.Int64(); i++ {
			r = pmul(r, x)
		}
		return r
	}
	if m.Cmp(fieldP) != 0 {
		return nil
	}
	return numModP(fpowBig(fieldOf(x, f), e))
}

// modInverse: the branches of z.ModInverse(g, p)
func (c *Call) modInverse() []Branch {
	x, m := c.big(1), c.big(2)
	if x == nil || m == nil {
		return c.panics(c.st, "nil big.Int")
	}
	k2, ok2 := m.isConst()
	if !ok2 {
		panic(undecided("big.Int.ModInverse with an unknown modulus"))
	}
	if k1, ok := x.isConst(); ok {
		r := new(big.Int).ModInverse(k1, k2)
		if r == nil {
			return c.ret(PtrV{})
		}
		return c.setBig(0, pConst(r))
	}
	if k2.Cmp(fieldP) != 0 {
		panic(undecided("big.Int.ModInverse of an unknown number with a modulus other than p"))
	}
	v := fexpand(fieldOf(x, c.st.facts))
	return c.split(condFZero(v), func(st *State, zero bool) []Branch {
		c2 := *c
		c2.st = st
		if zero {
			return c2.ret(PtrV{})
		}
		return c2.setBig(0, numModP(finverse(v)))
	})
}

// finverse: the inverse of a value that is not zero
func finverse(v *FPoly) *FPoly {
	if i, ok := finv(v); ok {
		return i
	}
	if len(v.t) > 1 {
		a := nameF(v)
		if r, k := decide(condFZero(v), nil); k && !r {
			a.nz = true
		}
		v = fAtom(a)
	}
	return fpowBig(v, new(big.Int).Sub(fieldP, b2))
}

// fclear multiplies by the named values that are not zero, until they do not occur as denominators; the result is zero
// if and only if p is. With mul unset it only replaces a denominator that divides.
func fclear(p *FPoly, mul bool) *FPoly {
	if !mul {
		return p
	}
	for round := 0; round < 16; round++ {
		var pick *Atom
		k := new(big.Int)
		for _, t := range p.t {
			for _, x := range t.m {
				a := atoms[x.a]
				if !a.nz || a.def == nil {
					continue
				}
				d := new(big.Int).Sub(pm1, x.e)
				if d.BitLen() > 4 {
					continue
				}
				if pick == nil || (pick == a && d.Cmp(k) > 0) {
					pick, k = a, d
				}
			}
		}
		if pick == nil {
			return p
		}
		p = fexpand(fmul(p, &FPoly{t: []fterm{{[]fpow{{pick.id, k}}, b1}}}))
	}
	return p
}

// fzero: is the value zero, whatever its atoms are?
func fzero(p *FPoly) bool {
	p = fexpand(p)
	if p.isZero() {
		return true
	}
	return fexpand(fclear(p, true)).isZero()
}

// lawDenominator: a multiple of 1 + d*x1*x2*y1*y2 or 1 - d*x1*x2*y1*y2 for two points of the curve. Neither is ever
// zero, because d is not a square and -1 is one.
func lawDenominator(p *FPoly) bool {
	if !denomLemma {
		return false
	}
	var pts []*Atom
	for _, a := range p.atoms() {
		x := atoms[a]
		if x.kind == aPtY {
			x = atoms[x.pair]
		}
		if x.kind != aPtX {
			return false
		}
		dup := false
		for _, y := range pts {
			dup = dup || y == x
		}
		if !dup {
			pts = append(pts, x)
		}
	}
	if len(pts) == 0 || len(pts) > 2 {
		return false
	}
	xy := func(a *Atom) *FPoly { return fmul(fAtom(a), fAtom(atoms[a.pair])) }
	d := fscale(fmul(xy(pts[0]), xy(pts[len(pts)-1])), curveD)
	for _, sg := range []*big.Int{b1, bm1} {
		q := fcomb(fInt(1), sg, d)
		if stripNZ(q).Key() == stripNZ(p).Key() {
			return true
		}
	}
	return false
}

// denomLemma: d is not a square and -1 is a square modulo p
var denomLemma = func() bool {
	euler := func(x *big.Int) *big.Int { return new(big.Int).Exp(x, new(big.Int).Rsh(pm1, 1), fieldP) }
	return euler(curveD).Cmp(pm1) == 0 && euler(pm1).Cmp(b1) == 0
}()

// numZero: when is a combination of canonical representatives zero?
func numZero(p *Poly) *Cond {
	if len(p.t) > 3 {
		return nil
	}
	val := fInt(0)
	n := 0
	var k *big.Int
	pos, neg := 0, 0
	for _, t := range p.t {
		switch {
		case len(t.m) == 0:
			k = t.c
		case len(t.m) == 1 && t.c.CmpAbs(b1) == 0 && !bigNames[t.m[0]] && fieldSym(t.m[0]):
			n++
			if t.c.Sign() > 0 {
				pos++
			} else {
				neg++
			}
			val = fadd(val, fscale(syms[t.m[0]].fam.val, t.c))
		default:
			return nil
		}
	}
	switch {
	case n == 0 || pos > 1 || neg > 1 || (k != nil && n > 1):
		return nil
	case k != nil:
		// num - k with 0 <= k < p
		c := k
		if pos == 1 {
			c = new(big.Int).Neg(k)
		}
		if c.Sign() < 0 || c.Cmp(fieldP) >= 0 {
			return cFalse
		}
		val = fadd(val, fConst(k))
	}
	return condFZero(val)
}

// bitOf: bit k of a number that is not negative
func bitOf(p *Poly, k uint, f *Facts) *Poly {
	if y := p.single(); y != nil && y.fam != nil && y.famIdx == -1 && y.fam.step == 8 {
		if int(k/8) >= len(y.fam.s) {
			return pInt(0)
		}
		return pmod2k(pfloor(pSym(y.fam.s[k/8]), k%8, f), 1, f)
	}
	return pmod2k(pfloor(p, k, f), 1, f)
}
