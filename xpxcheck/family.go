package main

import (
	"fmt"
	"math/big"
)

// Family groups the symbols that together represent one value: ten limbs of a field element, the bytes of an
// encoding, the bytes of a digest.
type Family struct {
	kind string // limbs, enc, hash, modL
	key  string
	s    []*Sym
	val  *FPoly // limbs, enc: the field value
	num  *Sym   // enc, modL: the whole number
	v    *Poly  // modL: what was reduced
	rope *Rope  // hash: input
	name string // hash: algorithm
	deps []int32
	step uint // bits per member: 8 for bytes, 1 for the digits of a recoding
}

var families = map[string]*Family{}

// hashList: the hashes so far, of each algorithm and length
var hashList = map[string][]*Family{}

func getFamily(key, kind string, n int, deps []int32, mk func(f *Family)) *Family {
	key = kind + ":" + key
	if f, ok := families[key]; ok {
		return f
	}
	f := &Family{kind: kind, key: key, deps: deps, step: 8}
	families[key] = f
	id := len(families)
	for i := 0; i < n; i++ {
		s := newSym(fmt.Sprintf("%s%d#%d", kind, id, i), b0, b255)
		s.kind = symOpaq
		s.deps = deps
		s.fam, s.famIdx = f, i
		f.s = append(f.s, s)
	}
	mk(f)
	return f
}

func (f *Family) polys() []*Poly {
	r := make([]*Poly, len(f.s))
	for i, s := range f.s {
		r[i] = pSym(s)
	}
	return r
}

var limbExp = [10]uint{0, 26, 51, 77, 102, 128, 153, 179, 204, 230}

// limbBound: |limb_i| <= num/den * 2^25 (even) or 2^24 (odd)
func limbIv(i int, num, den int64) Iv {
	k := uint(25)
	if i%2 == 1 {
		k = 24
	}
	b := new(big.Int).Mul(pow2(k), bi(num))
	b.Div(b, bi(den))
	return Iv{new(big.Int).Neg(b), b}
}

// limbFamily: ten limbs of value val with the given bounds.
func limbFamily(key string, val *FPoly, iv func(i int) Iv, deps []int32) *Family {
	return getFamily(key, "limbs", 10, deps, func(f *Family) {
		f.val = val
		for i, s := range f.s {
			b := iv(i)
			s.lo, s.hi = b.lo, b.hi
		}
	})
}

// encFamily: the 32 bytes of the canonical encoding of v.
func encFamily(v *FPoly) *Family {
	deps := fdeps(v)
	return getFamily(v.Key(), "enc", 32, deps, func(f *Family) {
		f.val = v
		f.s[31].hi = bi(127)
		f.num = newSym("num("+v.String()+")", b0, new(big.Int).Sub(fieldP, b1))
		f.num.kind = symOpaq
		f.num.deps = deps
		f.num.fam, f.num.famIdx = f, -1
	})
}

// modLFamily: the 32 bytes of v mod L.
func modLFamily(v *Poly) *Family {
	dm := map[int32]bool{}
	depSyms(v, dm)
	var deps []int32
	for s := range dm {
		deps = append(deps, s)
	}
	return getFamily(modLKey(v).Key(), "modL", 32, deps, func(f *Family) {
		f.v = v
		f.s[31].hi = bi(16)
		f.num = newSym("("+v.String()+" mod L)", b0, new(big.Int).Sub(groupL, b1))
		f.num.kind = symOpaq
		f.num.deps = deps
		f.num.fam, f.num.famIdx = f, -1
	})
}

func modLKey(v *Poly) *Poly { return modLPoly(v) }

// hashFamily: the digest of a rope.
func hashFamily(alg string, n int, r *Rope, f *Facts) *Family {
	r = r.norm(f)
	list := fmt.Sprintf("%s/%d", alg, n)
	if f.hasSubst() {
		// the input may have been hashed before some of it became known
		k := r.Key()
		for _, x := range hashList[list] {
			if x.rope.norm(f).Key() == k {
				return x
			}
		}
	}
	return getFamily(alg+":"+r.Key(), "hash", n, r.depList(), func(f *Family) {
		f.rope = r
		f.name = alg
		hashList[list] = append(hashList[list], f)
	})
}

// collapse replaces sum c*256^i*f#i by c*num for byte families with a number.
func collapse(p *Poly) *Poly {
	for {
		done := true
		for _, t := range p.t {
			if len(t.m) != 1 {
				continue
			}
			s := syms[t.m[0]]
			if s.fam == nil || s.famIdx != 0 || s.fam.num == nil {
				continue
			}
			c := t.c
			ok := true
			q := p
			for i, x := range s.fam.s {
				w := new(big.Int).Lsh(c, s.fam.step*uint(i))
				if p.coef(x.id).Cmp(w) != 0 {
					ok = false
					break
				}
				q = pcomb(q, new(big.Int).Neg(w), pSym(x))
			}
			if ok {
				p = pcomb(q, c, pSym(s.fam.num))
				done = false
				break
			}
		}
		if done {
			return p
		}
	}
}

// collapseNL also handles products: for every monomial with a byte of a family, groups by the cofactor.
// Coefficients are compared modulo mod unless it is nil.
func collapseNL(p *Poly, mod *big.Int) *Poly {
	for {
		done := true
		for _, t := range p.t {
			for k, x := range t.m {
				s := syms[x]
				if s.fam == nil || s.famIdx != 0 || s.fam.num == nil {
					continue
				}
				co := append(append([]int32{}, t.m[:k]...), t.m[k+1:]...)
				cof := &Poly{t: []term{{co, b1}}}
				q := p
				ok := true
				for i, y := range s.fam.s {
					m := mergeMono(co, []int32{y.id})
					w := new(big.Int).Lsh(t.c, s.fam.step*uint(i))
					d := monoCoef(p, m)
					if w.Sub(d, w); w.Sign() != 0 && (mod == nil || w.Mod(w, mod).Sign() != 0) {
						ok = false
						break
					}
					w = d
					q = pcomb(q, new(big.Int).Neg(w), &Poly{t: []term{{m, b1}}})
				}
				if ok {
					p = pcomb(q, t.c, pmul(cof, pSym(s.fam.num)))
					done = false
					break
				}
			}
			if !done {
				break
			}
		}
		if done {
			return p
		}
	}
}

// expandModL replaces numbers that are residues modulo L by what they are residues of.
func expandModL(p *Poly) *Poly { return expandNums(p, groupL) }

// expandNums does so when numbers count modulo mod; when mod is nil it only expands the numbers that digits represent.
func expandNums(p *Poly, mod *big.Int) *Poly {
	p = collapseNL(p, mod)
	for {
		var pick *Sym
		for _, s := range p.syms() {
			y := syms[s]
			if y.fam != nil && y.famIdx == -1 && (y.fam.kind == "modL" && mod != nil || y.fam.kind == "digits") {
				pick = y
			}
		}
		if pick == nil {
			return p
		}
		p = psubst(p, pick.id, pick.fam.v)
		p = collapseNL(p, mod)
	}
}

// digitFamily: 256 signed digits, zero or odd and at most 15, that represent the number v.
func digitFamily(v *Poly, deps []int32) *Family {
	return getFamily(v.Key(), "digits", 256, deps, func(f *Family) {
		f.v, f.step = v, 1
		for _, s := range f.s {
			s.lo, s.hi = bi(-15), bi(15)
			for d := int64(-15); d <= 15; d++ {
				if d == 0 || d%2 != 0 {
					s.dom = append(s.dom, d)
				}
			}
		}
		f.num = newSym("("+v.String()+" from digits)", b0, new(big.Int).Sub(pow2(253), b1))
		f.num.kind = symOpaq
		f.num.deps = deps
		f.num.fam, f.num.famIdx = f, -1
	})
}

// valueLE is the little-endian number of the bytes.
func valueLE(b []*Poly) *Poly {
	r := pInt(0)
	for i, x := range b {
		r = pcomb(r, pow2(uint(8*i)), x)
	}
	return r
}

// feValue recovers the field value of ten limb polynomials as a combination of limb families and constants.
// ok is false when the limbs are not such a combination.
func feValue(l []*Poly) (*FPoly, bool) {
	val := fInt(0)
	rest := make([]*Poly, 10)
	copy(rest, l)
	for n := 0; n < 64; n++ {
		var fam *Family
		var c *big.Int
		for i := 0; i < 10 && fam == nil; i++ {
			for _, t := range rest[i].t {
				if len(t.m) == 0 {
					continue
				}
				if len(t.m) != 1 {
					return nil, false
				}
				s := syms[t.m[0]]
				if s.fam == nil || s.fam.kind != "limbs" || s.famIdx != i {
					return nil, false
				}
				fam, c = s.fam, t.c
				break
			}
		}
		if fam == nil {
			break
		}
		for i := 0; i < 10; i++ {
			if rest[i].coef(fam.s[i].id).Cmp(c) != 0 {
				return nil, false
			}
			rest[i] = pcomb(rest[i], new(big.Int).Neg(c), pSym(fam.s[i]))
		}
		val = fadd(val, fscale(fam.val, c))
	}
	k := new(big.Int)
	for i := 0; i < 10; i++ {
		c, ok := rest[i].isConst()
		if !ok {
			return nil, false
		}
		k.Add(k, new(big.Int).Lsh(c, limbExp[i]))
	}
	return fadd(val, fConst(k)), true
}

// limbSum = sum limb_i * 2^e_i
func limbSum(l []*Poly) *Poly {
	r := pInt(0)
	for i, x := range l {
		r = pcomb(r, pow2(limbExp[i]), x)
	}
	return r
}

// fdeps: the integer symbols that a field value is a function of.
func fdeps(v *FPoly) []int32 {
	m := map[int32]bool{}
	seen := map[int32]bool{}
	var walk func(p *FPoly)
	walk = func(p *FPoly) {
		for _, a := range p.atoms() {
			if seen[a] {
				continue
			}
			seen[a] = true
			x := atoms[a]
			for _, d := range x.deps {
				m[d] = true
			}
			if x.tau != nil {
				for _, t := range x.tau.t {
					for _, s := range t.c.syms() {
						m[s] = true
					}
				}
			}
			if x.num != nil {
				for _, s := range x.num.syms() {
					m[s] = true
				}
			}
			if x.def != nil {
				walk(x.def)
			}
		}
	}
	walk(v)
	var r []int32
	for s := range m {
		r = append(r, s)
	}
	return r
}
