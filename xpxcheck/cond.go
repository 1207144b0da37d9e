package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Arr is an array of bytes (or words) of unknown content and possibly unknown length.
type Arr struct {
	name string
	deps []int32 // symbols the content is a function of
	mk   func(i *Poly) *Poly
}

var arrays = map[string]*Arr{}

func newArr(name string) *Arr {
	if a, ok := arrays[name]; ok {
		return a
	}
	a := &Arr{name: name}
	arrays[name] = a
	return a
}

// at returns the byte at index i.
func (a *Arr) at(i *Poly) *Poly {
	if a.mk != nil {
		if p := a.mk(i); p != nil {
			return p
		}
	}
	key := "rd:" + a.name + "@" + i.Key()
	s := symKeyed(key, "", func() *Sym {
		nm := a.name
		if len(nm) > 40 {
			nm = nm[:18] + ".." + nm[len(nm)-18:]
		}
		s := newSym(fmt.Sprintf("%s[%s]", nm, i), b0, b255)
		s.kind = symRead
		s.arr, s.idx = a, i
		s.deps = a.deps
		return s
	})
	return pSym(s)
}

type condKind int

const (
	cConst condKind = iota
	cGE             // p >= 0
	cEQ             // p == 0
	cAtom
	cNot
	cXor
	cAnd
	cOr
)

type Cond struct {
	k    condKind
	b    bool
	p    *Poly
	atom string
	data any
	x, y *Cond
}

var cTrue = &Cond{k: cConst, b: true}
var cFalse = &Cond{k: cConst}

func cBool(b bool) *Cond {
	if b {
		return cTrue
	}
	return cFalse
}
func condEQ(p *Poly) *Cond {
	if c, ok := p.isConst(); ok {
		return cBool(c.Sign() == 0)
	}
	// canonical sign
	if p.t[len(p.t)-1].c.Sign() < 0 {
		p = pneg(p)
	}
	if z := zeroCond(p); z != nil {
		return z
	}
	if z := numZero(p); z != nil {
		return z
	}
	if lenGE(p) != nil {
		return cand(condGE(p), condGE(pneg(p)))
	}
	return &Cond{k: cEQ, p: p}
}
func condGE(p *Poly) *Cond {
	if c, ok := p.isConst(); ok {
		return cBool(c.Sign() >= 0)
	}
	if z := lenGE(p); z != nil {
		return z
	}
	if z := zeroGE(p); z != nil {
		return z
	}
	return &Cond{k: cGE, p: p}
}

// zeroGE: x >= 1 and x <= 0 of a bitwise or or xor that is not negative tell whether it is zero
func zeroGE(p *Poly) *Cond {
	if len(p.t) > 2 {
		return nil
	}
	k := new(big.Int)
	var x *Sym
	sg := 0
	for _, t := range p.t {
		switch {
		case len(t.m) == 0:
			k = t.c
		case len(t.m) == 1 && t.c.CmpAbs(b1) == 0 && x == nil:
			x, sg = syms[t.m[0]], t.c.Sign()
		default:
			return nil
		}
	}
	if x == nil || x.lo == nil || x.lo.Sign() < 0 || !(sg > 0 && k.Cmp(bm1) == 0 || sg < 0 && k.Sign() == 0) {
		return nil
	}
	z := zeroCond(pSym(x))
	if z == nil || sg < 0 {
		return z
	}
	return cnot(z)
}

// lenOf: symbols that are the length of |p| in units of bits: n >= k iff |p| >= 2^(unit*(k-1))
type lenInfo struct {
	p    *Poly
	unit int64
}

var lenOf = map[int32]lenInfo{}

// lenGE turns a comparison of such a length with a constant into one of the number.
func lenGE(p *Poly) *Cond {
	if len(lenOf) == 0 || len(p.t) > 2 {
		return nil
	}
	var s *lenInfo
	sg := 0
	k := new(big.Int)
	for _, t := range p.t {
		switch {
		case len(t.m) == 0:
			k = t.c
		case len(t.m) == 1:
			x, ok := lenOf[t.m[0]]
			if !ok || t.c.CmpAbs(b1) != 0 || s != nil {
				return nil
			}
			s, sg = &x, t.c.Sign()
		default:
			return nil
		}
	}
	if s == nil || k.CmpAbs(bi(1<<16)) > 0 {
		return nil
	}
	// sg*n + k >= 0
	m := -k.Int64()
	if sg < 0 {
		m = k.Int64() + 1 // not n >= k+1
	}
	c := cTrue
	if m > 0 {
		b := pConst(pow2(uint(s.unit * (m - 1))))
		c = cor(condGE(psub(s.p, b)), condGE(psub(pneg(s.p), b)))
	}
	if sg < 0 {
		return cnot(c)
	}
	return c
}

func condAtom(key string, data any) *Cond { return &Cond{k: cAtom, atom: key, data: data} }
func cnot(c *Cond) *Cond {
	switch c.k {
	case cConst:
		return cBool(!c.b)
	case cNot:
		return c.x
	case cGE:
		// not p>=0  <=> -p-1 >= 0
		return condGE(psub(pInt(-1), c.p))
	}
	return &Cond{k: cNot, x: c}
}
func cand(a, b *Cond) *Cond {
	if a.k == cConst {
		if a.b {
			return b
		}
		return a
	}
	if b.k == cConst {
		if b.b {
			return a
		}
		return b
	}
	return &Cond{k: cAnd, x: a, y: b}
}
func cor(a, b *Cond) *Cond { return cnot(cand(cnot(a), cnot(b))) }
func cxor(a, b *Cond) *Cond {
	if a.k == cConst {
		if a.b {
			return cnot(b)
		}
		return b
	}
	if b.k == cConst {
		if b.b {
			return cnot(a)
		}
		return a
	}
	if a.key() == b.key() {
		return cFalse
	}
	return &Cond{k: cXor, x: a, y: b}
}

func (c *Cond) key() string {
	switch c.k {
	case cConst:
		return fmt.Sprint(c.b)
	case cGE:
		return "ge" + c.p.Key()
	case cEQ:
		return "eq" + c.p.Key()
	case cAtom:
		return "at" + c.atom
	case cNot:
		return "!(" + c.x.key() + ")"
	case cXor:
		return "(" + c.x.key() + "^" + c.y.key() + ")"
	case cAnd:
		return "(" + c.x.key() + "&" + c.y.key() + ")"
	}
	return "?"
}
func (c *Cond) String() string {
	switch c.k {
	case cConst:
		return fmt.Sprint(c.b)
	case cGE:
		return c.p.String() + " >= 0"
	case cEQ:
		return c.p.String() + " == 0"
	case cAtom:
		if len(c.atom) > 160 {
			return c.atom[:160] + "..."
		}
		return c.atom
	case cNot:
		return "!(" + c.x.String() + ")"
	case cXor:
		return "(" + c.x.String() + " != " + c.y.String() + ")"
	case cAnd:
		return "(" + c.x.String() + " && " + c.y.String() + ")"
	}
	return "?"
}

// leaves collects the undefined symbols below p.
func leaves(p *Poly, out map[int32]bool) {
	for _, t := range p.t {
		for _, s := range t.m {
			leafSym(s, out)
		}
	}
}
func leafSym(s int32, out map[int32]bool) {
	y := syms[s]
	switch y.kind {
	case symFloor, symNamed:
		leaves(y.def, out)
	default:
		out[s] = true
	}
}

// depSyms collects every symbol below p, following definitions, indices and dependencies.
func depSyms(p *Poly, out map[int32]bool) {
	for _, t := range p.t {
		for _, s := range t.m {
			depSym(s, out)
		}
	}
}
func depSym(s int32, out map[int32]bool) {
	if out[s] {
		return
	}
	out[s] = true
	y := syms[s]
	if y.def != nil {
		depSyms(y.def, out)
	}
	if y.idx != nil {
		depSyms(y.idx, out)
	}
	for _, d := range y.deps {
		depSym(d, out)
	}
}

// domain of a leaf symbol under f, nil if larger than max
func symDomain(s int32, f *Facts, max int) []int64 {
	iv := f.symIv(s)
	y := syms[s]
	var r []int64
	if y.dom != nil {
		for _, v := range y.dom {
			b := bi(v)
			if iv.within(nil, nil) && (iv.lo == nil || b.Cmp(iv.lo) >= 0) && (iv.hi == nil || b.Cmp(iv.hi) <= 0) {
				r = append(r, v)
			}
		}
	} else {
		w := iv.width()
		if w == nil || !w.IsInt64() || w.Int64() >= int64(max) {
			return nil
		}
		for v := iv.lo.Int64(); v <= iv.hi.Int64(); v++ {
			r = append(r, v)
		}
	}
	if len(r) > max {
		return nil
	}
	var q []int64
	for _, v := range r {
		if x, ok := f.atomVal(neKey(psub(pSym(y), pInt(v)))); ok && !x {
			continue
		}
		q = append(q, v)
	}
	return q
}

func neKey(p *Poly) string {
	if len(p.t) > 0 && p.t[len(p.t)-1].c.Sign() < 0 {
		p = pneg(p)
	}
	return "=" + p.Key()
}

// enumerate evaluates p at every value of its single leaf symbol, if there is just one with a small domain.
func enumerate(p *Poly, f *Facts, max int) (leaf int32, vals []int64, res []*big.Int, ok bool) {
	lv := map[int32]bool{}
	leaves(p, lv)
	if len(lv) != 1 {
		return 0, nil, nil, false
	}
	for s := range lv {
		leaf = s
	}
	dom := symDomain(leaf, f, max)
	if dom == nil {
		return 0, nil, nil, false
	}
	for _, v := range dom {
		q := normWith(p, map[int32]*Poly{leaf: pInt(v)}, nil, map[int32]*Poly{}, true)
		c, k := q.isConst()
		if !k {
			return 0, nil, nil, false
		}
		vals = append(vals, v)
		res = append(res, c)
	}
	return leaf, vals, res, true
}

// decide returns (value, known).
func decide(c *Cond, f *Facts) (bool, bool) {
	switch c.k {
	case cConst:
		return c.b, true
	case cNot:
		v, k := decide(c.x, f)
		return !v, k
	case cXor:
		a, k1 := decide(c.x, f)
		b, k2 := decide(c.y, f)
		return a != b, k1 && k2
	case cAnd:
		a, k1 := decide(c.x, f)
		if k1 && !a {
			return false, true
		}
		b, k2 := decide(c.y, f)
		if k2 && !b {
			return false, true
		}
		return true, k1 && k2
	case cAtom:
		return decideAtom(c, f)
	case cGE:
		q := normPoly(c.p, f)
		if k, ok := q.isConst(); ok {
			return k.Sign() >= 0, true
		}
		iv := bounds(q, f, stepsDeep, nil)
		if iv.lo != nil && iv.lo.Sign() >= 0 {
			return true, true
		}
		if iv.hi != nil && iv.hi.Sign() < 0 {
			return false, true
		}
		for x := f; x != nil; x = x.parent {
			if x.ge != nil {
				// q = ge + k, or q = -ge + k
				d := psub(q, normPoly(x.ge, f))
				if k, ok := d.isConst(); ok && k.Sign() >= 0 {
					return true, true
				}
				d = padd(q, normPoly(x.ge, f))
				if k, ok := d.isConst(); ok && k.Sign() < 0 {
					return false, true
				}
			}
		}
		// q + 1 >= 0 and q + 1 != 0; q <= 0 and q != 0
		q1 := padd(q, pInt(1))
		if v, ok := f.atomVal(neKey(q1)); ok && !v && geKnown(q1, f) {
			return true, true
		}
		if v, ok := f.atomVal(neKey(q)); ok && !v && geKnown(pneg(q), f) {
			return false, true
		}
		if _, _, res, ok := enumerate(q, f, 512); ok {
			t, n := 0, 0
			for _, r := range res {
				if r.Sign() >= 0 {
					t++
				} else {
					n++
				}
			}
			if n == 0 {
				return true, true
			}
			if t == 0 {
				return false, true
			}
		}
		return false, false
	case cEQ:
		q := normPoly(c.p, f)
		if k, ok := q.isConst(); ok {
			return k.Sign() == 0, true
		}
		if v, ok := f.atomVal(neKey(q)); ok && !v {
			return false, true
		}
		for x := f; x != nil; x = x.parent {
			if x.eq != nil {
				e := normPoly(x.eq, f)
				if e.eq(q) || e.eq(pneg(q)) {
					return true, true
				}
				d := psub(q, e)
				if k, ok := d.isConst(); ok && k.Sign() != 0 {
					return false, true
				}
				d = padd(q, e)
				if k, ok := d.isConst(); ok && k.Sign() != 0 {
					return false, true
				}
			}
		}
		for x := f; x != nil; x = x.parent {
			if x.ge != nil {
				// e >= 0 and q = -e - k or q = e + k with k > 0
				e := normPoly(x.ge, f)
				if k, ok := psub(q, e).isConst(); ok && k.Sign() > 0 {
					return false, true
				}
				if k, ok := padd(q, e).isConst(); ok && k.Sign() < 0 {
					return false, true
				}
			}
		}
		iv := bounds(q, f, stepsDeep, nil)
		if (iv.lo != nil && iv.lo.Sign() > 0) || (iv.hi != nil && iv.hi.Sign() < 0) {
			return false, true
		}
		if iv.lo != nil && iv.hi != nil && iv.lo.Sign() == 0 && iv.hi.Sign() == 0 {
			return true, true
		}
		if _, _, res, ok := enumerate(q, f, 512); ok {
			t, n := 0, 0
			for _, r := range res {
				if r.Sign() == 0 {
					t++
				} else {
					n++
				}
			}
			if n == 0 {
				return true, true
			}
			if t == 0 {
				return false, true
			}
		}
		ex := expand(q, f)
		if k, ok := ex.isConst(); ok {
			return k.Sign() == 0, true
		}
		if f.hasSubst() || true {
			// a divisibility argument: all coefficients but the constant divisible by m, constant not
			g := new(big.Int)
			for _, t := range ex.t {
				if len(t.m) > 0 {
					g.GCD(nil, nil, g, new(big.Int).Abs(t.c))
				}
			}
			if g.Cmp(b1) > 0 && new(big.Int).Mod(ex.constTerm(), g).Sign() != 0 {
				return false, true
			}
		}
		return false, false
	}
	return false, false
}

// assume adds "c is v" to f; ok is false when that is contradictory.
// geKnown: q >= 0 follows from the bounds or from one of the facts.
func geKnown(q *Poly, f *Facts) bool {
	iv := bounds(q, f, stepsDeep, nil)
	if iv.lo != nil && iv.lo.Sign() >= 0 {
		return true
	}
	for x := f; x != nil; x = x.parent {
		if x.ge != nil {
			d := psub(q, normPoly(x.ge, f))
			if k, ok := d.isConst(); ok && k.Sign() >= 0 {
				return true
			}
		}
	}
	return false
}

func assume(c *Cond, v bool, f *Facts) (*Facts, bool) {
	if val, known := decide(c, f); known {
		return f, val == v
	}
	switch c.k {
	case cNot:
		return assume(c.x, !v, f)
	case cXor:
		// only when one side is known
		if a, k := decide(c.x, f); k {
			return assume(c.y, a != v, f)
		}
		if b, k := decide(c.y, f); k {
			return assume(c.x, b != v, f)
		}
		panic(undecided("xor of two undecided conditions: %s", c))
	case cAnd:
		if v {
			g, ok := assume(c.x, true, f)
			if !ok {
				return f, false
			}
			return assume(c.y, true, g)
		}
		if a, k := decide(c.x, f); k && a {
			return assume(c.y, false, f)
		}
		if b, k := decide(c.y, f); k && b {
			return assume(c.x, false, f)
		}
		return f.withAtom(c.key(), false, c), true
	case cAtom:
		return assumeAtom(c, v, f)
	case cGE:
		p := normPoly(c.p, f)
		if !v {
			p = psub(pInt(-1), p)
		}
		return assumeGE(p, f)
	case cEQ:
		p := normPoly(c.p, f)
		if v {
			return assumeEQ(p, f)
		}
		g := f.withAtom(neKey(p), false, p)
		if s, k, cst, ok := singleLinear(p); ok {
			// k*s + cst != 0
			q, r := new(big.Int).QuoRem(new(big.Int).Neg(cst), k, new(big.Int))
			if r.Sign() == 0 {
				iv := f.symIv(s)
				if iv.lo != nil && iv.lo.Cmp(q) == 0 {
					g = g.withBound(s, Iv{new(big.Int).Add(q, b1), nil})
				}
				if iv.hi != nil && iv.hi.Cmp(q) == 0 {
					g = g.withBound(s, Iv{nil, new(big.Int).Sub(q, b1)})
				}
			}
		}
		return pinIfSingle(p, g), true
	}
	panic(undecided("assume %s", c))
}

// pinIfSingle substitutes a leaf symbol whose domain has shrunk to one value.
func pinIfSingle(p *Poly, f *Facts) *Facts {
	lv := map[int32]bool{}
	leaves(p, lv)
	for s := range lv {
		if d := symDomain(s, f, 600); len(d) == 1 {
			if _, ok := substMap(f)[s]; !ok {
				f = f.withSubst(s, pInt(d[0]))
			}
		}
	}
	return f
}

func singleLinear(p *Poly) (s int32, k, cst *big.Int, ok bool) {
	n := 0
	cst = b0
	for _, t := range p.t {
		if len(t.m) == 0 {
			cst = t.c
			continue
		}
		if len(t.m) != 1 {
			return
		}
		s, k = t.m[0], t.c
		n++
	}
	return s, k, cst, n == 1
}

func assumeGE(p *Poly, f *Facts) (*Facts, bool) {
	g := f
	if s, k, cst, ok := singleLinear(p); ok {
		if k.Sign() > 0 {
			// s >= ceil(-cst/k)
			g = g.withBound(s, Iv{ceilDiv(new(big.Int).Neg(cst), k), nil})
		} else {
			g = g.withBound(s, Iv{nil, floorDiv(cst, new(big.Int).Neg(k))})
		}
		iv := g.symIv(s)
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) > 0 {
			return f, false
		}
		if syms[s].kind == symFloor {
			// bounds of the definition as well
			y := syms[s]
			if k.Sign() > 0 {
				g = g.withGe(psub(y.def, pConst(new(big.Int).Lsh(ceilDiv(new(big.Int).Neg(cst), k), y.k))))
			} else {
				u := floorDiv(cst, new(big.Int).Neg(k))
				u = new(big.Int).Add(u, b1)
				g = g.withGe(psub(pConst(new(big.Int).Sub(new(big.Int).Lsh(u, y.k), b1)), y.def))
			}
		}
		if iv.lo != nil && iv.hi != nil && iv.lo.Cmp(iv.hi) == 0 && syms[s].kind == symNamed {
			if _, known := substMap(g)[s]; !known {
				v := pConst(iv.lo)
				g = g.withSubst(s, v).withEq(psub(syms[s].def, v))
			}
		}
		g = pinIfSingle(p, g)
		return g, true
	}
	// a single leaf with a small domain: refine by enumeration
	if leaf, vals, res, ok := enumerate(p, f, 512); ok {
		var lo, hi int64
		n := 0
		for i, v := range vals {
			if res[i].Sign() >= 0 {
				if n == 0 || v < lo {
					lo = v
				}
				if n == 0 || v > hi {
					hi = v
				}
				n++
			}
		}
		if n == 0 {
			return f, false
		}
		g = g.withBound(leaf, Iv{bi(lo), bi(hi)})
		g = pinIfSingle(p, g)
	}
	return g.withGe(p), true
}

func assumeEQ(p *Poly, f *Facts) (*Facts, bool) {
	g, ok := assumeEQ0(p, f)
	if !ok {
		return g, false
	}
	for _, s := range p.syms() {
		if y := syms[s]; y.fam != nil && y.fam.kind == "enc" && y.famIdx >= 0 && encImpossible(y.fam, g) {
			return f, false
		}
	}
	return g, true
}

// encImpossible: the bytes of an encoding are known, and it has another value.
func encImpossible(fam *Family, f *Facts) bool {
	var bs []*Poly
	for i := 31; i >= 0; i-- {
		b := normPoly(pSym(fam.s[i]), f)
		if _, k := b.isConst(); !k {
			return false
		}
		bs = append([]*Poly{b}, bs...)
	}
	v := encOf(bs)
	if v == nil {
		return false
	}
	is, known := decide(condFZero(fsub(fam.val, v)), nil)
	return known && !is
}

func assumeEQ0(p *Poly, f *Facts) (*Facts, bool) {
	g := f
	// a common factor of the coefficients is dropped; one that the constant does not have is a contradiction
	div, cst := new(big.Int), b0
	for _, t := range p.t {
		if len(t.m) == 0 {
			cst = t.c
		} else {
			div.GCD(nil, nil, div, new(big.Int).Abs(t.c))
		}
	}
	if div.Cmp(b1) > 0 {
		if new(big.Int).Rem(cst, div).Sign() != 0 {
			return f, false
		}
		q := &Poly{}
		for _, t := range p.t {
			q.t = append(q.t, term{m: t.m, c: new(big.Int).Quo(t.c, div)})
		}
		p = q
	}
	if leaf, vals, res, ok := enumerate(p, f, 512); ok {
		var keep []int64
		for i, v := range vals {
			if res[i].Sign() == 0 {
				keep = append(keep, v)
			}
		}
		if len(keep) == 0 {
			return f, false
		}
		if len(keep) == 1 {
			return g.withSubst(leaf, pInt(keep[0])), true
		}
		sort.Slice(keep, func(i, j int) bool { return keep[i] < keep[j] })
		g = g.withBound(leaf, Iv{bi(keep[0]), bi(keep[len(keep)-1])})
	}
	// solve for a symbol with coefficient +-1 on which nothing else in p depends
	best := -1
	for i, t := range p.t {
		if len(t.m) != 1 || t.c.CmpAbs(b1) != 0 {
			continue
		}
		s := t.m[0]
		rest := psub(p, &Poly{t: []term{t}})
		ds := map[int32]bool{}
		depSyms(rest, ds)
		if ds[s] {
			continue
		}
		if best < 0 || rank(syms[s]) < rank(syms[p.t[best].m[0]]) {
			best = i
		}
	}
	if best >= 0 {
		t := p.t[best]
		rest := psub(p, &Poly{t: []term{t}})
		if t.c.Sign() > 0 {
			rest = pneg(rest)
		}
		s := syms[t.m[0]]
		iv := g.symIv(s.id)
		// bounds of s carry over
		g = g.withSubst(s.id, rest)
		if _, isC := rest.isConst(); !isC {
			if iv.lo != nil {
				g2, ok := assume(condGE(psub(rest, pConst(iv.lo))), true, g)
				if !ok {
					return f, false
				}
				g = g2
			}
			if iv.hi != nil {
				g2, ok := assume(condGE(psub(pConst(iv.hi), rest)), true, g)
				if !ok {
					return f, false
				}
				g = g2
			}
		}
		if s.kind == symFloor {
			lo := psub(s.def, pscale(rest, pow2(s.k)))
			hi := psub(pConst(new(big.Int).Sub(pow2(s.k), b1)), lo)
			// s may occur in its own definition only through other symbols
			g = g.withGe(normPoly(lo, g)).withGe(normPoly(hi, g))
			g = pinIfSingle(s.def, g)
		}
		if s.kind == symNamed {
			// the definition equals rest
			e := psub(s.def, rest)
			g = g.withEq(e)
		}
		return g, true
	}
	return g.withEq(p), true
}

func rank(s *Sym) int {
	switch s.kind {
	case symBase:
		return 1
	case symRead:
		return 0
	case symOpaq:
		return 2
	case symNamed:
		return 3
	}
	return 4
}

// concretise forks f over the values of p (at most max of them).
type concVal struct {
	v *big.Int
	f *Facts
}

func concretise(p *Poly, f *Facts, max int) ([]concVal, bool) {
	q := normPoly(p, f)
	if c, ok := q.isConst(); ok {
		return []concVal{{c, f}}, true
	}
	if leaf, vals, res, ok := enumerate(q, f, 600); ok {
		var out []concVal
		if len(vals) <= max {
			for i, v := range vals {
				out = append(out, concVal{res[i], f.withSubst(leaf, pInt(v))})
			}
			return out, true
		}
	}
	iv := bounds(q, f, stepsDeep, nil)
	w := iv.width()
	if w == nil || !w.IsInt64() || w.Int64() >= int64(max) {
		return nil, false
	}
	var out []concVal
	for v := new(big.Int).Set(iv.lo); v.Cmp(iv.hi) <= 0; v = new(big.Int).Add(v, b1) {
		g, ok := assume(condEQ(psub(q, pConst(v))), true, f)
		if ok {
			out = append(out, concVal{v, g})
		}
	}
	return out, true
}

// concretiseSmall pins every leaf of p whose domain is small, so that p has no small unknown left.
func concretiseSmall(p *Poly, f *Facts, max int) []*Facts {
	q := normPoly(p, f)
	lv := map[int32]bool{}
	leaves(q, lv)
	var ids []int32
	for s := range lv {
		ids = append(ids, s)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	fs := []*Facts{f}
	for _, s := range ids {
		var nf []*Facts
		for _, g := range fs {
			d := symDomain(s, g, max)
			if d == nil {
				nf = append(nf, g)
				continue
			}
			for _, v := range d {
				nf = append(nf, g.withSubst(s, pInt(v)))
			}
		}
		fs = nf
	}
	return fs
}

type undecidedErr struct {
	msg     string
	refuted bool // not only unknown: an invariant was found broken
}

func (u undecidedErr) Error() string { return u.msg }
func undecided(format string, a ...any) undecidedErr {
	return undecidedErr{msg: fmt.Sprintf(format, a...)}
}

// atoms -----------------------------------------------------------------

// dataful atoms implement this
type atomData interface {
	decide(f *Facts) (bool, bool)
	assume(v bool, f *Facts) (*Facts, bool)
}

func decideAtom(c *Cond, f *Facts) (bool, bool) {
	if v, ok := f.atomVal(c.atom); ok {
		return v, true
	}
	if d, ok := c.data.(atomData); ok {
		return d.decide(f)
	}
	return false, false
}
func assumeAtom(c *Cond, v bool, f *Facts) (*Facts, bool) {
	g := f.withAtom(c.atom, v, c.data)
	if d, ok := c.data.(atomData); ok {
		return d.assume(v, g)
	}
	return g, true
}

func factsString(f *Facts) string {
	var r []string
	for x := f; x != nil; x = x.parent {
		switch {
		case x.bsym >= 0:
			r = append(r, fmt.Sprintf("%s in %s", symName(syms[x.bsym]), x.biv))
		case x.ssym >= 0:
			r = append(r, fmt.Sprintf("%s = %s", symName(syms[x.ssym]), x.sval))
		case x.eq != nil:
			r = append(r, x.eq.String()+" == 0")
		case x.ge != nil:
			r = append(r, x.ge.String()+" >= 0")
		case x.atom != "":
			a := x.atom
			if len(a) > 100 {
				a = a[:100] + ".."
			}
			r = append(r, fmt.Sprintf("%s is %v", a, x.aval))
		}
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return strings.Join(r, " && ")
}
