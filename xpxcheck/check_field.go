package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
)

// C11, C12: the ten limb arithmetic modulo p.

// input bounds of multiply and square: 1.65*2^26, 1.65*2^25; results: 1.01*2^25, 1.01*2^24
const (
	mulInNum, mulInDen   = 330, 100
	mulOutNum, mulOutDen = 101, 100
	encInNum, encInDen   = 330, 100
)

// fieldOut proves that the limbs represent want (an integer polynomial) modulo p, within bounds.
func (c *Checker) fieldOut(rule, where string, l []*Poly, want *Poly, num, den int64, f *Facts) {
	sum := expand(limbSum(l), f)
	diff := expand(psub(sum, want), f).modCoefs(fieldP)
	c.ob(rule+": result is exact modulo p", where, diff.isZero(), "the limbs differ from the exact result by (mod p): %s", clip(diff.String()))
	i, ok := limbsWithin(l, num, den, f)
	c.ob(rule+": result limbs stay in bounds", where, ok, "limb %d is not within %d/%d of 2^25/2^24: %s", i, num, den, boundOf(l, i, f))
}

func boundOf(l []*Poly, i int, f *Facts) string {
	if i < 0 {
		return ""
	}
	return bounds(l[i], f, stepsDeep, nil).String()
}

func clip(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func (c *Checker) feOp(name, fnn string, k int, num, den int64, onum, oden int64, want func(a [][]*Poly) *Poly) {
	fn := c.mustFn(fnn)
	st := c.e.newState()
	var as [][]*Poly
	var args []Val
	for i := 0; i < k; i++ {
		l := symLimbs(fmt.Sprintf("%s.%c", fn.Name(), 'f'+i), num, den)
		as = append(as, l)
		args = append(args, c.feVal(l))
	}
	outs := c.call(st, fn, args...)
	if len(outs) == 0 {
		c.fail("no result", fnName(fn), "no path returns")
	}
	for _, o := range outs {
		if o.pan != nil {
			c.fail("no panic", fnName(fn), "panics: %s", o.pan.desc)
			continue
		}
		c.fieldOut(name, fnName(fn), c.limbs(o.st, o.vals[0]), want(as), onum, oden, o.st.facts)
	}
}

func sums(a []*Poly) *Poly { return limbSum(a) }

func init() {
	reg("field.linear", []string{"init"}, func(c *Checker) {
		c.feOp("add", tFE+".add", 2, 110, 100, 220, 100, func(a [][]*Poly) *Poly { return padd(sums(a[0]), sums(a[1])) })
		c.feOp("subtract", tFE+".subtract", 2, 110, 100, 220, 100, func(a [][]*Poly) *Poly { return psub(sums(a[0]), sums(a[1])) })
		c.feOp("negate", tFE+".negate", 1, 110, 100, 110, 100, func(a [][]*Poly) *Poly { return pneg(sums(a[0])) })
	})
	reg("field.multiply", []string{"init"}, func(c *Checker) {
		c.feOp("multiply", tFE+".multiply", 2, mulInNum, mulInDen, mulOutNum, mulOutDen, func(a [][]*Poly) *Poly { return pmul(sums(a[0]), sums(a[1])) })
	})
	reg("field.square", []string{"init"}, func(c *Checker) {
		c.feOp("square", tFE+".square", 1, mulInNum, mulInDen, mulOutNum, mulOutDen, func(a [][]*Poly) *Poly { return pmul(sums(a[0]), sums(a[0])) })
	})
	reg("field.decode", []string{"init"}, func(c *Checker) {
		fn := c.mustFn(tEFE + ".Decode")
		st := c.e.newState()
		b := symBytes("dec.b", 32)
		p, st := c.efe(st, b, "caller")
		outs := c.call(st, fn, p)
		top := pfloor(b[31], 7, nil)
		want := pcomb(valueLE(b), new(big.Int).Neg(pow2(255)), top)
		for _, o := range outs {
			if o.pan != nil {
				c.fail("no panic", fnName(fn), "panics: %s", o.pan.desc)
				continue
			}
			c.fieldOut("decode", fnName(fn), c.limbs(o.st, o.vals[0]), want, mulOutNum, mulOutDen, o.st.facts)
		}
	})
}

// canonicalEncode proves that fn maps limbs of value N to the 32 bytes of r in [0,p) with N = q*p + r.
func init() {
	reg("field.encode", []string{"init"}, func(c *Checker) {
		fn := c.mustFn(tFE + ".Encode")
		l := symLimbs("enc.f", encInNum, encInDen)
		q := newSym("q*", nil, nil)
		r := newSym("r", b0, new(big.Int).Sub(fieldP, b1))
		n := limbSum(l)
		iv := naiveIv(n, nil)
		q.lo = floorDiv(iv.lo, fieldP)
		q.hi = floorDiv(iv.hi, fieldP)
		st := c.e.newState()
		st.facts = st.facts.withEq(psub(pcomb(n, new(big.Int).Neg(fieldP), pSym(q)), pSym(r)))
		hints = []*Sym{q}
		defer func() { hints = nil }()
		outs := c.call(st, fn, c.feVal(l))
		for _, o := range outs {
			if o.pan != nil {
				c.fail("no panic", fnName(fn), "panics: %s", o.pan.desc)
				continue
			}
			b := c.rawBytes(o.st, o.vals[0], tEFE)
			c.ob("encoding has 32 bytes", fnName(fn), len(b) == 32, "%d bytes", len(b))
			sum := expand(valueLE(b), o.st.facts)
			want := pcomb(n, new(big.Int).Neg(fieldP), pSym(q))
			d := psub(sum, want)
			c.ob("encoding is the residue in [0,p)", fnName(fn), d.isZero(), "the bytes differ from the residue by %s", clip(d.String()))
			for i, x := range b {
				need := Iv{b0, b255}
				c.ob("encoded byte is in range", fmt.Sprintf("%s byte %d", fnName(fn), i), bounds(x, o.st.facts, stepsDeep, &need).within(b0, b255), "")
			}
		}
	})
}

// rangeProof shows lo <= p <= hi, splitting on the values of intermediate quotients that have few values.
func rangeProof(p *Poly, lo, hi *big.Int, f *Facts) bool {
	need := Iv{lo, hi}
	p = normPoly(p, f)
	if bounds(p, f, stepsRange, &need).within(lo, hi) {
		return true
	}
	// quotients below p, newest first
	seen := map[int32]bool{}
	var cands []*Sym
	var walk func(q *Poly)
	walk = func(q *Poly) {
		for _, x := range q.syms() {
			if seen[x] {
				continue
			}
			seen[x] = true
			y := syms[x]
			if y.def != nil {
				if y.lo != nil && y.hi != nil && y.lo.Sign() < 0 && new(big.Int).Sub(y.hi, y.lo).Cmp(bi(2)) <= 0 {
					cands = append(cands, y)
				}
				walk(y.def)
			}
			if y.imm != nil {
				walk(y.imm)
			}
		}
	}
	walk(p)
	sort.Slice(cands, func(i, j int) bool { return cands[i].id > cands[j].id })
	if len(cands) > 8 {
		cands = cands[:8]
	}
	for _, y := range cands {
		fl, r := y, pInt(0)
		if y.kind == symNamed {
			fl = nil
			for _, x := range y.def.syms() {
				if z := syms[x]; z.kind == symFloor && y.def.coef(x).Cmp(b1) == 0 && (fl == nil || z.id > fl.id) {
					fl = z
				}
			}
			if fl == nil {
				continue
			}
			r = psub(y.def, pSym(fl))
		}
		ok := true
		for v := new(big.Int).Set(y.lo); ok && v.Cmp(y.hi) <= 0; v = new(big.Int).Add(v, b1) {
			rem := pcomb(fl.imm, new(big.Int).Neg(pow2(fl.immk)), psub(pConst(v), r))
			g := f.withBound(y.id, ivConst(v)).withGe(rem).withGe(psub(pConst(new(big.Int).Sub(pow2(fl.immk), b1)), rem))
			ok = bounds(p, g, stepsRange, &need).within(lo, hi)
		}
		if ok {
			return true
		}
	}
	return false
}

const stepsRange = 2000

// modLOut proves that b are the 32 little-endian bytes of want mod L.
func (c *Checker) modLOut(rule, where string, b []*Poly, want *Poly, f *Facts) {
	if !c.ob(rule+": result has 32 bytes", where, len(b) == 32, "%d bytes", len(b)) {
		return
	}
	for i, x := range b {
		need := Iv{b0, b255}
		c.ob(rule+": result byte is a byte", fmt.Sprintf("%s byte %d", where, i), bounds(x, f, stepsDeep, &need).within(b0, b255), "")
	}
	// what the conversion to byte cuts off above the top byte
	top31 := b[31]
	if os.Getenv("XPX_DBG") != "" {
		for _, k := range []int32{281, 156, 154, 155} {
			fmt.Println("IMM", k)
			dbgTree(syms[k].imm, f, "", 1)
		}
	}
	if y := top31.single(); y != nil && y.kind == symNamed {
		top31 = y.def
	}
	for _, x := range top31.syms() {
		y := syms[x]
		if y.kind == symFloor && top31.coef(x).Cmp(bi(-256)) == 0 && rangeProof(y.imm, b0, new(big.Int).Sub(pow2(y.immk), b1), f) {
			f = f.withSubst(x, pInt(0))
		}
	}
	raw := normPoly(valueLE(b), f)
	v := expand(raw, f)
	d := psub(v, expand(want, f)).modCoefs(groupL)
	c.ob(rule+": result is congruent modulo L", where, d.isZero(), "difference modulo L: %s", clip(d.String()))
	if os.Getenv("XPX_DBG") != "" {
		var prev *Sym
		for _, t := range d.t {
			if y := syms[t.m[0]]; y.kind == symFloor {
				if prev != nil && prev.k == y.k {
					fmt.Printf("  DIFF #%d #%d k=%d: %s\n", prev.id, y.id, y.k, psub(prev.def, y.def))
				}
				prev = y
			}
			fmt.Printf("  %s * %s\n", t.c.Text(16), (&Poly{t: []term{{t.m, b1}}}).String())
			for _, x := range t.m {
				if syms[x].def != nil {
					fmt.Printf("      k=%d def=%s\n", syms[x].k, clip(syms[x].def.String()))
				}
			}
		}
	}
	top := new(big.Int).Sub(groupL, b1)
	c.ob(rule+": result lies in [0,L)", where, rangeProof(raw, b0, top, f), "range is only known as %s for %s", bounds(raw, f, stepsRange, nil), clip(v.String()))
}

func init() {
	reg("scalar.modQ", []string{"init"}, func(c *Checker) {
		fn := c.mustFn(tEFE + ".modQ")
		in := symBytes("modQ.b", 64)
		p, st := c.efe(c.e.newState(), in, "caller")
		for _, o := range c.call(st, fn, p) {
			if o.pan != nil {
				c.fail("no panic", fnName(fn), "panics: %s", o.pan.desc)
				continue
			}
			c.modLOut("modQ", fnName(fn), c.rawBytes(o.st, o.vals[0], tEFE), valueLE(in), o.st.facts)
		}
	})
	reg("scalar.mulAdd", []string{"init"}, func(c *Checker) {
		fn := c.mustFn(tEFE + ".multiplyAndAddModQ")
		x, y, z := symBytes("mam.a", 32), symBytes("mam.b", 32), symBytes("mam.c", 32)
		px, st := c.efe(c.e.newState(), x, "caller")
		py, st := c.efe(st, y, "caller")
		pz, st := c.efe(st, z, "caller")
		for _, o := range c.call(st, fn, px, py, pz) {
			if o.pan != nil {
				c.fail("no panic", fnName(fn), "panics: %s", o.pan.desc)
				continue
			}
			c.modLOut("multiply-and-add", fnName(fn), c.rawBytes(o.st, o.vals[0], tEFE), padd(pmul(valueLE(x), valueLE(y)), valueLE(z)), o.st.facts)
		}
	})
}

func dbgTree(p *Poly, f *Facts, ind string, n int) {
	fmt.Printf("%s%s   naive %s\n", ind, clip(p.String()), naiveIv(p, f))
	if n == 0 {
		return
	}
	for _, x := range p.syms() {
		y := syms[x]
		if y.def != nil {
			fmt.Printf("%s %s k=%d immk=%d [%v,%v]\n", ind, symName(y), y.k, y.immk, y.lo, y.hi)
			if y.imm != nil {
				dbgTree(y.imm, f, ind+"    ", n-1)
			} else {
				dbgTree(y.def, f, ind+"    ", n-1)
			}
		}
	}
}
