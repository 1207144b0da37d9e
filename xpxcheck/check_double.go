package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C16: the signed-digit recoding and the double scalar multiplication.

// recodings: the functions of the package that take one encoded field element and return small signed digits
func (c *Checker) recodings() (l []*ssa.Function) {
	for _, fn := range c.repoFuncs() {
		if c.recodingArg(fn) >= 0 {
			l = append(l, fn)
		}
	}
	return
}

func (c *Checker) recodingArg(fn *ssa.Function) int {
	sig := fn.Signature
	if sig.Results().Len() != 1 {
		return -1
	}
	var el types.Type
	switch t := sig.Results().At(0).Type().Underlying().(type) {
	case *types.Slice:
		el = t.Elem()
	case *types.Array:
		el = t.Elem()
	default:
		return -1
	}
	b, ok := el.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUnsigned != 0 {
		return -1
	}
	arg := -1
	for i, p := range fn.Params {
		n, _ := namedOf(p.Type())
		switch n {
		case tEFE:
			if arg >= 0 {
				return -1
			}
			arg = i
		case tGE:
		default:
			return -1
		}
	}
	return arg
}

// slideOf proves that fn recodes every scalar below 2^253 into odd digits; "" or the reason why not
func (c *Checker) slideOf(fn *ssa.Function, arg int, tail int) (ok bool) {
	where := fnName(fn)
	return c.try("signed-digit recoding", where, func() {
		st := c.e.newState()
		b := make([]*Poly, 32)
		L := pInt(0)
		for i := range b {
			b[i] = pInt(0)
			for j := 0; j < 8 && 8*i+j < 253; j++ {
				y := pSym(newSym(fmt.Sprintf("bit%d", 8*i+j), b0, b1))
				b[i] = padd(b[i], pscale(y, pow2(uint(j))))
				L = padd(L, pscale(y, pow2(uint(8*i+j))))
			}
		}
		e, st := c.efe(st, b, "caller")
		args := make([]Val, len(fn.Params))
		for i := range args {
			if i == arg {
				args[i] = e
			} else {
				p, _ := c.genericPoint(st, c.cs("P3"), "A")
				args[i] = p
			}
		}
		st.ghosts = []*ghost{{L: L, lo: b0, hi: new(big.Int).Sub(pow2(253), b1), held: map[string]int32{}, seen: map[int]Val{}}}
		c.e.mergeOn = &mergeSpec{tail: tail, strict: true, lost: map[string]int{}}
		defer func() { c.e.mergeOn = nil }()
		outs := c.call(st, fn, args...)
		c.ob("returns", where, len(outs) > 0, "no path returns")
		for i, o := range outs {
			w := pathName(where, i, len(outs))
			if o.pan != nil {
				c.fail("no panic", w, "panics: %s", o.pan.desc)
				continue
			}
			g := o.st.ghosts[0]
			f := o.st.facts
			d := c.ints(o.st, o.vals[0])
			if !c.ob("256 digits", w, len(d) == 256, "%d digits", len(d)) {
				continue
			}
			sum := pInt(0)
			for j, x := range d {
				sum = padd(sum, pscale(x, pow2(uint(j))))
				leaf, _, res, ok := enumerate(normPoly(x, f), f, 64)
				_ = leaf
				if !ok {
					if v, is := normPoly(x, f).isConst(); is {
						res, ok = []*big.Int{v}, true
					}
				}
				good := ok
				for _, v := range res {
					if v.Sign() != 0 && (v.Bit(0) == 0 || v.CmpAbs(bi(15)) > 0) {
						good = false
					}
				}
				c.ob("every digit is zero or odd and at most 15", fmt.Sprintf("%s, digit %d", w, j), good, "the digit can be %v", res)
			}
			c.ob("the digits represent the scalar", w, normPoly(psub(sum, g.L), f).isZero(), "the difference is %s", clip(normPoly(psub(sum, g.L), f).String()))
		}
	})
}

// ints: the elements of a slice or an array of integers
func (c *Checker) ints(st *State, v Val) (l []*Poly) {
	var e []Val
	switch x := v.(type) {
	case SliceV:
		a, ok := st.get(x.obj).(ArrayV)
		off, k1 := x.off.isConst()
		n, k2 := x.len.isConst()
		if !ok || !k1 || !k2 || len(x.path) > 0 {
			panic(undecided("a slice of digits that is not an array: %T", st.get(x.obj)))
		}
		e = a.e[off.Int64() : off.Int64()+n.Int64()]
	case ArrayV:
		e = x.e
	default:
		panic(undecided("digits are %T", v))
	}
	for _, x := range e {
		l = append(l, x.(IntV).p)
	}
	return
}

func init() {
	reg("mul.recode", []string{"init"}, func(c *Checker) {
		n := 0
		for _, fn := range c.recodings() {
			if c.usedBy(fn, c.mustFn(tGE+".doubleScalarMultiplyVariableTime")) {
				n++
				if c.slideOf(fn, c.recodingArg(fn), 250) {
					c.facts["recode:"+fn.String()] = true
				}
			}
		}
		c.ob("a recoding function is found", "double scalar multiplication", n > 0, "no function that takes an encoded field element and returns signed digits is called by it")
	})
	reg("mul.double", []string{"mul.tables", "mul.recode"}, func(c *Checker) {
		fn := c.mustFn(tGE + ".doubleScalarMultiplyVariableTime")
		where := fnName(fn)
		for _, r := range c.recodings() {
			if c.facts["recode:"+r.String()] != nil || devSkip["mul.recode"] && r.Name() == "slide" {
				c.e.contracts[r] = c.recodeHandler(r)
				defer delete(c.e.contracts, r)
			}
		}
		c.try("double scalar multiplication", where, func() {
			bp, st := c.basePoint()
			p, _ := c.genericPoint(st, c.cs("P3"), "A")
			st = c.precomputed(st, p, "PrecomputeForDoubleScalarMultiplication")
			ba, na := scalarBytes("dmul.a", 31)
			bb, nb := scalarBytes("dmul.b", 31)
			ea, st := c.efe(st, ba, "caller")
			eb, st := c.efe(st, bb, "caller")
			spec := &mergeSpec{geOK: true, c: c, lost: map[string]int{}, limit: 2000}
			c.e.mergeOn = spec
			defer func() { c.e.mergeOn = nil }()
			outs := c.call(st, fn, bp, p, ea, eb)
			c.samePoint(where, outs, "P2", tauSub(tauOf("B", nb), tauOf("A", na)), func(f *Facts) *Tau {
				return tauSub(tauOf("B", normPoly(inDigits(nb), f)), tauOf("A", normPoly(inDigits(na), f)))
			})
		})
	})
}

// usedBy: can fn be reached from root by static calls within the package?
func (c *Checker) usedBy(fn, root *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == fn {
			return true
		}
		if seen[f] || !c.P.inRepo(f) {
			return false
		}
		seen[f] = true
		c.P.body(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(root)
}

// inDigits: the number as the sum of its digits, where it has been recoded
func inDigits(n *Poly) *Poly {
	f := families["digits:"+n.Key()]
	if f == nil {
		return n
	}
	sum := pInt(0)
	for i, s := range f.s {
		sum = pcomb(sum, pow2(uint(i)), pSym(s))
	}
	return sum
}

func (c *Checker) recodeHandler(fn *ssa.Function) Handler {
	arg := c.recodingArg(fn)
	return func(call *Call) []Branch {
		if isNilPtr(call.args[arg]) {
			return nil
		}
		n, b := c.numOfScalar(call, call.args[arg], 253)
		d := digitFamily(n, famDeps([][]*Poly{b})).polys()
		vals := make([]Val, len(d))
		for i, x := range d {
			vals[i] = IntV{x}
		}
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Array); ok {
			return one(call.st, ArrayV{vals})
		}
		id := c.e.newObj("digits", "fresh", nil)
		call.st.set(id, ArrayV{vals})
		k := pInt(int64(len(d)))
		return one(call.st, SliceV{obj: id, off: pInt(0), len: k, cap: k})
	}
}
