package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Selections: a function that returns a point and takes a small symbolic integer is run once per value of it; the
// points must be an affine function of the integer.

const finiteMax = 40

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// discoverFinite installs the rule at every function that returns a point and takes an integer.
func (c *Checker) discoverFinite() {
	for _, fn := range c.repoFuncs() {
		if c.e.contracts[fn] != nil {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || res.Len() > 2 {
			continue
		}
		if n, ok := namedOf(res.At(0).Type()); n != tGE || !ok {
			continue
		}
		er := res.Len() == 2
		if er && res.At(1).Type().String() != "error" {
			continue
		}
		var ints []int
		for i, p := range fn.Params {
			if isInt(p.Type()) {
				ints = append(ints, i)
			}
		}
		if len(ints) == 0 {
			continue
		}
		fn := fn
		c.e.contracts[fn] = func(call *Call) []Branch { return c.finiteCall(call, fn, ints, er) }
	}
}

func (c *Checker) finiteCall(call *Call, fn *ssa.Function, ints []int, er bool) []Branch {
	ix := -1
	var p *Poly
	for _, i := range ints {
		v, ok := call.args[i].(IntV)
		if !ok {
			return nil
		}
		q := normPoly(v.p, call.st.facts)
		if _, is := q.isConst(); is {
			continue
		}
		if ix >= 0 {
			return nil
		}
		ix, p = i, q
	}
	if ix < 0 {
		return nil
	}
	iv := bounds(p, call.st.facts, stepsDeep, nil)
	if iv.lo == nil || iv.hi == nil || !iv.lo.IsInt64() || !iv.hi.IsInt64() || new(big.Int).Sub(iv.hi, iv.lo).Cmp(big.NewInt(finiteMax)) >= 0 {
		return nil
	}
	lo, hi := iv.lo.Int64(), iv.hi.Int64()
	var vs []int64
	if _, _, res, ok := enumerate(p, call.st.facts, 64); ok && len(res) > 1 {
		// the values that it can have
		for _, v := range res {
			vs = append(vs, v.Int64())
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
		w := vs[:1]
		for _, v := range vs[1:] {
			if v != w[len(w)-1] {
				w = append(w, v)
			}
		}
		vs = w
	} else {
		for v := lo; v <= hi; v++ {
			vs = append(vs, v)
		}
	}
	if len(vs) < 2 {
		return nil
	}
	nobj := len(c.e.objs)
	ev0 := call.st.ev
	st := call.st.clone()
	var taus = map[int64]*Tau{}
	cs := int64(-1)
	var bnd [4][10]Iv
	key := fnName(fn)
	for _, v := range vs {
		args := append([]Val(nil), call.args...)
		args[ix] = IntV{pInt(v)}
		outs := c.e.callFn(fn, args, nil, call.st.clone(), call.depth+1)
		where := fmt.Sprintf("%s for the value %d, called from %s", fnName(fn), v, call.where())
		if len(outs) != 1 {
			panic(undecided("%s has %d outcomes", where, len(outs)))
		}
		o := outs[0]
		if o.pan != nil {
			return nil // no selection: it is run as it stands
		}
		if er && !isNilPtr(o.vals[1]) {
			panic(undecided("%s returns an error", where))
		}
		for id, x := range o.st.mem {
			if id < nobj && !valEq(x, st.get(id)) {
				panic(undecided("%s changes %s", where, c.e.objs[id].label))
			}
		}
		for x := o.st.ev; x != nil && x != ev0; x = x.parent {
			st.event(x.e)
		}
		k, tau, err := c.recognise(o.st, o.vals[0])
		if err != nil {
			panic(undecided("%s: %v", where, err))
		}
		if cs >= 0 && cs != k {
			panic(undecided("%s returns coordinate system %d instead of %d", where, k, cs))
		}
		cs = k
		taus[v] = tau
		g, _ := c.coords(o.st, o.vals[0])
		for a, l := range g.l {
			if l != nil {
				key += "/" + polysKey(l)
			}
			for i := range l {
				b := bounds(l[i], o.st.facts, stepsDeep, nil)
				if v == vs[0] {
					bnd[a][i] = b
				} else {
					bnd[a][i] = bnd[a][i].hull(b)
				}
			}
		}
	}
	// tau(v) = t0 + v*t1
	lo, hi = vs[0], vs[1]
	t1, ok := tauDiv(tauSub(taus[hi], taus[lo]), hi-lo)
	if !ok {
		panic(undecided("%s selects %s for the value %d and %s for %d: not multiples in proportion, called from %s", fnName(fn),
			c.tauString(taus[lo]), lo, c.tauString(taus[hi]), hi, call.where()))
	}
	t0 := tauSub(taus[lo], tauScale(t1, pInt(lo)))
	for _, v := range vs {
		if !c.tauEq(taus[v], tauAdd(t0, tauScale(t1, pInt(v))), st.facts) {
			panic(undecided("%s selects %s for the value %d and %s for %d: not multiples in proportion, called from %s", fnName(fn),
				c.tauString(taus[lo]), lo, c.tauString(taus[v]), v, call.where()))
		}
	}
	c.notes[fmt.Sprintf("%s: run for every value of parameter %d in [%d,%d], at %s", fnName(fn), ix, vs[0], vs[len(vs)-1], strings.SplitN(call.where(), "(", 2)[0])] = true
	tau := tauAdd(t0, tauScale(t1, p))
	l := c.pointLimbs(cs, tau, key+"@"+p.Key(), func(k, i int) Iv { return bnd[k][i] }, p.syms())
	r := c.mkGE(st, "result of "+fn.Name(), "fresh", cs, l)
	if er {
		return one(st, TupleV{r, IfaceV{}})
	}
	return one(st, r)
}

// valEq: equality of values by structure.
func valEq(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case IntV:
		y, ok := b.(IntV)
		return ok && x.p.eq(y.p)
	case BoolV:
		y, ok := b.(BoolV)
		return ok && (x.c == y.c || x.c.key() == y.c.key())
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x.obj == y.obj && pathEq(x.path, y.path) && polyEq(x.idx, y.idx)
	case SliceV:
		y, ok := b.(SliceV)
		return ok && x.obj == y.obj && pathEq(x.path, y.path) && polyEq(x.off, y.off) && polyEq(x.len, y.len) && polyEq(x.cap, y.cap)
	case StrV:
		y, ok := b.(StrV)
		return ok && (x.r == y.r || x.r.Key() == y.r.Key())
	case RopeV:
		y, ok := b.(RopeV)
		return ok && (x.r == y.r || x.r.Key() == y.r.Key())
	case StructV:
		y, ok := b.(StructV)
		return ok && valsEq(x.f, y.f)
	case ArrayV:
		y, ok := b.(ArrayV)
		return ok && valsEq(x.e, y.e)
	case TupleV:
		y, ok := b.(TupleV)
		return ok && valsEq(x, y)
	case IfaceV:
		y, ok := b.(IfaceV)
		return ok && (x.t == nil) == (y.t == nil) && (x.t == nil || types.Identical(x.t, y.t)) && valEq(x.v, y.v)
	case FuncV:
		y, ok := b.(FuncV)
		return ok && x.fn == y.fn && x.b == y.b && valsEq(x.free, y.free) && valEq(x.recv, y.recv)
	case BigV:
		y, ok := b.(BigV)
		return ok && x.shared == y.shared && polyEq(x.p, y.p)
	case ExtV:
		y, ok := b.(ExtV)
		return ok && x.kind == y.kind && extEq(x.d, y.d)
	case UnkV:
		y, ok := b.(UnkV)
		return ok && x == y
	}
	return false
}

func extEq(a, b any) (eq bool) {
	if x, ok := a.(*Rope); ok {
		y, ok := b.(*Rope)
		return ok && (x == y || (x != nil && y != nil && x.Key() == y.Key()))
	}
	defer func() {
		if recover() != nil {
			eq = false
		}
	}()
	return a == b
}

func valsEq(a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	if len(a) > 0 && &a[0] == &b[0] {
		return true
	}
	for i := range a {
		if !valEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func pathEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func polyEq(a, b *Poly) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.eq(b)
}

// tauDiv divides the coefficients by k, if they are constants and multiples of it.
func tauDiv(a *Tau, k int64) (*Tau, bool) {
	if k == 1 {
		return a, true
	}
	ok := true
	r := tauMap(a, func(p *Poly) *Poly {
		c, is := p.isConst()
		if !is || new(big.Int).Rem(c, bi(k)).Sign() != 0 {
			ok = false
			return p
		}
		return pConst(new(big.Int).Quo(c, bi(k)))
	})
	return r, ok
}
