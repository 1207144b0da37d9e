package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contracts: what has been proved of a repository function, used at its call sites.

func namedOf(t types.Type) (string, bool) {
	ptr := false
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		ptr = true
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Name(), ptr
	}
	return "", ptr
}

// repoFuncs: all functions and methods of the package with a body, callees before callers where possible.
func (c *Checker) repoFuncs() []*ssa.Function {
	if r, ok := c.facts["repoFuncs"].([]*ssa.Function); ok {
		return r
	}
	var all []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || !c.P.inRepo(f) || f.Synthetic != "" || !c.P.body(f) {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					add(ci.Common().StaticCallee())
				}
			}
		}
		all = append(all, f)
	}
	var names []string
	for n := range c.P.pkg.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := c.P.pkg.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := c.P.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f, ok := ms.At(i).Obj().(*types.Func); ok {
						add(c.P.prog.FuncValue(f))
					}
				}
			}
		}
	}
	c.facts["repoFuncs"] = all
	return all
}

// quiet runs k; false if it panics with an undecided step.
func (c *Checker) quiet(k func()) (ok bool) {
	n := len(c.obls)
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(undecidedErr); !is {
				if _, rt := r.(error); !rt {
					panic(r)
				}
			}
			ok = false
		}
		c.obls = c.obls[:n]
	}()
	k()
	return true
}

// ---- field operations -------------------------------------------------------

type feContract struct {
	fn   *ssa.Function
	feIx []int
	bIx  int
	sem  map[bool]string // by the value of the bool parameter (false if there is none)
}

var feSem = []struct {
	name string
	k    int
	want func(a [][]*Poly) *Poly
	val  func(a []*FPoly) *FPoly
}{
	{"f*g", 2, func(a [][]*Poly) *Poly { return pmul(sums(a[0]), sums(a[1])) }, func(a []*FPoly) *FPoly { return fmul(a[0], a[1]) }},
	{"f^2", 1, func(a [][]*Poly) *Poly { return pmul(sums(a[0]), sums(a[0])) }, func(a []*FPoly) *FPoly { return fmul(a[0], a[0]) }},
	{"2f^2", 1, func(a [][]*Poly) *Poly { return pscale(pmul(sums(a[0]), sums(a[0])), b2) }, func(a []*FPoly) *FPoly { return fscale(fmul(a[0], a[0]), b2) }},
}

func semNamed(s string) int {
	for i := range feSem {
		if feSem[i].name == s {
			return i
		}
	}
	return -1
}

// discoverFE finds the functions that multiply or square field elements and installs their contracts.
func (c *Checker) discoverFE() {
	for _, fn := range c.repoFuncs() {
		sig := fn.Signature
		if sig.Results().Len() != 1 {
			continue
		}
		if n, _ := namedOf(sig.Results().At(0).Type()); n != tFE {
			continue
		}
		var fe []int
		bix := -1
		bad := false
		for i, p := range fn.Params {
			if n, _ := namedOf(p.Type()); n == tFE {
				fe = append(fe, i)
			} else if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && bix < 0 {
				bix = i
			} else {
				bad = true
			}
		}
		if bad || len(fe) == 0 || len(fe) > 2 {
			continue
		}
		// only leaves: functions that use other field operations are interpreted on top of the contracts
		leaf := true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if cal := ci.Common().StaticCallee(); cal != nil && c.P.inRepo(cal) {
						if r := cal.Signature.Results(); r.Len() == 1 {
							if n, _ := namedOf(r.At(0).Type()); n == tFE {
								leaf = false
							}
						}
					}
				}
			}
		}
		if !leaf && fn != c.P.fn(tFE+".multiply") && fn != c.P.fn(tFE+".square") {
			continue
		}
		k := &feContract{fn: fn, feIx: fe, bIx: bix, sem: map[bool]string{}}
		// these two are the subjects of field.multiply and field.square
		if fn == c.P.fn(tFE+".multiply") && len(fe) == 2 && bix < 0 {
			k.sem[false] = "f*g"
		}
		if fn == c.P.fn(tFE+".square") && len(fe) == 1 && bix < 0 {
			k.sem[false] = "f^2"
		}
		for _, bv := range []bool{false, true} {
			if bv && bix < 0 {
				continue
			}
			c.quiet(func() {
				if k.sem[bv] != "" {
					return
				}
				if s := c.matchFE(k, bv); s != "" {
					k.sem[bv] = s
				}
			})
		}
		if os.Getenv("XPX_DBG") != "" {
			fmt.Println("FE candidate", fnName(fn), k.sem)
		}
		if len(k.sem) > 0 {
			c.e.contracts[fn] = c.feHandler(k)
			c.notes[fmt.Sprintf("%s: %v", fnName(fn), k.sem)] = true
		}
	}
}

func (c *Checker) matchFE(k *feContract, bv bool) string {
	st := c.e.newState()
	args := make([]Val, len(k.fn.Params))
	var as [][]*Poly
	for j, i := range k.feIx {
		l := symLimbs(fmt.Sprintf("k.%s.%c", k.fn.Name(), 'f'+j), mulInNum, mulInDen)
		as = append(as, l)
		args[i] = c.feVal(l)
	}
	if k.bIx >= 0 {
		args[k.bIx] = BoolV{cBool(bv)}
	}
	outs := c.call(st, k.fn, args...)
	found := ""
	for _, o := range outs {
		if o.pan != nil {
			return ""
		}
		m := c.matchLimbs(c.limbs(o.st, o.vals[0]), as, o.st.facts)
		if m == "" || found != "" && m != found {
			return ""
		}
		found = m
	}
	return found
}

func (c *Checker) matchLimbs(l []*Poly, as [][]*Poly, f *Facts) string {
	lin := true
	for _, p := range l {
		for _, t := range p.t {
			if len(t.m) > 1 {
				lin = false
			}
			for _, s := range t.m {
				if syms[s].def != nil {
					lin = false
				}
			}
		}
	}
	if lin {
		return ""
	}
	if _, ok := limbsWithin(l, mulOutNum, mulOutDen, f); !ok {
		return ""
	}
	sum := expand(limbSum(l), f)
	for _, s := range feSem {
		if s.k != len(as) {
			continue
		}
		if expand(psub(sum, s.want(as)), f).modCoefs(fieldP).isZero() {
			return s.name
		}
	}
	return ""
}

func polysKey(l []*Poly) string {
	var sb strings.Builder
	for _, p := range l {
		sb.WriteString(p.Key())
		sb.WriteByte(';')
	}
	return sb.String()
}

func allConst(l []*Poly) bool {
	for _, p := range l {
		if _, ok := p.isConst(); !ok {
			return false
		}
	}
	return true
}

func fam101(i int) Iv { return limbIv(i, mulOutNum, mulOutDen) }

func (c *Checker) feHandler(k *feContract) Handler {
	return func(call *Call) []Branch {
		bv := false
		if k.bIx >= 0 {
			b, ok := call.args[k.bIx].(BoolV)
			if !ok || b.c.k != cConst {
				return nil
			}
			bv = b.c.b
		}
		si := semNamed(k.sem[bv])
		if si < 0 {
			return nil
		}
		var ls [][]*Poly
		konst := true
		key := ""
		for _, i := range k.feIx {
			if p, ok := call.args[i].(PtrV); ok && p.obj == 0 {
				return nil // nil dereference: interpreted
			}
			l := c.limbs(call.st, call.args[i])
			ls = append(ls, l)
			konst = konst && allConst(l)
			key += polysKey(l) + "/"
		}
		if konst {
			return nil
		}
		var vs []*FPoly
		for j, l := range ls {
			if i, ok := limbsWithin(l, mulInNum, mulInDen, call.st.facts); !ok {
				panic(undecided("operand %d of %s may exceed the limb bound 1.65*2^26 / 1.65*2^25 at limb %d (%s), called from %s", j, k.fn.Name(), i, boundOf(l, i, call.st.facts), call.where()))
			}
			v := c.value(l, call.st.facts)
			if len(v.t) > 1 {
				v = fAtom(nameF(v))
			}
			vs = append(vs, v)
		}
		fam := limbFamily(feSem[si].name+":"+key, feSem[si].val(vs), fam101, famDeps(ls))
		return c.retFE(call, fam.polys())
	}
}

// retFE returns a field element from a contract, by value or by pointer.
func (c *Checker) retFE(call *Call, l []*Poly) []Branch {
	rt := call.fn.Signature.Results().At(0).Type()
	v := c.feVal(l)
	if p, ok := rt.Underlying().(*types.Pointer); ok {
		id := c.e.alloc(call.st, "result of "+call.fn.Name(), v, p.Elem())
		return one(call.st, PtrV{obj: id})
	}
	return one(call.st, v)
}

func famDeps(ls [][]*Poly) []int32 {
	m := map[int32]bool{}
	for _, l := range ls {
		for _, p := range l {
			for _, s := range p.syms() {
				m[s] = true
			}
		}
	}
	var r []int32
	for s := range m {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (call *Call) where() string {
	if call.site != nil {
		return call.e.pos(call.site)
	}
	if call.in != nil {
		return fnName(call.in)
	}
	return "?"
}

// value: the field value of the limbs.
func (c *Checker) value(l []*Poly, f *Facts) *FPoly {
	if v, ok := feValue(l); ok {
		return v
	}
	// limbs after carries: compare modulo p
	s := expand(limbSum(l), f).modCoefs(fieldP)
	if v, ok := sumValue(s); ok {
		return v
	}
	return fieldOf(s, f)
}

// sumValue recognises sum c * limbSum(family) + const, coefficients modulo p.
func sumValue(s *Poly) (*FPoly, bool) {
	val := fInt(0)
	for n := 0; n < 64; n++ {
		var fam *Family
		var cf *big.Int
		for _, t := range s.t {
			if len(t.m) == 0 {
				continue
			}
			if len(t.m) != 1 {
				return nil, false
			}
			y := syms[t.m[0]]
			if y.fam == nil || y.fam.kind != "limbs" {
				return nil, false
			}
			fam = y.fam
			cf = s.coef(fam.s[0].id)
			break
		}
		if fam == nil {
			break
		}
		if cf.Sign() == 0 {
			return nil, false
		}
		for i := 0; i < 10; i++ {
			w := new(big.Int).Lsh(cf, limbExp[i])
			s = pcomb(s, new(big.Int).Neg(w), pSym(fam.s[i]))
		}
		s = s.modCoefs(fieldP)
		for i := 0; i < 10; i++ {
			if s.coef(fam.s[i].id).Sign() != 0 {
				return nil, false
			}
		}
		val = fadd(val, fscale(fam.val, cf))
	}
	k, ok := s.isConst()
	if !ok {
		return nil, false
	}
	return fadd(val, fConst(k)), true
}

// feAtom: ten limbs of the named field value within the basic bounds.
func feAtom(v *FPoly, key string, num int64) []*Poly {
	return limbFamily("in:"+key+":"+v.Key(), v, func(i int) Iv { return limbIv(i, num, 100) }, fdeps(v)).polys()
}

// ---- powers -------------------------------------------------------------------

// discoverPow finds functions that raise a field element to a fixed power.
func (c *Checker) discoverPow() {
	for _, fn := range c.repoFuncs() {
		if c.e.contracts[fn] != nil || len(fn.Params) != 1 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if n, _ := namedOf(fn.Params[0].Type()); n != tFE {
			continue
		}
		if n, _ := namedOf(fn.Signature.Results().At(0).Type()); n != tFE {
			continue
		}
		fn := fn
		c.quiet(func() {
			e := c.powerOf(fn)
			if e == nil {
				return
			}
			c.notes[fmt.Sprintf("%s: f^%s", fnName(fn), shortBig(e))] = true
			c.e.contracts[fn] = func(call *Call) []Branch {
				if p, ok := call.args[0].(PtrV); ok && p.obj == 0 {
					return nil
				}
				l := c.limbs(call.st, call.args[0])
				if allConst(l) {
					return nil
				}
				if i, ok := limbsWithin(l, mulInNum, mulInDen, call.st.facts); !ok {
					panic(undecided("operand of %s may exceed the limb bound at limb %d, called from %s", fn.Name(), i, call.where()))
				}
				v := c.value(l, call.st.facts)
				fam := limbFamily("pow"+e.String()+":"+polysKey(l), fpowBig(v, e), fam101, famDeps([][]*Poly{l}))
				return c.retFE(call, fam.polys())
			}
		})
	}
}

// powerOf: the exponent e if fn computes f^e (nil otherwise).
func (c *Checker) powerOf(fn *ssa.Function) *big.Int {
	a := getAtom("power base", nil)
	outs := c.call(c.e.newState(), fn, c.feVal(feAtom(fAtom(a), "pow", mulInNum)))
	if len(outs) != 1 || outs[0].pan != nil {
		return nil
	}
	l := c.limbs(outs[0].st, outs[0].vals[0])
	if _, ok := limbsWithin(l, mulOutNum, mulOutDen, outs[0].st.facts); !ok {
		return nil
	}
	v := fexpand(c.value(l, outs[0].st.facts))
	if len(v.t) != 1 || v.t[0].c.Cmp(b1) != 0 || len(v.t[0].m) != 1 || v.t[0].m[0].a != a.id {
		return nil
	}
	e := v.t[0].m[0].e
	if e.Cmp(b2) < 0 {
		return nil
	}
	return e
}

func init() {
	reg("field.ops", []string{"field.multiply", "field.square"}, func(c *Checker) {
		c.discoverFE()
		for _, n := range []string{"multiply", "square"} {
			fn := c.mustFn(tFE + "." + n)
			// squaring may delegate
			a, b := getAtom("ops a", nil), getAtom("ops b", nil)
			la, lb := feAtom(fAtom(a), "a", mulInNum), feAtom(fAtom(b), "b", mulInNum)
			want := fmul(fAtom(a), fAtom(b))
			args := []Val{c.feVal(la), c.feVal(lb)}
			if n == "square" {
				args, want = args[:1], fmul(fAtom(a), fAtom(a))
			}
			outs := c.callC(c.e.newState(), fn, args...)
			ok := len(outs) == 1 && outs[0].pan == nil
			if ok {
				ok = c.value(c.limbs(outs[0].st, outs[0].vals[0]), outs[0].st.facts).Key() == want.Key()
			}
			c.ob(n+" has a usable contract", fnName(fn), ok, "")
		}
	})
	reg("field.invert", []string{"field.ops"}, func(c *Checker) {
		fn := c.mustFn(tFE + ".invert")
		e := c.powerOf(fn)
		want := new(big.Int).Sub(fieldP, b2)
		c.ob("inversion raises to the power p-2", fnName(fn), e != nil && e.Cmp(want) == 0, "exponent %v", e)
		c.discoverPow()
	})
}
