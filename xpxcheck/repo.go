package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Access to the values of the analysed package.

func (c *Checker) structOf(name string) *types.Struct {
	t := c.P.typ(name)
	if t == nil {
		panic(undecided("type %s is missing", name))
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(undecided("type %s is not a struct", name))
	}
	return s
}

func (c *Checker) fieldIdx(typ, field string) int {
	s := c.structOf(typ)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return i
		}
	}
	panic(undecided("type %s has no field %s", typ, field))
}

func (c *Checker) fieldIdxOpt(typ, field string) int {
	s := c.structOf(typ)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			return i
		}
	}
	return -1
}

// mk builds a struct value with the given fields, others zero.
func (c *Checker) mk(typ string, fields map[string]Val) StructV {
	s := c.structOf(typ)
	v := zeroVal(c.P.typ(typ)).(StructV)
	r := StructV{append([]Val(nil), v.f...)}
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if x, ok := fields[s.Field(i).Name()]; ok {
			r.f[i] = x
			n++
		}
	}
	if n != len(fields) {
		panic(undecided("type %s does not have the fields %v", typ, fields))
	}
	return r
}

// ptrTo allocates an object with the value.
func (c *Checker) ptrTo(st *State, label, owner string, v Val, t types.Type) PtrV {
	id := c.e.newObj(label, owner, t)
	st.set(id, v)
	return PtrV{obj: id}
}

func (c *Checker) mustFn(name string) *ssa.Function {
	f := c.P.fn(name)
	if f == nil {
		panic(undecided("function %s is missing", name))
	}
	return f
}

// adapt v (a struct value of type named typ) to the parameter type: by value or by pointer.
func (c *Checker) adapt(st *State, v Val, pt types.Type, label, owner string) Val {
	if p, ok := pt.Underlying().(*types.Pointer); ok {
		if _, is := v.(PtrV); is {
			return v
		}
		return c.ptrTo(st, label, owner, v, p.Elem())
	}
	if p, ok := v.(PtrV); ok {
		return c.e.load(st, p)
	}
	return v
}

// call runs the function with struct arguments adapted to the parameter types.
func (c *Checker) call(st *State, fn *ssa.Function, args ...Val) []Outcome {
	if len(args) != len(fn.Params) {
		panic(undecided("%s takes %d parameters, expected %d", fnName(fn), len(fn.Params), len(args)))
	}
	as := make([]Val, len(args))
	for i, a := range args {
		switch a.(type) {
		case StructV, PtrV:
			as[i] = c.adapt(st, a, fn.Params[i].Type(), fmt.Sprintf("argument %d of %s", i, fn.Name()), "caller")
		default:
			as[i] = a
		}
	}
	return c.e.callFn(fn, as, nil, st, 0)
}

// callC is call, but a contract of fn itself is used too.
func (c *Checker) callC(st *State, fn *ssa.Function, args ...Val) []Outcome {
	as := make([]Val, len(args))
	for i, a := range args {
		switch a.(type) {
		case StructV, PtrV:
			as[i] = c.adapt(st, a, fn.Params[i].Type(), fmt.Sprintf("argument %d of %s", i, fn.Name()), "caller")
		default:
			as[i] = a
		}
	}
	var r []Outcome
	for _, b := range c.e.callStatic(fn, as, nil, st, nil, nil) {
		o := Outcome{st: b.st, pan: b.pan}
		if t, ok := b.v.(TupleV); ok {
			o.vals = t
		} else if b.pan == nil {
			o.vals = []Val{b.v}
		}
		r = append(r, o)
	}
	return r
}

// ---- field elements --------------------------------------------------------

const tFE = "Ed25519FieldElement"
const tEFE = "Ed25519EncodedFieldElement"
const tGE = "Ed25519GroupElement"
const tEGE = "Ed25519EncodedGroupElement"

func (c *Checker) feVal(l []*Poly) StructV {
	e := make([]Val, len(l))
	for i, p := range l {
		e[i] = IntV{p}
	}
	return c.mk(tFE, map[string]Val{"Raw": ArrayV{e}})
}

func (c *Checker) limbs(st *State, v Val) []*Poly {
	if p, ok := v.(PtrV); ok {
		if p.obj == 0 {
			panic(undecided("field element is nil"))
		}
		v = c.e.load(st, p)
	}
	s, ok := v.(StructV)
	if !ok {
		panic(undecided("field element is %T", v))
	}
	a, ok := s.f[c.fieldIdx(tFE, "Raw")].(ArrayV)
	if !ok || len(a.e) != 10 {
		panic(undecided("field element does not have ten limbs"))
	}
	r := make([]*Poly, 10)
	for i, x := range a.e {
		r[i] = normPoly(x.(IntV).p, st.facts)
	}
	return r
}

// symLimbs: ten fresh base symbols bounded by num/den * 2^25 resp. 2^24
func symLimbs(name string, num, den int64) []*Poly {
	r := make([]*Poly, 10)
	for i := range r {
		iv := limbIv(i, num, den)
		r[i] = pSym(newSym(fmt.Sprintf("%s%d", name, i), iv.lo, iv.hi))
	}
	return r
}

func symBytes(name string, n int) []*Poly {
	r := make([]*Poly, n)
	for i := range r {
		r[i] = pSym(newSym(fmt.Sprintf("%s%d", name, i), b0, b255))
	}
	return r
}

// within: every limb is within num/den times the basic bound
func limbsWithin(l []*Poly, num, den int64, f *Facts) (int, bool) {
	for i, p := range l {
		need := limbIv(i, num, den)
		if !bounds(p, f, stepsDeep, &need).within(need.lo, need.hi) {
			return i, false
		}
	}
	return -1, true
}

// raw bytes of an encoded field element / group element pointer
func (c *Checker) rawBytes(st *State, v Val, typ string) []*Poly {
	if p, ok := v.(PtrV); ok {
		if p.obj == 0 {
			panic(undecided("%s is nil", typ))
		}
		v = c.e.load(st, p)
	}
	s, ok := v.(StructV)
	if !ok {
		panic(undecided("%s is %T", typ, v))
	}
	return c.bytes(st, s.f[c.fieldIdx(typ, "Raw")])
}

func (c *Checker) bytes(st *State, v Val) []*Poly {
	s, ok := v.(SliceV)
	if !ok {
		panic(undecided("not a byte slice: %T", v))
	}
	b, ok := c.e.bytesOf(st, s)
	if !ok {
		panic(undecided("byte slice of unknown length"))
	}
	return b
}

func (c *Checker) newSlice(st *State, label, owner string, b []*Poly) SliceV {
	save := c.e.ownNew
	c.e.ownNew = owner
	s := c.e.newBytes(st, label, ropeBytes(b))
	c.e.ownNew = save
	return s
}

func constPolys(b []byte) []*Poly {
	r := make([]*Poly, len(b))
	for i, x := range b {
		r[i] = pInt(int64(x))
	}
	return r
}

// efe builds an encoded field element around the bytes, through the constructor of the package.
func (c *Checker) efe(st *State, b []*Poly, owner string) (PtrV, *State) {
	fn := c.mustFn("NewEd25519EncodedFieldElement")
	outs := c.call(st, fn, c.newSlice(st, "encoded field element bytes", owner, b))
	if len(outs) != 1 || outs[0].pan != nil || len(outs[0].vals) != 2 {
		panic(undecided("NewEd25519EncodedFieldElement does not accept %d bytes", len(b)))
	}
	p, ok := outs[0].vals[0].(PtrV)
	if !ok || p.obj == 0 {
		panic(undecided("NewEd25519EncodedFieldElement rejects %d bytes", len(b)))
	}
	return p, outs[0].st
}

func le(b *big.Int, n int) []byte {
	r := make([]byte, n)
	x := b.Bytes()
	for i := range x {
		if j := len(x) - 1 - i; j < n {
			r[j] = x[i]
		}
	}
	return r
}

func isNilPtr(v Val) bool {
	n, ok := isNilVal(v)
	return ok && n
}
