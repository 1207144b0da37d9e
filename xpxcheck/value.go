package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type IntV struct{ p *Poly }
type BoolV struct{ c *Cond }
type PtrV struct {
	obj  int // 0: nil
	path []int
	idx  *Poly // symbolic element, applied after path
}
type SliceV struct {
	obj  int // 0: nil
	path []int
	off  *Poly
	len  *Poly
	cap  *Poly
}
type StrV struct{ r *Rope }
type StructV struct{ f []Val }
type ArrayV struct{ e []Val }
type RopeV struct{ r *Rope } // content of a byte array of symbolic length
type IfaceV struct {
	t types.Type // nil: nil interface
	v Val
}
type FuncV struct {
	fn   *ssa.Function
	free []Val
	b    string // builtin
	recv Val    // bound method value of an external
}
type TupleV []Val

// BigV is a big.Int value; shared: it was copied as a struct, so that the words may belong to another number too
type BigV struct {
	p      *Poly
	shared bool
}
type ExtV struct { // state of an external object
	kind string
	d    any
}
type UnkV struct{ why string } // a value that must not be looked at

// Ropes -----------------------------------------------------------------

type Seg struct {
	bytes []*Poly // explicit
	arr   *Arr    // or a part of an unknown array
	off   *Poly
	n     *Poly
}
type Rope struct{ s []Seg }

func ropeBytes(b []*Poly) *Rope {
	if len(b) == 0 {
		return &Rope{}
	}
	return &Rope{s: []Seg{{bytes: b, n: pInt(int64(len(b)))}}}
}
func ropeArr(a *Arr, off, n *Poly) *Rope {
	if n.isZero() {
		return &Rope{}
	}
	return &Rope{s: []Seg{{arr: a, off: off, n: n}}}
}
func (r *Rope) length() *Poly {
	n := pInt(0)
	for _, s := range r.s {
		n = padd(n, s.n)
	}
	return n
}
func ropeCat(rs ...*Rope) *Rope {
	o := &Rope{}
	for _, r := range rs {
		for _, s := range r.s {
			o.push(s)
		}
	}
	return o
}
func (r *Rope) push(s Seg) {
	if s.n.isZero() {
		return
	}
	if len(r.s) > 0 {
		l := &r.s[len(r.s)-1]
		if l.bytes != nil && s.bytes != nil {
			nb := make([]*Poly, 0, len(l.bytes)+len(s.bytes))
			nb = append(append(nb, l.bytes...), s.bytes...)
			r.s = append([]Seg(nil), r.s...)
			r.s[len(r.s)-1] = Seg{bytes: nb, n: pInt(int64(len(nb)))}
			return
		}
		if l.arr != nil && s.arr == l.arr && padd(l.off, l.n).eq(s.off) {
			x := *l
			x.n = padd(l.n, s.n)
			r.s = append([]Seg(nil), r.s...)
			r.s[len(r.s)-1] = x
			return
		}
	}
	r.s = append(r.s, s)
}

// norm: a canonical form of r under f; arrays of small constant length become explicit bytes.
func (r *Rope) norm(f *Facts) *Rope {
	o := &Rope{}
	for _, s := range r.s {
		if s.bytes != nil {
			nb := make([]*Poly, len(s.bytes))
			for i, b := range s.bytes {
				nb[i] = normPoly(b, f)
			}
			o.push(Seg{bytes: nb, n: s.n})
			continue
		}
		n, off := normPoly(s.n, f), normPoly(s.off, f)
		if c, ok := n.isConst(); ok && c.IsInt64() && c.Int64() <= 4096 {
			var nb []*Poly
			for i := int64(0); i < c.Int64(); i++ {
				nb = append(nb, normPoly(s.arr.at(padd(off, pInt(i))), f))
			}
			if len(nb) > 0 {
				o.push(Seg{bytes: nb, n: n})
			}
			continue
		}
		o.push(Seg{arr: s.arr, off: off, n: n})
	}
	return o
}

func (r *Rope) Key() string {
	var sb strings.Builder
	for _, s := range r.s {
		if s.bytes != nil {
			sb.WriteString("B(")
			for _, b := range s.bytes {
				sb.WriteString(b.Key())
			}
			sb.WriteString(")")
		} else {
			fmt.Fprintf(&sb, "A(%s@%s#%s)", s.arr.name, s.off.Key(), s.n.Key())
		}
	}
	return sb.String()
}
func (r *Rope) String() string {
	var o []string
	for _, s := range r.s {
		if s.bytes != nil {
			txt := true
			b := make([]byte, 0, len(s.bytes))
			for _, p := range s.bytes {
				c, ok := p.isConst()
				if !ok || c.Int64() < 32 || c.Int64() > 126 {
					txt = false
					break
				}
				b = append(b, byte(c.Int64()))
			}
			if txt {
				o = append(o, fmt.Sprintf("%q", b))
			} else if len(s.bytes) > 2 {
				o = append(o, fmt.Sprintf("bytes[%d](%s,..,%s)", len(s.bytes), s.bytes[0], s.bytes[len(s.bytes)-1]))
			} else {
				o = append(o, fmt.Sprint(s.bytes))
			}
		} else {
			n := s.arr.name
			if len(n) > 60 {
				n = n[:28] + ".." + n[len(n)-28:]
			}
			o = append(o, fmt.Sprintf("%s[%s:+%s]", n, s.off, s.n))
		}
	}
	return strings.Join(o, " || ")
}
func (r *Rope) deps(out map[int32]bool) {
	for _, s := range r.s {
		if s.bytes != nil {
			for _, b := range s.bytes {
				depSyms(b, out)
			}
		} else {
			depSyms(s.off, out)
			depSyms(s.n, out)
			for _, d := range s.arr.deps {
				depSym(d, out)
			}
		}
	}
}
func (r *Rope) depList() []int32 {
	m := map[int32]bool{}
	r.deps(m)
	var o []int32
	for s := range m {
		o = append(o, s)
	}
	return o
}

func constStr(s string) *Rope {
	b := make([]*Poly, len(s))
	for i := range b {
		b[i] = pInt(int64(s[i]))
	}
	return ropeBytes(b)
}
func (r *Rope) text() (string, bool) {
	var sb strings.Builder
	for _, s := range r.s {
		if s.bytes == nil {
			return "", false
		}
		for _, p := range s.bytes {
			c, ok := p.isConst()
			if !ok {
				return "", false
			}
			sb.WriteByte(byte(c.Int64()))
		}
	}
	return sb.String(), true
}

// sub returns the bytes [lo,hi) of r, when the position can be decided.
func (r *Rope) sub(lo, hi *Poly, f *Facts) (*Rope, bool) {
	pos := pInt(0)
	o := &Rope{}
	le := func(a, b *Poly) (bool, bool) { return decide(condGE(psub(b, a)), f) }
	if v, k := le(hi, lo); k && v {
		return o, true
	}
	for _, s := range r.s {
		end := padd(pos, s.n)
		// intersect [pos,end) with [lo,hi)
		if v, k := le(end, lo); k && v {
			pos = end
			continue
		}
		if v, k := le(hi, pos); k && v {
			break
		}
		a, b := pos, end
		if v, k := le(pos, lo); k && v {
			a = lo
		} else if v, k := le(lo, pos); !k || !v {
			return nil, false
		}
		if v, k := le(hi, end); k && v {
			b = hi
		} else if v, k := le(end, hi); !k || !v {
			return nil, false
		}
		if s.bytes != nil {
			x, k1 := normPoly(psub(a, pos), f).isConst()
			y, k2 := normPoly(psub(b, pos), f).isConst()
			if !k1 || !k2 {
				return nil, false
			}
			if y.Cmp(x) > 0 {
				nb := s.bytes[x.Int64():y.Int64()]
				o.push(Seg{bytes: nb, n: pInt(int64(len(nb)))})
			}
		} else {
			o.push(Seg{arr: s.arr, off: padd(s.off, psub(a, pos)), n: psub(b, a)})
		}
		pos = end
	}
	return o, true
}

// helpers ---------------------------------------------------------------

var zeroArr = &Arr{name: "0", mk: func(i *Poly) *Poly { return pInt(0) }}

func isNilVal(v Val) (bool, bool) {
	switch x := v.(type) {
	case PtrV:
		return x.obj == 0, true
	case SliceV:
		return x.obj == 0, true
	case IfaceV:
		return x.t == nil, true
	case FuncV:
		return x.fn == nil && x.b == "", true
	case nil:
		return true, true
	}
	return false, false
}

var bigIntType types.Type // set by the loader

func isBigInt(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int"
}

func zeroVal(t types.Type) Val {
	if isBigInt(t) {
		return BigV{p: pInt(0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return IntV{pInt(0)}
		case u.Info()&types.IsBoolean != 0:
			return BoolV{cFalse}
		case u.Info()&types.IsString != 0:
			return StrV{&Rope{}}
		case u.Kind() == types.UnsafePointer:
			return PtrV{}
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return UnkV{"zero of " + t.String()}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{off: pInt(0), len: pInt(0), cap: pInt(0)}
	case *types.Struct:
		f := make([]Val, u.NumFields())
		for i := range f {
			f[i] = zeroVal(u.Field(i).Type())
		}
		return StructV{f}
	case *types.Array:
		e := make([]Val, u.Len())
		for i := range e {
			e[i] = zeroVal(u.Elem())
		}
		return ArrayV{e}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Tuple:
		return TupleV{}
	}
	return UnkV{"zero of " + t.String()}
}

func intType(t types.Type) (w uint, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeRange(w uint, signed bool) Iv {
	if signed {
		return Iv{new(big.Int).Neg(pow2(w - 1)), new(big.Int).Sub(pow2(w-1), b1)}
	}
	return Iv{b0, new(big.Int).Sub(pow2(w), b1)}
}

// wrap brings p into the range of the type.
func wrap(p *Poly, w uint, signed bool, f *Facts) *Poly {
	r := typeRange(w, signed)
	if c, ok := p.isConst(); ok && c.Cmp(r.lo) >= 0 && c.Cmp(r.hi) <= 0 {
		return p
	}
	if naiveIv(p, f).within(r.lo, r.hi) {
		return p
	}
	if bounds(p, f, stepsDeep, &r).within(r.lo, r.hi) {
		return nameTight(p, f)
	}
	if signed {
		q := pfloor(padd(p, pConst(pow2(w-1))), w, f)
		return nameTight(pcomb(p, new(big.Int).Neg(pow2(w)), q), f)
	}
	return pmod2k(p, w, f)
}
