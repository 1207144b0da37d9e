package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions outside of the repository. Hashes and ciphers are uninterpreted functions, the random
// source delivers unknown bytes or fails, big integers are exact.

var extPkg = types.NewPackage("ext", "ext")
var extTypes = map[string]types.Type{}

func extType(name string) types.Type {
	if t, ok := extTypes[name]; ok {
		return t
	}
	t := types.NewNamed(types.NewTypeName(0, extPkg, name, nil), types.NewStruct(nil, nil), nil)
	extTypes[name] = t
	return t
}
func isExtType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == extPkg
}
func extTypeName(t types.Type) string { return t.(*types.Named).Obj().Name() }

// packages whose functions may be followed into
var followPkgs = map[string]bool{
	"bytes": true, "encoding/binary": true, "math/bits": true, "strings": true, "slices": true, "unicode/utf8": true,
	"github.com/proximax-storage/go-xpx-utils": true,
}

func interpretable(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil {
		// wrappers and bound methods
		return fn.Synthetic != ""
	}
	return followPkgs[p.Pkg.Path()]
}

type sink struct {
	what string
	args []Val
	st   *State
}

type errData struct {
	text string
	deps []int32
	site string
}

func (e *Engine) newError(text string, args []Val, st *State) Val {
	m := map[int32]bool{}
	for _, a := range args {
		valDeps(st, a, m, map[int]bool{}, 0)
	}
	var d []int32
	for s := range m {
		d = append(d, s)
	}
	return IfaceV{extType("error"), ExtV{"error", &errData{text: text, deps: d, site: ""}}}
}

// valDeps collects the symbols that a value reveals when it is printed.
func valDeps(st *State, v Val, out map[int32]bool, seen map[int]bool, depth int) {
	if depth > 12 {
		return
	}
	switch x := v.(type) {
	case IntV:
		depSyms(normPoly(x.p, st.facts), out)
	case BoolV:
		condDeps(x.c, out)
	case StrV:
		x.r.deps(out)
	case RopeV:
		x.r.deps(out)
	case BigV:
		depSyms(normPoly(x.p, st.facts), out)
	case StructV:
		for _, f := range x.f {
			valDeps(st, f, out, seen, depth+1)
		}
	case ArrayV:
		for _, f := range x.e {
			valDeps(st, f, out, seen, depth+1)
		}
	case TupleV:
		for _, f := range x {
			valDeps(st, f, out, seen, depth+1)
		}
	case IfaceV:
		if x.t != nil {
			valDeps(st, x.v, out, seen, depth+1)
		}
	case PtrV:
		if x.obj != 0 && !seen[x.obj] {
			seen[x.obj] = true
			valDeps(st, st.get(x.obj), out, seen, depth+1)
		}
	case SliceV:
		if x.obj != 0 {
			c := st.e.sliceContent(st, x)
			if arr, ok := c.(ArrayV); ok {
				o, k1 := normPoly(x.off, st.facts).isConst()
				n, k2 := normPoly(x.len, st.facts).isConst()
				if k1 && k2 {
					for _, el := range arr.e[o.Int64() : o.Int64()+n.Int64()] {
						valDeps(st, el, out, seen, depth+1)
					}
					return
				}
			}
			valDeps(st, c, out, seen, depth+1)
		}
	case ExtV:
		if d, ok := x.d.(*errData); ok {
			for _, s := range d.deps {
				out[s] = true
			}
		}
	}
}

func condDeps(c *Cond, out map[int32]bool) {
	switch c.k {
	case cGE, cEQ:
		depSyms(c.p, out)
	case cAtom:
		if d, ok := c.data.(interface{ deps(map[int32]bool) }); ok {
			d.deps(out)
		}
	case cNot:
		condDeps(c.x, out)
	case cAnd, cXor, cOr:
		condDeps(c.x, out)
		condDeps(c.y, out)
	}
}

var nilErr = IfaceV{}

func (c *Call) ret(v ...Val) []Branch { return one(c.st, pack(v)) }
func (c *Call) slice(i int) SliceV {
	s, ok := c.args[i].(SliceV)
	if !ok {
		panic(undecided("%s: argument %d is %T", c.name, i, c.args[i]))
	}
	return s
}
func (c *Call) int(i int) *Poly { return c.args[i].(IntV).p }

// alternatives on a condition
func (c *Call) split(cd *Cond, k func(st *State, v bool) []Branch) []Branch {
	if v, known := decide(cd, c.st.facts); known {
		return k(c.st, v)
	}
	var r []Branch
	for _, a := range c.e.splitCond(cd, c.st.facts) {
		ns := c.st.clone()
		ns.facts = a.f
		r = append(r, k(ns, a.v)...)
	}
	return r
}

// times goes through the values of a count that is known to be small.
func (c *Call) times(i int, k func(st *State, n int64) []Branch) []Branch {
	n := c.int(i)
	iv := bounds(n, c.st.facts, stepsDeep, nil)
	if iv.lo == nil || iv.hi == nil || !iv.within(bi(-1<<20), bi(1<<20)) || iv.hi.Int64()-iv.lo.Int64() > 64 {
		panic(undecided("%s of an unknown count at %s", c.name, c.e.posOr(c.site)))
	}
	var r []Branch
	if iv.lo.Sign() < 0 {
		r = c.panics(c.st, c.name+" of a negative count")
	}
	for v := iv.lo.Int64(); v <= iv.hi.Int64(); v++ {
		if v < 0 {
			continue
		}
		if f, ok := assume(condEQ(psub(n, pInt(v))), true, c.st.facts); ok {
			st := c.st.clone()
			st.facts = f
			r = append(r, k(st, v)...)
		}
	}
	return r
}

// sprintf: the text of a format of plain %s, %x, %X and %d verbs; nil for any other
func (c *Call) sprintf() *Rope {
	fs, ok := c.args[0].(StrV)
	if !ok {
		return nil
	}
	t, ok := fs.r.text()
	if !ok {
		return nil
	}
	var args []Val
	if s, ok := c.args[1].(SliceV); ok && s.obj != 0 {
		arr, ok := c.e.sliceContent(c.st, s).(ArrayV)
		if !ok {
			return nil
		}
		args = arr.e
	}
	var rs []*Rope
	for i := 0; i < len(t); i++ {
		if t[i] != '%' {
			rs = append(rs, constStr(t[i:i+1]))
			continue
		}
		if i++; i == len(t) {
			return nil
		}
		if t[i] == '%' {
			rs = append(rs, constStr("%"))
			continue
		}
		if len(args) == 0 {
			return nil
		}
		a, ok := args[0].(IfaceV)
		args = args[1:]
		if !ok || a.t == nil || types.NewMethodSet(a.t).Len() > 0 {
			return nil
		}
		var r *Rope
		bytes := false
		switch v := a.v.(type) {
		case StrV:
			r = v.r
		case SliceV:
			sl, ok := a.t.Underlying().(*types.Slice)
			if !ok {
				return nil
			}
			if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Kind() != types.Uint8 {
				return nil
			}
			r, bytes = c.e.ropeOf(c.st, v), true
		case IntV:
			k, ok := v.p.isConst()
			if !ok || t[i] != 'd' {
				return nil
			}
			rs = append(rs, constStr(k.String()))
			continue
		default:
			return nil
		}
		r = r.norm(c.st.facts)
		switch {
		case t[i] == 's', t[i] == 'v' && !bytes:
		case t[i] == 'x':
			r = c.e.hexRope(r)
		case t[i] == 'X':
			r = upperHex(r)
		default:
			return nil
		}
		rs = append(rs, r)
	}
	if len(args) > 0 {
		return nil
	}
	return ropeCat(rs...).norm(c.st.facts)
}

// upperHex: the upper-case hex digits of bytes
func upperHex(src *Rope) *Rope {
	if t, ok := src.text(); ok {
		return constStr(strings.ToUpper(hex.EncodeToString([]byte(t))))
	}
	a := newArr("HEX{" + src.Key() + "}")
	if hexOf[a] == nil {
		a.deps = ropeDeps(src)
		hexOf[a] = src
	}
	return ropeArr(a, pInt(0), pscale(src.length(), b2))
}

func (c *Call) panics(st *State, why string) []Branch {
	at := ""
	if c.site != nil {
		at = " at " + c.e.pos(c.site)
	}
	return []Branch{{st: st, pan: &panicInfo{nil, why + at}}}
}

// ---- hashes ----------------------------------------------------------------

type hashState struct {
	alg string
	n   int
	r   *Rope
}

func newHash(alg string, n int) Handler {
	return func(c *Call) []Branch {
		id := c.e.alloc(c.st, alg, ExtV{"hash", hashState{alg, n, &Rope{}}}, nil)
		return c.ret(IfaceV{extType("hash.Hash"), PtrV{obj: id}})
	}
}

func digest(alg string, n int, r *Rope, st *State) []*Poly {
	return hashFamily(alg, n, r, st.facts).polys()
}

func sumHash(alg string, n int) Handler {
	return func(c *Call) []Branch {
		var el []Val
		for _, b := range digest(alg, n, c.e.ropeOf(c.st, c.slice(0)), c.st) {
			el = append(el, IntV{b})
		}
		return c.ret(ArrayV{el})
	}
}

// ---- randomness --------------------------------------------------------------

type readEvent struct {
	reader string
	n      *Poly
	arr    *Arr
	off    *Poly
	kind   string // full, short, fail
	api    string
}

// readInto: all outcomes of reading from a source
func (c *Call) readInto(rd ExtV, s SliceV, api string, full bool) []Branch {
	e := c.e
	n := normPoly(s.len, c.st.facts)
	if s.obj == 0 {
		n = pInt(0)
	}
	name := fmt.Sprint(rd.d)
	k := 0
	for _, ev := range c.st.events() {
		if ev.kind == "read" {
			k++
		}
	}
	if k >= 40 {
		panic(undecided("the randomness source is read again and again"))
	}
	mk := func(st *State, kind string) *Arr {
		a := newArr(fmt.Sprintf("rnd[%s,%d,%s]%s", name, k, kind, strings.Repeat("'", st.epoch)))
		e.writeBytes(st, s, pInt(0), ropeArr(a, pInt(0), n), nil, c.site)
		st.event(Event{kind: "read", fn: e.curIn, at: e.posOr(c.site), data: &readEvent{reader: name, n: n, arr: a, off: pInt(0), kind: kind, api: api}})
		return a
	}
	var r []Branch
	s1 := c.st.clone()
	mk(s1, "full")
	r = append(r, Branch{st: s1, v: TupleV{IntV{n}, nilErr}})
	cnt := func(st *State, kind string) *Poly {
		y := symKeyed(fmt.Sprintf("cnt[%s,%d,%s]", name, k, kind), "", func() *Sym {
			return newSym(fmt.Sprintf("count[%s,%d]", name, k), b0, nil)
		})
		st.facts, _ = assume(condGE(psub(n, pSym(y))), true, st.facts)
		return pSym(y)
	}
	if !full {
		s2 := c.st.clone()
		mk(s2, "short")
		p := cnt(s2, "short")
		if f, ok := assume(condGE(psub(psub(n, p), pInt(1))), true, s2.facts); ok {
			s2.facts = f
			r = append(r, Branch{st: s2, v: TupleV{IntV{p}, nilErr}})
		}
	}
	s3 := c.st.clone()
	mk(s3, "fail")
	p := cnt(s3, "fail")
	s3.event(Event{kind: "fault", fn: e.curIn, at: e.posOr(c.site), data: "randomness source fails"})
	r = append(r, Branch{st: s3, v: TupleV{IntV{p}, e.newError("read error", nil, s3)}})
	return r
}

// ---- AES-CBC -----------------------------------------------------------------

type cbcState struct {
	enc bool
	key *Rope
	iv  *Rope
	bad bool
}
type cbcRec struct {
	key, iv string
	src     *Rope
	n       *Poly
}

var cbcEncs = map[string]*cbcRec{}

func ropeDeps(rs ...*Rope) []int32 {
	m := map[int32]bool{}
	for _, r := range rs {
		r.deps(m)
	}
	var d []int32
	for s := range m {
		d = append(d, s)
	}
	sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
	return d
}

func cbcArr(enc bool, key, iv, src *Rope, n *Poly) *Arr {
	k := "cbcdec"
	if enc {
		k = "cbcenc"
	}
	name := k + "{" + key.Key() + ";" + iv.Key() + ";" + src.Key() + "}"
	a := newArr(name)
	if a.deps == nil {
		a.deps = ropeDeps(key, iv, src)
	}
	if enc {
		cbcEncs[name] = &cbcRec{key.Key(), iv.Key(), src, n}
	}
	return a
}

// ---- hex ---------------------------------------------------------------------

var hexOf = map[*Arr]*Rope{}

func hexArr(r *Rope) *Arr {
	a := newArr("hex{" + r.Key() + "}")
	if hexOf[a] == nil {
		a.deps = ropeDeps(r)
		hexOf[a] = r
	}
	return a
}

// hexSource: the bytes that a string is the hex form of
func hexSource(r *Rope, f *Facts) (*Rope, bool) {
	r = r.norm(f)
	if len(r.s) > 1 {
		// hex forms one after the other
		all := &Rope{}
		for _, x := range r.s {
			src, ok := hexSource(&Rope{s: []Seg{x}}, f)
			if !ok {
				return nil, false
			}
			all = &Rope{s: append(append([]Seg(nil), all.s...), src.s...)}
		}
		return all.norm(f), true
	}
	if len(r.s) == 1 && r.s[0].arr != nil {
		if src, ok := hexOf[r.s[0].arr]; ok && r.s[0].off.isZero() {
			n := pscale(src.length(), b2)
			if normPoly(n, f).eq(normPoly(r.s[0].n, f)) {
				return src, true
			}
		}
	}
	// expanded reads, of one form after the other
	if len(r.s) == 1 && len(r.s[0].bytes) > 0 {
		all := &Rope{}
		for bs := r.s[0].bytes; len(bs) > 0; {
			y := bs[0].single()
			if y == nil || y.kind != symRead {
				return nil, false
			}
			src, ok := hexOf[y.arr]
			if !ok {
				return nil, false
			}
			n, ok := normPoly(pscale(src.length(), b2), f).isConst()
			if !ok || n.Sign() == 0 || n.Cmp(bi(int64(len(bs)))) > 0 {
				return nil, false
			}
			for i, b := range bs[:n.Int64()] {
				if !b.eq(y.arr.at(pInt(int64(i)))) {
					return nil, false
				}
			}
			bs = bs[n.Int64():]
			all = &Rope{s: append(append([]Seg(nil), all.s...), src.s...)}
		}
		return all.norm(f), true
	}
	return nil, false
}

// ---- byte equality -----------------------------------------------------------

type eqData struct{ a, b *Rope }

func (d *eqData) deps(out map[int32]bool) { d.a.deps(out); d.b.deps(out) }
func (d *eqData) decide(f *Facts) (bool, bool) {
	a, b := d.a.norm(f), d.b.norm(f)
	if a.Key() == b.Key() {
		return true, true
	}
	if v, k := decide(condEQ(psub(a.length(), b.length())), f); k && !v {
		return false, true
	}
	if len(a.s) == 1 && len(b.s) == 1 && a.s[0].bytes != nil && b.s[0].bytes != nil && len(a.s[0].bytes) == len(b.s[0].bytes) {
		if fa, fb := encOf(a.s[0].bytes), encOf(b.s[0].bytes); fa != nil && fb != nil {
			return decide(condFZero(fsub(fa, fb)), f)
		}
		if v, k := compressedNE(a.s[0].bytes, b.s[0].bytes, f); k {
			return v, true
		}
		all := true
		for i := range a.s[0].bytes {
			v, k := decideCheap(condEQ(psub(a.s[0].bytes[i], b.s[0].bytes[i])), f)
			if k && !v {
				return false, true
			}
			if !k {
				all = false
			}
		}
		if all {
			return true, true
		}
	}
	return false, false
}

// compressedNE: an encoding with a top bit against constant bytes
func compressedNE(a, b []*Poly, f *Facts) (bool, bool) {
	for n := 0; n < 2; n++ {
		if allConst(b) && len(b) == 32 {
			if v := encWithTop(a, f); v != nil {
				k, _ := valueLE(b).isConst()
				k = new(big.Int).And(k, new(big.Int).Sub(pow2(255), b1))
				if k.Cmp(fieldP) >= 0 {
					return false, true
				}
				if eq, known := decide(condFZero(fsub(v, fConst(k))), f); known && !eq {
					return false, true
				}
			}
		}
		a, b = b, a
	}
	return false, false
}

// assume: bytes that equal constants are these constants.
func (d *eqData) assume(v bool, f *Facts) (*Facts, bool) {
	if !v {
		return f, true
	}
	a, b := d.a.norm(f), d.b.norm(f)
	if len(a.s) != 1 || len(b.s) != 1 || a.s[0].bytes == nil || b.s[0].bytes == nil {
		return f, true
	}
	x, y := a.s[0].bytes, b.s[0].bytes
	if len(x) != len(y) || !allConst(x) && !allConst(y) {
		return f, true
	}
	ok := true
	for i := range x {
		if f, ok = assume(condEQ(psub(x[i], y[i])), true, f); !ok {
			return f, false
		}
	}
	return f, true
}

func decideCheap(c *Cond, f *Facts) (bool, bool) {
	if c.k == cConst {
		return c.b, true
	}
	if iv := naiveIv(normPoly(c.p, f), f); (iv.lo != nil && iv.lo.Sign() > 0) || (iv.hi != nil && iv.hi.Sign() < 0) {
		return false, true
	}
	return decide(c, f)
}

// encOf: the field value of which the 32 bytes are the canonical encoding
func encOf(b []*Poly) *FPoly {
	if len(b) != 32 {
		return nil
	}
	konst := new(big.Int)
	all := true
	for i := 31; i >= 0; i-- {
		c, ok := b[i].isConst()
		if !ok {
			all = false
			break
		}
		konst.Lsh(konst, 8)
		konst.Add(konst, c)
	}
	if all {
		if konst.Cmp(fieldP) < 0 {
			return fConst(konst)
		}
		return nil
	}
	s := b[0].single()
	if s == nil || s.fam == nil || s.fam.kind != "enc" {
		return nil
	}
	for i := range b {
		if y := b[i].single(); y == nil || y.fam != s.fam || y.famIdx != i {
			return nil
		}
	}
	return s.fam.val
}

func (e *Engine) ropeEq(st *State, a, b *Rope) *Cond { return ropeEqCond(a, b, st.facts) }

func ropeEqCond(a, b *Rope, f *Facts) *Cond {
	a, b = a.norm(f), b.norm(f)
	if a.Key() == b.Key() {
		return cTrue
	}
	lc := condEQ(psub(a.length(), b.length()))
	if v, k := decide(lc, f); k {
		if !v {
			return cFalse
		}
		lc = cTrue
	}
	if len(a.s) == 0 || len(b.s) == 0 {
		return lc
	}
	if len(a.s) == 1 && len(b.s) == 1 && a.s[0].bytes != nil && b.s[0].bytes != nil {
		if fa, fb := encOf(a.s[0].bytes), encOf(b.s[0].bytes); fa != nil && fb != nil {
			return condFZero(fsub(fa, fb))
		}
		if len(a.s[0].bytes) == 1 {
			return condEQ(psub(a.s[0].bytes[0], b.s[0].bytes[0]))
		}
	}
	if a.Key() > b.Key() {
		a, b = b, a
	}
	d := &eqData{a, b}
	if v, k := d.decide(f); k {
		return cand(lc, cBool(v))
	}
	key := a.Key() + "|" + b.Key()
	if len(a.s) == 1 && len(b.s) == 1 && a.s[0].bytes != nil && len(a.s[0].bytes) == len(b.s[0].bytes) {
		// bytewise: the order of the comparisons does not matter
		var ks []string
		for i, x := range a.s[0].bytes {
			k1, k2 := x.Key(), b.s[0].bytes[i].Key()
			if k1 > k2 {
				k1, k2 = k2, k1
			}
			ks = append(ks, k1+"="+k2)
		}
		sort.Strings(ks)
		key = strings.Join(ks, ",")
	}
	return cand(lc, condAtom("eqb:"+key, d))
}

// ---- field zero --------------------------------------------------------------

type fzData struct{ v *FPoly }

func (d *fzData) deps(out map[int32]bool) {
	for _, s := range fdeps(d.v) {
		out[s] = true
	}
}
func (d *fzData) decide(f *Facts) (bool, bool) {
	if d.v.isZero() {
		return true, true
	}
	if len(d.v.t) == 1 {
		// monomial in non-zero atoms
		for _, x := range d.v.t[0].m {
			if a := atoms[x.a]; !a.nz && !a.yNonZero() {
				return d.fromBytes(f)
			}
		}
		return false, true
	}
	if lawDenominator(d.v) {
		return false, true
	}
	return d.fromBytes(f)
}

// fromBytes: what is known of single bytes of encodings decides whether a value is zero, or two are equal.
func (d *fzData) fromBytes(f *Facts) (bool, bool) {
	var fams []*Family
	add := func(s int32) {
		y := syms[s]
		if y.fam == nil || y.fam.kind != "enc" || y.famIdx < 0 {
			return
		}
		for _, x := range fams {
			if x == y.fam {
				return
			}
		}
		fams = append(fams, y.fam)
	}
	for x := f; x != nil; x = x.parent {
		switch {
		case x.bsym >= 0:
			add(x.bsym)
		case x.ssym >= 0:
			add(x.ssym)
			for _, s := range x.sval.syms() {
				add(s)
			}
		case x.eq != nil:
			for _, s := range x.eq.syms() {
				add(s)
			}
		case x.atom != "":
			if p, ok := x.adat.(*Poly); ok {
				for _, s := range p.syms() {
					add(s)
				}
			}
		}
	}
	if len(fams) == 0 || len(fams) > 8 {
		return false, false
	}
	key := d.v.Key()
	is := func(v *FPoly) bool {
		v = fexpand(v)
		return !v.isZero() && stripNZ(v).Key() == key
	}
	bytes := func(b func(i int) *Poly) (bool, bool) {
		all := true
		for i := 0; i < 32; i++ {
			v, k := decide(condEQ(b(i)), f)
			if k && !v {
				return false, true
			}
			all = all && k
		}
		return true, all
	}
	for i, x := range fams {
		if is(x.val) {
			if v, k := bytes(func(i int) *Poly { return pSym(x.s[i]) }); k {
				return v, k
			}
		}
		for _, y := range fams[:i] {
			if is(fsub(x.val, y.val)) {
				if v, k := bytes(func(i int) *Poly { return psub(pSym(x.s[i]), pSym(y.s[i])) }); k {
					return v, k
				}
			}
		}
	}
	return false, false
}

// yNonZero: the y coordinate of a multiple of B; only points of order 4 have y = 0.
func (a *Atom) yNonZero() bool {
	if a.kind != aPtY || a.tau == nil {
		return false
	}
	for _, t := range a.tau.t {
		if t.pt != "B" {
			return false
		}
	}
	return true
}

func (d *fzData) assume(v bool, f *Facts) (*Facts, bool) { return f, true }

func condFZero(v *FPoly) *Cond {
	v = fexpand(v)
	if v.isZero() {
		return cTrue
	}
	s := stripNZ(v)
	if fzero(v) {
		return cTrue
	}
	d := &fzData{s}
	if r, k := d.decide(nil); k {
		return cBool(r)
	}
	return condAtom("fz:"+s.Key(), d)
}

// ---- big.Int -----------------------------------------------------------------

func (c *Call) big(i int) *Poly {
	p, ok := c.args[i].(PtrV)
	if !ok || p.obj == 0 {
		return nil
	}
	v, ok := c.e.load(c.st, p).(BigV)
	if !ok {
		panic(undecided("%s: %T is not a big.Int", c.name, c.e.load(c.st, p)))
	}
	return normPoly(v.p, c.st.facts)
}
func (c *Call) setBig(i int, v *Poly) []Branch {
	p := c.args[i].(PtrV)
	if x, ok := c.e.load(c.st, p).(BigV); ok && x.shared {
		panic(undecided("a big.Int that was copied as a struct is written: the copies share their words"))
	}
	c.e.noteWrite(c.st, p.obj, nil, c.site)
	c.e.storeAt(c.st, p.obj, p.path, nil, BigV{p: v})
	return c.ret(p)
}

func bigOp(n int, k func(c *Call, a []*Poly) *Poly) Handler {
	return func(c *Call) []Branch {
		var a []*Poly
		for i := 0; i < n; i++ {
			p := c.big(i)
			if p == nil {
				return c.panics(c.st, "nil big.Int")
			}
			a = append(a, p)
		}
		r := k(c, a)
		if r == nil {
			panic(undecided("%s on unknown numbers at %s", c.name, c.e.posOr(c.site)))
		}
		return c.setBig(0, r)
	}
}

func isConst(p *Poly) bool { _, ok := p.isConst(); return ok }

func constOp(k func(x, y *big.Int) *big.Int) func(c *Call, a []*Poly) *Poly {
	return func(c *Call, a []*Poly) *Poly {
		x, k1 := a[1].isConst()
		y, k2 := a[2].isConst()
		if !k1 || !k2 {
			return nil
		}
		return pConst(k(x, y))
	}
}

// beValue: number of a byte string, most significant byte first
func (e *Engine) numOf(st *State, r *Rope, le bool) *Poly {
	r = r.norm(st.facts)
	if len(r.s) == 0 {
		return pInt(0)
	}
	if len(r.s) == 1 && r.s[0].bytes != nil {
		b := append([]*Poly(nil), r.s[0].bytes...)
		if !le {
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		}
		return collapse(valueLE(b))
	}
	key := fmt.Sprintf("num(%v):%s", le, r.Key())
	y := symKeyed(key, "", func() *Sym {
		s := newSym("number of "+r.String(), b0, nil)
		s.kind = symOpaq
		s.deps = ropeDeps(r)
		return s
	})
	return pSym(y)
}

// signAlts: -1, 0, 1 according to p
func (c *Call) signAlts(p *Poly) []Branch {
	if z := condEQ(p); strings.HasPrefix(z.atom, "fz:") {
		// equality of field values comes first: it is what their difference tells
		return c.split(z, func(st *State, z bool) []Branch {
			if z {
				return one(st, IntV{pInt(0)})
			}
			c2 := *c
			c2.st = st
			return c2.split(condGE(p), func(st *State, ge bool) []Branch {
				if ge {
					return one(st, IntV{pInt(1)})
				}
				return one(st, IntV{pInt(-1)})
			})
		})
	}
	return c.split(condGE(p), func(st *State, ge bool) []Branch {
		if !ge {
			return one(st, IntV{pInt(-1)})
		}
		c2 := *c
		c2.st = st
		return c2.split(condEQ(p), func(st *State, z bool) []Branch {
			if z {
				return one(st, IntV{pInt(0)})
			}
			return one(st, IntV{pInt(1)})
		})
	})
}

// bytes of a non-negative number, little-endian, n of them
func leBytes(v *Poly, n int, f *Facts) []*Poly {
	b := make([]*Poly, n)
	if y := v.single(); y != nil && y.fam != nil && y.famIdx == -1 && y.fam.step == 8 {
		for i := range b {
			b[i] = pInt(0)
			if i < len(y.fam.s) {
				b[i] = pSym(y.fam.s[i])
			}
		}
		return b
	}
	for i := range b {
		b[i] = pmod2k(pfloor(v, uint(8*i), f), 8, f)
	}
	return b
}

func stdHandlers() map[string]Handler {
	h := map[string]Handler{}
	// hashes
	for _, p := range []string{"golang.org/x/crypto/sha3", "crypto/sha3"} {
		h[p+".New256"] = newHash("sha3-256", 32)
		h[p+".New512"] = newHash("sha3-512", 64)
		h[p+".New224"] = newHash("sha3-224", 28)
		h[p+".New384"] = newHash("sha3-384", 48)
		h[p+".NewLegacyKeccak256"] = newHash("keccak256", 32)
		h[p+".NewLegacyKeccak512"] = newHash("keccak512", 64)
		h[p+".Sum256"] = sumHash("sha3-256", 32)
		h[p+".Sum512"] = sumHash("sha3-512", 64)
		h[p+".Sum224"] = sumHash("sha3-224", 28)
		h[p+".Sum384"] = sumHash("sha3-384", 48)
	}
	h["crypto/sha256.New"] = newHash("sha256", 32)
	h["crypto/sha256.New224"] = newHash("sha224", 28)
	h["crypto/sha256.Sum256"] = sumHash("sha256", 32)
	h["crypto/sha512.New"] = newHash("sha512", 64)
	h["crypto/sha512.New512_256"] = newHash("sha512/256", 32)
	h["crypto/sha512.Sum512"] = sumHash("sha512", 64)
	h["crypto/sha1.New"] = newHash("sha1", 20)
	h["crypto/md5.New"] = newHash("md5", 16)
	h["golang.org/x/crypto/ripemd160.New"] = newHash("ripemd160", 20)

	// randomness
	h["io.ReadFull"] = func(c *Call) []Branch {
		return c.readFrom(c.args[0], c.slice(1), "io.ReadFull", true)
	}
	h["io.ReadAtLeast"] = func(c *Call) []Branch {
		s := c.slice(1)
		v, k := decide(condEQ(psub(s.len, c.int(2))), c.st.facts)
		return c.readFrom(c.args[0], s, "io.ReadAtLeast", k && v)
	}
	h["crypto/rand.Read"] = func(c *Call) []Branch {
		return c.readInto(ExtV{"reader", "system"}, c.slice(0), "rand.Read", true)
	}

	// AES
	h["crypto/aes.NewCipher"] = func(c *Call) []Branch {
		s := c.slice(0)
		n := normPoly(s.len, c.st.facts)
		k, ok := n.isConst()
		if !ok {
			panic(undecided("AES key of unknown length %s", n))
		}
		if l := k.Int64(); l != 16 && l != 24 && l != 32 {
			return c.ret(IfaceV{}, c.e.newError("aes: invalid key size", nil, c.st))
		}
		r := c.e.ropeOf(c.st, s).norm(c.st.facts)
		return c.ret(IfaceV{extType("cipher.Block"), ExtV{"aes", r}}, nilErr)
	}
	cbc := func(enc bool) Handler {
		return func(c *Call) []Branch {
			blk := c.args[0].(IfaceV)
			if blk.t == nil {
				return c.panics(c.st, "nil cipher")
			}
			iv := c.slice(1)
			key := blk.v.(ExtV).d.(*Rope)
			return c.split(condEQ(psub(iv.len, pInt(16))), func(st *State, ok bool) []Branch {
				if !ok {
					return c.panics(st, "cipher.NewCBC: IV length must equal block size")
				}
				id := c.e.alloc(st, "CBC", ExtV{"cbc", cbcState{enc: enc, key: key, iv: c.e.ropeOf(st, iv).norm(st.facts)}}, nil)
				return one(st, IfaceV{extType("cipher.BlockMode"), PtrV{obj: id}})
			})
		}
	}
	h["crypto/cipher.NewCBCEncrypter"] = cbc(true)
	h["crypto/cipher.NewCBCDecrypter"] = cbc(false)

	// a slice whose bytes are all written before they are read by the library function that asked for it
	h["internal/bytealg.MakeNoZero"] = func(c *Call) []Branch {
		n := c.int(0)
		return c.split(condGE(n), func(st *State, ok bool) []Branch {
			if !ok {
				return c.panics(st, "makeslice: len out of range")
			}
			return c.e.mkSlice(st, types.Typ[types.Uint8], n, n, "MakeNoZero", nil, nil)
		})
	}

	// comparisons
	h["bytes.Equal"] = func(c *Call) []Branch {
		return c.ret(BoolV{c.e.ropeEq(c.st, c.e.ropeOf(c.st, c.slice(0)), c.e.ropeOf(c.st, c.slice(1)))})
	}
	h["crypto/subtle.ConstantTimeCompare"] = func(c *Call) []Branch {
		cd := c.e.ropeEq(c.st, c.e.ropeOf(c.st, c.slice(0)), c.e.ropeOf(c.st, c.slice(1)))
		return c.split(cd, func(st *State, v bool) []Branch {
			if v {
				return one(st, IntV{pInt(1)})
			}
			return one(st, IntV{pInt(0)})
		})
	}
	h["crypto/subtle.ConstantTimeByteEq"] = func(c *Call) []Branch {
		return c.split(condEQ(psub(c.int(0), c.int(1))), func(st *State, v bool) []Branch {
			if v {
				return one(st, IntV{pInt(1)})
			}
			return one(st, IntV{pInt(0)})
		})
	}
	h["crypto/subtle.ConstantTimeEq"] = h["crypto/subtle.ConstantTimeByteEq"]
	h["crypto/subtle.ConstantTimeSelect"] = func(c *Call) []Branch {
		v := c.int(0)
		return c.ret(IntV{padd(pmul(v, c.int(1)), pmul(psub(pInt(1), v), c.int(2)))})
	}

	h["bytes.Repeat"] = func(c *Call) []Branch {
		r := c.e.ropeOf(c.st, c.slice(0)).norm(c.st.facts)
		return c.times(1, func(st *State, n int64) []Branch {
			var rs []*Rope
			for i := int64(0); i < n; i++ {
				rs = append(rs, r)
			}
			return one(st, c.e.newBytes(st, "bytes.Repeat", ropeCat(rs...)))
		})
	}

	// hex
	h["encoding/hex.EncodeToString"] = func(c *Call) []Branch {
		r := c.e.ropeOf(c.st, c.slice(0)).norm(c.st.facts)
		return c.ret(StrV{c.e.hexRope(r)})
	}
	h["encoding/hex.EncodedLen"] = func(c *Call) []Branch { return c.ret(IntV{pscale(c.int(0), b2)}) }
	h["encoding/hex.DecodedLen"] = func(c *Call) []Branch { return c.ret(IntV{pfloor(c.int(0), 1, c.st.facts)}) }
	h["encoding/hex.DecodeString"] = func(c *Call) []Branch {
		r := c.args[0].(StrV).r.norm(c.st.facts)
		if t, ok := r.text(); ok {
			b, err := hex.DecodeString(t)
			if err != nil {
				return c.ret(SliceV{off: pInt(0), len: pInt(0), cap: pInt(0)}, c.e.newError("hex: "+err.Error(), nil, c.st))
			}
			var ps []*Poly
			for _, x := range b {
				ps = append(ps, pInt(int64(x)))
			}
			return c.ret(c.e.newBytes(c.st, "hex", ropeBytes(ps)), nilErr)
		}
		if src, ok := hexSource(r, c.st.facts); ok {
			return c.ret(c.e.newBytes(c.st, "hex", src), nilErr)
		}
		// unknown text
		n := r.length()
		q := pfloor(n, 1, c.st.facts)
		return c.split(condEQ(psub(n, pscale(q, b2))), func(st *State, even bool) []Branch {
			fail := func(st *State) Branch {
				st.event(Event{kind: "fault", data: "invalid hex"})
				a := newArr("badhex{" + r.Key() + "}")
				a.deps = ropeDeps(r)
				return Branch{st: st, v: TupleV{c.e.newBytes(st, "hex prefix", ropeArr(a, pInt(0), pfloor(q, 0, nil))), c.e.newError("hex: invalid", nil, st)}}
			}
			if !even {
				return []Branch{fail(st)}
			}
			c2 := *c
			c2.st = st
			return c2.split(condAtom("hexok:"+r.Key(), nil), func(st *State, ok bool) []Branch {
				if !ok {
					return []Branch{fail(st)}
				}
				a := newArr("unhex{" + r.Key() + "}")
				a.deps = ropeDeps(r)
				return one(st, TupleV{c.e.newBytes(st, "hex", ropeArr(a, pInt(0), q)), nilErr})
			})
		})
	}
	h["strings.ToUpper"] = func(c *Call) []Branch {
		r := c.args[0].(StrV).r.norm(c.st.facts)
		if t, ok := r.text(); ok {
			return c.ret(StrV{constStr(strings.ToUpper(t))})
		}
		if src, ok := hexSource(r, c.st.facts); ok {
			return c.ret(StrV{upperHex(src)})
		}
		panic(undecided("strings.ToUpper of an unknown string"))
	}
	h["strings.ToLower"] = func(c *Call) []Branch {
		r := c.args[0].(StrV).r.norm(c.st.facts)
		if t, ok := r.text(); ok {
			return c.ret(StrV{constStr(strings.ToLower(t))})
		}
		if src, ok := hexSource(r, c.st.facts); ok {
			return c.ret(StrV{c.e.hexRope(src)})
		}
		panic(undecided("strings.ToLower of an unknown string"))
	}

	// output and errors
	out := func(what string, res func(c *Call) []Val) Handler {
		return func(c *Call) []Branch {
			var args []Val
			for _, a := range c.args {
				if s, ok := a.(SliceV); ok && s.obj != 0 {
					if arr, ok := c.e.sliceContent(c.st, s).(ArrayV); ok {
						args = append(args, arr.e...)
						continue
					}
				}
				args = append(args, a)
			}
			c.st.event(Event{kind: "sink", fn: c.e.curIn, at: c.e.posOr(c.site), data: sink{what, args, c.st.clone()}})
			return one(c.st, pack(res(c)))
		}
	}
	nerr := func(c *Call) []Val { return []Val{IntV{pInt(0)}, nilErr} }
	for _, n := range []string{"Print", "Println", "Printf", "Fprint", "Fprintln", "Fprintf"} {
		h["fmt."+n] = out("output", nerr)
	}
	for _, n := range []string{"Print", "Println", "Printf", "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf"} {
		fatal := strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Panic")
		base := out("log", func(c *Call) []Val { return []Val{nil} })
		h["log."+n] = func(c *Call) []Branch {
			r := base(c)
			if fatal {
				return c.panics(c.st, "log."+n)
			}
			return r
		}
	}
	h["io.WriteString"] = out("output", nerr)
	mkerr := func(c *Call) []Val { return []Val{c.e.newError(errText(c), c.args, c.st)} }
	for _, n := range []string{"errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		h[n] = out("error", mkerr)
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithMessage", "WithMessagef", "WithStack"} {
		base := out("error", mkerr)
		h["github.com/pkg/errors."+n] = func(c *Call) []Branch {
			if x, ok := c.args[0].(IfaceV); ok && x.t == nil {
				return c.ret(nilErr)
			}
			return base(c)
		}
	}
	str := func(c *Call) []Val {
		m := map[int32]bool{}
		for _, a := range c.args {
			valDeps(c.st, a, m, map[int]bool{}, 0)
		}
		var key []string
		var d []int32
		for s := range m {
			d = append(d, s)
		}
		sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
		for _, s := range d {
			key = append(key, fmt.Sprint(s))
		}
		a := newArr("sprint{" + errText(c) + ":" + strings.Join(key, ",") + "}")
		a.deps = d
		n := symKeyed("len"+a.name, "", func() *Sym { return newSym("len("+c.name+")", b0, bi(1<<30)) })
		return []Val{StrV{ropeArr(a, pInt(0), pSym(n))}}
	}
	for _, n := range []string{"Sprint", "Sprintf", "Sprintln"} {
		n := n
		h["fmt."+n] = func(c *Call) []Branch {
			if n == "Sprintf" {
				if r := c.sprintf(); r != nil {
					return one(c.st, StrV{r})
				}
			}
			return one(c.st, pack(str(c)))
		}
	}

	// big integers
	B := "(*math/big.Int)."
	h["math/big.NewInt"] = func(c *Call) []Branch {
		id := c.e.alloc(c.st, "big.NewInt", BigV{p: c.int(0)}, nil)
		return c.ret(PtrV{obj: id})
	}
	h[B+"SetInt64"] = func(c *Call) []Branch { return c.setBig(0, c.int(1)) }
	h[B+"SetUint64"] = h[B+"SetInt64"]
	h[B+"SetBytes"] = func(c *Call) []Branch {
		return c.setBig(0, c.e.numOf(c.st, c.e.ropeOf(c.st, c.slice(1)), false))
	}
	h[B+"SetString"] = func(c *Call) []Branch {
		t, ok := c.args[1].(StrV).r.text()
		b, ok2 := c.int(2).isConst()
		if !ok || !ok2 {
			panic(undecided("big.Int.SetString of an unknown string"))
		}
		v, good := new(big.Int).SetString(t, int(b.Int64()))
		if !good {
			return c.ret(PtrV{}, BoolV{cFalse})
		}
		c.setBig(0, pConst(v))
		return c.ret(c.args[0], BoolV{cTrue})
	}
	h[B+"Set"] = bigOp(2, func(c *Call, a []*Poly) *Poly { return a[1] })
	h[B+"Add"] = bigOp(3, func(c *Call, a []*Poly) *Poly { return collapse(padd(a[1], a[2])) })
	h[B+"Sub"] = bigOp(3, func(c *Call, a []*Poly) *Poly { return collapse(psub(a[1], a[2])) })
	h[B+"Mul"] = bigOp(3, func(c *Call, a []*Poly) *Poly {
		if len(a[1].t) > 1 && len(a[2].t) > 1 || len(a[1].t) > 1 && !onlyFieldSyms(a[1]) && !isConst(a[2]) || len(a[2].t) > 1 && !onlyFieldSyms(a[2]) && !isConst(a[1]) {
			return pmul(nameNum(a[1]), nameNum(a[2]))
		}
		return pmul(a[1], a[2])
	})
	h[B+"Neg"] = bigOp(2, func(c *Call, a []*Poly) *Poly { return pneg(a[1]) })
	h[B+"Mod"] = bigOp(3, func(c *Call, a []*Poly) *Poly {
		if m, ok := a[2].isConst(); ok && m.Sign() > 0 {
			return bigMod(a[1], m, c.st.facts)
		}
		return nil
	})
	h[B+"Div"] = bigOp(3, constOp(func(x, y *big.Int) *big.Int { return new(big.Int).Div(x, y) }))
	h[B+"Quo"] = bigOp(3, constOp(func(x, y *big.Int) *big.Int { return new(big.Int).Quo(x, y) }))
	h[B+"Rem"] = bigOp(3, func(c *Call, a []*Poly) *Poly {
		if m, ok := a[2].isConst(); ok && m.Sign() > 0 && !isConst(a[1]) && condHolds(condGE(a[1]), c.st.facts) {
			return bigMod(a[1], m, c.st.facts)
		}
		return constOp(func(x, y *big.Int) *big.Int { return new(big.Int).Rem(x, y) })(c, a)
	})
	h[B+"And"] = bigOp(3, func(c *Call, a []*Poly) *Poly {
		for i := 1; i <= 2; i++ {
			// a mask of low bits
			if m, ok := a[i].isConst(); ok && m.Sign() >= 0 && !isConst(a[3-i]) {
				m = new(big.Int).Add(m, b1)
				if new(big.Int).And(m, new(big.Int).Sub(m, b1)).Sign() == 0 {
					return bigMod(a[3-i], m, c.st.facts)
				}
			}
		}
		return constOp(func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) })(c, a)
	})
	h[B+"IsInt64"] = func(c *Call) []Branch {
		p := c.big(0)
		if p == nil {
			return c.panics(c.st, "nil big.Int")
		}
		r := typeRange(64, true)
		return c.ret(BoolV{cand(condGE(psub(p, pConst(r.lo))), condGE(psub(pConst(r.hi), p)))})
	}
	h[B+"ModInverse"] = (*Call).modInverse
	h[B+"Exp"] = func(c *Call) []Branch {
		x, k1 := c.big(1).isConst()
		y, k2 := c.big(2).isConst()
		var m *big.Int
		k3 := true
		if q := c.big(3); q != nil {
			m, k3 = q.isConst()
		}
		if !k1 && k2 && k3 {
			if r := bigPow(c.big(1), y, m, c.st.facts); r != nil {
				return c.setBig(0, r)
			}
		}
		if !k1 || !k2 || !k3 {
			panic(undecided("big.Int.Exp of unknown numbers"))
		}
		return c.setBig(0, pConst(new(big.Int).Exp(x, y, m)))
	}
	h[B+"Lsh"] = func(c *Call) []Branch {
		k, ok := c.int(2).isConst()
		if !ok {
			panic(undecided("big.Int.Lsh by an unknown amount"))
		}
		return c.setBig(0, pscale(c.big(1), pow2(uint(k.Uint64()))))
	}
	h[B+"Rsh"] = func(c *Call) []Branch {
		k, ok := c.int(2).isConst()
		if !ok {
			panic(undecided("big.Int.Rsh by an unknown amount"))
		}
		return c.setBig(0, pfloor(c.big(1), uint(k.Uint64()), c.st.facts))
	}
	h[B+"Abs"] = func(c *Call) []Branch {
		p := c.big(1)
		return c.split(condGE(p), func(st *State, v bool) []Branch {
			c2 := *c
			c2.st = st
			if v {
				return c2.setBig(0, p)
			}
			return c2.setBig(0, pneg(p))
		})
	}
	h[B+"Cmp"] = func(c *Call) []Branch {
		x, y := c.big(0), c.big(1)
		if x == nil || y == nil {
			return c.panics(c.st, "nil big.Int")
		}
		return c.signAlts(psub(x, y))
	}
	h[B+"CmpAbs"] = func(c *Call) []Branch {
		x, y := c.big(0), c.big(1)
		nn := func(p *Poly) bool { v, k := decide(condGE(p), c.st.facts); return k && v }
		if !nn(x) || !nn(y) {
			panic(undecided("CmpAbs of numbers of unknown sign"))
		}
		return c.signAlts(psub(x, y))
	}
	h[B+"Sign"] = func(c *Call) []Branch {
		p := c.big(0)
		if p == nil {
			return c.panics(c.st, "nil big.Int")
		}
		return c.signAlts(p)
	}
	h[B+"BitLen"] = func(c *Call) []Branch {
		p := c.big(0)
		if p == nil {
			return c.panics(c.st, "nil big.Int")
		}
		if k, ok := p.isConst(); ok {
			return c.ret(IntV{pInt(int64(k.BitLen()))})
		}
		y := symKeyed("bitlen:"+p.Key(), "", func() *Sym {
			s := newSym("bitlen("+p.String()+")", b0, bi(1<<40))
			s.kind = symOpaq
			m := map[int32]bool{}
			depSyms(p, m)
			for d := range m {
				s.deps = append(s.deps, d)
			}
			lenOf[s.id] = lenInfo{p, 1}
			return s
		})
		return c.ret(IntV{pSym(y)})
	}
	h[B+"Bit"] = func(c *Call) []Branch {
		k, ok := c.int(1).isConst()
		if !ok {
			panic(undecided("big.Int.Bit at an unknown position"))
		}
		return c.ret(IntV{bitOf(c.big(0), uint(k.Uint64()), c.st.facts)})
	}
	h[B+"SetBit"] = func(c *Call) []Branch {
		i, ok := c.int(2).isConst()
		b, ok2 := c.int(3).isConst()
		x := c.big(1)
		if x == nil {
			return c.panics(c.st, "nil big.Int")
		}
		if nn, k := decide(condGE(x), c.st.facts); !ok || !ok2 || !k || !nn || i.Sign() < 0 || b.Sign() < 0 || b.Cmp(b1) > 0 {
			panic(undecided("big.Int.SetBit of an unknown bit or number"))
		}
		k := uint(i.Uint64())
		d := psub(pConst(b), bitOf(x, k, c.st.facts))
		return c.setBig(0, collapse(padd(x, pscale(d, pow2(k)))))
	}
	h[B+"Bytes"] = func(c *Call) []Branch {
		p := c.big(0)
		if p == nil {
			return c.panics(c.st, "nil big.Int")
		}
		if k, ok := p.isConst(); ok {
			var ps []*Poly
			for _, x := range k.Bytes() {
				ps = append(ps, pInt(int64(x)))
			}
			return c.ret(c.e.newBytes(c.st, "big bytes", ropeBytes(ps)))
		}
		if iv := bounds(p, c.st.facts, stepsDeep, nil); iv.lo != nil && iv.hi != nil && iv.lo.Sign() > 0 && iv.lo.BitLen() <= 1024 && (iv.lo.BitLen()+7)/8 == (iv.hi.BitLen()+7)/8 {
			b := leBytes(p, (iv.lo.BitLen()+7)/8, c.st.facts)
			slices.Reverse(b)
			return c.ret(c.e.newBytes(c.st, "big bytes", ropeBytes(b)))
		}
		a, n := beBytesOf(p)
		return c.ret(c.e.newBytes(c.st, "big bytes", ropeArr(a, pInt(0), n)))
	}
	h[B+"FillBytes"] = func(c *Call) []Branch {
		p := c.big(0)
		s := c.slice(1)
		n, ok := normPoly(s.len, c.st.facts).isConst()
		if !ok {
			panic(undecided("big.Int.FillBytes into an unknown length"))
		}
		fits := cand(condGE(p), condGE(psub(pConst(new(big.Int).Sub(pow2(uint(8*n.Int64())), b1)), p)))
		return c.split(fits, func(st *State, v bool) []Branch {
			if !v {
				return c.panics(st, "FillBytes: too large or of unknown sign")
			}
			b := leBytes(p, int(n.Int64()), st.facts)
			for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
			c.e.writeBytes(st, s, pInt(0), ropeBytes(b), nil, c.site)
			return one(st, s)
		})
	}
	h[B+"Int64"] = func(c *Call) []Branch {
		return c.ret(IntV{wrap(c.big(0), 64, true, c.st.facts)})
	}
	h[B+"Uint64"] = func(c *Call) []Branch {
		return c.ret(IntV{wrap(c.big(0), 64, false, c.st.facts)})
	}
	h[B+"String"] = func(c *Call) []Branch { return one(c.st, pack(str(c))) }
	h[B+"Text"] = h[B+"String"]

	// helpers of the utils package
	U := "github.com/proximax-storage/go-xpx-utils."
	h[U+"BytesToBigInteger"] = func(c *Call) []Branch {
		id := c.e.alloc(c.st, "BytesToBigInteger", BigV{p: c.e.numOf(c.st, c.e.ropeOf(c.st, c.slice(0)), true)}, nil)
		return c.ret(PtrV{obj: id})
	}
	h[U+"BigIntToByteArray"] = func(c *Call) []Branch {
		p := c.big(0)
		if p == nil {
			return c.panics(c.st, "nil big.Int")
		}
		n, ok := c.int(1).isConst()
		if !ok {
			panic(undecided("BigIntToByteArray of unknown length"))
		}
		if n.Sign() < 0 {
			return c.panics(c.st, "negative length")
		}
		return c.split(condGE(p), func(st *State, v bool) []Branch {
			q := p
			if !v {
				q = pneg(p)
			}
			return one(st, c.e.newBytes(st, "BigIntToByteArray", ropeBytes(leBytes(q, int(n.Int64()), st.facts))))
		})
	}
	getBit := func(c *Call, k func(st *State, bit *Poly) []Branch) []Branch {
		s := c.slice(0)
		i, ok := c.int(1).isConst()
		if !ok {
			panic(undecided("GetBit at an unknown position"))
		}
		pos := pInt(int64(i.Uint64() >> 3))
		return c.split(condGE(psub(psub(s.len, pos), pInt(1))), func(st *State, in bool) []Branch {
			if !in {
				return c.panics(st, "index out of range in GetBit")
			}
			r := c.e.ropeOf(st, SliceV{obj: s.obj, path: s.path, off: padd(s.off, pos), len: pInt(1), cap: pInt(1)}).norm(st.facts)
			return k(st, pmod2k(pfloor(segByte(r.s[0]), uint(i.Uint64()&7), st.facts), 1, st.facts))
		})
	}
	h[U+"GetBit"] = func(c *Call) []Branch {
		return getBit(c, func(st *State, b *Poly) []Branch { return one(st, IntV{b}) })
	}
	h[U+"GetBitToBool"] = func(c *Call) []Branch {
		return getBit(c, func(st *State, b *Poly) []Branch { return one(st, BoolV{condEQ(psub(b, pInt(1)))}) })
	}
	h["(*strings.Builder).copyCheck"] = func(c *Call) []Branch { return c.ret(nil) }
	h["(*strings.Builder).String"] = func(c *Call) []Branch {
		p, ok := c.args[0].(PtrV)
		if !ok || p.obj == 0 {
			return nil
		}
		b, ok := c.e.load(c.st, p).(StructV)
		if !ok {
			return nil
		}
		for _, f := range b.f {
			if s, ok := f.(SliceV); ok {
				return c.ret(StrV{c.e.ropeOf(c.st, s).norm(c.st.facts)})
			}
		}
		return nil
	}
	h["runtime.KeepAlive"] = func(c *Call) []Branch { return c.ret(nil) }
	return h
}

func (e *Engine) hexRope(r *Rope) *Rope {
	if t, ok := r.text(); ok {
		return constStr(hex.EncodeToString([]byte(t)))
	}
	a := hexArr(r)
	return ropeArr(a, pInt(0), pscale(r.length(), b2))
}

// beBytesOf: the minimal big-endian bytes of |p|
func beBytesOf(p *Poly) (*Arr, *Poly) {
	a := newArr("be{" + p.Key() + "}")
	m := map[int32]bool{}
	depSyms(p, m)
	a.deps = nil
	for d := range m {
		a.deps = append(a.deps, d)
	}
	n := symKeyed("len"+a.name, "", func() *Sym {
		s := newSym("bytelen("+p.String()+")", b0, bi(1<<40))
		s.kind = symOpaq
		s.deps = a.deps
		lenOf[s.id] = lenInfo{p, 8}
		return s
	})
	return a, pSym(n)
}

func errText(c *Call) string {
	for _, a := range c.args {
		if s, ok := a.(StrV); ok {
			if t, ok := s.r.text(); ok {
				return t
			}
			return s.r.String()
		}
	}
	return c.name
}

func (c *Call) readFrom(r Val, s SliceV, api string, full bool) []Branch {
	rd, ok := r.(IfaceV)
	if !ok || rd.t == nil {
		return c.panics(c.st, "read from a nil source")
	}
	x, ok := rd.v.(ExtV)
	if !ok || x.kind != "reader" {
		panic(undecided("read from %T at %s", rd.v, c.e.posOr(c.site)))
	}
	return c.readInto(x, s, api, full)
}

// extGlobal: variables of other packages
func (e *Engine) extGlobal(g *ssa.Global, t types.Type) Val {
	switch g.String() {
	case "crypto/rand.Reader":
		return IfaceV{extType("io.Reader"), ExtV{"reader", "system"}}
	case "os.Stdout", "os.Stderr":
		return PtrV{obj: e.newObj(g.String(), "fresh", nil)}
	case "io.EOF", "io.ErrUnexpectedEOF", "io.ErrShortBuffer":
		return IfaceV{extType("error"), ExtV{"error", &errData{text: g.String()}}}
	}
	if strings.HasPrefix(g.String(), "encoding/binary.") {
		return zeroVal(t)
	}
	return UnkV{"variable " + g.String()}
}

func (e *Engine) extCall(c *Call) []Branch {
	panic(undecided("call of %s is not modelled (at %s)", c.name, e.posOr(c.site)))
}

// extMethod: methods of external objects
func (e *Engine) extMethod(c *Call, tn string, m *types.Func) []Branch {
	st := c.st
	switch tn {
	case "hash.Hash":
		p := c.args[0].(PtrV)
		hs := st.get(p.obj).(ExtV).d.(hashState)
		switch m.Name() {
		case "Write":
			r := e.ropeOf(st, c.slice(1))
			hs.r = ropeCat(hs.r, r)
			ok := func(st *State) Branch {
				st.set(p.obj, ExtV{"hash", hs})
				return Branch{st: st, v: TupleV{IntV{r.length()}, nilErr}}
			}
			if e.hashFault {
				s2 := st.clone()
				s2.event(Event{kind: "fault", fn: e.curIn, at: e.posOr(c.site), data: "hash fails"})
				bad := Branch{st: s2, v: TupleV{IntV{pInt(0)}, e.newError("hash", nil, s2)}}
				return []Branch{ok(st.clone()), bad}
			}
			return []Branch{ok(st)}
		case "Sum":
			d := ropeBytes(digest(hs.alg, hs.n, hs.r, st))
			s := c.slice(1)
			nb := e.newBytes(st, "digest in "+fnName(e.curIn), d)
			if s.obj == 0 {
				return c.ret(nb)
			}
			return e.appendBuiltin(st, s, nb, &frame{fn: c.in}, c.site)
		case "Reset":
			hs.r = &Rope{}
			st.set(p.obj, ExtV{"hash", hs})
			return c.ret(nil)
		case "Size":
			return c.ret(IntV{pInt(int64(hs.n))})
		}
	case "cipher.Block":
		switch m.Name() {
		case "BlockSize":
			return c.ret(IntV{pInt(16)})
		}
	case "cipher.BlockMode":
		p := c.args[0].(PtrV)
		cs := st.get(p.obj).(ExtV).d.(cbcState)
		switch m.Name() {
		case "BlockSize":
			return c.ret(IntV{pInt(16)})
		case "CryptBlocks":
			dst, src := c.slice(1), c.slice(2)
			n := normPoly(src.len, st.facts)
			if src.obj == 0 {
				n = pInt(0)
			}
			whole := condEQ(psub(n, pscale(pfloor(n, 4, st.facts), bi(16))))
			fits := condGE(psub(dst.len, n))
			return c.split(cand(whole, fits), func(st *State, ok bool) []Branch {
				if !ok {
					return c.panics(st, "CryptBlocks: input not full blocks or output too small")
				}
				if cs.bad {
					panic(undecided("repeated use of a CBC mode"))
				}
				r := e.ropeOf(st, src).norm(st.facts)
				if n.isZero() || len(r.s) == 0 {
					return one(st, nil)
				}
				var res *Rope
				if !cs.enc {
					if len(r.s) == 1 && r.s[0].arr != nil && r.s[0].off.isZero() {
						if rec, ok := cbcEncs[r.s[0].arr.name]; ok && rec.key == cs.key.norm(st.facts).Key() && rec.iv == cs.iv.norm(st.facts).Key() && normPoly(psub(rec.n, n), st.facts).isZero() {
							res = rec.src
						}
					}
				}
				if res == nil {
					a := cbcArr(cs.enc, cs.key.norm(st.facts), cs.iv.norm(st.facts), r, n)
					res = ropeArr(a, pInt(0), n)
				}
				e.writeBytes(st, dst, pInt(0), res, nil, c.site)
				cs.bad = true
				st.set(p.obj, ExtV{"cbc", cs})
				return one(st, nil)
			})
		}
	case "io.Reader":
		if m.Name() == "Read" {
			return c.readInto(c.args[0].(ExtV), c.slice(1), "Read", false)
		}
	case "error", "runtime.Error":
		if m.Name() == "Error" {
			d := []int32{}
			if x, ok := c.args[0].(ExtV); ok {
				if ed, ok := x.d.(*errData); ok {
					d = ed.deps
					if len(d) == 0 {
						return c.ret(StrV{constStr(ed.text)})
					}
				}
			}
			a := newArr(fmt.Sprintf("errtext%v", d))
			a.deps = d
			n := symKeyed("len"+a.name, "", func() *Sym { return newSym("len(error)", b0, bi(1<<30)) })
			return c.ret(StrV{ropeArr(a, pInt(0), pSym(n))})
		}
	}
	if strings.HasPrefix(tn, "mock:") {
		return e.mockMethod(c, tn, m)
	}
	panic(undecided("method %s.%s is not modelled", tn, m.Name()))
}

// mockMethod: a method of an unknown implementation; the call is recorded and returns unknown results.
func (e *Engine) mockMethod(c *Call, tn string, m *types.Func) []Branch {
	k := 0
	for _, ev := range c.st.events() {
		if ev.kind == "mock" {
			k++
		}
	}
	res := m.Type().(*types.Signature).Results()
	n := res.Len()
	mayFail := n > 0 && types.Identical(res.At(n-1).Type(), types.Universe.Lookup("error").Type())
	var brs []Branch
	for _, fails := range []bool{false, true} {
		if fails && !mayFail {
			continue
		}
		st := c.st
		if mayFail {
			st = st.clone()
		}
		var vals []Val
		for i := 0; i < n; i++ {
			t := res.At(i).Type()
			if mayFail && fails == (i < n-1) {
				vals = append(vals, zeroVal(t))
				continue
			}
			vals = append(vals, e.mockVal(st, t, fmt.Sprintf("%s.%s#%d.%d", tn, m.Name(), k, i)))
		}
		st.event(Event{kind: "mock", fn: e.curIn, at: e.posOr(c.site), data: &mockCall{recv: c.args[0], typ: tn, method: m.Name(), args: c.args[1:], res: vals}})
		brs = append(brs, Branch{st: st, v: pack(vals)})
	}
	return brs
}

type mockCall struct {
	recv        Val
	typ, method string
	args, res   []Val
}

func (e *Engine) mockVal(st *State, t types.Type, name string) Val {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		tn := "iface"
		if n, ok := types.Unalias(t).(*types.Named); ok {
			tn = n.Obj().Name()
		}
		if tn == "error" {
			return IfaceV{extType("mock:error"), ExtV{"mock", name}}
		}
		return IfaceV{extType("mock:" + tn), ExtV{"mock", name}}
	case *types.Pointer:
		id := e.newObj(name, "fresh", u.Elem())
		e.base[id] = UnkV{"content of " + name}
		return PtrV{obj: id}
	case *types.Slice:
		a := newArr(name)
		n := symKeyed("len"+name, "", func() *Sym { return newSym("len("+name+")", b0, bi(1<<40)) })
		id := e.newObj(name, "fresh", nil)
		e.base[id] = RopeV{ropeArr(a, pInt(0), pSym(n))}
		return SliceV{obj: id, off: pInt(0), len: pSym(n), cap: pSym(n)}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolV{condAtom("mockbool:"+name, nil)}
		}
		if w, s, ok := intType(t); ok {
			r := typeRange(w, s)
			y := symKeyed("mockint:"+name, "", func() *Sym { return newSym(name, r.lo, r.hi) })
			return IntV{pSym(y)}
		}
	}
	return UnkV{name}
}
