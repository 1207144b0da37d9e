package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Points: group element objects recognised as k*P for symbolic k.

// coordinate systems, by the names of the package's constants
var csNames = []string{"AFFINE", "P2", "P3", "P1xP1", "PRECOMPUTED", "CACHED"}

func (c *Checker) cs(name string) int64 {
	k, ok := c.P.tpkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		panic(undecided("constant %s is missing", name))
	}
	v, ok := new(big.Int).SetString(k.Val().ExactString(), 10)
	if !ok {
		panic(undecided("constant %s is not an integer", name))
	}
	return v.Int64()
}

type geShape struct {
	cs, x, y, z, t, single, double int
	cst                            types.Type
}

func (c *Checker) geShape() geShape {
	if s, ok := c.facts["geShape"].(geShape); ok {
		return s
	}
	s := c.structOf(tGE)
	r := geShape{cs: -1, x: -1, y: -1, z: -1, t: -1, single: -1, double: -1}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		n, _ := namedOf(f.Type())
		switch {
		case n == "CoordinateSystem":
			r.cs = i
			r.cst = f.Type()
		case n == tFE && f.Name() == "X":
			r.x = i
		case n == tFE && f.Name() == "Y":
			r.y = i
		case n == tFE && f.Name() == "Z":
			r.z = i
		case n == tFE && f.Name() == "T":
			r.t = i
		default:
			if sl, ok := f.Type().Underlying().(*types.Slice); ok {
				if _, ok := sl.Elem().Underlying().(*types.Slice); ok {
					r.single = i
				} else {
					r.double = i
				}
			}
		}
	}
	for _, x := range []int{r.cs, r.x, r.y, r.z, r.t, r.single, r.double} {
		if x < 0 {
			panic(undecided("the layout of %s is not understood", tGE))
		}
	}
	c.facts["geShape"] = r
	return r
}

func (c *Checker) geStruct(st *State, v Val) (StructV, bool) {
	if p, ok := v.(PtrV); ok {
		if p.obj == 0 {
			return StructV{}, false
		}
		v = c.e.load(st, p)
	}
	s, ok := v.(StructV)
	return s, ok
}

// coords of a group element: field values, nil for missing ones.
type geCoords struct {
	cs         int64
	x, y, z, t *FPoly
	l          [4][]*Poly
}

func (c *Checker) coords(st *State, v Val) (*geCoords, error) {
	s, ok := c.geStruct(st, v)
	if !ok {
		return nil, fmt.Errorf("no group element (nil)")
	}
	g := c.geShape()
	k, ok := normPoly(s.f[g.cs].(IntV).p, st.facts).isConst()
	if !ok {
		return nil, fmt.Errorf("coordinate system is not known")
	}
	r := &geCoords{cs: k.Int64()}
	for i, ix := range []int{g.x, g.y, g.z, g.t} {
		p, ok := s.f[ix].(PtrV)
		if !ok {
			return nil, fmt.Errorf("coordinate is %T", s.f[ix])
		}
		if p.obj == 0 {
			continue
		}
		l := c.limbs(st, p)
		r.l[i] = l
		v := c.value(l, st.facts)
		switch i {
		case 0:
			r.x = v
		case 1:
			r.y = v
		case 2:
			r.z = v
		case 3:
			r.t = v
		}
	}
	return r, nil
}

// finv: inverse of a monomial of non-zero atoms
func finv(p *FPoly) (*FPoly, bool) {
	p = fexpand(p)
	if len(p.t) != 1 {
		return nil, false
	}
	for _, x := range p.t[0].m {
		if !atoms[x.a].nz {
			return nil, false
		}
	}
	return fpowBig(p, new(big.Int).Sub(fieldP, b2)), true
}

// tauOfXY recognises affine coordinates.
func tauOfXY(x, y *FPoly) (*Tau, bool) {
	x, y = fexpand(x), fexpand(y)
	if cx, ok := x.isConst(); ok {
		cy, ok := y.isConst()
		if !ok {
			return nil, false
		}
		k, ok := baseLog(cx, cy)
		if !ok {
			return nil, false
		}
		return tauOf("B", pConst(k)), true
	}
	if len(x.t) != 1 || len(x.t[0].m) != 1 || len(y.t) != 1 || len(y.t[0].m) != 1 {
		return nil, false
	}
	ax, ay := atoms[x.t[0].m[0].a], atoms[y.t[0].m[0].a]
	if ax.kind != aPtX || ay.kind != aPtY || ax.pair != ay.id || x.t[0].m[0].e.Cmp(b1) != 0 || y.t[0].m[0].e.Cmp(b1) != 0 || y.t[0].c.Cmp(b1) != 0 {
		return nil, false
	}
	switch {
	case x.t[0].c.Cmp(b1) == 0:
		return ax.tau, true
	case x.t[0].c.Cmp(pm1) == 0:
		return tauScale(ax.tau, pInt(-1)), true
	}
	return nil, false
}

var half = new(big.Int).ModInverse(b2, fieldP)

// recognise: the coordinate system and the point of a group element.
func (c *Checker) recognise(st *State, v Val) (cs int64, tau *Tau, err error) {
	g, err := c.coords(st, v)
	if err != nil {
		return 0, nil, err
	}
	return c.recogniseCoords(g)
}

func (c *Checker) recogniseCoords(g *geCoords) (cs int64, tau *Tau, err error) {
	cs = g.cs
	var x, y *FPoly
	bad := func(f string, a ...any) (int64, *Tau, error) { return cs, nil, fmt.Errorf(f, a...) }
	missing := func(l ...*FPoly) bool {
		for _, v := range l {
			if v == nil {
				return true
			}
		}
		return false
	}
	switch cs {
	case c.cs("AFFINE"):
		if missing(g.x, g.y, g.z) {
			return bad("a coordinate is nil")
		}
		if !fzero(fsub(g.z, fInt(1))) {
			return bad("Z is not one: %s", g.z)
		}
		x, y = g.x, g.y
	case c.cs("P2"), c.cs("P3"):
		if missing(g.x, g.y, g.z) || (cs == c.cs("P3") && g.t == nil) {
			return bad("a coordinate is nil")
		}
		zi, ok := finv(g.z)
		if !ok {
			return bad("Z is not known to be non-zero: %s", g.z)
		}
		x, y = fmul(g.x, zi), fmul(g.y, zi)
		if cs == c.cs("P3") && !fexpand(fsub(fmul(g.t, g.z), fmul(g.x, g.y))).isZero() {
			return bad("T*Z is not X*Y")
		}
	case c.cs("P1xP1"):
		if missing(g.x, g.y, g.z, g.t) {
			return bad("a coordinate is nil")
		}
		zi, ok1 := finv(g.z)
		ti, ok2 := finv(g.t)
		if !ok1 || !ok2 {
			return bad("Z or T is not known to be non-zero")
		}
		x, y = fmul(g.x, zi), fmul(g.y, ti)
	case c.cs("PRECOMPUTED"), c.cs("CACHED"):
		if missing(g.x, g.y, g.z) || (cs == c.cs("CACHED") && g.t == nil) {
			return bad("a coordinate is nil")
		}
		zi, t2d := fInt(1), g.z
		if cs == c.cs("CACHED") {
			var ok bool
			if zi, ok = finv(g.z); !ok {
				return bad("Z is not known to be non-zero: %s", g.z)
			}
			t2d = fmul(g.t, zi)
		}
		y = fscale(fmul(fadd(g.x, g.y), zi), half)
		x = fscale(fmul(fsub(g.x, g.y), zi), half)
		dd := new(big.Int).Mul(curveD, b2)
		if !fexpand(fsub(fscale(fmul(x, y), dd), t2d)).isZero() {
			return bad("the 2dT coordinate does not fit: %s; x=%s y=%s", clip(t2d.String()), clip(fexpand(x).String()), clip(fexpand(y).String()))
		}
	default:
		return bad("coordinate system %d", cs)
	}
	tau, ok := tauOfXY(x, y)
	if !ok {
		return bad("x=%s y=%s is no named point", fexpand(x), fexpand(y))
	}
	return cs, tau, nil
}

// symbolic point objects -------------------------------------------------------

// mkGE builds a group element from coordinates (nil: no coordinate).
func (c *Checker) mkGE(st *State, label, owner string, cs int64, l [4][]*Poly) PtrV {
	g := c.geShape()
	v := zeroVal(c.P.typ(tGE)).(StructV)
	nv := StructV{append([]Val(nil), v.f...)}
	nv.f[g.cs] = IntV{pInt(cs)}
	for i, ix := range []int{g.x, g.y, g.z, g.t} {
		if l[i] != nil {
			nv.f[ix] = c.ptrTo(st, label+" coordinate", owner, c.feVal(l[i]), c.P.typ(tFE))
		}
	}
	return c.ptrTo(st, label, owner, nv, c.P.typ(tGE))
}

// pointLimbs: limb families of tau in a coordinate system; scale atoms are named by key.
func (c *Checker) pointLimbs(cs int64, tau *Tau, key string, iv func(k, i int) Iv, deps []int32) [4][]*Poly {
	x, y := tauXY(tau)
	sc := func(n string) *FPoly {
		return fAtom(getAtom("scale "+n+":"+key, func(a *Atom) { a.kind, a.nz = aScale, true; a.deps = deps }))
	}
	var co [4]*FPoly
	dd := new(big.Int).Mul(curveD, b2)
	switch cs {
	case c.cs("AFFINE"):
		co = [4]*FPoly{x, y, fInt(1), nil}
	case c.cs("P2"):
		z := sc("z")
		co = [4]*FPoly{fmul(x, z), fmul(y, z), z, nil}
	case c.cs("P3"):
		z := sc("z")
		co = [4]*FPoly{fmul(x, z), fmul(y, z), z, fmul(fmul(x, y), z)}
	case c.cs("P1xP1"):
		z, t := sc("z"), sc("t")
		co = [4]*FPoly{fmul(x, z), fmul(y, t), z, t}
	case c.cs("PRECOMPUTED"):
		co = [4]*FPoly{fadd(y, x), fsub(y, x), fscale(fmul(x, y), dd), nil}
	case c.cs("CACHED"):
		z := sc("z")
		co = [4]*FPoly{fmul(fadd(y, x), z), fmul(fsub(y, x), z), z, fscale(fmul(fmul(x, y), z), dd)}
	default:
		panic(undecided("point in coordinate system %d", cs))
	}
	var r [4][]*Poly
	for k, v := range co {
		if v == nil {
			continue
		}
		k := k
		r[k] = limbFamily(fmt.Sprintf("pt%d.%d:%s:%s", cs, k, key, v.Key()), v, func(i int) Iv { return iv(k, i) }, deps).polys()
	}
	return r
}

// ---- contracts of the point operations ---------------------------------------

type geCase struct {
	in    []int64 // coordinate systems of the operands
	out   int64
	law   string // "a+b", "a-b", "2a"
	iv    [4][10]Iv
	plain bool // the result is recognised without a contract
}

type geContract struct {
	fn    *ssa.Function
	geIx  []int
	err   bool // second result is an error
	cases []*geCase
}

// bounds of the coordinates that an operand may have (in hundredths of 2^25/2^24)
func (c *Checker) inBound(cs int64, k int) int64 {
	switch cs {
	case c.cs("AFFINE"), c.cs("P2"), c.cs("P3"):
		return 110
	case c.cs("PRECOMPUTED"):
		if k < 2 {
			return 220
		}
		return 110
	case c.cs("CACHED"):
		if k < 2 {
			return 220
		}
		return 110
	}
	return 330
}

func (c *Checker) genericPoint(st *State, cs int64, name string) (PtrV, *Tau) {
	tau := tauOf(name, pInt(1))
	l := c.pointLimbs(cs, tau, "generic "+name, func(k, i int) Iv { return limbIv(i, c.inBound(cs, k), 100) }, nil)
	return c.mkGE(st, "point "+name, "caller", cs, l), tau
}

// sliceOf: a slice of the values.
func (c *Checker) sliceOf(st *State, label, owner string, vs []Val) SliceV {
	p := c.ptrTo(st, label, owner, ArrayV{vs}, nil)
	n := pInt(int64(len(vs)))
	return SliceV{obj: p.obj, off: pInt(0), len: n, cap: n}
}

// tabledPoint: a generic point that carries (the beginnings of) its own tables.
func (c *Checker) tabledPoint(st *State, cs int64, name string) (PtrV, *Tau) {
	p, tau := c.genericPoint(st, cs, name)
	g := c.geShape()
	entry := func(k int64) Val {
		et := tauScale(tau, pInt(k))
		pc := c.cs("PRECOMPUTED")
		l := c.pointLimbs(pc, et, fmt.Sprintf("entry %d %s", k, name), func(k, i int) Iv { return limbIv(i, c.inBound(pc, k), 100) }, nil)
		return c.mkGE(st, fmt.Sprintf("table entry %d of %s", k, name), "caller", pc, l)
	}
	var row, dbl []Val
	for k := int64(1); k <= 8; k++ {
		row = append(row, entry(k))
		dbl = append(dbl, entry(2*k-1))
	}
	o := c.e.load(st, p).(StructV)
	nv := StructV{append([]Val(nil), o.f...)}
	nv.f[g.single] = c.sliceOf(st, "table", "caller", []Val{c.sliceOf(st, "table row", "caller", row)})
	nv.f[g.double] = c.sliceOf(st, "double table", "caller", dbl)
	c.e.storeAt(st, p.obj, p.path, nil, nv)
	return p, tau
}

// foreignTable: the group element carries a table that is not its own (tau is its point, nil if that is not known).
func (c *Checker) foreignTable(st *State, v Val, tau *Tau) (why string) {
	s, ok := c.geStruct(st, v)
	if !ok {
		return ""
	}
	g := c.geShape()
	own := func(what string, e Val) string {
		if isNilPtr(e) {
			return what + " has no entry"
		}
		_, got, err := c.recognise(st, e)
		if err != nil {
			return what + " starts with " + err.Error()
		}
		if tau == nil || !c.tauEq(got, tau, st.facts) {
			return fmt.Sprintf("%s is that of %s", what, c.tauString(got))
		}
		return ""
	}
	empty := func(v Val) bool {
		sl, ok := v.(SliceV)
		return !ok || decideIs(condEQ(sl.len), true, st.facts)
	}
	if !empty(s.f[g.single]) {
		rows := c.ptrSlice(st, s.f[g.single])
		if empty(rows[0]) {
			return "the table has an empty row"
		}
		if why := own("the table", c.ptrSlice(st, rows[0])[0]); why != "" {
			return why
		}
	}
	if !empty(s.f[g.double]) {
		return own("the double table", c.ptrSlice(st, s.f[g.double])[0])
	}
	return ""
}

// lawFractions: numerator and denominator of x and y of the result
func lawFractions(law string, a, b *Tau) (nx, dx, ny, dy *FPoly) {
	x1, y1 := tauXY(a)
	x2, y2 := tauXY(b)
	if law == "a-b" {
		x2 = fneg(x2)
	}
	dd := fscale(fmul(fmul(x1, x2), fmul(y1, y2)), curveD)
	nx = fadd(fmul(x1, y2), fmul(y1, x2))
	ny = fadd(fmul(y1, y2), fmul(x1, x2))
	return nx, fadd(fInt(1), dd), ny, fsub(fInt(1), dd)
}

// isUnit: p = const * monomial of non-zero atoms * dx^i * dy^j
func isUnit(p, dx, dy *FPoly) bool {
	p = fexpand(p)
	// remove the non-zero atoms: all terms must share them with equal exponents
	for i := 0; i <= 2; i++ {
		for j := 0; j <= 2-i; j++ {
			q := fInt(1)
			for k := 0; k < i; k++ {
				q = fmul(q, dx)
			}
			for k := 0; k < j; k++ {
				q = fmul(q, dy)
			}
			q = fexpand(q)
			if q.isZero() || p.isZero() {
				continue
			}
			if stripNZ(p).Key() == stripNZ(q).Key() {
				return true
			}
		}
	}
	return false
}

// matchLaw: which law the resulting coordinates satisfy; an error says why none.
func (c *Checker) matchLaw(g *geCoords, law string, a, b *Tau) error {
	nx, dx, ny, dy := lawFractions(law, a, b)
	zero := fzero
	var zx, zy *FPoly
	switch g.cs {
	case c.cs("P2"), c.cs("P3"):
		if g.x == nil || g.y == nil || g.z == nil {
			return fmt.Errorf("a coordinate is nil")
		}
		zx, zy = g.z, g.z
		if g.cs == c.cs("P3") {
			if g.t == nil {
				return fmt.Errorf("T is nil")
			}
			if !zero(fsub(fmul(g.t, g.z), fmul(g.x, g.y))) {
				return fmt.Errorf("T*Z is not X*Y")
			}
		}
	case c.cs("P1xP1"):
		if g.x == nil || g.y == nil || g.z == nil || g.t == nil {
			return fmt.Errorf("a coordinate is nil")
		}
		zx, zy = g.z, g.t
	default:
		return fmt.Errorf("result in coordinate system %d", g.cs)
	}
	e := func(p *FPoly) *FPoly { return fexpand(p) }
	if !zero(fsub(fmul(e(g.x), e(dx)), fmul(e(zx), e(nx)))) {
		return fmt.Errorf("the x coordinate is not that of the result")
	}
	if !zero(fsub(fmul(e(g.y), e(dy)), fmul(e(zy), e(ny)))) {
		return fmt.Errorf("the y coordinate is not that of the result")
	}
	if !isUnit(zx, dx, dy) || !isUnit(zy, dx, dy) {
		return fmt.Errorf("a denominator may be zero: %s, %s", e(zx), e(zy))
	}
	return nil
}

// geResult splits the results of a point function: (point, error value or nil).
func geResult(o Outcome) (Val, Val) {
	if len(o.vals) == 2 {
		return o.vals[0], o.vals[1]
	}
	return o.vals[0], nil
}

func isGEFunc(fn *ssa.Function) (ge []int, err bool, ok bool) {
	res := fn.Signature.Results()
	if res.Len() == 0 || res.Len() > 2 {
		return
	}
	if n, _ := namedOf(res.At(0).Type()); n != tGE {
		return
	}
	if res.Len() == 2 {
		if res.At(1).Type().String() != "error" {
			return
		}
		err = true
	}
	for i, p := range fn.Params {
		if n, _ := namedOf(p.Type()); n != tGE {
			return nil, err, false
		}
		ge = append(ge, i)
	}
	return ge, err, len(ge) == 1 || len(ge) == 2
}

// discoverGE finds the point additions, subtractions and doublings and installs their contracts.
func (c *Checker) discoverGE() map[*ssa.Function]*geContract {
	found := map[*ssa.Function]*geContract{}
	for _, fn := range c.repoFuncs() {
		ge, er, ok := isGEFunc(fn)
		if !ok || c.e.contracts[fn] != nil {
			continue
		}
		k := &geContract{fn: fn, geIx: ge, err: er}
		var combos [][]string
		if len(ge) == 1 {
			combos = [][]string{{"P2"}, {"P3"}}
		} else {
			combos = [][]string{{"P3", "CACHED"}, {"P3", "PRECOMPUTED"}, {"P3", "P3"}, {"CACHED", "P3"}, {"PRECOMPUTED", "P3"}}
		}
		for _, co := range combos {
			co := co
			c.quiet(func() {
				if gc := c.matchGE(fn, co); gc != nil {
					k.cases = append(k.cases, gc)
				}
			})
		}
		if len(k.cases) == 0 {
			continue
		}
		found[fn] = k
		c.e.contracts[fn] = c.geHandler(k)
		for _, gc := range k.cases {
			c.notes[fmt.Sprintf("%s%v: %s", fnName(fn), gc.in, gc.law)] = true
		}
	}
	return found
}

func (c *Checker) runGE(fn *ssa.Function, co []string) (*State, []Outcome, []*Tau, []int64) {
	st := c.e.newState()
	var args []Val
	var taus []*Tau
	var in []int64
	for i, n := range co {
		p, tau := c.genericPoint(st, c.cs(n), fmt.Sprintf("G%d", i+1))
		args = append(args, p)
		taus = append(taus, tau)
		in = append(in, c.cs(n))
	}
	return st, c.call(st, fn, args...), taus, in
}

func (c *Checker) matchGE(fn *ssa.Function, co []string) *geCase {
	_, outs, taus, in := c.runGE(fn, co)
	if len(outs) != 1 || outs[0].pan != nil {
		return nil
	}
	o := outs[0]
	v, er := geResult(o)
	if er != nil && !isNilPtr(er) {
		return nil
	}
	g, err := c.coords(o.st, v)
	if err != nil {
		return nil
	}
	laws := []string{"a+b", "a-b"}
	a, b := taus[0], taus[0]
	if len(taus) == 1 {
		laws = []string{"2a"}
	} else {
		b = taus[1]
	}
	if _, got, err := c.recogniseCoords(g); err == nil {
		// recognised as it is: no contract needed
		for _, law := range laws {
			if _, _, ok := c.operandInBounds(g, o.st.facts); ok && c.tauEq(got, lawTau(law, a, b), o.st.facts) {
				return &geCase{in: in, out: g.cs, law: law, plain: true}
			}
		}
		return nil
	}
	for _, law := range laws {
		if c.matchLaw(g, law, a, b) != nil {
			continue
		}
		gc := &geCase{in: in, out: g.cs, law: law}
		for k := range g.l {
			for i := range g.l[k] {
				gc.iv[k][i] = bounds(g.l[k][i], o.st.facts, stepsDeep, nil)
				if gc.iv[k][i].lo == nil || gc.iv[k][i].hi == nil {
					return nil
				}
			}
		}
		return gc
	}
	return nil
}

func lawTau(law string, a, b *Tau) *Tau {
	switch law {
	case "2a":
		return tauScale(a, pInt(2))
	case "a+b":
		return tauAdd(a, b)
	}
	return tauSub(a, b)
}

func (c *Checker) operandInBounds(g *geCoords, f *Facts) (int, int, bool) {
	for k, l := range g.l {
		if l == nil {
			continue
		}
		if i, ok := limbsWithin(l, c.inBound(g.cs, k), 100, f); !ok {
			return k, i, false
		}
	}
	return 0, 0, true
}

func (c *Checker) geHandler(k *geContract) Handler {
	return func(call *Call) []Branch {
		var gs []*geCoords
		var taus []*Tau
		key := fnName(k.fn)
		konst := true
		for _, i := range k.geIx {
			g, err := c.coords(call.st, call.args[i])
			if err != nil {
				return nil
			}
			for _, l := range g.l {
				if l != nil {
					key += "/" + polysKey(l)
					konst = konst && allConst(l)
				}
			}
			gs = append(gs, g)
		}
		if konst {
			return nil
		}
		var gc *geCase
		for _, x := range k.cases {
			ok := len(x.in) == len(gs)
			for i := range gs {
				ok = ok && x.in[i] == gs[i].cs
			}
			if ok && !x.plain {
				gc = x
			}
		}
		if gc == nil {
			return nil
		}
		for i, g := range gs {
			_, tau, err := c.recogniseCoords(g)
			if err != nil {
				return nil // interpreted: its coordinates decide
			}
			if co, li, ok := c.operandInBounds(g, call.st.facts); !ok {
				panic(undecided("limb %d of coordinate %c of operand %d of %s may be out of bounds, called from %s", li, "XYZT"[co], i, k.fn.Name(), call.where()))
			}
			taus = append(taus, tau)
		}
		tau := lawTau(gc.law, taus[0], taus[len(taus)-1])
		var deps []int32
		m := map[int32]bool{}
		for _, g := range gs {
			for _, l := range g.l {
				for _, p := range l {
					for _, s := range p.syms() {
						m[s] = true
					}
				}
			}
		}
		for s := range m {
			deps = append(deps, s)
		}
		l := c.pointLimbs(gc.out, tau, key, func(k, i int) Iv { return gc.iv[k][i] }, deps)
		// a group element by value or by pointer
		p := c.mkGE(call.st, "result of "+k.fn.Name(), "fresh", gc.out, l)
		var v Val = p
		if _, ptr := namedOf(k.fn.Signature.Results().At(0).Type()); !ptr {
			v = c.e.load(call.st, p)
		}
		if k.err {
			return one(call.st, TupleV{v, IfaceV{}})
		}
		return one(call.st, v)
	}
}

func (c *Checker) tauString(t *Tau) string {
	if t == nil {
		return "?"
	}
	return strings.TrimSpace(t.String())
}
