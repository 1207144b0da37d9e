package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Symbols
// ---------------------------------------------------------------------------

type symKind int

const (
	symBase  symKind = iota // input
	symFloor                // floor(def / 2^k)
	symNamed                // def
	symOpaq                 // unknown function of deps
	symRead                 // element of an unknown array
)

// Sym is an integer-valued unknown. Symbols are global and hash-consed, so that
// equal expressions in different paths are the same symbol.
type Sym struct {
	id     int32
	name   string
	kind   symKind
	lo, hi *big.Int // nil: unbounded
	def    *Poly    // floor, named
	k      uint     // floor: divisor 2^k
	imm    *Poly    // floor: immediate (unflattened) definition
	immk   uint
	deps   []int32 // opaque: symbols it is a function of
	dom    []int64 // finite domain, nil if none
	arr    *Arr    // read: element idx of an array of unknown content
	idx    *Poly
	fam    *Family // member of a family (bytes of an encoding, limbs of a field element)
	famIdx int
}

var syms []*Sym
var symByKey = map[string]*Sym{}

func newSym(name string, lo, hi *big.Int) *Sym {
	s := &Sym{id: int32(len(syms)), name: name, lo: lo, hi: hi}
	syms = append(syms, s)
	return s
}

func symKeyed(key, name string, mk func() *Sym) *Sym {
	if s, ok := symByKey[key]; ok {
		return s
	}
	s := mk()
	symByKey[key] = s
	return s
}

// ---------------------------------------------------------------------------
// Polynomials with integer coefficients
// ---------------------------------------------------------------------------

type term struct {
	m []int32 // sorted, with multiplicity
	c *big.Int
}

type Poly struct {
	t   []term
	key string
}

var (
	b0   = big.NewInt(0)
	b1   = big.NewInt(1)
	bm1  = big.NewInt(-1)
	b2   = big.NewInt(2)
	b255 = big.NewInt(255)
)

func bi(x int64) *big.Int { return big.NewInt(x) }
func pow2(k uint) *big.Int {
	return new(big.Int).Lsh(b1, k)
}

func cmpMono(a, b []int32) int {
	if len(a) != len(b) {
		if len(a) < len(b) {
			return -1
		}
		return 1
	}
	for i := range a {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func pConst(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{t: []term{{nil, c}}}
}
func pInt(c int64) *Poly { return pConst(big.NewInt(c)) }
func pSym(s *Sym) *Poly  { return &Poly{t: []term{{[]int32{s.id}, b1}}} }

func (p *Poly) isConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return b0, true
	}
	if len(p.t) == 1 && len(p.t[0].m) == 0 {
		return p.t[0].c, true
	}
	return nil, false
}
func (p *Poly) isInt(v int64) bool {
	c, ok := p.isConst()
	return ok && c.IsInt64() && c.Int64() == v
}
func (p *Poly) isZero() bool { return len(p.t) == 0 }

// constant term
func (p *Poly) constTerm() *big.Int {
	if len(p.t) > 0 && len(p.t[0].m) == 0 {
		return p.t[0].c
	}
	return b0
}

// single returns the symbol if p is exactly one symbol.
func (p *Poly) single() *Sym {
	if len(p.t) == 1 && len(p.t[0].m) == 1 && p.t[0].c.Cmp(b1) == 0 {
		return syms[p.t[0].m[0]]
	}
	return nil
}

func (p *Poly) Key() string {
	if p.key == "" {
		var sb strings.Builder
		sb.WriteByte('<')
		for _, t := range p.t {
			sb.WriteString(t.c.Text(62))
			for _, s := range t.m {
				fmt.Fprintf(&sb, ".%d", s)
			}
			sb.WriteByte(',')
		}
		sb.WriteByte('>')
		p.key = sb.String()
	}
	return p.key
}

func (p *Poly) eq(q *Poly) bool {
	if p == q {
		return true
	}
	if len(p.t) != len(q.t) {
		return false
	}
	for i := range p.t {
		if p.t[i].c.Cmp(q.t[i].c) != 0 || cmpMono(p.t[i].m, q.t[i].m) != 0 {
			return false
		}
	}
	return true
}

func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, t := range p.t {
		if i > 12 {
			fmt.Fprintf(&sb, " + ...(%d terms)", len(p.t))
			break
		}
		if i > 0 {
			sb.WriteString(" + ")
		}
		if len(t.m) == 0 {
			sb.WriteString(shortBig(t.c))
			continue
		}
		if t.c.Cmp(b1) != 0 {
			sb.WriteString(shortBig(t.c) + "*")
		}
		for j, s := range t.m {
			if j > 0 {
				sb.WriteByte('*')
			}
			sb.WriteString(symName(syms[s]))
		}
	}
	return sb.String()
}

func symName(s *Sym) string {
	switch s.kind {
	case symFloor:
		return fmt.Sprintf("floor_%d{#%d}", s.k, s.id)
	case symNamed:
		return fmt.Sprintf("n#%d", s.id)
	}
	return s.name
}

func shortBig(c *big.Int) string {
	s := c.String()
	if len(s) > 24 {
		return "0x" + c.Text(16)
	}
	return s
}

func padd(p, q *Poly) *Poly { return pcomb(p, b1, q) }
func psub(p, q *Poly) *Poly { return pcomb(p, bm1, q) }

// pcomb = p + c*q
func pcomb(p *Poly, c *big.Int, q *Poly) *Poly {
	if c.Sign() == 0 || len(q.t) == 0 {
		return p
	}
	one := c.Cmp(b1) == 0
	if len(p.t) == 0 && one {
		return q
	}
	r := make([]term, 0, len(p.t)+len(q.t))
	i, j := 0, 0
	for i < len(p.t) || j < len(q.t) {
		var d int
		if i == len(p.t) {
			d = 1
		} else if j == len(q.t) {
			d = -1
		} else {
			d = cmpMono(p.t[i].m, q.t[j].m)
		}
		switch {
		case d < 0:
			r = append(r, p.t[i])
			i++
		case d > 0:
			if one {
				r = append(r, q.t[j])
			} else {
				r = append(r, term{q.t[j].m, new(big.Int).Mul(c, q.t[j].c)})
			}
			j++
		default:
			x := new(big.Int)
			if one {
				x.Add(p.t[i].c, q.t[j].c)
			} else {
				x.Mul(c, q.t[j].c)
				x.Add(x, p.t[i].c)
			}
			if x.Sign() != 0 {
				r = append(r, term{p.t[i].m, x})
			}
			i++
			j++
		}
	}
	return &Poly{t: r}
}

func pscale(p *Poly, c *big.Int) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	if c.Cmp(b1) == 0 {
		return p
	}
	r := make([]term, len(p.t))
	for i, t := range p.t {
		r[i] = term{t.m, new(big.Int).Mul(t.c, c)}
	}
	return &Poly{t: r}
}
func pneg(p *Poly) *Poly { return pscale(p, bm1) }

func mergeMono(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		if a[i] <= b[j] {
			r = append(r, a[i])
			i++
		} else {
			r = append(r, b[j])
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func monoKey(m []int32) string {
	b := make([]byte, 0, len(m)*4)
	for _, s := range m {
		b = append(b, byte(s>>24), byte(s>>16), byte(s>>8), byte(s))
	}
	return string(b)
}

type polyAcc struct {
	idx map[string]int
	t   []term
}

func newAcc() *polyAcc { return &polyAcc{idx: map[string]int{}} }
func (a *polyAcc) add(m []int32, c *big.Int) {
	k := monoKey(m)
	if i, ok := a.idx[k]; ok {
		a.t[i].c = new(big.Int).Add(a.t[i].c, c)
		return
	}
	a.idx[k] = len(a.t)
	a.t = append(a.t, term{m, c})
}
func (a *polyAcc) poly() *Poly {
	r := a.t[:0]
	for _, t := range a.t {
		if t.c.Sign() != 0 {
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return cmpMono(r[i].m, r[j].m) < 0 })
	return &Poly{t: r}
}

func pmul(p, q *Poly) *Poly {
	if c, ok := p.isConst(); ok {
		return pscale(q, c)
	}
	if c, ok := q.isConst(); ok {
		return pscale(p, c)
	}
	acc := newAcc()
	for _, a := range p.t {
		for _, b := range q.t {
			acc.add(mergeMono(a.m, b.m), new(big.Int).Mul(a.c, b.c))
		}
	}
	return acc.poly()
}

// coefficient of the monomial s (degree one)
func (p *Poly) coef(s int32) *big.Int {
	for _, t := range p.t {
		if len(t.m) == 1 && t.m[0] == s {
			return t.c
		}
	}
	return b0
}

func (p *Poly) mentions(s int32) bool {
	for _, t := range p.t {
		for _, x := range t.m {
			if x == s {
				return true
			}
		}
	}
	return false
}

// linearOnly reports whether s occurs only in the monomial s.
func (p *Poly) linearOnly(s int32) bool {
	for _, t := range p.t {
		if len(t.m) > 1 {
			for _, x := range t.m {
				if x == s {
					return false
				}
			}
		}
	}
	return true
}

// subst replaces s by q.
func psubst(p *Poly, s int32, q *Poly) *Poly {
	if !p.mentions(s) {
		return p
	}
	rest := newAcc()
	var out []*Poly
	for _, t := range p.t {
		n := 0
		var o []int32
		for _, x := range t.m {
			if x == s {
				n++
			} else {
				o = append(o, x)
			}
		}
		if n == 0 {
			rest.add(t.m, t.c)
			continue
		}
		r := &Poly{t: []term{{o, t.c}}}
		for ; n > 0; n-- {
			r = pmul(r, q)
		}
		out = append(out, r)
	}
	res := rest.poly()
	for _, r := range out {
		res = padd(res, r)
	}
	return res
}

func (p *Poly) syms() []int32 {
	seen := map[int32]bool{}
	var r []int32
	for _, t := range p.t {
		for _, x := range t.m {
			if !seen[x] {
				seen[x] = true
				r = append(r, x)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// modCoefs reduces every coefficient modulo m (to [0,m)).
func (p *Poly) modCoefs(m *big.Int) *Poly {
	acc := make([]term, 0, len(p.t))
	for _, t := range p.t {
		c := new(big.Int).Mod(t.c, m)
		if c.Sign() != 0 {
			acc = append(acc, term{t.m, c})
		}
	}
	return &Poly{t: acc}
}

// ---------------------------------------------------------------------------
// Intervals
// ---------------------------------------------------------------------------

type Iv struct{ lo, hi *big.Int } // nil: unbounded on that side

func ivConst(c *big.Int) Iv { return Iv{c, c} }
func ivAdd(a, b Iv) Iv {
	var r Iv
	if a.lo != nil && b.lo != nil {
		r.lo = new(big.Int).Add(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		r.hi = new(big.Int).Add(a.hi, b.hi)
	}
	return r
}
func ivScale(a Iv, c *big.Int) Iv {
	var r Iv
	switch c.Sign() {
	case 0:
		return Iv{b0, b0}
	case 1:
		if a.lo != nil {
			r.lo = new(big.Int).Mul(a.lo, c)
		}
		if a.hi != nil {
			r.hi = new(big.Int).Mul(a.hi, c)
		}
	default:
		if a.hi != nil {
			r.lo = new(big.Int).Mul(a.hi, c)
		}
		if a.lo != nil {
			r.hi = new(big.Int).Mul(a.lo, c)
		}
	}
	return r
}
func ivMul(a, b Iv) Iv {
	if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
		// keep the sign information for non-negative operands
		if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			return Iv{new(big.Int).Mul(a.lo, b.lo), nil}
		}
		return Iv{}
	}
	var lo, hi *big.Int
	for _, x := range []*big.Int{a.lo, a.hi} {
		for _, y := range []*big.Int{b.lo, b.hi} {
			v := new(big.Int).Mul(x, y)
			if lo == nil || v.Cmp(lo) < 0 {
				lo = v
			}
			if hi == nil || v.Cmp(hi) > 0 {
				hi = v
			}
		}
	}
	return Iv{lo, hi}
}
func ivMeet(a, b Iv) Iv {
	r := a
	if r.lo == nil || (b.lo != nil && b.lo.Cmp(r.lo) > 0) {
		r.lo = b.lo
	}
	if r.hi == nil || (b.hi != nil && b.hi.Cmp(r.hi) < 0) {
		r.hi = b.hi
	}
	return r
}
func (a Iv) hull(b Iv) Iv {
	if b.lo == nil || (a.lo != nil && b.lo.Cmp(a.lo) < 0) {
		a.lo = b.lo
	}
	if b.hi == nil || (a.hi != nil && b.hi.Cmp(a.hi) > 0) {
		a.hi = b.hi
	}
	return a
}
func (a Iv) within(lo, hi *big.Int) bool {
	return (lo == nil || (a.lo != nil && a.lo.Cmp(lo) >= 0)) && (hi == nil || (a.hi != nil && a.hi.Cmp(hi) <= 0))
}
func (a Iv) width() *big.Int {
	if a.lo == nil || a.hi == nil {
		return nil
	}
	return new(big.Int).Sub(a.hi, a.lo)
}
func (a Iv) String() string {
	s := func(x *big.Int) string {
		if x == nil {
			return "inf"
		}
		return shortBig(x)
	}
	return "[" + s(a.lo) + "," + s(a.hi) + "]"
}
func floorDivPow(x *big.Int, k uint) *big.Int { return new(big.Int).Rsh(x, k) } // arithmetic shift: floor
func floorDiv(x, d *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(x, d, new(big.Int))
	_ = m
	return q // DivMod is Euclidean; d > 0 makes it floor
}
func ceilDiv(x, d *big.Int) *big.Int {
	return new(big.Int).Neg(floorDiv(new(big.Int).Neg(x), d))
}

// ---------------------------------------------------------------------------
// Facts: what a path knows about symbols
// ---------------------------------------------------------------------------

type Facts struct {
	parent *Facts
	n      int
	nsub   int
	// exactly one of:
	bsym int32 // bound refinement of a symbol (-1: none)
	biv  Iv
	ssym int32 // substitution (-1: none)
	sval *Poly
	eq   *Poly // eq == 0
	ge   *Poly // ge >= 0
	atom string
	aval bool
	adat any
}

func (f *Facts) push(g Facts) *Facts {
	g.parent = f
	g.n = 1
	if f != nil {
		g.n = f.n + 1
		g.nsub = f.nsub
	}
	if g.ssym >= 0 {
		g.nsub++
	}
	return &g
}
func (f *Facts) withBound(s int32, iv Iv) *Facts { return f.push(Facts{bsym: s, biv: iv, ssym: -1}) }
func (f *Facts) withSubst(s int32, v *Poly) *Facts {
	return f.push(Facts{bsym: -1, ssym: s, sval: v})
}
func (f *Facts) withEq(p *Poly) *Facts { return f.push(Facts{bsym: -1, ssym: -1, eq: p}) }
func (f *Facts) withGe(p *Poly) *Facts { return f.push(Facts{bsym: -1, ssym: -1, ge: p}) }
func (f *Facts) withAtom(k string, v bool, d any) *Facts {
	return f.push(Facts{bsym: -1, ssym: -1, atom: k, aval: v, adat: d})
}

func (f *Facts) symIv(s int32) Iv {
	r := Iv{syms[s].lo, syms[s].hi}
	for x := f; x != nil; x = x.parent {
		if x.bsym == s {
			r = ivMeet(r, x.biv)
		}
	}
	return r
}
func (f *Facts) hasSubst() bool {
	for x := f; x != nil; x = x.parent {
		if x.ssym >= 0 {
			return true
		}
	}
	return false
}
func (f *Facts) atomVal(key string) (bool, bool) {
	for x := f; x != nil; x = x.parent {
		if x.atom == key {
			return x.aval, true
		}
	}
	return false, false
}

func naiveIv(p *Poly, f *Facts) Iv {
	r := Iv{b0, b0}
	for _, t := range p.t {
		if len(t.m) == 0 {
			r = ivAdd(r, ivConst(t.c))
			continue
		}
		m := Iv{b1, b1}
		for i := 0; i < len(t.m); {
			j := i
			for j < len(t.m) && t.m[j] == t.m[i] {
				j++
			}
			si := f.symIv(t.m[i])
			n := j - i
			if n%2 == 0 && si.lo != nil && si.hi != nil {
				// even power
				x := Iv{b1, b1}
				for q := 0; q < n/2; q++ {
					x = ivMul(x, ivSquare(si))
				}
				m = ivMul(m, x)
			} else {
				for q := 0; q < n; q++ {
					m = ivMul(m, si)
				}
			}
			i = j
		}
		r = ivAdd(r, ivScale(m, t.c))
		if r.lo == nil && r.hi == nil {
			return r
		}
	}
	return r
}

func ivSquare(a Iv) Iv {
	l := new(big.Int).Mul(a.lo, a.lo)
	h := new(big.Int).Mul(a.hi, a.hi)
	if l.Cmp(h) > 0 {
		l, h = h, l
	}
	if a.lo.Sign() <= 0 && a.hi.Sign() >= 0 {
		l = b0
	}
	return Iv{l, h}
}

// divIv: interval of (a)/d rounded to the integers inside, d>0
func divIv(a Iv, d *big.Int) Iv {
	var r Iv
	if a.lo != nil {
		r.lo = ceilDiv(a.lo, d)
	}
	if a.hi != nil {
		r.hi = floorDiv(a.hi, d)
	}
	return r
}

// bounds computes an interval of p under f. If need is given, it stops as soon as it is satisfied.
// It eliminates defined symbols, newest first: a floor symbol c=floor(Q/2^k) is replaced by
// (Q-rho)/2^k with rho in [0,2^k-1], a named one by its definition; every stage gives a valid
// interval and the intersection of all of them is returned.
func bounds(p *Poly, f *Facts, steps int, need *Iv) Iv {
	p = normPoly(p, f)
	best := naiveIv(p, f)
	done := func() bool {
		return need != nil && best.within(need.lo, need.hi)
	}
	if c, ok := p.isConst(); ok {
		return ivConst(c)
	}
	if done() || steps == 0 {
		return best
	}
	best = factBounds(p, f, best, Iv{b0, b0}, b1)
	if done() {
		return best
	}
	cur := p
	scale := b1 // cur represents scale*p - resid
	resid := Iv{b0, b0}
	for n := 0; n < steps; n++ {
		// newest defined symbol that occurs linearly only
		var pick *Sym
		for _, t := range cur.t {
			for _, x := range t.m {
				s := syms[x]
				if s.kind != symFloor && s.kind != symNamed {
					continue
				}
				if pick == nil || s.id > pick.id {
					pick = s
				}
			}
		}
		if pick == nil {
			break
		}
		if pick.kind == symNamed {
			cur = psubst(cur, pick.id, pick.def)
			if len(cur.t) > 4000 {
				break
			}
		} else {
			if !cur.linearOnly(pick.id) {
				break
			}
			a := cur.coef(pick.id)
			q, k := pick.imm, pick.immk
			rest := pcomb(cur, new(big.Int).Neg(a), pSym(pick))
			// side candidate: cancel m*(Q - 2^k c) with m chosen from a common monomial
			if m := commonRatio(rest, q); m != nil && m.Sign() != 0 {
				side := pcomb(rest, new(big.Int).Neg(m), q)
				ac := new(big.Int).Add(a, new(big.Int).Mul(m, pow2(k)))
				side = pcomb(side, ac, pSym(pick))
				iv := ivAdd(naiveIv(side, f), ivScale(Iv{b0, new(big.Int).Sub(pow2(k), b1)}, m))
				iv = ivAdd(iv, resid)
				best = ivMeet(best, divIv(iv, scale))
				if done() {
					return best
				}
			}
			// main line
			g := new(big.Int).GCD(nil, nil, new(big.Int).Abs(a), pow2(k))
			// scale by 2^k/g: (2^k/g)*cur = (2^k/g)*rest + (a/g)*Q - (a/g)*rho
			mult := new(big.Int).Div(pow2(k), g)
			ag := new(big.Int).Div(a, g)
			cur = pcomb(pscale(rest, mult), ag, q)
			scale = new(big.Int).Mul(scale, mult)
			resid = ivAdd(ivScale(resid, mult), ivScale(Iv{b0, new(big.Int).Sub(pow2(k), b1)}, new(big.Int).Neg(ag)))
		}
		iv := ivAdd(naiveIv(cur, f), resid)
		best = ivMeet(best, divIv(iv, scale))
		if done() {
			return best
		}
		best = factBounds(cur, f, best, resid, scale)
		if done() {
			return best
		}
	}
	return best
}

// commonRatio returns m such that p - m*q cancels the monomial of q with the largest interval, or nil.
func commonRatio(p, q *Poly) *big.Int {
	for i := len(q.t) - 1; i >= 0; i-- {
		t := q.t[i]
		if len(t.m) == 0 {
			continue
		}
		for _, u := range p.t {
			if cmpMono(u.m, t.m) == 0 {
				m, r := new(big.Int).QuoRem(u.c, t.c, new(big.Int))
				if r.Sign() == 0 {
					return m
				}
			}
		}
	}
	return nil
}

// factBounds improves the interval of p (where cur = scale*p - resid) with equalities e==0 and inequalities g>=0.
func factBounds(cur *Poly, f *Facts, best Iv, resid Iv, scale *big.Int) Iv {
	for x := f; x != nil; x = x.parent {
		if x.eq != nil {
			for _, t := range x.eq.t {
				if len(t.m) == 0 {
					continue
				}
				c := monoCoef(cur, t.m)
				if c.Sign() == 0 {
					continue
				}
				// cur*|t.c| - sign*c*eq
				ac := new(big.Int).Abs(t.c)
				cc := c
				if t.c.Sign() < 0 {
					cc = new(big.Int).Neg(c)
				}
				q := pcomb(pscale(cur, ac), new(big.Int).Neg(cc), x.eq)
				iv := ivAdd(naiveIv(q, f), ivScale(resid, ac))
				best = ivMeet(best, divIv(iv, new(big.Int).Mul(scale, ac)))
			}
		}
		if x.ge != nil {
			for _, t := range x.ge.t {
				if len(t.m) == 0 {
					continue
				}
				c := monoCoef(cur, t.m)
				if c.Sign() == 0 {
					continue
				}
				ac := new(big.Int).Abs(t.c)
				cc := c
				if t.c.Sign() < 0 {
					cc = new(big.Int).Neg(c)
				}
				// ac*cur = q + cc*ge, ge>=0
				q := pcomb(pscale(cur, ac), new(big.Int).Neg(cc), x.ge)
				iv := ivAdd(naiveIv(q, f), ivScale(resid, ac))
				if cc.Sign() > 0 {
					iv.hi = nil
				} else {
					iv.lo = nil
				}
				best = ivMeet(best, divIv(iv, new(big.Int).Mul(scale, ac)))
			}
		}
	}
	return best
}

func monoCoef(p *Poly, m []int32) *big.Int {
	for _, t := range p.t {
		if cmpMono(t.m, m) == 0 {
			return t.c
		}
	}
	return b0
}

// ---------------------------------------------------------------------------
// Normalisation under substitutions
// ---------------------------------------------------------------------------

var substLast [4]struct {
	f *Facts
	m map[int32]*Poly
}
var substNext int

func substMap(f *Facts) map[int32]*Poly {
	if f == nil || f.nsub < 8 {
		return substMap0(f)
	}
	for i := range substLast {
		if substLast[i].f == f {
			return substLast[i].m
		}
	}
	m := substMap0(f)
	substLast[substNext].f, substLast[substNext].m = f, m
	substNext = (substNext + 1) % len(substLast)
	return m
}

func substMap0(f *Facts) map[int32]*Poly {
	var m map[int32]*Poly
	for x := f; x != nil; x = x.parent {
		if x.ssym >= 0 {
			if m == nil {
				m = map[int32]*Poly{}
			}
			if _, ok := m[x.ssym]; !ok {
				m[x.ssym] = x.sval
			}
		}
	}
	return m
}

func normPoly(p *Poly, f *Facts) *Poly {
	if f == nil || f.nsub == 0 || len(p.t) == 0 {
		return p
	}
	if _, ok := p.isConst(); ok {
		return p
	}
	m := substMap(f)
	if m == nil {
		return p
	}
	memo := map[int32]*Poly{}
	return normWith(p, m, f, memo, false)
}

// normWith replaces symbols according to m, and recomputes derived symbols that depend on them.
// With expandNames, named symbols are replaced by their definitions.
func normWith(p *Poly, m map[int32]*Poly, f *Facts, memo map[int32]*Poly, expandNames bool) *Poly {
	linear := len(p.t) > 8
	for i := 0; linear && i < len(p.t); i++ {
		linear = len(p.t[i].m) <= 1
	}
	if linear {
		// all at once
		c := new(big.Int)
		keep := make([]term, 0, len(p.t))
		var rest []*Poly
		hit := false
		for _, t := range p.t {
			if len(t.m) == 0 {
				c.Add(c, t.c)
				continue
			}
			q := normSym(t.m[0], m, f, memo, expandNames)
			if q == nil {
				keep = append(keep, t)
				continue
			}
			hit = true
			if v, ok := q.isConst(); ok {
				c.Add(c, new(big.Int).Mul(v, t.c))
			} else {
				rest = append(rest, pscale(q, t.c))
			}
		}
		if !hit {
			return p
		}
		r := padd(&Poly{t: keep}, pConst(c))
		for _, q := range rest {
			r = padd(r, q)
		}
		return r
	}
	r := p
	for _, s := range p.syms() {
		q := normSym(s, m, f, memo, expandNames)
		if q != nil {
			r = psubst(r, s, q)
		}
	}
	return r
}

// normSym returns the replacement of s, nil if s stays.
func normSym(s int32, m map[int32]*Poly, f *Facts, memo map[int32]*Poly, expandNames bool) *Poly {
	if q, ok := memo[s]; ok {
		return q
	}
	memo[s] = nil
	var res *Poly
	if v, ok := m[s]; ok {
		res = normWith(v, m, f, memo, expandNames)
	} else {
		y := syms[s]
		switch y.kind {
		case symFloor:
			d := normWith(y.def, m, f, memo, expandNames)
			if canonMode || d != y.def && !d.eq(y.def) {
				res = pfloor(d, y.k, f)
			}
		case symNamed:
			d := normWith(y.def, m, f, memo, expandNames)
			if expandNames || (d != y.def && !d.eq(y.def)) {
				res = d
			}
		case symRead:
			d := normWith(y.idx, m, f, memo, expandNames)
			if d != y.idx && !d.eq(y.idx) {
				res = y.arr.at(d)
			}
		}
	}
	memo[s] = res
	return res
}

// expand replaces every named symbol by its definition, recursively, recomputing floors.
func expand(p *Poly, f *Facts) *Poly {
	m := substMap(f)
	if m == nil {
		m = map[int32]*Poly{}
	}
	canonMode = true
	defer func() { canonMode = false }()
	return normWith(p, m, f, map[int32]*Poly{}, true)
}

// canonMode: floors are identified up to multiples of their divisor (for the final comparison of values)
var canonMode bool

// ---------------------------------------------------------------------------
// floor(P/2^k)
// ---------------------------------------------------------------------------

// quotient hints: symbols q such that floor(Y/2^k) may be provably q
var hints []*Sym

const stepsCheap = 3
const stepsDeep = 80

func pfloor(p *Poly, k uint, f *Facts) *Poly {
	return pfloor2(p, k, p, k, f)
}

func pfloor2(p *Poly, k uint, imm *Poly, immk uint, f *Facts) *Poly {
	if k == 0 {
		return p
	}
	if c, ok := p.isConst(); ok {
		return pConst(floorDivPow(c, k))
	}
	m := pow2(k)
	if q := exactQuotient(p, k); q != nil {
		return nameTight(q, f)
	}
	// pull out what is divisible by 2^k
	var out, in []term
	for _, t := range p.t {
		if len(t.m) == 0 {
			q := floorDivPow(t.c, k)
			r := new(big.Int).Sub(t.c, new(big.Int).Lsh(q, k))
			if q.Sign() != 0 {
				out = append(out, term{nil, q})
			}
			if r.Sign() != 0 {
				in = append(in, term{nil, r})
			}
			continue
		}
		if t.c.TrailingZeroBits() >= k {
			out = append(out, term{t.m, new(big.Int).Rsh(t.c, k)})
		} else {
			in = append(in, t)
		}
	}
	if len(out) > 0 {
		o := &Poly{t: out}
		i := &Poly{t: in}
		if len(in) == 0 {
			return o
		}
		im := psub(imm, pscale(o, pow2(immk)))
		if immk != k {
			im = i
			immk = k
		}
		return padd(o, pfloor2(i, k, im, immk, f))
	}
	// drop a low part
	for j := k - 1; j >= 1; j-- {
		var hi, lo []term
		for _, t := range p.t {
			if len(t.m) == 0 {
				q := floorDivPow(t.c, j)
				r := new(big.Int).Sub(t.c, new(big.Int).Lsh(q, j))
				if q.Sign() != 0 {
					hi = append(hi, term{nil, q})
				}
				if r.Sign() != 0 {
					lo = append(lo, term{nil, r})
				}
				continue
			}
			if t.c.TrailingZeroBits() >= j {
				hi = append(hi, term{t.m, new(big.Int).Rsh(t.c, j)})
			} else {
				lo = append(lo, t)
			}
		}
		if len(hi) == 0 || (len(hi) == 1 && len(hi[0].m) == 0) {
			continue
		}
		l := &Poly{t: lo}
		iv := Iv{b0, new(big.Int).Sub(pow2(j), b1)}
		if len(lo) == 0 || naiveIv(l, f).within(iv.lo, iv.hi) {
			h := &Poly{t: hi}
			return pfloor2(h, k-j, h, k-j, f)
		}
	}
	// a function of one bit is affine in it
	if y, c, cst, ok := singleLinear(p); ok {
		if s := syms[y]; s.lo != nil && s.hi != nil && s.def == nil && new(big.Int).Sub(s.hi, s.lo).Cmp(b1) == 0 {
			at := func(v *big.Int) *big.Int {
				return floorDivPow(new(big.Int).Add(cst, new(big.Int).Mul(c, v)), k)
			}
			a, b := at(s.lo), at(s.hi)
			d := new(big.Int).Sub(b, a)
			return padd(pscale(pSym(s), d), pConst(a.Sub(a, d.Mul(d, s.lo))))
		}
	}
	// flatten an inner floor with coefficient one (newest first)
	var inner *Sym
	for _, t := range p.t {
		if len(t.m) == 1 && t.c.Cmp(b1) == 0 {
			s := syms[t.m[0]]
			if s.kind == symFloor && (inner == nil || s.id > inner.id) && p.linearOnly(s.id) {
				inner = s
			}
		}
	}
	if inner != nil {
		r := psub(p, pSym(inner))
		np := padd(pscale(r, pow2(inner.k)), inner.def)
		return pfloor2(np, k+inner.k, imm, immk, f)
	}
	// interval
	lim := Iv{b0, new(big.Int).Sub(m, b1)}
	iv := bounds(imm, f, stepsCheap, nil)
	if immk == k {
		iv = ivMeet(iv, naiveIv(p, f))
	} else {
		_ = lim
	}
	res := Iv{}
	if iv.lo != nil {
		res.lo = floorDivPow(iv.lo, immk)
	}
	if iv.hi != nil {
		res.hi = floorDivPow(iv.hi, immk)
	}
	if immk != k {
		iv2 := naiveIv(p, f)
		r2 := Iv{}
		if iv2.lo != nil {
			r2.lo = floorDivPow(iv2.lo, k)
		}
		if iv2.hi != nil {
			r2.hi = floorDivPow(iv2.hi, k)
		}
		res = ivMeet(res, r2)
	}
	if res.lo != nil && res.hi != nil && res.lo.Cmp(res.hi) == 0 {
		return pConst(res.lo)
	}
	for _, h := range hints {
		d := pcomb(p, new(big.Int).Neg(m), pSym(h))
		need := Iv{b0, new(big.Int).Sub(m, b1)}
		if bounds(d, f, 1, &need).within(need.lo, need.hi) {
			return pSym(h)
		}
	}
	key := fmt.Sprintf("fl%d:%s", k, p.Key())
	if canonMode {
		// the key identifies definitions that differ by a multiple of 2^k
		half := new(big.Int).Rsh(m, 1)
		canon := &Poly{}
		for _, t := range p.t {
			c := t.c
			if len(t.m) > 0 {
				c = new(big.Int).Mod(t.c, m)
				if c.Cmp(half) > 0 {
					c.Sub(c, m)
				}
			}
			if c.Sign() != 0 {
				canon.t = append(canon.t, term{t.m, c})
			}
		}
		key = fmt.Sprintf("cf%d:%s", k, canon.Key())
	}
	s := symKeyed(key, "", func() *Sym {
		s := newSym("", nil, nil)
		s.kind = symFloor
		s.def, s.k, s.imm, s.immk = p, k, imm, immk
		// only fact-free bounds are stored in the symbol
		g := res
		if f != nil {
			g = floorIvNoFacts(p, k, imm, immk)
		}
		s.lo, s.hi = g.lo, g.hi
		return s
	})
	r := pSym(s)
	if s.def != p && !s.def.eq(p) {
		d := psub(p, s.def)
		o := &Poly{}
		for _, t := range d.t {
			o.t = append(o.t, term{t.m, new(big.Int).Rsh(t.c, k)})
		}
		r = padd(r, o)
	}
	return r
}

func floorIvNoFacts(p *Poly, k uint, imm *Poly, immk uint) Iv {
	iv := bounds(imm, nil, stepsCheap, nil)
	res := Iv{}
	if iv.lo != nil {
		res.lo = floorDivPow(iv.lo, immk)
	}
	if iv.hi != nil {
		res.hi = floorDivPow(iv.hi, immk)
	}
	iv2 := naiveIv(p, nil)
	r2 := Iv{}
	if iv2.lo != nil {
		r2.lo = floorDivPow(iv2.lo, k)
	}
	if iv2.hi != nil {
		r2.hi = floorDivPow(iv2.hi, k)
	}
	return ivMeet(res, r2)
}

// nameTight replaces p by a named symbol when its relational interval is much tighter than the naive one.
func nameTight(p *Poly, f *Facts) *Poly {
	if len(p.t) < 2 {
		return p
	}
	has := false
	for _, t := range p.t {
		if len(t.m) == 1 && syms[t.m[0]].kind == symFloor {
			has = true
			break
		}
	}
	if !has {
		return p
	}
	n := naiveIv(p, nil)
	b := bounds(p, nil, stepsCheap, nil)
	nw, bw := n.width(), b.width()
	if bw == nil {
		return p
	}
	if nw != nil && new(big.Int).Lsh(bw, 1).Cmp(nw) > 0 {
		return p
	}
	if bw.Sign() == 0 {
		return pConst(b.lo)
	}
	// constant offsets are kept outside of the name
	c := p.constTerm()
	core := psub(p, pConst(c))
	s := symKeyed("nm:"+core.Key(), "", func() *Sym {
		s := newSym("", nil, nil)
		s.kind = symNamed
		s.def = core
		s.lo = new(big.Int).Sub(b.lo, c)
		s.hi = new(big.Int).Sub(b.hi, c)
		return s
	})
	return padd(pSym(s), pConst(c))
}

// exactQuotient is p/2^k if that is exact once the named symbols in p are written out, nil otherwise.
func exactQuotient(p *Poly, k uint) *Poly {
	named := false
	for _, t := range p.t {
		if len(t.m) == 1 && syms[t.m[0]].kind == symNamed && t.c.TrailingZeroBits() < k {
			named = true
		} else if t.c.TrailingZeroBits() < k {
			return nil
		}
	}
	if !named {
		return nil
	}
	r := pInt(0)
	for _, t := range p.t {
		if len(t.m) == 1 && syms[t.m[0]].kind == symNamed && t.c.TrailingZeroBits() < k {
			r = pcomb(r, t.c, syms[t.m[0]].def)
		} else {
			r = padd(r, &Poly{t: []term{t}})
		}
	}
	q := &Poly{}
	for _, t := range r.t {
		if t.c.TrailingZeroBits() < k {
			return nil
		}
		q.t = append(q.t, term{t.m, new(big.Int).Rsh(t.c, k)})
	}
	return q
}

// pmod2k = p mod 2^k in [0,2^k)
func pmod2k(p *Poly, k uint, f *Facts) *Poly {
	q := pfloor(p, k, f)
	r := pcomb(p, new(big.Int).Neg(pow2(k)), q)
	return nameTight(r, f)
}
