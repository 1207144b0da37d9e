package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Elements of F_p[atoms], in normal form: exponents of non-zero atoms are reduced modulo p-1, and for the
// coordinate atoms (x,y) of one curve point x^2*y^2 is replaced by (y^2-x^2-1)/d.

var fieldP = new(big.Int).Sub(new(big.Int).Lsh(b1, 255), bi(19))
var groupL = func() *big.Int {
	c, _ := new(big.Int).SetString("27742317777372353535851937790883648493", 10)
	return c.Add(c, new(big.Int).Lsh(b1, 252))
}()
var curveD = func() *big.Int {
	// -121665/121666
	i := new(big.Int).ModInverse(bi(121666), fieldP)
	i.Mul(i, bi(-121665))
	return i.Mod(i, fieldP)
}()
var curveDInv = new(big.Int).ModInverse(curveD, fieldP)
var sqrtM1 = new(big.Int).Exp(bi(2), new(big.Int).Rsh(new(big.Int).Sub(fieldP, b1), 2), fieldP)

type atomKind int

const (
	aGeneric atomKind = iota
	aScale            // non-zero
	aPtX
	aPtY
)

type Atom struct {
	id   int32
	key  string
	kind atomKind
	nz   bool
	pair int32 // the other coordinate
	tau  *Tau
	deps []int32 // integer symbols it depends on
	def  *FPoly  // named atom
	num  *Poly   // integer whose residue it is
}

var atoms []*Atom
var atomByKey = map[string]*Atom{}

func getAtom(key string, mk func(a *Atom)) *Atom {
	if a, ok := atomByKey[key]; ok {
		return a
	}
	a := &Atom{id: int32(len(atoms)), key: key, pair: -1}
	atoms = append(atoms, a)
	atomByKey[key] = a
	if mk != nil {
		mk(a)
	}
	return a
}

type fpow struct {
	a int32
	e *big.Int
}
type fterm struct {
	m []fpow
	c *big.Int
}
type FPoly struct {
	t   []fterm
	key string
}

func fConst(c *big.Int) *FPoly {
	c = new(big.Int).Mod(c, fieldP)
	if c.Sign() == 0 {
		return &FPoly{}
	}
	return &FPoly{t: []fterm{{nil, c}}}
}
func fInt(c int64) *FPoly     { return fConst(bi(c)) }
func fAtom(a *Atom) *FPoly    { return &FPoly{t: []fterm{{[]fpow{{a.id, b1}}, b1}}} }
func (p *FPoly) isZero() bool { return len(p.t) == 0 }
func (p *FPoly) isConst() (*big.Int, bool) {
	if len(p.t) == 0 {
		return b0, true
	}
	if len(p.t) == 1 && len(p.t[0].m) == 0 {
		return p.t[0].c, true
	}
	return nil, false
}

func fmonoKey(m []fpow) string {
	var sb strings.Builder
	for _, x := range m {
		fmt.Fprintf(&sb, "%d^%s.", x.a, x.e.Text(62))
	}
	return sb.String()
}

func (p *FPoly) Key() string {
	if p.key == "" {
		var sb strings.Builder
		sb.WriteByte('[')
		for _, t := range p.t {
			sb.WriteString(t.c.Text(62))
			sb.WriteByte('*')
			sb.WriteString(fmonoKey(t.m))
			sb.WriteByte(',')
		}
		sb.WriteByte(']')
		p.key = sb.String()
	}
	return p.key
}

func (p *FPoly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var r []string
	for i, t := range p.t {
		if i > 8 {
			r = append(r, fmt.Sprintf("...(%d)", len(p.t)))
			break
		}
		c := t.c
		if new(big.Int).Sub(fieldP, c).Cmp(c) < 0 {
			c = new(big.Int).Sub(c, fieldP)
		}
		s := shortBig(c)
		for _, x := range t.m {
			k := atoms[x.a].key
			if len(k) > 30 {
				k = k[:14] + ".." + k[len(k)-14:]
			}
			s += "*" + k
			if x.e.Cmp(b1) != 0 {
				s += "^" + shortBig(x.e)
			}
		}
		r = append(r, s)
	}
	return strings.Join(r, " + ")
}

type facc struct {
	m map[string]*fterm
}

func newFacc() *facc { return &facc{m: map[string]*fterm{}} }
func (a *facc) add(m []fpow, c *big.Int) {
	k := fmonoKey(m)
	if t, ok := a.m[k]; ok {
		t.c = new(big.Int).Add(t.c, c)
		return
	}
	a.m[k] = &fterm{m, c}
}
func (a *facc) poly() *FPoly {
	var keys []string
	for k := range a.m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r := &FPoly{}
	for _, k := range keys {
		t := a.m[k]
		c := new(big.Int).Mod(t.c, fieldP)
		if c.Sign() != 0 {
			r.t = append(r.t, fterm{t.m, c})
		}
	}
	return r
}

func fadd(p, q *FPoly) *FPoly { return fcomb(p, b1, q) }
func fsub(p, q *FPoly) *FPoly { return fcomb(p, bm1, q) }
func fcomb(p *FPoly, c *big.Int, q *FPoly) *FPoly {
	a := newFacc()
	for _, t := range p.t {
		a.add(t.m, t.c)
	}
	for _, t := range q.t {
		a.add(t.m, new(big.Int).Mul(t.c, c))
	}
	return a.poly()
}
func fscale(p *FPoly, c *big.Int) *FPoly {
	return fcomb(&FPoly{}, new(big.Int).Mod(c, fieldP), p)
}
func fneg(p *FPoly) *FPoly { return fscale(p, bm1) }

var pm1 = new(big.Int).Sub(fieldP, b1)

func fnormExp(a int32, e *big.Int) *big.Int {
	if atoms[a].nz {
		return new(big.Int).Mod(e, pm1)
	}
	if e.Cmp(fieldP) >= 0 {
		// a^p = a
		e = new(big.Int).Sub(e, b1)
		e.Mod(e, pm1)
		return e.Add(e, b1)
	}
	return e
}

func fmulMono(a, b []fpow) []fpow {
	r := make([]fpow, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i].a < b[j].a):
			r = append(r, a[i])
			i++
		case i == len(a) || b[j].a < a[i].a:
			r = append(r, b[j])
			j++
		default:
			e := fnormExp(a[i].a, new(big.Int).Add(a[i].e, b[j].e))
			if e.Sign() != 0 {
				r = append(r, fpow{a[i].a, e})
			}
			i++
			j++
		}
	}
	return r
}

// reduce the monomial by the curve relation of every point pair; emits into acc.
func fcurve(m []fpow, c *big.Int, acc *facc) {
	for i, x := range m {
		a := atoms[x.a]
		if a.kind != aPtX || x.e.Cmp(b2) < 0 {
			continue
		}
		for j, y := range m {
			if y.a != a.pair || y.e.Cmp(b2) < 0 {
				continue
			}
			if x.e.BitLen() > 8 || y.e.BitLen() > 8 {
				continue
			}
			// remove x^2 y^2
			var rest []fpow
			for k, z := range m {
				e := z.e
				if k == i || k == j {
					e = new(big.Int).Sub(e, b2)
				}
				if e.Sign() != 0 {
					rest = append(rest, fpow{z.a, e})
				}
			}
			cd := new(big.Int).Mul(c, curveDInv)
			cd.Mod(cd, fieldP)
			ncd := new(big.Int).Neg(cd)
			fcurve(fmulMono(rest, []fpow{{y.a, b2}}), cd, acc)
			fcurve(fmulMono(rest, []fpow{{x.a, b2}}), ncd, acc)
			fcurve(rest, ncd, acc)
			return
		}
	}
	acc.add(m, c)
}

func fmul(p, q *FPoly) *FPoly {
	acc := newFacc()
	for _, a := range p.t {
		for _, b := range q.t {
			c := new(big.Int).Mul(a.c, b.c)
			c.Mod(c, fieldP)
			fcurve(fmulMono(a.m, b.m), c, acc)
		}
	}
	return acc.poly()
}

// fpowBig = p^e for a monomial (or a constant); other polynomials are named first.
func fpowBig(p *FPoly, e *big.Int) *FPoly {
	if c, ok := p.isConst(); ok {
		return fConst(new(big.Int).Exp(c, e, fieldP))
	}
	if len(p.t) > 1 {
		if e.IsInt64() && e.Int64() <= 1 {
			r := fInt(1)
			for i := int64(0); i < e.Int64(); i++ {
				r = fmul(r, p)
			}
			return r
		}
		p = fAtom(nameF(p))
	}
	t := p.t[0]
	var m []fpow
	for _, x := range t.m {
		ne := fnormExp(x.a, new(big.Int).Mul(x.e, e))
		if ne.Sign() != 0 {
			m = append(m, fpow{x.a, ne})
		}
	}
	acc := newFacc()
	fcurve(m, new(big.Int).Exp(t.c, e, fieldP), acc)
	return acc.poly()
}

func nameF(p *FPoly) *Atom {
	return getAtom("nf:"+p.Key(), func(a *Atom) { a.def = p })
}

// fexpand replaces named atoms occurring with small exponents by their definitions.
func fexpand(p *FPoly) *FPoly {
	for round := 0; round < 20; round++ {
		var pick int32 = -1
		for _, t := range p.t {
			for _, x := range t.m {
				if atoms[x.a].def != nil && x.e.BitLen() <= 4 && x.a > pick {
					pick = x.a
				}
			}
		}
		if pick < 0 {
			return p
		}
		q := fsubst(p, pick, atoms[pick].def)
		if q.Key() == p.Key() {
			return p
		}
		p = q
	}
	return p
}

// fsubst replaces atom a by q where it occurs with a small exponent.
func fsubst(p *FPoly, a int32, q *FPoly) *FPoly {
	res := &FPoly{}
	for _, t := range p.t {
		var e *big.Int
		var rest []fpow
		for _, x := range t.m {
			if x.a == a && (x.e.BitLen() <= 5 || len(q.t) <= 1) {
				e = x.e
			} else {
				rest = append(rest, x)
			}
		}
		r := &FPoly{t: []fterm{{rest, t.c}}}
		if e != nil {
			if len(q.t) <= 1 {
				r = fmul(r, fpowBig(q, e))
			} else {
				for i := int64(0); i < e.Int64(); i++ {
					r = fmul(r, q)
				}
			}
		}
		res = fadd(res, r)
	}
	return res
}

// stripNZ divides p by its common monomial of non-zero atoms and makes it monic.
func stripNZ(p *FPoly) *FPoly {
	if len(p.t) == 0 {
		return p
	}
	// common non-zero atoms: exponents modulo p-1; take the atom's exponent in the first term
	for {
		done := true
		if len(p.t[0].m) == 0 {
			break
		}
		for _, x := range p.t[0].m {
			if !atoms[x.a].nz {
				continue
			}
			all := true
			var min *big.Int
			for _, t := range p.t {
				f := false
				for _, y := range t.m {
					if y.a == x.a {
						f = true
						if min == nil || y.e.Cmp(min) < 0 {
							min = y.e
						}
					}
				}
				if !f {
					all = false
				}
			}
			if all {
				inv := &FPoly{t: []fterm{{[]fpow{{x.a, new(big.Int).Sub(pm1, min)}}, b1}}}
				p = fmul(p, inv)
				done = false
				break
			}
		}
		if done {
			break
		}
	}
	c := new(big.Int).ModInverse(p.t[len(p.t)-1].c, fieldP)
	return fscale(p, c)
}

func (p *FPoly) atoms() []int32 {
	seen := map[int32]bool{}
	var r []int32
	for _, t := range p.t {
		for _, x := range t.m {
			if !seen[x.a] {
				seen[x.a] = true
				r = append(r, x.a)
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

// ---------------------------------------------------------------------------
// Points: integer combinations of named points
// ---------------------------------------------------------------------------

type tauTerm struct {
	pt string // "B" or the name of a point
	c  *Poly
}

// Tau is sum c_i * P_i; the coefficients of B are kept modulo L.
type Tau struct {
	t   []tauTerm
	key string
}

func tauOf(pt string, c *Poly) *Tau { return tauNorm([]tauTerm{{pt, c}}) }

func tauNorm(ts []tauTerm) *Tau {
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].pt < ts[j].pt })
	var r []tauTerm
	for _, t := range ts {
		if len(r) > 0 && r[len(r)-1].pt == t.pt {
			r[len(r)-1].c = padd(r[len(r)-1].c, t.c)
		} else {
			r = append(r, t)
		}
	}
	var q []tauTerm
	for _, t := range r {
		if t.pt == "B" {
			t.c = modLPoly(t.c)
		}
		if !t.c.isZero() {
			q = append(q, t)
		}
	}
	return &Tau{t: q}
}

// modLPoly: coefficients in (-L/2, L/2], symbols that stand for a residue modulo L replaced by what they reduce.
func modLPoly(p *Poly) *Poly {
	p = expandModL(p)
	acc := make([]term, 0, len(p.t))
	half := new(big.Int).Rsh(groupL, 1)
	for _, t := range p.t {
		c := new(big.Int).Mod(t.c, groupL)
		if c.Cmp(half) > 0 {
			c.Sub(c, groupL)
		}
		if c.Sign() != 0 {
			acc = append(acc, term{t.m, c})
		}
	}
	return &Poly{t: acc}
}

func (t *Tau) Key() string {
	if t.key == "" {
		var sb strings.Builder
		for _, x := range t.t {
			fmt.Fprintf(&sb, "{%s:%s}", x.pt, x.c.Key())
		}
		t.key = "T" + sb.String()
	}
	return t.key
}
func (t *Tau) String() string {
	if len(t.t) == 0 {
		return "O"
	}
	var r []string
	for _, x := range t.t {
		r = append(r, fmt.Sprintf("(%s)*%s", x.c, x.pt))
	}
	return strings.Join(r, " + ")
}
func (t *Tau) isZero() bool { return len(t.t) == 0 }
func tauComb(a *Tau, c *Poly, b *Tau) *Tau {
	ts := append([]tauTerm(nil), a.t...)
	for _, x := range b.t {
		ts = append(ts, tauTerm{x.pt, pmul(x.c, c)})
	}
	return tauNorm(ts)
}
func tauAdd(a, b *Tau) *Tau         { return tauComb(a, pInt(1), b) }
func tauSub(a, b *Tau) *Tau         { return tauComb(a, pInt(-1), b) }
func tauScale(a *Tau, c *Poly) *Tau { return tauComb(&Tau{}, c, a) }
func tauMap(a *Tau, f func(*Poly) *Poly) *Tau {
	var ts []tauTerm
	for _, x := range a.t {
		ts = append(ts, tauTerm{x.pt, f(x.c)})
	}
	return tauNorm(ts)
}

// sign such that sign*tau has a positive leading coefficient
func (t *Tau) sign() int {
	if len(t.t) == 0 {
		return 1
	}
	p := t.t[0].c
	return p.t[len(p.t)-1].c.Sign()
}

// coordinates of tau as field polynomials
func tauXY(t *Tau) (x, y *FPoly) {
	if t.isZero() {
		return fInt(0), fInt(1)
	}
	if len(t.t) == 1 && t.t[0].pt == "B" {
		if c, ok := t.t[0].c.isConst(); ok {
			px, py := baseMul(c)
			return fConst(px), fConst(py)
		}
	}
	neg := t.sign() < 0
	u := t
	if neg {
		u = tauScale(t, pInt(-1))
	}
	ax := getAtom("x:"+u.Key(), func(a *Atom) { a.kind = aPtX; a.tau = u })
	ay := getAtom("y:"+u.Key(), func(a *Atom) { a.kind = aPtY; a.tau = u })
	ax.pair, ay.pair = ay.id, ax.id
	x, y = fAtom(ax), fAtom(ay)
	if neg {
		x = fneg(x)
	}
	return
}

// ---- concrete points (multiples of B) --------------------------------------

type affPt struct{ x, y *big.Int }

func edAdd(a, b affPt) affPt {
	m := func(x, y *big.Int) *big.Int { z := new(big.Int).Mul(x, y); return z.Mod(z, fieldP) }
	x1y2, y1x2, y1y2, x1x2 := m(a.x, b.y), m(a.y, b.x), m(a.y, b.y), m(a.x, b.x)
	dd := m(curveD, m(x1y2, y1x2))
	nx := new(big.Int).Add(x1y2, y1x2)
	ny := new(big.Int).Add(y1y2, x1x2)
	dx := new(big.Int).Add(b1, dd)
	dy := new(big.Int).Sub(b1, dd)
	dx.Mod(dx, fieldP)
	dy.Mod(dy, fieldP)
	return affPt{m(nx, new(big.Int).ModInverse(dx, fieldP)), m(ny, new(big.Int).ModInverse(dy, fieldP))}
}

// oracle base point: y = 4/5, x even
var basePt = func() affPt {
	y := new(big.Int).Mul(bi(4), new(big.Int).ModInverse(bi(5), fieldP))
	y.Mod(y, fieldP)
	y2 := new(big.Int).Mul(y, y)
	u := new(big.Int).Sub(y2, b1)
	v := new(big.Int).Mul(curveD, y2)
	v.Add(v, b1)
	v.Mod(v, fieldP)
	x2 := u.Mul(u, new(big.Int).ModInverse(v, fieldP))
	x2.Mod(x2, fieldP)
	x := new(big.Int).ModSqrt(x2, fieldP)
	if x.Bit(0) == 1 {
		x.Sub(fieldP, x)
	}
	return affPt{x, y}
}()

var baseMulCache = map[string]affPt{}
var baseIdx = map[string]*big.Int{} // "x,y" -> k

func baseMul(k *big.Int) (x, y *big.Int) {
	k = new(big.Int).Mod(k, groupL)
	if p, ok := baseMulCache[k.String()]; ok {
		return p.x, p.y
	}
	r := affPt{b0, b1}
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = edAdd(r, r)
		if k.Bit(i) == 1 {
			r = edAdd(r, basePt)
		}
	}
	baseMulCache[k.String()] = r
	baseIdx[r.x.String()+","+r.y.String()] = k
	return r.x, r.y
}

// baseLog finds k with k*B = (x,y) among the multiples that occur in the tables (small odd ones, j*16^2i, negatives).
func baseLog(x, y *big.Int) (*big.Int, bool) {
	initBaseIdx()
	k, ok := baseIdx[x.String()+","+y.String()]
	return k, ok
}

var baseIdxDone bool

func initBaseIdx() {
	if baseIdxDone {
		return
	}
	baseIdxDone = true
	put := func(k *big.Int, p affPt) {
		k = new(big.Int).Mod(k, groupL)
		baseIdx[p.x.String()+","+p.y.String()] = k
		baseMulCache[k.String()] = p
		nk := new(big.Int).Sub(groupL, k)
		if k.Sign() == 0 {
			nk = b0
		}
		np := affPt{new(big.Int).Mod(new(big.Int).Neg(p.x), fieldP), p.y}
		baseIdx[np.x.String()+","+np.y.String()] = nk
		baseMulCache[nk.String()] = np
	}
	put(b0, affPt{b0, b1})
	cur := basePt
	for i := 0; i < 32; i++ {
		q := cur
		for j := int64(1); j <= 16; j++ {
			put(new(big.Int).Mul(bi(j), pow2(uint(8*i))), q)
			q = edAdd(q, cur)
		}
		for k := 0; k < 8; k++ {
			cur = edAdd(cur, cur)
		}
	}
}
