package main

import (
	"fmt"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// C18: the built-in constants, taken from the interpreted package initialisation.

func (c *Checker) constFE(where string, st *State, v Val, want *big.Int) {
	l := c.limbs(st, v)
	sum, ok := limbSum(l).isConst()
	c.ob("constant has the value that Ed25519 defines", where, ok && new(big.Int).Mod(new(big.Int).Sub(sum, want), fieldP).Sign() == 0, "value %v, expected %v", sum, want)
	i, in := limbsWithin(l, 110, 100, st.facts)
	c.ob("limbs of the constant are in bounds", where, in, "limb %d", i)
}

func (c *Checker) callConst(name string) (Val, *State) {
	fn := c.mustFn(name)
	outs := c.call(c.e.newState(), fn)
	if len(outs) != 1 || outs[0].pan != nil {
		panic(undecided("%s does not return a constant", name))
	}
	return outs[0].vals[0], outs[0].st
}

func (c *Checker) globalVar(name string) (Val, bool) {
	g, ok := c.P.pkg.Members[name].(*ssa.Global)
	if !ok {
		return nil, false
	}
	return c.e.newState().get(c.e.globalObj(g)), true
}

func init() {
	reg("consts.field", []string{"init"}, func(c *Checker) {
		mod := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, fieldP) }
		d2 := mod(new(big.Int).Mul(curveD, b2))
		for _, x := range []struct {
			fn string
			v  *big.Int
		}{{"Ed25519FieldD", curveD}, {"Ed25519FieldDTimesTwo", d2}, {"Ed25519FieldZero", b0}, {"Ed25519FieldOne", b1}, {"Ed25519FieldTWO", b2}} {
			c.try("constant", x.fn, func() {
				v, st := c.callConst(x.fn)
				c.constFE(x.fn+"()", st, v, x.v)
			})
		}
		c.try("constant", "Ed25519FieldP", func() {
			v, st := c.callConst("Ed25519FieldP")
			b, ok := c.e.load(st, v.(PtrV)).(BigV)
			k, isC := b.p.isConst()
			c.ob("constant has the value that Ed25519 defines", "Ed25519FieldP()", ok && isC && k.Cmp(fieldP) == 0, "value %v", k)
		})
		c.try("constant", "Ed25519Field", func() {
			v, ok := c.globalVar("Ed25519Field")
			if !ok {
				panic(undecided("variable Ed25519Field is missing"))
			}
			st := c.e.newState()
			if p, is := v.(PtrV); is {
				v = c.e.load(st, p)
			}
			s := v.(StructV)
			ix := map[string]Val{}
			stt := c.structOf("ed25519Field")
			for i := 0; i < stt.NumFields(); i++ {
				ix[stt.Field(i).Name()] = s.f[i]
			}
			for n, w := range map[string]*big.Int{"ZERO": b0, "ONE": b1, "TWO": b2, "D": curveD, "DTimesTWO": d2} {
				if ix[n] == nil {
					c.fail("constant exists", "Ed25519Field."+n, "missing")
					continue
				}
				c.constFE("Ed25519Field."+n, st, ix[n], w)
			}
			// either square root of -1 will do
			l := c.limbs(st, ix["I"])
			k, isC := limbSum(l).isConst()
			c.ob("constant has the value that Ed25519 defines", "Ed25519Field.I", isC && mod(new(big.Int).Mul(k, k)).Cmp(mod(bm1)) == 0, "its square is not -1")
			i, in := limbsWithin(l, 110, 100, nil)
			c.ob("limbs of the constant are in bounds", "Ed25519Field.I", in, "limb %d", i)
			if p, is := ix["P"].(PtrV); is {
				k, isC := c.e.load(st, p).(BigV).p.isConst()
				c.ob("constant has the value that Ed25519 defines", "Ed25519Field.P", isC && k.Cmp(fieldP) == 0, "value %v", k)
			}
		})
	})

	// the exported variables that nothing in the library uses
	reg("consts.exported", []string{"init"}, func(c *Checker) {
		for _, x := range []struct {
			name string
			ok   func(k *big.Int) bool
		}{
			{"SqrtM1", func(k *big.Int) bool {
				k = new(big.Int).Add(new(big.Int).Mul(k, k), b1)
				return k.Mod(k, fieldP).Sign() == 0
			}},
			{"A", func(k *big.Int) bool { return new(big.Int).Mod(k, fieldP).Cmp(big.NewInt(486662)) == 0 }},
		} {
			v, ok := c.globalVar(x.name)
			if !ok {
				continue
			}
			c.try("constant", x.name, func() {
				a, ok := v.(ArrayV)
				if !ok || len(a.e) != 10 {
					panic(undecided("%s is not ten limbs", x.name))
				}
				l := make([]*Poly, 10)
				for i, e := range a.e {
					l[i] = e.(IntV).p
				}
				k, isC := limbSum(l).isConst()
				c.ob("constant has the value that Ed25519 defines", x.name, isC && x.ok(k), "value %v", k)
				i, in := limbsWithin(l, 110, 100, nil)
				c.ob("limbs of the constant are in bounds", x.name, in, "limb %d", i)
			})
		}
	})

	reg("consts.group", []string{"consts.field"}, func(c *Checker) {
		v, ok := c.globalVar("Ed25519Group")
		if !ok {
			panic(undecided("variable Ed25519Group is missing"))
		}
		st := c.e.newState()
		s := c.e.load(st, v.(PtrV)).(StructV)
		order := s.f[c.fieldIdx("ed25519Group", "GROUP_ORDER")]
		if p, is := order.(PtrV); is {
			order = c.e.load(st, p)
		}
		k, isC := order.(BigV).p.isConst()
		c.ob("constant has the value that Ed25519 defines", "Ed25519Group.GROUP_ORDER", isC && k.Cmp(groupL) == 0, "value %v", k)

		zero := tauOf("B", pInt(0))
		for n, cs := range map[string]string{"ZERO_P2": "P2", "ZERO_P3": "P3", "ZERO_PRECOMPUTED": "PRECOMPUTED"} {
			fn := c.P.fn("ed25519Group." + n)
			if fn == nil {
				continue
			}
			c.samePoint("Ed25519Group."+n+"()", c.call(c.e.newState(), fn, v), cs, zero)
		}
		bp, st := c.basePoint()
		c.samePoint("Ed25519Group.BASE_POINT()", []Outcome{{st: st, vals: []Val{bp}}}, "P3", tauOf("B", pInt(1)))
		g := c.geShape()
		ge := c.e.load(st, bp).(StructV)
		n := 0
		rows := c.ptrSlice(st, ge.f[g.single])
		c.ob("the table has 32 rows", "base point table", len(rows) == 32, "%d rows", len(rows))
		for i, r := range rows {
			row := c.ptrSlice(st, r)
			c.ob("the row has 8 entries", fmt.Sprintf("base point table row %d", i), len(row) == 8, "%d entries", len(row))
			for j, p := range row {
				want := new(big.Int).Mul(bi(int64(j+1)), pow2(uint(8*i)))
				c.samePoint(fmt.Sprintf("base point table entry [%d][%d]", i, j), []Outcome{{st: st, vals: []Val{p}}}, "PRECOMPUTED", tauOf("B", pConst(want)))
				n++
			}
		}
		dbl := c.ptrSlice(st, ge.f[g.double])
		c.ob("the table has 8 entries", "base point double table", len(dbl) == 8, "%d entries", len(dbl))
		for i, p := range dbl {
			c.samePoint(fmt.Sprintf("base point double table entry [%d]", i), []Outcome{{st: st, vals: []Val{p}}}, "PRECOMPUTED", tauOf("B", pInt(int64(2*i+1))))
			n++
		}
		c.ob("table entries were checked", "base point tables", n == 264, "%d entries", n)
	})
}

func (c *Checker) basePoint() (PtrV, *State) {
	v, ok := c.globalVar("Ed25519Group")
	if !ok {
		panic(undecided("variable Ed25519Group is missing"))
	}
	fn := c.mustFn("ed25519Group.BASE_POINT")
	outs := c.call(c.e.newState(), fn, v)
	if len(outs) != 1 || outs[0].pan != nil {
		panic(undecided("BASE_POINT does not return one value"))
	}
	p, ok := outs[0].vals[0].(PtrV)
	if !ok || p.obj == 0 {
		panic(undecided("BASE_POINT returns no point"))
	}
	return p, outs[0].st
}

// ptrSlice: the elements of a slice (or array) of known length.
func (c *Checker) ptrSlice(st *State, v Val) []Val {
	switch x := v.(type) {
	case SliceV:
		if x.obj == 0 {
			return nil
		}
		return c.e.elems(st, x)
	case ArrayV:
		return x.e
	}
	panic(undecided("table is %T", v))
}
