package main

import (
	"fmt"
	"math/big"
)

// scalarBytes: 32 symbolic bytes with the top byte at most top, and their number.
func scalarBytes(name string, top int64) ([]*Poly, *Poly) {
	b := symBytes(name, 32)
	b[31] = pSym(newSym(name+"31t", b0, bi(top)))
	n := pInt(0)
	for i, x := range b {
		n = padd(n, pscale(x, pow2(uint(8*i))))
	}
	return b, n
}

// precomputed runs the method that fills a table of the point (its name is exported).
func (c *Checker) precomputed(st *State, p PtrV, name string) *State {
	fn := c.mustFn(tGE + "." + name)
	outs := c.call(st, fn, p)
	if len(outs) != 1 {
		panic(undecided("%s has %d outcomes", fnName(fn), len(outs)))
	}
	if outs[0].pan != nil {
		panic(undecided("%s panics: %s", fnName(fn), outs[0].pan.desc))
	}
	return outs[0].st
}

func init() {
	reg("mul.tables", []string{"group.convert", "consts.group"}, func(c *Checker) {
		g := c.geShape()
		c.try("the table is built", tGE+".PrecomputeForScalarMultiplication", func() {
			st := c.e.newState()
			p, _ := c.genericPoint(st, c.cs("P3"), "A")
			st = c.precomputed(st, p, "PrecomputeForScalarMultiplication")
			rows := c.ptrSlice(st, c.e.load(st, p).(StructV).f[g.single])
			c.ob("the table has 32 rows", "table of a point", len(rows) == 32, "%d rows", len(rows))
			for i, r := range rows {
				row := c.ptrSlice(st, r)
				c.ob("the row has 8 entries", fmt.Sprintf("table row %d of a point", i), len(row) == 8, "%d entries", len(row))
				for j, q := range row {
					want := new(big.Int).Mul(bi(int64(j+1)), pow2(uint(8*i)))
					c.samePoint(fmt.Sprintf("table entry [%d][%d] of a point", i, j), []Outcome{{st: st, vals: []Val{q}}}, "PRECOMPUTED", tauOf("A", pConst(want)))
				}
			}
		})
		c.try("the table is built", tGE+".PrecomputeForDoubleScalarMultiplication", func() {
			st := c.e.newState()
			p, _ := c.genericPoint(st, c.cs("P3"), "A")
			st = c.precomputed(st, p, "PrecomputeForDoubleScalarMultiplication")
			dbl := c.ptrSlice(st, c.e.load(st, p).(StructV).f[g.double])
			c.ob("the table has 8 entries", "double table of a point", len(dbl) == 8, "%d entries", len(dbl))
			for i, q := range dbl {
				c.samePoint(fmt.Sprintf("double table entry [%d] of a point", i), []Outcome{{st: st, vals: []Val{q}}}, "PRECOMPUTED", tauOf("A", pInt(int64(2*i+1))))
			}
		})
	})
	reg("mul.single", []string{"mul.tables"}, func(c *Checker) {
		c.discoverFinite()
		fn := c.mustFn(tGE + ".scalarMultiply")
		run := func(name string, st *State, p PtrV, pt string) {
			where := fnName(fn) + " with the table of " + name
			c.try("scalar multiplication", where, func() {
				b, n := scalarBytes("smul", 127)
				e, st := c.efe(st, b, "caller")
				c.samePoint(where, c.call(st, fn, p, e), "P3", tauOf(pt, n))
			})
		}
		bp, st := c.basePoint()
		run("the base point", st, bp, "B")
		st = c.e.newState()
		p, _ := c.genericPoint(st, c.cs("P3"), "A")
		st = c.precomputed(st, p, "PrecomputeForScalarMultiplication")
		run("any point", st, p, "A")
	})
}
