package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/bits"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C19: what timing depends on. The marks of flow.go say which branch conditions, indices, bounds, shift counts and
// operands of divisions depend on a secret; a marked condition that the bits of its operands decide is constant.

func (w *Flow) ctl(c *fCtx, in ssa.Instruction) {
	if w.init {
		return
	}
	see := func(what string, xs ...ssa.Value) {
		for _, x := range xs {
			if x == nil {
				continue
			}
			w.ctls[in]++
			t := c.val(w, x).flat() & w.secrets
			if t == 0 || w.settled(c, x) {
				continue
			}
			w.event("timing", in, nil, "", t, what)
		}
	}
	switch x := in.(type) {
	case *ssa.If:
		see("branch condition", x.Cond)
	case *ssa.IndexAddr:
		see("index", x.Index)
	case *ssa.Index:
		see("index", x.Index)
	case *ssa.Lookup:
		see("look-up key", x.Index)
	case *ssa.MapUpdate:
		see("look-up key", x.Key)
	case *ssa.Slice:
		see("slice bound", x.Low, x.High, x.Max)
	case *ssa.MakeSlice:
		see("length", x.Len, x.Cap)
	case *ssa.BinOp:
		switch x.Op {
		case token.SHL, token.SHR:
			see("shift count", x.Y)
		case token.QUO, token.REM:
			see("division operand", x.X, x.Y)
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			// comparing strings takes time that depends on their contents
			if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				see("string comparison", x.X, x.Y)
			}
		}
	case *ssa.Call:
		if !x.Call.IsInvoke() && x.Call.StaticCallee() == nil {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				see("called function", x.Call.Value)
			}
		}
	}
}

// settled: the value is the same for all secrets
func (w *Flow) settled(c *fCtx, v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return w.settled(c, x.X)
		}
	case *ssa.BinOp:
		switch x.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return w.decided(c, x)
		}
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		return w.mayBits(c, v, 0, nil) == 0
	}
	return false
}

func (w *Flow) decided(c *fCtx, x *ssa.BinOp) bool {
	b, ok := x.X.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	lo1, hi1, m1 := w.bounds(c, x.X)
	lo2, hi2, m2 := w.bounds(c, x.Y)
	if b.Info()&types.IsUnsigned != 0 {
		if m1>>63 != 0 || m2>>63 != 0 {
			return false
		}
	}
	if hi1 < lo2 || hi2 < lo1 {
		return true
	}
	if lo1 == hi1 && lo2 == hi2 {
		return true
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		if k, ok := constBits(x.Y); ok && k&^m1 != 0 {
			return true
		}
		if k, ok := constBits(x.X); ok && k&^m2 != 0 {
			return true
		}
	case token.LSS, token.GEQ: // always X >= Y?
		return lo1 >= hi2
	case token.GTR, token.LEQ:
		return hi1 <= lo2
	}
	return false
}

func (w *Flow) bounds(c *fCtx, v ssa.Value) (lo, hi int64, mask uint64) {
	if k, ok := constBits(v); ok {
		return int64(k), int64(k), k
	}
	m := w.mayBits(c, v, 0, nil)
	if m>>63 != 0 {
		return -1 << 63, int64(m & (1<<63 - 1)), m
	}
	return 0, int64(m), m
}

func constBits(v ssa.Value) (uint64, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return 0, false
	}
	if i, ok := constant.Int64Val(k.Value); ok {
		return uint64(i), true
	}
	if u, ok := constant.Uint64Val(k.Value); ok {
		return u, true
	}
	return 0, false
}

// mayBits: the bits of v that can be set, as a 64 bit number (sign-extended if the type has a sign)
func (w *Flow) mayBits(c *fCtx, v ssa.Value, depth int, busy map[ssa.Value]bool) uint64 {
	const all = ^uint64(0)
	if k, ok := constBits(v); ok {
		return k
	}
	b, ok := v.Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return all
	}
	width, signed := intWidth(b)
	fit := func(m uint64) uint64 {
		if width == 64 {
			return m
		}
		m &= 1<<width - 1
		if signed && m>>(width-1) != 0 {
			m |= all << width
		}
		return m
	}
	top := fit(all)
	if depth > 40 || busy[v] {
		return top
	}
	sub := func(x ssa.Value) uint64 {
		n := map[ssa.Value]bool{v: true}
		for k := range busy {
			n[k] = true
		}
		return w.mayBits(c, x, depth+1, n)
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.AND:
			return fit(sub(x.X) & sub(x.Y))
		case token.OR, token.XOR:
			return fit(sub(x.X) | sub(x.Y))
		case token.AND_NOT:
			m := sub(x.X)
			if k, ok := constBits(x.Y); ok {
				m &^= k
			}
			return fit(m)
		case token.SHL:
			if k, ok := constBits(x.Y); ok && k < 64 {
				return fit(sub(x.X) << k)
			}
		case token.SHR:
			if k, ok := constBits(x.Y); ok {
				if k > 63 {
					k = 63
				}
				m := sub(x.X)
				if signed {
					return fit(uint64(int64(m) >> k))
				}
				return fit(m >> k)
			}
		case token.ADD:
			p, q := sub(x.X), sub(x.Y)
			if p&q == 0 {
				return fit(p | q)
			}
			if s := p + q; p>>63 == 0 && q>>63 == 0 && s>>63 == 0 {
				return fit(1<<bits.Len64(s) - 1)
			}
		case token.MUL:
			p, q := sub(x.X), sub(x.Y)
			if p == 0 || q == 0 {
				return 0
			}
			if p>>63 == 0 && q>>63 == 0 && bits.Len64(p)+bits.Len64(q) < 63 {
				return fit(1<<(bits.Len64(p)+bits.Len64(q)) - 1)
			}
		}
	case *ssa.Convert:
		if f, ok := x.X.Type().Underlying().(*types.Basic); ok && f.Info()&types.IsInteger != 0 {
			return fit(sub(x.X))
		}
	case *ssa.ChangeType:
		return fit(sub(x.X))
	case *ssa.Phi:
		m := uint64(0)
		for _, e := range x.Edges {
			m |= sub(e)
		}
		return fit(m)
	case *ssa.Parameter:
		ci, ok := c.site.(ssa.CallInstruction)
		if !ok || c.parent == nil {
			return top
		}
		cc := ci.Common()
		if cc.IsInvoke() || cc.StaticCallee() != c.fn || c.folded {
			return top
		}
		for i, p := range c.fn.Params {
			if p == x && i < len(cc.Args) {
				return fit(w.mayBits(c.parent, cc.Args[i], depth+1, nil))
			}
		}
	case *ssa.Call:
		fn := x.Call.StaticCallee()
		if fn == nil {
			return top
		}
		switch fn.String() {
		case "crypto/subtle.ConstantTimeByteEq", "crypto/subtle.ConstantTimeEq", "crypto/subtle.ConstantTimeCompare", "crypto/subtle.ConstantTimeLessOrEq":
			return 1
		}
		return fit(w.resultBits(c, x, fn, 0, depth))
	case *ssa.Extract:
		if call, ok := x.Tuple.(*ssa.Call); ok {
			if fn := call.Call.StaticCallee(); fn != nil {
				return fit(w.resultBits(c, call, fn, x.Index, depth))
			}
		}
	}
	return top
}

func (w *Flow) resultBits(c *fCtx, in ssa.Instruction, fn *ssa.Function, i, depth int) uint64 {
	k := c.kids[fKey{in: in, fn: fn}]
	if k == nil {
		return ^uint64(0)
	}
	m := uint64(0)
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if r, ok := x.(*ssa.Return); ok && i < len(r.Results) {
				m |= w.mayBits(k, r.Results[i], depth+1, nil)
			}
		}
	}
	return m
}

func intWidth(b *types.Basic) (int, bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// timingEntries: the operations of C19
func timingEntries(P *Program) []*ssa.Function {
	names := map[string]bool{"Sign": true, "DerivePublicKey": true, "GenerateKeyPair": true, "GetSharedKey": true}
	var r []*ssa.Function
	for _, f := range entryPoints(P) {
		rs := f.Signature.Results()
		kp := false
		for i := 0; i < rs.Len(); i++ {
			n, _ := namedOf(rs.At(i).Type())
			kp = kp || n == "KeyPair"
		}
		if f.Signature.Recv() != nil && names[f.Name()] || f.Signature.Recv() == nil && kp {
			r = append(r, f)
		}
	}
	return r
}

func init() {
	reg("flow.timing", nil, func(c *Checker) {
		fns := timingEntries(c.P)
		have := map[string]bool{}
		for _, f := range fns {
			have[f.Name()] = true
		}
		for _, n := range []string{"Sign", "DerivePublicKey", "GetSharedKey"} {
			c.ob("operation", n, have[n], "no exported operation of this name")
		}
		total := &flowRes{w: newFlow(c.P)}
		for _, f := range fns {
			rs := f.Signature.Results()
			release := map[string]bool{}
			var w *Flow
			var e *fEntry
			for pass := 0; pass < 4; pass++ {
				w = newFlow(c.P)
				w.timing, w.release = true, release
				w.secrets = tSecret
				for i := 0; i < rs.Len(); i++ {
					if n, _ := namedOf(rs.At(i).Type()); n == "KeyPair" {
						w.secrets |= tRandom
					}
				}
				w.runInit()
				e = w.runEntry(f)
				// what the results publish
				var open []*fObj
				seen := map[*fObj]bool{}
				mark := func(o *fObj) {
					if !seen[o] {
						seen[o] = true
						open = append(open, o)
					}
				}
				w.reach(e.ret, func(o *fObj) {
					if n, _ := namedOf(o.typ); n == "Signature" || n == "PublicKey" {
						w.reach(o.root, mark)
					}
				})
				for i := 0; i < len(open); i++ {
					for s := range w.copies[open[i]] {
						mark(s)
					}
				}
				n := len(release)
				for _, o := range open {
					if o.at != "" && o.own == ownFresh {
						release[o.at] = true
					}
				}
				if len(release) == n {
					break
				}
			}
			c.ob("analysed", e.name, len(w.ctls) > 0, "nothing that timing could depend on was met")
			for in, n := range w.ctls {
				total.w.ctls[in] += n
			}
			for fn, n := range w.acts {
				total.w.acts[fn] += n
			}
			total.w.ninstr += w.ninstr
			total.w.nctx += w.nctx
			for _, ev := range w.events {
				if ev.kind == "timing" {
					total.list = append(total.list, ev)
				}
			}
			c.notes[fmt.Sprintf("%s: %d activations, %d objects hold published values", e.name, w.nctx, len(release))] = true
		}
		for fn, n := range total.w.acts {
			c.e.funcs[fn] += n
		}
		c.e.stats.instrs += total.w.ninstr
		sort.Slice(total.list, func(i, j int) bool { return total.list[i].key() < total.list[j].key() })
		c.flowReport("timing depends on a secret", total, total.w.ctls, "independent of the secrets", func(e *fEvent) string {
			return "a " + e.what + " depends on " + taintDesc(e.taint)
		})
	})
}
