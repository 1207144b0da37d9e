package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// State
// ---------------------------------------------------------------------------

type Event struct {
	kind string
	fn   *ssa.Function
	at   string
	data any
}

type EvList struct {
	parent *EvList
	e      Event
}

type State struct {
	e      *Engine
	mem    map[int]Val // contents of objects, over e.base
	own    bool        // mem may be modified in place
	facts  *Facts
	ev     *EvList
	pan    *panicInfo // the panic that is being handled (deferred calls)
	recov  bool
	ghosts []*ghost
	epoch  int // how many calls came before, if they left something behind
}

type panicInfo struct {
	v    Val
	desc string
}

func (s *State) clone() *State {
	s.own = false
	c := *s
	return &c
}
func (s *State) get(obj int) Val {
	if v, ok := s.mem[obj]; ok {
		return v
	}
	if v, ok := s.e.base[obj]; ok {
		return v
	}
	panic(undecided("no content for object %d (%s)", obj, s.e.objs[obj].label))
}
func (s *State) set(obj int, v Val) {
	if !s.own {
		m := make(map[int]Val, len(s.mem)+8)
		for k, x := range s.mem {
			m[k] = x
		}
		s.mem = m
		s.own = true
	}
	s.mem[obj] = v
}
func (s *State) event(e Event) { s.ev = &EvList{s.ev, e} }
func (s *State) events() []Event {
	var r []Event
	for x := s.ev; x != nil; x = x.parent {
		r = append(r, x.e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

type ObjMeta struct {
	id    int
	label string
	owner string // "caller", "global", "fresh"
	site  string
	typ   types.Type
	nilIf *Poly // length of a slice that may be nil when it is empty
}

// ---------------------------------------------------------------------------
// Engine
// ---------------------------------------------------------------------------

type Branch struct {
	st  *State
	v   Val
	pan *panicInfo
}

type Outcome struct {
	st   *State
	vals []Val
	pan  *panicInfo
}

type Handler func(c *Call) []Branch

type Call struct {
	e     *Engine
	st    *State
	fn    *ssa.Function // callee, if static
	name  string
	args  []Val
	site  ssa.Instruction
	in    *ssa.Function // caller
	depth int
}

type writeEvent struct {
	fn  *ssa.Function
	obj int
	at  string
}

type Engine struct {
	P        *Program
	objs     []*ObjMeta
	base     map[int]Val
	globals  map[*ssa.Global]int
	handlers map[string]Handler
	// contracts: repository functions that are replaced by what has been proved of them
	contracts map[*ssa.Function]Handler
	off       map[*ssa.Function]bool
	mergeOn   *mergeSpec
	inTail    bool
	vnum      map[*ssa.Function]map[ssa.Value]int
	fuel      int
	depth     int
	phase     string // "init" or "run"
	writes    []writeEvent
	stats     struct{ instrs, calls, forks, outcomes int }
	funcs     map[*ssa.Function]int
	curIn     *ssa.Function
	ownNew    string
	trace     bool
	hashFault bool
}

func newEngine(P *Program) *Engine {
	e := &Engine{P: P, base: map[int]Val{}, globals: map[*ssa.Global]int{}, contracts: map[*ssa.Function]Handler{},
		off: map[*ssa.Function]bool{}, vnum: map[*ssa.Function]map[ssa.Value]int{},
		fuel: 400_000_000, funcs: map[*ssa.Function]int{}, phase: "run", ownNew: "fresh"}
	e.objs = append(e.objs, &ObjMeta{label: "nil"})
	e.handlers = stdHandlers()
	return e
}

func (e *Engine) newState() *State { return &State{e: e, mem: map[int]Val{}, own: true} }

func (e *Engine) newObj(label, owner string, t types.Type) int {
	o := &ObjMeta{id: len(e.objs), label: label, owner: owner, typ: t}
	e.objs = append(e.objs, o)
	return o.id
}

// covered: the basic blocks that were interpreted, if they are asked for
var covered map[*ssa.BasicBlock]bool

func (e *Engine) alloc(st *State, label string, v Val, t types.Type) int {
	id := e.newObj(label, e.ownNew, t)
	st.set(id, v)
	return id
}

func (e *Engine) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	t := g.Type().(*types.Pointer).Elem()
	id := e.newObj("global "+g.String(), "global", t)
	e.globals[g] = id
	if g.Pkg == e.P.pkg {
		e.base[id] = zeroVal(t)
	} else {
		e.base[id] = e.extGlobal(g, t)
	}
	return id
}

// value numbers of a function
func (e *Engine) numbering(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := e.vnum[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	add := func(v ssa.Value) { m[v] = len(m) }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	e.vnum[fn] = m
	return m
}

type deferred struct {
	call *ssa.CallCommon
	fn   Val
	args []Val
}

type frame struct {
	fn     *ssa.Function
	num    map[ssa.Value]int
	env    []Val
	own    bool
	blk    *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	st     *State
	defers []deferred
	depth  int
	iters  map[*ssa.BasicBlock]int
	exits  map[*ssa.BasicBlock]int // undecided exits of the loop on this path, since it was entered
}

func (f *frame) clone(st *State) *frame {
	c := *f
	c.env = append([]Val(nil), f.env...)
	c.st = st
	c.defers = append([]deferred(nil), f.defers...)
	if f.iters != nil {
		c.iters = map[*ssa.BasicBlock]int{}
		for k, v := range f.iters {
			c.iters[k] = v
		}
		c.exits = map[*ssa.BasicBlock]int{}
		for k, v := range f.exits {
			c.exits[k] = v
		}
	}
	return &c
}

func (e *Engine) pos(in ssa.Instruction) string {
	p := in.Pos()
	if p == token.NoPos {
		return fnName(in.Parent())
	}
	ps := e.P.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndexByte(f, '/'); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s (%s:%d)", fnName(in.Parent()), f, ps.Line)
}

// callFn runs fn on args in st.
func (e *Engine) callFn(fn *ssa.Function, args []Val, free []Val, st *State, depth int) []Outcome {
	if depth > 60 {
		panic(undecided("call depth exceeded at %s", fnName(fn)))
	}
	if !e.P.body(fn) {
		panic(undecided("function %s has no body and no model", fn.String()))
	}
	e.funcs[fn]++
	e.stats.calls++
	num := e.numbering(fn)
	fr := &frame{fn: fn, num: num, env: make([]Val, len(num)), blk: fn.Blocks[0], st: st, depth: depth}
	if len(args) != len(fn.Params) {
		panic(undecided("%s: %d arguments for %d parameters", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[num[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[num[p]] = free[i]
	}
	var outs []Outcome
	w := &worklist{e: e, fn: fn, nobj: len(e.objs)}
	if e.mergeOn != nil && !e.inTail && e.P.inRepo(fn) {
		w.spec = e.mergeOn
	}
	w.push(fr)
	for {
		fr := w.pop()
		if fr == nil {
			break
		}
		e.run(fr, w, &outs)
	}
	if w.spec != nil && len(outs) > 1 {
		outs = w.mergeOuts(outs)
	}
	e.stats.outcomes += len(outs)
	return outs
}

func (e *Engine) val(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Global:
		return PtrV{obj: e.globalObj(x)}
	case *ssa.Builtin:
		return FuncV{b: x.Name()}
	}
	i, ok := fr.num[v]
	if !ok {
		panic(undecided("value %s not numbered", v))
	}
	r := fr.env[i]
	if iv, ok := r.(IntV); ok && fr.st.facts != nil && fr.st.facts.nsub > 0 {
		return IntV{normPoly(iv.p, fr.st.facts)}
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return BoolV{cBool(constant.BoolVal(c.Value))}
		case b.Info()&types.IsString != 0:
			return StrV{constStr(constant.StringVal(c.Value))}
		case b.Info()&types.IsInteger != 0:
			s := constant.ToInt(c.Value).ExactString()
			n, ok := new(big.Int).SetString(s, 10)
			if ok {
				return IntV{pConst(n)}
			}
		}
	}
	return UnkV{"constant " + c.String()}
}

func (fr *frame) set(v ssa.Value, x Val) { fr.env[fr.num[v]] = x }

type bail struct {
	msg string
	at  string
}

// run executes fr until it ends or forks.
func (e *Engine) run(fr *frame, w *worklist, outs *[]Outcome) {
	for {
		e.fuel--
		if e.fuel < 0 {
			panic(undecided("analysis budget exhausted in %s", fnName(fr.fn)))
		}
		in := fr.blk.Instrs[fr.ip]
		e.stats.instrs++
		if covered != nil {
			covered[fr.blk] = true
		}
		e.curIn = fr.fn
		switch x := in.(type) {
		case *ssa.DebugRef:
			fr.ip++
			continue
		case *ssa.Phi:
			// all phis of the block at once
			idx := -1
			for i, p := range fr.blk.Preds {
				if p == fr.prev {
					idx = i
				}
			}
			var vals []Val
			var phis []*ssa.Phi
			for _, i := range fr.blk.Instrs {
				p, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				phis = append(phis, p)
				vals = append(vals, e.val(fr, p.Edges[idx]))
			}
			for i, p := range phis {
				fr.set(p, vals[i])
			}
			fr.ip += len(phis)
			if w.atJoin(fr) {
				return
			}
			continue
		case *ssa.Jump:
			e.jump(fr, fr.blk.Succs[0])
			if fr.joinsHere() && w.atJoin(fr) {
				return
			}
			continue
		case *ssa.If:
			c, ok := e.val(fr, x.Cond).(BoolV)
			if !ok {
				panic(undecided("branch on %T at %s", e.val(fr, x.Cond), e.pos(in)))
			}
			v, known := decide(c.c, fr.st.facts)
			if known {
				s := fr.blk.Succs[1]
				if v {
					s = fr.blk.Succs[0]
				}
				e.jump(fr, s)
				if fr.joinsHere() && w.atJoin(fr) {
					return
				}
				continue
			}
			e.stats.forks++
			if e.trace {
				fmt.Printf("FORK %s: %s\n", e.pos(in), c.c)
			}
			for h, in := range e.cfg(fr.fn).inl {
				if in == nil || !in[fr.blk.Index] || in[fr.blk.Succs[0].Index] == in[fr.blk.Succs[1].Index] {
					continue
				}
				hb := fr.fn.Blocks[h]
				if fr.exits[hb]++; fr.exits[hb] > 600 {
					panic(undecided("the loop at %s ends after an unknown number of iterations", e.pos(x)))
				}
			}
			alts := e.splitCond(c.c, fr.st.facts)
			for _, a := range alts {
				nf := fr.clone(fr.st.clone())
				nf.st.facts = a.f
				s := fr.blk.Succs[1]
				if a.v {
					s = fr.blk.Succs[0]
				}
				e.jump(nf, s)
				if nf.joinsHere() && w.atJoin(nf) {
					continue
				}
				w.push(nf)
			}
			return
		case *ssa.Return:
			var vals []Val
			for _, r := range x.Results {
				vals = append(vals, e.val(fr, r))
			}
			*outs = append(*outs, Outcome{st: fr.st, vals: vals})
			return
		case *ssa.RunDefers:
			if len(fr.defers) == 0 {
				fr.ip++
				continue
			}
			res := e.runDefers(fr, fr.st, nil)
			for i, r := range res {
				nf := fr
				if i < len(res)-1 || len(res) > 1 {
					nf = fr.clone(r.st)
				}
				nf.st = r.st
				nf.defers = nil
				if r.pan != nil {
					*outs = append(*outs, Outcome{st: r.st, pan: r.pan})
					continue
				}
				nf.ip++
				w.push(nf)
			}
			return
		case *ssa.Panic:
			v := e.val(fr, x.X)
			e.doPanic(fr, &panicInfo{v, "panic at " + e.pos(in)}, w, outs)
			return
		case *ssa.Store:
			brs := e.store(fr.st, e.val(fr, x.Addr), e.val(fr, x.Val), fr, in)
			if len(brs) == 1 && brs[0].pan == nil {
				fr.st = brs[0].st
				fr.ip++
				continue
			}
			e.fork(fr, nil, brs, w, outs)
			return
		case *ssa.Defer:
			var args []Val
			for _, a := range x.Call.Args {
				args = append(args, e.val(fr, a))
			}
			d := deferred{call: &x.Call, args: args}
			if !x.Call.IsInvoke() {
				d.fn = e.val(fr, x.Call.Value)
			} else {
				panic(undecided("deferred interface call at %s", e.pos(in)))
			}
			fr.defers = append(fr.defers, d)
			fr.ip++
			continue
		case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select:
			panic(undecided("instruction %s is not modelled, at %s", in, e.pos(in)))
		}
		v := in.(ssa.Value)
		tail := e.inTail
		if w.spec != nil && !tail {
			e.inTail = w.inTail(fr)
		}
		brs := e.eval(fr, in)
		e.inTail = tail
		if len(brs) == 1 && brs[0].pan == nil {
			fr.st = brs[0].st
			fr.set(v, brs[0].v)
			fr.ip++
			continue
		}
		e.fork(fr, v, brs, w, outs)
		return
	}
}

func (fr *frame) joinsHere() bool {
	if fr.ip != 0 || len(fr.blk.Preds) < 2 {
		return false
	}
	_, isPhi := fr.blk.Instrs[0].(*ssa.Phi)
	return !isPhi
}

type condAlt struct {
	v bool
	f *Facts
}

// splitCond returns the two (or more) alternatives of an undecided condition.
func (e *Engine) splitCond(c *Cond, f *Facts) []condAlt {
	if c.k == cXor {
		var r []condAlt
		for _, a := range e.splitOrKnown(c.x, f) {
			for _, b := range e.splitOrKnown(c.y, a.f) {
				r = append(r, condAlt{a.v != b.v, b.f})
			}
		}
		return r
	}
	if c.k == cNot {
		r := e.splitCond(c.x, f)
		for i := range r {
			r[i].v = !r[i].v
		}
		return r
	}
	if c.k == cAnd {
		var r []condAlt
		for _, a := range e.splitOrKnown(c.x, f) {
			if !a.v {
				r = append(r, a)
				continue
			}
			r = append(r, e.splitOrKnown(c.y, a.f)...)
		}
		return r
	}
	var r []condAlt
	for _, v := range []bool{true, false} {
		if g, ok := assume(c, v, f); ok {
			r = append(r, condAlt{v, g})
		}
	}
	return r
}
func (e *Engine) splitOrKnown(c *Cond, f *Facts) []condAlt {
	if v, k := decide(c, f); k {
		return []condAlt{{v, f}}
	}
	return e.splitCond(c, f)
}

func (e *Engine) fork(fr *frame, v ssa.Value, brs []Branch, w *worklist, outs *[]Outcome) {
	for _, b := range brs {
		nf := fr.clone(b.st)
		if b.pan != nil {
			e.doPanic(nf, b.pan, w, outs)
			continue
		}
		if v != nil {
			nf.set(v, b.v)
		}
		nf.ip++
		w.push(nf)
	}
	e.stats.forks++
}

func (e *Engine) jump(fr *frame, to *ssa.BasicBlock) {
	fr.prev = fr.blk
	fr.blk = to
	fr.ip = 0
	if len(to.Preds) > 1 && e.cfg(fr.fn).inl[to.Index] != nil {
		if fr.iters == nil {
			fr.iters = map[*ssa.BasicBlock]int{}
			fr.exits = map[*ssa.BasicBlock]int{}
		}
		if !e.cfg(fr.fn).inl[to.Index][fr.prev.Index] {
			fr.iters[to] = 0
			fr.exits[to] = 0
		} else {
			fr.iters[to]++
		}
		if fr.iters[to] > 20000 {
			panic(undecided("loop in %s does not terminate within 20000 iterations", fnName(fr.fn)))
		}
	}
}

func (e *Engine) doPanic(fr *frame, p *panicInfo, w *worklist, outs *[]Outcome) {
	if len(fr.defers) == 0 {
		*outs = append(*outs, Outcome{st: fr.st, pan: p})
		return
	}
	for _, r := range e.runDefers(fr, fr.st, p) {
		if r.pan != nil {
			*outs = append(*outs, Outcome{st: r.st, pan: r.pan})
			continue
		}
		// recovered
		nf := fr.clone(r.st)
		nf.defers = nil
		if fr.fn.Recover == nil {
			// zero results
			var vals []Val
			res := fr.fn.Signature.Results()
			for i := 0; i < res.Len(); i++ {
				vals = append(vals, zeroVal(res.At(i).Type()))
			}
			*outs = append(*outs, Outcome{st: r.st, vals: vals})
			continue
		}
		nf.prev = nil
		nf.blk = fr.fn.Recover
		nf.ip = 0
		w.push(nf)
	}
}

// runDefers runs the deferred calls, last first.
func (e *Engine) runDefers(fr *frame, st *State, p *panicInfo) []Branch {
	cur := []Branch{{st: st, pan: p}}
	for i := len(fr.defers) - 1; i >= 0; i-- {
		d := fr.defers[i]
		var next []Branch
		for _, c := range cur {
			s := c.st.clone()
			oldPan, oldRec := s.pan, s.recov
			s.pan, s.recov = c.pan, false
			for _, o := range e.apply(d.fn, d.args, s, fr, nil) {
				pn := c.pan
				if o.pan != nil {
					pn = o.pan
				} else if o.st.recov {
					pn = nil
				}
				o.st.pan, o.st.recov = oldPan, oldRec
				next = append(next, Branch{st: o.st, pan: pn})
			}
		}
		cur = next
	}
	return cur
}

// apply calls a function value.
func (e *Engine) apply(fv Val, args []Val, st *State, fr *frame, site ssa.Instruction) []Branch {
	f, ok := fv.(FuncV)
	if !ok {
		panic(undecided("call of %T", fv))
	}
	if f.b != "" {
		return e.builtin(f.b, args, st, fr, site)
	}
	if f.fn == nil {
		return []Branch{{st: st, pan: &panicInfo{nil, "call of nil function"}}}
	}
	return e.callStatic(f.fn, args, f.free, st, fr, site)
}

func (e *Engine) callStatic(fn *ssa.Function, args, free []Val, st *State, fr *frame, site ssa.Instruction) []Branch {
	c := &Call{e: e, st: st, fn: fn, name: fn.String(), args: args, site: site}
	if fr != nil {
		c.in, c.depth = fr.fn, fr.depth
	}
	if h, ok := e.contracts[fn]; ok && !e.off[fn] {
		if r := h(c); r != nil {
			return r
		}
	}
	if h, ok := e.handlers[c.name]; ok {
		if r := h(c); r != nil {
			return r
		}
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != e.P.pkg {
		return one(st, TupleV(nil)) // initialisers of other packages
	}
	if !e.P.inRepo(fn) && !interpretable(fn) {
		return e.extCall(c)
	}
	var r []Branch
	for _, o := range e.callFn(fn, args, free, st, c.depth+1) {
		r = append(r, Branch{st: o.st, v: pack(o.vals), pan: o.pan})
	}
	return r
}

func pack(vals []Val) Val {
	if len(vals) == 1 {
		return vals[0]
	}
	return TupleV(vals)
}

func one(st *State, v Val) []Branch { return []Branch{{st: st, v: v}} }

func (e *Engine) eval(fr *frame, in ssa.Instruction) []Branch {
	st := fr.st
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().(*types.Pointer).Elem()
		id := e.alloc(st, "alloc "+x.Comment+" in "+fnName(fr.fn), zeroVal(t), t)
		return one(st, PtrV{obj: id})
	case *ssa.BinOp:
		return e.binop(fr, x)
	case *ssa.UnOp:
		return e.unop(fr, x)
	case *ssa.Call:
		return e.call(fr, x)
	case *ssa.ChangeType:
		return one(st, e.val(fr, x.X))
	case *ssa.ChangeInterface:
		return one(st, e.val(fr, x.X))
	case *ssa.Convert:
		return e.convert(fr, x)
	case *ssa.MakeInterface:
		return one(st, IfaceV{x.X.Type(), e.val(fr, x.X)})
	case *ssa.Extract:
		t := e.val(fr, x.Tuple).(TupleV)
		return one(st, t[x.Index])
	case *ssa.Field:
		s, ok := e.val(fr, x.X).(StructV)
		if !ok {
			panic(undecided("field of %T at %s", e.val(fr, x.X), e.pos(in)))
		}
		return one(st, s.f[x.Field])
	case *ssa.FieldAddr:
		p := e.val(fr, x.X).(PtrV)
		if p.obj == 0 {
			return []Branch{{st: st, pan: &panicInfo{nil, "nil dereference at " + e.pos(in)}}}
		}
		return one(st, PtrV{obj: p.obj, path: append(append([]int(nil), p.path...), x.Field)})
	case *ssa.Index:
		return e.index(fr, x)
	case *ssa.IndexAddr:
		return e.indexAddr(fr, x)
	case *ssa.Slice:
		return e.slice(fr, x)
	case *ssa.MakeSlice:
		return e.makeSlice(fr, x)
	case *ssa.MakeClosure:
		var free []Val
		for _, b := range x.Bindings {
			free = append(free, e.val(fr, b))
		}
		return one(st, FuncV{fn: x.Fn.(*ssa.Function), free: free})
	case *ssa.TypeAssert:
		return e.typeAssert(fr, x)
	case *ssa.Lookup:
		// string indexing
		if s, ok := e.val(fr, x.X).(StrV); ok {
			i := e.val(fr, x.Index).(IntV).p
			return e.ropeIndex(fr, in, s.r, i)
		}
	case *ssa.SliceToArrayPointer:
		s := e.val(fr, x.X).(SliceV)
		n := x.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return e.guard(fr, in, condGE(psub(s.len, pInt(n))), "slice to array conversion out of range", func(st *State) []Branch {
			if n == 0 {
				return one(st, PtrV{obj: s.obj, path: s.path})
			}
			panic(undecided("slice to array pointer at %s", e.pos(in)))
		})
	case *ssa.Range:
		if s, ok := e.val(fr, x.X).(StrV); ok {
			if t, ok := s.r.text(); ok {
				id := e.alloc(st, "range", ExtV{"range", &rangeIter{text: t}}, nil)
				return one(st, PtrV{obj: id})
			}
		}
	case *ssa.Next:
		if p, ok := e.val(fr, x.Iter).(PtrV); ok && x.IsString {
			it := st.get(p.obj).(ExtV).d.(*rangeIter)
			if it.pos >= len(it.text) {
				return one(st, TupleV{BoolV{cFalse}, IntV{pInt(0)}, IntV{pInt(0)}})
			}
			for i, r := range it.text[it.pos:] {
				_ = i
				n := len(string(r))
				st.set(p.obj, ExtV{"range", &rangeIter{it.text, it.pos + n}})
				return one(st, TupleV{BoolV{cTrue}, IntV{pInt(int64(it.pos))}, IntV{pInt(int64(r))}})
			}
		}
	}
	panic(undecided("instruction %T (%s) is not modelled, at %s", in, in, e.pos(in)))
}

type rangeIter struct {
	text string
	pos  int
}

// guard forks on c: the false side panics.
func (e *Engine) guard(fr *frame, in ssa.Instruction, c *Cond, what string, k func(st *State) []Branch) []Branch {
	st := fr.st
	if v, known := decide(c, st.facts); known {
		if v {
			return k(st)
		}
		return []Branch{{st: st, pan: &panicInfo{nil, what + " at " + e.pos(in)}}}
	}
	var r []Branch
	for _, a := range e.splitCond(c, st.facts) {
		s := st.clone()
		s.facts = a.f
		if a.v {
			r = append(r, k(s)...)
		} else {
			r = append(r, Branch{st: s, pan: &panicInfo{nil, what + " at " + e.pos(in)}})
		}
	}
	return r
}

// ---- memory ---------------------------------------------------------------

// load reads the value at p.
func (e *Engine) load(st *State, p PtrV) Val {
	v := st.get(p.obj)
	for _, i := range p.path {
		switch x := v.(type) {
		case StructV:
			v = x.f[i]
		case ArrayV:
			v = x.e[i]
		case RopeV:
			r, ok := x.r.sub(pInt(int64(i)), pInt(int64(i)+1), st.facts)
			if !ok || len(r.s) != 1 {
				panic(undecided("read of byte %d", i))
			}
			v = IntV{segByte(r.s[0])}
		default:
			panic(undecided("path into %T", v))
		}
	}
	if p.idx != nil {
		i := normPoly(p.idx, st.facts)
		switch x := v.(type) {
		case ArrayV:
			if c, ok := i.isConst(); ok {
				return x.e[c.Int64()]
			}
			panic(undecided("read at an unknown index"))
		case RopeV:
			r, ok := x.r.sub(i, padd(i, pInt(1)), st.facts)
			if !ok || len(r.s) != 1 {
				panic(undecided("read of byte %s", i))
			}
			return IntV{segByte(r.s[0])}
		default:
			panic(undecided("index into %T", v))
		}
	}
	return v
}

func segByte(s Seg) *Poly {
	if s.bytes != nil {
		return s.bytes[0]
	}
	return s.arr.at(s.off)
}

func (e *Engine) storeAt(st *State, obj int, path []int, idx *Poly, nv Val) {
	st.set(obj, e.replace(st, st.get(obj), path, idx, nv))
}

func (e *Engine) replace(st *State, v Val, path []int, idx *Poly, nv Val) Val {
	if len(path) == 0 {
		if idx == nil {
			return nv
		}
		i := normPoly(idx, st.facts)
		switch x := v.(type) {
		case ArrayV:
			c, ok := i.isConst()
			if !ok {
				panic(undecided("write at an unknown index"))
			}
			ne := append([]Val(nil), x.e...)
			ne[c.Int64()] = nv
			return ArrayV{ne}
		case RopeV:
			return RopeV{ropeSplice(x.r, i, ropeBytes([]*Poly{nv.(IntV).p}), st.facts)}
		}
		panic(undecided("indexed write into %T", v))
	}
	i := path[0]
	switch x := v.(type) {
	case StructV:
		nf := append([]Val(nil), x.f...)
		nf[i] = e.replace(st, x.f[i], path[1:], idx, nv)
		return StructV{nf}
	case ArrayV:
		ne := append([]Val(nil), x.e...)
		ne[i] = e.replace(st, x.e[i], path[1:], idx, nv)
		return ArrayV{ne}
	case RopeV:
		return RopeV{ropeSplice(x.r, pInt(int64(i)), ropeBytes([]*Poly{nv.(IntV).p}), st.facts)}
	}
	panic(undecided("write into %T", v))
}

// ropeSplice overwrites r at position at with q.
func ropeSplice(r *Rope, at *Poly, q *Rope, f *Facts) *Rope {
	n := r.length()
	a, ok1 := r.sub(pInt(0), at, f)
	b, ok2 := r.sub(padd(at, q.length()), n, f)
	if !ok1 || !ok2 {
		panic(undecided("write at position %s of %s", at, r))
	}
	return ropeCat(a, q, b)
}

func (e *Engine) noteWrite(st *State, obj int, fr *frame, in ssa.Instruction) {
	o := e.objs[obj].owner
	if o == "fresh" {
		return
	}
	if e.phase == "init" {
		return
	}
	at := ""
	var fn *ssa.Function
	if fr != nil {
		fn = fr.fn
	} else {
		fn = e.curIn
	}
	if in != nil {
		at = e.pos(in)
	} else if fn != nil {
		at = fnName(fn)
	}
	st.event(Event{kind: "write-" + o, fn: fn, at: at, data: obj})
	e.writes = append(e.writes, writeEvent{fn, obj, at})
}

func (e *Engine) store(st *State, addr, v Val, fr *frame, in ssa.Instruction) []Branch {
	p, ok := addr.(PtrV)
	if !ok {
		panic(undecided("store through %T at %s", addr, e.pos(in)))
	}
	if p.obj == 0 {
		return []Branch{{st: st, pan: &panicInfo{nil, "nil dereference at " + e.pos(in)}}}
	}
	e.noteWrite(st, p.obj, fr, in)
	e.storeAt(st, p.obj, p.path, p.idx, v)
	return one(st, nil)
}

// arrayOf returns the content a slice points into.
func (e *Engine) sliceContent(st *State, s SliceV) Val {
	return e.load(st, PtrV{obj: s.obj, path: s.path})
}

// rope of a byte slice
func (e *Engine) ropeOf(st *State, s SliceV) *Rope {
	if s.obj == 0 || s.len.isZero() {
		return &Rope{}
	}
	c := e.sliceContent(st, s)
	off, n := normPoly(s.off, st.facts), normPoly(s.len, st.facts)
	switch x := c.(type) {
	case ArrayV:
		o, k1 := off.isConst()
		l, k2 := n.isConst()
		if !k1 || !k2 {
			panic(undecided("slice of unknown extent of an array of %d", len(x.e)))
		}
		var b []*Poly
		for i := o.Int64(); i < o.Int64()+l.Int64(); i++ {
			iv, ok := x.e[i].(IntV)
			if !ok {
				panic(undecided("bytes of %T", x.e[i]))
			}
			b = append(b, normPoly(iv.p, st.facts))
		}
		return ropeBytes(b)
	case RopeV:
		r, ok := x.r.sub(off, padd(off, n), st.facts)
		if !ok {
			panic(undecided("slice [%s:+%s] of %s", off, n, x.r))
		}
		return r
	}
	panic(undecided("bytes of %T", c))
}

// bytesOf: explicit bytes of a slice of constant length
func (e *Engine) bytesOf(st *State, s SliceV) ([]*Poly, bool) {
	n, ok := normPoly(s.len, st.facts).isConst()
	if !ok || n.Int64() > 1<<16 {
		return nil, false
	}
	r := e.ropeOf(st, s).norm(st.facts)
	if len(r.s) == 0 {
		return nil, true
	}
	if len(r.s) != 1 || r.s[0].bytes == nil {
		return nil, false
	}
	return r.s[0].bytes, true
}

// newBytes allocates a byte slice with the content of r.
func (e *Engine) newBytes(st *State, label string, r *Rope) SliceV {
	r = r.norm(st.facts)
	n := r.length()
	var c Val
	if _, ok := n.isConst(); ok && (len(r.s) == 0 || (len(r.s) == 1 && r.s[0].bytes != nil)) {
		var el []Val
		if len(r.s) == 1 {
			for _, b := range r.s[0].bytes {
				el = append(el, IntV{b})
			}
		}
		c = ArrayV{el}
	} else {
		c = RopeV{r}
	}
	id := e.alloc(st, label, c, nil)
	return SliceV{obj: id, off: pInt(0), len: n, cap: n}
}

// writeBytes overwrites the bytes of s at position at with r.
func (e *Engine) writeBytes(st *State, s SliceV, at *Poly, r *Rope, fr *frame, in ssa.Instruction) {
	if r.length().isZero() {
		return
	}
	e.noteWrite(st, s.obj, fr, in)
	c := e.sliceContent(st, s)
	pos := padd(s.off, at)
	switch x := c.(type) {
	case ArrayV:
		o, k := normPoly(pos, st.facts).isConst()
		rn := r.norm(st.facts)
		if !k || len(rn.s) != 1 || rn.s[0].bytes == nil {
			panic(undecided("write of %s at %s of an array of %d", rn, pos, len(x.e)))
		}
		ne := append([]Val(nil), x.e...)
		for i, b := range rn.s[0].bytes {
			ne[int(o.Int64())+i] = IntV{b}
		}
		e.storeAt(st, s.obj, s.path, nil, ArrayV{ne})
	case RopeV:
		e.storeAt(st, s.obj, s.path, nil, RopeV{ropeSplice(x.r, pos, r, st.facts)})
	default:
		panic(undecided("write of bytes into %T", c))
	}
}

// ---- instructions ---------------------------------------------------------

func (e *Engine) unop(fr *frame, x *ssa.UnOp) []Branch {
	st := fr.st
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(PtrV)
		if !ok {
			panic(undecided("load through %T at %s", v, e.pos(x)))
		}
		if p.obj == 0 {
			return []Branch{{st: st, pan: &panicInfo{nil, "nil dereference at " + e.pos(x)}}}
		}
		if isBigInt(x.Type()) {
			if b, ok := e.load(st, p).(BigV); ok {
				// a shallow copy: the words are shared from now on
				b.shared = true
				e.storeAt(st, p.obj, p.path, nil, b)
				return one(st, b)
			}
		}
		return one(st, e.load(st, p))
	case token.SUB:
		w, s, ok := intType(x.Type())
		if !ok {
			break
		}
		return one(st, IntV{wrap(pneg(v.(IntV).p), w, s, st.facts)})
	case token.NOT:
		return one(st, BoolV{cnot(v.(BoolV).c)})
	case token.XOR:
		w, s, _ := intType(x.Type())
		p := psub(pInt(-1), v.(IntV).p)
		return one(st, IntV{wrap(p, w, s, st.facts)})
	}
	panic(undecided("unary %s at %s", x.Op, e.pos(x)))
}

func (e *Engine) binop(fr *frame, x *ssa.BinOp) []Branch {
	st := fr.st
	a, b := e.val(fr, x.X), e.val(fr, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		c := e.equal(st, a, b, x)
		if x.Op == token.NEQ {
			c = cnot(c)
		}
		return one(st, BoolV{c})
	}
	if s, ok := a.(StrV); ok {
		if x.Op == token.ADD {
			return one(st, StrV{ropeCat(s.r, b.(StrV).r)})
		}
		t1, k1 := s.r.text()
		t2, k2 := b.(StrV).r.text()
		if k1 && k2 {
			r := strings.Compare(t1, t2)
			return one(st, BoolV{cBool(map[token.Token]bool{token.LSS: r < 0, token.LEQ: r <= 0, token.GTR: r > 0, token.GEQ: r >= 0}[x.Op])})
		}
		panic(undecided("string operation at %s", e.pos(x)))
	}
	ia, ok1 := a.(IntV)
	ib, ok2 := b.(IntV)
	if !ok1 || !ok2 {
		panic(undecided("%s of %T and %T at %s", x.Op, a, b, e.pos(x)))
	}
	switch x.Op {
	case token.LSS:
		return one(st, BoolV{condGE(psub(psub(ib.p, ia.p), pInt(1)))})
	case token.LEQ:
		return one(st, BoolV{condGE(psub(ib.p, ia.p))})
	case token.GTR:
		return one(st, BoolV{condGE(psub(psub(ia.p, ib.p), pInt(1)))})
	case token.GEQ:
		return one(st, BoolV{condGE(psub(ia.p, ib.p))})
	}
	w, s, ok := intType(x.Type())
	if !ok {
		panic(undecided("%s on %s at %s", x.Op, x.Type(), e.pos(x)))
	}
	switch x.Op {
	case token.SHL, token.SHR:
		var r []Branch
		cv, ok := concretise(ib.p, st.facts, 70)
		if !ok {
			panic(undecided("shift by an unknown amount %s at %s", ib.p, e.pos(x)))
		}
		for _, c := range cv {
			ns := st
			if len(cv) > 1 {
				ns = st.clone()
				ns.facts = c.f
			}
			if c.v.Sign() < 0 {
				r = append(r, Branch{st: ns, pan: &panicInfo{nil, "negative shift at " + e.pos(x)}})
				continue
			}
			k := uint(c.v.Uint64())
			if c.v.Cmp(bi(200)) > 0 {
				k = 200
			}
			p := normPoly(ia.p, ns.facts)
			if x.Op == token.SHL {
				p = wrap(pscale(p, pow2(k)), w, s, ns.facts)
			} else {
				p = nameTight(pfloor(p, k, ns.facts), ns.facts)
			}
			r = append(r, Branch{st: ns, v: IntV{p}})
		}
		return r
	case token.QUO, token.REM:
		return e.divide(fr, x, ia.p, ib.p, w, s)
	}
	p, fs := e.arith(x.Op, ia.p, ib.p, w, s, st.facts)
	if p == nil {
		if fs != nil {
			var r []Branch
			for _, f := range fs {
				ns := st.clone()
				ns.facts = f
				q, _ := e.arith(x.Op, normPoly(ia.p, f), normPoly(ib.p, f), w, s, f)
				if q == nil {
					panic(undecided("%s of %s and %s at %s", x.Op, ia.p, ib.p, e.pos(x)))
				}
				r = append(r, Branch{st: ns, v: IntV{q}})
			}
			return r
		}
		panic(undecided("%s of %s and %s at %s", x.Op, ia.p, ib.p, e.pos(x)))
	}
	return one(st, IntV{p})
}

// arith computes a op b in a type of w bits.
func (e *Engine) arith(op token.Token, a, b *Poly, w uint, s bool, f *Facts) (*Poly, []*Facts) {
	switch op {
	case token.ADD:
		return wrap(padd(a, b), w, s, f), nil
	case token.SUB:
		return nameTight(wrap(psub(a, b), w, s, f), f), nil
	case token.MUL:
		return wrap(pmul(a, b), w, s, f), nil
	case token.AND:
		r := bitAnd(a, b, w, s, f)
		return r, nil
	case token.OR:
		if r := bitOr(a, b, w, s, f); r != nil {
			return r, nil
		}
		return bitOpaque("or", a, b, w, s, f), nil
	case token.XOR:
		return bitXor(a, b, w, s, f), nil
	case token.AND_NOT:
		r := bitAnd(a, b, w, s, f)
		if r == nil {
			return nil, nil
		}
		return wrap(psub(a, r), w, s, f), nil
	}
	return nil, nil
}

// bitAnd returns nil when it cannot express the result.
func bitAnd(a, b *Poly, w uint, s bool, f *Facts) *Poly {
	if a.eq(b) {
		return a
	}
	if _, ok := a.isConst(); ok {
		a, b = b, a
	}
	if c, ok := b.isConst(); ok {
		if k, ok := a.isConst(); ok {
			return pConst(new(big.Int).And(k, c))
		}
		return andConst(a, c, w, s, f)
	}
	// one operand is 0 or -1
	for i := 0; i < 2; i++ {
		m := Iv{bm1, b0}
		if bounds(a, f, stepsDeep, &m).within(bm1, b0) {
			return nameTight(pneg(pmul(a, b)), f)
		}
		m = Iv{b0, b1}
		if bounds(a, f, stepsDeep, &m).within(b0, b1) {
			return pmul(a, pmod2k(b, 1, f))
		}
		a, b = b, a
	}
	// disjoint low parts
	for i := 0; i < 2; i++ {
		if k := lowZeros(a); k > 0 {
			iv := Iv{b0, new(big.Int).Sub(pow2(k), b1)}
			if bounds(b, f, stepsDeep, &iv).within(iv.lo, iv.hi) {
				return pInt(0)
			}
		}
		a, b = b, a
	}
	return bitOpaque("and", a, b, w, s, f)
}

// andConst = a & c for a constant c.
func andConst(a *Poly, c *big.Int, w uint, s bool, f *Facts) *Poly {
	if c.Sign() < 0 {
		// a & c = a - (a & ^c)
		nc := new(big.Int).Not(c)
		return nameTight(psub(a, andConst(a, nc, w, s, f)), f)
	}
	r := pInt(0)
	i := uint(0)
	n := uint(c.BitLen())
	for i < n {
		if c.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(int(j)) == 1 {
			j++
		}
		// bits i..j-1
		seg := pmod2k(pfloor(a, i, f), j-i, f)
		r = padd(r, pscale(seg, pow2(i)))
		i = j
	}
	return nameTight(r, f)
}

// lowZeros: the largest k with 2^k dividing every coefficient
func lowZeros(p *Poly) uint {
	k := uint(64)
	for _, t := range p.t {
		z := t.c.TrailingZeroBits()
		if len(t.m) == 1 {
			if y := syms[t.m[0]]; y.kind == symNamed {
				z += lowZeros(y.def)
			}
		}
		if z < k {
			k = z
		}
	}
	return k
}

func bitOr(a, b *Poly, w uint, s bool, f *Facts) *Poly {
	if a.eq(b) {
		return a
	}
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	if _, ok := a.isConst(); ok {
		a, b = b, a
	}
	if c, ok := b.isConst(); ok {
		if k, ok := a.isConst(); ok {
			return pConst(new(big.Int).Or(k, c))
		}
		// a | c = a + c - (a & c)
		return nameTight(psub(padd(a, b), andConst(a, c, w, s, f)), f)
	}
	for i := 0; i < 2; i++ {
		if k := lowZeros(a); k > 0 {
			iv := Iv{b0, new(big.Int).Sub(pow2(k), b1)}
			if bounds(b, f, stepsDeep, &iv).within(iv.lo, iv.hi) {
				return padd(a, b)
			}
		}
		a, b = b, a
	}
	// one of them is a bit: a | b = a + b - a*b for bits
	u := Iv{b0, b1}
	if bounds(a, f, stepsDeep, &u).within(b0, b1) && bounds(b, f, stepsDeep, &u).within(b0, b1) {
		return psub(padd(a, b), pmul(a, b))
	}
	// multi-segment disjointness: split a (with low zeros) is not enough; try a = hi + lo decomposition of b
	for i := 0; i < 2; i++ {
		for _, k := range []uint{7, 8, 16, 24, 32, 4} {
			lo := pmod2k(a, k, f)
			if lo.isZero() {
				continue
			}
			hi := psub(a, lo)
			blo := pmod2k(b, k, f)
			if blo.isZero() {
				// b has zero low part of k bits; a = hi + lo
				if hi.isZero() {
					return padd(a, b)
				}
				_ = hi
			}
		}
		a, b = b, a
	}
	return nil
}

// orTerms: the operands of an opaque bitwise or; it is zero when all of them are
var orTerms = map[int32][]*Poly{}

func orFlat(p *Poly) []*Poly {
	if y := p.single(); y != nil && orTerms[y.id] != nil {
		return orTerms[y.id]
	}
	return []*Poly{p}
}

// zeroCond: the condition that an opaque or/xor term is zero, nil for other polynomials
func zeroCond(p *Poly) *Cond {
	y := p.single()
	if y == nil {
		return nil
	}
	if t := xorTerms[y.id]; len(t) == 2 {
		return condEQ(psub(t[0], t[1]))
	}
	ts := orTerms[y.id]
	if ts == nil {
		return nil
	}
	var a, b []*Poly
	r := cTrue
	for _, t := range ts {
		if z := t.single(); z != nil && len(xorTerms[z.id]) == 2 {
			pr := xorPair[z.id]
			a, b = append(a, pr[0]), append(b, pr[1])
			continue
		}
		if bounds(t, nil, stepsCheap, &Iv{b0, b255}).within(b0, b255) {
			a, b = append(a, t), append(b, pInt(0))
			continue
		}
		r = cand(r, condEQ(t))
	}
	if len(a) == 1 {
		return cand(r, condEQ(psub(a[0], b[0])))
	}
	if len(a) > 1 {
		// bytes of one family go on one side, in order
		for i := range a {
			if fi(b[i]) < fi(a[i]) {
				a[i], b[i] = b[i], a[i]
			}
		}
		ix := make([]int, len(a))
		for i := range ix {
			ix[i] = i
		}
		sort.SliceStable(ix, func(i, j int) bool { return fi(a[ix[i]]) < fi(a[ix[j]]) })
		var ra, rb []*Poly
		for _, i := range ix {
			ra, rb = append(ra, a[i]), append(rb, b[i])
		}
		r = cand(r, ropeEqCond(ropeBytes(ra), ropeBytes(rb), nil))
	}
	return r
}

// fi orders byte symbols: family and position
func fi(p *Poly) int {
	y := p.single()
	if y == nil || y.fam == nil || y.famIdx < 0 {
		return 1 << 60
	}
	return int(y.fam.s[0].id)<<10 + y.famIdx
}

// bitOpaque: an unknown function of the operands with the obvious range.
func bitOpaque(op string, a, b *Poly, w uint, s bool, f *Facts) *Poly {
	if a.Key() > b.Key() {
		a, b = b, a
	}
	key := op + ":" + a.Key() + b.Key()
	sy := symKeyed(key, "", func() *Sym {
		defer func() {
			if op == "or" {
				orTerms[int32(len(syms)-1)] = append(append([]*Poly{}, orFlat(a)...), orFlat(b)...)
			}
		}()
		r := typeRange(w, s)
		ia, ib := bounds(a, nil, stepsCheap, nil), bounds(b, nil, stepsCheap, nil)
		if ia.lo != nil && ib.lo != nil && ia.hi != nil && ib.hi != nil && ia.lo.Sign() >= 0 && ib.lo.Sign() >= 0 {
			n := ia.hi.BitLen()
			if ib.hi.BitLen() > n {
				n = ib.hi.BitLen()
			}
			r = Iv{b0, new(big.Int).Sub(pow2(uint(n)), b1)}
			if op == "and" {
				h := ia.hi
				if ib.hi.Cmp(h) < 0 {
					h = ib.hi
				}
				r.hi = h
			}
		}
		y := newSym(op+"("+a.String()+","+b.String()+")", r.lo, r.hi)
		y.kind = symOpaq
		m := map[int32]bool{}
		for _, d := range append(a.syms(), b.syms()...) {
			m[d] = true
		}
		for d := range m {
			y.deps = append(y.deps, d)
		}
		return y
	})
	return pSym(sy)
}

// xor terms: sorted multiset of operands
var xorTerms = map[int32][]*Poly{}
var xorPair = map[int32][2]*Poly{}

// xorOf: what a result is the exclusive or of
var xorOf = map[string][2]*Poly{}

func bitXor(a, b *Poly, w uint, s bool, f *Facts) *Poly {
	if a.eq(b) {
		return pInt(0)
	}
	if a.isZero() {
		return b
	}
	if b.isZero() {
		return a
	}
	for i := 0; i < 2; i++ {
		if p, ok := xorOf[a.Key()]; ok {
			if p[0].eq(b) {
				return p[1]
			}
			if p[1].eq(b) {
				return p[0]
			}
		}
		a, b = b, a
	}
	r := bitXor1(a, b, w, s, f)
	if _, ok := r.isConst(); !ok {
		xorOf[r.Key()] = [2]*Poly{a, b}
	}
	return r
}

func bitXor1(a, b *Poly, w uint, s bool, f *Facts) *Poly {
	if _, ok := a.isConst(); ok {
		a, b = b, a
	}
	if c, ok := b.isConst(); ok {
		if k, ok := a.isConst(); ok {
			return pConst(new(big.Int).Xor(k, c))
		}
		if c.Cmp(bm1) == 0 {
			return psub(pInt(-1), a)
		}
		if a.single() == nil || xorTerms[a.single().id] == nil {
			// a ^ c = a + c - 2*(a & c)
			if c.Sign() >= 0 || s {
				return nameTight(psub(padd(a, b), pscale(andConst(a, c, w, s, f), b2)), f)
			}
		}
	}
	u := Iv{b0, b1}
	if bounds(a, f, stepsDeep, &u).within(b0, b1) && bounds(b, f, stepsDeep, &u).within(b0, b1) {
		return psub(padd(a, b), pscale(pmul(a, b), b2))
	}
	var ts []*Poly
	for _, p := range []*Poly{a, b} {
		if y := p.single(); y != nil && xorTerms[y.id] != nil {
			ts = append(ts, xorTerms[y.id]...)
		} else {
			ts = append(ts, p)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].Key() < ts[j].Key() })
	var r []*Poly
	for _, t := range ts {
		if len(r) > 0 && r[len(r)-1].eq(t) {
			r = r[:len(r)-1]
		} else {
			r = append(r, t)
		}
	}
	if len(r) == 0 {
		return pInt(0)
	}
	if len(r) == 1 {
		return r[0]
	}
	key := "xor:"
	for _, t := range r {
		key += t.Key()
	}
	sy := symKeyed(key, "", func() *Sym {
		rg := typeRange(w, s)
		n := 0
		ok := true
		m := map[int32]bool{}
		for _, t := range r {
			iv := bounds(t, nil, stepsCheap, nil)
			if iv.lo == nil || iv.hi == nil || iv.lo.Sign() < 0 {
				ok = false
			} else if iv.hi.BitLen() > n {
				n = iv.hi.BitLen()
			}
			for _, d := range t.syms() {
				m[d] = true
			}
		}
		if ok {
			rg = Iv{b0, new(big.Int).Sub(pow2(uint(n)), b1)}
		}
		var nm []string
		for _, t := range r {
			nm = append(nm, t.String())
		}
		y := newSym("("+strings.Join(nm, " xor ")+")", rg.lo, rg.hi)
		y.kind = symOpaq
		for d := range m {
			y.deps = append(y.deps, d)
		}
		xorTerms[y.id] = r
		if len(r) == 2 {
			xorPair[y.id] = [2]*Poly{r[0], r[1]}
			if r[0].eq(b) && r[1].eq(a) {
				xorPair[y.id] = [2]*Poly{a, b}
			}
		}
		return y
	})
	return pSym(sy)
}

func (e *Engine) divide(fr *frame, x *ssa.BinOp, a, b *Poly, w uint, s bool) []Branch {
	st := fr.st
	c, ok := normPoly(b, st.facts).isConst()
	if !ok {
		cv, ok := concretise(b, st.facts, 64)
		if !ok {
			panic(undecided("division by an unknown number at %s", e.pos(x)))
		}
		var r []Branch
		for _, v := range cv {
			ns := st.clone()
			ns.facts = v.f
			nf := fr.clone(ns)
			r = append(r, e.divide(nf, x, normPoly(a, v.f), pConst(v.v), w, s)...)
		}
		return r
	}
	if c.Sign() == 0 {
		return []Branch{{st: st, pan: &panicInfo{nil, "division by zero at " + e.pos(x)}}}
	}
	if k, ok := a.isConst(); ok {
		if x.Op == token.QUO {
			return one(st, IntV{wrap(pConst(new(big.Int).Quo(k, c)), w, s, st.facts)})
		}
		return one(st, IntV{pConst(new(big.Int).Rem(k, c))})
	}
	ac := new(big.Int).Abs(c)
	div := func(st *State, a *Poly) *Poly { // a >= 0
		if ac.Cmp(b1) == 0 {
			return a
		}
		k := uint(ac.BitLen() - 1)
		if ac.Cmp(pow2(k)) == 0 {
			return pfloor(a, k, st.facts)
		}
		key := "div" + ac.String() + ":" + a.Key()
		sy := symKeyed(key, "", func() *Sym {
			iv := bounds(a, nil, stepsCheap, nil)
			y := newSym(fmt.Sprintf("(%s div %s)", a, ac), nil, nil)
			if iv.lo != nil {
				y.lo = floorDiv(iv.lo, ac)
			}
			if iv.hi != nil {
				y.hi = floorDiv(iv.hi, ac)
			}
			y.kind = symOpaq
			m := map[int32]bool{}
			depSyms(a, m)
			for d := range m {
				y.deps = append(y.deps, d)
			}
			return y
		})
		q := pSym(sy)
		rem := psub(a, pscale(q, ac))
		st.facts = st.facts.withGe(rem).withGe(psub(pConst(new(big.Int).Sub(ac, b1)), rem))
		return q
	}
	fin := func(st *State, q, a *Poly) []Branch {
		if c.Sign() < 0 {
			q = pneg(q)
		}
		if x.Op == token.QUO {
			return one(st, IntV{wrap(nameTight(q, st.facts), w, s, st.facts)})
		}
		return one(st, IntV{nameTight(psub(a, pscale(q, c)), st.facts)})
	}
	nonneg := condGE(a)
	if v, k := decide(nonneg, st.facts); k {
		if v {
			return fin(st, div(st, a), a)
		}
		return fin(st, pneg(div(st, pneg(a))), a)
	}
	var r []Branch
	for _, alt := range e.splitCond(nonneg, st.facts) {
		ns := st.clone()
		ns.facts = alt.f
		na := normPoly(a, ns.facts)
		if alt.v {
			r = append(r, fin(ns, div(ns, na), na)...)
		} else {
			r = append(r, fin(ns, pneg(div(ns, pneg(na))), na)...)
		}
	}
	return r
}

func (e *Engine) convert(fr *frame, x *ssa.Convert) []Branch {
	st := fr.st
	v := e.val(fr, x.X)
	if w, s, ok := intType(x.Type()); ok {
		if iv, ok := v.(IntV); ok {
			return one(st, IntV{wrap(iv.p, w, s, st.facts)})
		}
	}
	switch t := x.Type().Underlying().(type) {
	case *types.Slice:
		if s, ok := v.(StrV); ok {
			return one(st, e.newBytes(st, "[]byte(string)", s.r))
		}
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			switch y := v.(type) {
			case SliceV:
				return one(st, StrV{e.ropeOf(st, y)})
			case StrV:
				return one(st, y)
			}
		}
	case *types.Pointer:
		return one(st, v)
	}
	panic(undecided("conversion %s at %s", x, e.pos(x)))
}

// nilData: a slice of the caller that is nil or not, if it is empty
type nilData struct{ n *Poly }

func (d *nilData) deps(out map[int32]bool) { depSyms(d.n, out) }
func (d *nilData) decide(f *Facts) (bool, bool) {
	if v, k := decide(condEQ(d.n), f); k && !v {
		return false, true
	}
	return false, false
}
func (d *nilData) assume(v bool, f *Facts) (*Facts, bool) {
	if v {
		return assume(condEQ(d.n), true, f)
	}
	return f, true
}

func (e *Engine) equal(st *State, a, b Val, in ssa.Instruction) *Cond {
	switch x := a.(type) {
	case IntV:
		if y, ok := b.(IntV); ok {
			return condEQ(psub(x.p, y.p))
		}
	case BoolV:
		if y, ok := b.(BoolV); ok {
			return cnot(cxor(x.c, y.c))
		}
	case PtrV:
		if y, ok := b.(PtrV); ok {
			if x.obj != y.obj {
				return cFalse
			}
			if len(x.path) != len(y.path) {
				return cFalse
			}
			for i := range x.path {
				if x.path[i] != y.path[i] {
					return cFalse
				}
			}
			if x.idx != nil && y.idx != nil {
				return condEQ(psub(x.idx, y.idx))
			}
			return cTrue
		}
	case SliceV:
		if x.obj == 0 {
			if y, ok := b.(SliceV); ok && y.obj != 0 {
				return e.equal(st, b, a, in)
			}
			n, _ := isNilVal(b)
			return cBool(n)
		}
		if n, ok := isNilVal(b); ok && n {
			if o := e.objs[x.obj]; o.nilIf != nil {
				return condAtom("nil:"+o.label, &nilData{o.nilIf})
			}
			return cFalse
		}
	case FuncV:
		n1, _ := isNilVal(a)
		n2, _ := isNilVal(b)
		if n1 || n2 {
			return cBool(n1 && n2)
		}
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return cBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return cFalse
		}
		return e.equal(st, x.v, y.v, in)
	case StrV:
		if y, ok := b.(StrV); ok {
			return e.ropeEq(st, x.r, y.r)
		}
	case StructV:
		if y, ok := b.(StructV); ok {
			c := cTrue
			for i := range x.f {
				c = cand(c, e.equal(st, x.f[i], y.f[i], in))
			}
			return c
		}
	case ArrayV:
		if y, ok := b.(ArrayV); ok {
			allInt := true
			var p, q []*Poly
			for i := range x.e {
				u, ok1 := x.e[i].(IntV)
				v, ok2 := y.e[i].(IntV)
				if !ok1 || !ok2 {
					allInt = false
					break
				}
				p = append(p, u.p)
				q = append(q, v.p)
			}
			if allInt && len(p) > 0 {
				return e.ropeEq(st, ropeBytes(p), ropeBytes(q))
			}
			c := cTrue
			for i := range x.e {
				c = cand(c, e.equal(st, x.e[i], y.e[i], in))
			}
			return c
		}
	case ExtV:
		return cBool(fmt.Sprint(a) == fmt.Sprint(b))
	}
	panic(undecided("comparison of %T and %T at %s", a, b, e.pos(in)))
}

func (e *Engine) index(fr *frame, x *ssa.Index) []Branch {
	v := e.val(fr, x.X)
	i := e.val(fr, x.Index).(IntV).p
	switch a := v.(type) {
	case ArrayV:
		return e.withIndex(fr, x, i, int64(len(a.e)), func(st *State, k int64) []Branch { return one(st, a.e[k]) })
	case StrV:
		return e.ropeIndex(fr, x, a.r, i)
	}
	panic(undecided("index of %T at %s", v, e.pos(x)))
}

func (e *Engine) ropeIndex(fr *frame, in ssa.Instruction, r *Rope, i *Poly) []Branch {
	n := r.length()
	c := cand(condGE(i), condGE(psub(psub(n, i), pInt(1))))
	return e.guard(fr, in, c, "index out of range", func(st *State) []Branch {
		q, ok := r.sub(i, padd(i, pInt(1)), st.facts)
		if !ok || len(q.s) != 1 {
			panic(undecided("string index at %s", e.pos(in)))
		}
		return one(st, IntV{segByte(q.s[0])})
	})
}

// withIndex forks over the values of an index into n elements.
func (e *Engine) withIndex(fr *frame, in ssa.Instruction, i *Poly, n int64, k func(st *State, i int64) []Branch) []Branch {
	st := fr.st
	c := cand(condGE(i), condGE(psub(pInt(n-1), i)))
	return e.guard(fr, in, c, "index out of range", func(s *State) []Branch {
		cv, ok := concretise(i, s.facts, 300)
		if !ok {
			panic(undecided("index %s is not decided at %s", i, e.pos(in)))
		}
		var r []Branch
		for _, v := range cv {
			ns := s
			if len(cv) > 1 {
				ns = s.clone()
				ns.facts = v.f
			}
			r = append(r, k(ns, v.v.Int64())...)
		}
		_ = st
		return r
	})
}

func (e *Engine) indexAddr(fr *frame, x *ssa.IndexAddr) []Branch {
	v := e.val(fr, x.X)
	i := e.val(fr, x.Index).(IntV).p
	switch a := v.(type) {
	case PtrV: // pointer to array
		if a.obj == 0 {
			return []Branch{{st: fr.st, pan: &panicInfo{nil, "nil dereference at " + e.pos(x)}}}
		}
		n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return e.withIndex(fr, x, i, n, func(st *State, k int64) []Branch {
			return one(st, PtrV{obj: a.obj, path: append(append([]int(nil), a.path...), int(k))})
		})
	case SliceV:
		ln := normPoly(a.len, fr.st.facts)
		if a.obj == 0 {
			ln = pInt(0)
		}
		c := cand(condGE(i), condGE(psub(psub(ln, i), pInt(1))))
		return e.guard(fr, x, c, "index out of range", func(st *State) []Branch {
			pos := normPoly(padd(a.off, i), st.facts)
			cont := e.load(st, PtrV{obj: a.obj, path: a.path})
			if arr, ok := cont.(ArrayV); ok {
				cv, ok := concretise(pos, st.facts, 300)
				if !ok {
					panic(undecided("index %s is not decided at %s", pos, e.pos(x)))
				}
				var r []Branch
				for _, v := range cv {
					ns := st
					if len(cv) > 1 {
						ns = st.clone()
						ns.facts = v.f
					}
					if v.v.Sign() < 0 || v.v.Cmp(bi(int64(len(arr.e)))) >= 0 {
						panic(undecided("index %s outside of the %d known elements at %s", v.v, len(arr.e), e.pos(x)))
					}
					r = append(r, Branch{st: ns, v: PtrV{obj: a.obj, path: append(append([]int(nil), a.path...), int(v.v.Int64()))}})
				}
				return r
			}
			// byte string of unknown length: pin the small unknowns of the position
			var r []Branch
			fs := concretiseSmall(pos, st.facts, 40)
			for _, f := range fs {
				ns := st
				if len(fs) > 1 {
					ns = st.clone()
					ns.facts = f
				} else {
					ns.facts = f
				}
				r = append(r, Branch{st: ns, v: PtrV{obj: a.obj, path: a.path, idx: normPoly(pos, f)}})
			}
			return r
		})
	}
	panic(undecided("address of an element of %T at %s", v, e.pos(x)))
}

func (e *Engine) slice(fr *frame, x *ssa.Slice) []Branch {
	v := e.val(fr, x.X)
	get := func(w ssa.Value) *Poly {
		if w == nil {
			return nil
		}
		p := e.val(fr, w).(IntV).p
		return p
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = pInt(0)
	}
	switch a := v.(type) {
	case StrV:
		n := a.r.length()
		if hi == nil {
			hi = n
		}
		c := cand(condGE(lo), cand(condGE(psub(hi, lo)), condGE(psub(n, hi))))
		return e.guard(fr, x, c, "slice bounds out of range", func(st *State) []Branch {
			q, ok := a.r.sub(lo, hi, st.facts)
			if !ok {
				panic(undecided("substring at %s", e.pos(x)))
			}
			return one(st, StrV{q})
		})
	case PtrV:
		if a.obj == 0 {
			return []Branch{{st: fr.st, pan: &panicInfo{nil, "nil dereference at " + e.pos(x)}}}
		}
		n := pInt(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		v = SliceV{obj: a.obj, path: a.path, off: pInt(0), len: n, cap: n}
	}
	s, ok := v.(SliceV)
	if !ok {
		panic(undecided("slice of %T at %s", v, e.pos(x)))
	}
	if hi == nil {
		hi = s.len
	}
	if mx == nil {
		mx = s.cap
	}
	c := cand(condGE(lo), cand(condGE(psub(hi, lo)), cand(condGE(psub(mx, hi)), condGE(psub(s.cap, mx)))))
	return e.guard(fr, x, c, "slice bounds out of range", func(st *State) []Branch {
		return one(st, SliceV{obj: s.obj, path: s.path, off: padd(s.off, lo), len: psub(hi, lo), cap: psub(mx, lo)})
	})
}

func (e *Engine) makeSlice(fr *frame, x *ssa.MakeSlice) []Branch {
	n := e.val(fr, x.Len).(IntV).p
	cp := e.val(fr, x.Cap).(IntV).p
	el := x.Type().Underlying().(*types.Slice).Elem()
	c := cand(condGE(n), condGE(psub(cp, n)))
	return e.guard(fr, x, c, "makeslice: len out of range", func(st *State) []Branch {
		return e.mkSlice(st, el, n, cp, "make in "+fnName(fr.fn), fr, x)
	})
}

func (e *Engine) mkSlice(st *State, el types.Type, n, cp *Poly, label string, fr *frame, in ssa.Instruction) []Branch {
	cp = normPoly(cp, st.facts)
	n = normPoly(n, st.facts)
	var cont Val
	if k, ok := cp.isConst(); ok {
		if k.Cmp(bi(1<<20)) > 0 {
			panic(undecided("make of %s elements", k))
		}
		arr := make([]Val, k.Int64())
		z := zeroVal(el)
		for i := range arr {
			arr[i] = z
		}
		cont = ArrayV{arr}
	} else if w, _, ok := intType(el); ok && w == 8 {
		cont = RopeV{ropeArr(zeroArr, pInt(0), cp)}
	} else {
		panic(undecided("make of %s elements of %s at %s", cp, el, e.pos(in)))
	}
	id := e.alloc(st, label, cont, nil)
	return one(st, SliceV{obj: id, off: pInt(0), len: n, cap: cp})
}

func (e *Engine) typeAssert(fr *frame, x *ssa.TypeAssert) []Branch {
	v := e.val(fr, x.X).(IfaceV)
	ok := false
	var res Val
	if v.t != nil {
		if types.IsInterface(x.AssertedType) {
			at := x.AssertedType.Underlying().(*types.Interface)
			// (whatever is in the interface has the methods of its static type)
			if types.Implements(v.t, at) || types.Implements(x.X.Type(), at) {
				ok, res = true, v
			} else if isExtType(v.t) {
				panic(undecided("type assertion on an unknown implementation at %s", e.pos(x)))
			}
		} else if types.Identical(v.t, x.AssertedType) {
			ok, res = true, v.v
		}
	}
	if !ok {
		res = zeroVal(x.AssertedType)
	}
	if x.CommaOk {
		return one(fr.st, TupleV{res, BoolV{cBool(ok)}})
	}
	if !ok {
		return []Branch{{st: fr.st, pan: &panicInfo{nil, "interface conversion at " + e.pos(x)}}}
	}
	return one(fr.st, res)
}

func (e *Engine) call(fr *frame, x *ssa.Call) []Branch {
	var args []Val
	for _, a := range x.Call.Args {
		args = append(args, e.val(fr, a))
	}
	if x.Call.IsInvoke() {
		recv, ok := e.val(fr, x.Call.Value).(IfaceV)
		if !ok {
			panic(undecided("interface call on %T at %s", e.val(fr, x.Call.Value), e.pos(x)))
		}
		return e.invoke(fr.st, recv, x.Call.Method, args, fr, x)
	}
	switch f := x.Call.Value.(type) {
	case *ssa.Builtin:
		return e.builtin(f.Name(), args, fr.st, fr, x)
	case *ssa.Function:
		return e.callStatic(f, args, nil, fr.st, fr, x)
	}
	return e.apply(e.val(fr, x.Call.Value), args, fr.st, fr, x)
}

func (e *Engine) invoke(st *State, recv IfaceV, m *types.Func, args []Val, fr *frame, in ssa.Instruction) []Branch {
	if recv.t == nil {
		return []Branch{{st: st, pan: &panicInfo{nil, "nil interface call at " + e.pos(in)}}}
	}
	if isExtType(recv.t) {
		c := &Call{e: e, st: st, name: extTypeName(recv.t) + "." + m.Name(), args: append([]Val{recv.v}, args...), site: in}
		if fr != nil {
			c.in, c.depth = fr.fn, fr.depth
		}
		return e.extMethod(c, extTypeName(recv.t), m)
	}
	fn := e.P.prog.LookupMethod(recv.t, m.Pkg(), m.Name())
	if fn == nil {
		panic(undecided("no method %s on %s", m.Name(), recv.t))
	}
	return e.callStatic(fn, append([]Val{recv.v}, args...), nil, st, fr, in)
}

// ---- builtins -------------------------------------------------------------

func (e *Engine) builtin(name string, args []Val, st *State, fr *frame, in ssa.Instruction) []Branch {
	switch name {
	case "len":
		switch a := args[0].(type) {
		case SliceV:
			if a.obj == 0 {
				return one(st, IntV{pInt(0)})
			}
			return one(st, IntV{normPoly(a.len, st.facts)})
		case StrV:
			return one(st, IntV{normPoly(a.r.length(), st.facts)})
		case ArrayV:
			return one(st, IntV{pInt(int64(len(a.e)))})
		case PtrV:
			if v, ok := in.(*ssa.Call); ok {
				if p, ok := v.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
					return one(st, IntV{pInt(p.Elem().Underlying().(*types.Array).Len())})
				}
			}
		}
	case "cap":
		if a, ok := args[0].(SliceV); ok {
			if a.obj == 0 {
				return one(st, IntV{pInt(0)})
			}
			return one(st, IntV{normPoly(a.cap, st.facts)})
		}
	case "min", "max":
		r := args[0].(IntV).p
		for _, b := range args[1:] {
			q := b.(IntV).p
			v, k := decide(condGE(psub(r, q)), st.facts)
			if !k {
				panic(undecided("%s of undecided operands at %s", name, e.pos(in)))
			}
			if v == (name == "min") {
				r = q
			}
		}
		return one(st, IntV{r})
	case "copy":
		return e.copyBuiltin(st, args[0], args[1], fr, in)
	case "append":
		return e.appendBuiltin(st, args[0].(SliceV), args[1], fr, in)
	case "recover":
		if st.pan != nil && !st.recov {
			v := st.pan.v
			st = st.clone()
			st.recov = true
			if iv, ok := v.(IfaceV); ok {
				return one(st, iv)
			}
			return one(st, IfaceV{extType("runtime.Error"), ExtV{"runtimeError", st.pan.desc}})
		}
		return one(st, IfaceV{})
	case "print", "println":
		st.event(Event{kind: "sink", fn: e.curIn, at: e.posOr(in), data: sink{"print", args, st}})
		return one(st, nil)
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			return []Branch{{st: st, pan: &panicInfo{nil, "nil receiver at " + e.posOr(in)}}}
		}
		return one(st, args[0])
	case "clear":
		if s, ok := args[0].(SliceV); ok {
			n := normPoly(s.len, st.facts)
			e.writeBytes(st, s, pInt(0), ropeArr(zeroArr, pInt(0), n), fr, in)
			return one(st, nil)
		}
	}
	panic(undecided("builtin %s at %s", name, e.posOr(in)))
}

func (e *Engine) posOr(in ssa.Instruction) string {
	if in == nil {
		if e.curIn != nil {
			return fnName(e.curIn)
		}
		return "?"
	}
	return e.pos(in)
}

func (e *Engine) copyBuiltin(st *State, dst, src Val, fr *frame, in ssa.Instruction) []Branch {
	d, ok := dst.(SliceV)
	if !ok {
		panic(undecided("copy to %T", dst))
	}
	var sl *Poly
	switch s := src.(type) {
	case SliceV:
		sl = s.len
	case StrV:
		sl = s.r.length()
	}
	dl := d.len
	do := func(st *State, n *Poly) []Branch {
		n = normPoly(n, st.facts)
		if n.isZero() {
			return one(st, IntV{n})
		}
		if s, ok := src.(SliceV); ok {
			if _, isR := e.sliceContent(st, s).(RopeV); !isR {
				// element copy
				arr := e.sliceContent(st, s).(ArrayV)
				o, k1 := normPoly(s.off, st.facts).isConst()
				c, k2 := n.isConst()
				if !k1 || !k2 {
					panic(undecided("copy of an unknown extent at %s", e.posOr(in)))
				}
				els := append([]Val(nil), arr.e[o.Int64():o.Int64()+c.Int64()]...)
				if da, ok := e.sliceContent(st, d).(ArrayV); ok {
					do, k := normPoly(d.off, st.facts).isConst()
					if !k {
						panic(undecided("copy to an unknown position at %s", e.posOr(in)))
					}
					e.noteWrite(st, d.obj, fr, in)
					ne := append([]Val(nil), da.e...)
					copy(ne[do.Int64():], els)
					e.storeAt(st, d.obj, d.path, nil, ArrayV{ne})
					return one(st, IntV{n})
				}
			}
			t := s
			t.len = n
			e.writeBytes(st, d, pInt(0), e.ropeOf(st, t), fr, in)
			return one(st, IntV{n})
		}
		r, ok := src.(StrV).r.sub(pInt(0), n, st.facts)
		if !ok {
			panic(undecided("copy of a string at %s", e.posOr(in)))
		}
		e.writeBytes(st, d, pInt(0), r, fr, in)
		return one(st, IntV{n})
	}
	c := condGE(psub(sl, dl)) // src >= dst: n = dst
	if v, k := decide(c, st.facts); k {
		if v {
			return do(st, dl)
		}
		return do(st, sl)
	}
	var r []Branch
	for _, a := range e.splitCond(c, st.facts) {
		ns := st.clone()
		ns.facts = a.f
		if a.v {
			r = append(r, do(ns, dl)...)
		} else {
			r = append(r, do(ns, sl)...)
		}
	}
	return r
}

func (e *Engine) appendBuiltin(st *State, s SliceV, x Val, fr *frame, in ssa.Instruction) []Branch {
	var el types.Type
	if c, ok := in.(*ssa.Call); ok {
		el = c.Type().Underlying().(*types.Slice).Elem()
	}
	w, _, isInt := intType(el)
	bytesLike := isInt && w == 8
	var add *Poly
	switch y := x.(type) {
	case SliceV:
		add = y.len
		if y.obj == 0 {
			add = pInt(0)
		}
	case StrV:
		add = y.r.length()
	}
	add = normPoly(add, st.facts)
	if add.isZero() {
		return one(st, s)
	}
	if s.obj == 0 {
		s = SliceV{off: pInt(0), len: pInt(0), cap: pInt(0)}
	}
	nl := padd(s.len, add)
	inPlace := func(st *State) []Branch {
		if bytesLike {
			var r *Rope
			if y, ok := x.(StrV); ok {
				r = y.r
			} else {
				r = e.ropeOf(st, x.(SliceV))
			}
			e.writeBytes(st, s, s.len, r, fr, in)
		} else {
			els := e.elems(st, x.(SliceV))
			arr := e.sliceContent(st, s).(ArrayV)
			o, k := normPoly(padd(s.off, s.len), st.facts).isConst()
			if !k {
				panic(undecided("append at an unknown position at %s", e.posOr(in)))
			}
			e.noteWrite(st, s.obj, fr, in)
			ne := append([]Val(nil), arr.e...)
			copy(ne[o.Int64():], els)
			e.storeAt(st, s.obj, s.path, nil, ArrayV{ne})
		}
		return one(st, SliceV{obj: s.obj, path: s.path, off: s.off, len: nl, cap: s.cap})
	}
	grow := func(st *State) []Branch {
		if bytesLike {
			var r *Rope
			if y, ok := x.(StrV); ok {
				r = y.r
			} else {
				r = e.ropeOf(st, x.(SliceV))
			}
			full := ropeCat(e.ropeOf(st, s), r)
			return one(st, e.newBytes(st, "append in "+fnName(fr.fn), full))
		}
		var els []Val
		if s.obj != 0 {
			els = append(els, e.elems(st, s)...)
		}
		els = append(els, e.elems(st, x.(SliceV))...)
		id := e.alloc(st, "append in "+fnName(fr.fn), ArrayV{els}, nil)
		n := pInt(int64(len(els)))
		return one(st, SliceV{obj: id, off: pInt(0), len: n, cap: n})
	}
	if s.obj == 0 {
		return grow(st)
	}
	c := condGE(psub(s.cap, nl))
	if v, k := decide(c, st.facts); k {
		if v {
			return inPlace(st)
		}
		return grow(st)
	}
	var r []Branch
	for _, a := range e.splitCond(c, st.facts) {
		ns := st.clone()
		ns.facts = a.f
		if a.v {
			r = append(r, inPlace(ns)...)
		} else {
			r = append(r, grow(ns)...)
		}
	}
	return r
}

// elems: the elements of a slice of constant extent
func (e *Engine) elems(st *State, s SliceV) []Val {
	if s.obj == 0 {
		return nil
	}
	arr, ok := e.sliceContent(st, s).(ArrayV)
	o, k1 := normPoly(s.off, st.facts).isConst()
	n, k2 := normPoly(s.len, st.facts).isConst()
	if !ok || !k1 || !k2 {
		panic(undecided("elements of a slice of unknown extent"))
	}
	return arr.e[o.Int64() : o.Int64()+n.Int64()]
}
