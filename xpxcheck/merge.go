package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging of states at join points. Without a spec every path is followed on its own. With one, the frames that
// reach a join point at the same iteration of the surrounding loops are combined: integers that differ become fresh
// symbols over the union of the values, points that differ become one multiple that is affine in the symbols that the
// paths had fixed, and numbers that are kept as digits (ghosts) stay equal to the same linear form.

type mergeSpec struct {
	tail   int // no merging once the outermost loop has done that many iterations (0: always merge)
	geOK   bool
	c      *Checker
	n      int
	fresh  int
	strict bool // every merge must succeed
	nlost  int
	limit  int            // number of merges that may fail (0: no limit)
	lost   map[string]int // merges that were not possible, by reason
}

func (s *mergeSpec) loss(why string) {
	s.lost[why]++
	s.nlost++
	if s.strict || (s.limit > 0 && s.nlost > s.limit) {
		u := undecided("paths cannot be combined: %s", why)
		u.refuted = strings.Contains(why, "do not represent the number any more")
		panic(u)
	}
}

// ghost: a number N, in [lo,hi], that the state represents: N = L
type ghost struct {
	L      *Poly
	lo, hi *big.Int
	held   map[string]int32 // slot -> the symbol of L that it held when the symbol was introduced
	seen   map[int]Val      // arrays that have been looked at
}

type cfgInfo struct {
	rpo   []int   // by block index
	heads [][]int // loop headers around a block, outermost first
	inl   []map[int]bool
	live  [][]int // value numbers live after the phis of a block
	ind   map[int]induction
	start map[int]bool // values that an induction starts with: not combined
}

// induction: a variable of a loop that changes by the same amount in every iteration
type induction struct {
	num  int
	down bool
}

func (c *cfgInfo) inductions(fn *ssa.Function, num map[ssa.Value]int) {
	c.ind = map[int]induction{}
	c.start = map[int]bool{}
	for h, body := range c.inl {
		if body == nil {
			continue
		}
	phis:
		for _, in := range fn.Blocks[h].Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if !isInt(p.Type()) {
				continue
			}
			var step *ssa.BinOp
			for i, e := range p.Edges {
				if !body[fn.Blocks[h].Preds[i].Index] {
					continue
				}
				b, ok := e.(*ssa.BinOp)
				if !ok || b.X != ssa.Value(p) || (b.Op != token.ADD && b.Op != token.SUB) || (step != nil && step != b) {
					continue phis
				}
				k, ok := b.Y.(*ssa.Const)
				if !ok || k.Value == nil || constant.Sign(k.Value) == 0 {
					continue phis
				}
				step = b
			}
			if step == nil {
				continue
			}
			neg := constant.Sign(step.Y.(*ssa.Const).Value) < 0
			c.ind[h] = induction{num[p], neg != (step.Op == token.SUB)}
			c.start[num[p]] = true
			var from func(v ssa.Value)
			from = func(v ssa.Value) {
				k, ok := num[v]
				if !ok || c.start[k] {
					return
				}
				c.start[k] = true
				if q, ok := v.(*ssa.Phi); ok {
					for _, e := range q.Edges {
						from(e)
					}
				}
			}
			for i, e := range p.Edges {
				if !body[fn.Blocks[h].Preds[i].Index] {
					from(e)
				}
			}
			break
		}
	}
}

var cfgMemo = map[*ssa.Function]*cfgInfo{}

func (e *Engine) cfg(fn *ssa.Function) *cfgInfo {
	if c, ok := cfgMemo[fn]; ok {
		return c
	}
	n := len(fn.Blocks)
	c := &cfgInfo{rpo: make([]int, n), heads: make([][]int, n), inl: make([]map[int]bool, n), live: make([][]int, n)}
	seen := make([]bool, n)
	var order []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		// the body of a loop before its exit in reverse postorder: visit the exits first
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s.Index] {
				dfs(s)
			}
		}
		order = append(order, b.Index)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		dfs(fn.Recover)
	}
	for i, b := range order {
		c.rpo[b] = len(order) - 1 - i
	}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := c.inl[h.Index]
				if body == nil {
					body = map[int]bool{h.Index: true}
					c.inl[h.Index] = body
				}
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if body[x.Index] {
						continue
					}
					body[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	for b := 0; b < n; b++ {
		for h := 0; h < n; h++ {
			if c.inl[h] != nil && c.inl[h][b] {
				c.heads[b] = append(c.heads[b], h)
			}
		}
		hs := c.heads[b]
		sort.Slice(hs, func(i, j int) bool { return len(c.inl[hs[i]]) > len(c.inl[hs[j]]) })
	}
	// liveness
	num := e.numbering(fn)
	in := make([]map[int]bool, n) // live before the non-phi instructions
	for i := range in {
		in[i] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := map[int]bool{}
			for _, s := range b.Succs {
				for v := range in[s.Index] {
					out[v] = true
				}
				pi := 0
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, num[p])
					if v, ok := num[p.Edges[pi]]; ok {
						_ = v
					}
				}
				for _, ins := range s.Instrs {
					p, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if v, ok := num[p.Edges[pi]]; ok {
						out[v] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(out, num[v])
				}
				var ops [16]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if v, ok := num[*o]; ok {
						out[v] = true
					}
				}
			}
			if len(out) != len(in[i]) {
				in[i] = out
				changed = true
			}
		}
	}
	for i := range in {
		for v := range in[i] {
			c.live[i] = append(c.live[i], v)
		}
		sort.Ints(c.live[i])
	}
	c.inductions(fn, num)
	cfgMemo[fn] = c
	return c
}

type worklist struct {
	e     *Engine
	fn    *ssa.Function
	spec  *mergeSpec
	nobj  int
	stack []*frame
	park  []*parked
}

type parked struct {
	fr  *frame
	vec []int
}

func (w *worklist) push(fr *frame) { w.stack = append(w.stack, fr) }

func (w *worklist) vec(fr *frame) []int {
	c := w.e.cfg(w.fn)
	var v []int
	for _, h := range c.heads[fr.blk.Index] {
		n := fr.iters[w.fn.Blocks[h]]
		if x, ok := c.ind[h]; ok {
			// loops that are entered with different values: the same value is the same iteration
			if i, ok := fr.env[x.num].(IntV); ok {
				if k, ok := i.p.isConst(); ok && k.IsInt64() {
					n = int(k.Int64())
					if x.down {
						n = -n
					}
				}
			}
		}
		v = append(v, c.rpo[h], n)
	}
	return append(v, c.rpo[fr.blk.Index])
}

func vecLess(a, b []int) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func vecSame(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *worklist) pop() *frame {
	for {
		if n := len(w.stack); n > 0 {
			f := w.stack[n-1]
			w.stack = w.stack[:n-1]
			return f
		}
		if len(w.park) == 0 {
			return nil
		}
		// running frames always reach a park, so the earliest parked position has all its frames
		best := 0
		for i := range w.park {
			if vecLess(w.park[i].vec, w.park[best].vec) {
				best = i
			}
		}
		v, blk := w.park[best].vec, w.park[best].fr.blk
		var group []*frame
		rest := w.park[:0]
		for _, p := range w.park {
			if p.fr.blk == blk && vecSame(p.vec, v) {
				group = append(group, p.fr)
			} else {
				rest = append(rest, p)
			}
		}
		for i := len(rest); i < len(w.park); i++ {
			w.park[i] = nil
		}
		w.park = rest
		for _, f := range w.mergeFrames(group) {
			w.stack = append(w.stack, f)
		}
	}
}

func (w *worklist) inTail(fr *frame) bool {
	if w.spec == nil || w.spec.tail == 0 {
		return false
	}
	hs := w.e.cfg(w.fn).heads[fr.blk.Index]
	return len(hs) > 0 && fr.iters[w.fn.Blocks[hs[0]]] >= w.spec.tail
}

// atJoin is called when fr has just entered a block with several predecessors; true: the frame has been taken over.
func (w *worklist) atJoin(fr *frame) bool {
	if w.spec == nil || w.inTail(fr) || len(fr.blk.Preds) < 2 {
		return false
	}
	for _, g := range fr.st.ghosts {
		g.note(fr.st)
	}
	w.park = append(w.park, &parked{fr, w.vec(fr)})
	return true
}

func (w *worklist) mergeFrames(l []*frame) []*frame {
	if len(l) < 2 {
		return l
	}
	live := w.e.cfg(w.fn).live[l[0].blk.Index]
	by := map[string][]*frame{}
	var keys []string
	for _, f := range l {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%d;", len(f.defers))
		for _, v := range live {
			if w.e.cfg(w.fn).start[v] {
				if i, ok := f.env[v].(IntV); ok {
					if k, ok := i.p.isConst(); ok {
						fmt.Fprintf(&sb, "=%s;", k)
						continue
					}
				}
			}
			w.shapeKey(&sb, f.st, f.env[v])
		}
		k := sb.String()
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], f)
	}
	var out []*frame
	for _, k := range keys {
		g := by[k]
		if len(g) == 1 {
			out = append(out, g[0])
			continue
		}
		sts := make([]*State, len(g))
		roots := make([][]Val, len(g))
		for i, f := range g {
			sts[i] = f.st
			r := make([]Val, 0, len(live))
			for _, v := range live {
				r = append(r, f.env[v])
			}
			for _, d := range f.defers {
				r = append(r, d.fn)
				r = append(r, d.args...)
			}
			roots[i] = r
		}
		if os.Getenv("XPX_MERGE") != "" {
			fmt.Fprintln(os.Stderr, "merge", len(g), "at", fnName(w.fn), g[0].blk.Index, w.vec(g[0]), len(syms), w.spec.n, w.spec.lost)
		}
		st, r, why := w.mergeStates(sts, roots, func(i int) string {
			if i < len(live) {
				return fmt.Sprintf("v%d", live[i])
			}
			return fmt.Sprintf("d%d", i)
		})
		if why != "" {
			if strings.Contains(why, "do not represent the number any more") && w.e.cfg(w.fn).inl[g[0].blk.Index] == nil && len(g) <= 1024 {
				// in the middle of a change of the digits: at the next join, or when the surrounding loop goes on
				out = append(out, g...)
				continue
			}
			w.spec.loss(fnName(w.fn) + ": " + why)
			out = append(out, g...)
			continue
		}
		w.spec.n++
		f := g[0].clone(st)
		for i, v := range live {
			f.env[v] = r[i]
		}
		i := len(live)
		for j := range f.defers {
			f.defers[j].fn = r[i]
			i++
			na := append([]Val(nil), f.defers[j].args...)
			for k := range na {
				na[k] = r[i]
				i++
			}
			f.defers[j].args = na
		}
		out = append(out, f)
	}
	return out
}

// mergeOuts combines the normal outcomes of a call.
func (w *worklist) mergeOuts(outs []Outcome) []Outcome {
	by := map[string][]int{}
	var keys []string
	var res []Outcome
	for i, o := range outs {
		if o.pan != nil {
			res = append(res, o)
			continue
		}
		var sb strings.Builder
		for _, v := range o.vals {
			w.shapeKey(&sb, o.st, v)
		}
		k := sb.String()
		if by[k] == nil {
			keys = append(keys, k)
		}
		by[k] = append(by[k], i)
	}
	for _, k := range keys {
		g := by[k]
		if len(g) == 1 {
			res = append(res, outs[g[0]])
			continue
		}
		var sts []*State
		var roots [][]Val
		for _, i := range g {
			for _, gh := range outs[i].st.ghosts {
				gh.note(outs[i].st)
			}
			sts = append(sts, outs[i].st)
			roots = append(roots, outs[i].vals)
		}
		st, r, why := w.mergeStates(sts, roots, func(i int) string { return fmt.Sprintf("r%d", i) })
		if why != "" {
			w.spec.loss(fnName(w.fn) + " (return): " + why)
			for _, i := range g {
				res = append(res, outs[i])
			}
			continue
		}
		w.spec.n++
		res = append(res, Outcome{st: st, vals: r})
	}
	return res
}

// shapeKey: what has to agree for a merge.
func (w *worklist) shapeKey(sb *strings.Builder, st *State, v Val) {
	switch x := v.(type) {
	case nil:
		sb.WriteString("nil;")
	case BoolV:
		if b, k := decide(x.c, st.facts); k {
			fmt.Fprintf(sb, "%v;", b)
			return
		}
		sb.WriteString(x.c.key() + ";")
	case PtrV:
		if x.obj == 0 {
			sb.WriteString("null;")
			return
		}
		if x.obj < w.nobj {
			fmt.Fprintf(sb, "p%d%v;", x.obj, x.path)
			return
		}
		if t := w.e.objs[x.obj].typ; t != nil {
			sb.WriteString(t.String())
		}
		sb.WriteString("*;")
	case SliceV:
		if x.obj != 0 && x.obj < w.nobj {
			fmt.Fprintf(sb, "s%d;", x.obj)
			return
		}
		fmt.Fprintf(sb, "s%v;", x.obj == 0)
	case IfaceV:
		if x.t == nil {
			sb.WriteString("inil;")
			return
		}
		sb.WriteString("i" + x.t.String() + ";")
	case TupleV:
		for _, y := range x {
			w.shapeKey(sb, st, y)
		}
	default:
		fmt.Fprintf(sb, "%T;", v)
	}
}

// factsLCA: the common part of the facts.
func factsLCA(l []*Facts) *Facts {
	r := l[0]
	for _, x := range l[1:] {
		for r != x {
			rn, xn := 0, 0
			if r != nil {
				rn = r.n
			}
			if x != nil {
				xn = x.n
			}
			if rn >= xn {
				r = r.parent
			} else {
				x = x.parent
			}
		}
	}
	return r
}

type slot struct {
	key  string
	vals []*Poly
	sym  *Sym
}

type mergeFail struct{ why string }

type merger struct {
	w     *worklist
	sts   []*State
	lca   *Facts
	touch []map[int32]bool // symbols that the facts after the common part speak of
	memo  map[string]int
	mem   map[int]Val
	slots []*slot
	doms  map[*Poly][]int64
}

func (w *worklist) mergeStates(sts []*State, roots [][]Val, name func(i int) string) (rst *State, rvals []Val, why string) {
	for {
		st, vals, why, drop := w.mergeOnce(sts, roots, name)
		if len(drop) == 0 || len(drop) >= len(sts) {
			return st, vals, why
		}
		// states that cannot occur
		var ns []*State
		var nr [][]Val
		for i := range sts {
			if !drop[i] {
				ns = append(ns, sts[i])
				nr = append(nr, roots[i])
			}
		}
		sts, roots = ns, nr
	}
}

func (w *worklist) mergeOnce(sts []*State, roots [][]Val, name func(i int) string) (rst *State, rvals []Val, why string, drop map[int]bool) {
	defer func() {
		if r := recover(); r != nil {
			f, ok := r.(mergeFail)
			if !ok {
				if u, is := r.(undecidedErr); is {
					why = u.msg
					return
				}
				panic(r)
			}
			why = f.why
		}
	}()
	m := &merger{w: w, sts: sts, memo: map[string]int{}, mem: map[int]Val{}, doms: map[*Poly][]int64{}}
	var fl []*Facts
	for _, s := range sts {
		fl = append(fl, s.facts)
		if s.pan != sts[0].pan || s.recov != sts[0].recov {
			panic(mergeFail{"different panic states"})
		}
		if len(s.ghosts) != len(sts[0].ghosts) {
			panic(mergeFail{"different ghosts"})
		}
	}
	m.lca = factsLCA(fl)
	for _, f := range fl {
		t := map[int32]bool{}
		for x := f; x != m.lca; x = x.parent {
			if x.bsym >= 0 {
				t[x.bsym] = true
			}
			if x.ssym >= 0 {
				t[x.ssym] = true
			}
			for _, p := range []*Poly{x.eq, x.ge} {
				if p != nil {
					for _, s := range p.syms() {
						t[s] = true
					}
				}
			}
			if p, ok := x.adat.(*Poly); ok && p != nil {
				for _, s := range p.syms() {
					t[s] = true
				}
			}
		}
		m.touch = append(m.touch, t)
	}
	for i := range roots[0] {
		vs := make([]Val, len(sts))
		for k := range sts {
			vs[k] = roots[k][i]
		}
		rvals = append(rvals, m.val(vs, name(i)))
	}
	// objects from before the call
	ids := map[int]bool{}
	for _, s := range sts {
		for id := range s.mem {
			if id < w.nobj {
				ids[id] = true
			}
		}
	}
	var il []int
	for id := range ids {
		il = append(il, id)
	}
	sort.Ints(il)
	for _, id := range il {
		m.obj(id)
	}
	st := sts[0].clone()
	st.facts = m.lca
	mem := map[int]Val{}
	for id, v := range sts[0].mem {
		if id < w.nobj {
			mem[id] = v
		}
	}
	for id, v := range m.mem {
		mem[id] = v
	}
	st.mem, st.own = mem, true
	// events
	have := map[string]bool{}
	for _, ev := range sts[0].events() {
		have[ev.kind+ev.at] = true
	}
	for _, s := range sts[1:] {
		for x := s.ev; x != nil; x = x.parent {
			if k := x.e.kind + x.e.at; !have[k] {
				have[k] = true
				st.event(x.e)
			}
		}
	}
	st.ghosts = nil
	for gi := range sts[0].ghosts {
		g, bad := m.ghost(gi)
		if len(bad) > 0 {
			drop = map[int]bool{}
			for _, i := range bad {
				if m.infeasible(i, gi) {
					drop[i] = true
				}
			}
			if len(drop) == 0 {
				return nil, nil, fmt.Sprintf("the digits do not represent the number any more on %d of %d paths: %s", len(bad), len(sts), clip(factsString(sts[bad[0]].facts))), nil
			}
			return nil, nil, "", drop
		}
		st.ghosts = append(st.ghosts, g)
	}
	return st, rvals, "", nil
}

func (m *merger) obj(id int) {
	k := fmt.Sprint(id)
	if _, ok := m.memo[k]; ok {
		return
	}
	m.memo[k] = id
	vs := make([]Val, len(m.sts))
	same := true
	for i, s := range m.sts {
		v, ok := s.mem[id]
		if !ok {
			v = s.e.base[id]
		}
		if v == nil {
			// the object does not exist in this state: unreachable there
			panic(mergeFail{"object " + s.e.objs[id].label + " exists on some paths only"})
		}
		vs[i] = v
		same = same && valEq(v, vs[0])
	}
	if same {
		m.mem[id] = vs[0]
		m.reach(vs[0])
		return
	}
	m.mem[id] = m.val(vs, fmt.Sprintf("o%d", id))
}

// reach visits what an equal value points to.
func (m *merger) reach(v Val) {
	switch x := v.(type) {
	case PtrV:
		if x.obj >= m.w.nobj {
			m.obj(x.obj)
		}
	case SliceV:
		if x.obj >= m.w.nobj {
			m.obj(x.obj)
		}
	case StructV:
		for _, y := range x.f {
			m.reach(y)
		}
	case ArrayV:
		for _, y := range x.e {
			if _, ok := y.(IntV); ok {
				continue
			}
			m.reach(y)
		}
	case TupleV:
		for _, y := range x {
			m.reach(y)
		}
	case IfaceV:
		m.reach(x.v)
	case FuncV:
		for _, y := range x.free {
			m.reach(y)
		}
	}
}

func (m *merger) val(vs []Val, key string) Val {
	same := true
	for _, v := range vs[1:] {
		if !valEq(v, vs[0]) {
			same = false
			break
		}
	}
	if same {
		m.reach(vs[0])
		return vs[0]
	}
	switch x := vs[0].(type) {
	case IntV:
		ps := make([]*Poly, len(vs))
		for i, v := range vs {
			y, ok := v.(IntV)
			if !ok {
				panic(mergeFail{"different kinds at " + key})
			}
			ps[i] = y.p
		}
		return IntV{m.int(ps, key)}
	case BoolV:
		b0, k0 := decide(x.c, m.sts[0].facts)
		for i, v := range vs {
			y, ok := v.(BoolV)
			if !ok {
				panic(mergeFail{"different kinds at " + key})
			}
			if b, k := decide(y.c, m.sts[i].facts); !k || !k0 || b != b0 {
				panic(mergeFail{"different conditions at " + key})
			}
		}
		return BoolV{cBool(b0)}
	case ArrayV:
		r := make([]Val, len(x.e))
		for j := range x.e {
			ws := make([]Val, len(vs))
			for i, v := range vs {
				y, ok := v.(ArrayV)
				if !ok || len(y.e) != len(x.e) {
					panic(mergeFail{"different kinds at " + key})
				}
				ws[i] = y.e[j]
			}
			r[j] = m.val(ws, fmt.Sprintf("%s.%d", key, j))
		}
		return ArrayV{r}
	case StructV:
		r := make([]Val, len(x.f))
		for j := range x.f {
			ws := make([]Val, len(vs))
			for i, v := range vs {
				y, ok := v.(StructV)
				if !ok || len(y.f) != len(x.f) {
					panic(mergeFail{"different kinds at " + key})
				}
				ws[i] = y.f[j]
			}
			r[j] = m.val(ws, fmt.Sprintf("%s.%d", key, j))
		}
		return StructV{r}
	case TupleV:
		r := make(TupleV, len(x))
		for j := range x {
			ws := make([]Val, len(vs))
			for i, v := range vs {
				y, ok := v.(TupleV)
				if !ok || len(y) != len(x) {
					panic(mergeFail{"different kinds at " + key})
				}
				ws[i] = y[j]
			}
			r[j] = m.val(ws, fmt.Sprintf("%s.%d", key, j))
		}
		return r
	case RopeV:
		n := int64(-1)
		var bs [][]*Poly
		for _, v := range vs {
			y, ok := v.(RopeV)
			if !ok {
				panic(mergeFail{"different kinds at " + key})
			}
			var b []*Poly
			for _, s := range y.r.s {
				if s.bytes == nil {
					panic(mergeFail{"bytes of unknown length at " + key})
				}
				b = append(b, s.bytes...)
			}
			if n >= 0 && int64(len(b)) != n {
				panic(mergeFail{"different lengths at " + key})
			}
			n = int64(len(b))
			bs = append(bs, b)
		}
		r := make([]*Poly, n)
		for j := range r {
			ps := make([]*Poly, len(bs))
			eq := true
			for i := range bs {
				ps[i] = bs[i][j]
				eq = eq && ps[i].eq(ps[0])
			}
			r[j] = ps[0]
			if !eq {
				r[j] = m.int(ps, fmt.Sprintf("%s.%d", key, j))
			}
		}
		return RopeV{ropeBytes(r)}
	case PtrV:
		return m.ptr(vs, key)
	case SliceV:
		id := ""
		r := x
		var objs []int
		for _, v := range vs {
			y, ok := v.(SliceV)
			if !ok || y.obj == 0 || len(y.path) > 0 || !y.off.eq(x.off) || !y.len.eq(x.len) || !y.cap.eq(x.cap) {
				panic(mergeFail{"different slices at " + key})
			}
			id += fmt.Sprint(y.obj, ",")
			objs = append(objs, y.obj)
		}
		r.obj = m.pair(id, objs, key)
		return r
	}
	panic(mergeFail{fmt.Sprintf("different %T at %s", vs[0], key)})
}

// pair: the object that stands for different objects on the different paths.
func (m *merger) pair(id string, objs []int, key string) int {
	if o, ok := m.memo[id]; ok {
		return o
	}
	e := m.w.e
	for _, o := range objs {
		if o < m.w.nobj || !types.Identical(orInt(e.objs[o].typ), orInt(e.objs[objs[0]].typ)) {
			panic(mergeFail{"different objects at " + key})
		}
	}
	n := e.newObj(e.objs[objs[0]].label, e.objs[objs[0]].owner, e.objs[objs[0]].typ)
	m.memo[id] = n
	m.memo[fmt.Sprint(n)] = n
	vs := make([]Val, len(objs))
	for i, o := range objs {
		vs[i] = m.sts[i].get(o)
	}
	m.mem[n] = m.val(vs, fmt.Sprintf("o%d", n))
	return n
}

func orInt(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Int]
	}
	return t
}

func (m *merger) ptr(vs []Val, key string) Val {
	x := vs[0].(PtrV)
	id := ""
	var objs []int
	for _, v := range vs {
		y, ok := v.(PtrV)
		if !ok || y.obj == 0 || len(y.path) > 0 || y.idx != nil {
			panic(mergeFail{"different pointers at " + key})
		}
		id += fmt.Sprint(y.obj, ",")
		objs = append(objs, y.obj)
	}
	if o, ok := m.memo[id]; ok {
		return PtrV{obj: o}
	}
	if t := m.w.e.objs[x.obj].typ; t != nil && m.w.spec.geOK {
		if n, p := namedOf(t); n == tGE && !p {
			o := m.point(vs, id, key)
			m.memo[id] = o
			m.memo[fmt.Sprint(o)] = o
			return PtrV{obj: o}
		}
	}
	return PtrV{obj: m.pair(id, objs, key)}
}

// values of p in state i, nil if unknown or too many
func (m *merger) dom(p *Poly, i int) []int64 {
	if c, ok := p.isConst(); ok {
		if !c.IsInt64() {
			return nil
		}
		return []int64{c.Int64()}
	}
	free := true
	for _, s := range p.syms() {
		if m.touch[i][s] || syms[s].def != nil {
			free = false
		}
	}
	if free {
		if d, ok := m.doms[p]; ok {
			return d
		}
	}
	f := m.sts[i].facts
	q := normPoly(p, f)
	var d []int64
	if c, ok := q.isConst(); ok && c.IsInt64() {
		d = []int64{c.Int64()}
	} else if _, _, res, ok := enumerate(q, f, 64); ok {
		for _, r := range res {
			if !r.IsInt64() {
				d = nil
				break
			}
			d = append(d, r.Int64())
		}
	}
	if free {
		m.doms[p] = d
	}
	return d
}

func (m *merger) int(ps []*Poly, key string) *Poly {
	set := map[int64]bool{}
	ok := true
	for i, p := range ps {
		d := m.dom(p, i)
		if d == nil {
			ok = false
			break
		}
		for _, v := range d {
			set[v] = true
		}
	}
	m.w.spec.fresh++
	var s *Sym
	name := fmt.Sprintf("join%d", m.w.spec.fresh)
	if ok && len(set) <= 64 {
		var dom []int64
		for v := range set {
			dom = append(dom, v)
		}
		sort.Slice(dom, func(i, j int) bool { return dom[i] < dom[j] })
		s = newSym(name, bi(dom[0]), bi(dom[len(dom)-1]))
		if int64(len(dom)) != dom[len(dom)-1]-dom[0]+1 {
			s.dom = dom
		}
	} else {
		iv := bounds(ps[0], m.sts[0].facts, stepsDeep, nil)
		for i, p := range ps {
			iv = iv.hull(bounds(p, m.sts[i].facts, stepsDeep, nil))
		}
		s = newSym(name, iv.lo, iv.hi)
	}
	dm := map[int32]bool{}
	for _, p := range ps {
		for _, y := range p.syms() {
			dm[y] = true
		}
	}
	for y := range dm {
		s.deps = append(s.deps, y)
	}
	sort.Slice(s.deps, func(i, j int) bool { return s.deps[i] < s.deps[j] })
	m.slots = append(m.slots, &slot{key, ps, s})
	return pSym(s)
}

// note remembers which cells hold a symbol of the number.
func (g *ghost) note(st *State) {
	for id, v := range st.mem {
		a, ok := v.(ArrayV)
		if !ok || len(a.e) < 8 {
			continue
		}
		if o, ok := g.seen[id].(ArrayV); ok && &o.e[0] == &a.e[0] {
			continue
		}
		g.seen[id] = v
		for j, x := range a.e {
			iv, ok := x.(IntV)
			if !ok {
				break
			}
			if len(iv.p.t) != 1 {
				continue
			}
			if y := iv.p.single(); y != nil && iv.p.t[0].c.Cmp(b1) == 0 && g.L.coef(y.id).Sign() != 0 {
				k := fmt.Sprintf("o%d.%d", id, j)
				if _, ok := g.held[k]; !ok {
					g.held[k] = y.id
				}
			}
		}
	}
}

func (m *merger) infeasible(i, gi int) bool {
	g := m.sts[i].ghosts[gi]
	iv := naiveIv(normPoly(g.L, m.sts[i].facts), m.sts[i].facts)
	return (iv.lo != nil && iv.lo.Cmp(g.hi) > 0) || (iv.hi != nil && iv.hi.Cmp(g.lo) < 0)
}

// ghost expresses the number by the merged slots; bad: the states in which that is wrong.
func (m *merger) ghost(gi int) (*ghost, []int) {
	g0 := m.sts[0].ghosts[gi]
	if len(m.slots) == 0 {
		for i, s := range m.sts {
			if !s.ghosts[gi].L.eq(g0.L) {
				return nil, []int{i}
			}
		}
		return g0, nil
	}
	type known struct {
		sl *slot
		c  *big.Int
	}
	var kn []known
	var un []*slot
	for _, sl := range m.slots {
		// the same weight in all states
		var c *big.Int
		for i := range m.sts {
			g := m.sts[i].ghosts[gi]
			y, ok := g.held[sl.key]
			if !ok {
				continue
			}
			if w := g.L.coef(y); w.Sign() != 0 && c == nil {
				c = w
			}
		}
		if c == nil {
			un = append(un, sl)
		} else {
			kn = append(kn, known{sl, c})
		}
	}
	// N = K + sum over slots; K is what the other cells contribute
	n := len(m.sts)
	ks := make([]*Poly, n)
	for i := range m.sts {
		g := m.sts[i].ghosts[gi]
		done := map[int32]bool{}
		for _, x := range kn {
			if y, ok := g.held[x.sl.key]; ok {
				done[y] = true
			}
		}
		k := &Poly{}
		for _, t := range g.L.t {
			if len(t.m) != 1 || !done[t.m[0]] {
				k.t = append(k.t, t)
			}
		}
		ks[i] = k
	}
	resid := func(i int) *Poly {
		// L_i - K_i... must equal the slots' contribution
		f := m.sts[i].facts
		acc := psub(m.sts[i].ghosts[gi].L, ks[0])
		c := new(big.Int)
		var more *polyAcc
		for _, x := range kn {
			v := x.sl.vals[i]
			if k, ok := v.isConst(); ok {
				c.Sub(c, new(big.Int).Mul(k, x.c))
				continue
			}
			if more == nil {
				more = newAcc()
			}
			for _, t := range v.t {
				more.add(t.m, new(big.Int).Neg(new(big.Int).Mul(t.c, x.c)))
			}
		}
		acc = padd(acc, pConst(c))
		if more != nil {
			acc = padd(acc, more.poly())
		}
		return normPoly(acc, f)
	}
	res := make([]*Poly, n)
	var bad []int
	for i := range m.sts {
		res[i] = resid(i)
		if !res[i].isZero() {
			bad = append(bad, i)
		}
	}
	L := ks[0]
	add := func(p *Poly, c *big.Int) { L = pcomb(L, c, p) }
	held := map[string]int32{}
	for k, v := range g0.held {
		held[k] = v
	}
	for _, x := range kn {
		add(pSym(x.sl.sym), x.c)
		held[x.sl.key] = x.sl.sym.id
	}
	if len(bad) > 0 {
		if len(un) > 64 {
			return nil, bad
		}
		// unknown weights: sum w_k val_k + sum kappa_y y + kappa_0 = res in every state
		ys := map[int32]bool{}
		for _, sl := range un {
			for _, p := range sl.vals {
				for _, y := range p.syms() {
					ys[y] = true
				}
			}
		}
		var yl []int32
		for y := range ys {
			yl = append(yl, y)
		}
		sort.Slice(yl, func(i, j int) bool { return yl[i] < yl[j] })
		if len(yl) > 64 {
			return nil, bad
		}
		var rows [][]*big.Int
		for i := range m.sts {
			if !res[i].isZero() && m.infeasible(i, gi) {
				return nil, bad // dropped first
			}
			f := m.sts[i].facts
			var cols []*Poly
			for _, sl := range un {
				cols = append(cols, normPoly(sl.vals[i], f))
			}
			for _, y := range yl {
				cols = append(cols, normPoly(pSym(syms[y]), f))
			}
			cols = append(cols, pInt(1), res[i])
			rows = append(rows, coefRows(cols)...)
		}
		sol := solveInt(rows)
		if sol == nil {
			return nil, bad
		}
		for k, sl := range un {
			if sol[k].Sign() != 0 {
				add(pSym(sl.sym), sol[k])
				held[sl.key] = sl.sym.id
			}
		}
		for k, y := range yl {
			add(pSym(syms[y]), sol[len(un)+k])
		}
		add(pInt(1), sol[len(un)+len(yl)])
	}
	seen := map[int]Val{}
	return &ghost{L: L, lo: g0.lo, hi: g0.hi, held: held, seen: seen}, nil
}

// coefRows: one row of coefficients per monomial of the columns.
func coefRows(cols []*Poly) [][]*big.Int {
	idx := map[string]int{}
	var rows [][]*big.Int
	for j, p := range cols {
		for _, t := range p.t {
			k := monoKey(t.m)
			r, ok := idx[k]
			if !ok {
				r = len(rows)
				idx[k] = r
				row := make([]*big.Int, len(cols))
				for x := range row {
					row[x] = b0
				}
				rows = append(rows, row)
			}
			rows[r][j] = t.c
		}
	}
	return rows
}

// solveInt finds an integer solution of sum row[k]*x_k = row[last] (free variables are zero), or nil.
func solveInt(rows [][]*big.Int) []*big.Int {
	if len(rows) == 0 {
		return nil
	}
	n := len(rows[0]) - 1
	m := make([][]*big.Rat, len(rows))
	for i, r := range rows {
		m[i] = make([]*big.Rat, n+1)
		for j := range r {
			m[i][j] = new(big.Rat).SetInt(r[j])
		}
	}
	piv := make([]int, 0, n)
	row := 0
	for col := 0; col < n && row < len(m); col++ {
		p := -1
		for i := row; i < len(m); i++ {
			if m[i][col].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		m[row], m[p] = m[p], m[row]
		inv := new(big.Rat).Inv(m[row][col])
		for j := col; j <= n; j++ {
			m[row][j] = new(big.Rat).Mul(m[row][j], inv)
		}
		for i := range m {
			if i == row || m[i][col].Sign() == 0 {
				continue
			}
			c := m[i][col]
			for j := col; j <= n; j++ {
				m[i][j] = new(big.Rat).Sub(m[i][j], new(big.Rat).Mul(c, m[row][j]))
			}
		}
		piv = append(piv, col)
		row++
	}
	for i := row; i < len(m); i++ {
		if m[i][n].Sign() != 0 {
			return nil
		}
	}
	sol := make([]*big.Int, n)
	for i := range sol {
		sol[i] = b0
	}
	for i, c := range piv {
		if !m[i][n].IsInt() {
			return nil
		}
		sol[c] = new(big.Int).Set(m[i][n].Num())
	}
	return sol
}

// point combines points that differ: one multiple, affine in the symbols that the paths have fixed.
func (m *merger) point(vs []Val, id, key string) int {
	c := m.w.spec.c
	var taus []*Tau
	cs := int64(-1)
	var bnd [4][10]Iv
	var dm = map[int32]bool{}
	for i, v := range vs {
		k, tau, err := c.recognise(m.sts[i], v)
		if err != nil {
			panic(mergeFail{fmt.Sprintf("point at %s: %v", key, err)})
		}
		if cs >= 0 && k != cs {
			panic(mergeFail{"points in different coordinate systems at " + key})
		}
		cs = k
		taus = append(taus, tau)
		g, _ := c.coords(m.sts[i], v)
		for a, l := range g.l {
			for j := range l {
				b := bounds(l[j], m.sts[i].facts, stepsDeep, nil)
				if i == 0 {
					bnd[a][j] = b
				} else {
					bnd[a][j] = bnd[a][j].hull(b)
				}
				for _, y := range l[j].syms() {
					dm[y] = true
				}
			}
		}
	}
	tau := m.tau(taus, key)
	var deps []int32
	for y := range dm {
		deps = append(deps, y)
	}
	sort.Slice(deps, func(i, j int) bool { return deps[i] < deps[j] })
	m.w.spec.fresh++
	l := c.pointLimbs(cs, tau, fmt.Sprintf("join%d", m.w.spec.fresh), func(k, i int) Iv { return bnd[k][i] }, deps)
	st := m.sts[0].clone()
	st.mem, st.own = map[int]Val{}, true
	p := c.mkGE(st, "joined point", "fresh", cs, l)
	for o, v := range st.mem {
		m.mem[o] = v
		m.memo[fmt.Sprint(o)] = o
	}
	return p.obj
}

func (m *merger) tau(taus []*Tau, key string) *Tau {
	pts := map[string]bool{}
	for _, t := range taus {
		for _, x := range t.t {
			pts[x.pt] = true
		}
	}
	var names []string
	for p := range pts {
		names = append(names, p)
	}
	sort.Strings(names)
	res := tauOf("B", pInt(0))
	for _, pt := range names {
		co := make([]*Poly, len(taus))
		// the reference: the path that has the richest form
		ref := 0
		for i, t := range taus {
			co[i] = pInt(0)
			for _, x := range t.t {
				if x.pt == pt {
					co[i] = normPoly(x.c, m.sts[i].facts)
				}
			}
			if len(co[i].t) > len(co[ref].t) {
				ref = i
			}
		}
		// symbols that the reference path has fixed
		var ys []int32
		var fixed []*Poly
		for x := m.sts[ref].facts; x != m.lca; x = x.parent {
			if x.ssym >= 0 && len(ys) < 24 {
				if _, ok := x.sval.isConst(); ok {
					ys = append(ys, x.ssym)
					fixed = append(fixed, x.sval)
				}
			}
		}
		var rows [][]*big.Int
		for i := range taus {
			f := m.sts[i].facts
			var cols []*Poly
			for k, y := range ys {
				cols = append(cols, normPoly(psub(pSym(syms[y]), fixed[k]), f))
			}
			cols = append(cols, psub(co[i], normPoly(co[ref], f)))
			rows = append(rows, coefRows(cols)...)
		}
		p := co[ref]
		if len(rows) > 0 {
			sol := solveInt(rows)
			if sol == nil {
				panic(mergeFail{fmt.Sprintf("the multiples of %s at %s are not affine in the digits", pt, key)})
			}
			for k, y := range ys {
				p = pcomb(p, sol[k], psub(pSym(syms[y]), fixed[k]))
			}
		}
		for i := range taus {
			if f := m.sts[i].facts; !psub(normPoly(p, f), co[i]).isZero() {
				panic(mergeFail{fmt.Sprintf("the multiples of %s at %s do not agree", pt, key)})
			}
		}
		res = tauAdd(res, tauOf(pt, p))
	}
	return res
}
