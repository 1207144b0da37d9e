package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A flow-insensitive, context-sensitive points-to, effect and taint analysis of the SSA form. Every call path has its own
// copy of a function's values and of the objects that it allocates (recursion folds onto the first activation). It does
// not depend on what any arithmetic computes.

type fOwner uint8

const (
	ownFresh fOwner = iota
	ownCaller
	ownGlobal
)

const (
	tSecret uint8 = 1 << iota // private keys and what is computed from them
	tPlain                    // plaintexts of the block cipher
	tRandom                   // bytes of the randomness source
)

type fObj struct {
	id    int
	label string
	typ   types.Type
	own   fOwner
	root  *fVal
	fn    *ssa.Function // closures
	kind  string        // "", "hash", "builder": what an opaque library object is
	ver   int
	at    string   // allocation path
	open  bool     // holds published values
	under []string // names of the types on the way from the parameter (caller objects)
}

type fElem struct {
	obj  *fObj
	path string // one byte per step: field number, or stepElem
	dyn  types.Type
	full bool // a slice that has no spare capacity
}

const (
	stepElem = 255
	stepKey  = 254
)

// fVal is an abstract value: where it may point, whether it is tainted, and its parts
type fVal struct {
	taint uint8
	elems map[fElem]bool
	kids  map[byte]*fVal
}

func (v *fVal) kid(k byte) *fVal {
	if v.kids == nil {
		v.kids = map[byte]*fVal{}
	}
	x := v.kids[k]
	if x == nil {
		x = &fVal{}
		v.kids[k] = x
	}
	return x
}

// flat: all taints of the value itself (not of what it points to)
func (v *fVal) flat() uint8 {
	t := v.taint
	for _, k := range v.kids {
		t |= k.flat()
	}
	return t
}

func fjoin(d, s *fVal) bool {
	if d == s || s == nil {
		return false
	}
	ch := false
	if d.taint|s.taint != d.taint {
		d.taint |= s.taint
		ch = true
	}
	for e := range s.elems {
		if !d.elems[e] {
			if d.elems == nil {
				d.elems = map[fElem]bool{}
			}
			d.elems[e] = true
			ch = true
		}
	}
	for k, x := range s.kids {
		if fjoin(d.kid(k), x) {
			ch = true
		}
	}
	return ch
}

type fCtx struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*fVal
	ret    *fVal
	parent *fCtx
	site   ssa.Instruction
	kids   map[fKey]*fCtx
	allocs map[fKey]*fObj
	args   []*fVal
	reads  map[*fObj]int // object versions that the last evaluation saw
	path   string
	folded bool // also stands for recursive activations
	dirty  bool
	busy   bool
	defers []*fVal
}

type fKey struct {
	in ssa.Instruction
	fn *ssa.Function
	n  int
}

type fEvent struct {
	kind  string // write, print, error, panic
	entry string
	in    ssa.Instruction
	obj   *fObj
	path  string
	taint uint8
	what  string
}

type Flow struct {
	P       *Program
	nobj    int
	globals map[*ssa.Global]*fObj
	fnObjs  map[*ssa.Function]*fObj
	entry   string
	init    bool
	events  map[string]*fEvent
	changed bool
	stack   []*fCtx
	seen    map[*ssa.Function]bool
	nctx    int
	ninstr  int
	nstore  int
	nsink   int
	nread   int
	ext     map[string]int // library calls met
	unknown map[string]bool
	writes  map[ssa.Instruction]int // writing constructs met after start-up
	sinks   map[ssa.Instruction]int
	acts    map[*ssa.Function]int
	timing  bool                    // record what timing depends on
	ctls    map[ssa.Instruction]int // constructs that could leak through timing
	secrets uint8                   // the marks that count as secret for timing
	copies  map[*fObj]map[*fObj]bool
	release map[string]bool // objects that hold published values (allocation paths)
}

func newFlow(P *Program) *Flow {
	return &Flow{P: P, globals: map[*ssa.Global]*fObj{}, fnObjs: map[*ssa.Function]*fObj{}, events: map[string]*fEvent{}, seen: map[*ssa.Function]bool{}, ext: map[string]int{}, unknown: map[string]bool{},
		writes: map[ssa.Instruction]int{}, sinks: map[ssa.Instruction]int{}, acts: map[*ssa.Function]int{}, ctls: map[ssa.Instruction]int{}, copies: map[*fObj]map[*fObj]bool{}}
}

func (w *Flow) obj(label string, own fOwner, t types.Type) *fObj {
	w.nobj++
	if w.init && own == ownFresh {
		own = ownGlobal
	}
	return &fObj{id: w.nobj, label: label, own: own, typ: t, root: &fVal{}}
}

func (w *Flow) cell(e fElem) *fVal {
	v := e.obj.root
	for i := 0; i < len(e.path); i++ {
		v = v.kid(e.path[i])
	}
	return v
}

func (w *Flow) global(g *ssa.Global) *fObj {
	o := w.globals[g]
	if o == nil {
		o = w.obj("package variable "+g.RelString(w.P.tpkg), ownGlobal, g.Type().(*types.Pointer).Elem())
		w.globals[g] = o
		if g.Pkg != w.P.pkg && !w.analysed(g.Pkg) {
			// a variable of a library: some value of its type
			w.fill(o.root, o.typ, o.label, ownGlobal, nil, 0)
		}
	}
	return o
}

func (w *Flow) analysed(p *ssa.Package) bool {
	return p != nil && (p == w.P.pkg || strings.HasPrefix(p.Pkg.Path(), "github.com/proximax-storage/"))
}

func (w *Flow) inside(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		// wrappers and bound methods
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), "github.com/proximax-storage/") && w.P.body(fn)
		}
		return false
	}
	return w.analysed(p) && w.P.body(fn)
}

// fill describes a value of type t that comes from outside
func (w *Flow) fill(v *fVal, t types.Type, label string, own fOwner, under []string, depth int) {
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
		if p := n.Obj().Pkg(); p != nil && p != w.P.tpkg {
			name = p.Name() + "." + name
		}
	}
	if name != "" {
		k := 0
		for _, u := range under {
			if u == name {
				k++
			}
		}
		if k > 1 {
			return
		}
		under = append(append([]string(nil), under...), name)
	}
	taint := uint8(0)
	for _, u := range under {
		if u == "PrivateKey" {
			taint = tSecret
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		v.taint |= taint
	case *types.Pointer:
		o := w.obj(label, own, u.Elem())
		o.under = under
		w.add(v, fElem{obj: o})
		w.fill(o.root, u.Elem(), label, own, under, depth+1)
	case *types.Slice:
		o := w.obj(label, own, t)
		o.under = under
		w.add(v, fElem{obj: o})
		w.fill(o.root.kid(stepElem), u.Elem(), label, own, under, depth+1)
	case *types.Array:
		w.fill(v.kid(stepElem), u.Elem(), label, own, under, depth+1)
	case *types.Struct:
		if strings.Contains(name, ".") {
			v.taint |= taint // the inside of a library type is not looked at
			if isBigInt(t) && depth == 0 {
				// a number passed as a struct shares its words with the caller's
				o := w.obj(label, own, t)
				o.under = under
				w.add(v.kid(1), fElem{obj: o})
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			w.fill(v.kid(byte(i)), u.Field(i).Type(), label+"."+u.Field(i).Name(), own, under, depth+1)
		}
	case *types.Map:
		o := w.obj(label, own, t)
		o.under = under
		w.add(v, fElem{obj: o})
		w.fill(o.root.kid(stepElem), u.Elem(), label, own, under, depth+1)
		w.fill(o.root.kid(stepKey), u.Key(), label, own, under, depth+1)
	case *types.Interface:
		o := w.obj(label, own, t)
		o.under = under
		w.add(v, fElem{obj: o}) // some value of another package
		if u.NumMethods() == 0 || depth > 6 {
			return
		}
		for _, m := range w.P.pkg.Members {
			tm, ok := m.(*ssa.Type)
			if !ok || types.IsInterface(tm.Type()) {
				continue
			}
			pt := types.NewPointer(tm.Type())
			if types.Implements(pt, u) && !types.Implements(tm.Type(), u) {
				x := &fVal{}
				w.fill(x, pt, label, own, under, depth+1)
				for e := range x.elems {
					e.dyn = pt
					w.add(v, e)
				}
			}
			if types.Implements(tm.Type(), u) {
				b := w.obj(label, own, tm.Type())
				b.under = under
				w.fill(b.root, tm.Type(), label, own, under, depth+1)
				w.add(v, fElem{obj: b, dyn: tm.Type()})
			}
		}
	}
}

func (w *Flow) add(v *fVal, e fElem) bool {
	if v.elems[e] {
		return false
	}
	if v.elems == nil {
		v.elems = map[fElem]bool{}
	}
	v.elems[e] = true
	return true
}

// deep: all taints of a value and of everything that it leads to
func (w *Flow) deep(v *fVal) uint8 {
	seen := map[*fObj]bool{}
	seenPath := map[fElem]bool{}
	var walk func(v *fVal) uint8
	walk = func(v *fVal) uint8 {
		t := v.taint
		for _, k := range v.kids {
			t |= walk(k)
		}
		for e := range v.elems {
			w.touch(e.obj)
			if len(e.path) > 0 {
				if k := (fElem{obj: e.obj, path: e.path}); !seenPath[k] {
					seenPath[k] = true
					t |= walk(w.cell(e))
				}
			} else if !seen[e.obj] {
				seen[e.obj] = true
				t |= walk(e.obj.root)
			}
		}
		return t
	}
	return walk(v)
}

// content: the taints of what a slice or pointer leads to directly
func (w *Flow) content(v *fVal) uint8 {
	t := v.taint
	for e := range v.elems {
		t |= w.readCell(e).flat()
	}
	return t
}

// reach calls f for all objects that v leads to
func (w *Flow) reach(v *fVal, f func(o *fObj)) {
	seen := map[*fObj]bool{}
	var walk func(v *fVal)
	walk = func(v *fVal) {
		for _, k := range v.kids {
			walk(k)
		}
		for e := range v.elems {
			if !seen[e.obj] {
				seen[e.obj] = true
				w.touch(e.obj)
				f(e.obj)
				walk(e.obj.root)
			}
		}
	}
	walk(v)
}

func (w *Flow) event(kind string, in ssa.Instruction, o *fObj, path string, taint uint8, what string) {
	k := fmt.Sprintf("%s|%s|%p|%s|%d|%s", kind, w.entry, in, what, taint, path)
	if o != nil {
		k += fmt.Sprint(o.id)
	}
	if w.events[k] == nil {
		w.events[k] = &fEvent{kind, w.entry, in, o, path, taint, what}
	}
}

// ---- evaluation ----------------------------------------------------------------

func (w *Flow) touch(o *fObj) {
	for _, c := range w.stack {
		if c.reads != nil {
			if _, ok := c.reads[o]; !ok {
				c.reads[o] = o.ver
			}
		}
	}
}

func (w *Flow) readCell(e fElem) *fVal {
	w.touch(e.obj)
	return w.cell(e)
}

func (w *Flow) joinCell(e fElem, s *fVal) {
	w.touch(e.obj)
	if e.obj.open {
		s = published(s)
	}
	if fjoin(w.cell(e), s) {
		e.obj.ver++
		w.changed = true
	}
}

// published: the value without its marks
func published(s *fVal) *fVal {
	r := &fVal{elems: s.elems}
	for k, x := range s.kids {
		*r.kid(k) = *published(x)
	}
	return r
}

func (w *Flow) noteCopy(d, s *fVal) {
	for e := range d.elems {
		for x := range s.elems {
			if w.copies[e.obj] == nil {
				w.copies[e.obj] = map[*fObj]bool{}
			}
			w.copies[e.obj][x.obj] = true
		}
	}
}

func (c *fCtx) val(w *Flow, v ssa.Value) *fVal {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return &fVal{}
	case *ssa.Global:
		return &fVal{elems: map[fElem]bool{{obj: w.global(x)}: true}}
	case *ssa.Function:
		o := w.fnObjs[x]
		if o == nil {
			o = w.obj("function "+fnName(x), ownGlobal, nil)
			o.fn = x
			w.fnObjs[x] = o
		}
		return &fVal{elems: map[fElem]bool{{obj: o}: true}}
	}
	r := c.vals[v]
	if r == nil {
		r = &fVal{}
		c.vals[v] = r
	}
	return r
}

func (w *Flow) set(c *fCtx, v ssa.Value, s *fVal) {
	d := c.vals[v]
	if d == nil {
		d = &fVal{}
		c.vals[v] = d
	}
	if fjoin(d, s) {
		w.changed = true
		c.dirty = true
	}
}

func (w *Flow) allocAt(c *fCtx, in ssa.Instruction, n int, label string, t types.Type) *fObj {
	k := fKey{in: in, n: n}
	o := c.allocs[k]
	if o == nil {
		o = w.obj(label, ownFresh, t)
		o.at = c.path + fmt.Sprintf("/%p.%d", in, n)
		o.open = w.release[o.at]
		c.allocs[k] = o
	}
	return o
}

func anyOpen(a *fVal) bool {
	for e := range a.elems {
		if e.obj.open {
			return true
		}
	}
	return false
}

// fieldDefs: the values that the load of a field of a local struct can see, if all of them were stored into just that
// field while the address of the struct was only used for its fields.
func fieldDefs(ld *ssa.UnOp) ([]ssa.Value, bool) {
	fa, ok := ld.X.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	al, ok := fa.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	for _, r := range *al.Referrers() {
		switch y := r.(type) {
		case *ssa.FieldAddr:
			if y.Field != fa.Field {
				continue
			}
			for _, u := range *y.Referrers() {
				switch z := u.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if z.Val == ssa.Value(y) {
						return nil, false
					}
				default:
					return nil, false
				}
			}
		case *ssa.Store:
			if y.Val == ssa.Value(al) {
				return nil, false
			}
		case *ssa.UnOp, *ssa.Return, *ssa.DebugRef:
		default:
			return nil, false
		}
	}
	var defs []ssa.Value
	seen := map[*ssa.BasicBlock]bool{}
	// back: from the instruction before index i of the block
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for i--; i >= 0; i-- {
			switch y := b.Instrs[i].(type) {
			case *ssa.Store:
				if y.Addr == ssa.Value(al) {
					return false
				}
				if f, ok := y.Addr.(*ssa.FieldAddr); ok && f.X == ssa.Value(al) && f.Field == fa.Field {
					defs = append(defs, y.Val)
					return true
				}
			case *ssa.Alloc:
				if y == al {
					return true
				}
			}
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if !seen[p] {
				seen[p] = true
				if !back(p, len(p.Instrs)) {
					return false
				}
			}
		}
		return true
	}
	for i, in := range ld.Block().Instrs {
		if in == ssa.Instruction(ld) {
			return defs, back(ld.Block(), i)
		}
	}
	return nil, false
}

func ptrVal(es ...fElem) *fVal {
	m := map[fElem]bool{}
	for _, e := range es {
		m[e] = true
	}
	return &fVal{elems: m}
}

func (w *Flow) step(v *fVal, k byte) *fVal {
	r := &fVal{taint: v.taint}
	for e := range v.elems {
		w.add(r, fElem{obj: e.obj, path: e.path + string([]byte{k})})
	}
	return r
}

func (w *Flow) store(c *fCtx, in ssa.Instruction, addr, val *fVal, what string) {
	for e := range addr.elems {
		w.noteWrite(in, e, what)
		w.joinCell(e, val)
	}
}

func (w *Flow) noteWrite(in ssa.Instruction, e fElem, what string) {
	w.nstore++
	if !w.init {
		w.writes[in]++
	}
	if e.obj.own != ownFresh && !w.init {
		w.event("write", in, e.obj, e.path, 0, what)
	}
}

// writeAll: a library call writes what v leads to directly
func (w *Flow) writeAll(in ssa.Instruction, v *fVal, taint uint8, what string) {
	for e := range v.elems {
		w.noteWrite(in, e, what)
		x := &fVal{taint: taint}
		if e.obj.typ != nil {
			if _, ok := e.obj.typ.Underlying().(*types.Slice); ok {
				y := &fVal{}
				*y.kid(stepElem) = *x
				x = y
			}
		}
		w.joinCell(e, x)
	}
}

// run evaluates one activation until nothing changes
func (w *Flow) run(c *fCtx) {
	if c.busy {
		return
	}
	if c.reads != nil && !c.dirty {
		same := true
		for o, v := range c.reads {
			if o.ver != v {
				same = false
				break
			}
		}
		if same {
			for o := range c.reads {
				w.touch(o)
			}
			return
		}
	}
	c.busy = true
	c.dirty = false
	c.reads = map[*fObj]int{}
	w.stack = append(w.stack, c)
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			w.ninstr++
			w.instr(c, in)
		}
	}
	w.stack = w.stack[:len(w.stack)-1]
	c.busy = false
}

func (w *Flow) newCtx(parent *fCtx, site ssa.Instruction, fn *ssa.Function) *fCtx {
	w.nctx++
	w.seen[fn] = true
	w.acts[fn]++
	path := fmt.Sprintf("%p", fn)
	if parent != nil {
		path = parent.path + fmt.Sprintf("/%p:%p", site, fn)
	}
	return &fCtx{fn: fn, path: path, vals: map[ssa.Value]*fVal{}, ret: &fVal{}, parent: parent, site: site, kids: map[fKey]*fCtx{}, allocs: map[fKey]*fObj{}}
}

// chance: the result of the construct is not a function of the arguments
func (w *Flow) chance(in ssa.Instruction, what string) {
	if w.init {
		return
	}
	w.event("chance", in, nil, "", 0, what)
}

// ownSource: readers that the library itself made of data (buffers, hashes)
func (w *Flow) ownSource(v *fVal) bool {
	for e := range v.elems {
		if e.obj.kind != "builder" && e.obj.kind != "hash" {
			return false
		}
	}
	return len(v.elems) > 0
}

// chanceCalls: library calls whose results depend on more than their arguments
func chanceCall(pkg, name, full string) string {
	switch pkg {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash":
		return "draws from " + pkg
	case "time":
		switch name {
		case "Now", "Since", "Until", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Local", "LoadLocation":
			return "looks at the clock"
		}
	case "os", "os/user", "os/exec", "net", "net/http", "syscall", "plugin", "io/ioutil", "flag", "expvar":
		if strings.Contains(name, "Write") || strings.Contains(name, "Close") || name == "Exit" || name == "Error" || name == "NewSyscallError" {
			return ""
		}
		return "looks at its surroundings (" + full + ")"
	case "runtime", "runtime/debug":
		switch name {
		case "KeepAlive", "GC", "SetFinalizer", "Gosched", "Error", "RuntimeError", "LockOSThread", "UnlockOSThread", "PrintStack":
			return ""
		}
		return "looks at its surroundings (" + full + ")"
	case "fmt":
		if strings.HasPrefix(name, "Scan") || strings.HasPrefix(name, "Fscan") {
			return "reads input"
		}
	case "maps":
		if name == "Keys" || name == "Values" || name == "All" {
			return "runs through a map in no particular order"
		}
	case "sync":
		if strings.HasPrefix(name, "Try") {
			return "depends on what other goroutines do"
		}
	}
	return ""
}

func (w *Flow) instr(c *fCtx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Select:
		w.chance(in, "chooses between channels")
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			w.chance(in, "receives from a channel")
		}
	case *ssa.Range:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			w.chance(in, "runs through a map in no particular order")
		}
	case *ssa.Convert:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			if r, ok := x.Type().Underlying().(*types.Basic); ok && r.Kind() == types.Uintptr {
				w.chance(in, "turns an address into a number")
			}
		}
	}
	v := func(x ssa.Value) *fVal { return c.val(w, x) }
	if w.timing {
		w.ctl(c, in)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		o := w.allocAt(c, x, 0, x.Comment, x.Type().(*types.Pointer).Elem())
		w.set(c, x, ptrVal(fElem{obj: o}))
	case *ssa.MakeSlice:
		o := w.allocAt(c, x, 0, "make", x.Type())
		w.set(c, x, ptrVal(fElem{obj: o, full: x.Len == x.Cap || sameConst(x.Len, x.Cap)}))
	case *ssa.MakeMap:
		o := w.allocAt(c, x, 0, "map", x.Type())
		w.set(c, x, ptrVal(fElem{obj: o}))
	case *ssa.MakeChan:
		o := w.allocAt(c, x, 0, "chan", x.Type())
		w.set(c, x, ptrVal(fElem{obj: o}))
	case *ssa.MakeClosure:
		o := w.allocAt(c, x, 0, "closure", x.Type())
		o.fn = x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			w.joinCell(fElem{obj: o, path: string([]byte{byte(i)})}, v(b))
		}
		w.set(c, x, ptrVal(fElem{obj: o}))
	case *ssa.FieldAddr:
		w.set(c, x, w.step(v(x.X), byte(x.Field)))
	case *ssa.IndexAddr:
		r := w.step(v(x.X), stepElem)
		r.taint |= v(x.Index).taint
		w.set(c, x, r)
	case *ssa.Field:
		w.set(c, x, partOf(v(x.X), byte(x.Field)))
	case *ssa.Index:
		r := partOf(v(x.X), stepElem)
		s := &fVal{taint: v(x.Index).taint | v(x.X).taint}
		fjoin(s, r)
		w.set(c, x, s)
	case *ssa.Lookup:
		s := &fVal{taint: v(x.Index).flat() | v(x.X).taint}
		for e := range v(x.X).elems {
			fjoin(s, partOf(w.readCell(e), stepElem))
		}
		if x.CommaOk {
			t := &fVal{}
			*t.kid(0) = *s
			t.kid(1).taint = s.taint
			s = t
		}
		w.set(c, x, s)
	case *ssa.Extract:
		w.set(c, x, partOf(v(x.Tuple), byte(x.Index)))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			a := v(x.X)
			r := &fVal{taint: a.taint}
			if ds, ok := fieldDefs(x); ok && !anyOpen(a) {
				for _, d := range ds {
					fjoin(r, v(d))
				}
				for e := range a.elems {
					w.touch(e.obj)
				}
				w.nread++
				w.set(c, x, r)
				break
			}
			for e := range a.elems {
				fjoin(r, w.readCell(e))
				w.nread++
				if isBigInt(x.Type()) {
					// a shallow copy shares the words, which stand for the number itself here
					w.add(r.kid(1), e)
				}
			}
			w.set(c, x, r)
		case token.ARROW:
			r := &fVal{}
			for e := range v(x.X).elems {
				fjoin(r, partOf(w.readCell(e), stepElem))
			}
			if x.CommaOk {
				t := &fVal{}
				*t.kid(0) = *r
				r = t
			}
			w.set(c, x, r)
		default:
			w.set(c, x, &fVal{taint: v(x.X).flat()})
		}
	case *ssa.BinOp:
		t := v(x.X).flat() | v(x.Y).flat()
		switch x.Op {
		case token.EQL, token.NEQ:
			// comparing strings, structs and arrays compares their contents
		}
		w.set(c, x, &fVal{taint: t})
	case *ssa.Phi:
		for _, e := range x.Edges {
			w.set(c, x, v(e))
		}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		w.set(c, x.(ssa.Value), v(*in.Operands(nil)[0]))
	case *ssa.SliceToArrayPointer:
		w.set(c, x, v(x.X))
	case *ssa.Convert:
		w.convert(c, x, x.X, x.Type())
	case *ssa.MultiConvert:
		w.convert(c, x, x.X, x.Type())
	case *ssa.Slice:
		s := v(x.X)
		r := &fVal{taint: s.taint}
		full := x.Max != nil && x.High != nil && (x.Max == x.High || sameConst(x.Max, x.High))
		for e := range s.elems {
			e.full = full
			e.dyn = nil
			w.add(r, e)
		}
		w.set(c, x, r)
	case *ssa.MakeInterface:
		s := v(x.X)
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			r := &fVal{}
			for e := range s.elems {
				e.dyn = x.X.Type()
				w.add(r, e)
			}
			w.set(c, x, r)
			return
		}
		o := w.allocAt(c, x, 0, "value of type "+x.X.Type().String(), x.X.Type())
		e := fElem{obj: o, dyn: x.X.Type()}
		w.joinCell(e, s)
		w.set(c, x, ptrVal(e))
	case *ssa.TypeAssert:
		r := w.assertTo(v(x.X), x.AssertedType)
		if x.CommaOk {
			t := &fVal{}
			*t.kid(0) = *r
			r = t
		}
		w.set(c, x, r)
	case *ssa.Range:
		w.set(c, x, v(x.X))
	case *ssa.Next:
		s := v(x.Iter)
		t := &fVal{}
		if x.IsString {
			t.kid(1)
			t.kid(2).taint = s.taint
		} else {
			for e := range s.elems {
				m := w.readCell(e)
				fjoin(t.kid(1), partOf(m, stepKey))
				fjoin(t.kid(2), partOf(m, stepElem))
			}
		}
		w.set(c, x, t)
	case *ssa.Store:
		w.store(c, x, v(x.Addr), v(x.Val), "store")
	case *ssa.MapUpdate:
		for e := range v(x.Map).elems {
			w.noteWrite(x, e, "map update")
			w.joinCell(fElem{obj: e.obj, path: e.path + string([]byte{stepElem})}, v(x.Value))
			w.joinCell(fElem{obj: e.obj, path: e.path + string([]byte{stepKey})}, v(x.Key))
		}
	case *ssa.Send:
		for e := range v(x.Chan).elems {
			w.noteWrite(x, e, "send")
			w.joinCell(fElem{obj: e.obj, path: e.path + string([]byte{stepElem})}, v(x.X))
		}
	case *ssa.Select:
		r := &fVal{}
		for i, s := range x.States {
			for e := range v(s.Chan).elems {
				if s.Dir == types.SendOnly {
					w.noteWrite(x, e, "send")
					w.joinCell(fElem{obj: e.obj, path: e.path + string([]byte{stepElem})}, v(s.Send))
				} else {
					fjoin(r.kid(byte(2+i)), partOf(w.readCell(e), stepElem))
				}
			}
		}
		w.set(c, x, r)
	case *ssa.Return:
		r := &fVal{}
		if len(x.Results) == 1 {
			fjoin(r, v(x.Results[0]))
		} else {
			for i, y := range x.Results {
				fjoin(r.kid(byte(i)), v(y))
			}
		}
		if fjoin(c.ret, r) {
			w.changed = true
		}
	case *ssa.Panic:
		w.sink("panic", in, v(x.X))
	case *ssa.Call:
		if r := w.call(c, x, &x.Call); r != nil {
			w.set(c, x, r)
		}
	case *ssa.Defer:
		w.call(c, x, &x.Call)
	case *ssa.Go:
		w.call(c, x, &x.Call)
	}
}

func sameConst(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
}

func partOf(v *fVal, k byte) *fVal {
	r := &fVal{taint: v.taint}
	if x := v.kids[k]; x != nil {
		fjoin(r, x)
	}
	return r
}

func (w *Flow) convert(c *fCtx, x ssa.Value, from ssa.Value, t types.Type) {
	s := c.val(w, from)
	_, toSlice := t.Underlying().(*types.Slice)
	_, fromSlice := from.Type().Underlying().(*types.Slice)
	switch {
	case toSlice && !fromSlice: // string to bytes
		o := w.allocAt(c, x.(ssa.Instruction), 0, "conversion", t)
		y := &fVal{}
		y.kid(stepElem).taint = s.flat()
		w.joinCell(fElem{obj: o}, y)
		w.set(c, x, ptrVal(fElem{obj: o}))
	case fromSlice && !toSlice: // bytes to string
		t := s.taint
		for e := range s.elems {
			t |= w.readCell(e).flat()
		}
		w.set(c, x, &fVal{taint: t})
	default:
		w.set(c, x, s)
	}
}

func (w *Flow) assertTo(s *fVal, t types.Type) *fVal {
	r := &fVal{}
	if it, ok := t.Underlying().(*types.Interface); ok {
		for e := range s.elems {
			if e.dyn == nil || types.Implements(e.dyn, it) {
				w.add(r, e)
			}
		}
		return r
	}
	_, ptr := t.Underlying().(*types.Pointer)
	for e := range s.elems {
		if e.dyn == nil || !types.Identical(e.dyn, t) {
			continue
		}
		if ptr {
			e.dyn = nil
			w.add(r, e)
		} else {
			fjoin(r, w.readCell(e))
		}
	}
	return r
}

func (w *Flow) sink(kind string, in ssa.Instruction, vs ...*fVal) {
	w.nsink++
	if !w.init {
		w.sinks[in]++
	}
	var t uint8
	for _, v := range vs {
		w.reach(v, w.touch)
		t |= w.deep(v)
	}
	if t != 0 {
		w.event(kind, in, nil, "", t, kind)
	}
}

// ---- calls ---------------------------------------------------------------------

func (w *Flow) call(c *fCtx, in ssa.Instruction, cc *ssa.CallCommon) *fVal {
	var args []*fVal
	for _, a := range cc.Args {
		args = append(args, c.val(w, a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return w.builtin(c, in, b.Name(), cc, args)
	}
	res := &fVal{}
	if cc.IsInvoke() {
		recv := c.val(w, cc.Value)
		ext := len(recv.elems) == 0
		for e := range recv.elems {
			if e.dyn == nil {
				ext = true
				continue
			}
			m := w.P.prog.LookupMethod(e.dyn, cc.Method.Pkg(), cc.Method.Name())
			if m == nil {
				ext = true
				continue
			}
			var rv *fVal
			if _, ok := e.dyn.Underlying().(*types.Pointer); ok {
				rv = ptrVal(fElem{obj: e.obj, path: e.path})
			} else {
				rv = w.readCell(e)
			}
			fjoin(res, w.enter(c, in, m, append([]*fVal{rv}, args...)))
		}
		if ext {
			fjoin(res, w.extInvoke(c, in, cc, recv, args))
		}
		return res
	}
	if fn := cc.StaticCallee(); fn != nil {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			for e := range c.val(w, mc).elems {
				fjoin(res, w.closure(c, in, e, args))
			}
			return res
		}
		return w.enter(c, in, fn, args)
	}
	for e := range c.val(w, cc.Value).elems {
		if e.obj.fn != nil {
			fjoin(res, w.closure(c, in, e, args))
		} else {
			w.unknownCall(in, "function value", args)
			w.fillResult(c, in, res, cc.Signature().Results())
		}
	}
	return res
}

func (w *Flow) closure(c *fCtx, in ssa.Instruction, e fElem, args []*fVal) *fVal {
	fn := e.obj.fn
	for i := range fn.FreeVars {
		args = append(args, w.readCell(fElem{obj: e.obj, path: string([]byte{byte(i)})}))
	}
	return w.enter(c, in, fn, args)
}

func (w *Flow) enter(c *fCtx, in ssa.Instruction, fn *ssa.Function, args []*fVal) *fVal {
	if !w.inside(fn) {
		return w.library(c, in, fn, args)
	}
	var k *fCtx
	for p := c; p != nil; p = p.parent {
		if p.fn == fn {
			k = p
			k.folded = true
			break
		}
	}
	if k == nil {
		key := fKey{in: in, fn: fn}
		if k = c.kids[key]; k == nil {
			k = w.newCtx(c, in, fn)
			c.kids[key] = k
			w.changed = true
		}
	}
	i := 0
	for _, p := range fn.Params {
		if i < len(args) {
			w.set(k, p, args[i])
		}
		i++
	}
	for _, p := range fn.FreeVars {
		if i < len(args) {
			w.set(k, p, args[i])
		}
		i++
	}
	w.run(k)
	return k.ret
}

func (w *Flow) builtin(c *fCtx, in ssa.Instruction, name string, cc *ssa.CallCommon, args []*fVal) *fVal {
	res := &fVal{}
	switch name {
	case "append":
		o := w.allocAt(c, in, 0, "append", cc.Args[0].Type())
		n := fElem{obj: o}
		add := &fVal{}
		for e := range args[0].elems {
			fjoin(add, w.readCell(e))
		}
		if len(args) > 1 {
			src := &fVal{}
			for e := range args[1].elems {
				fjoin(src, w.readCell(e))
			}
			if t := args[1].taint; t != 0 { // string...
				src.kid(stepElem).taint |= t
			}
			fjoin(add, src)
			for e := range args[0].elems {
				w.add(res, fElem{obj: e.obj, path: e.path})
				if e.full || isEmptyConst(cc.Args[1]) {
					continue
				}
				w.noteWrite(in, e, "append to its spare capacity")
				w.joinCell(e, src)
			}
		}
		for _, a := range args {
			w.noteCopy(ptrVal(n), a)
			w.noteCopy(args[0], a)
		}
		w.joinCell(n, add)
		w.add(res, n)
		res.taint = args[0].taint
	case "copy":
		w.noteCopy(args[0], args[1])
		src := &fVal{}
		for e := range args[1].elems {
			fjoin(src, w.readCell(e))
		}
		if t := args[1].taint; t != 0 {
			src.kid(stepElem).taint |= t
		}
		for e := range args[0].elems {
			w.noteWrite(in, e, "copy")
			w.joinCell(e, src)
		}
	case "delete", "clear":
		for e := range args[0].elems {
			w.noteWrite(in, e, name)
		}
	case "print", "println":
		w.sink("print", in, args...)
	case "len", "cap", "recover", "close":
	case "min", "max", "real", "imag", "complex":
		for _, a := range args {
			res.taint |= a.flat()
		}
	default:
		for _, a := range args {
			fjoin(res, a)
		}
	}
	return res
}

func isEmptyConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && (c.Value == nil || c.Value.ExactString() == `""`)
}

func (w *Flow) unknownCall(in ssa.Instruction, name string, args []*fVal) {
	w.unknown[name] = true
	var t uint8
	for _, a := range args {
		t |= w.deep(a)
	}
	for _, a := range args {
		w.reach(a, func(o *fObj) {
			if o.fn == nil {
				w.noteWrite(in, fElem{obj: o}, "passed to "+name+", which is not known not to write")
			}
		})
	}
}

// fillResult: fresh results of a library call, with the given taint
func (w *Flow) fillResult(c *fCtx, in ssa.Instruction, res *fVal, rs *types.Tuple, taints ...uint8) {
	var t uint8
	for _, x := range taints {
		t |= x
	}
	one := func(v *fVal, rt types.Type, n int) {
		switch u := rt.Underlying().(type) {
		case *types.Basic:
			v.taint |= t
		case *types.Slice, *types.Map, *types.Pointer, *types.Interface, *types.Chan:
			o := w.allocAt(c, in, 100+n, "result of "+calleeName(in), rt)
			_ = u
			k := &fVal{}
			if types.Identical(rt, errorType) {
				w.add(v, fElem{obj: o})
				return
			}
			switch u.(type) {
			case *types.Slice, *types.Map:
				k.kid(stepElem).taint = t
			default:
				k.taint = t
			}
			w.joinCell(fElem{obj: o}, k)
			w.add(v, fElem{obj: o})
		default:
			v.taint |= t
		}
	}
	switch rs.Len() {
	case 0:
	case 1:
		one(res, rs.At(0).Type(), 0)
	default:
		for i := 0; i < rs.Len(); i++ {
			one(res.kid(byte(i)), rs.At(i).Type(), i)
		}
	}
}

var errorType = types.Universe.Lookup("error").Type()

func calleeName(in ssa.Instruction) string {
	if ci, ok := in.(ssa.CallInstruction); ok {
		cc := ci.Common()
		if cc.IsInvoke() {
			return cc.Method.FullName()
		}
		if fn := cc.StaticCallee(); fn != nil {
			return fn.String()
		}
	}
	return "a call"
}

func (w *Flow) extInvoke(c *fCtx, in ssa.Instruction, cc *ssa.CallCommon, recv *fVal, args []*fVal) *fVal {
	m := cc.Method
	w.ext[m.FullName()]++
	res := &fVal{}
	rt := w.content(recv)
	w.reach(recv, w.touch)
	pkg := ""
	if m.Pkg() != nil {
		pkg = m.Pkg().Path()
	}
	if n, ok := cc.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		pkg = n.Obj().Pkg().Path()
	}
	if pkg == w.P.tpkg.Path() {
		// somebody else's engine, signer, generator...: its results are its own
		rs := m.Type().(*types.Signature).Results()
		k := fKey{in: in, n: 200}
		o := c.allocs[k]
		if o == nil {
			o = w.obj("result of "+m.FullName()+" of another package", ownCaller, nil)
			c.allocs[k] = o
			if rs.Len() == 1 {
				w.fill(o.root, rs.At(0).Type(), "result of "+m.Name(), ownCaller, nil, 3)
			} else {
				for i := 0; i < rs.Len(); i++ {
					w.fill(o.root.kid(byte(i)), rs.At(i).Type(), "result of "+m.Name(), ownCaller, nil, 3)
				}
			}
		}
		return o.root
	}
	switch m.Name() {
	case "Error", "String":
		w.fillResult(c, in, res, cc.Signature().Results(), w.deep(recv))
		return res
	case "Read":
		if !w.ownSource(recv) {
			w.chance(in, "draws from a reader")
		}
		w.writeAll(in, args[0], tRandom, "read into it")
	case "Write", "WriteString", "WriteByte":
		w.writeAll(in, recv, w.content(args[0]), "written to")
		if pkg != "hash" && w.isOutput(recv) {
			w.sink("print", in, args[0])
		}
		w.fillResult(c, in, res, cc.Signature().Results())
		return res
	case "Reset":
		w.writeAll(in, recv, 0, "reset")
	case "Sum": // hash.Hash
		w.appendTo(c, in, res, args[0], rt)
		return res
	case "Seal", "Open":
		w.appendTo(c, in, res.kid(0), args[0], rt|w.content(args[2]))
		return res.kid(0)
	case "CryptBlocks", "XORKeyStream", "Encrypt", "Decrypt":
		w.writeAll(in, args[0], rt|w.content(args[1]), "written by "+m.Name())
	case "BlockSize", "Size", "NonceSize", "Overhead", "Len", "Less", "Timeout", "Unwrap":
	default:
		w.unknownCall(in, m.FullName(), append([]*fVal{recv}, args...))
	}
	var t []uint8
	switch m.Name() {
	case "BlockSize", "Size", "Read":
	default:
		t = append(t, rt)
		for _, a := range args {
			t = append(t, w.deep(a))
		}
	}
	w.fillResult(c, in, res, cc.Signature().Results(), t...)
	return res
}

// isOutput: may the writer be something other than a hash, a builder or a buffer of the library's own?
func (w *Flow) isOutput(v *fVal) bool {
	for e := range v.elems {
		if e.obj.own != ownFresh || e.obj.kind == "" && e.dyn == nil {
			return true
		}
	}
	return len(v.elems) == 0
}

func (w *Flow) appendTo(c *fCtx, in ssa.Instruction, res, dst *fVal, taint uint8) {
	src := &fVal{}
	src.kid(stepElem).taint = taint
	o := w.allocAt(c, in, 0, "result of "+calleeName(in), nil)
	w.joinCell(fElem{obj: o}, src)
	w.add(res, fElem{obj: o})
	for e := range dst.elems {
		w.joinCell(fElem{obj: o}, w.readCell(e))
		w.add(res, fElem{obj: e.obj, path: e.path})
		if !e.full {
			w.noteWrite(in, e, "append to its spare capacity")
			w.joinCell(e, src)
		}
	}
}

// ---- the library ---------------------------------------------------------------

// which argument a library function writes through (-1: none)
var libWrites = map[string][]int{
	"io.ReadFull": {1}, "io.ReadAtLeast": {1}, "crypto/rand.Read": {0}, "math/rand.Read": {0},
	"encoding/hex.Decode": {0}, "encoding/hex.Encode": {0}, "encoding/base64.Encode": {0},
	"crypto/subtle.ConstantTimeCopy": {1}, "crypto/subtle.XORBytes": {0},
	"sort.Slice": {0}, "sort.SliceStable": {0}, "sort.Sort": {0}, "sort.Ints": {0}, "sort.Strings": {0},
	"slices.Reverse": {0}, "slices.Sort": {0}, "slices.SortFunc": {0},
	"encoding/binary.Write": {0}, "encoding/binary.Read": {2},
	"golang.org/x/crypto/sha3.ShakeSum256": {0}, "golang.org/x/crypto/sha3.ShakeSum128": {0},
}

var libPure = map[string]bool{
	"bytes": true, "strings": true, "encoding/hex": true, "encoding/base64": true, "encoding/binary": true, "crypto/aes": true, "crypto/cipher": true,
	"crypto/sha256": true, "crypto/sha512": true, "crypto/subtle": true, "crypto/hmac": true, "errors": true, "fmt": true, "math": true, "math/big": true, "math/bits": true,
	"strconv": true, "sort": true, "slices": true, "maps": true, "cmp": true, "unicode": true, "unicode/utf8": true, "hash": true, "io": true, "os": true, "log": true, "sync": true, "sync/atomic": true,
	"golang.org/x/crypto/sha3": true, "golang.org/x/crypto/ripemd160": true, "crypto/sha3": true, "crypto/rand": true, "math/rand": true, "reflect": true, "runtime": true, "time": true, "context": true,
	"github.com/pkg/errors": true, "hash/crc32": true, "hash/fnv": true, "crypto": true, "bufio": true, "iter": true, "unique": true,
}

func (w *Flow) library(c *fCtx, in ssa.Instruction, fn *ssa.Function, args []*fVal) *fVal {
	org := fn
	if o := fn.Origin(); o != nil {
		org = o
	}
	full := org.String()
	pkg := ""
	if org.Pkg != nil {
		pkg = org.Pkg.Pkg.Path()
	} else if o := org.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	name := org.Name()
	w.ext[full]++
	res := &fVal{}
	sig := fn.Signature
	var all []uint8
	for _, a := range args {
		w.reach(a, w.touch)
		all = append(all, w.deep(a))
	}
	fill := func(t ...uint8) *fVal {
		w.fillResult(c, in, res, sig.Results(), t...)
		return res
	}
	markResult := func(kind string) {
		for i := 0; i < 3; i++ {
			if o := c.allocs[fKey{in: in, n: 100 + i}]; o != nil {
				o.kind = kind
			}
		}
	}
	recvPtr := sig.Recv() != nil
	if name == "init" {
		return res
	}
	if s := chanceCall(pkg, name, full); s != "" {
		w.chance(in, s)
	}
	if !libPure[pkg] {
		w.unknownCall(in, full, args)
		return fill(all...)
	}
	if ix, ok := libWrites[full]; ok {
		t := uint8(0)
		for i, x := range all {
			wr := false
			for _, j := range ix {
				wr = wr || i == j
			}
			if !wr {
				t |= x
			}
		}
		if strings.Contains(full, "Read") {
			t |= tRandom
			if pkg == "io" && !w.ownSource(args[0]) {
				w.chance(in, "draws from a reader")
			}
		}
		for _, i := range ix {
			w.writeAll(in, args[i], t, "written by "+full)
		}
		return fill()
	}
	switch pkg {
	case "fmt":
		switch {
		case strings.HasPrefix(name, "Print"):
			w.sink("print", in, args...)
			return fill()
		case strings.HasPrefix(name, "Fprint"):
			w.writeAll(in, args[0], all[1]|all[len(all)-1], "written to")
			if w.isOutput(args[0]) {
				w.sink("print", in, args[1:]...)
			}
			return fill()
		case name == "Errorf":
			w.sink("error", in, args...)
			w.fillResult(c, in, res, sig.Results(), all...)
			return w.errorOf(c, in, all)
		case strings.HasPrefix(name, "Sscan"), strings.HasPrefix(name, "Scan"), strings.HasPrefix(name, "Fscan"):
			w.unknownCall(in, full, args)
			return fill(all...)
		case strings.HasPrefix(name, "Append"):
			w.appendTo(c, in, res, args[0], all[len(all)-1])
			return res
		}
		return fill(all...)
	case "errors", "github.com/pkg/errors":
		if name == "Is" || name == "As" || name == "Unwrap" || name == "Cause" {
			if name == "As" {
				w.writeAll(in, args[1], all[0], "written by "+full)
			}
			for e := range args[0].elems {
				if types.Identical(sig.Results().At(0).Type(), errorType) {
					w.add(res, e)
				}
			}
			return res
		}
		w.sink("error", in, args...)
		return w.errorOf(c, in, all)
	case "log":
		w.sink("print", in, args...)
		if strings.HasPrefix(name, "Panic") || strings.HasPrefix(name, "Fatal") {
			w.sink("panic", in, args...)
		}
		return fill()
	case "os":
		if strings.Contains(name, "Write") || name == "Setenv" {
			w.sink("print", in, args...)
		}
		return fill()
	case "math/big":
		if recvPtr && len(args) > 0 {
			rs := sig.Results()
			t := uint8(0)
			for _, x := range all {
				t |= x
			}
			switch {
			case name == "FillBytes":
				w.writeAll(in, args[1], t, "written by "+full)
				fjoin(res, args[1])
				return res
			case name == "Bits":
				fjoin(res, args[0])
				return res
			case rs.Len() > 0 && types.Identical(rs.At(0).Type(), sig.Recv().Type()):
				w.writeAll(in, args[0], t, "written by "+full)
				for e := range args[0].elems {
					// a number that was copied as a struct shares its words
					w.writeAll(in, w.cell(e).kid(1), t, "written by "+full)
				}
				d := res
				if rs.Len() > 1 {
					d = res.kid(0)
				}
				fjoin(d, args[0])
				if name == "DivMod" || name == "QuoRem" {
					w.writeAll(in, args[3], t, "written by "+full)
					fjoin(res.kid(1), args[3])
				}
				if name == "GCD" {
					w.writeAll(in, args[1], t, "written by "+full)
					w.writeAll(in, args[2], t, "written by "+full)
				}
				if name == "SetBits" {
					for e := range args[0].elems {
						w.joinCell(e, args[1])
					}
				}
				return res
			case name == "GobDecode" || strings.HasPrefix(name, "Unmarshal") || name == "Scan":
				w.writeAll(in, args[0], t, "written by "+full)
			}
		}
		return fill(all...)
	case "encoding/binary":
		if strings.HasPrefix(name, "Put") {
			i := 0
			if recvPtr {
				i = 1
			}
			w.writeAll(in, args[i], all[len(all)-1], "written by "+full)
			return fill()
		}
		if strings.HasPrefix(name, "Append") {
			i := 0
			if recvPtr {
				i = 1
			}
			w.appendTo(c, in, res, args[i], all[len(all)-1])
			return res
		}
		return fill(all...)
	case "strings", "bytes":
		if recvPtr {
			switch name {
			case "Len", "Cap", "String":
				return fill(all...)
			case "Bytes":
				// the buffer's own bytes
				for e := range args[0].elems {
					w.add(res, e)
				}
				return res
			default:
				t := uint8(0)
				for _, x := range all {
					t |= x
				}
				w.writeAll(in, args[0], t, "written by "+full)
				return fill(all...)
			}
		}
		switch name {
		case "NewBuffer", "NewReader", "NewBufferString":
			fill(all...)
			markResult("builder")
			for e := range args[0].elems {
				w.add(res, e)
			}
			return res
		case "Equal", "Compare", "Contains", "HasPrefix", "HasSuffix", "Index", "IndexByte", "Clone", "Repeat", "Join", "ToUpper", "ToLower", "Count", "Map", "Replace", "ReplaceAll":
			return fill(all...)
		}
		fill(all...)
		w.alias(res, sig, args)
		return res
	case "slices":
		switch name {
		case "Clone", "Concat", "Repeat":
			// fresh, but the elements are shared
			fill(all...)
			for _, a := range args {
				for e := range a.elems {
					for r := range res.elems {
						if e.obj != r.obj {
							w.joinCell(r, w.readCell(e))
						}
					}
				}
			}
			return res
		}
		switch name {
		case "Equal", "Compare", "Contains", "Index", "Max", "Min":
			return fill(all...)
		}
		for _, a := range args {
			w.writeAll(in, a, 0, "passed to "+full)
		}
		fill(all...)
		w.alias(res, sig, args)
		return res
	case "sync", "sync/atomic", "reflect", "bufio", "maps", "sort", "context", "iter", "unique":
		if name == "Do" && pkg == "sync" {
			w.noteWrites(in, args[0], "sync.Once")
			for e := range args[1].elems {
				if e.obj.fn != nil {
					w.closure(c, in, e, nil)
				}
			}
			return res
		}
		if pkg == "sync" && (strings.HasSuffix(name, "Lock") || strings.HasSuffix(name, "Unlock")) {
			return res
		}
		if strings.HasPrefix(name, "Load") && pkg == "sync/atomic" {
			for e := range args[0].elems {
				fjoin(res, w.readCell(e))
			}
			return res
		}
		w.unknownCall(in, full, args)
		if pkg == "sync" && name == "Get" {
			for e := range args[0].elems {
				fjoin(res, w.readCell(e))
			}
		}
		return fill(all...)
	case "crypto/cipher", "crypto/aes", "crypto/sha256", "crypto/sha512", "golang.org/x/crypto/sha3", "golang.org/x/crypto/ripemd160", "crypto/sha3", "crypto/hmac", "hash/crc32", "hash/fnv":
		if recvPtr { // methods of concrete hashes
			switch name {
			case "Write":
				w.writeAll(in, args[0], all[1], "written to")
				return fill()
			case "Sum":
				w.appendTo(c, in, res, args[1], all[0])
				return res
			case "Reset":
				w.writeAll(in, args[0], 0, "reset")
				return res
			case "Read":
				w.writeAll(in, args[0], 0, "read from")
				w.writeAll(in, args[1], all[0], "read into it")
				return fill()
			case "BlockSize", "Size":
				return fill()
			}
			w.unknownCall(in, full, args)
			return fill(all...)
		}
		fill(all...)
		markResult("hash")
		return res
	case "io":
		fill(all...)
		if name == "WriteString" {
			w.writeAll(in, args[0], all[1], "written to")
			if w.isOutput(args[0]) {
				w.sink("print", in, args[1])
			}
			return res
		}
		if name == "ReadAll" {
			if !w.ownSource(args[0]) {
				w.chance(in, "draws from a reader")
			}
			return fill(tRandom)
		}
		w.alias(res, sig, args)
		return res
	}
	return fill(all...)
}

func (w *Flow) noteWrites(in ssa.Instruction, v *fVal, what string) {
	for e := range v.elems {
		w.noteWrite(in, e, what)
	}
}

// alias: results of the type of an argument may be (part of) the argument
func (w *Flow) alias(res *fVal, sig *types.Signature, args []*fVal) {
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		d := res
		if sig.Results().Len() > 1 {
			d = res.kid(byte(i))
		}
		switch rt.Underlying().(type) {
		case *types.Slice, *types.Pointer, *types.Interface, *types.Map:
			if types.Identical(rt, errorType) {
				continue
			}
			for _, a := range args {
				for e := range a.elems {
					w.add(d, fElem{obj: e.obj, path: e.path, dyn: e.dyn})
				}
			}
		}
	}
}

// errorOf: a new error whose text depends on the arguments
func (w *Flow) errorOf(c *fCtx, in ssa.Instruction, ts []uint8) *fVal {
	o := w.allocAt(c, in, 100, "error", nil)
	k := &fVal{}
	for _, t := range ts {
		k.taint |= t
	}
	w.joinCell(fElem{obj: o}, k)
	return ptrVal(fElem{obj: o})
}

// ---- entry points ----------------------------------------------------------------

type fEntry struct {
	fn     *ssa.Function
	name   string
	args   []*fVal
	ret    *fVal
	plain  bool // the first slice argument is a plaintext
	passes int
}

// runInit evaluates the package initialisers
func (w *Flow) runInit() {
	w.init = true
	w.entry = "init"
	var roots []*ssa.Function
	for _, p := range w.P.prog.AllPackages() {
		if w.analysed(p) {
			w.P.build(p)
			if f := p.Func("init"); f != nil {
				roots = append(roots, f)
			}
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].String() < roots[j].String() })
	var cs []*fCtx
	for _, f := range roots {
		cs = append(cs, w.newCtx(nil, nil, f))
	}
	w.fix(cs)
	w.init = false
}

func (w *Flow) fix(cs []*fCtx) int {
	n := 0
	for {
		n++
		w.changed = false
		for _, c := range cs {
			w.run(c)
		}
		if !w.changed {
			return n
		}
		if n > 200 {
			panic(undecided("the effect analysis does not settle"))
		}
	}
}

func (w *Flow) runEntry(fn *ssa.Function) *fEntry {
	e := &fEntry{fn: fn, name: fnName(fn)}
	w.entry = e.name
	c := w.newCtx(nil, nil, fn)
	recv := ""
	if r := fn.Signature.Recv(); r != nil {
		recv, _ = namedOf(r.Type())
	}
	makesKey := false // what a private key is made of
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		if n, _ := namedOf(fn.Signature.Results().At(i).Type()); n == "PrivateKey" && recv == "" {
			makesKey = true
		}
	}
	for i, p := range fn.Params {
		v := &fVal{}
		w.fill(v, p.Type(), "argument "+p.Name(), ownCaller, nil, 0)
		if i > 0 || recv == "" {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isByte(s.Elem()) && strings.HasPrefix(fn.Name(), "Encrypt") {
				w.taintAll(v, tPlain)
			}
			if makesKey {
				w.taintAll(v, tSecret)
			}
		}
		e.args = append(e.args, v)
		w.set(c, p, v)
	}
	e.passes = w.fix([]*fCtx{c})
	e.ret = c.ret
	return e
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

// taintAll marks a value and what it leads to directly
func (w *Flow) taintAll(v *fVal, t uint8) {
	v.taint |= t
	for _, k := range v.kids {
		w.taintAll(k, t)
	}
	for e := range v.elems {
		if _, ok := e.obj.typ.Underlying().(*types.Slice); ok {
			w.cell(e).kid(stepElem).taint |= t
		} else {
			w.cell(e).taint |= t
		}
	}
}
