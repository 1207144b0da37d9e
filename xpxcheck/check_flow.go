package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The effect and taint properties (C20, C21, C22), decided by the analysis in flow.go for every exported function and method.

type flowRes struct {
	w       *Flow
	entries []*fEntry
	list    []*fEvent
}

// entryPoints: what a user of the package can call
func entryPoints(P *Program) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && P.body(f) {
			seen[f] = true
			r = append(r, f)
		}
	}
	for _, m := range P.pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			if token.IsExported(x.Name()) {
				add(x)
			}
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := P.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					f, ok := ms.At(i).Obj().(*types.Func)
					if !ok || !f.Exported() || f.Pkg() != P.tpkg {
						continue
					}
					add(P.prog.FuncValue(f))
				}
			}
		}
	}
	sort.Slice(r, func(i, j int) bool { return fnName(r[i]) < fnName(r[j]) })
	return r
}

func (c *Checker) flow() *flowRes {
	if r, ok := c.facts["flow"].(*flowRes); ok {
		return r
	}
	w := newFlow(c.P)
	w.runInit()
	r := &flowRes{w: w}
	for _, f := range entryPoints(c.P) {
		r.entries = append(r.entries, w.runEntry(f))
	}
	for _, e := range w.events {
		r.list = append(r.list, e)
	}
	sort.Slice(r.list, func(i, j int) bool { return r.list[i].key() < r.list[j].key() })
	c.facts["flow"] = r
	return r
}

func (e *fEvent) key() string {
	l := ""
	if e.obj != nil {
		l = e.obj.label
	}
	return fmt.Sprintf("%s|%s|%s|%09d|%s|%d", e.kind, e.entry, fnName(e.in.Parent()), e.in.Pos(), l, e.taint)
}

func taintDesc(t uint8) string {
	var l []string
	if t&tSecret != 0 {
		l = append(l, "a private key")
	}
	if t&tPlain != 0 {
		l = append(l, "a plaintext")
	}
	if t&tRandom != 0 {
		l = append(l, "the randomness source")
	}
	return strings.Join(l, " and ")
}

// valueKinds: the types whose values a caller passes in, or gets back, as data
var valueKinds = map[string]bool{"KeyPair": true, "PrivateKey": true, "PublicKey": true, "Signature": true, "Ed25519EncodedFieldElement": true, "Ed25519EncodedGroupElement": true}

func (w *Flow) where(e *fEvent) string {
	s := fnName(e.in.Parent())
	pos := e.in.Pos()
	if x, ok := e.in.(*ssa.If); ok && !pos.IsValid() {
		pos = x.Cond.Pos()
	}
	if p := w.P.prog.Fset.Position(pos); p.IsValid() {
		s += fmt.Sprintf(" (%s:%d)", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
	}
	return s
}

// ownReceiver: a method of a group element that writes the element it is called on, and returns nothing
func (r *flowRes) ownReceiver(e *fEvent) bool {
	for _, x := range r.entries {
		if x.name != e.entry {
			continue
		}
		s := x.fn.Signature
		if s.Recv() == nil || s.Results().Len() > 0 {
			return false
		}
		n, _ := namedOf(s.Recv().Type())
		if valueKinds[n] || len(x.args) == 0 {
			return false
		}
		if _, ok := s.Recv().Type().Underlying().(*types.Pointer); !ok || n != "Ed25519GroupElement" && n != "Ed25519FieldElement" {
			return false
		}
		in := false
		r.w.reach(x.args[0], func(o *fObj) { in = in || o == e.obj })
		return in
	}
	return false
}

func (e *fEvent) objDesc() string {
	s := e.obj.label
	if len(e.obj.under) > 0 {
		s += " (in " + strings.Join(e.obj.under, ".") + ")"
	}
	return s
}

// one obligation per kind of event and construct, with the entry points that lead there
func (c *Checker) flowReport(rule string, r *flowRes, sites map[ssa.Instruction]int, what string, sel func(e *fEvent) string) int {
	n := 0
	bad := map[ssa.Instruction]bool{}
	byKey := map[string][]string{}
	first := map[string]*fEvent{}
	text := map[string]string{}
	var order []string
	for _, e := range r.list {
		s := sel(e)
		if s == "" {
			continue
		}
		bad[e.in] = true
		k := fnName(e.in.Parent()) + ": " + s
		if first[k] == nil {
			first[k] = e
			order = append(order, k)
			text[k] = s
		}
		byKey[k] = append(byKey[k], e.entry)
		n++
	}
	var good []string
	for in := range sites {
		if !bad[in] {
			good = append(good, r.w.where(&fEvent{in: in}))
		}
	}
	sort.Strings(good)
	for _, g := range good {
		c.ob(what, g, true, "")
	}
	for _, k := range order {
		es := byKey[k]
		sort.Strings(es)
		var u []string
		for i, x := range es {
			if i == 0 || x != es[i-1] {
				u = append(u, x)
			}
		}
		if len(u) > 6 {
			u = append(u[:6], fmt.Sprintf("%d more", len(u)-6))
		}
		c.fail(rule, fnName(first[k].in.Parent()), "%s: %s; reached from %s", r.w.where(first[k]), text[k], strings.Join(u, ", "))
	}
	return n
}

func (c *Checker) flowEvidence(r *flowRes) {
	w := r.w
	for f, n := range w.acts {
		c.e.funcs[f] += n
	}
	c.e.stats.instrs += w.ninstr
	c.notes[fmt.Sprintf("effect analysis: %d entry points, %d functions, %d activations (call paths), %d instruction evaluations, %d stores, %d loads, %d sink calls, %d distinct library functions", len(r.entries), len(w.seen), w.nctx, w.ninstr, w.nstore, w.nread, w.nsink, len(w.ext))] = true
}

func init() {
	reg("flow.run", nil, func(c *Checker) {
		r := c.flow()
		c.flowEvidence(r)
		c.ob("entry points", "the exported functions and methods", len(r.entries) > 0, "none found")
		for _, e := range r.entries {
			c.ob("analysed", e.name, true, "")
		}
	})
	reg("flow.caller", []string{"flow.run"}, func(c *Checker) {
		r := c.flow()
		c.flowReport("writes into caller data", r, r.w.writes, "writing construct leaves the caller's data alone", func(e *fEvent) string {
			if e.kind != "write" || e.obj.own != ownCaller || r.ownReceiver(e) || !c.P.isData(e.obj) {
				return ""
			}
			return e.what + " into memory of the caller: " + e.objDesc()
		})
		// what is handed out
		for _, e := range r.entries {
			rs := e.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				v := e.ret
				if rs.Len() > 1 {
					v = e.ret.kid(byte(i))
				}
				t := rs.At(i).Type()
				n, _ := namedOf(t)
				sl, isSlice := t.Underlying().(*types.Slice)
				if !valueKinds[n] && !(isSlice && isByte(sl.Elem())) {
					continue
				}
				bad := ""
				r.w.reach(v, func(o *fObj) {
					if o.own != ownGlobal || bad != "" {
						return
					}
					if o.typ == nil {
						if o.fn == nil {
							bad = o.label
						}
						return
					}
					if s, ok := o.typ.Underlying().(*types.Slice); ok && isByte(s.Elem()) {
						bad = o.label
					}
					if m, _ := namedOf(o.typ); valueKinds[m] {
						bad = o.label
					}
					if a, ok := o.typ.Underlying().(*types.Array); ok && isByte(a.Elem()) {
						bad = o.label
					}
				})
				c.ob("fresh result", e.name, bad == "", "result %d (%s) shares memory with the library's own state: %s", i, t, bad)
			}
		}
	})
	reg("flow.shared", []string{"flow.run"}, func(c *Checker) {
		r := c.flow()
		engines := engineTypes(c.P)
		c.ob("shared types", "the engines", len(engines) > 0, "no engine type found")
		c.flowReport("writes shared state", r, r.w.writes, "writing construct leaves shared state alone", func(e *fEvent) string {
			if e.kind != "write" || r.ownReceiver(e) {
				return ""
			}
			if e.obj.own == ownGlobal {
				return e.what + " into state that all calls share: " + e.objDesc()
			}
			if n, _ := namedOf(e.obj.typ); engines[n] {
				return e.what + " into an engine: " + e.objDesc()
			}
			for _, u := range e.obj.under {
				if engines[u] {
					return e.what + " into an engine: " + e.objDesc()
				}
			}
			if len(e.obj.under) > 0 || c.P.declares(e.obj.typ) {
				return e.what + " into an object that concurrent calls may share: " + e.objDesc()
			}
			return ""
		})
	})
	reg("flow.secrets", []string{"flow.run"}, func(c *Checker) {
		r := c.flow()
		gen := map[string]bool{}
		for _, e := range r.entries {
			rs := e.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				if n, _ := namedOf(rs.At(i).Type()); n == "KeyPair" || n == "PrivateKey" {
					gen[e.name] = true
				}
			}
		}
		secret := func(entry string, t uint8) uint8 {
			if !gen[entry] {
				t &^= tRandom
			}
			return t
		}
		c.flowReport("secret reaches a sink", r, r.w.sinks, "sink receives no secret", func(e *fEvent) string {
			if e.kind == "write" {
				return ""
			}
			t := secret(e.entry, e.taint)
			if t == 0 {
				return ""
			}
			return fmt.Sprintf("what is computed from %s goes into %s", taintDesc(t), map[string]string{"print": "printed output", "error": "an error", "panic": "a panic value"}[e.kind])
		})
		for _, e := range r.entries {
			recv := ""
			if x := e.fn.Signature.Recv(); x != nil {
				recv, _ = namedOf(x.Type())
			}
			rs := e.fn.Signature.Results()
			for i := 0; i < rs.Len(); i++ {
				v := e.ret
				if rs.Len() > 1 {
					v = e.ret.kid(byte(i))
				}
				t := rs.At(i).Type()
				if types.Identical(t, errorType) {
					x := secret(e.name, r.w.deep(v))
					c.ob("error results", e.name, x == 0, "the error depends on %s", taintDesc(x))
				}
			}
			switch e.fn.Name() {
			case "String", "GoString", "Error", "Format", "MarshalText", "MarshalJSON":
				if recv != "PrivateKey" {
					x := secret(e.name, r.w.deep(e.ret))
					c.ob("string forms", e.name, x == 0, "the string form of %s depends on %s", recv, taintDesc(x))
				}
			}
		}
	})
	reg("flow.fixed", []string{"flow.shared"}, func(c *Checker) {
		r := c.flow()
		// one obligation per operation: the constructs below it that draw on more than the arguments
		by := map[string][]*fEvent{}
		for _, e := range r.list {
			if e.kind == "chance" {
				by[e.entry] = append(by[e.entry], e)
			}
		}
		free := 0
		for _, e := range r.entries {
			if drawing(e.fn) {
				free++
				continue
			}
			for _, x := range by[e.name] {
				c.fail("depends on more than the arguments", fnName(x.in.Parent()), "%s: %s; reached from %s", r.w.where(x), x.what, e.name)
			}
			if len(by[e.name]) == 0 {
				c.ob("fixed by the arguments", e.name, true, "")
			}
		}
		c.notes[fmt.Sprintf("%d operations that exist to draw randomness are left out", free)] = true
	})
	reg("flow.dump", nil, func(c *Checker) {
		r := c.flow()
		n := map[string]int{}
		for _, e := range r.list {
			l := ""
			if e.obj != nil {
				l = fmt.Sprintf("%s own=%d under=%v typ=%v", e.obj.label, e.obj.own, e.obj.under, e.obj.typ)
			}
			k := fmt.Sprintf("%s %s: %s [%s] taint=%d", e.kind, fnName(e.in.Parent()), e.what, l, e.taint)
			n[k]++
			if n[k] == 1 {
				fmt.Println(k, "  e.g. from", e.entry)
			}
		}
		for _, e := range r.entries {
			fmt.Println("entry", e.name, e.passes)
		}
		fmt.Println("unknown", r.w.unknown)
		fmt.Println(r.w.nctx, r.w.ninstr, r.w.nstore, r.w.nsink, r.w.nread, len(r.w.seen))
		for k, v := range r.w.ext {
			fmt.Println("ext", k, v)
		}
	})
}

// drawing: the operations that exist to draw randomness
func drawing(f *ssa.Function) bool {
	n := f.Name()
	if strings.HasPrefix(n, "Encrypt") || strings.HasPrefix(n, "Generate") || strings.Contains(n, "Random") {
		return true
	}
	// a key pair made of no key at all
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if m, _ := namedOf(rs.At(i).Type()); m == "KeyPair" {
			for _, p := range f.Params {
				if k, _ := namedOf(p.Type()); valueKinds[k] {
					return false
				}
			}
			return true
		}
	}
	return false
}

// engineTypes: the types behind the interfaces that name an engine or a curve
func engineTypes(P *Program) map[string]bool {
	r := map[string]bool{}
	sc := P.tpkg.Scope()
	for _, in := range []string{"CryptoEngine", "Curve"} {
		o := sc.Lookup(in)
		if o == nil {
			continue
		}
		it, ok := o.Type().Underlying().(*types.Interface)
		if !ok {
			if _, st := o.Type().Underlying().(*types.Struct); st {
				r[in] = true
			}
			continue
		}
		r[in] = true
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			if types.Implements(tn.Type(), it) || types.Implements(types.NewPointer(tn.Type()), it) {
				r[n] = true
			}
		}
	}
	return r
}

// declares: a type of the package
func (P *Program) declares(t types.Type) bool {
	n, _ := namedOf(t)
	return n != "" && P.typ(n) != nil
}

// isData: a value that the caller passed in, rather than an object of the library (an engine, a signer...) itself
func (P *Program) isData(o *fObj) bool {
	data := func(n string) bool {
		return valueKinds[n] || n == "Ed25519GroupElement" || n == "Ed25519FieldElement"
	}
	n, _ := namedOf(o.typ)
	if data(n) {
		return true
	}
	own := P.declares(o.typ)
	for _, u := range o.under {
		if data(u) {
			return true
		}
		own = own || P.typ(u) != nil
	}
	return !own
}
