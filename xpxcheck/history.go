package main

import (
	"fmt"
	"sort"
	"strings"
)

// A call must behave in the same way whatever was called before. Every operation is run on freshly made objects; if it
// leaves nothing behind in an object that existed before the call (the receiver, its keys, the arguments, a package
// variable), then, by induction, every later call starts from a state like the first. If it does leave something behind,
// the call is analysed again after an earlier call with the same and with other arguments, and what it does then is held
// against the same specification.

// kept lists the objects that existed in st and that have other contents in o.
func (c *Checker) kept(st *State, o Outcome) []int {
	var r []int
	for id, v := range o.st.mem {
		old, ok := st.mem[id]
		if !ok {
			old, ok = c.e.base[id]
		}
		if ok && !valEq(old, v) {
			r = append(r, id)
		}
	}
	sort.Ints(r)
	return r
}

func (c *Checker) labels(ids []int) string {
	var r []string
	for _, id := range ids {
		r = append(r, c.e.objs[id].label)
	}
	return clip(strings.Join(r, ", "))
}

const historyDepth = 3

// hist: the outcomes of the call, on its own and after earlier calls.
func (c *Checker) hist(run callee) callee {
	return func(st *State, args ...Val) []Outcome {
		st0 := st.clone()
		res := run(st.clone(), args...)
		starts := c.after(st0, res)
		if len(starts) == 0 {
			return res
		}
		for depth := 1; len(starts) > 0; depth++ {
			if depth > historyDepth {
				panic(undecided("every call changes %s, which exists before the call: what later calls do is not established", c.labels(starts[0].changed)))
			}
			if depth == 1 {
				// an earlier call with other arguments
				s, other := c.otherArgs(st0.clone(), args)
				if other != nil {
					starts = append(starts, c.after(s.clone(), run(s.clone(), other...))...)
				}
			}
			if len(starts) > 64 {
				panic(undecided("%d states after earlier calls", len(starts)))
			}
			var next []keptState
			for _, s := range starts {
				outs := run(s.st.clone(), args...)
				res = append(res, outs...)
				next = append(next, c.after(s.st, outs)...)
			}
			starts = next
		}
		return res
	}
}

type keptState struct {
	st      *State
	changed []int
}

// after: the states that the outcomes leave to later calls, as far as they are not like st.
func (c *Checker) after(st *State, outs []Outcome) []keptState {
	var r []keptState
	for _, o := range outs {
		if o.st == nil || o.pan != nil {
			continue
		}
		if ch := c.kept(st, o); len(ch) > 0 {
			s := o.st.clone()
			s.ev = nil
			s.epoch++
			r = append(r, keptState{s, ch})
		}
	}
	return r
}

// otherArgs: arguments of the same kinds with other contents.
func (c *Checker) otherArgs(st *State, args []Val) (*State, []Val) {
	var r []Val
	any := false
	fresh := func(s SliceV, i int) (Val, bool) {
		if s.obj == 0 {
			return s, false
		}
		name := fmt.Sprintf("argument %d of an earlier call", i)
		if n, ok := normPoly(s.len, st.facts).isConst(); ok {
			if n.Int64() > 256 {
				return s, false
			}
			return c.newSlice(st, name, "caller", symBytes(name, int(n.Int64()))), true
		}
		b, _, _ := c.anyBytes(st, name)
		return b, true
	}
	for i, a := range args {
		switch x := a.(type) {
		case SliceV:
			v, ok := fresh(x, i)
			any = any || ok
			a = v
		case PtrV:
			if x.obj == 0 {
				break
			}
			sv, ok := c.e.load(st, x).(StructV)
			if !ok {
				break
			}
			nv := StructV{append([]Val(nil), sv.f...)}
			ch := false
			for j, f := range sv.f {
				if s, ok := f.(SliceV); ok {
					v, ok := fresh(s, 16*(i+1)+j)
					nv.f[j] = v
					ch = ch || ok
				}
			}
			if ch {
				o := c.e.objs[x.obj]
				a = c.ptrTo(st, fmt.Sprintf("argument %d of an earlier call", i), "caller", nv, o.typ)
				any = true
			}
		}
		r = append(r, a)
	}
	if !any {
		return st, nil
	}
	return st, r
}
