package main

import (
	"fmt"
)

// C33: the random helpers of MathUtils return the randomness of the system, fresh and whole, in the form they promise.

// randomTries: this many candidates that are no curve points are followed before one is
const randomTries = 2

// drawn runs a random helper; k checks the outcomes that do not panic. Panics are for failing sources (and for
// arguments that may be refused).
func (c *Checker) drawn(name, of string, args []Val, mayRefuse func(f *Facts) bool, k func(where string, o Outcome, rd *Rope)) {
	c.try("random helper", tRef+"."+name+of, func() {
		where, outs := c.refCall(c.e.newState(), name, args...)
		where += of
		good, bad := 0, 0
		for i, o := range outs {
			w := pathName(where, i, len(outs))
			rd, whole := c.reads(w, o.st, "system")
			if o.pan != nil {
				bad++
				c.ob("panics only when the source fails", w, !whole || mayRefuse != nil && mayRefuse(o.st.facts), "it panics although all reads succeed: %s", o.pan.desc)
				continue
			}
			good++
			c.ob("succeeds only when every read is complete", w, whole, "a read was short or failed")
			k(w, o, rd)
		}
		c.ob("success and failure both occur", where, good > 0 && bad > 0, "%d successes, %d failures", good, bad)
	})
}

// fewRejections: decompression rejects at most randomTries candidates on a path.
func (c *Checker) fewRejections(k func()) {
	fn := c.mustFn(tEGE + ".Decode")
	old := c.e.contracts[fn]
	if old == nil {
		panic(undecided("decompression has no contract"))
	}
	c.e.contracts[fn] = func(call *Call) []Branch {
		n := 0
		for _, ev := range call.st.events() {
			if ev.kind == "rejected" {
				n++
			}
		}
		var r []Branch
		for _, b := range old(call) {
			if t, ok := b.v.(TupleV); ok && len(t) == 2 && isNilPtr(t[0]) {
				if n == randomTries {
					continue
				}
				b.st.event(Event{kind: "rejected", fn: c.e.curIn, at: c.e.posOr(call.site), data: "a candidate is no curve point"})
			}
			r = append(r, b)
		}
		return r
	}
	defer func() { c.e.contracts[fn] = old }()
	k()
}

// lastRead: the bytes of the last read
func lastRead(st *State) *Rope {
	var d *readEvent
	for _, ev := range st.events() {
		if ev.kind == "read" {
			d = ev.data.(*readEvent)
		}
	}
	if d == nil {
		return &Rope{}
	}
	return ropeArr(d.arr, d.off, d.n).norm(st.facts)
}

func init() {
	reg("random.helpers", []string{"decode.contract", "ref.convert"}, func(c *Checker) {
		n := pSym(newSym("number of random bytes", bi(-16), pow2(40)))
		len1 := func(f *Facts) bool { return condHolds(condGE(psub(pInt(-1), n)), f) }
		c.drawn("GetRandomByteArray", " of any length", []Val{IntV{n}}, len1, func(w string, o Outcome, rd *Rope) {
			c.ob("as many bytes are read as asked for", w, condHolds(condEQ(psub(rd.length(), n)), o.st.facts), "%s bytes are read", rd.length())
			ok, why := c.sameBytes(o.st, o.vals[0], rd)
			c.ob("the result is what was read", w, ok, "%s", why)
		})
		c.drawn("GetRandomInt64", "", nil, nil, func(w string, o Outcome, rd *Rope) {
			b, ok := listed(rd)
			if !c.ob("8 bytes are read", w, ok && len(b) == 8, "%s bytes are read", rd.length()) {
				return
			}
			f := o.st.facts
			c.sameNum("the result is the number in these bytes", w, normPoly(o.vals[0].(IntV).p, f), wrap(valueLE(b), 64, true, f), f)
		})
		for _, k := range []int64{32, 64} {
			c.drawn("GetRandomEncodedFieldElement", fmt.Sprintf(" of %d bytes", k), []Val{IntV{pInt(k)}}, nil, func(w string, o Outcome, rd *Rope) {
				b, ok := listed(rd)
				if !c.ob("as many bytes are read as asked for", w, ok && int64(len(b)) == k, "%s bytes are read", rd.length()) {
					return
				}
				want := append([]*Poly(nil), b...)
				want[31] = pmod2k(b[31], 7, o.st.facts)
				ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], tEFE, "Raw"), ropeBytes(want))
				c.ob("the result is what was read, without bit 255", w, ok, "%s", why)
				// it is an element of its length
				c.predicate("some byte is not zero", w+", IsNonZero", c.call(o.st, c.mustFn(tEFE+".IsNonZero"), o.vals[0]), cnot(ropeEqCond(ropeBytes(want), ropeBytes(zeroPolys(int(k))), o.st.facts)))
			})
		}
		c.try("random helper", tRef+".GetRandomEncodedFieldElement of other lengths", func() {
			for _, k := range []int64{0, 1, 31, 33, 63, 65, 128} {
				where, outs := c.refCall(c.e.newState(), "GetRandomEncodedFieldElement", IntV{pInt(k)})
				where += fmt.Sprintf(" of %d bytes", k)
				ok := len(outs) > 0
				for _, o := range outs {
					ok = ok && o.pan != nil
				}
				c.ob("other lengths are refused", where, ok, "an element is returned")
			}
		})
		c.fewRejections(func() {
			last := func(w string, o Outcome) *Tau {
				b, ok := listed(lastRead(o.st))
				if !c.ob("a candidate has 32 bytes", w, ok && len(b) == 32, "%s bytes are read", lastRead(o.st).length()) {
					return nil
				}
				f := o.st.facts
				c.ob("the candidate is a curve point", w, condHolds(decCondF(b, f), f), "it may be none")
				return tauOf(decNameF(b, f), pInt(1))
			}
			c.drawn("GetRandomGroupElement", "", nil, nil, func(w string, o Outcome, rd *Rope) {
				if tau := last(w, o); tau != nil {
					c.samePoint(w, []Outcome{o}, "P3", tau)
				}
			})
			c.drawn("GetRandomEncodedGroupElement", "", nil, nil, func(w string, o Outcome, rd *Rope) {
				if tau := last(w, o); tau != nil {
					ok, why := c.sameBytes(o.st, c.field(o.st, o.vals[0], tEGE, "Raw"), ropeBytes(compressedTau(tau)))
					c.ob("the result encodes the candidate", w, ok, "%s", why)
				}
			})
		})
		c.try("random helper", tRef+".GetRandomFieldElement", func() {
			where, outs := c.refCall(c.e.newState(), "GetRandomFieldElement")
			good, constant, in := 0, "", true
			src := true
			for _, o := range outs {
				if o.pan != nil {
					continue
				}
				good++
				for _, ev := range o.st.events() {
					if d, ok := ev.data.(*readEvent); ok {
						src = src && d.reader == "system"
					}
				}
				l := c.limbs(o.st, o.vals[0])
				_, ok := limbsWithin(l, 165, 100, o.st.facts)
				in = in && ok
				at := ""
				for i, x := range l {
					if k, isC := normPoly(x, o.st.facts).isConst(); isC {
						at += fmt.Sprintf(" %d:%s", i, k)
					}
				}
				if at > constant {
					constant = at
				}
			}
			c.ob("there is a result", where, good > 0, "it never returns")
			c.ob("the limbs are ones that the operations accept", where, in, "a limb may be too large")
			c.ob("reads use the configured source", where, src, "another source is read")
			if constant != "" {
				where += ", limbs" + constant
			}
			c.ob("the limbs come from the randomness", where, constant == "", "these limbs are constants, whatever was read")
		})
	})
}

// listed: the bytes of a rope of known length
func listed(r *Rope) ([]*Poly, bool) {
	var b []*Poly
	for _, s := range r.s {
		if s.bytes == nil {
			return nil, false
		}
		b = append(b, s.bytes...)
	}
	return b, true
}
