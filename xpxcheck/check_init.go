package main

// package initialisation: interpreted concretely, so that the tables and constants are known values.
func init() {
	reg("init", nil, func(c *Checker) {
		e := c.e
		e.phase, e.ownNew = "init", "global"
		fn := c.P.pkg.Func("init")
		st := e.newState()
		outs := e.callFn(fn, nil, nil, st, 0)
		ok := len(outs) == 1 && outs[0].pan == nil
		c.ob("init-runs", "package initialisation", ok, "%d outcomes %v", len(outs), panDesc(outs))
		if !ok {
			return
		}
		for k, v := range outs[0].st.mem {
			e.base[k] = v
		}
		for _, o := range e.objs {
			o.owner = "global"
		}
		e.phase, e.ownNew = "run", "fresh"
	})
}

func panDesc(outs []Outcome) []string {
	var r []string
	for _, o := range outs {
		if o.pan != nil {
			r = append(r, o.pan.desc)
		}
	}
	return r
}
