package main

import (
	"encoding/json"
	"fmt"
	"golang.org/x/tools/go/ssa"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

// Obl is one proof obligation.
type Obl struct {
	Group  string `json:"group"`
	Rule   string `json:"rule"`
	Where  string `json:"where"`
	OK     bool   `json:"ok"`
	Undec  bool   `json:"undecided,omitempty"` // not refuted: the analysis could not follow the code
	Detail string `json:"detail,omitempty"`
}

type group struct {
	name string
	deps []string
	run  func(c *Checker)
	ok   bool
	done bool
	busy bool
	secs float64

	failed int
}

type Checker struct {
	P         *Program
	e         *Engine
	obls      []*Obl
	groups    map[string]*group
	cur       *group
	recording bool // a failure is being recorded
	notes     map[string]bool
	thor      bool
	direct    map[string]bool // the groups of the property itself
	facts     map[string]any  // results that groups hand on to others
}

var allGroups []*group

func reg(name string, deps []string, run func(c *Checker)) {
	allGroups = append(allGroups, &group{name: name, deps: deps, run: run})
}

// ob records an obligation.
func (c *Checker) ob(rule, where string, ok bool, format string, a ...any) bool {
	o := &Obl{Group: c.cur.name, Rule: rule, Where: where, OK: ok}
	if !ok || os.Getenv("XPX_VERBOSE") != "" {
		o.Detail = fmt.Sprintf(format, a...)
	}
	c.obls = append(c.obls, o)
	if !ok {
		if c.cur.failed++; c.cur.failed >= 200 && !c.recording {
			panic(undecidedErr{msg: "there are 200 failed obligations, the rest is not looked at"})
		}
	}
	return ok
}

func (c *Checker) fail(rule, where, format string, a ...any) { c.ob(rule, where, false, format, a...) }

// try runs k; an undecided step becomes a failed obligation.
func (c *Checker) try(rule, where string, k func()) (ok bool) {
	n := len(c.obls)
	defer func() {
		if r := recover(); r != nil {
			ok = false
			c.recording = true
			defer func() { c.recording = false }()
			if u, is := r.(undecidedErr); is {
				c.fail(rule, where, "cannot be established: %s", u.msg)
				c.obls[len(c.obls)-1].Undec = !u.refuted
				return
			}
			if os.Getenv("XPX_PANIC") != "" {
				panic(r)
			}
			c.fail(rule, where, "cannot be established: internal: %v\n%s", r, firstLines(string(debug.Stack()), 24))
		}
	}()
	k()
	for _, o := range c.obls[n:] {
		if !o.OK {
			return false
		}
	}
	return true
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// need runs a group (once) after the groups it depends on.
func (c *Checker) need(name string) bool {
	g := c.groups[name]
	if g == nil {
		panic("no group " + name)
	}
	if g.done {
		return g.ok
	}
	if g.busy {
		panic("cyclic groups at " + name)
	}
	if devSkip[name] {
		g.done, g.ok = true, true
		return true
	}
	g.busy = true
	bad := ""
	for _, d := range g.deps {
		if !c.need(d) && bad == "" {
			bad = d
		}
	}
	save := c.cur
	c.cur = g
	n0 := len(c.obls)
	t := time.Now()
	if bad != "" {
		c.fail("dependency", name, "%s is not established, because %s is not", name, bad)
		g.ok = false
	} else {
		g.ok = c.try("analysis", name, func() { g.run(c) })
	}
	if !g.ok && bad == "" && leafGroups[name] && !c.direct[name] {
		// the property that the group belongs to reports it; here it is taken for granted
		refuted := false
		for _, o := range c.obls[n0:] {
			refuted = refuted || !o.OK && !o.Undec
		}
		if !refuted {
			var rest []*Obl
			for _, o := range c.obls[n0:] {
				if o.OK {
					rest = append(rest, o)
				} else {
					c.notes[fmt.Sprintf("taken for granted here, because %s could not be followed (reported under the property of %s): %s @ %s: %s", o.Where, name, o.Rule, o.Where, clip(o.Detail))] = true
				}
			}
			c.obls = append(c.obls[:n0:n0], rest...)
			g.ok, devSkip[name] = true, true
		}
	}
	g.done = true
	g.secs = time.Since(t).Seconds()
	c.cur = save
	if os.Getenv("XPX_TIME") != "" {
		fmt.Fprintf(os.Stderr, "%8.2fs %s ok=%v\n", g.secs, name, g.ok)
	}
	return g.ok
}

// leafGroups hand nothing on but the truth of a contract. A group of these that the analysis cannot follow (it is not
// refuted) is reported by the property whose subject it is, and only by that one: the others assume the contract.
var leafGroups = map[string]bool{"field.linear": true, "field.multiply": true, "field.square": true, "field.encode": true, "field.decode": true,
	"scalar.modQ": true, "scalar.mulAdd": true, "mul.single": true, "mul.recode": true, "mul.double": true}

// devSkip: groups that are taken for granted (propCheck.granted; in development runs XPX_ASSUME)
var devSkip = map[string]bool{}

type propCheck struct {
	id          string
	technique   string
	note        string
	groups      []string
	level       string
	trusted     []string
	explanation string
	assumptions []string
	granted     []string // groups that the property takes for granted (it does not depend on their truth)
}

var props = map[string]*propCheck{}

func verifDir() string {
	if d := os.Getenv("XPX_VERIF"); d != "" {
		return d
	}
	return "/verif"
}
func repoDir() string {
	if d := os.Getenv("XPX_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func newChecker() (*Checker, error) {
	P, err := loadProgram(repoDir())
	if err != nil {
		return nil, err
	}
	c := &Checker{P: P, e: newEngine(P), groups: map[string]*group{}, notes: map[string]bool{}, facts: map[string]any{}}
	for _, g := range allGroups {
		c.groups[g.name] = g
	}
	return c, nil
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: xpxcheck PROPERTY|group:NAME|list [thorough]")
		os.Exit(2)
	}
	arg := os.Args[1]
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	t0 := time.Now()
	if arg == "list" {
		for _, g := range allGroups {
			fmt.Println(g.name, g.deps)
		}
		return
	}
	if arg == "manifest" {
		var l []map[string]string
		for _, p := range props {
			l = append(l, map[string]string{"id": p.id, "technique": p.technique, "level": p.level, "note": p.note})
		}
		b, _ := json.Marshal(l)
		fmt.Println(string(b))
		return
	}
	var pc *propCheck
	id := arg
	if strings.HasPrefix(arg, "group:") {
		pc = &propCheck{id: "dev", groups: strings.Split(strings.TrimPrefix(arg, "group:"), ","), level: "other"}
		id = "dev"
		for _, g := range strings.Split(os.Getenv("XPX_ASSUME"), ",") {
			devSkip[g] = true
		}
	} else if pc = props[arg]; pc == nil {
		fmt.Fprintln(os.Stderr, "unknown property", arg)
		os.Exit(2)
	}
	for _, g := range pc.granted {
		devSkip[g] = true
	}
	limit := 800 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			if time.Since(t0) > limit || m.HeapAlloc > 20<<30 {
				report(nil, pc, id, tier, t0, []*Obl{{Group: "budget", Rule: "budget", Where: "analysis", Detail: fmt.Sprintf("the analysis did not finish within %s and 20 GB", limit)}})
			}
		}
	}()
	c, err := newChecker()
	if err != nil {
		report(nil, pc, id, tier, t0, []*Obl{{Group: "load", Rule: "load", Where: repoDir(), Detail: err.Error()}})
	}
	c.thor = tier == "thorough"
	if os.Getenv("XPX_COV") != "" {
		covered = map[*ssa.BasicBlock]bool{}
	}
	stop := startProfile()
	c.direct = map[string]bool{}
	for _, g := range pc.groups {
		c.direct[g] = true
	}
	for _, g := range pc.groups {
		c.need(g)
	}
	stop()
	if os.Getenv("XPX_COV") != "" {
		for _, fn := range c.repoFuncs() {
			if c.e.funcs[fn] == 0 {
				fmt.Println("not interpreted:", fnName(fn))
				continue
			}
			for _, b := range fn.Blocks {
				if len(b.Instrs) > 0 && !covered[b] {
					at := ""
					for _, in := range b.Instrs {
						if in.Pos().IsValid() {
							at = c.e.pos(in)
							break
						}
					}
					fmt.Println("not reached:", fnName(fn), "block", b.Index, b.Comment, at)
				}
			}
		}
	}
	report(c, pc, id, tier, t0, c.obls)
}

func report(c *Checker, pc *propCheck, id, tier string, t0 time.Time, obls []*Obl) {
	var bad, good []*Obl
	for _, o := range obls {
		if o.OK {
			good = append(good, o)
		} else {
			bad = append(bad, o)
		}
	}
	known := loadKnown(id)
	var viol []*Obl
	for _, o := range bad {
		if k := known[o.Rule+" @ "+o.Where]; k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			continue
		}
		viol = append(viol, o)
	}
	if id != "dev" {
		writeEvidence(c, pc, id, tier, t0, good, viol)
	}
	if len(viol) > 0 {
		path := filepath.Join(verifDir(), "evidence", id+".violation.txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s: %d of %d obligations not discharged\n\n", id, len(viol), len(obls))
		for _, o := range viol {
			fmt.Fprintf(&b, "- %s [%s]\n  at %s\n  %s\n\n", o.Rule, o.Group, o.Where, strings.ReplaceAll(o.Detail, "\n", "\n  "))
		}
		if id != "dev" {
			os.WriteFile(path, []byte(b.String()), 0o644)
		}
		s := b.String()
		if len(s) > 6000 {
			s = s[:6000] + "\n...\n"
		}
		fmt.Print(s)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		os.Exit(1)
	}
	fmt.Printf("property %s: %d obligations discharged in %.1fs\n", id, len(good), time.Since(t0).Seconds())
	os.Exit(0)
}

func loadKnown(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<rule @ where> :: text
		// (the development runs of single groups, id "dev", take the findings of every property)
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		who, rest, ok := strings.Cut(rest, " key=")
		if !ok || who != id && id != "dev" {
			continue
		}
		k, text, ok := strings.Cut(rest, " :: ")
		if ok {
			r[k] = text
		}
	}
	return r
}

func writeEvidence(c *Checker, pc *propCheck, id, tier string, t0 time.Time, good, viol []*Obl) {
	cov := map[string]any{
		"obligations": len(good) + len(viol),
		"discharged":  len(good),
		"checker_cmd": "bash /verif/check.sh " + id + " " + tier,
		"explanation": pc.technique + ". " + pc.explanation,
	}
	tb := append([]string{
		"go/types and golang.org/x/tools/go/ssa represent the compiled program faithfully",
		"the abstract domains and transfer functions in /verif/xpxcheck",
	}, pc.trusted...)
	cov["trusted_base"] = tb
	if c != nil {
		byRule := map[string]int{}
		for _, o := range append(append([]*Obl{}, good...), viol...) {
			byRule[o.Group+": "+o.Rule]++
		}
		cov["obligations_by_rule"] = byRule
		var fs []string
		for fn, n := range c.e.funcs {
			if c.P.inRepo(fn) {
				fs = append(fs, fmt.Sprintf("%s (%d activations)", fnName(fn), n))
			}
		}
		sort.Strings(fs)
		cov["functions_analysed"] = fs
		cov["instructions_interpreted"] = c.e.stats.instrs
		cov["path_outcomes"] = c.e.stats.outcomes
		cov["abstract_symbols"] = len(syms)
		gs := map[string]float64{}
		for _, g := range allGroups {
			if g.done {
				gs[g.name] = float64(int(g.secs*1000)) / 1000
			}
		}
		cov["analyses_seconds"] = gs
		var sm []string
		for i, o := range good {
			if i%(len(good)/12+1) == 0 {
				sm = append(sm, o.Group+": "+o.Rule+" @ "+o.Where)
			}
		}
		cov["samples"] = sm
		var nt []string
		for n := range c.notes {
			nt = append(nt, n)
		}
		sort.Strings(nt)
		cov["notes"] = nt
	}
	if pc.assumptions == nil {
		pc.assumptions = []string{}
	}
	seed := 1
	fmt.Sscanf(os.Getenv("VERIF_SEED"), "%d", &seed)
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": pc.level, "coverage": cov,
		"assumptions": pc.assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644)
}

func startProfile() func() {
	f := os.Getenv("XPX_PROF")
	if f == "" {
		return func() {}
	}
	w, err := os.Create(f)
	if err != nil {
		return func() {}
	}
	pprof.StartCPUProfile(w)
	if d, err := time.ParseDuration(os.Getenv("XPX_PROFTIME")); err == nil {
		time.AfterFunc(d, func() { pprof.StopCPUProfile(); w.Close(); os.Exit(3) })
	}
	return func() { pprof.StopCPUProfile(); w.Close() }
}
