package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Run is one execution of one check.
type Run struct {
	w       *World
	prop    string
	tier    string
	repo    string
	verif   string
	notes   []string // what was analysed
	assume  []string
	expl    string
	samples []interface{}
	cut     bool // stopped at the first violation
	count   map[string]int
	shard   int
	shards  int
}

type checkDef struct {
	id      string
	harness []string
	run     func(r *Run)
	noLoad  bool
}

var checks = map[string]*checkDef{}

func register(id string, harness []string, f func(r *Run)) {
	checks[id] = &checkDef{id: id, harness: harness, run: f}
}

func (r *Run) thorough() bool { return r.tier == "thorough" }

// fail reports a violation found outside of an exploration.
func (r *Run) fail(rule, construct, pos, format string, args ...interface{}) {
	v := &Violation{Prop: r.prop, Rule: rule, Construct: construct, Pos: pos, Msg: fmt.Sprintf(format, args...)}
	k := v.Prop + "/" + v.Rule + "/" + v.Construct
	if _, ok := r.w.viol[k]; !ok {
		r.w.viol[k] = v
	}
}

// ok counts a discharged obligation.
func (r *Run) ok(rule string) { r.w.obl[rule]++ }

// need asserts that at least n instances of something were analysed.
func (r *Run) need(what string, got, n int) {
	if r.count == nil {
		r.count = map[string]int{}
	}
	r.count[what] = got
	if got < n && !r.cut {
		r.fail("coverage", what, "", "only %d instances of %q were found where at least %d are expected: the code this rule judges is gone", got, what, n)
	}
}

// explore runs an entry function of a harness package.
func (r *Run) explore(pkg, name string, m Mon, conf func(x *Exec)) *Exec {
	p := r.w.pkgs[modPath+"/zzverif/"+pkg]
	if p == nil {
		r.fail("analysis", pkg, "", "harness package %s is missing", pkg)
		return nil
	}
	fn := p.Func(name)
	if fn == nil {
		r.fail("analysis", pkg+"."+name, "", "harness entry %s is missing", name)
		return nil
	}
	return r.exploreFn(fn, m, conf)
}

func (r *Run) exploreFn(fn *ssa.Function, m Mon, conf func(x *Exec)) (x *Exec) {
	if os.Getenv("VENTRY") != "" && fn.Name() != os.Getenv("VENTRY") {
		return nil
	}
	x = newExec(r.w, r.prop, fn.Name(), m)
	if r.thorough() {
		x.budget *= 4
		x.maxDisj = 6
		x.limit *= 2
	}
	if os.Getenv("VALL") == "" {
		x.alarm = func(v *Violation) bool { return v.Prop == r.prop && !r.isKnown(v) }
	}
	if conf != nil {
		conf(x)
	}
	t0 := time.Now()
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("VPANIC") != "" {
				panic(e)
			}
			r.fail("undecided", fn.Name(), r.w.posStr(fn.Pos()), "the analysis does not cover this code: %v", e)
		}
		st := &r.w.stats
		st.entries++
		st.entryNames = append(st.entryNames, x.entry)
		st.steps += x.steps
		st.states += x.states
		st.ends += x.ends
		for f := range x.fns {
			if r.w.isLib(f) {
				st.fnNames[shortFn(f)] = true
			}
		}
		if os.Getenv("VSTAT") != "" {
			fmt.Fprintf(os.Stderr, "%-28s steps %6d states %5d ends %4d %v\n", x.entry, x.steps, x.states, x.ends, time.Since(t0).Round(time.Millisecond))
		}
		if x.ends == 0 && !x.found && x.steps > 0 && x.steps < x.budget {
			r.fail("coverage", fn.Name(), r.w.posStr(fn.Pos()), "no execution of %s reaches its end", fn.Name())
		}
	}()
	x.run(x.initial(fn))
	return x
}

// initial builds the state that first initialises the packages, then runs fn.
func (x *Exec) initial(fn *ssa.Function) *State {
	s := newState()
	c := &Ctx{x, s, nil}
	main := &Thread{kind: "main", gh: map[string]string{}, gv: map[string]Val{}, site: fn.Name()}
	s.threads = append(s.threads, main)
	var args []Val
	for _, p := range fn.Params {
		v := x.param(c, p.Name(), p.Type())
		args = append(args, v)
		s.gv["p:"+p.Name()] = v
	}
	x.pushFrame(s, fn, args, nil)
	in := &Thread{kind: "init", gh: map[string]string{}, gv: map[string]Val{}, site: "init"}
	s.threads = append(s.threads, in)
	x.pushFrame(s, fn.Pkg.Func("init"), nil, nil)
	if e, ok := x.mon.(interface {
		Entry(c *Ctx, fn *ssa.Function)
	}); ok {
		e.Entry(c, fn)
	}
	return s
}

// param makes an arbitrary argument.
func (x *Exec) param(c *Ctx, name string, T types.Type) Val {
	s := c.s
	switch u := T.Underlying().(type) {
	case *types.Chan:
		return VRef{s.newObj(&Obj{kind: oChan, T: T, site: "param:" + name, ext: true, gh: map[string]string{"param": name}})}
	case *types.Signature:
		y := s.newSym(T, name)
		s.mutSym(y.id).nn = true
		return y
	case *types.Interface:
		y := s.newSym(T, name)
		if u.NumMethods() > 0 {
			s.mutSym(y.id).nn = true
		}
		return y
	case *types.Pointer:
		y := s.newSym(T, name)
		s.mutSym(y.id).nn = true
		return y
	}
	return x.fresh(c, T, name)
}

type report struct {
	Property   string       `json:"property"`
	Violations []*Violation `json:"violations"`
}

func (r *Run) finish(t0 time.Time, level string) int {
	known := loadKnown(filepath.Join(r.verif, "known-findings.txt"))
	var keys []string
	for k := range r.w.viol {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var bad []*Violation
	for _, k := range keys {
		v := r.w.viol[k]
		if v.Prop != r.prop {
			continue
		}
		if known[r.prop+"|"+v.Rule+"|"+v.Construct] {
			fmt.Printf("KNOWN-FINDING: property=%s %s in %s: %s\n", r.prop, v.Rule, v.Construct, v.Msg)
			continue
		}
		bad = append(bad, v)
	}
	obl := 0
	for _, n := range r.w.obl {
		obl += n
	}
	if r.expl == "" {
		r.expl = "Static analysis of the current source of /repo (no code of it is run): the SSA form of every function reachable from the listed entries is interpreted abstractly on arbitrary inputs until no new abstract state appears; each rule instance met on a path is an obligation, discharged when it holds in that abstract state. functions_analysed lists the analysed functions, obligations_by_rule the rules applied."
	}
	cov := map[string]interface{}{
		"explanation": r.expl,
	}
	st := r.w.stats
	var fns []string
	for f := range st.fnNames {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov["obligations"] = obl + len(bad)
	cov["discharged"] = obl
	cov["obligations_by_rule"] = r.w.obl
	if st.entries > 0 {
		cov["entries_analysed"] = st.entryNames
		cov["abstract_states"] = st.states
		cov["abstract_steps"] = st.steps
		cov["terminal_states"] = st.ends
		cov["functions_analysed"] = fns
	}
	if len(r.count) > 0 {
		cov["instances"] = r.count
	}
	if len(r.samples) > 0 {
		cov["samples"] = r.samples
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": r.prop, "tier": r.tier, "seed": seed, "level": level,
		"coverage": cov, "assumptions": r.assume, "wall_s": time.Since(t0).Seconds(), "violations": len(bad),
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rp := filepath.Join("evidence", r.prop+".violations.json")
	os.Remove(filepath.Join(r.verif, rp))
	if len(bad) == 0 {
		fmt.Printf("OK property=%s obligations=%d states=%d functions=%d\n", r.prop, obl, st.states, len(fns))
		return 0
	}
	b, _ = json.MarshalIndent(report{r.prop, bad}, "", " ")
	os.WriteFile(filepath.Join(r.verif, rp), append(b, '\n'), 0o644)
	for _, v := range bad {
		fmt.Printf("%s: %s [%s] in %s (entry %s)\n", v.Pos, v.Msg, v.Rule, v.Construct, v.Entry)
		if len(v.Stack) > 0 {
			fmt.Printf("    at %s\n", strings.Join(v.Stack, "\n       "))
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}

// loadKnown reads the entries that suppress a violation.
func loadKnown(path string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var p, rule, con string
		for _, f := range strings.Fields(l[7:]) {
			switch {
			case strings.HasPrefix(f, "property="):
				p = f[9:]
			case strings.HasPrefix(f, "rule="):
				rule = f[5:]
			case strings.HasPrefix(f, "construct="):
				con = f[10:]
			}
		}
		out[p+"|"+rule+"|"+con] = true
	}
	return out
}
