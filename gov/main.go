package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type result struct {
	c     *Contract
	obls  []*Obligation
	e     *Exec
	err   string
	dur   time.Duration
	paths int
}

func main() {
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gov check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "list":
		cmdList(os.Args[2:])
	default:
		os.Exit(2)
	}
}

func loadAll(repo, contracts string) (*World, error) {
	return load(repo, contracts, []string{"./adapter/...", "./config/..."})
}

func cmdList(args []string) {
	fs := flag.NewFlagSet("list", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	contracts := fs.String("contracts", "/verif/contracts", "")
	fs.Parse(args)
	w, err := loadAll(*repo, *contracts)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	for _, c := range w.contracts {
		fmt.Printf("%-40s %-20s target=%s use=%v\n", c.name, strings.Join(c.props, ","), short(c.target), c.use)
	}
	for _, d := range w.dropped {
		fmt.Println("dropped", d)
	}
}

// root executes the package initialisers once.
func initWorld(w *World) (e *Exec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(execError); ok {
				err = fmt.Errorf("package initialisation: %s", x.msg)
				return
			}
			panic(r)
		}
	}()
	e = newExec(w)
	e.dry = 1
	e.c = &Contract{name: "init", opts: map[string]string{}}
	s := newState()
	for _, p := range initOrder(w) {
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		e.pushFrame(s, fn, nil, nil, nil, false)
		outs := e.run(s, 1, nil)
		if len(outs) == 0 {
			return nil, fmt.Errorf("initialisation of %s does not return", p.Pkg.Path())
		}
		// several paths: keep the first whose facts are decided; others only
		// differ in values of external calls
		s = outs[0]
		s.frames = nil
	}
	for k, v := range s.heap {
		e.base[k] = v
	}
	e.initFacts = s.pc
	// variables the program may assign later are unknown
	for g := range w.mutable {
		if n, ok := e.globalRef[g]; ok {
			el := deref(g.Type())
			k := hKey(el)
			if b, ok := e.base[k]; ok {
				e.base[k] = Store(b, TRef(n), TVar("global "+g.String(), sortOf(el), 0))
			}
		}
	}
	e.dry = 0
	return e, nil
}

func newState() *State {
	return &State{heap: map[string]*Term{}, pcset: map[int]bool{}, facts: map[int]bool{}}
}

func initOrder(w *World) []*ssa.Package {
	var out []*ssa.Package
	seen := map[string]bool{}
	var visit func(path string)
	visit = func(path string) {
		if seen[path] {
			return
		}
		seen[path] = true
		p := w.pkgs[path]
		if p == nil {
			return
		}
		for _, im := range p.Pkg.Imports() {
			visit(im.Path())
		}
		out = append(out, p)
	}
	for _, k := range sortedKeys(w.pkgs) {
		visit(k)
	}
	return out
}

func fork(root *Exec) *Exec {
	e := newExec(root.w)
	e.alloc = root.alloc
	for k, v := range root.base {
		e.base[k] = v
	}
	for k, v := range root.globalRef {
		e.globalRef[k] = v
	}
	e.globalList = append(e.globalList, root.globalList...)
	for k, v := range root.funcs {
		e.funcs[k] = v
	}
	for k, v := range root.funcRef {
		e.funcRef[k] = v
	}
	for k, v := range root.lvals {
		e.lvals[k] = v
	}
	for k, v := range root.inited {
		e.inited[k] = v
	}
	e.initFacts = root.initFacts
	return e
}

func verify(root *Exec, c *Contract) (r *result) {
	e := fork(root)
	e.c = c
	r = &result{c: c, e: e}
	t0 := time.Now()
	defer func() {
		r.dur = time.Since(t0)
		r.obls = e.obls
		if x := recover(); x != nil {
			if y, ok := x.(execError); ok {
				r.err = y.msg
				return
			}
			if os.Getenv("GOV_DEBUG") != "" {
				debug.PrintStack()
			}
			r.err = fmt.Sprint(x)
		}
	}()
	s := newState()
	for _, f := range e.initFacts {
		s.fact(f)
	}
	var args []Val
	for _, p := range c.fn.Params {
		v := TVar("arg "+p.Name(), sortOf(p.Type()), 0)
		for _, f := range wfFacts(p.Type(), v, nil) {
			s.fact(f)
		}
		args = append(args, v)
	}
	f := e.pushFrame(s, c.fn, args, nil, nil, true)
	f.owner = c
	mark := e.alloc
	outs := e.run(s, 1, nil)
	r.paths = len(outs)
	if c.use || c.opts["recursive"] != "" {
		for _, o := range outs {
			e.frameObligations(o, mark)
		}
	}
	return r
}

// frameObligations: a contract other proofs rely on changes nothing which
// existed before the call, except what it declares with Modifies.
func (e *Exec) frameObligations(s *State, mark int64) {
	for _, k := range sortedKeys(s.heap) {
		h1 := s.heap[k]
		h0, ok := e.base[k]
		if !ok {
			h0 = heapVar(k, h1.sort)
		}
		if h0 == h1 || h1.sort.key != SRef {
			continue
		}
		r := TFresh("old", SRef, mark)
		hyp := []*Term{}
		for _, m := range s.mods {
			if m.key == k {
				hyp = append(hyp, Not(Eq(m.ref, r)))
			}
		}
		goal := Implies(And(hyp...), Eq(Select(h1, r), Select(h0, r)))
		if goal == TTrue {
			continue
		}
		o := &Obligation{kind: "frame", label: short(k), goal: goal, c: e.c, hyps: append([]*Term{}, s.pc...), pos: "?"}
		o.name = e.c.name + "/frame/" + short(k)
		e.obls = append(e.obls, o)
	}
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	contracts := fs.String("contracts", "/verif/contracts", "")
	prop := fs.String("prop", "", "property id")
	only := fs.String("only", "", "regexp of contracts")
	verbose := fs.Bool("v", false, "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", "", "report directory (default: none)")
	budget := fs.Int("budget", 0, "seconds after which no further obligation is tried")
	fs.Parse(args)
	t0 := time.Now()
	w, err := loadAll(*repo, *contracts)
	theProp = *prop
	rep := &report{Property: *prop, Tier: *tier}
	if err != nil {
		fmt.Println("gov:", err)
		rep.Failed = append(rep.Failed, failure{Name: "load", Status: err.Error()})
		rep.write(*out)
		return 3
	}
	tLoad := time.Since(t0)
	root, err := initWorld(w)
	if err != nil {
		fmt.Println("gov:", err)
		rep.Failed = append(rep.Failed, failure{Name: "init", Status: err.Error()})
		rep.write(*out)
		return 3
	}
	var re *regexp.Regexp
	if *only != "" {
		re = regexp.MustCompile(*only)
	}
	sv := &Solver{dir: os.TempDir(), timeout: 5}
	if *tier == "thorough" {
		sv.timeout = 20
	}
	if *budget > 0 {
		sv.deadline = t0.Add(time.Duration(*budget) * time.Second)
	}
	var rs []*result
	for _, c := range w.contracts {
		if c.trusted {
			continue
		}
		sel := *prop == ""
		for _, p := range c.props {
			if p == *prop {
				sel = true
			}
		}
		if !sel || (re != nil && !re.MatchString(c.name)) {
			continue
		}
		r := verify(root, c)
		rs = append(rs, r)
		if *verbose {
			fmt.Printf("  %-44s %4d obligations %4d paths %6dms %s\n", c.name, len(r.obls), r.paths, r.dur.Milliseconds(), r.err)
		}
	}
	tExec := time.Since(t0) - tLoad
	var all []*Obligation
	seen := map[string]*Obligation{}
	dup := 0
	for _, r := range rs {
		for _, o := range r.obls {
			if !obligationCounts(o, *prop) {
				continue
			}
			k := dedupKey(o)
			if _, ok := seen[k]; ok {
				dup++
				continue
			}
			seen[k] = o
			o.id = len(all)
			all = append(all, o)
		}
	}
	parallel(len(all), func(i int) { sv.prove(all[i]) })
	sv.again(all)
	// vacuity: every postcondition must be reachable on some path
	type lk struct{ c, l string }
	groups := map[lk][]*Obligation{}
	var order []lk
	for _, o := range all {
		if o.kind != "ensures" {
			continue
		}
		k := lk{o.c.name, o.label}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	vac := make([]bool, len(order))
	parallel(len(order), func(i int) {
		if sv.late > 0 {
			return
		}
		vac[i] = true
		for n, o := range groups[order[i]] {
			if n > 12 || !sv.vacuous(o.hyps) {
				vac[i] = false
				return
			}
		}
	})
	nEns := map[string]int{}
	for _, r := range rs {
		nEns[r.c.name] = len(r.obls)
	}
	for i, k := range order {
		if vac[i] {
			rep.Failed = append(rep.Failed, failure{Contract: k.c, Name: k.c + "/vacuous/" + k.l, Status: "no path reaches this postcondition with consistent hypotheses"})
		}
	}
	for _, r := range rs {
		if r.err != "" {
			rep.Failed = append(rep.Failed, failure{Contract: r.c.name, Name: r.c.name + "/analysis", Status: "the function could not be analysed: " + r.err})
		} else if nEns[r.c.name] == 0 {
			rep.Failed = append(rep.Failed, failure{Contract: r.c.name, Name: r.c.name + "/vacuous", Status: "no obligation was generated"})
		}
	}
	if os.Getenv("GOV_SLOW") != "" {
		ms, cnt := map[string]int64{}, map[string]int{}
		for _, o := range all {
			ms[o.name] += o.ms
			cnt[o.name]++
		}
		for k, v := range ms {
			fmt.Printf("SLOW %8d ms %6d %s\n", v, cnt[k], k)
		}
	}
	by := map[string]int{}
	var solverMs int64
	for _, o := range all {
		solverMs += o.ms
		if o.status == "proved" {
			by[o.solver]++
			rep.Discharged++
			continue
		}
		if strings.Contains(o.status, "(not tried") {
			rep.Untried++ // there are failed ones to report
			if rep.Untried > 1 || sv.given > 0 {
				continue
			}
		}
		rep.Failed = append(rep.Failed, failure{Contract: o.c.name, Name: o.name, Pos: o.pos, Status: o.status, Solver: o.solver, Goal: show(o.goal), Path: o.path, Model: trimModel(o.model), ID: o.id})
	}
	rep.Obligations = len(all)
	for _, f := range rep.Failed {
		if strings.HasSuffix(f.Name, "/analysis") || strings.Contains(f.Name, "/vacuous") {
			rep.Obligations++
		}
	}
	rep.ByBackend = by
	rep.SolverMs = solverMs
	rep.LoadMs = tLoad.Milliseconds()
	rep.ExecMs = tExec.Milliseconds()
	rep.WallMs = time.Since(t0).Milliseconds()
	rep.Duplicates = dup
	inl, asm, used := map[string]int{}, map[string]int{}, map[string]int{}
	for _, r := range rs {
		rep.Contracts = append(rep.Contracts, contractInfo{Name: r.c.name, Target: short(r.c.target), Doc: strings.TrimSpace(r.c.doc), Props: r.c.props, Obligations: len(r.obls), Paths: r.paths, Ms: r.dur.Milliseconds(), Err: r.err})
		for k := range r.e.inlined {
			inl[short(k)]++
		}
		for k := range r.e.assumed {
			asm[k]++
		}
		for k := range r.e.used {
			used[k]++
		}
		rep.Requires += r.e.nReq
	}
	rep.Inlined, rep.Assumed, rep.Used = sortedKeys(inl), sortedKeys(asm), sortedKeys(used)
	rep.Dropped = w.dropped
	sort.SliceStable(rep.Failed, func(i, j int) bool { return rep.Failed[i].Name < rep.Failed[j].Name })
	rep.write(*out)
	if *verbose || *out == "" {
		for _, f := range rep.Failed {
			fmt.Printf("FAILED %s [%s] %s #%d\n    %s\n    goal %s\n", f.Name, f.Status, f.Pos, f.ID, f.Path, f.Goal)
		}
		fmt.Printf("%d contracts, %d obligations, %d discharged, %v; load %d ms, exec %d ms, wall %d ms\n", len(rs), rep.Obligations, rep.Discharged, by, rep.LoadMs, rep.ExecMs, rep.WallMs)
		if *verbose {
			for _, a := range rep.Assumed {
				fmt.Println("   assumed:", a)
			}
			for _, a := range rep.Dropped {
				fmt.Println("   dropped:", a)
			}
		}
	}
	if len(rep.Failed) > 0 || len(rs) == 0 {
		return 1
	}
	return 0
}

// obligationCounts: a contract may serve several properties; labels of the
// form "C08: ..." belong to that property only.
var propLabel = regexp.MustCompile(`^((?:C\d\d,?)+): `)

func obligationCounts(o *Obligation, prop string) bool {
	if prop == "" {
		return true
	}
	if m := propLabel.FindStringSubmatch(o.label); m != nil && o.kind == "ensures" {
		for _, p := range strings.Split(m[1], ",") {
			if p == prop {
				return true
			}
		}
		return false
	}
	return true
}

func dedupKey(o *Obligation) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s|%d", o.name, o.goal.id)
	for _, h := range o.hyps {
		fmt.Fprintf(&b, ",%d", h.id)
	}
	return b.String()
}

func trimModel(m string) string {
	if len(m) > 20000 {
		return m[:20000]
	}
	return m
}

func ensureDir(p string) { os.MkdirAll(filepath.Clean(p), 0755) }
