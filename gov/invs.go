package main

// Loop invariants written by hand: functions named inv_* in the contract files
// of the package. A first parameter n is the number of finished iterations;
// the others stand for loop variables and for values fixed during the loop,
// matched by type in every possible way (functions named inv_heap* are about
// the heap only and need no loop variable). An instance is used only after the
// solver has shown that it holds on entry and is preserved by every path round
// the loop (all instances together, weakest dropped first).

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// theProp is the property being checked. A contract may say (gov:opt noinv=P)
// that its part in property P needs no invariants.
var theProp string

type invInst struct {
	fn   *ssa.Function
	args []invArg
	desc string
	init bool
}

type invArg struct {
	n    bool
	lv   *loopVar
	term Val
}

func (e *Exec) hasInvs(fn *ssa.Function) bool {
	for _, t := range e.w.invs {
		if fnPkg(t) == fnPkg(fn) {
			return true
		}
	}
	return false
}

func invType(a, b types.Type) bool {
	return types.Identical(a.Underlying(), b.Underlying())
}

func (L *loopSum) instances() []*invInst {
	if p := L.e.c.opts["noinv"]; p != "" && p == theProp {
		return nil
	}
	f := L.s.top()
	var out []*invInst
	type cand struct {
		t types.Type
		a invArg
		d string
	}
	var cands []cand
	any := false
	for _, v := range L.vars {
		if v.part != 0 || v.phi == nil {
			continue
		}
		if v.class == 'h' || v.acc {
			any = true
			cands = append(cands, cand{v.typ, invArg{lv: v}, v.name()})
		} else if v.class == 'i' {
			cands = append(cands, cand{v.typ, invArg{term: v.entry}, v.name()})
		}
	}
	heapOnly := !any
	writes := len(L.whole) > 0
	for _, v := range L.vars {
		if v.phi == nil && v.class != 'i' {
			writes = true
		}
	}
	if heapOnly && !writes {
		return nil
	}
	seen := map[string]bool{}
	add := func(k ssa.Value) {
		v, ok := f.env[k]
		if !ok {
			return
		}
		t, ok := v.(*Term)
		if !ok {
			return
		}
		if in, ok := k.(ssa.Instruction); ok {
			if loopsOf(f.fn)[L.h][in.Block()] {
				return
			}
		}
		key := fmt.Sprintf("%d|%s", t.id, k.Type())
		if seen[key] {
			return
		}
		seen[key] = true
		cands = append(cands, cand{k.Type(), invArg{term: t}, k.Name()})
	}
	for _, p := range f.fn.Params {
		add(p)
	}
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for _, tmpl := range L.e.w.invs {
		if fnPkg(tmpl) != fnPkg(f.fn) {
			continue
		}
		heap := strings.HasPrefix(tmpl.Name(), "inv_heap")
		if only := L.e.c.opts["invs"]; only != "" && !contains(strings.Split(only, ","), tmpl.Name()) {
			continue
		}
		if heap && !writes || heapOnly && !heap {
			continue
		}
		var rec func(i int, args []invArg, d string, lv bool)
		rec = func(i int, args []invArg, d string, lv bool) {
			if len(out) > 60 {
				return
			}
			if i == len(tmpl.Params) {
				if lv {
					out = append(out, &invInst{fn: tmpl, args: append([]invArg{}, args...), desc: tmpl.Name() + "(" + d + ")"})
				}
				return
			}
			p := tmpl.Params[i]
			if i == 0 && p.Name() == "n" {
				rec(1, append(args, invArg{n: true}), "n", lv)
				return
			}
			for _, c := range cands {
				if heap && c.a.term != nil && hasTerm(args[:i], c.a.term) {
					continue // two names for one value say nothing
				}
				// lv_x stands for a loop variable only, fx_x for a fixed value
				if strings.HasPrefix(p.Name(), "lv_") && c.a.lv == nil || strings.HasPrefix(p.Name(), "fx_") && c.a.lv != nil {
					continue
				}
				if invType(c.t, p.Type()) {
					rec(i+1, append(args[:i:i], c.a), d+","+c.d, lv || c.a.lv != nil)
				}
			}
		}
		rec(0, nil, "", heap)
	}
	return out
}

func hasTerm(as []invArg, t Val) bool {
	for _, a := range as {
		if a.term == t {
			return true
		}
	}
	return false
}

// eval evaluates an instance in state st.
func (L *loopSum) eval(in *invInst, st *State, n *Term, val func(*loopVar) *Term) *Term {
	var args []Val
	for _, a := range in.args {
		switch {
		case a.n:
			args = append(args, n)
		case a.lv != nil:
			args = append(args, val(a.lv))
		default:
			args = append(args, a.term)
		}
	}
	return L.e.term(st, L.e.pureCall(st, in.fn, args, nil))
}

// invariants returns the instances shown to be inductive.
func (L *loopSum) invariants(hdr *State, backs []*State, facts []*Term) []*invInst {
	e := L.e
	insts := L.instances()
	if len(insts) == 0 {
		return nil
	}
	if e.noInv > 0 {
		e.skippedInv = true
		return nil
	}
	if e.solver == nil {
		e.solver = &Solver{timeout: 3}
	}
	var keep []*invInst
	var entry []*Obligation
	var gs []int
	for i, in := range insts {
		gs = append(gs, i)
		c := L.s.clone()
		g := L.eval(in, c, TInt(0), func(v *loopVar) *Term { return v.entry })
		entry = append(entry, &Obligation{hyps: c.pc, goal: c.decide(g)})
	}
	holds := e.solver.quickAll(1, entry, gs)
	for i, in := range insts {
		if holds[i] {
			keep = append(keep, in)
		}
	}
	debugf("invariants at entry of a loop in %s: %d of %d", L.s.top().fn, len(keep), len(insts))
	type chk struct {
		hyps, assume []*Term
		goals        []*Term
	}
	for len(keep) > 0 {
		bad := map[*invInst]bool{}
		var next []*Obligation
		var owner []int
		for _, b := range backs {
			c := b.clone()
			hb := c.heap
			c.heap = map[string]*Term{}
			for k, v := range hdr.heap {
				c.heap[k] = v
			}
			for _, in := range keep {
				c.fact(L.eval(in, c, L.N, func(v *loopVar) *Term { return v.sym }))
			}
			c.heap = hb
			if c.dead {
				continue // no such path where the invariants hold
			}
			for i, in := range keep {
				d := c.clone()
				g := L.eval(in, d, Add(L.N, TInt(1)), func(v *loopVar) *Term {
					if v.acc {
						return b.reduce(e.term(b, b.top().env[v.phi]))
					}
					return L.back(v, b)
				})
				next = append(next, &Obligation{hyps: d.pc, goal: d.decide(g)})
				owner = append(owner, i)
			}
		}
		for i0, ok := range e.solver.quickAll(3, next, owner, facts...) {
			if in := keep[owner[i0]]; !ok && !bad[in] {
				debugf("not preserved: %s (back %d of %d)", in.desc, i0/len(keep), len(backs))
				bad[in] = true
			}
		}
		if len(bad) == 0 {
			break
		}
		var good []*invInst
		for _, in := range keep {
			if !bad[in] {
				good = append(good, in)
			}
		}
		keep = good
	}
	for _, in := range keep {
		e.loopLog = append(e.loopLog, in.desc)
		if e.dry == 0 {
			for i := 0; i <= len(backs); i++ {
				e.obls = append(e.obls, &Obligation{kind: "invariant", label: in.fn.Name(), name: e.c.name + "/invariant/" + in.desc + fmt.Sprintf("#%d", i), goal: TTrue, c: e.c, status: "proved", solver: "z3-new"})
			}
		}
	}
	return keep
}

// quickAll tries several obligations at once; those of a group (a number below
// the number of obligations) fail together.
func (sv *Solver) quickAll(sec int, os []*Obligation, group []int, more ...*Term) []bool {
	type job struct {
		i int
		p part
	}
	var jobs []job
	res := make([]bool, len(os))
	fail := make([]atomic.Bool, len(os))
	for i, o := range os {
		i := group[i]
		switch {
		case o.goal == TTrue:
		case o.goal == TFalse:
			fail[i].Store(true)
		default:
			for _, p := range splitGoal(o.hyps, o.goal) {
				jobs = append(jobs, job{i, p})
			}
		}
	}
	parallel(len(jobs), func(k int) {
		if j := jobs[k]; !fail[j.i].Load() && !sv.quick1(sec, j.p, more) {
			fail[j.i].Store(true)
		}
	})
	for i := range res {
		res[i] = !fail[group[i]].Load()
	}
	return res
}

// quick is a synchronous proof attempt.
func (sv *Solver) quick(o *Obligation, more ...*Term) bool {
	if o.goal == TTrue {
		return true
	}
	if o.goal == TFalse {
		return false
	}
	ps := splitGoal(o.hyps, o.goal)
	res := make([]bool, len(ps))
	var stop atomic.Bool
	parallel(len(ps), func(i int) {
		if stop.Load() {
			return
		}
		res[i] = sv.quick1(3, ps[i], more)
		if !res[i] {
			stop.Store(true)
		}
	})
	for _, r := range res {
		if !r {
			return false
		}
	}
	return true
}

func (sv *Solver) quick1(sec int, p part, more []*Term) bool {
	if g := groundOnly(p.hyps); len(g) < len(p.hyps) {
		if text, bad := render(g, p.goal, false, false); bad == "" {
			if r, _, _ := sv.run1(text, "cvc5", 2); r == "unsat" {
				return true
			}
		}
	}
	light := withoutAuto(p.hyps)
	for k := 0; k < 3; k++ {
		hs := p.hyps
		switch {
		case k == 0 && len(light) == len(hs), k == 2 && len(more) == 0:
			continue
		case k == 0:
			hs = light
		case k == 2:
			hs = append(hs[:len(hs):len(hs)], more...)
		}
		for _, a := range []attempt{{"z3-new", true, sec}, {"z3-new", false, sec}} {
			text, bad := render(hs, p.goal, a.ustr, false)
			if bad != "" {
				return false
			}
			r, _, _ := sv.run1(text, a.solver, a.sec)
			if r == "unsat" {
				return true
			}
			if d := os.Getenv("GOV_DUMPQ"); d != "" {
				os.WriteFile(fmt.Sprintf("%s/%s_%v_%s_%d_%d.smt2", d, sv.tag, a.ustr, r, k, p.goal.id), []byte(text), 0o644)
			}
			if r == "sat" && !a.ustr {
				break
			}
		}
	}
	return false
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// groundOnly leaves the quantified hypotheses out.
func groundOnly(hs []*Term) []*Term {
	var out []*Term
	for _, h := range hs {
		if !mentions(h, func(x *Term) bool { return x.op == "forall" || x.op == "exists" || x.op == "bvar" }) {
			out = append(out, h)
		}
	}
	return out
}
