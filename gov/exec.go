package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type runCtl struct {
	depth  int             // frame count of the loop frame
	header *ssa.BasicBlock // dry run of this loop: back edges are collected, exits dropped
	loop   map[*ssa.BasicBlock]bool
}

const (
	stRun = iota
	stDone
	stBack
	stDead
)

// run executes s until the frame count drops below base (the frame at index
// base-1 has returned) or, for a loop dry run, the back edge is reached.
func (e *Exec) run(s *State, base int, ctl *runCtl) []*State {
	work := []*State{s}
	var out []*State
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.status == stBack {
			out = append(out, st)
			continue
		}
		for {
			if st.dead {
				break
			}
			if len(st.frames) < base {
				out = append(out, st)
				e.paths++
				if e.paths > 1500000 {
					e.fail("too many paths")
				}
				break
			}
			e.steps++
			if e.steps > 120000000 {
				e.fail("too many steps")
			}
			forks, res := e.step(st, ctl)
			work = append(work, forks...)
			if res == stDead {
				break
			}
			if res == stBack {
				out = append(out, st)
				break
			}
		}
	}
	return out
}

func (e *Exec) pushFrame(s *State, fn *ssa.Function, args []Val, binds []Val, call ssa.CallInstruction, spec bool) *Frame {
	if len(fn.Blocks) == 0 {
		e.fail("no body: %s", fn)
	}
	f := &Frame{fn: fn, env: map[ssa.Value]Val{}, block: fn.Blocks[0], call: call, visits: map[*ssa.BasicBlock]int{}, cutDone: map[*ssa.BasicBlock]bool{}, depth: len(s.frames)}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[p] = args[i]
		}
	}
	for i, b := range fn.FreeVars {
		f.env[b] = binds[i]
	}
	f.spec = spec
	if len(s.frames) > e.depthLimit {
		e.fail("call depth %d at %s", len(s.frames), fn)
	}
	s.frames = append(s.frames, f)
	return f
}

func (e *Exec) ret(s *State, v Val) {
	f := s.top()
	s.frames = s.frames[:len(s.frames)-1]
	if f.retPatch != nil {
		v = f.retPatch(s, v)
	}
	s.ret = v
	if f.call != nil && len(s.frames) > 0 {
		if val := f.call.Value(); val != nil {
			s.top().env[val] = v
		}
	}
}

func (e *Exec) val(s *State, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Global:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		ref := e.globalAddr(x)
		e.initGlobal(s, x, el, ref)
		return ref
	case *ssa.Builtin:
		return x
	}
	r, ok := s.top().env[v]
	if !ok {
		e.fail("undefined value %s in %s", v.Name(), s.top().fn)
	}
	return r
}

func (e *Exec) initGlobal(s *State, g *ssa.Global, el types.Type, ref *Term) {
	key := g.Pkg.Pkg.Path() + "." + g.Name()
	if e.inited[key] {
		return
	}
	e.inited[key] = true
	if m, ok := e.w.globals[key]; ok {
		v := e.pureCall(s, m, nil, nil)
		k := hKey(el)
		e.base[k] = Store(e.baseGet(k, hSort(el)), ref, e.term(s, v))
		if cur, ok := s.heap[k]; ok {
			_ = cur
		}
		e.writeObj(s, el, ref, e.term(s, v))
	}
}

func (e *Exec) baseGet(k string, srt *Sort) *Term {
	if t, ok := e.base[k]; ok {
		return t
	}
	return heapVar(k, srt)
}

func (e *Exec) constVal(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return TBool(constant.BoolVal(c.Value))
	case constant.String:
		return TStr(constant.StringVal(c.Value))
	case constant.Int:
		if sortOf(t) == SF64 {
			return f64Const(c.Value)
		}
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return TBig(b)
	case constant.Float:
		if sortOf(t) == SInt {
			b, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return TBig(b)
		}
		return f64Const(c.Value)
	}
	e.fail("constant %s", c)
	return nil
}

func f64Const(v constant.Value) *Term {
	if constant.Sign(v) == 0 {
		return F64Zero
	}
	return TVar("f64_"+nonIdent.ReplaceAllString(v.ExactString(), "_"), SF64, loInf)
}

func (e *Exec) tval(s *State, v ssa.Value) *Term { return e.term(s, e.val(s, v)) }

// wf assumes the well-formedness facts of a value met in code.
func (e *Exec) wf(s *State, t types.Type, v Val) {
	x, ok := v.(*Term)
	if !ok || (x.hasBound && e.inPure > 0) {
		return
	}
	for _, f := range wfFacts(t, x, nil) {
		s.fact(f)
	}
}

func (e *Exec) jump(s *State, to *ssa.BasicBlock, ctl *runCtl) ([]*State, int) {
	f := s.top()
	from := f.block
	f.prev, f.block, f.pc = from, to, 0
	// phis
	var idx int
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(s, p.Edges[idx]))
		n++
	}
	for i := 0; i < n; i++ {
		f.env[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.pc = n
	if ctl != nil && len(s.frames) == ctl.depth {
		if to == ctl.header {
			return nil, stBack
		}
		if !ctl.loop[to] {
			return nil, stDead
		}
	}
	lp := loopsOf(f.fn)[to]
	if lp == nil {
		return nil, stRun
	}
	back := lp[from]
	if back && f.cutDone[to] {
		return nil, stDead // the invariant has been shown to be preserved
	}
	if !back {
		f.visits[to] = 0
		f.cutDone[to] = false
	}
	f.visits[to]++
	if f.visits[to] <= 70 && e.concreteHeader(s, to) {
		return nil, stRun
	}
	return e.cutLoop(s, to, lp, ctl)
}

// concreteHeader reports whether the loop condition evaluates to a constant.
func (e *Exec) concreteHeader(s *State, h *ssa.BasicBlock) bool {
	last, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c := s.clone()
	e.dry++
	defer func() { e.dry-- }()
	f := c.top()
	for f.pc < len(h.Instrs)-1 {
		if _, isCall := h.Instrs[f.pc].(*ssa.Call); isCall {
			if b, ok := h.Instrs[f.pc].(*ssa.Call).Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return false
			}
		}
		if _, r := e.step(c, nil); r != stRun {
			return false
		}
		if c.top() != f {
			return false
		}
	}
	v, ok := e.val(c, last.Cond).(*Term)
	if !ok {
		return false
	}
	if v == TTrue || v == TFalse {
		return true
	}
	v = c.decide(v)
	if v == TTrue && f.visits[h] == 1 && e.hasInvs(f.fn) {
		// invariants count the iterations from the first one on
		return false
	}
	return v == TTrue || v == TFalse
}

func (e *Exec) step(s *State, ctl *runCtl) ([]*State, int) {
	f := s.top()
	in := f.block.Instrs[f.pc]
	f.pc++
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		e.fail("phi")
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		f.env[x] = e.allocObj(s, el, zeroOf(el))
	case *ssa.BinOp:
		v := e.binop(s, x)
		if s.dead {
			return nil, stDead
		}
		f.env[x] = v
	case *ssa.UnOp:
		v := e.unop(s, x)
		if s.dead {
			return nil, stDead
		}
		f.env[x] = v
	case *ssa.ChangeType:
		f.env[x] = e.convertNamed(s, e.val(s, x.X), x.X.Type(), x.Type())
	case *ssa.ChangeInterface:
		f.env[x] = e.val(s, x.X)
	case *ssa.Convert:
		f.env[x] = e.convert(s, x)
	case *ssa.MakeInterface:
		if fv, ok := e.val(s, x.X).(*FuncV); ok {
			f.env[x] = box(x.X.Type(), e.term(s, fv))
		} else {
			f.env[x] = box(x.X.Type(), e.tval(s, x.X))
		}
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range x.Bindings {
			b = append(b, e.val(s, v))
		}
		f.env[x] = &FuncV{fn: x.Fn.(*ssa.Function), binds: b}
	case *ssa.MakeMap:
		m := x.Type().Underlying().(*types.Map)
		r := e.newRef()
		e.setMap(s, m, r, emptyMap(m))
		f.env[x] = r
	case *ssa.MakeChan:
		f.env[x] = e.newRef()
	case *ssa.MakeSlice:
		el := x.Type().Underlying().(*types.Slice).Elem()
		n, c := e.tval(s, x.Len), e.tval(s, x.Cap)
		if !e.safety(s, "make length", And(Le(TInt(0), n), Le(n, c))) {
			return nil, stDead
		}
		b := e.newRef()
		e.setArr(s, el, b, ConstArr(arraySort(SInt, sortOf(el)), zeroOf(el)))
		f.env[x] = mkSlice(b, n, c)
	case *ssa.FieldAddr:
		p := e.val(s, x.X)
		if t, ok := p.(*Term); ok {
			if !e.nonNil(s, t, "nil pointer dereference") {
				return nil, stDead
			}
		}
		l := e.lptr(s, p, x.X.Type())
		st := l.elem.Underlying().(*types.Struct)
		f.env[x] = sub(l, acc{field: x.Field, typ: st.Field(x.Field).Type()})
	case *ssa.Field:
		v := e.tval(s, x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		r := fieldOf(x.X.Type(), v, x.Field)
		e.wf(s, st.Field(x.Field).Type(), r)
		f.env[x] = r
	case *ssa.IndexAddr:
		i := e.tval(s, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			if sv, ok := e.val(s, x.X).(*SliceV); ok {
				if !e.safety(s, "index out of range", And(Le(TInt(0), i), Lt(i, sv.n))) {
					return nil, stDead
				}
				f.env[x] = &LPtr{kind: 'A', ref: sv.base, idx: Add(sv.off, i), root: u.Elem(), elem: u.Elem()}
				break
			}
			v := e.tval(s, x.X)
			if !e.safety(s, "index out of range", And(Le(TInt(0), i), Lt(i, sLen(v)))) {
				return nil, stDead
			}
			f.env[x] = &LPtr{kind: 'A', ref: sBase(v), idx: i, root: u.Elem(), elem: u.Elem()}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			p := e.val(s, x.X)
			if t, ok := p.(*Term); ok && !e.nonNil(s, t, "nil pointer dereference") {
				return nil, stDead
			}
			if !e.safety(s, "index out of range", And(Le(TInt(0), i), Lt(i, TInt(at.Len())))) {
				return nil, stDead
			}
			l := e.lptr(s, p, x.X.Type())
			f.env[x] = sub(l, acc{idx: i, typ: at.Elem()})
		default:
			e.fail("indexaddr %s", x.X.Type())
		}
	case *ssa.Index:
		i := e.tval(s, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			if !e.safety(s, "index out of range", And(Le(TInt(0), i), Lt(i, TInt(u.Len())))) {
				return nil, stDead
			}
			f.env[x] = Select(e.tval(s, x.X), i)
		default:
			f.env[x] = e.strIndex(s, e.tval(s, x.X), i)
			if s.dead {
				return nil, stDead
			}
		}
	case *ssa.Lookup:
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			f.env[x] = e.strIndex(s, e.tval(s, x.X), e.tval(s, x.Index))
			if s.dead {
				return nil, stDead
			}
			break
		}
		m := x.X.Type().Underlying().(*types.Map)
		ref := e.tval(s, x.X)
		k := e.tval(s, x.Index)
		c := e.mapContent(s, m, ref)
		o := Select(c, k)
		os, _, some := optOf(sortOf(m.Elem()))
		_ = os
		present := Is(some, o)
		v := Ite(present, Sel(some, 0, o), zeroOf(m.Elem()))
		if d := s.decide(present); d == TTrue {
			v = Sel(some, 0, o)
		} else if d == TFalse {
			v = zeroOf(m.Elem())
		}
		e.wf(s, m.Elem(), v)
		if x.CommaOk {
			f.env[x] = Tuple{v, present}
		} else {
			f.env[x] = v
		}
	case *ssa.MapUpdate:
		m := x.Map.Type().Underlying().(*types.Map)
		ref := e.tval(s, x.Map)
		if !e.nonNil(s, ref, "assignment to entry in nil map") {
			return nil, stDead
		}
		k, v := e.tval(s, x.Key), e.tval(s, x.Value)
		os, _, some := optOf(sortOf(m.Elem()))
		e.setMap(s, m, ref, Store(e.mapc(s, m, ref), k, MkCtor(some, os, v)))
	case *ssa.Range:
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			ref := e.tval(s, x.X)
			f.env[x] = &iterV{m: e.mapContent(s, m, ref), mt: m}
		} else {
			f.env[x] = &iterV{m: e.tval(s, x.X)}
		}
	case *ssa.Next:
		it := e.val(s, x.Iter).(*iterV)
		ok := TFresh("more", SBool, loInf)
		if it.mt == nil { // string
			f.env[x] = Tuple{ok, TFresh("ri", SInt, loInf), TFresh("rune", SInt, loInf)}
			break
		}
		k := TFresh("key", sortOf(it.mt.Key()), it.m.lo)
		_, none, some := optOf(sortOf(it.mt.Elem()))
		s.add(Implies(ok, Is(some, Select(it.m, k))))
		os, _, _ := optOf(sortOf(it.mt.Elem()))
		s.add(Implies(Eq(it.m, ConstArr(it.m.sort, MkCtor(none, os))), Not(ok)))
		f.env[x] = Tuple{ok, k, Sel(some, 0, Select(it.m, k))}
	case *ssa.Extract:
		t, ok := e.val(s, x.Tuple).(Tuple)
		if !ok {
			e.fail("extract from %T in %s", e.val(s, x.Tuple), f.fn)
		}
		v := t[x.Index]
		e.wf(s, x.Type(), v)
		f.env[x] = v
	case *ssa.Slice:
		v := e.slice(s, x)
		if s.dead {
			return nil, stDead
		}
		f.env[x] = v
	case *ssa.Store:
		p := e.val(s, x.Addr)
		if t, ok := p.(*Term); ok && !e.nonNil(s, t, "nil pointer dereference") {
			return nil, stDead
		}
		e.storeL(s, e.lptr(s, p, x.Addr.Type()), e.tval(s, x.Val))
	case *ssa.TypeAssert:
		v, dead := e.typeAssert(s, x)
		if dead {
			return nil, stDead
		}
		f.env[x] = v
	case *ssa.If:
		c := s.reduce(e.tval(s, x.Cond))
		c = s.decide(c)
		if c == TTrue {
			return e.jump(s, f.block.Succs[0], ctl)
		}
		if c == TFalse {
			return e.jump(s, f.block.Succs[1], ctl)
		}
		if f.spec && e.inPure == 0 && ctl == nil {
			if to, region := diamond(f.block); to != nil {
				e.mergeDiamond(s, c, to, region)
				return nil, stRun
			}
		}
		o := s.clone()
		o.add(Not(c))
		s.add(c)
		var forks []*State
		if !o.dead {
			fs, r := e.jump(o, f.block.Succs[1], ctl)
			forks = append(forks, fs...)
			if r == stRun {
				forks = append(forks, o)
			} else if r == stBack {
				o.status = stBack
				forks = append(forks, o)
			}
		}
		if s.dead {
			return forks, stDead
		}
		fs, r := e.jump(s, f.block.Succs[0], ctl)
		return append(forks, fs...), r
	case *ssa.Jump:
		return e.jump(s, f.block.Succs[0], ctl)
	case *ssa.Return:
		var v Val
		switch len(x.Results) {
		case 0:
		case 1:
			v = e.val(s, x.Results[0])
		default:
			var t Tuple
			for _, r := range x.Results {
				t = append(t, e.val(s, r))
			}
			v = t
		}
		if ctl != nil && len(s.frames) == ctl.depth {
			return nil, stDead // leaves the loop
		}
		e.ret(s, v)
	case *ssa.Panic:
		if !f.spec && e.inPure == 0 {
			e.oblige(s, "safety", "panic", TFalse)
		}
		return nil, stDead
	case *ssa.Defer:
		fv, args, ok := e.callee(s, &x.Call)
		_ = ok
		f.defers = append(f.defers, deferred{fn: fv, args: args, call: &x.Call})
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.pc--
			return e.doCall(s, nil, d.call, d.fn, d.args)
		}
	case *ssa.Go:
		if e.c != nil && e.c.opts["go"] == "inline" {
			e.note("goroutine followed as if it ran when started: %s", x.Call.Value)
			fv, args, ok := e.callee(s, &x.Call)
			if !ok || s.dead {
				return nil, stDead
			}
			return e.doCall(s, nil, &x.Call, fv, args)
		}
		e.note("goroutine not followed: %s", x.Call.Value)
	case *ssa.Send:
		e.note("channel operation not modelled")
	case *ssa.Select:
		e.note("channel operation not modelled")
		var t Tuple
		t = append(t, TFresh("sel", SInt, loInf), TFresh("ok", SBool, loInf))
		for _, st := range x.States {
			if st.Dir == types.RecvOnly {
				t = append(t, TFresh("recv", sortOf(st.Chan.Type().Underlying().(*types.Chan).Elem()), e.epoch()))
			}
		}
		f.env[x] = t
	case *ssa.Call:
		fv, args, ok := e.callee(s, &x.Call)
		if !ok || s.dead {
			return nil, stDead
		}
		return e.doCall(s, x, &x.Call, fv, args)
	default:
		e.fail("instruction %T in %s", in, f.fn)
	}
	if s.dead {
		return nil, stDead
	}
	return nil, stRun
}

// mapContent reads a map; the nil map is empty.
func (e *Exec) mapContent(s *State, m *types.Map, ref *Term) *Term {
	ref = s.reduce(ref)
	isNil := s.decide(Eq(ref, TRef(0)))
	if isNil == TTrue {
		return emptyMap(m)
	}
	c := e.mapc(s, m, ref)
	if isNil == TFalse {
		return c
	}
	return Ite(isNil, emptyMap(m), c)
}

func (e *Exec) nonNil(s *State, t *Term, what string) bool {
	t = s.reduce(t)
	return e.safety(s, what, Not(Eq(t, TRef(0))))
}

func (e *Exec) strIndex(s *State, str, i *Term) *Term {
	e.safety(s, "index out of range", And(Le(TInt(0), i), Lt(i, StrLen(str))))
	return StrOp("str.to_code", SInt, StrOp("str.at", SString, str, i))
}

func (e *Exec) unop(s *State, x *ssa.UnOp) Val {
	switch x.Op {
	case token.MUL:
		p := e.val(s, x.X)
		if t, ok := p.(*Term); ok {
			if !e.nonNil(s, t, "nil pointer dereference") {
				return nil
			}
		}
		l := e.lptr(s, p, x.X.Type())
		v := e.loadL(s, l)
		v = s.reduce(v)
		e.wf(s, l.elem, v)
		return v
	case token.NOT:
		return Not(e.tval(s, x.X))
	case token.SUB:
		v := e.tval(s, x.X)
		if v.sort == SInt {
			return Mul(TInt(-1), v)
		}
		return TUF("f64_neg", SF64, loInf, v)
	case token.XOR:
		return TUF("bitnot", SInt, loInf, e.tval(s, x.X))
	case token.ARROW:
		e.note("channel receive not modelled")
		t := x.X.Type().Underlying().(*types.Chan).Elem()
		v := TFresh("recv", sortOf(t), e.epoch())
		if x.CommaOk {
			return Tuple{v, TFresh("ok", SBool, loInf)}
		}
		return v
	}
	e.fail("unop %s", x.Op)
	return nil
}

func (e *Exec) binop(s *State, x *ssa.BinOp) Val {
	if x.Op == token.EQL || x.Op == token.NEQ {
		a, b := e.val(s, x.X), e.val(s, x.Y)
		r := e.equal(s, a, b, x.X.Type())
		if x.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, b := e.tval(s, x.X), e.tval(s, x.Y)
	switch a.sort {
	case SInt:
		switch x.Op {
		case token.ADD:
			return Add(a, b)
		case token.SUB:
			return Sub(a, b)
		case token.MUL:
			return Mul(a, b)
		case token.QUO, token.REM:
			if !e.safety(s, "division by zero", Not(Eq(b, TInt(0)))) {
				return nil
			}
			return DivMod(x.Op == token.REM, a, b)
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Lt(b, a)
		case token.GEQ:
			return Le(b, a)
		case token.SHL:
			if b.op == "int" && b.big == nil && b.n < 1000 {
				return Mul(a, TBig(new(big.Int).Lsh(big.NewInt(1), uint(b.n))))
			}
			return TUF("shl", SInt, loInf, a, b)
		case token.SHR:
			if b.op == "int" && b.big == nil && b.n < 1000 {
				return DivMod(false, a, TBig(new(big.Int).Lsh(big.NewInt(1), uint(b.n))))
			}
			return TUF("shr", SInt, loInf, a, b)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if a.op == "int" && b.op == "int" && a.big == nil && b.big == nil {
				switch x.Op {
				case token.AND:
					return TInt(a.n & b.n)
				case token.OR:
					return TInt(a.n | b.n)
				case token.XOR:
					return TInt(a.n ^ b.n)
				default:
					return TInt(a.n &^ b.n)
				}
			}
			if a.id > b.id && x.Op != token.AND_NOT {
				a, b = b, a
			}
			return TUF("bit_"+smtOp(x.Op), SInt, loInf, a, b)
		}
	case SString:
		switch x.Op {
		case token.ADD:
			return Concat(a, b)
		case token.LSS:
			return StrOp("str.<", SBool, a, b)
		case token.LEQ:
			return StrOp("str.<=", SBool, a, b)
		case token.GTR:
			return StrOp("str.<", SBool, b, a)
		case token.GEQ:
			return StrOp("str.<=", SBool, b, a)
		}
	case SF64:
		switch x.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return TUF("f64_"+smtOp(x.Op), SBool, loInf, a, b)
		default:
			return TUF("f64_"+smtOp(x.Op), SF64, loInf, a, b)
		}
	case SBool:
		switch x.Op {
		case token.AND:
			return And(a, b)
		case token.OR:
			return Or(a, b)
		}
	}
	e.fail("binop %s on %s", x.Op, a.sort.name)
	return nil
}

func smtOp(t token.Token) string {
	return map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div", token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot", token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[t]
}

func DivMod(mod bool, a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.n != 0 {
		q, r := new(big.Int).QuoRem(toBig(a), toBig(b), new(big.Int))
		if mod {
			return TBig(r)
		}
		return TBig(q)
	}
	op := "div"
	if mod {
		op = "mod"
	}
	return mk(&Term{op: op, args: []*Term{a, b}, sort: SInt, lo: loInf})
}

// equal compares two Go values of static type t.
func (e *Exec) equal(s *State, a, b Val, t types.Type) *Term {
	if fa, ok := a.(*FuncV); ok {
		if tb, ok := b.(*Term); ok && tb == TRef(0) {
			return TFalse
		}
		_ = fa
	}
	if fb, ok := b.(*FuncV); ok {
		if ta, ok := a.(*Term); ok && ta == TRef(0) {
			return TFalse
		}
		_ = fb
	}
	if la, ok := a.(*LPtr); ok {
		if tb, ok := b.(*Term); ok && tb == TRef(0) {
			return TFalse
		}
		if lb, ok := b.(*LPtr); ok {
			return TBool(sameL(la, lb))
		}
	}
	if lb, ok := b.(*LPtr); ok {
		if ta, ok := a.(*Term); ok && ta == TRef(0) {
			_ = lb
			return TFalse
		}
	}
	if sa, ok := a.(*SliceV); ok {
		return Eq(sa.base, TRef(0))
	}
	x, y := e.term(s, a), e.term(s, b)
	if sortOf(t) == SSlice { // comparison with nil only
		if y.op == "ctor" && y.args[0] == TRef(0) {
			return Eq(sBase(x), TRef(0))
		}
		return Eq(sBase(y), TRef(0))
	}
	return Eq(s.reduce(x), s.reduce(y))
}

func (e *Exec) slice(s *State, x *ssa.Slice) Val {
	var lo *Term = TInt(0)
	if x.Low != nil {
		lo = e.tval(s, x.Low)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic: // string
		v := e.tval(s, x.X)
		hi := StrLen(v)
		if x.High != nil {
			hi = e.tval(s, x.High)
		}
		e.safety(s, "slice bounds out of range", And(Le(TInt(0), lo), Le(lo, hi), Le(hi, StrLen(v))))
		return Substr(v, lo, Sub(hi, lo))
	case *types.Slice:
		var base, off, n, cp *Term
		if sv, ok := e.val(s, x.X).(*SliceV); ok {
			base, off, n, cp = sv.base, sv.off, sv.n, sv.cap
		} else {
			v := e.tval(s, x.X)
			base, off, n, cp = sBase(v), TInt(0), sLen(v), sCap(v)
		}
		hi := n
		if x.High != nil {
			hi = e.tval(s, x.High)
		}
		mx := cp
		if x.Max != nil {
			mx = e.tval(s, x.Max)
		}
		e.safety(s, "slice bounds out of range", And(Le(TInt(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)))
		no := Add(off, lo)
		if no == TInt(0) {
			return mkSlice(base, hi, mx)
		}
		return &SliceV{base: base, off: no, n: Sub(hi, lo), cap: Sub(mx, lo), elem: u.Elem()}
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		l := e.lptr(s, e.val(s, x.X), x.X.Type())
		hi := TInt(at.Len())
		if x.High != nil {
			hi = e.tval(s, x.High)
		}
		// the array becomes the slice's backing store (the usual literal)
		b := e.newRef()
		e.setArr(s, at.Elem(), b, e.loadL(s, l))
		if lo == TInt(0) {
			return mkSlice(b, hi, TInt(at.Len()))
		}
		return &SliceV{base: b, off: lo, n: Sub(hi, lo), cap: Sub(TInt(at.Len()), lo), elem: at.Elem()}
	}
	e.fail("slice of %s", x.X.Type())
	return nil
}

// convertNamed handles conversions between types of identical underlying type.
func (e *Exec) convertNamed(s *State, v Val, from, to types.Type) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts || sortKey(fs) == sortKey(ts) {
		return v
	}
	if st, ok := to.Underlying().(*types.Struct); ok {
		ff := from.Underlying().(*types.Struct)
		args := make([]*Term, st.NumFields())
		for i := range args {
			args[i] = e.term(s, e.convertNamed(s, fieldOf(from, t, i), ff.Field(i).Type(), st.Field(i).Type()))
		}
		return MkCtor(structCtor[ts], ts, args...)
	}
	e.fail("conversion %s -> %s", from, to)
	return nil
}

func (e *Exec) convert(s *State, x *ssa.Convert) Val {
	v := e.val(s, x.X)
	from, to := x.X.Type().Underlying(), x.Type().Underlying()
	fs, ts := sortOf(x.X.Type()), sortOf(x.Type())
	switch {
	case fs == SInt && ts == SInt, fs == SString && ts == SString:
		t := v.(*Term)
		if fs == SInt {
			return e.intConv(s, t, from, to)
		}
		return v
	case fs == SSlice && ts == SString: // []byte -> string
		var c, n *Term
		el := from.(*types.Slice).Elem()
		if sv, ok := v.(*SliceV); ok {
			v = e.term(s, sv)
		}
		t := v.(*Term)
		c, n = e.arr(s, el, sBase(t)), sLen(t)
		return e.bytesToStr(s, c, n)
	case fs == SString && ts == SSlice:
		el := to.(*types.Slice).Elem()
		t := v.(*Term)
		b := e.newRef()
		e.setArr(s, el, b, TUF("str_bytes", arraySort(SInt, SInt), loInf, t))
		return mkSlice(b, StrLen(t), StrLen(t))
	case fs == SInt && ts == SString:
		return TUF("rune_str", SString, loInf, v.(*Term))
	case fs == SInt && ts == SF64:
		return TUF("int_f64", SF64, loInf, v.(*Term))
	case fs == SF64 && ts == SInt:
		return TUF("f64_int", SInt, loInf, v.(*Term))
	case fs == SF64 && ts == SF64:
		return v
	case fs == SRef && ts == SRef:
		e.note("unsafe pointer conversion")
		return v
	}
	e.fail("convert %s -> %s", from, to)
	return nil
}

func (e *Exec) bytesToStr(s *State, c, n *Term) *Term {
	if c.op == "uf" && c.name == "str_bytes" && n == StrLen(c.args[0]) {
		return c.args[0]
	}
	r := TUF("bytes_str", SString, loInf, c, n)
	if !r.hasBound {
		s.fact(Eq(StrLen(r), n))
	}
	return r
}

func (e *Exec) intConv(s *State, t *Term, from, to types.Type) Val {
	flo, fhi, ok1 := intRange(from)
	tlo, thi, ok2 := intRange(to)
	if ok1 && ok2 {
		a, _ := new(big.Int).SetString(flo, 10)
		b, _ := new(big.Int).SetString(fhi, 10)
		c, _ := new(big.Int).SetString(tlo, 10)
		d, _ := new(big.Int).SetString(thi, 10)
		if c.Cmp(a) <= 0 && b.Cmp(d) <= 0 {
			return t
		}
		if t.op == "int" && toBig(t).Cmp(c) >= 0 && toBig(t).Cmp(d) <= 0 {
			return t
		}
		// narrowing: exact inside the target range, unspecified outside
		in := And(Le(TBig(c), t), Le(t, TBig(d)))
		if s.decide(in) == TTrue {
			return t
		}
		w := TUF(fmt.Sprintf("wrap_%s", nonIdent.ReplaceAllString(to.String(), "_")), SInt, loInf, t)
		return Ite(in, t, w)
	}
	return t
}

func (e *Exec) typeAssert(s *State, x *ssa.TypeAssert) (Val, bool) {
	v := s.reduce(e.tval(s, x.X))
	at := x.AssertedType
	if types.IsInterface(at) {
		var ok *Term
		if types.IsInterface(x.X.Type()) && at.Underlying().(*types.Interface).NumMethods() == 0 {
			ok = Not(Is(CNil, v))
		} else {
			ok = e.implements(s, v, at)
		}
		if x.CommaOk {
			return Tuple{Ite(ok, v, nilIface()), ok}, false
		}
		return v, !e.safety(s, "type assertion", ok)
	}
	c := boxCtor(at)
	ok := s.decide(Is(c, v))
	val := Sel(c, 0, v)
	if x.CommaOk {
		r := val
		if ok != TTrue {
			if ok == TFalse {
				r = zeroOf(at)
			} else {
				r = Ite(ok, val, zeroOf(at))
			}
		}
		return Tuple{r, ok}, false
	}
	if !e.safety(s, "type assertion", Is(c, v)) {
		return nil, true
	}
	e.wf(s, at, val)
	return val, false
}

func (e *Exec) implements(s *State, v *Term, it types.Type) *Term {
	if v.op == "ctor" {
		if v.ctor == CNil {
			return TFalse
		}
		if t, ok := v.ctor.boxed.(types.Type); ok {
			return TBool(types.Implements(t, it.Underlying().(*types.Interface)))
		}
	}
	if v.op == "ite" {
		return Ite(v.args[0], e.implements(s, v.args[1], it), e.implements(s, v.args[2], it))
	}
	return And(Not(Is(CNil, v)), TUF("implements_"+smtName(typeStr(it)), SBool, loInf, v))
}


// diamond finds the block joining the short-circuit evaluation (&&, ||) of
// which the test at the end of b is part, and the blocks in between.
func diamond(b *ssa.BasicBlock) (*ssa.BasicBlock, map[*ssa.BasicBlock]bool) {
	var best *ssa.BasicBlock
	var bestR map[*ssa.BasicBlock]bool
	for _, to := range b.Parent().Blocks {
		if len(to.Instrs) == 0 || to == b || !b.Dominates(to) {
			continue
		}
		p, ok := to.Instrs[0].(*ssa.Phi)
		if !ok || p.Comment != "&&" && p.Comment != "||" {
			continue
		}
		region := map[*ssa.BasicBlock]bool{}
		good := true
		var rec func(x *ssa.BasicBlock)
		rec = func(x *ssa.BasicBlock) {
			if x == to || region[x] {
				return
			}
			switch x.Comment {
			case "binop.rhs", "cond.true", "cond.false":
			default:
				good = false
				return
			}
			region[x] = true
			for _, y := range x.Succs {
				rec(y)
			}
		}
		for _, y := range b.Succs {
			rec(y)
		}
		if good && (best == nil || len(region) < len(bestR)) {
			best, bestR = to, region
		}
	}
	return best, bestR
}

// mergeDiamond evaluates a short-circuit expression of a contract without
// branching the path.
func (e *Exec) mergeDiamond(s *State, c *Term, to *ssa.BasicBlock, region map[*ssa.BasicBlock]bool) {
	depth := len(s.frames)
	start := len(s.pc)
	e.inPure++
	var outs []*State
	ctl := &runCtl{depth: depth, header: to, loop: region}
	for i, succ := range s.top().block.Succs {
		o := s.clone()
		if i == 0 {
			o.add(c)
		} else {
			o.add(Not(c))
		}
		if o.dead {
			continue
		}
		fs, r := e.jump(o, succ, ctl)
		_ = fs
		switch r {
		case stBack:
			outs = append(outs, o)
		case stRun:
			outs = append(outs, e.run(o, depth, ctl)...)
		}
	}
	e.inPure--
	if len(outs) == 0 {
		e.fail("short-circuit expression without result")
	}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	vals := make(Tuple, len(phis))
	heap := map[string]*Term{}
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		var conds []*Term
		for _, c := range o.pc[start:] {
			if !o.facts[c.id] {
				conds = append(conds, c)
			} else if len(outs) == 1 || !freeBound(c) {
				s.fact(c)
			}
		}
		cond := And(conds...)
		for j, p := range phis {
			v := o.top().env[p]
			if i < len(outs)-1 {
				v = e.merge(s, cond, v, vals[j])
			}
			vals[j] = v
		}
		for k, v := range o.heap {
			if i == len(outs)-1 {
				heap[k] = v
			} else if h, ok := heap[k]; ok && h != v {
				heap[k] = Ite(cond, v, h)
			} else if !ok {
				b, inBase := e.base[k]
				if !inBase {
					b = heapVar(k, v.sort)
				}
				heap[k] = Ite(cond, v, b)
			}
		}
	}
	for k, v := range heap {
		s.heap[k] = v
	}
	f := s.top()
	f.prev, f.block, f.pc = nil, to, len(phis)
	for j, p := range phis {
		f.env[p] = vals[j]
	}
}
