package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// methodTarget is a method call on an interface value whose dynamic type is
// not known.
type methodTarget struct {
	recv *Term
	m    *types.Func
	it   types.Type
}

func keyOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// callee resolves the called function and evaluates the arguments.
func (e *Exec) callee(s *State, c *ssa.CallCommon) (Val, []Val, bool) {
	var args []Val
	for _, a := range c.Args {
		args = append(args, e.val(s, a))
	}
	if !c.IsInvoke() {
		switch v := c.Value.(type) {
		case *ssa.Builtin:
			return v, args, true
		case *ssa.Function:
			return &FuncV{fn: v}, args, true
		}
		fv := e.val(s, c.Value)
		if t, ok := fv.(*Term); ok {
			if !e.nonNil(s, t, "call of a nil function") {
				return nil, nil, false
			}
		}
		return fv, args, true
	}
	recv := s.reduce(e.tval(s, c.Value))
	if !e.safety(s, "nil interface method call", Not(Is(CNil, recv))) {
		return nil, nil, false
	}
	return e.dispatch(s, recv, c, args)
}

func (e *Exec) dispatch(s *State, recv *Term, c *ssa.CallCommon, args []Val) (Val, []Val, bool) {
	if recv.op != "ctor" {
		for _, k := range ifaceDT.ctors {
			if k.boxed != nil && s.pcset[isID(k, recv)] {
				recv = MkCtor(k, SIface, Sel(k, 0, recv))
				break
			}
		}
	}
	modelled := false
	for _, k := range ifaceKeys(c.Value.Type(), c.Method) {
		modelled = modelled || e.strongModel(k)
	}
	if recv.op == "ctor" && recv.ctor.boxed != nil && !modelled {
		t := recv.ctor.boxed.(types.Type)
		if fn := e.methodOf(t, c.Method); fn != nil {
			return &FuncV{fn: fn}, append([]Val{recv.args[0]}, args...), true
		}
	}
	return &methodTarget{recv: recv, m: c.Method, it: c.Value.Type()}, args, true
}

func (e *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	sel := e.w.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return e.w.prog.MethodValue(sel)
}

func ifaceKeys(it types.Type, m *types.Func) []string {
	var ks []string
	if n := namedKey(types.Unalias(it)); n != "" {
		ks = append(ks, "("+n+")."+m.Name())
	}
	// the interface which declares the method (embedding)
	if sig, ok := m.Type().(*types.Signature); ok && sig.Recv() != nil {
		if n := namedKey(types.Unalias(sig.Recv().Type())); n != "" {
			ks = append(ks, "("+n+")."+m.Name())
		}
	}
	if m.Name() == "Error" {
		ks = append(ks, "(error).Error")
	}
	return ks
}

func (e *Exec) resTypes(sig *types.Signature) []types.Type {
	var r []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		r = append(r, sig.Results().At(i).Type())
	}
	return r
}

func pack(vs []Val) Val {
	switch len(vs) {
	case 0:
		return nil
	case 1:
		return vs[0]
	}
	return Tuple(vs)
}

func (e *Exec) setRes(s *State, call ssa.CallInstruction, v Val) ([]*State, int) {
	if call != nil {
		if val := call.Value(); val != nil {
			s.top().env[val] = v
		}
	}
	if s.dead {
		return nil, stDead
	}
	return nil, stRun
}

func (e *Exec) specCtx(s *State) bool { return s.top().spec || e.inPure > 0 }

// doCall performs a call; call is nil for deferred calls (result dropped).
func (e *Exec) doCall(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, fv Val, args []Val) ([]*State, int) {
	switch f := fv.(type) {
	case *ssa.Builtin:
		v := e.builtin(s, f.Name(), cc, args)
		if s.dead {
			return nil, stDead
		}
		return e.setRes(s, call, v)
	case *methodTarget:
		return e.callMethod(s, call, cc, f, args)
	case *Term:
		f = s.reduce(f)
		if g := e.fnval(s, f); g != nil {
			return e.callFunc(s, call, cc, g, args)
		}
		if f.op == "ite" {
			o := s.clone()
			o.add(Not(f.args[0]))
			s.add(f.args[0])
			var forks []*State
			if !o.dead {
				fs, r := e.doCall(o, call, cc, f.args[2], args)
				forks = append(forks, fs...)
				if r == stRun {
					forks = append(forks, o)
				}
			}
			if s.dead {
				return forks, stDead
			}
			fs, r := e.doCall(s, call, cc, f.args[1], args)
			return append(forks, fs...), r
		}
		return e.unknownFunc(s, call, cc, f, args)
	case *FuncV:
		return e.callFunc(s, call, cc, f, args)
	}
	e.fail("call of %T", fv)
	return nil, stDead
}

// unknownFunc: a function value we know nothing about. It is treated as a
// pure function of its arguments, or (in contracts with opt stateful) as an
// oracle whose n-th call gives the n-th answer.
func (e *Exec) unknownFunc(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, f *Term, args []Val) ([]*State, int) {
	sig := cc.Signature()
	// a model named after the function type
	if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
		if m := e.w.models[namedKey(n)]; m != nil && len(m.Params) == len(args)+1 {
			e.used["model "+short(namedKey(n))] = true
			e.pushFrame(s, m, append([]Val{f}, args...), nil, call, true)
			return nil, stRun
		}
	}
	name := "fn_" + smtName("sig "+sig.String())
	if e.c != nil && e.c.opts["funcs"] == "stateful" {
		// the number of calls made so far lives in the heap
		key := "G:calls"
		cnt := e.heapGet(s, key, arraySort(SRef, SInt))
		n := Select(cnt, f)
		e.heapSet(s, key, Store(cnt, f, Add(n, TInt(1))))
		var rs []Val
		for i, t := range e.resTypes(sig) {
			r := TUF(fmt.Sprintf("%s_call_%d", name, i), sortOf(t), 0, f, n)
			e.wf(s, t, r)
			rs = append(rs, r)
		}
		return e.setRes(s, call, pack(rs))
	}
	ts := []*Term{f}
	for _, a := range args {
		ts = append(ts, e.term(s, a))
	}
	var rs []Val
	for i, t := range e.resTypes(sig) {
		r := TUF(fmt.Sprintf("%s_%d", name, i), sortOf(t), 0, ts...)
		e.wf(s, t, r)
		rs = append(rs, r)
	}
	e.note("function values passed in are pure functions of their arguments (%s)", sig)
	return e.setRes(s, call, pack(rs))
}

// strongModel: calls of this interface method go to its model even where the
// dynamic type is known (functions named mw_* are models for unknown types
// only).
func (e *Exec) strongModel(k string) bool {
	m := e.w.models[k]
	return m != nil && strings.HasPrefix(k, "("+modPath) && !strings.HasPrefix(m.Name(), "mw_")
}

func (e *Exec) callMethod(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, m *methodTarget, args []Val) ([]*State, int) {
	all := append([]Val{m.recv}, args...)
	for _, k := range ifaceKeys(m.it, m.m) {
		if e.strongModel(k) {
			if r1, r2, done := e.byKey(s, call, cc, k, all, nil); done {
				return r1, r2
			}
		}
	}
	if m.recv.op == "ite" {
		o := s.clone()
		c := m.recv.args[0]
		o.add(Not(c))
		s.add(c)
		var forks []*State
		if !o.dead {
			fv, as, _ := e.dispatch(o, o.reduce(m.recv.args[2]), cc, args)
			fs, r := e.doCall(o, call, cc, fv, as)
			forks = append(forks, fs...)
			if r == stRun {
				forks = append(forks, o)
			}
		}
		if s.dead {
			return forks, stDead
		}
		fv, as, _ := e.dispatch(s, s.reduce(m.recv.args[1]), cc, args)
		fs, r := e.doCall(s, call, cc, fv, as)
		return append(forks, fs...), r
	}
	for _, k := range ifaceKeys(m.it, m.m) {
		if e.w.models[k] != nil || e.w.byTarget[k] != nil {
			if r1, r2, done := e.byKey(s, call, cc, k, all, nil); done {
				return r1, r2
			}
		}
	}
	// closed world: a single implementation in the repository
	if impls := e.w.implementers(m.it); len(impls) == 1 && strings.HasPrefix(namedKey(types.Unalias(m.it)), modPath) {
		t := impls[0]
		e.note("interface %s taken as implemented by %s only", short(namedKey(types.Unalias(m.it))), short(typeStr(t)))
		c := boxCtor(t)
		s.add(Is(c, m.recv))
		fn := e.methodOf(t, m.m)
		p := Sel(c, 0, m.recv)
		if p.sort == SRef {
			s.add(Not(Eq(p, TRef(0))))
		}
		return e.callFunc(s, call, cc, &FuncV{fn: fn}, append([]Val{p}, args...))
	}
	sig := m.m.Type().(*types.Signature)
	key := "(" + typeStr(m.it) + ")." + m.m.Name()
	return e.external(s, call, cc, key, sig, all)
}

func short(s string) string {
	s = strings.ReplaceAll(s, modPath+"/adapter/", "")
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (w *World) implementers(it types.Type) []types.Type {
	if w.impls == nil {
		w.impls = map[string][]types.Type{}
	}
	k := typeStr(it)
	if r, ok := w.impls[k]; ok {
		return r
	}
	var out []types.Type
	iface := it.Underlying().(*types.Interface)
	for _, path := range sortedKeys(w.pkgs) {
		p := w.pkgs[path]
		if strings.HasSuffix(path, "/vmodels") || strings.HasSuffix(path, "/vspec") || strings.Contains(path, "/tests/") {
			continue
		}
		for _, n := range sortedKeys(p.Members) {
			t, ok := p.Members[n].(*ssa.Type)
			if !ok || types.IsInterface(t.Type()) {
				continue
			}
			if w.specFile[w.fset.Position(t.Pos()).Filename] {
				continue
			}
			if types.Implements(t.Type(), iface) {
				out = append(out, t.Type())
			} else if pt := types.NewPointer(t.Type()); types.Implements(pt, iface) {
				out = append(out, pt)
			}
		}
	}
	w.impls[k] = out
	return out
}

// byKey handles models and contracts. done is false when neither applies.
func (e *Exec) byKey(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, key string, args []Val, fn *ssa.Function) ([]*State, int, bool) {
	top := s.top()
	// the target call of a contract
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.owner != nil && f.owner.target == key && i == len(s.frames)-1 {
			if f.assume {
				return e.assumeTarget(s, call, cc, key, args, fn)
			}
			return nil, 0, false // verify: run the body
		}
	}
	if m := e.w.models[key]; m != nil && !e.inlineOverride(key) {
		// a model may call what it models (passing through to the code)
		if keyOf(top.fn) == keyOf(m) {
			return nil, 0, false
		}
		e.used["model "+short(key)] = true
		if len(args) == len(m.Params)+1 {
			args = args[1:] // a receiver of an unexported type
		}
		if len(args) != len(m.Params) {
			e.fail("model %s does not fit %s", m.Name(), key)
		}
		e.pushFrame(s, m, args, nil, call, true)
		return nil, stRun, true
	}
	c := e.w.byTarget[key]
	if c == nil && e.c != nil && e.c.target == key && e.c.opts["recursive"] != "" {
		c = e.c
	}
	if c != nil && !e.inlineOverride(key) {
		if (e.inPure > 0 || top.spec) && !strings.Contains(key, ".lemma_") {
			// specifications see through to a pure body when there is one
			if fn != nil && len(fn.Blocks) > 0 && top.owner == nil {
				return nil, 0, false
			}
		}
		e.used["contract "+c.name] = true
		f := e.pushFrame(s, c.fn, args, nil, nil, true)
		f.owner, f.assume = c, true
		f.call = call
		f.retPatch = func(st *State, _ Val) Val { return f.resultOf(st) }
		return nil, stRun, true
	}
	return nil, 0, false
}

// resultOf finds the result recorded by the contract run in assume mode.
func (f *Frame) resultOf(s *State) Val {
	return s.pendingRes(f.depth)
}

func (e *Exec) inlineOverride(key string) bool {
	if e.c == nil {
		return false
	}
	for _, k := range e.c.inline {
		if k == key || k == "*" {
			return true
		}
	}
	return e.c.target == key && false
}

// assumeTarget replaces the contracted call by arbitrary results.
func (e *Exec) assumeTarget(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, key string, args []Val, fn *ssa.Function) ([]*State, int, bool) {
	sig := cc.Signature()
	for _, b := range s.top().mods {
		t := b.ctor.boxed.(types.Type)
		if _, ok := t.Underlying().(*types.Signature); ok {
			h := e.heapGet(s, "G:calls", arraySort(SRef, SInt))
			e.heapSet(s, "G:calls", Store(h, b.args[0], TFresh("calls", SInt, loInf)))
			continue
		}
		e.havocPointee(s, b)
	}
	lo := e.epoch()
	var rs []Val
	for i, t := range e.resTypes(sig) {
		r := TFresh(fmt.Sprintf("ret%d_%s", i, lastName(key)), sortOf(t), lo)
		for _, f := range wfFacts(t, r, nil) {
			s.fact(f)
		}
		rs = append(rs, r)
	}
	v := pack(rs)
	s.setPendingRes(s.top().depth, v)
	a, b := e.setRes(s, call, v)
	return a, b, true
}

func lastName(k string) string {
	if i := strings.LastIndexAny(k, "./"); i >= 0 {
		return k[i+1:]
	}
	return k
}

func (e *Exec) callFunc(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, f *FuncV, args []Val) ([]*State, int) {
	fn := f.fn
	key := keyOf(fn)
	pkg := fnPkg(fn)
	if fn.Name() == "init" && fn.Synthetic != "" {
		return nil, stRun // packages are initialised one by one, in order
	}
	if strings.HasSuffix(pkg, "/vspec") {
		return e.intrinsic(s, call, cc, fn, args)
	}
	if e.w.isSpec(fn) && fn.Parent() == nil {
		n := fn.Name()
		switch {
		case strings.HasPrefix(n, "uf_"), strings.HasPrefix(n, "Uf_"):
			return e.setRes(s, call, e.ufCall(s, fn, args))
		case strings.HasPrefix(n, "any_"):
			var rs []Val
			for _, t := range e.resTypes(fn.Signature) {
				r := TFresh(n, sortOf(t), e.epoch())
				e.wf(s, t, r)
				rs = append(rs, r)
			}
			return e.setRes(s, call, pack(rs))
		case strings.HasPrefix(n, "cast_"):
			return e.setRes(s, call, args[0])
		case strings.HasPrefix(n, "forall"), strings.HasPrefix(n, "exists"):
			return e.setRes(s, call, e.quantCall(s, fn, args))
		case strings.HasPrefix(n, "rec_"), strings.HasPrefix(n, "Rec_"):
			return e.setRes(s, call, e.recCall(s, fn, args))
		case strings.HasPrefix(n, "spec_"), strings.HasPrefix(n, "Spec_"), strings.HasPrefix(n, "inv_"):
			return e.setRes(s, call, e.pureCall(s, fn, args, f.binds))
		}
	}
	if pkg == "go.uber.org/zap" || strings.HasPrefix(pkg, "go.uber.org/zap/") {
		return e.zapCall(s, call, fn)
	}
	if fs, r, done := e.byKey(s, call, cc, key, args, fn); done {
		return fs, r
	}
	if len(fn.Blocks) == 0 || (e.w.pkgs[pkg] == nil && fn.Synthetic == "") {
		return e.external(s, call, cc, key, fn.Signature, args)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && len(s.frames) > 0 {
		return nil, stRun
	}
	spec := e.w.isSpec(fn) || (s.top().spec && s.top().owner == nil && e.inPure > 0)
	if !spec {
		e.inlined[key]++
	}
	// bounded recursion
	n := 0
	for _, fr := range s.frames {
		if fr.fn == fn {
			n++
		}
	}
	if n > 12 {
		e.fail("recursion too deep: %s", fn)
	}
	e.pushFrame(s, fn, args, f.binds, call, spec)
	return nil, stRun
}

func fnPkg(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (e *Exec) zapCall(s *State, call ssa.CallInstruction, fn *ssa.Function) ([]*State, int) {
	if fn.Name() == "Fatal" || fn.Name() == "Panic" || fn.Name() == "Fatalf" || fn.Name() == "Panicf" {
		return nil, stDead // ends the process
	}
	var rs []Val
	for _, t := range e.resTypes(fn.Signature) {
		if sortOf(t) == SRef {
			rs = append(rs, TUF("zap_"+fn.Name(), SRef, 1))
			s.add(Not(Eq(rs[len(rs)-1].(*Term), TRef(0))))
		} else {
			rs = append(rs, TUF("zap_"+fn.Name()+"_"+smtName(typeStr(t)), sortOf(t), 0))
		}
	}
	return e.setRes(s, call, pack(rs))
}

// ufCall applies an uninterpreted function. Slices and maps are passed by
// content, pointers by reference.
func (e *Exec) ufCall(s *State, fn *ssa.Function, args []Val) Val {
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.byContent(s, fn.Signature.Params().At(i).Type(), a)...)
	}
	var rs []Val
	for i, t := range e.resTypes(fn.Signature) {
		r := TUF(fmt.Sprintf("%s_%d", fn.Name(), i), sortOf(t), 0, ts...)
		e.wf(s, t, r)
		rs = append(rs, r)
	}
	return pack(rs)
}

func (e *Exec) byContent(s *State, t types.Type, a Val) []*Term {
	x := e.term(s, a)
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		return []*Term{e.arr(s, u.Elem(), sBase(x)), sLen(x)}
	case *types.Map:
		return []*Term{e.mapContent(s, u, x)}
	}
	return []*Term{x}
}

// external: no body, no model.
func (e *Exec) external(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, key string, sig *types.Signature, args []Val) ([]*State, int) {
	if e.specCtx(s) && e.inPure > 0 {
		// in specifications an unknown function is uninterpreted
		var ts []*Term
		for _, a := range args {
			ts = append(ts, e.term(s, a))
		}
		var rs []Val
		for i, t := range e.resTypes(sig) {
			rs = append(rs, TUF(fmt.Sprintf("ext_%s_%d", smtName(key), i), sortOf(t), 0, ts...))
		}
		return e.setRes(s, call, pack(rs))
	}
	e.note("unmodelled call %s: arbitrary result, no effect on the program's own state", short(key))
	lo := e.epoch()
	var rs []Val
	for _, t := range e.resTypes(sig) {
		r := TFresh("ext_"+lastName(key), sortOf(t), lo)
		e.wf(s, t, r)
		rs = append(rs, r)
	}
	return e.setRes(s, call, pack(rs))
}

// ---- builtins ----

func (e *Exec) builtin(s *State, name string, cc *ssa.CallCommon, args []Val) Val {
	switch name {
	case "len", "cap":
		t := cc.Args[0].Type()
		if sv, ok := args[0].(*SliceV); ok {
			if name == "len" {
				return sv.n
			}
			return sv.cap
		}
		v := s.reduce(e.term(s, args[0]))
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return StrLen(v)
		case *types.Slice:
			e.wf(s, t, v)
			if name == "len" {
				return sLen(v)
			}
			return sCap(v)
		case *types.Map:
			return e.mapLen(s, u, e.mapContent(s, u, v))
		case *types.Array:
			return TInt(u.Len())
		case *types.Pointer:
			return TInt(u.Elem().Underlying().(*types.Array).Len())
		default:
			return TFresh("chanlen", SInt, loInf)
		}
	case "append":
		return e.appendCall(s, cc, args)
	case "copy":
		return e.copyCall(s, cc, args)
	case "delete":
		m := cc.Args[0].Type().Underlying().(*types.Map)
		ref := s.reduce(e.term(s, args[0]))
		k := e.term(s, args[1])
		o, none, _ := optOf(sortOf(m.Elem()))
		n := Store(e.mapc(s, m, ref), k, MkCtor(none, o))
		if d := s.decide(Eq(ref, TRef(0))); d == TTrue {
			return nil
		} else if d != TFalse {
			n = Ite(d, e.mapc(s, m, ref), n)
		}
		e.setMap(s, m, ref, n)
		return nil
	case "panic":
		if !e.specCtx(s) {
			e.oblige(s, "safety", "panic", TFalse)
		}
		s.dead = true
		return nil
	case "print", "println", "close":
		return nil
	case "recover":
		return nilIface()
	case "ssa:wrapnilchk":
		p := e.term(s, args[0])
		e.nonNil(s, p, "nil pointer dereference")
		return p
	case "min", "max":
		a := e.term(s, args[0])
		for _, b := range args[1:] {
			y := e.term(s, b)
			c := Le(a, y)
			if name == "max" {
				c = Le(y, a)
			}
			a = Ite(c, a, y)
		}
		return a
	case "clear":
		if m, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			e.setMap(s, m, e.term(s, args[0]), emptyMap(m))
			return nil
		}
	}
	e.fail("builtin %s", name)
	return nil
}

func (e *Exec) mapLen(s *State, m *types.Map, c *Term) *Term {
	if c == emptyMap(m) {
		return TInt(0)
	}
	n := TUF("maplen_"+sortTag(c.sort), SInt, loInf, c)
	if !n.hasBound || e.inPure == 0 {
		s.fact(Le(TInt(0), n))
		s.fact(Eq(Eq(n, TInt(0)), Eq(c, emptyMap(m))))
		if c.op == "store" && c.args[2].op == "ctor" && len(c.args[2].args) == 1 {
			s.fact(Le(TInt(1), n))
		}
		// an empty map has no entries (extensionality made explicit)
		k := TBVar("k", c.sort.key, loInf)
		_, none, _ := optOf(sortOf(m.Elem()))
		s.fact(Or(Not(Eq(n, TInt(0))), Forall([]*Term{k}, Is(none, Select(c, k)))))
		w := TUF("mapwit_"+sortTag(c.sort), c.sort.key, loInf, c)
		s.fact(Or(Eq(n, TInt(0)), Not(Is(none, Select(c, w)))))
	}
	return n
}

func sortTag(s *Sort) string { return nonIdent.ReplaceAllString(sortKey(s), "_") }

func (e *Exec) appendCall(s *State, cc *ssa.CallCommon, args []Val) Val {
	st := cc.Args[0].Type().Underlying().(*types.Slice)
	el := st.Elem()
	a := e.term(s, args[0])
	a = s.reduce(a)
	e.wf(s, cc.Args[0].Type(), a)
	n := sLen(a)
	var src *Term
	var m *Term
	if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		str := e.term(s, args[1])
		src, m = TUF("str_bytes", arraySort(SInt, SInt), loInf, str), StrLen(str)
	} else if sv, ok := args[1].(*SliceV); ok {
		src, m = e.shifted(s, el, e.arr(s, el, sv.base), sv.off, sv.n), sv.n
	} else {
		b := s.reduce(e.term(s, args[1]))
		e.wf(s, cc.Args[1].Type(), b)
		src, m = e.arr(s, el, sBase(b)), sLen(b)
	}
	if m == TInt(0) {
		return a
	}
	old := e.arr(s, el, sBase(a))
	var content *Term
	if m.op == "int" && m.n <= 32 {
		content = old
		for i := int64(0); i < m.n; i++ {
			content = Store(content, Add(n, TInt(i)), Select(src, TInt(i)))
		}
	} else {
		content = TFresh("appended", old.sort, minLo(old, src))
		i := TBVar("i", SInt, loInf)
		s.fact(Forall([]*Term{i}, Implies(And(Le(TInt(0), i), Lt(i, n)), Eq(Select(content, i), Select(old, i))), Select(content, i)))
		j := TBVar("j", SInt, loInf)
		s.fact(Forall([]*Term{j}, Implies(And(Le(n, j), Lt(j, Add(n, m))), Eq(Select(content, j), Select(src, Sub(j, n)))), Select(content, j)))
	}
	nn := Add(n, m)
	fits := s.decide(And(Not(Eq(sBase(a), TRef(0))), Le(nn, sCap(a))))
	if fits != TFalse && sBase(a).op == "int" && sBase(a).n < 0 && fits != TTrue {
		// growing one's own slice: only the content matters
		fits = TFalse
	}
	b := e.newRef()
	switch {
	case fits == TTrue:
		e.setArr(s, el, sBase(a), content)
		return mkSlice(sBase(a), nn, sCap(a))
	case fits == TFalse:
		e.setArr(s, el, b, content)
		c := TFresh("cap", SInt, loInf)
		s.fact(Le(nn, c))
		return mkSlice(b, nn, c)
	}
	// spare capacity: the shared array is written too
	e.setArr(s, el, sBase(a), Ite(fits, content, old))
	e.setArr(s, el, b, content)
	c := TFresh("cap", SInt, loInf)
	s.fact(Le(nn, c))
	return mkSlice(Ite(fits, sBase(a), b), nn, Ite(fits, sCap(a), c))
}

func (e *Exec) copyCall(s *State, cc *ssa.CallCommon, args []Val) Val {
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var db, do, dn *Term
	if sv, ok := args[0].(*SliceV); ok {
		db, do, dn = sv.base, sv.off, sv.n
	} else {
		d := s.reduce(e.term(s, args[0]))
		e.wf(s, cc.Args[0].Type(), d)
		db, do, dn = sBase(d), TInt(0), sLen(d)
	}
	var src, so, sn *Term
	if b, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		t := e.term(s, args[1])
		src, so, sn = TUF("str_bytes", arraySort(SInt, SInt), loInf, t), TInt(0), StrLen(t)
	} else if sv, ok := args[1].(*SliceV); ok {
		src, so, sn = e.arr(s, el, sv.base), sv.off, sv.n
	} else {
		t := s.reduce(e.term(s, args[1]))
		e.wf(s, cc.Args[1].Type(), t)
		src, so, sn = e.arr(s, el, sBase(t)), TInt(0), sLen(t)
	}
	c := s.decide(Le(dn, sn))
	n := Ite(c, dn, sn)
	old := e.arr(s, el, db)
	if do == TInt(0) && so == TInt(0) && n == sn {
		// whole copy: positions past n keep their value
	}
	nw := TFresh("copied", old.sort, minLo(old, src))
	i := TBVar("i", SInt, loInf)
	s.fact(Forall([]*Term{i}, Ite(And(Le(do, i), Lt(i, Add(do, n))),
		Eq(Select(nw, i), Select(src, Add(Sub(i, do), so))), Eq(Select(nw, i), Select(old, i))), Select(nw, i)))
	e.setArr(s, el, db, nw)
	return n
}

// ---- specification functions ----

// pureCall evaluates a function without branching the path: the results of
// all its paths are merged.
func (e *Exec) pureCall(s *State, fn *ssa.Function, args []Val, binds []Val) Val {
	c := s.clone()
	e.inPure++
	base := len(c.frames) + 1
	e.pushFrame(c, fn, args, binds, nil, true)
	start := len(c.pc)
	outs := e.run(c, base, nil)
	e.inPure--
	if len(outs) == 0 {
		e.fail("specification %s has no result", fn.Name())
	}
	var val Val
	heap := map[string]*Term{}
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		var conds []*Term
		for _, c := range o.pc[start:] {
			if !o.facts[c.id] {
				conds = append(conds, c)
			} else if len(outs) == 1 || !freeBound(c) {
				s.fact(c)
			}
		}
		cond := And(conds...)
		if i == len(outs)-1 {
			val = o.ret
			for k, v := range o.heap {
				heap[k] = v
			}
			continue
		}
		val = e.merge(s, cond, o.ret, val)
		for k, v := range o.heap {
			if h, ok := heap[k]; ok && h != v {
				heap[k] = Ite(cond, v, h)
			} else if !ok {
				b, inBase := e.base[k]
				if !inBase {
					b = heapVar(k, v.sort)
				}
				heap[k] = Ite(cond, v, b)
			}
		}
	}
	for k, v := range heap {
		s.heap[k] = v
	}
	return val
}

// freeBound: some bound variable occurs outside its quantifier.
func freeBound(t *Term) bool {
	if !t.hasBound {
		return false
	}
	var rec func(t *Term, bound map[*Term]bool) bool
	rec = func(t *Term, bound map[*Term]bool) bool {
		if !t.hasBound {
			return false
		}
		if t.op == "bvar" {
			return !bound[t]
		}
		if len(t.bvars) > 0 {
			n := map[*Term]bool{}
			for k := range bound {
				n[k] = true
			}
			for _, b := range t.bvars {
				n[b] = true
			}
			bound = n
		}
		for _, a := range t.args {
			if rec(a, bound) {
				return true
			}
		}
		return false
	}
	return rec(t, nil)
}

func (e *Exec) merge(s *State, c *Term, a, b Val) Val {
	if ta, ok := a.(Tuple); ok {
		tb := b.(Tuple)
		var out Tuple
		for i := range ta {
			out = append(out, e.merge(s, c, ta[i], tb[i]))
		}
		return out
	}
	if a == nil && b == nil {
		return nil
	}
	return Ite(c, e.term(s, a), e.term(s, b))
}

func (e *Exec) quantCall(s *State, fn *ssa.Function, args []Val) Val {
	fv := e.fnval(s, args[len(args)-1])
	if fv == nil {
		e.fail("quantifier over an unknown function")
	}
	var bv []*Term
	var vs []Val
	for _, p := range fv.fn.Params {
		b := TBVar(p.Name(), sortOf(p.Type()), 0)
		bv = append(bv, b)
		vs = append(vs, b)
	}
	body := e.term(s, e.pureCall(s, fv.fn, vs, fv.binds))
	if strings.HasPrefix(fn.Name(), "forall") {
		return Forall(bv, body)
	}
	return Exists(bv, body)
}

func (e *Exec) rangeQuant(s *State, all bool, args []Val) Val {
	lo, hi := e.term(s, args[0]), e.term(s, args[1])
	fv := e.fnval(s, args[2])
	if lo.op == "int" && hi.op == "int" && hi.n-lo.n <= 8 {
		var cs []*Term
		for i := lo.n; i < hi.n; i++ {
			cs = append(cs, e.term(s, e.pureCall(s, fv.fn, []Val{TInt(i)}, fv.binds)))
		}
		if all {
			return And(cs...)
		}
		return Or(cs...)
	}
	b := TBVar("i", SInt, loInf)
	body := e.term(s, e.pureCall(s, fv.fn, []Val{b}, fv.binds))
	in := And(Le(lo, b), Lt(b, hi))
	if all {
		return Forall([]*Term{b}, Implies(in, body))
	}
	return Exists([]*Term{b}, And(in, body))
}

// recCall: a recursive specification function becomes an uninterpreted
// function of its arguments (and of the heap it reads), unfolded once at each
// ground application.
func (e *Exec) recCall(s *State, fn *ssa.Function, args []Val) Val {
	reads := e.recHeap(s, fn)
	var ts []*Term
	for i, a := range args {
		ts = append(ts, e.byContent(s, fn.Signature.Params().At(i).Type(), a)...)
	}
	for _, k := range reads {
		ts = append(ts, e.heapGet(s, k, heapSorts[k]))
	}
	res := e.resTypes(fn.Signature)
	var rs []Val
	for i, t := range res {
		rs = append(rs, TUF(fmt.Sprintf("%s_%d", fn.Name(), i), sortOf(t), 0, ts...))
	}
	first := rs[0].(*Term)
	ground := true
	for _, t := range ts {
		if mentions(t, func(x *Term) bool { return x.op == "bvar" }) {
			ground = false
		}
	}
	if ground && e.fuel > 0 && e.fuelUsed[fn] < 1 && !e.unfolded(s, first) {
		e.fuelUsed[fn]++
		v := e.pureCall(s, fn, args, nil)
		e.fuelUsed[fn]--
		var eqs []*Term
		if tup, ok := v.(Tuple); ok {
			for i := range tup {
				eqs = append(eqs, Eq(rs[i].(*Term), e.term(s, tup[i])))
			}
		} else {
			eqs = append(eqs, Eq(first, e.term(s, v)))
		}
		s.addDef(first, And(eqs...))
	}
	return pack(rs)
}

// recHeap finds the heap components a recursive specification reads.
func (e *Exec) recHeap(s *State, fn *ssa.Function) []string {
	if r, ok := e.recReads[fn]; ok {
		return r
	}
	e.recReads[fn] = nil
	saved := e.readLog
	e.readLog = map[string]bool{}
	var args []Val
	for _, p := range fn.Params {
		args = append(args, TFresh("rd", sortOf(p.Type()), 0))
	}
	fuel := e.fuel
	e.fuel = 0
	// only what the result depends on counts, not local variables
	for i := 0; i < 3; i++ {
		c := s.clone()
		c.heap = map[string]*Term{}
		rd := map[*Term]string{}
		for k := range e.readLog {
			v := TFresh("rdheap", heapSorts[k], loInf)
			c.heap[k] = v
			rd[v] = k
		}
		n := len(e.readLog)
		res := e.pureCall(c, fn, args, nil)
		if n != len(e.readLog) || i == 0 {
			continue
		}
		used := map[string]bool{}
		mark := func(t *Term) {
			mentions(t, func(x *Term) bool {
				if k, ok := rd[x]; ok {
					used[k] = true
				}
				return false
			})
		}
		if tup, ok := res.(Tuple); ok {
			for _, x := range tup {
				mark(e.term(c, x))
			}
		} else {
			mark(e.term(c, res))
		}
		e.readLog = used
		break
	}
	e.fuel = fuel
	skip := map[string]bool{}
	for _, p := range fn.Params { // passed by content
		switch u := types.Unalias(p.Type()).Underlying().(type) {
		case *types.Slice:
			skip[aKey(u.Elem())] = true
		case *types.Map:
			skip[mKey(u)] = true
		}
	}
	var r []string
	for _, k := range sortedKeys(e.readLog) {
		if !skip[k] {
			r = append(r, k)
		}
	}
	for k := range e.readLog {
		if saved != nil {
			saved[k] = true
		}
	}
	e.readLog = saved
	e.recReads[fn] = r
	return r
}

// ---- contract intrinsics ----

func (e *Exec) intrinsic(s *State, call ssa.CallInstruction, cc *ssa.CallCommon, fn *ssa.Function, args []Val) ([]*State, int) {
	f := s.top()
	assume := false
	var owner *Contract
	for i := len(s.frames) - 1; i >= 0; i-- {
		if s.frames[i].owner != nil {
			assume = s.frames[i].assume
			owner = s.frames[i].owner
			break
		}
	}
	_ = f
	str := func(v Val) string { return e.term(s, v).name }
	switch fn.Name() {
	case "Requires":
		c := e.term(s, args[0])
		if assume {
			e.oblige(s, "requires", owner.name, c)
			e.nReq++
		} else if e.w.isModel[f.fn] && e.inPure == 0 && len(s.frames) > 1 && !s.frames[len(s.frames)-2].spec {
			e.oblige(s, "safety", "precondition of "+strings.TrimPrefix(f.fn.Name(), "m_"), c)
		}
		s.add(c)
	case "Ensures":
		c := e.term(s, args[1])
		if assume {
			s.add(c)
		} else {
			e.oblige(s, "ensures", str(args[0]), c)
		}
	case "Assert":
		c := e.term(s, args[1])
		if !assume {
			e.oblige(s, "ensures", str(args[0]), c)
		}
		s.add(c)
	case "Assume":
		s.add(e.term(s, args[0]))
	case "ForAll":
		return e.setRes(s, call, e.rangeQuant(s, true, args))
	case "Exists":
		return e.setRes(s, call, e.rangeQuant(s, false, args))
	case "Havoc":
		e.havocPointee(s, e.term(s, args[0]))
	case "FuncIs":
		a, b := s.reduce(e.term(s, args[0])), s.reduce(e.term(s, args[1]))
		ua := func(t *Term) *Term {
			if t.op == "ctor" && len(t.args) == 1 {
				return t.args[0]
			}
			return t
		}
		return e.setRes(s, call, Eq(ua(a), ua(b)))
	case "Snapshot":
		m := map[string]*Term{}
		for k, v := range s.heap {
			m[k] = v
		}
		s.snaps = append(s.snaps, m)
		return e.setRes(s, call, TInt(int64(len(s.snaps)-1)))
	case "At":
		id := e.term(s, args[0]).n
		fv := e.fnval(s, args[1])
		c := s.clone()
		snap := s.snaps[id]
		c.heap = map[string]*Term{}
		for k, v := range snap {
			c.heap[k] = v
		}
		// variables of the specification itself keep their present value
		for i, fr := range fv.fn.FreeVars {
			if pt, ok := fr.Type().Underlying().(*types.Pointer); ok {
				if b, ok := fv.binds[i].(*Term); ok && b.op == "int" && b.n < 0 {
					l := e.lptr(s, b, pt)
					e.storeL(c, l, e.loadL(s, l))
				}
			}
		}
		v := e.pureCall(c, fv.fn, nil, fv.binds)
		return e.setRes(s, call, v)
	case "Unchanged":
		id := e.term(s, args[0]).n
		old := s.clone()
		old.heap = map[string]*Term{}
		for k, v := range s.snaps[id] {
			old.heap[k] = v
		}
		var cs []*Term
		for _, b := range e.variadic(s, args[1]) {
			if b == MkCtor(CNil, SIface) {
				continue
			}
			if b.op != "ctor" || b.ctor.boxed == nil {
				e.fail("Unchanged of an undetermined object")
			}
			t, v := b.ctor.boxed.(types.Type), b.args[0]
			switch u := t.Underlying().(type) {
			case *types.Pointer:
				l := e.lptr(s, v, t)
				cs = append(cs, Eq(e.loadL(s, l), e.loadL(old, l)))
			case *types.Map:
				cs = append(cs, Eq(e.mapContent(s, u, v), e.mapContent(old, u, v)))
			case *types.Slice:
				n := sLen(v)
				i := TBVar("i", SInt, loInf)
				cs = append(cs, Forall([]*Term{i}, Implies(And(Le(TInt(0), i), Lt(i, n)),
					Eq(Select(e.arr(s, u.Elem(), sBase(v)), i), Select(e.arr(old, u.Elem(), sBase(v)), i)))))
			}
		}
		return e.setRes(s, call, And(cs...))
	case "Modifies":
		e.modifies(s, e.variadic(s, args[0]), assume)
	case "Calls":
		ft, f := e.boxedFunc(s, args[0])
		_ = ft
		return e.setRes(s, call, Select(e.heapGet(s, "G:calls", arraySort(SRef, SInt)), f))
	case "CallRes", "CallErr":
		ft, f := e.boxedFunc(s, args[0])
		k := e.term(s, args[2]).n
		t := ft.Results().At(int(k)).Type()
		r := TUF(fmt.Sprintf("fn_%s_call_%d", smtName("sig "+ft.String()), k), sortOf(t), 0, f, e.term(s, args[1]))
		if sortOf(t) != SIface {
			r = box(t, r)
		}
		return e.setRes(s, call, r)
	case "Known":
		return e.setRes(s, call, TBool(isConst(s.reduce(e.term(s, args[0])))))
	case "IndexOf":
		return e.setRes(s, call, StrOp("str.indexof", SInt, e.term(s, args[0]), e.term(s, args[1]), TInt(0)))
	case "Contains":
		return e.setRes(s, call, StrOp("str.contains", SBool, e.term(s, args[0]), e.term(s, args[1])))
	case "Same": // deep equality of two values of the same static type
		a, b := s.reduce(e.term(s, args[0])), s.reduce(e.term(s, args[1]))
		return e.setRes(s, call, Eq(a, b))
	case "Ref": // the identity of an object
		a := s.reduce(e.term(s, args[0]))
		if a.op == "ctor" && len(a.args) == 1 {
			a = a.args[0]
		}
		return e.setRes(s, call, a)
	case "Fresh": // the object was allocated during the call
		a := s.reduce(e.term(s, args[0]))
		if a.op == "ctor" && len(a.args) == 1 {
			a = a.args[0]
		}
		if a.sort == SSlice {
			a = sBase(a)
		}
		return e.setRes(s, call, Le(a, TInt(-1)).asRef())
	case "Describe":
		s.notes = append(s.notes, show(e.term(s, args[0])))
	default:
		e.fail("vspec.%s", fn.Name())
	}
	return e.setRes(s, call, nil)
}

func (e *Exec) boxedFunc(s *State, v Val) (*types.Signature, *Term) {
	b := s.reduce(e.term(s, v))
	if b.op != "ctor" || b.ctor.boxed == nil {
		e.fail("not a function value")
	}
	return b.ctor.boxed.(types.Type).Underlying().(*types.Signature), b.args[0]
}

// variadic lists the elements of a literal variadic argument.
func (e *Exec) variadic(s *State, v Val) []*Term {
	t := s.reduce(e.term(s, v))
	n := sLen(t)
	if n.op != "int" {
		e.fail("variadic argument of unknown length")
	}
	ift := types.NewInterfaceType(nil, nil)
	var out []*Term
	for i := int64(0); i < n.n; i++ {
		out = append(out, s.reduce(Select(e.arr(s, ift, sBase(t)), TInt(i))))
	}
	return out
}

func (e *Exec) modifies(s *State, ps []*Term, assume bool) {
	for _, b := range ps {
		if b.op != "ctor" || b.ctor.boxed == nil {
			e.fail("Modifies of an undetermined object")
		}
		t := b.ctor.boxed.(types.Type)
		v := b.args[0]
		var key string
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			key = hKey(u.Elem())
		case *types.Map:
			key = mKey(u)
		case *types.Slice:
			key, v = aKey(u.Elem()), sBase(v)
		case *types.Signature:
			key = "G:calls"
		}
		if assume {
			s.top().mods = append(s.top().mods, b)
		} else {
			s.mods = append(s.mods, modRef{key, v})
		}
	}
}

// havocPointee forgets the object a boxed pointer, map or slice refers to.
func (e *Exec) havocPointee(s *State, b *Term) {
	b = s.reduce(b)
	if b.op == "ite" {
		e.fail("havoc of an undetermined pointer")
	}
	if b.op != "ctor" || b.ctor.boxed == nil {
		for _, k := range ifaceDT.ctors {
			if k.boxed != nil && s.pcset[isID(k, b)] {
				b = MkCtor(k, SIface, Sel(k, 0, b))
				break
			}
		}
	}
	if b.op != "ctor" || b.ctor.boxed == nil {
		e.note("decoding into a value of unknown type: effect not modelled")
		return
	}
	t := b.ctor.boxed.(types.Type)
	v := b.args[0]
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		l := e.lptr(s, v, t)
		n := TFresh("decoded", sortOf(u.Elem()), e.epoch())
		for _, f := range wfFacts(u.Elem(), n, nil) {
			s.add(f)
		}
		e.storeL(s, l, n)
	case *types.Map:
		e.setMap(s, u, v, TFresh("decoded", mSort(u).val, e.epoch()))
	case *types.Slice:
		e.setArr(s, u.Elem(), sBase(v), TFresh("decoded", aSort(u.Elem()).val, e.epoch()))
	}
}

var _ = types.Typ
