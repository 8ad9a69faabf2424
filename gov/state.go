package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values: *Term for everything that has a sort; the others exist only inside
// the executor and are turned into terms when they escape into the heap.
type Val interface{}
type Tuple []Val

// LPtr is a pointer into an object: struct field, array or slice element.
type LPtr struct {
	kind byte // 'H' object at ref, 'A' element of a slice's array
	ref  *Term
	idx  *Term      // 'A'
	root types.Type // type of the object or element
	path []acc
	elem types.Type // pointee
}
type acc struct {
	field int
	idx   *Term // array index when not nil
	typ   types.Type
}

// SliceV is a slice which does not begin at the start of its array.
type SliceV struct {
	base, off, n, cap *Term
	elem              types.Type
}

// FuncV is a function value.
type FuncV struct {
	fn    *ssa.Function
	binds []Val
}

type iterV struct {
	m       *Term // map content
	mt      *types.Map
	visited *Term
}

type Frame struct {
	fn       *ssa.Function
	env      map[ssa.Value]Val
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	call     ssa.CallInstruction // in the caller
	defers   []deferred
	spec     bool
	visits   map[*ssa.BasicBlock]int
	cutDone  map[*ssa.BasicBlock]bool // header being executed after a cut
	retPatch func(*State, Val) Val
	owner    *Contract // contract run in assume mode
	assume   bool
	rundefer bool
	result   Val
	depth    int
	mods     []*Term // objects the assumed call may change
}

type deferred struct {
	fn   Val
	args []Val
	call *ssa.CallCommon
}

type State struct {
	frames []*Frame
	heap   map[string]*Term
	pc     []*Term // path condition and facts, in order
	pcset  map[int]bool
	notes  []string
	dead   bool
	ret    Val
	loops  []string
	snaps  []map[string]*Term
	status int
	pend   map[int]Val
	defs   map[int]bool
	facts  map[int]bool // members of pc which hold on every path
	mods   []modRef     // what the contract allows the call to change
}

type modRef struct {
	key string
	ref *Term
}

// fact assumes something true of the state whatever path led to it.
func (s *State) fact(t *Term) {
	if t.op == "and" {
		for _, a := range t.args {
			s.fact(a)
		}
		return
	}
	if t == TTrue || s.pcset[t.id] {
		return
	}
	s.add(t)
	s.facts[t.id] = true
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)), pc: append([]*Term{}, s.pc...), pcset: make(map[int]bool, len(s.pcset)),
		notes: append([]string{}, s.notes...), ret: s.ret, snaps: append([]map[string]*Term{}, s.snaps...), pend: s.pend, defs: s.defs, mods: append([]modRef{}, s.mods...), facts: make(map[int]bool, len(s.facts))}
	for k := range s.facts {
		n.facts[k] = true
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.pcset {
		n.pcset[k] = v
	}
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		c := *f
		c.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = append([]deferred{}, f.defers...)
		c.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
		for k, v := range f.visits {
			c.visits[k] = v
		}
		c.cutDone = make(map[*ssa.BasicBlock]bool, len(f.cutDone))
		for k, v := range f.cutDone {
			c.cutDone[k] = v
		}
		n.frames[i] = &c
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

// add assumes a formula; false makes the state dead.
func (s *State) add(t *Term) {
	if t == TTrue || s.pcset[t.id] {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.add(a)
		}
		return
	}
	if t == TFalse || s.pcset[Not(t).id] {
		s.dead = true
	}
	s.pcset[t.id] = true
	s.pc = append(s.pc, t)
}

// decide evaluates a condition under the literal facts of the path.
func (s *State) decide(t *Term) *Term {
	switch t.op {
	case "true", "false":
		return t
	}
	if s.pcset[t.id] {
		return TTrue
	}
	if s.pcset[Not(t).id] {
		return TFalse
	}
	switch t.op {
	case "not":
		return Not(s.decide(t.args[0]))
	case "and", "or":
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = s.decide(a)
		}
		return nary(t.op, as)
	case "ite":
		if t.sort == SBool {
			c := s.decide(t.args[0])
			if c == TTrue {
				return s.decide(t.args[1])
			}
			if c == TFalse {
				return s.decide(t.args[2])
			}
		}
	case "is":
		// another constructor is known
		for _, c := range t.ctor.dt.ctors {
			if c != t.ctor && s.pcset[isID(c, t.args[0])] {
				return TFalse
			}
		}
	case "=":
		// x = const where another constant is known for x
		a, b := t.args[0], t.args[1]
		if isConst(a) {
			a, b = b, a
		}
		if isConst(b) {
			if v := s.known(a); v != nil && v != b {
				return TFalse
			}
		}
	}
	return t
}

func isID(c *Ctor, x *Term) int { return Is(c, x).id }

// known finds a constant the path fixes x to.
func (s *State) known(x *Term) *Term {
	for _, p := range s.pc {
		if p.op == "=" {
			if p.args[0] == x && isConst(p.args[1]) {
				return p.args[1]
			}
			if p.args[1] == x && isConst(p.args[0]) {
				return p.args[0]
			}
		}
	}
	return nil
}

// reduce simplifies a term using known constants and decided ite conditions.
func (s *State) reduce(t *Term) *Term {
	for t.op == "ite" {
		c := s.decide(t.args[0])
		if c == TTrue {
			t = t.args[1]
		} else if c == TFalse {
			t = t.args[2]
		} else {
			break
		}
	}
	return t
}

// ---- obligations ----

type Obligation struct {
	name   string // contract + label
	label  string
	kind   string // ensures, safety, requires, invariant, frame, reach
	pos    string
	hyps   []*Term
	goal   *Term
	c      *Contract
	path   string
	status string
	solver string
	ms     int64
	model  string
	id     int
}

// ---- executor ----

type Exec struct {
	w          *World
	c          *Contract // contract under verification
	obls       []*Obligation
	dry        int // >0: no obligations
	noInv      int
	skippedInv bool
	quiet      int
	alloc      int64 // next fresh reference (negative)
	funcs      map[int64]*FuncV
	funcRef    map[*ssa.Function]int64
	lvals      map[int64]*LPtr
	assumed    map[string]int // notes about unmodelled calls
	used       map[string]bool
	inlined    map[string]int
	steps      int
	paths      int
	base       map[string]*Term // heap of initialised globals
	readLog    map[string]bool
	reached    map[string]bool
	globalRef  map[*ssa.Global]int64
	globalList []*ssa.Global
	recUnfold  map[int]bool
	inPure     int
	fuel       int
	fuelUsed   map[*ssa.Function]int
	depthLimit int
	loopLog    []string
	recReads   map[*ssa.Function][]string
	solver     *Solver
	inited     map[string]bool
	axioms     map[string]*Term
	failures   []string
	invCache   map[string]bool
	initFacts  []*Term
	nReq       int
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

type execError struct{ msg string }

func (e *Exec) fail(f string, a ...interface{}) {
	panic(execError{fmt.Sprintf(f, a...)})
}

func newExec(w *World) *Exec {
	e := &Exec{w: w, alloc: -1000000, funcs: map[int64]*FuncV{}, funcRef: map[*ssa.Function]int64{}, lvals: map[int64]*LPtr{},
		assumed: map[string]int{}, used: map[string]bool{}, inlined: map[string]int{}, base: map[string]*Term{},
		reached: map[string]bool{}, globalRef: map[*ssa.Global]int64{}, recUnfold: map[int]bool{}, fuel: 1, fuelUsed: map[*ssa.Function]int{}, depthLimit: 60,
		recReads: map[*ssa.Function][]string{}, inited: map[string]bool{}, axioms: map[string]*Term{}, invCache: map[string]bool{}}
	return e
}

func (e *Exec) newRef() *Term {
	e.alloc--
	return TRef(e.alloc)
}

// epoch makes room for objects allocated by code we do not execute.
func (e *Exec) epoch() int64 {
	e.alloc -= 10000
	return e.alloc + 1
}

// ---- heap ----

func hKey(t types.Type) string { return "H:" + typeStr(types.Unalias(t)) }
func aKey(t types.Type) string { return "A:" + elemKey(t) }
func elemKey(t types.Type) string {
	return typeStr(types.Unalias(t))
}
func mKey(m *types.Map) string { return "M:" + typeStr(m.Key()) + "=>" + typeStr(m.Elem()) }

func hSort(t types.Type) *Sort { return arraySort(SRef, sortOf(t)) }
func aSort(t types.Type) *Sort { return arraySort(SRef, arraySort(SInt, sortOf(t))) }
func mSort(m *types.Map) *Sort {
	o, _, _ := optOf(sortOf(m.Elem()))
	return arraySort(SRef, arraySort(sortOf(m.Key()), o))
}

var heapSorts = map[string]*Sort{}

func (e *Exec) heapGet(s *State, key string, srt *Sort) *Term {
	heapSorts[key] = srt
	if e.readLog != nil {
		e.readLog[key] = true
	}
	if t, ok := s.heap[key]; ok {
		return t
	}
	t, ok := e.base[key]
	if !ok {
		t = heapVar(key, srt)
	}
	s.heap[key] = t
	return t
}

func heapVar(key string, srt *Sort) *Term { return TVar("heap "+key, srt, 0) }

func (e *Exec) heapSet(s *State, key string, t *Term) {
	if t.sort != nil {
		heapSorts[key] = t.sort
	}
	s.heap[key] = t
}

func (e *Exec) readObj(s *State, t types.Type, ref *Term) *Term {
	return Select(e.heapGet(s, hKey(t), hSort(t)), ref)
}
func (e *Exec) writeObj(s *State, t types.Type, ref, v *Term) {
	k := hKey(t)
	e.heapSet(s, k, Store(e.heapGet(s, k, hSort(t)), ref, v))
}
func (e *Exec) arr(s *State, elem types.Type, base *Term) *Term {
	return Select(e.heapGet(s, aKey(elem), aSort(elem)), base)
}
func (e *Exec) setArr(s *State, elem types.Type, base, v *Term) {
	k := aKey(elem)
	e.heapSet(s, k, Store(e.heapGet(s, k, aSort(elem)), base, v))
}
func (e *Exec) mapc(s *State, m *types.Map, ref *Term) *Term {
	return Select(e.heapGet(s, mKey(m), mSort(m)), ref)
}
func (e *Exec) setMap(s *State, m *types.Map, ref, v *Term) {
	k := mKey(m)
	e.heapSet(s, k, Store(e.heapGet(s, k, mSort(m)), ref, v))
}
func emptyMap(m *types.Map) *Term {
	o, none, _ := optOf(sortOf(m.Elem()))
	return ConstArr(mSort(m).val, MkCtor(none, o))
}

func (e *Exec) allocObj(s *State, t types.Type, v *Term) *Term {
	r := e.newRef()
	e.writeObj(s, t, r, v)
	if namedKey(t) == "sync.Map" {
		m := types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))
		e.setMap(s, m, r, emptyMap(m))
	}
	return r
}

// globalAddr gives the reserved reference of a package variable.
func (e *Exec) globalAddr(g *ssa.Global) *Term {
	n, ok := e.globalRef[g]
	if !ok {
		n = -int64(len(e.globalRef)) - 10
		e.globalRef[g] = n
		e.globalList = append(e.globalList, g)
	}
	return TRef(n)
}

// lptr views a pointer value as an address.
func (e *Exec) lptr(s *State, p Val, pt types.Type) *LPtr {
	switch v := p.(type) {
	case *LPtr:
		return v
	case *Term:
		v = s.reduce(v)
		if v.op == "int" {
			if l, ok := e.lvals[v.n]; ok {
				return l
			}
		} else if k := s.known(v); k != nil && k.op == "int" {
			if l, ok := e.lvals[k.n]; ok {
				return l
			}
		}
		el := pt.Underlying().(*types.Pointer).Elem()
		return &LPtr{kind: 'H', ref: v, root: el, elem: el}
	}
	e.fail("not a pointer: %T", p)
	return nil
}

func (e *Exec) loadL(s *State, l *LPtr) *Term {
	var v *Term
	if l.kind == 'H' {
		v = e.readObj(s, l.root, l.ref)
	} else {
		v = Select(e.arr(s, l.root, l.ref), l.idx)
	}
	t := l.root
	for _, a := range l.path {
		if a.idx != nil {
			v = Select(v, a.idx)
		} else {
			v = fieldOf(t, v, a.field)
		}
		t = a.typ
	}
	return v
}

func (e *Exec) storeL(s *State, l *LPtr, x *Term) {
	var root *Term
	if l.kind == 'H' {
		root = e.readObj(s, l.root, l.ref)
	} else {
		root = Select(e.arr(s, l.root, l.ref), l.idx)
	}
	var upd func(t types.Type, v *Term, path []acc) *Term
	upd = func(t types.Type, v *Term, path []acc) *Term {
		if len(path) == 0 {
			return x
		}
		a := path[0]
		if a.idx != nil {
			return Store(v, a.idx, upd(a.typ, Select(v, a.idx), path[1:]))
		}
		return withField(t, v, a.field, upd(a.typ, fieldOf(t, v, a.field), path[1:]))
	}
	n := upd(l.root, root, l.path)
	if l.kind == 'H' {
		e.writeObj(s, l.root, l.ref, n)
	} else {
		e.setArr(s, l.root, l.ref, Store(e.arr(s, l.root, l.ref), l.idx, n))
	}
}

func sub(l *LPtr, a acc) *LPtr {
	n := *l
	n.path = append(append([]acc{}, l.path...), a)
	n.elem = a.typ
	return &n
}

// term turns a value into a term.
func (e *Exec) term(s *State, v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case *LPtr:
		if x.kind == 'H' && len(x.path) == 0 {
			return x.ref
		}
		for n, l := range e.lvals {
			if sameL(l, x) {
				return TRef(n)
			}
		}
		r := e.newRef()
		e.lvals[r.n] = x
		return r
	case *SliceV:
		if x.off == TInt(0) {
			return mkSlice(x.base, x.n, x.cap)
		}
		// the tail of another slice: a copy (sharing with it is not tracked)
		b := e.newRef()
		src := e.arr(s, x.elem, x.base)
		c := e.shifted(s, x.elem, src, x.off, x.n)
		e.setArr(s, x.elem, b, c)
		e.note("slice tail copied")
		return mkSlice(b, x.n, x.n)
	case *FuncV:
		if len(x.binds) == 0 {
			if n, ok := e.funcRef[x.fn]; ok {
				return TRef(n)
			}
			r := TRef(1<<40 + int64(len(e.funcRef)))
			e.funcRef[x.fn] = r.n
			e.funcs[r.n] = x
			return r
		}
		r := e.newRef()
		e.funcs[r.n] = x
		return r
	case nil:
		return TRef(0)
	}
	e.fail("no term for %T", v)
	return nil
}

func sameL(a, b *LPtr) bool {
	if a.kind != b.kind || a.ref != b.ref || a.idx != b.idx || len(a.path) != len(b.path) || !types.Identical(a.root, b.root) {
		return false
	}
	for i := range a.path {
		if a.path[i].field != b.path[i].field || a.path[i].idx != b.path[i].idx {
			return false
		}
	}
	return true
}

// shifted returns an array c with c[i] = src[off+i] for 0 <= i < n.
func (e *Exec) shifted(s *State, elem types.Type, src, off, n *Term) *Term {
	srt := arraySort(SInt, sortOf(elem))
	if n.op == "int" && n.n <= 16 {
		c := ConstArr(srt, zeroOf(elem))
		for i := int64(0); i < n.n; i++ {
			c = Store(c, TInt(i), Select(src, Add(off, TInt(i))))
		}
		return c
	}
	c := TFresh("tail", srt, src.lo)
	i := TBVar("i", SInt, loInf)
	s.fact(Forall([]*Term{i}, Implies(And(Le(TInt(0), i), Lt(i, n)), Eq(Select(c, i), Select(src, Add(off, i)))), Select(c, i)))
	return c
}

func (e *Exec) note(f string, a ...interface{}) {
	e.assumed[fmt.Sprintf(f, a...)]++
}

func (e *Exec) fnval(s *State, v Val) *FuncV {
	switch x := v.(type) {
	case *FuncV:
		return x
	case *Term:
		x = s.reduce(x)
		if x.op == "int" {
			return e.funcs[x.n]
		}
		if k := s.known(x); k != nil {
			return e.funcs[k.n]
		}
	}
	return nil
}

func (e *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.w.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/adapter/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Exec) codePos(s *State) string {
	// innermost code position with a valid line
	for i := len(s.frames) - 1; i >= 0; i-- {
		f := s.frames[i]
		if f.pc > 0 && f.pc <= len(f.block.Instrs) {
			if p := f.block.Instrs[f.pc-1].Pos(); p.IsValid() {
				return e.posOf(p)
			}
		}
	}
	return "?"
}

func (e *Exec) oblige(s *State, kind, label string, goal *Term) {
	if e.dry > 0 || s.dead {
		return
	}
	goal = s.decide(goal)
	pos := e.codePos(s)
	o := &Obligation{kind: kind, label: label, pos: pos, goal: goal, c: e.c}
	o.hyps = append([]*Term{}, s.pc...)
	o.name = e.c.name + "/" + kind + "/" + label
	if kind != "ensures" {
		o.name += "@" + pos
	}
	var tr []string
	for _, f := range s.frames {
		tr = append(tr, f.fn.Name())
	}
	o.path = strings.Join(tr, " > ")
	e.obls = append(e.obls, o)
}

// safety: an obligation in code, afterwards assumed.
func (e *Exec) safety(s *State, label string, cond *Term) bool {
	cond2 := s.decide(cond)
	if cond2 == TTrue {
		return true
	}
	f := s.top()
	if !f.spec && e.inPure == 0 {
		e.oblige(s, "safety", label, cond)
	}
	s.add(cond)
	return !s.dead
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOV_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// results of contracts running in assume mode, per frame depth
func (s *State) setPendingRes(d int, v Val) {
	m := map[int]Val{}
	for k, x := range s.pend {
		m[k] = x
	}
	m[d] = v
	s.pend = m
}
func (s *State) pendingRes(d int) Val { return s.pend[d] }

// addDef records the defining equation of a recursive specification value.
func (s *State) addDef(first, eq *Term) {
	m := map[int]bool{}
	for k := range s.defs {
		m[k] = true
	}
	m[first.id] = true
	s.defs = m
	s.fact(eq)
}

func (e *Exec) unfolded(s *State, t *Term) bool { return s.defs[t.id] }

func (t *Term) asRef() *Term { return t }
