package main

// Loops. A loop is replaced by one arbitrary iteration (the N-th) together
// with facts about the N iterations before it. The facts are derived from the
// loop body itself and hold by construction (induction over the iterations):
//
//   - a variable (phi or heap cell) no iteration changes keeps its entry value;
//   - one that every iteration changes by the same constant c is entry + c*N;
//   - every earlier iteration j went round the loop: the path condition of one
//     of the body's back edges held for it;
//   - any other variable holds its entry value if no iteration assigned it,
//     else the value given by the last iteration which did (for arrays and
//     maps: index by index);
//   - objects allocated by an earlier iteration keep the content they had at
//     its end, unless the loop may write them through an unknown pointer.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if r, ok := loopCache[fn]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			if r[h] == nil {
				r[h] = map[*ssa.BasicBlock]bool{h: true}
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if r[h][x] {
					continue
				}
				r[h][x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	loopCache[fn] = r
	return r
}

// loopVar is something the loop may change.
type loopVar struct {
	phi   *ssa.Phi
	key   string // heap cell
	idx   *Term
	field int // struct field, or -1
	acc   bool
	// accumulator slices: the parts are loop variables of their own
	ref     *Term // backing array of the accumulator
	nilBase bool
	elem    types.Type
	part    byte // 'n' length, 'c' content of the accumulator owner
	owner   *loopVar

	sort  *Sort
	typ   types.Type
	class byte // 'h' arbitrary, 'i' invariant, 'l' linear
	c     int64
	entry *Term
	sym   *Term
}

func (v *loopVar) name() string {
	switch {
	case v.phi != nil:
		n := v.phi.Comment
		if n == "" {
			n = v.phi.Name()
		}
		return n
	case v.part != 0:
		return fmt.Sprintf("%s.%c", v.owner.name(), v.part)
	}
	return fmt.Sprintf("%s[%s].%d", v.key, show(v.idx), v.field)
}

type loopSum struct {
	e         *Exec
	s         *State // at the header
	h         *ssa.BasicBlock
	vars      []*loopVar
	N         *Term
	mark, lo  int64
	whole     map[string]bool // keys forgotten entirely
	freshKeys map[string]bool // keys written at objects allocated by the iteration
	frames    map[string]*Term
	wholeSym  map[string]*Term
	useFrames bool
	noAcc     map[*ssa.Phi]bool
	start     int // length of pc at the start of the iteration
	birth     int
	allocAt   int64
}

// IsOld: the reference was allocated before mark.
func IsOld(mark int64, r *Term) *Term {
	if r.op == "int" {
		return TBool(r.n >= mark)
	}
	if r.lo >= mark {
		return TTrue
	}
	if r.op == "ite" {
		return Ite(r.args[0], IsOld(mark, r.args[1]), IsOld(mark, r.args[2]))
	}
	return mk(&Term{op: "isold", name: fmt.Sprint(mark), n: mark, args: []*Term{r}, sort: SBool, lo: loInf})
}

// Framed is the heap which agrees with a on old references and with b on the
// others.
func Framed(mark int64, a, b *Term) *Term {
	return mk(&Term{op: "frame", name: fmt.Sprint(mark), n: mark, args: []*Term{a, b}, sort: a.sort, lo: minLo(a, b)})
}

func (e *Exec) cutLoop(s *State, h *ssa.BasicBlock, lp map[*ssa.BasicBlock]bool, ctl *runCtl) ([]*State, int) {
	f := s.top()
	if e.c != nil && e.c.opts["unroll"] != "" && !f.spec {
		var k int
		fmt.Sscan(e.c.opts["unroll"], &k)
		if f.visits[h] > k+1 {
			e.note("loops unrolled %d times (bounded)", k)
			return nil, stDead
		}
		return nil, stRun
	}
	L := &loopSum{e: e, s: s, h: h, whole: map[string]bool{}, freshKeys: map[string]bool{}, noAcc: map[*ssa.Phi]bool{}}
	L.mark = e.alloc
	L.lo = e.epoch()
	L.N = TFresh("N", SInt, loInf)
	L.initVars()
	sub := &runCtl{depth: len(s.frames), header: h, loop: lp}
	var backs []*State
	var hdr *State
	classified := false
	iterate := func() {
		run := hdr.clone()
		e.dry++
		all := e.run(run, len(s.frames), sub)
		e.dry--
		backs = nil
		for _, b := range all {
			if b.status == stBack || len(b.frames) == len(s.frames) {
				backs = append(backs, b)
			}
		}
	}
	for round := 0; ; round++ {
		if round > 14 {
			e.fail("loop analysis does not settle in %s", f.fn)
		}
		hdr = s.clone()
		hdr.status = stRun
		L.apply(hdr, false)
		L.start = len(hdr.pc)
		L.birth = termSeq
		L.allocAt = e.alloc
		e.noInv++
		iterate()
		e.noInv--
		again := L.discover(hdr, backs)
		debugf("%*sloop %s b%d round %d: %d backs, again=%v vars=%d pc=%d t=%d", 2*e.dry, "", f.fn.Name(), h.Index, round, len(backs), again, len(L.vars), len(hdr.pc), termSeq)
		if again {
			continue
		}
		if !classified {
			classified = true
			if L.classify(backs) {
				continue
			}
			break
		}
		if !L.consistent(backs) {
			continue
		}
		break
	}
	// the state at the start of the N-th iteration
	fr := s.top()
	if len(backs) == 0 {
		// no iteration comes round again: this is the only one
		fr.cutDone[h] = true
		return nil, stRun
	}
	if e.noInv == 0 && e.skippedInv {
		e.skippedInv = false
		// once more, with the invariants of the inner loops
		iterate()
	}
	facts := L.facts(backs)
	var invs []*invInst
	if len(e.w.invs) > 0 && e.inPure == 0 {
		invs = L.invariants(hdr, backs, facts)
	}
	L.apply(s, true)
	if len(invs) > 0 && e.c != nil && e.c.opts["facts"] == "inv" {
		facts = nil
	}
	for _, fact := range facts {
		s.fact(fact)
		autoFact[fact] = true
	}
	for _, in := range invs {
		s.fact(L.eval(in, s, L.N, func(v *loopVar) *Term { return v.sym }))
	}
	s.top().cutDone[h] = true
	if s.dead {
		return nil, stDead
	}
	return nil, stRun
}

// autoFact marks the facts about loops found without invariants: bulky, and
// often not needed.
var autoFact = map[*Term]bool{}

func withoutAuto(hs []*Term) []*Term {
	var out []*Term
	for _, h := range hs {
		if !autoFact[h] {
			out = append(out, h)
		}
	}
	return out
}

func (L *loopSum) initVars() {
	f := L.s.top()
	for _, in := range L.h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := f.env[p]
		if _, ok := v.(*iterV); ok {
			L.e.fail("iterator in a phi")
		}
		if tup, ok := v.(Tuple); ok {
			_ = tup
			L.e.fail("tuple in a phi")
		}
		t := L.e.term(L.s, v)
		lv := &loopVar{phi: p, field: -1, sort: t.sort, typ: p.Type(), class: 'h', entry: t}
		L.vars = append(L.vars, lv)
		sl, isSlice := p.Type().Underlying().(*types.Slice)
		if isSlice {
			debugf("slice %s: base %s own=%v", lv.name(), show(sBase(t)), L.ownBase(t, lv))
		}
		if isSlice && L.ownBase(t, lv) {
			lv.acc = true
			lv.elem = sl.Elem()
			lv.ref = L.e.newRef()
			lv.nilBase = sBase(t) == TRef(0)
			L.allocAt = L.e.alloc
			n := &loopVar{owner: lv, part: 'n', field: -1, sort: SInt, typ: types.Typ[types.Int], class: 'h', entry: sLen(t)}
			c := &loopVar{owner: lv, part: 'c', field: -1, sort: arraySort(SInt, sortOf(sl.Elem())), class: 'h', entry: L.e.arr(L.s, sl.Elem(), sBase(t))}
			L.vars = append(L.vars, n, c)
		}
	}
}

// ownBase: the slice is nil or its array was allocated here and nothing else
// in the state refers to it.
func (L *loopSum) ownBase(t *Term, lv *loopVar) bool {
	if L.noAcc[lv.phi] {
		return false
	}
	b := sBase(t)
	if b == TRef(0) {
		return sLen(t) == TInt(0)
	}
	if b.op != "int" || b.n >= 0 {
		return false
	}
	return !L.refShared(L.s, b, lv.phi)
}

func (L *loopSum) refShared(s *State, b *Term, except *ssa.Phi) bool {
	has := func(t *Term) bool { return mentions(t, func(x *Term) bool { return x == b }) }
	for i, f := range s.frames {
		for k, v := range f.env {
			t, ok := v.(*Term)
			if !ok || t.lo > b.n || !has(t) {
				continue
			}
			if i == len(s.frames)-1 {
				if p, ok := k.(*ssa.Phi); ok && p == except {
					continue
				}
				if !liveAt(L.h, k) {
					continue
				}
			}
			return true
		}
	}
	for _, h := range s.heap {
		if heapHolds(h, b) {
			return true
		}
	}
	return false
}

// liveAt: the value may still be used (before being computed anew) once
// control is at the start of h, past its phis.
func liveAt(h *ssa.BasicBlock, k ssa.Value) bool {
	in, ok := k.(ssa.Instruction)
	if !ok || k.Referrers() == nil {
		return true
	}
	def := in.Block()
	if def == h {
		if _, ok := in.(*ssa.Phi); ok {
			// its value for this iteration has just been set
			return true
		}
		return false
	}
	reach := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{h}
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if reach[x] || x == def {
			continue
		}
		reach[x] = true
		todo = append(todo, x.Succs...)
	}
	for _, r := range *k.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for i, e := range r.Edges {
				if e == k && reach[r.Block().Preds[i]] {
					return true
				}
			}
		default:
			if reach[r.Block()] {
				return true
			}
		}
	}
	return false
}

// heapHolds: some stored value (not index) mentions reference b.
func heapHolds(h, b *Term) bool {
	for h.op == "store" {
		v := h.args[2]
		if v.lo <= b.n && mentions(v, func(x *Term) bool { return x == b }) {
			return true
		}
		h = h.args[0]
	}
	return false
}

// apply puts the loop variables' values at the start of an iteration into s.
// Symbols are made anew unless reuse is set.
func (L *loopSum) apply(s *State, reuse bool) {
	e := L.e
	f := s.top()
	for _, v := range L.vars {
		switch v.class {
		case 'h':
			if v.acc {
				continue
			}
			if !reuse {
				v.sym = TFresh("lv_"+nonIdent.ReplaceAllString(v.name(), "_"), v.sort, L.lo)
			}
			if v.typ != nil {
				for _, w := range wfFacts(v.typ, v.sym, nil) {
					s.fact(w)
				}
			}
		case 'i':
			v.sym = v.entry
		case 'l':
			v.sym = Add(v.entry, Mul(TInt(v.c), L.N))
		}
	}
	s.fact(Le(TInt(0), L.N))
	if !reuse {
		L.frames = map[string]*Term{}
		L.wholeSym = map[string]*Term{}
	}
	for _, k := range sortedKeys(L.whole) {
		n := L.wholeSym[k]
		if n == nil {
			n = TFresh("heap_"+nonIdent.ReplaceAllString(k, "_"), heapSorts[k], L.lo)
			L.wholeSym[k] = n
		}
		s.heap[k] = n
	}
	if L.useFrames {
		for _, k := range sortedKeys(L.freshKeys) {
			if L.whole[k] {
				continue
			}
			n := L.frames[k]
			if n == nil {
				n = TFresh("new_"+nonIdent.ReplaceAllString(k, "_"), heapSorts[k], L.lo)
				L.frames[k] = n
			}
			s.heap[k] = Framed(L.mark, e.heapGet(s, k, heapSorts[k]), n)
		}
	}
	for _, v := range L.vars {
		switch {
		case v.acc:
			n, c := L.part(v, 'n').sym, L.part(v, 'c').sym
			base := v.ref
			if v.nilBase {
				base = Ite(Eq(n, TInt(0)), TRef(0), v.ref)
			}
			var cp *Term
			if reuse {
				cp = sCap(v.sym)
			} else {
				cp = TFresh("cap", SInt, loInf)
			}
			s.fact(Le(TInt(0), n))
			s.fact(Le(n, cp))
			v.sym = mkSlice(base, n, cp)
			e.setArr(s, v.elem, v.ref, c)
			f.env[v.phi] = v.sym
		case v.phi != nil:
			f.env[v.phi] = v.sym
		case v.key != "" && !L.whole[v.key]:
			h := e.heapGet(s, v.key, heapSorts[v.key])
			if v.field < 0 {
				s.heap[v.key] = Store(h, v.idx, v.sym)
			} else {
				old := Select(h, v.idx)
				ct := structCtor[old.sort]
				args := make([]*Term, len(ct.fields))
				for i := range args {
					args[i] = Sel(ct, i, old)
				}
				args[v.field] = v.sym
				s.heap[v.key] = Store(h, v.idx, MkCtor(ct, old.sort, args...))
			}
		}
	}
}

func (L *loopSum) part(v *loopVar, p byte) *loopVar {
	for _, x := range L.vars {
		if x.owner == v && x.part == p {
			return x
		}
	}
	return nil
}

// back gives the variable's value at a back edge.
func (L *loopSum) back(v *loopVar, b *State) *Term {
	e := L.e
	switch {
	case v.part != 0:
		t := b.reduce(e.term(b, b.top().env[v.owner.phi]))
		if v.part == 'n' {
			return sLen(t)
		}
		return e.arr(b, v.owner.elem, L.accBase(v.owner, t))
	case v.phi != nil:
		return b.reduce(e.term(b, b.top().env[v.phi]))
	}
	x := Select(e.heapGet(b, v.key, heapSorts[v.key]), v.idx)
	if v.field >= 0 {
		x = Sel(structCtor[x.sort], v.field, x)
	}
	return x
}

// accBase picks the array which holds the accumulator's content (the nil base
// stands for an empty one).
func (L *loopSum) accBase(v *loopVar, t *Term) *Term {
	b := sBase(t)
	if b == sBase(v.sym) {
		return v.ref
	}
	return b
}

// discover finds heap cells the iteration changes; true when something new
// turned up and the iteration has to be run again.
func (L *loopSum) discover(hdr *State, backs []*State) bool {
	e := L.e
	again := false
	for _, b := range backs {
		// accumulators must still own their arrays
		for _, v := range L.vars {
			if !v.acc {
				continue
			}
			t := b.reduce(e.term(b, b.top().env[v.phi]))
			base := sBase(t)
			ok := base == sBase(v.sym) || (base.op == "int" && base.n < L.allocAt) || base == v.ref
			if ok && base.op == "int" && base != v.ref && L.refShared(b, base, v.phi) {
				ok = false
			}
			if ok && L.refShared(b, v.ref, v.phi) {
				ok = false
			}
			if !ok {
				debugf("accumulator %s given up: base %s", v.name(), show(base))
				L.noAcc[v.phi] = true
				L.dropAcc(v)
				return true
			}
		}
		for _, k := range sortedKeys(b.heap) {
			if L.whole[k] {
				continue
			}
			h0, ok := hdr.heap[k]
			if !ok {
				if bb, ok := e.base[k]; ok {
					h0 = bb
				} else {
					h0 = heapVar(k, b.heap[k].sort)
				}
			}
			if b.heap[k] == h0 {
				continue
			}
			if L.diff(hdr, k, h0, b.heap[k], 0) {
				again = true
			}
		}
	}
	if !L.useFrames && len(L.freshKeys) > 0 {
		// do objects allocated by an iteration outlive it?
		for _, v := range L.vars {
			if v.acc || !sortHasRef(v.sort) {
				continue
			}
			for _, b := range backs {
				x := L.back(v, b)
				if x != v.sym && x.lo < L.mark && mentions(x, func(t *Term) bool { return t.op == "int" && t.sort.kind == "Ref" && t.n < L.allocAt && t != v.ref }) {
					L.useFrames = true
					again = true
				}
			}
		}
	}
	return again
}

func (L *loopSum) dropAcc(v *loopVar) {
	v.acc = false
	var vs []*loopVar
	for _, x := range L.vars {
		if x.owner != v {
			vs = append(vs, x)
		}
	}
	L.vars = vs
	v.class = 'h'
}

// diff records what turned h0 into h; true when something new was found.
func (L *loopSum) diff(hdr *State, k string, h0, h *Term, depth int) bool {
	again := false
	for h != h0 {
		switch h.op {
		case "store":
			idx := h.args[1]
			switch {
			case idx.op == "int" && idx.sort.kind == "Ref" && idx.n < L.allocAt:
				if !L.freshKeys[k] {
					L.freshKeys[k] = true
					if L.useFrames {
						again = true
					}
				}
			case L.isAccRef(idx):
			case L.invariantTerm(idx):
				if L.addCell(hdr, k, idx, h0, h.args[2]) {
					again = true
				}
			default:
				debugf("loop forgets %s (index %s)", k, show(idx))
				L.forget(k)
				return true
			}
			h = h.args[0]
		case "ite":
			a := L.diff(hdr, k, h0, h.args[1], depth+1)
			if L.whole[k] {
				return true
			}
			b := L.diff(hdr, k, h0, h.args[2], depth+1)
			return again || a || b
		case "frame":
			h = h.args[0]
			if !L.freshKeys[k] {
				L.freshKeys[k] = true
				if L.useFrames {
					again = true
				}
			}
		default:
			// the start of the iteration may itself sit below stores
			if h0.op == "store" && depth < 40 {
				return L.diffBase(hdr, k, h0, h) || again
			}
			debugf("loop forgets %s (%s)", k, h.op)
			L.forget(k)
			return true
		}
	}
	return again
}

// diffBase: h is a base found below h0's own stores (stores of the header
// were overwritten): the cells h0 set are changed.
func (L *loopSum) diffBase(hdr *State, k string, h0, h *Term) bool {
	again := false
	x := h0
	for x != h {
		if x.op != "store" {
			L.forget(k)
			return true
		}
		idx := x.args[1]
		if !L.isAccRef(idx) {
			if L.addCell(hdr, k, idx, h0, nil) {
				again = true
			}
		}
		x = x.args[0]
	}
	return again
}

func (L *loopSum) isAccRef(idx *Term) bool {
	for _, v := range L.vars {
		if v.acc && v.ref == idx {
			return true
		}
	}
	return false
}

func (L *loopSum) forget(k string) {
	L.whole[k] = true
	var vs []*loopVar
	for _, v := range L.vars {
		if v.key != k {
			vs = append(vs, v)
		}
	}
	L.vars = vs
	// accumulators of that element type cannot be kept apart either: their
	// content lives at a reference of their own, written after forgetting
}

func (L *loopSum) addCell(hdr *State, k string, idx, h0, nv *Term) bool {
	old := Select(h0, idx)
	add := func(field int, srt *Sort, entry *Term, typ types.Type) bool {
		for _, v := range L.vars {
			if v.key == k && v.idx == idx && (v.field == field || v.field < 0) {
				return false
			}
		}
		if field < 0 {
			var vs []*loopVar
			for _, v := range L.vars {
				if !(v.key == k && v.idx == idx) {
					vs = append(vs, v)
				}
			}
			L.vars = vs
		}
		L.vars = append(L.vars, &loopVar{key: k, idx: idx, field: field, sort: srt, class: 'h', entry: entry, typ: typ})
		return true
	}
	eh := Select(L.e.heapGet(L.s, k, heapSorts[k]), idx)
	ct := structCtor[old.sort]
	if ct == nil || nv == nil || nv.op != "ctor" {
		if nv == old {
			return false
		}
		return add(-1, old.sort, eh, nil)
	}
	again := false
	for i := range ct.fields {
		if nv.args[i] != Sel(ct, i, old) {
			if add(i, ct.fields[i], Sel(ct, i, eh), nil) {
				again = true
			}
		}
	}
	return again
}

// invariantTerm: the term has the same value in every iteration.
func (L *loopSum) invariantTerm(t *Term) bool {
	return !mentions(t, func(x *Term) bool {
		if L.born(x) || x == L.N {
			return true
		}
		return L.isSym(x)
	})
}

var birthOf = map[string]int{}

// born: a symbol made during the iteration's run.
func (L *loopSum) born(x *Term) bool {
	switch x.op {
	case "var", "uf":
		if !strings.Contains(x.name, "!") {
			return false
		}
		b, ok := birthOf[x.name]
		return ok && b > L.birth
	case "int":
		return x.sort.kind == "Ref" && x.n < L.allocAt && x.n < 0
	}
	return false
}

func (L *loopSum) isSym(x *Term) bool {
	if x.op != "var" {
		return false
	}
	for _, v := range L.vars {
		if v.class == 'h' && !v.acc && v.sym == x {
			return true
		}
	}
	for _, n := range L.frames {
		if n == x {
			return true
		}
	}
	for _, n := range L.wholeSym {
		if n == x {
			return true
		}
	}
	return strings.HasPrefix(x.name, "cap!") && birthOf[x.name] > 0 && L.bornCap(x)
}

func (L *loopSum) bornCap(x *Term) bool {
	for _, v := range L.vars {
		if v.acc && v.sym != nil && sCap(v.sym) == x {
			return true
		}
	}
	return false
}

func (L *loopSum) classify(backs []*State) bool {
	changed := false
	if len(backs) == 0 {
		return false
	}
	for _, v := range L.vars {
		if v.acc {
			continue
		}
		inv, lin := true, v.sort == SInt
		var c int64
		for i, b := range backs {
			x := L.back(v, b)
			if x != v.sym {
				inv = false
			}
			if lin {
				base, k := splitAdd(x)
				if base != v.sym || (i > 0 && k != c) {
					lin = false
				}
				c = k
			}
		}
		if inv {
			v.class = 'i'
			changed = true
		} else if lin {
			v.class, v.c = 'l', c
			changed = true
		}
	}
	return changed
}

func (L *loopSum) consistent(backs []*State) bool {
	ok := true
	for _, v := range L.vars {
		for _, b := range backs {
			x := L.back(v, b)
			switch v.class {
			case 'i':
				if x != v.sym {
					v.class = 'h'
					ok = false
				}
			case 'l':
				if x != Add(v.sym, TInt(v.c)) {
					v.class = 'h'
					ok = false
				}
			}
		}
	}
	return ok
}

// ---- facts ----

// lift rewrites a term about the N-th iteration into one about iteration j.
func (L *loopSum) lift(t, j *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == L.N {
			return j
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		switch {
		case t.op == "var" && L.born(t):
			r = TUF(t.name+"@", t.sort, minI(t.lo, L.lo), j)
			birthOf[t.name+"@"] = termSeq
		case t.op == "int" && L.born(t):
			r = L.allocFn(t, j)
		case len(t.args) > 0:
			args := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				args[i] = rec(a)
				ch = ch || args[i] != a
			}
			if t.op == "uf" && L.born(t) {
				r = TUF(t.name+"@", t.sort, minI(t.lo, L.lo), append(args, j)...)
				birthOf[t.name+"@"] = termSeq
			} else if ch {
				r = rebuild(t, args)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func minI(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

func (L *loopSum) allocFn(t, j *Term) *Term {
	n := fmt.Sprintf("new%d!%s", -t.n, L.N.name)
	birthOf[n] = termSeq
	return TUF(n, SRef, L.lo, j)
}

// usable: the conjunct speaks only about things known for every iteration.
func (L *loopSum) usable(t *Term) bool {
	return !mentions(t, func(x *Term) bool {
		if x.op == "isold" && x.n < L.allocAt {
			return true
		}
		return L.isSym(x)
	})
}

type pathFact struct {
	b     *State
	conds []*Term
}

func (L *loopSum) facts(backs []*State) []*Term {
	N := L.N
	var out []*Term
	var paths []pathFact
	for _, b := range backs {
		p := pathFact{b: b}
		for _, c := range b.pc[L.start:] {
			if L.usable(c) {
				p.conds = append(p.conds, c)
			}
		}
		// objects allocated by the iteration
		for _, k := range sortedKeys(L.frames) {
			h := b.heap[k]
			seen := map[*Term]bool{}
			for h != nil && h.op == "store" {
				idx, val := h.args[1], h.args[2]
				if idx.op == "int" && idx.n < L.allocAt && !seen[idx] {
					seen[idx] = true
					if L.usable(val) {
						p.conds = append(p.conds, Eq(Select(L.frames[k], idx), val))
					} else if ct := structCtor[val.sort]; ct != nil && val.op == "ctor" {
						for i, a := range val.args {
							if L.usable(a) {
								p.conds = append(p.conds, Eq(Sel(ct, i, Select(L.frames[k], idx)), a))
							}
						}
					}
				}
				h = h.args[0]
			}
		}
		paths = append(paths, p)
	}
	step := func(j *Term, keep func(pathFact) []*Term) *Term {
		var ds []*Term
		for _, p := range paths {
			ex := keep(p)
			if len(ex) == 1 && ex[0] == TFalse {
				continue
			}
			var cs []*Term
			for _, c := range p.conds {
				cs = append(cs, L.lift(c, j))
			}
			for _, c := range ex {
				cs = append(cs, c)
			}
			ds = append(ds, And(cs...))
		}
		return orFactored(ds)
	}
	none := func(pathFact) []*Term { return nil }
	// every earlier iteration went round
	j := TBVar("j", SInt, loInf)
	out = append(out, Forall([]*Term{j}, Implies(And(Le(TInt(0), j), Lt(j, N)), step(j, none))))
	out = append(out, Or(Eq(N, TInt(0)), step(Sub(N, TInt(1)), none)))
	// allocation functions
	if L.useFrames {
		refs := map[*Term]bool{}
		for _, p := range paths {
			for _, c := range p.conds {
				mentions(c, func(x *Term) bool {
					if x.op == "int" && L.born(x) {
						refs[x] = true
					}
					return false
				})
			}
			for _, v := range L.vars {
				if !v.acc {
					mentions(L.back(v, p.b), func(x *Term) bool {
						if x.op == "int" && L.born(x) {
							refs[x] = true
						}
						return false
					})
				}
			}
		}
		var rs []*Term
		for r := range refs {
			rs = append(rs, r)
		}
		sortTerms(rs)
		for _, r := range rs {
			j := TBVar("j", SInt, loInf)
			a := L.allocFn(r, j)
			tag := "idx!" + N.name
			site := "site!" + N.name
			birthOf[tag], birthOf[site] = termSeq, termSeq
			out = append(out, Forall([]*Term{j}, And(
				Not(IsOld(L.mark, a)), IsOldAlways(L.lo, a),
				Eq(TUF(tag, SInt, loInf, a), j), Eq(TUF(site, SInt, loInf, a), TInt(-r.n))), a))
		}
	}
	// variables which are assigned now and then
	for _, v := range L.vars {
		if v.acc || v.class != 'h' {
			continue
		}
		if v.sort.kind == "Array" {
			if fs, ok := L.arrayFacts(v, paths, step); ok {
				out = append(out, fs...)
				continue
			}
		}
		w := TFresh("last_"+nonIdent.ReplaceAllString(v.name(), "_"), SInt, loInf)
		keepP := func(p pathFact) []*Term {
			if L.back(v, p.b) == v.sym {
				return nil
			}
			return []*Term{TFalse}
		}
		setP := func(p pathFact) []*Term {
			x := L.back(v, p.b)
			if x == v.sym {
				return []*Term{TFalse}
			}
			if !L.usable(x) {
				return nil
			}
			return []*Term{Eq(v.sym, L.lift(x, w))}
		}
		out = append(out, Or(
			And(Eq(w, TInt(-1)), Eq(v.sym, v.entry)),
			And(Le(TInt(0), w), Lt(w, N), step(w, setP))))
		j := TBVar("j", SInt, loInf)
		out = append(out, Forall([]*Term{j}, Implies(And(Lt(w, j), Le(TInt(0), j), Lt(j, N)), step(j, keepP))))
	}
	return out
}

func sortTerms(ts []*Term) {
	for i := range ts {
		for j := i + 1; j < len(ts); j++ {
			if ts[j].n > ts[i].n {
				ts[i], ts[j] = ts[j], ts[i]
			}
		}
	}
}

// IsOldAlways keeps the comparison even when the bound is known.
func IsOldAlways(mark int64, r *Term) *Term {
	return mk(&Term{op: "isold", name: fmt.Sprint(mark), n: mark, args: []*Term{r}, sort: SBool, lo: loInf})
}

// orFactored is the disjunction with common conjuncts pulled out.
func orFactored(ds []*Term) *Term {
	if len(ds) == 0 {
		return TFalse
	}
	if len(ds) == 1 {
		return ds[0]
	}
	conj := func(t *Term) []*Term {
		if t.op == "and" {
			return t.args
		}
		return []*Term{t}
	}
	count := map[*Term]int{}
	for _, d := range ds {
		for _, c := range conj(d) {
			count[c]++
		}
	}
	var common []*Term
	for _, c := range conj(ds[0]) {
		if count[c] == len(ds) {
			common = append(common, c)
		}
	}
	var rest []*Term
	for _, d := range ds {
		var cs []*Term
		for _, c := range conj(d) {
			if count[c] != len(ds) {
				cs = append(cs, c)
			}
		}
		rest = append(rest, And(cs...))
	}
	return And(append(common, Or(rest...))...)
}

type write struct{ idx, val *Term }

// writes decomposes an array value into the writes made on top of base,
// oldest first.
func writes(t, base *Term) ([]write, bool) {
	var ws []write
	for t != base {
		if t.op != "store" {
			return nil, false
		}
		ws = append([]write{{t.args[1], t.args[2]}}, ws...)
		t = t.args[0]
	}
	return ws, true
}

func (L *loopSum) arrayFacts(v *loopVar, paths []pathFact, step func(*Term, func(pathFact) []*Term) *Term) ([]*Term, bool) {
	var out []*Term
	all := map[*State][]write{}
	linear := true
	var at *Term
	for _, p := range paths {
		ws, ok := writes(L.back(v, p.b), v.sym)
		if !ok {
			return nil, false
		}
		for _, w := range ws {
			if !L.usable(w.idx) {
				return nil, false
			}
		}
		all[p.b] = ws
		if len(ws) != 1 || (at != nil && at != ws[0].idx) || ws[0].idx.sort != SInt {
			linear = false
		} else {
			at = ws[0].idx
		}
	}
	N := L.N
	k := TBVar("k", v.sort.key, loInf)
	sel := Select(v.sym, k)
	ent := Select(v.entry, k)
	if linear && at != nil {
		// every iteration writes position e+N
		e := Subst(at, map[*Term]*Term{N: TInt(0)})
		if at == Add(e, N) && L.invariantTerm(e) {
			jj := Sub(k, e)
			set := func(p pathFact) []*Term {
				val := all[p.b][0].val
				if !L.usable(val) {
					return nil
				}
				return []*Term{Eq(sel, L.lift(val, jj))}
			}
			out = append(out, Forall([]*Term{k}, Implies(And(Le(e, k), Lt(k, Add(e, N))), step(jj, set)), sel))
			out = append(out, Forall([]*Term{k}, Implies(Or(Lt(k, e), Le(Add(e, N), k)), Eq(sel, ent)), sel))
			return out, true
		}
	}
	wn := freshName("lastw_" + nonIdent.ReplaceAllString(v.name(), "_"))
	birthOf[wn] = termSeq
	w := TUF(wn, SInt, loInf, k)
	set := func(p pathFact) []*Term {
		ws := all[p.b]
		if len(ws) == 0 {
			return []*Term{TFalse}
		}
		var ds []*Term
		for i, x := range ws {
			cs := []*Term{Eq(L.lift(x.idx, w), k)}
			for _, y := range ws[i+1:] {
				cs = append(cs, Not(Eq(L.lift(y.idx, w), k)))
			}
			if L.usable(x.val) {
				cs = append(cs, Eq(sel, L.lift(x.val, w)))
			}
			ds = append(ds, And(cs...))
		}
		return []*Term{Or(ds...)}
	}
	out = append(out, Forall([]*Term{k}, Or(
		And(Eq(w, TInt(-1)), Eq(sel, ent)),
		And(Le(TInt(0), w), Lt(w, N), step(w, set))), sel))
	j := TBVar("j", SInt, loInf)
	keep := func(p pathFact) []*Term {
		var cs []*Term
		for _, x := range all[p.b] {
			cs = append(cs, Not(Eq(L.lift(x.idx, j), k)))
		}
		return cs
	}
	out = append(out, Forall([]*Term{k, j}, Implies(And(Lt(w, j), Le(TInt(0), j), Lt(j, N)), step(j, keep))))
	return out, true
}
