package main

// Terms: hash-consed, sorted, simplified on construction.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort. Ref sorts print as Int but are kept apart.
type Sort struct {
	name string // printed name
	kind string // "Bool","Int","String","Ref","F64","Array","Data","U"
	key  *Sort  // Array
	val  *Sort
	dt   *DataType
}

type Ctor struct {
	name   string
	fields []*Sort
	fnames []string
	dt     *DataType
	boxed  interface{} // for Iface constructors: types.Type
}

type DataType struct {
	name  string
	ctors []*Ctor
	open  bool // Iface: constructors are added on the fly
}

var (
	SBool   = &Sort{name: "Bool", kind: "Bool"}
	SInt    = &Sort{name: "Int", kind: "Int"}
	SString = &Sort{name: "String", kind: "String"}
	SRef    = &Sort{name: "Int", kind: "Ref"}
	SF64    = &Sort{name: "F64", kind: "U"}
	sorts   = map[string]*Sort{}
)

func usort(name string) *Sort {
	if s, ok := sorts["U:"+name]; ok {
		return s
	}
	s := &Sort{name: name, kind: "U"}
	sorts["U:"+name] = s
	return s
}

func sortKey(s *Sort) string {
	if s.kind == "Ref" {
		return "Ref"
	}
	if s.kind == "Array" {
		return "(A " + sortKey(s.key) + " " + sortKey(s.val) + ")"
	}
	return s.name
}

func arraySort(k, v *Sort) *Sort {
	n := "(A " + sortKey(k) + " " + sortKey(v) + ")"
	if s, ok := sorts[n]; ok {
		return s
	}
	s := &Sort{name: "(Array " + k.name + " " + v.name + ")", kind: "Array", key: k, val: v}
	sorts[n] = s
	return s
}

const loInf = math.MaxInt64

type Term struct {
	id       int
	op       string
	name     string // var, uf, str literal
	n        int64  // int literal
	big      *big.Int
	args     []*Term
	sort     *Sort
	ctor     *Ctor
	fi       int
	bvars    []*Term
	pats     []*Term
	hasBound bool  // mentions some bound variable (free or not)
	lo       int64 // lower bound of every reference inside the value
	size     int
}

var (
	termTab   = map[string]*Term{}
	termSeq   int
	freshSeq  = map[string]int{}
	TTrue     *Term
	TFalse    *Term
	varByName = map[string]*Term{}
)

func init() {
	TTrue = mk(&Term{op: "true", sort: SBool, lo: loInf})
	TFalse = mk(&Term{op: "false", sort: SBool, lo: loInf})
}

func mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	if t.op == "int" {
		if t.big != nil {
			b.WriteString(t.big.String())
		} else {
			fmt.Fprintf(&b, "%d", t.n)
		}
	}
	if t.ctor != nil {
		b.WriteString(t.ctor.name)
		fmt.Fprintf(&b, ".%d", t.fi)
	}
	b.WriteString("|")
	b.WriteString(sortKey(t.sort))
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	for _, a := range t.bvars {
		fmt.Fprintf(&b, ";%d", a.id)
	}
	for _, a := range t.pats {
		fmt.Fprintf(&b, "!%d", a.id)
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termSeq++
	t.id = termSeq
	t.size = 1
	for _, a := range t.args {
		t.hasBound = t.hasBound || a.hasBound
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	if t.op == "bvar" {
		t.hasBound = true
	}
	termTab[k] = t
	return t
}

func minLo(args ...*Term) int64 {
	m := int64(loInf)
	for _, a := range args {
		if a.lo < m {
			m = a.lo
		}
	}
	return m
}

// TVar makes a named constant. lo bounds the references inside it.
func TVar(name string, s *Sort, lo int64) *Term {
	if !sortHasRef(s) {
		lo = loInf
	}
	return mk(&Term{op: "var", name: name, sort: s, lo: lo})
}

func freshName(base string) string {
	freshSeq[base]++
	return fmt.Sprintf("%s!%d", base, freshSeq[base])
}

func TFresh(base string, s *Sort, lo int64) *Term {
	n := freshName(base)
	birthOf[n] = termSeq + 1
	return TVar(n, s, lo)
}

func TBVar(base string, s *Sort, lo int64) *Term {
	if !sortHasRef(s) {
		lo = loInf
	}
	return mk(&Term{op: "bvar", name: freshName("?" + base), sort: s, lo: lo})
}

var refMemo = map[*Sort]int{}

func sortHasRef(s *Sort) bool {
	switch s.kind {
	case "Ref":
		return true
	case "Array":
		return sortHasRef(s.val)
	case "Data":
		if s.dt.open {
			return true
		}
		if v, ok := refMemo[s]; ok {
			return v != 2
		}
		refMemo[s] = 2
		r := false
		for _, c := range s.dt.ctors {
			for _, f := range c.fields {
				if sortHasRef(f) {
					r = true
				}
			}
		}
		if r {
			refMemo[s] = 1
		} else {
			delete(refMemo, s)
			refMemo[s] = 2
		}
		return r
	}
	return false
}

func TInt(n int64) *Term { return mk(&Term{op: "int", n: n, sort: SInt, lo: loInf}) }
func TBig(b *big.Int) *Term {
	if b.IsInt64() {
		return TInt(b.Int64())
	}
	return mk(&Term{op: "int", big: b, sort: SInt, lo: loInf})
}
func TRef(n int64) *Term  { return mk(&Term{op: "int", n: n, sort: SRef, lo: n}) }
func TStr(s string) *Term { return mk(&Term{op: "str", name: s, sort: SString, lo: loInf}) }
func TBool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}

func TUF(name string, s *Sort, lo int64, args ...*Term) *Term {
	if !sortHasRef(s) {
		lo = loInf
	}
	return mk(&Term{op: "uf", name: name, sort: s, args: args, lo: lo})
}

func isConst(t *Term) bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false"
}

func Not(t *Term) *Term {
	switch t.op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return t.args[0]
	}
	return mk(&Term{op: "not", args: []*Term{t}, sort: SBool, lo: loInf})
}

func And(ts ...*Term) *Term { return nary("and", ts) }
func Or(ts ...*Term) *Term  { return nary("or", ts) }

func nary(op string, ts []*Term) *Term {
	neutral, absorb := TTrue, TFalse
	if op == "or" {
		neutral, absorb = TFalse, TTrue
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == neutral || seen[t.id] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return absorb
		}
	}
	if len(out) == 0 {
		return neutral
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: op, args: out, sort: SBool, lo: loInf})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == TTrue || a == b {
		return a
	}
	if c == TFalse {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
		if a == TTrue {
			return Or(c, b)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
		if b == TFalse {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if b.op == "ite" && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if sortKey(a.sort) != sortKey(b.sort) {
		panic(fmt.Sprintf("ite sorts %s %s", sortKey(a.sort), sortKey(b.sort)))
	}
	return mk(&Term{op: "ite", args: []*Term{c, a, b}, sort: a.sort, lo: minLo(a, b)})
}

// distinct reports whether a and b are known to differ.
func distinct(a, b *Term) bool {
	if isConst(a) && isConst(b) {
		return a != b
	}
	if a.sort.kind == "Ref" {
		if a.op == "int" && a.n < b.lo {
			return true
		}
		if b.op == "int" && b.n < a.lo {
			return true
		}
	}
	if a.op == "ctor" && b.op == "ctor" {
		if a.ctor != b.ctor {
			return true
		}
		for i := range a.args {
			if distinct(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	if a.sort.kind == "Int" {
		// x + c vs x + d
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb && ac != bc {
			return true
		}
	}
	if a.op == "ite" {
		return distinct(a.args[1], b) && distinct(a.args[2], b)
	}
	if b.op == "ite" {
		return distinct(a, b.args[1]) && distinct(a, b.args[2])
	}
	if a.sort == SString {
		if (a.op == "str" && a.name == "" && neverEmpty(b)) || (b.op == "str" && b.name == "" && neverEmpty(a)) {
			return true
		}
	}
	return false
}

func neverEmpty(t *Term) bool {
	if t.op == "str" {
		return t.name != ""
	}
	if t.op == "str.++" {
		for _, a := range t.args {
			if neverEmpty(a) {
				return true
			}
		}
	}
	return false
}

func splitAdd(t *Term) (*Term, int64) {
	if t.op == "int" && t.big == nil {
		return nil, t.n
	}
	if t.op == "+" {
		last := t.args[len(t.args)-1]
		if last.op == "int" && last.big == nil {
			rest := t.args[:len(t.args)-1]
			if len(rest) == 1 {
				return rest[0], last.n
			}
			return mk(&Term{op: "+", args: append([]*Term{}, rest...), sort: SInt, lo: loInf}), last.n
		}
	}
	return t, 0
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if sortKey(a.sort) != sortKey(b.sort) {
		panic(fmt.Sprintf("eq sorts %s=%s vs %s=%s", sortKey(a.sort), show(a), sortKey(b.sort), show(b)))
	}
	if distinct(a, b) {
		return TFalse
	}
	if a.sort == SBool {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
		if a == Not(b) {
			return TFalse
		}
	}
	if a.op == "ctor" && b.op == "ctor" && a.ctor == b.ctor {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// constructor without fields or with: x = C(..) where x is opaque
	if b.op == "ctor" && len(b.args) == 0 {
		return Is(b.ctor, a)
	}
	if a.op == "ctor" && len(a.args) == 0 {
		return Is(a.ctor, b)
	}
	if b.op == "ctor" && a.op != "ctor" && a.op != "ite" {
		a, b = b, a
	}
	if a.op == "ctor" && b.op != "ite" && (a.sort.dt.open || len(a.sort.dt.ctors) == 1) {
		cs := []*Term{Is(a.ctor, b)}
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], Sel(a.ctor, i, b)))
		}
		return And(cs...)
	}
	if a.op == "ite" && (isConst(b) || b.op == "ctor") {
		if distinct(a.args[1], b) {
			return And(Not(a.args[0]), Eq(a.args[2], b))
		}
		if distinct(a.args[2], b) {
			return And(a.args[0], Eq(a.args[1], b))
		}
		if a.args[1] == b {
			return Or(a.args[0], Eq(a.args[2], b))
		}
		if a.args[2] == b {
			return Or(Not(a.args[0]), Eq(a.args[1], b))
		}
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && (isConst(a) || a.op == "ctor") {
		return Eq(b, a)
	}
	if a.sort.kind == "Int" {
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab != nil && bb != nil && ac != 0 && bc != 0 {
			return Eq(Add(ab, TInt(ac-bc)), bb)
		}
		if ab != nil && bb == nil && ac != 0 {
			return Eq(ab, TInt(bc-ac))
		}
		if bb != nil && ab == nil && bc != 0 {
			return Eq(bb, TInt(ac-bc))
		}
	}
	if a.sort == SString {
		if a.op == "str.++" && b.op == "str.++" {
			// common prefix / suffix
			if a.args[0] == b.args[0] {
				return Eq(Concat(a.args[1:]...), Concat(b.args[1:]...))
			}
			if a.args[len(a.args)-1] == b.args[len(b.args)-1] {
				return Eq(Concat(a.args[:len(a.args)-1]...), Concat(b.args[:len(b.args)-1]...))
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{op: "=", args: []*Term{a, b}, sort: SBool, lo: loInf})
}

func Add(ts ...*Term) *Term {
	var out []*Term
	c := big.NewInt(0)
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.op == "int":
			if t.big != nil {
				c.Add(c, t.big)
			} else {
				c.Add(c, big.NewInt(t.n))
			}
		case t.op == "+":
			for _, a := range t.args {
				add(a)
			}
		default:
			out = append(out, t)
		}
	}
	for _, t := range ts {
		add(t)
	}
	// cancel x + (-1 * x)
	sort.SliceStable(out, func(i, j int) bool { return out[i].id < out[j].id })
	var res []*Term
	used := make([]bool, len(out))
	for i, t := range out {
		if used[i] {
			continue
		}
		cancelled := false
		for j := range out {
			if j != i && !used[j] && (isNegOf(out[j], t) || isNegOf(t, out[j])) {
				used[i], used[j] = true, true
				cancelled = true
				break
			}
		}
		if !cancelled {
			res = append(res, t)
		}
	}
	out = nil
	for _, t := range res {
		out = append(out, t)
	}
	if len(out) == 0 {
		return TBig(c)
	}
	if c.Sign() != 0 {
		out = append(out, TBig(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: "+", args: out, sort: SInt, lo: loInf})
}

func isNegOf(a, b *Term) bool {
	return a.op == "*" && len(a.args) == 2 && a.args[0].op == "int" && a.args[0].big == nil && a.args[0].n == -1 && a.args[1] == b
}

func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return TBig(new(big.Int).Mul(toBig(a), toBig(b)))
	}
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" && a.big == nil {
		if a.n == 0 {
			return TInt(0)
		}
		if a.n == 1 {
			return b
		}
		if b.op == "+" {
			var xs []*Term
			for _, t := range b.args {
				xs = append(xs, Mul(a, t))
			}
			return Add(xs...)
		}
		if b.op == "*" && b.args[0].op == "int" {
			return Mul(TBig(new(big.Int).Mul(toBig(a), toBig(b.args[0]))), b.args[1])
		}
	}
	return mk(&Term{op: "*", args: []*Term{a, b}, sort: SInt, lo: loInf})
}

func toBig(t *Term) *big.Int {
	if t.big != nil {
		return t.big
	}
	return big.NewInt(t.n)
}

func Sub(a, b *Term) *Term { return Add(a, Mul(TInt(-1), b)) }

func Le(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return TBool(toBig(a).Cmp(toBig(b)) <= 0)
	}
	if a == b {
		return TTrue
	}
	if a.sort.kind == "Int" {
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb && ab != nil {
			return TBool(ac <= bc)
		}
		if ac != 0 && bc != 0 && ab != nil && bb != nil {
			return Le(Add(ab, TInt(ac-bc)), bb)
		}
		if bb == nil && ac != 0 && ab != nil {
			return Le(ab, TInt(bc-ac))
		}
		if ab == nil && bc != 0 && bb != nil {
			return Le(TInt(ac-bc), bb)
		}
		// lengths are never negative
		if a.op == "int" && a.big == nil && a.n <= 0 && b.op == "str.len" {
			return TTrue
		}
		if b.op == "int" && b.big == nil && b.n < 0 && a.op == "str.len" {
			return TFalse
		}
	}
	return mk(&Term{op: "<=", args: []*Term{a, b}, sort: SBool, lo: loInf})
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }

var selectMemo = map[[2]int64]*Term{}

func Select(a, i *Term) *Term {
	switch a.op {
	case "store", "ite", "frame":
		k := [2]int64{int64(a.id), int64(i.id)}
		if r := selectMemo[k]; r != nil {
			return r
		}
		r := select1(a, i)
		selectMemo[k] = r
		return r
	}
	return select1(a, i)
}

func select1(a, i *Term) *Term {
	for {
		if a.op == "store" {
			if a.args[1] == i {
				return a.args[2]
			}
			if distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
			if e := Eq(a.args[1], i); e == TTrue {
				return a.args[2]
			} else if e == TFalse {
				a = a.args[0]
				continue
			} else if a.sort.val.kind != "Array" || true {
				return Ite(e, a.args[2], Select(a.args[0], i))
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		if a.op == "frame" {
			switch o := IsOld(a.n, i); o {
			case TTrue:
				a = a.args[0]
				continue
			case TFalse:
				a = a.args[1]
				continue
			default:
				return Ite(o, Select(a.args[0], i), Select(a.args[1], i))
			}
		}
		if a.op == "ite" {
			return Ite(a.args[0], Select(a.args[1], i), Select(a.args[2], i))
		}
		break
	}
	if sortKey(a.sort.key) != sortKey(i.sort) {
		panic(fmt.Sprintf("select key %s vs %s: %s", sortKey(a.sort.key), sortKey(i.sort), show(a)))
	}
	lo := a.lo
	if !sortHasRef(a.sort.val) {
		lo = loInf
	}
	return mk(&Term{op: "select", args: []*Term{a, i}, sort: a.sort.val, lo: lo})
}

func Store(a, i, v *Term) *Term {
	if sortKey(a.sort.val) != sortKey(v.sort) {
		panic(fmt.Sprintf("store val %s vs %s", sortKey(a.sort.val), sortKey(v.sort)))
	}
	if sortKey(a.sort.key) != sortKey(i.sort) {
		panic(fmt.Sprintf("store key %s vs %s", sortKey(a.sort.key), sortKey(i.sort)))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	// drop an earlier store to the same index deeper in the chain
	if a.op == "store" && distinct(a.args[1], i) {
		if hasStore(a.args[0], i) {
			return Store(Store(a.args[0], i, v), a.args[1], a.args[2])
		}
	}
	lo := minLo(a, v)
	if !sortHasRef(a.sort.val) {
		lo = loInf
	}
	return mk(&Term{op: "store", args: []*Term{a, i, v}, sort: a.sort, lo: lo})
}

func hasStore(a, i *Term) bool {
	for a.op == "store" {
		if a.args[1] == i {
			return true
		}
		if !distinct(a.args[1], i) {
			return false
		}
		a = a.args[0]
	}
	return false
}

func ConstArr(s *Sort, v *Term) *Term {
	return mk(&Term{op: "constarr", args: []*Term{v}, sort: s, lo: v.lo})
}

func MkCtor(c *Ctor, s *Sort, args ...*Term) *Term {
	if len(args) != len(c.fields) {
		panic("ctor arity " + c.name)
	}
	for i := range args {
		if sortKey(args[i].sort) != sortKey(c.fields[i]) {
			panic(fmt.Sprintf("ctor %s field %d (%s): %s vs %s", c.name, i, c.fnames[i], sortKey(args[i].sort), sortKey(c.fields[i])))
		}
	}
	// eta: C(sel0 x, sel1 x, ...) = x for single-constructor types
	if len(args) > 0 && len(c.dt.ctors) == 1 && !c.dt.open && args[0].op == "sel" && args[0].ctor == c && args[0].fi == 0 {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if !(a.op == "sel" && a.ctor == c && a.fi == i && a.args[0] == x) {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk(&Term{op: "ctor", ctor: c, args: args, sort: s, lo: minLo(args...)})
}

func Sel(c *Ctor, i int, t *Term) *Term {
	if t.op == "ctor" {
		if t.ctor == c {
			return t.args[i]
		}
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		// selecting from the wrong constructor is arbitrary: keep the other branch
		if a.op == "ctor" && a.ctor != c {
			return Sel(c, i, b)
		}
		if b.op == "ctor" && b.ctor != c {
			return Sel(c, i, a)
		}
		return Ite(t.args[0], Sel(c, i, a), Sel(c, i, b))
	}
	lo := t.lo
	if !sortHasRef(c.fields[i]) {
		lo = loInf
	}
	return mk(&Term{op: "sel", ctor: c, fi: i, args: []*Term{t}, sort: c.fields[i], lo: lo})
}

func Is(c *Ctor, t *Term) *Term {
	if t.op == "ctor" {
		return TBool(t.ctor == c)
	}
	if t.op == "ite" {
		return Ite(t.args[0], Is(c, t.args[1]), Is(c, t.args[2]))
	}
	if len(c.dt.ctors) == 1 && !c.dt.open {
		return TTrue
	}
	return mk(&Term{op: "is", ctor: c, args: []*Term{t}, sort: SBool, lo: loInf})
}

// ---- strings ----

func Concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		xs := []*Term{t}
		if t.op == "str.++" {
			xs = t.args
		}
		for _, x := range xs {
			if x.op == "str" && x.name == "" {
				continue
			}
			if x.op == "str" && len(out) > 0 && out[len(out)-1].op == "str" {
				out[len(out)-1] = TStr(out[len(out)-1].name + x.name)
				continue
			}
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return TStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{op: "str.++", args: out, sort: SString, lo: loInf})
}

func StrLen(t *Term) *Term {
	if t.op == "str" {
		return TInt(int64(len(t.name)))
	}
	if t.op == "str.++" {
		var xs []*Term
		for _, a := range t.args {
			xs = append(xs, StrLen(a))
		}
		return Add(xs...)
	}
	return mk(&Term{op: "str.len", args: []*Term{t}, sort: SInt, lo: loInf})
}

func Substr(s, off, n *Term) *Term {
	if s.op == "str" && off.op == "int" && n.op == "int" && off.n >= 0 && n.n >= 0 && off.n+n.n <= int64(len(s.name)) {
		return TStr(s.name[off.n : off.n+n.n])
	}
	if off.op == "int" && off.n == 0 && n == StrLen(s) {
		return s
	}
	return mk(&Term{op: "str.substr", args: []*Term{s, off, n}, sort: SString, lo: loInf})
}

func StrOp(op string, s *Sort, args ...*Term) *Term {
	allc := true
	for _, a := range args {
		if !isConst(a) {
			allc = false
		}
	}
	if allc {
		switch op {
		case "str.prefixof":
			return TBool(strings.HasPrefix(args[1].name, args[0].name))
		case "str.suffixof":
			return TBool(strings.HasSuffix(args[1].name, args[0].name))
		case "str.contains":
			return TBool(strings.Contains(args[0].name, args[1].name))
		case "str.indexof":
			o := args[2].n
			if o >= 0 && o <= int64(len(args[0].name)) {
				i := strings.Index(args[0].name[o:], args[1].name)
				if i >= 0 {
					i += int(o)
				}
				return TInt(int64(i))
			}
		case "str.at":
			o := args[1].n
			if o >= 0 && o < int64(len(args[0].name)) {
				return TStr(args[0].name[o : o+1])
			}
		case "str.to_code":
			if len(args[0].name) == 1 {
				return TInt(int64(args[0].name[0]))
			}
		case "str.<":
			return TBool(args[0].name < args[1].name)
		case "str.<=":
			return TBool(args[0].name <= args[1].name)
		}
	}
	if op == "str.suffixof" && args[1].op == "str.++" {
		l := args[1].args[len(args[1].args)-1]
		if l == args[0] {
			return TTrue
		}
		if l.op == "str" && args[0].op == "str" {
			if strings.HasSuffix(l.name, args[0].name) {
				return TTrue
			}
			if !strings.HasSuffix(args[0].name, l.name) {
				return TFalse
			}
		}
	}
	if op == "str.prefixof" && args[1].op == "str.++" {
		l := args[1].args[0]
		if l == args[0] {
			return TTrue
		}
		if l.op == "str" && args[0].op == "str" {
			if strings.HasPrefix(l.name, args[0].name) {
				return TTrue
			}
			if !strings.HasPrefix(args[0].name, l.name) {
				return TFalse
			}
		}
	}
	return mk(&Term{op: op, args: args, sort: s, lo: loInf})
}

// ---- quantifiers ----

func Quant(op string, bvars []*Term, body *Term, pats ...*Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	// drop variables that do not occur
	var used []*Term
	occ := map[int]bool{}
	seen := map[int]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] || !t.hasBound {
			return
		}
		seen[t.id] = true
		if t.op == "bvar" {
			occ[t.id] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	for _, v := range bvars {
		if occ[v.id] {
			used = append(used, v)
		}
	}
	if len(used) == 0 {
		return body
	}
	return mk(&Term{op: op, bvars: used, args: []*Term{body}, pats: pats, sort: SBool, lo: loInf})
}

func Forall(bvars []*Term, body *Term, pats ...*Term) *Term {
	return Quant("forall", bvars, body, pats...)
}
func Exists(bvars []*Term, body *Term) *Term { return Quant("exists", bvars, body) }

// Subst replaces terms by terms, rebuilding with simplification.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "constarr":
		return ConstArr(t.sort, a[0])
	case "ctor":
		return MkCtor(t.ctor, t.sort, a...)
	case "sel":
		return Sel(t.ctor, t.fi, a[0])
	case "is":
		return Is(t.ctor, a[0])
	case "str.++":
		return Concat(a...)
	case "str.len":
		return StrLen(a[0])
	case "str.substr":
		return Substr(a[0], a[1], a[2])
	case "uf":
		return TUF(t.name, t.sort, t.lo, a...)
	case "isold":
		return IsOld(t.n, a[0])
	case "frame":
		return Framed(t.n, a[0], a[1])
	case "div", "mod":
		return DivMod(t.op == "mod", a[0], a[1])
	case "forall", "exists":
		return Quant(t.op, t.bvars, a[0])
	}
	if strings.HasPrefix(t.op, "str.") {
		return StrOp(t.op, t.sort, a...)
	}
	return mk(&Term{op: t.op, name: t.name, args: a, sort: t.sort, ctor: t.ctor, fi: t.fi, lo: t.lo})
}

// mentions reports whether t contains a subterm for which f holds.
func mentions(t *Term, f func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// show prints a term for people (bounded).
func show(t *Term) string {
	s := showN(t, 6)
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

func showN(t *Term, d int) string {
	switch t.op {
	case "int":
		if t.big != nil {
			return t.big.String()
		}
		return fmt.Sprint(t.n)
	case "str":
		return fmt.Sprintf("%q", t.name)
	case "var", "bvar":
		return t.name
	case "true", "false":
		return t.op
	}
	if d == 0 {
		return "…"
	}
	h := t.op
	switch t.op {
	case "uf":
		h = t.name
	case "ctor":
		h = t.ctor.name
	case "sel":
		h = t.ctor.fnames[t.fi]
	case "is":
		h = "is_" + t.ctor.name
	}
	var b strings.Builder
	b.WriteString("(" + h)
	for _, v := range t.bvars {
		b.WriteString(" " + v.name)
	}
	for _, a := range t.args {
		b.WriteString(" " + showN(a, d-1))
	}
	b.WriteString(")")
	return b.String()
}
