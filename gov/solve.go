package main

// Printing obligations as SMT-LIB and running the solvers.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type Solver struct {
	tag      string
	dir      string
	timeout  int // seconds per attempt
	workers  int
	mu       sync.Mutex
	queries  int
	given    int // obligations given up
	late     int // obligations not tried for want of time
	deadline time.Time
	total    time.Duration
}

type smtPrinter struct {
	b        bytes.Buffer
	ustr     bool // strings as an uninterpreted sort
	decl     map[string]bool
	funs     map[string]string // name -> signature
	funName  map[string]string
	sortsU   map[string]bool
	dts      map[*DataType]bool
	dtOrder  []*DataType
	ctors    map[*Ctor]bool
	ctorList []*Ctor
	defs     map[*Term]string
	refs     map[*Term]int
	order    []*Term
	head     bytes.Buffer
	strs     map[string]string
	axioms   []string
	frames   []*Term
	bad      string
	nuf      int
}

func (p *smtPrinter) sort(s *Sort) string {
	switch s.kind {
	case "Ref":
		return "Int"
	case "String":
		if p.ustr {
			return "Str"
		}
		return "String"
	case "Array":
		return "(Array " + p.sort(s.key) + " " + p.sort(s.val) + ")"
	}
	return quote(s.name)
}

func quote(n string) string {
	for _, c := range n {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '@' || c == '.' || c == '?' || c == '-') {
			return "|" + strings.ReplaceAll(strings.ReplaceAll(n, "|", "!"), "\\", "!") + "|"
		}
	}
	return n
}

func (p *smtPrinter) useSort(s *Sort) {
	switch s.kind {
	case "U":
		p.sortsU[s.name] = true
	case "Array":
		p.useSort(s.key)
		p.useSort(s.val)
	case "Data":
		p.useDT(s.dt)
	}
}

func (p *smtPrinter) useDT(d *DataType) {
	if p.dts[d] {
		return
	}
	p.dts[d] = true
	p.dtOrder = append(p.dtOrder, d)
	if d.open {
		p.useCtor(CNil)
		p.useCtor(COther)
		return
	}
	for _, c := range d.ctors {
		for _, f := range c.fields {
			p.useSort(f)
		}
	}
}

func (p *smtPrinter) useCtor(c *Ctor) {
	p.useDT(c.dt)
	if p.ctors[c] {
		return
	}
	p.ctors[c] = true
	p.ctorList = append(p.ctorList, c)
	for _, f := range c.fields {
		p.useSort(f)
	}
}

func (p *smtPrinter) scan(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	p.useSort(t.sort)
	if t.ctor != nil {
		p.useCtor(t.ctor)
	}
	for _, a := range t.args {
		p.scan(a)
	}
	for _, b := range t.bvars {
		p.useSort(b.sort)
	}
	for _, a := range t.pats {
		p.scan(a)
	}
	if t.op == "frame" {
		if t.hasBound {
			p.bad = "frame under a quantifier"
		}
		p.frames = append(p.frames, t)
	}
	p.order = append(p.order, t)
}

func strLit(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, "\\u{%x}", c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *smtPrinter) declFun(name string, args []*Term, res *Sort) string {
	var as []string
	for _, a := range args {
		as = append(as, p.sort(a.sort))
	}
	sig := "(" + strings.Join(as, " ") + ") " + p.sort(res)
	key := name + sig
	if n, ok := p.funName[key]; ok {
		return n
	}
	n := quote(name)
	if _, ok := p.funs[n]; ok {
		p.nuf++
		n = quote(fmt.Sprintf("%s~%d", name, p.nuf))
	}
	p.funs[n] = sig
	p.funName[key] = n
	fmt.Fprintf(&p.head, "(declare-fun %s %s)\n", n, sig)
	return n
}

func (p *smtPrinter) pr(t *Term) string {
	if d, ok := p.defs[t]; ok {
		return d
	}
	var as []string
	for _, a := range t.args {
		as = append(as, p.pr(a))
	}
	app := func(h string) string { return "(" + h + " " + strings.Join(as, " ") + ")" }
	switch t.op {
	case "true", "false":
		return t.op
	case "int":
		if t.big != nil {
			if t.big.Sign() < 0 {
				return "(- " + t.big.String()[1:] + ")"
			}
			return t.big.String()
		}
		if t.n < 0 {
			return fmt.Sprintf("(- %s)", fmt.Sprint(t.n)[1:])
		}
		return fmt.Sprint(t.n)
	case "str":
		if p.ustr {
			if n, ok := p.strs[t.name]; ok {
				return n
			}
			n := fmt.Sprintf("str_c%d", len(p.strs))
			p.strs[t.name] = n
			fmt.Fprintf(&p.head, "(declare-fun %s () Str)\n", n)
			return n
		}
		return strLit(t.name)
	case "var":
		n := p.declFun(t.name, nil, t.sort)
		return n
	case "bvar":
		return quote(t.name)
	case "uf":
		n := p.declFun(t.name, t.args, t.sort)
		if len(as) == 0 {
			return n
		}
		return app(n)
	case "not", "and", "or", "=", "ite", "+", "*", "<=", "select", "store":
		return app(t.op)
	case "div":
		return "(ite (>= " + as[0] + " 0) (div " + as[0] + " " + as[1] + ") (- (div (- " + as[0] + ") " + as[1] + ")))"
	case "mod":
		return "(ite (>= " + as[0] + " 0) (mod " + as[0] + " " + as[1] + ") (- (mod (- " + as[0] + ") " + as[1] + ")))"
	case "constarr":
		return "((as const " + p.sort(t.sort) + ") " + as[0] + ")"
	case "ctor":
		if len(as) == 0 {
			return quote(t.ctor.name)
		}
		return app(quote(t.ctor.name))
	case "sel":
		return app(quote(t.ctor.fnames[t.fi]))
	case "is":
		return app("(_ is " + quote(t.ctor.name) + ")")
	case "isold":
		m := fmt.Sprint(t.n)
		if t.n < 0 {
			m = "(- " + m[1:] + ")"
		}
		return "(<= " + m + " " + as[0] + ")"
	case "frame":
		n := fmt.Sprintf("frame_%d", t.id)
		if !p.decl[n] {
			p.decl[n] = true
			fmt.Fprintf(&p.head, "(declare-fun %s () %s)\n", n, p.sort(t.sort))
			m := fmt.Sprint(t.n)
			if t.n < 0 {
				m = "(- " + m[1:] + ")"
			}
			p.axioms = append(p.axioms, fmt.Sprintf("(forall ((r Int)) (! (= (select %s r) (ite (<= %s r) (select %s r) (select %s r))) :pattern ((select %s r))))", n, m, as[0], as[1], n))
		}
		return n
	case "forall", "exists":
		var vs []string
		for _, v := range t.bvars {
			vs = append(vs, "("+quote(v.name)+" "+p.sort(v.sort)+")")
		}
		body := as[0]
		if len(t.pats) > 0 {
			var ps []string
			okp := true
			for _, x := range t.pats {
				if !x.hasBound || x.op == "ite" || x.op == "bvar" || x.op == "and" || x.op == "or" {
					okp = false
				}
				ps = append(ps, p.pr(x))
			}
			if okp {
				body = "(! " + body + " :pattern (" + strings.Join(ps, " ") + "))"
			}
		}
		return "(" + t.op + " (" + strings.Join(vs, " ") + ") " + body + ")"
	}
	if strings.HasPrefix(t.op, "str.") {
		if p.ustr {
			if t.op == "str.++" {
				r := as[0]
				for i := 1; i < len(as); i++ {
					r = "(" + p.strFun("u_cat", "(Str Str) Str") + " " + r + " " + as[i] + ")"
				}
				return r
			}
			n := "u_" + nonIdent.ReplaceAllString(t.op[4:], "_")
			switch t.op {
			case "str.<":
				n = "u_lt"
			case "str.<=":
				n = "u_le"
			}
			var ss []string
			for _, a := range t.args {
				ss = append(ss, p.sort(a.sort))
			}
			return app(p.strFun(n, "("+strings.Join(ss, " ")+") "+p.sort(t.sort)))
		}
		if t.op == "str.at" || t.op == "str.substr" || t.op == "str.prefixof" || t.op == "str.suffixof" || t.op == "str.indexof" || t.op == "str.contains" {
			return app(t.op)
		}
		return app(t.op)
	}
	panic("print " + t.op)
}

func (p *smtPrinter) strFun(n, sig string) string {
	if !p.decl[n] {
		p.decl[n] = true
		fmt.Fprintf(&p.head, "(declare-fun %s %s)\n", n, sig)
	}
	return n
}

// render prints hypotheses and negated goal. extra are printed as is.
var renderMu sync.Mutex

func render(hyps []*Term, goal *Term, ustr bool, model bool) (string, string) {
	renderMu.Lock()
	defer renderMu.Unlock()
	p := &smtPrinter{ustr: ustr, decl: map[string]bool{}, funs: map[string]string{}, funName: map[string]string{}, sortsU: map[string]bool{},
		dts: map[*DataType]bool{}, ctors: map[*Ctor]bool{}, defs: map[*Term]string{}, refs: map[*Term]int{}, strs: map[string]string{}}
	all := append(append([]*Term{}, hyps...), Not(goal))
	for _, t := range all {
		p.scan(t)
	}
	if p.bad != "" {
		return "", p.bad
	}
	var body bytes.Buffer
	for _, t := range p.order {
		if p.refs[t] > 1 && len(t.args) > 0 && !t.hasBound && t.size > 4 && t.op != "frame" {
			x := p.pr(t)
			n := fmt.Sprintf("d%d", t.id)
			fmt.Fprintf(&p.head, "(define-fun %s () %s %s)\n", n, p.sort(t.sort), x)
			p.defs[t] = n
		}
	}
	for _, t := range all {
		fmt.Fprintf(&body, "(assert %s)\n", p.pr(t))
	}
	for _, a := range p.freshFacts() {
		fmt.Fprintf(&body, "(assert %s)\n", a)
	}
	var out bytes.Buffer
	if ustr {
		out.WriteString("(set-logic ALL)\n")
	} else {
		out.WriteString("(set-logic ALL)\n")
	}
	if model {
		out.WriteString("(set-option :produce-models true)\n")
	}
	if ustr {
		out.WriteString("(declare-sort Str 0)\n")
	}
	var us []string
	for s := range p.sortsU {
		us = append(us, s)
	}
	sort.Strings(us)
	for _, s := range us {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", quote(s))
	}
	if len(p.dtOrder) > 0 {
		out.WriteString("(declare-datatypes (")
		for _, d := range p.dtOrder {
			fmt.Fprintf(&out, "(%s 0)", quote(d.name))
		}
		out.WriteString(") (\n")
		for _, d := range p.dtOrder {
			out.WriteString(" (")
			cs := d.ctors
			if d.open {
				cs = p.ctorList
			}
			for _, c := range cs {
				if c.dt != d {
					continue
				}
				if len(c.fields) == 0 {
					fmt.Fprintf(&out, "(%s)", quote(c.name))
					continue
				}
				fmt.Fprintf(&out, "(%s", quote(c.name))
				for i, f := range c.fields {
					fmt.Fprintf(&out, " (%s %s)", quote(c.fnames[i]), p.sort(f))
				}
				out.WriteString(")")
			}
			out.WriteString(")\n")
		}
		out.WriteString("))\n")
	}
	out.Write(p.head.Bytes())
	for _, a := range p.axioms {
		fmt.Fprintf(&out, "(assert %s)\n", a)
	}
	if ustr {
		p.strAxioms(&out)
	}
	out.Write(body.Bytes())
	out.WriteString("(check-sat)\n")
	if model {
		out.WriteString("(get-model)\n")
	}
	return out.String(), ""
}

// freshFacts: what quantified terms refer to existed when their heap did, so it
// is none of the later allocations (ground terms: the simplifier knows).
func (p *smtPrinter) freshFacts() []string {
	var consts []int64
	boxes := map[*Ctor]int64{}
	for _, t := range p.order {
		if t.op == "int" && t.sort.kind == "Ref" && t.n < 0 {
			consts = append(consts, t.n)
		}
		if t.op == "ctor" && t.ctor.boxed != nil && len(t.args) == 1 && t.args[0].op == "int" && t.args[0].sort.kind == "Ref" {
			if m, ok := boxes[t.ctor]; !ok || t.args[0].n < m {
				boxes[t.ctor] = t.args[0].n
			}
		}
	}
	var min int64
	for _, n := range consts {
		if n < min {
			min = n
		}
	}
	num := func(n int64) string {
		if n < 0 {
			return fmt.Sprintf("(- %d)", -n)
		}
		return fmt.Sprint(n)
	}
	var out []string
	for _, t := range p.order {
		if !t.hasBound || (t.op != "select" && t.op != "sel") || t.lo == loInf || t.lo <= min {
			continue
		}
		var facts []string
		if t.sort.kind == "Ref" {
			facts = append(facts, "(>= "+p.pr(t)+" "+num(t.lo)+")")
		} else if t.sort == SIface {
			for c, n := range boxes {
				if n < t.lo {
					facts = append(facts, fmt.Sprintf("(=> ((_ is %s) %s) (>= (%s %s) %s))", quote(c.name), p.pr(t), quote(c.fnames[0]), p.pr(t), num(t.lo)))
				}
			}
			sort.Strings(facts)
		}
		if len(facts) == 0 {
			continue
		}
		bv := map[*Term]bool{}
		if !p.plain(t, bv) || len(bv) == 0 {
			continue
		}
		var vs []string
		for v := range bv {
			vs = append(vs, "("+quote(v.name)+" "+p.sort(v.sort)+")")
		}
		sort.Strings(vs)
		for _, f := range facts {
			out = append(out, "(forall ("+strings.Join(vs, " ")+") (! "+f+" :pattern ("+p.pr(t)+")))")
		}
	}
	return out
}

// plain: t is made of selections only; the references in it do not come from a
// bound variable (which may be any object), except as an index.
func (p *smtPrinter) plain(t *Term, bv map[*Term]bool) bool { return p.plainAt(t, bv, false) }

func (p *smtPrinter) plainAt(t *Term, bv map[*Term]bool, index bool) bool {
	if !t.hasBound {
		return true
	}
	switch t.op {
	case "bvar":
		bv[t] = true
		return index || t.lo == loInf
	case "select":
		return p.plainAt(t.args[0], bv, index) && p.plainAt(t.args[1], bv, true)
	case "sel", "ctor", "uf":
		for _, a := range t.args {
			if !p.plainAt(a, bv, index) {
				return false
			}
		}
		return true
	}
	return false
}

// strAxioms: what the uninterpreted strings still satisfy.
func (p *smtPrinter) strAxioms(out *bytes.Buffer) {
	var names, lits []string
	for s := range p.strs {
		lits = append(lits, s)
	}
	sort.Strings(lits)
	for _, s := range lits {
		names = append(names, p.strs[s])
	}
	if len(names) > 1 {
		fmt.Fprintf(out, "(assert (distinct %s))\n", strings.Join(names, " "))
	}
	if p.decl["u_len"] {
		for _, s := range lits {
			fmt.Fprintf(out, "(assert (= (u_len %s) %d))\n", p.strs[s], len(s))
		}
		out.WriteString("(assert (forall ((x Str)) (! (>= (u_len x) 0) :pattern ((u_len x)))))\n")
		if e, ok := p.strs[""]; ok {
			fmt.Fprintf(out, "(assert (forall ((x Str)) (! (= (= (u_len x) 0) (= x %s)) :pattern ((u_len x)))))\n", e)
		}
		if p.decl["u_cat"] {
			out.WriteString("(assert (forall ((x Str) (y Str)) (! (= (u_len (u_cat x y)) (+ (u_len x) (u_len y))) :pattern ((u_len (u_cat x y))))))\n")
		}
	}
	if p.decl["u_cat"] {
		if e, ok := p.strs[""]; ok {
			fmt.Fprintf(out, "(assert (forall ((x Str) (y Str)) (! (= (= (u_cat x y) %s) (and (= x %s) (= y %s))) :pattern ((u_cat x y)))))\n", e, e, e)
		}
		out.WriteString("(assert (forall ((x Str) (y Str) (z Str)) (! (=> (= (u_cat x y) (u_cat x z)) (= y z)) :pattern ((u_cat x y) (u_cat x z)))))\n")
		out.WriteString("(assert (forall ((x Str) (y Str) (z Str)) (! (=> (= (u_cat y x) (u_cat z x)) (= y z)) :pattern ((u_cat y x) (u_cat z x)))))\n")
		if p.decl["u_suffixof"] {
			out.WriteString("(assert (forall ((x Str) (y Str)) (! (u_suffixof y (u_cat x y)) :pattern ((u_cat x y)))))\n")
		}
		if p.decl["u_prefixof"] {
			out.WriteString("(assert (forall ((x Str) (y Str)) (! (u_prefixof x (u_cat x y)) :pattern ((u_cat x y)))))\n")
		}
	}
}

type attempt struct {
	solver string
	ustr   bool
	sec    int
}

// The effort of z3 is bounded by its own count of steps, about this many in a
// second, so that a busy machine does not change the outcome; the clock is
// only a backstop.
const rate = 2500000

func solverCmd(name, file string, sec int) *exec.Cmd {
	switch name {
	case "cvc5":
		return exec.Command("cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", sec*1500), file)
	case "cvc5m":
		return exec.Command("cvc5", "--lang=smt2", "--strings-exp", "--finite-model-find", fmt.Sprintf("--tlimit=%d", sec*1500), file)
	case "z3":
		return exec.Command("z3", "-smt2", fmt.Sprintf("-T:%d", 4*sec), fmt.Sprintf("rlimit=%d", sec*rate), "-memory:3000", file)
	default:
		return exec.Command("z3-new", "-smt2", fmt.Sprintf("-T:%d", 4*sec), fmt.Sprintf("rlimit=%d", sec*rate), "-memory:3000", file)
	}
}

func (sv *Solver) run1(text, name string, sec int) (string, string, time.Duration) {
	f, err := os.CreateTemp(sv.dir, "q*.smt2")
	if err != nil {
		panic(err)
	}
	f.WriteString(text)
	f.Close()
	defer os.Remove(f.Name())
	c := solverCmd(name, f.Name(), sec)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(2*sec+2)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.Path, c.Args[1:]...)
	var o bytes.Buffer
	cmd.Stdout = &o
	cmd.Stderr = &o
	t0 := time.Now()
	cmd.Run()
	d := time.Since(t0)
	sv.mu.Lock()
	sv.queries++
	sv.total += d
	sv.mu.Unlock()
	s := o.String()
	for _, l := range strings.Split(s, "\n") {
		switch l = strings.TrimSpace(l); {
		case l == "unsat" || l == "sat" || l == "unknown":
			return l, s, d
		case !strings.HasPrefix(l, "WARNING"):
			break
		default:
			continue
		}
		break
	}
	if strings.Contains(s, "error") || strings.Contains(s, "Error") {
		if os.Getenv("GOV_DEBUG") != "" {
			os.WriteFile("/tmp/gov_bad.smt2", []byte(text), 0644)
		}
		return "error", s, d
	}
	return "timeout", s, d
}

// prove discharges one obligation.
func (sv *Solver) prove(o *Obligation) {
	if o.status == "proved" {
		return
	}
	if o.goal == TTrue {
		o.status, o.solver = "proved", "simplifier"
		return
	}
	for _, h := range o.hyps {
		if h == o.goal || h == TFalse {
			o.status, o.solver = "proved", "simplifier"
			return
		}
	}
	base := sv.timeout
	if base == 0 {
		base = 5
	}
	plan := []attempt{{"z3-new", true, 2}, {"cvc5", true, base}, {"z3-new", false, base}, {"cvc5", false, base}, {"z3-new", true, base * 3}, {"z3", true, base}}
	sats := 0
	sv.mu.Lock()
	if !sv.deadline.IsZero() && time.Now().After(sv.deadline) {
		sv.late++
		sv.mu.Unlock()
		o.status = "undecided (not tried: out of time)"
		return
	}
	if sv.given > 40 {
		sv.mu.Unlock()
		o.status = "undecided (not tried: too many obligations failed already)"
		return
	}
	if sv.given > 12 { // something is badly broken: do not spend the budget on each
		plan = plan[:4]
		for i := range plan {
			plan[i].sec = 2
		}
	}
	sv.mu.Unlock()
	defer func() {
		if o.status != "proved" {
			sv.mu.Lock()
			sv.given++
			sv.mu.Unlock()
		}
	}()
	for k, a := range plan {
		if g := groundOnly(o.hyps); k == 1 && len(g) < len(o.hyps) {
			if text, bad := render(g, o.goal, false, false); bad == "" {
				r, _, d := sv.run1(text, "cvc5", 2)
				o.ms += d.Milliseconds()
				if r == "unsat" {
					o.status, o.solver = "proved", "cvc5"
					return
				}
			}
		}
		text, bad := render(o.hyps, o.goal, a.ustr, false)
		if bad != "" {
			o.status, o.solver = "undecided: "+bad, ""
			return
		}
		if !a.ustr && !hasStringOps(o) && a.solver == "z3-new" && false {
			continue
		}
		r, raw, d := sv.run1(text, a.solver, a.sec)
		o.ms += d.Milliseconds()
		name := a.solver
		if r == "unsat" {
			o.status, o.solver = "proved", name
			return
		}
		if r == "sat" && !a.ustr {
			o.status, o.solver = "refuted", name
			break
		}
		if r == "sat" {
			sats++
		}
		if r == "error" {
			o.model = raw
			debugf("solver error %s: %.300s", a.solver, raw)
		}
		o.status = "undecided (" + r + ")"
	}
	// a model helps to find a failing input
	if text, bad := render(o.hyps, o.goal, false, true); bad == "" {
		if d := os.Getenv("GOV_DUMP"); d != "" {
			os.WriteFile(filepath.Join(d, fmt.Sprintf("o%d.smt2", o.id)), []byte(text), 0644)
			t2, _ := render(o.hyps, o.goal, true, false)
			os.WriteFile(filepath.Join(d, fmt.Sprintf("o%d.u.smt2", o.id)), []byte(t2), 0644)
		}
		r, raw, d := sv.run1(text, "z3-new", base)
		o.ms += d.Milliseconds()
		if r == "sat" {
			o.model = raw
		}
	}
}

// again gives the few undecided obligations more time.
func (sv *Solver) again(obls []*Obligation) {
	var u []*Obligation
	for _, o := range obls {
		if o.status == "refuted" {
			return // nothing to be gained
		}
		if strings.HasPrefix(o.status, "undecided") {
			u = append(u, o)
		}
	}
	if sv.late > 0 || len(u) == 0 || len(u) > 12 || len(u) < sv.given-12 {
		return
	}
	parallelN(4, len(u), func(i int) {
		o := u[i]
		for _, a := range []attempt{{"z3-new", true, 30}, {"cvc5", true, 30}, {"z3-new", false, 20}, {"cvc5", false, 20}} {
			text, bad := render(o.hyps, o.goal, a.ustr, false)
			if bad != "" {
				return
			}
			if !sv.deadline.IsZero() && time.Now().Add(time.Duration(a.sec)*time.Second).After(sv.deadline) {
				return
			}
			r, _, d := sv.run1(text, a.solver, a.sec)
			o.ms += d.Milliseconds()
			if r == "unsat" {
				o.status, o.solver = "proved", a.solver
				return
			}
		}
	})
}

func hasStringOps(o *Obligation) bool {
	for _, h := range append(append([]*Term{}, o.hyps...), o.goal) {
		if mentions(h, func(t *Term) bool { return strings.HasPrefix(t.op, "str.") }) {
			return true
		}
	}
	return false
}

// vacuous reports whether the hypotheses contradict each other.
func (sv *Solver) vacuous(hyps []*Term) bool {
	for _, h := range hyps {
		if h == TFalse {
			return true
		}
	}
	text, bad := render(hyps, TFalse, true, false)
	if bad != "" {
		return false
	}
	r, _, _ := sv.run1(text, "z3-new", 2)
	return r == "unsat"
}

func parallel(n int, f func(int)) { parallelN(runtime.NumCPU(), n, f) }

func parallelN(workers, n int, f func(int)) {
	ch := make(chan int)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				f(j)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
