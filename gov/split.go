package main

// Splitting a goal into parts which are proved one by one: conjuncts
// separately, universal goals at a fresh value, implications by assuming the
// premise.

type part struct {
	hyps []*Term
	goal *Term
}

func splitGoal(hyps []*Term, goal *Term) []part {
	var out []part
	var rec func(hs []*Term, g *Term, depth int)
	rec = func(hs []*Term, g *Term, depth int) {
		if g == TTrue {
			return
		}
		if depth > 12 || len(out) > 80 {
			out = append(out, part{hs, g})
			return
		}
		switch g.op {
		case "and":
			for _, a := range g.args {
				rec(hs, a, depth+1)
			}
			return
		case "forall":
			m := map[*Term]*Term{}
			for _, b := range g.bvars {
				m[b] = TFresh("sk", b.sort, b.lo)
			}
			rec(hs, Subst(g.args[0], m), depth+1)
			return
		case "not":
			if g.args[0].op == "or" {
				for _, a := range g.args[0].args {
					rec(hs, Not(a), depth+1)
				}
				return
			}
			if a := g.args[0]; a.op == "exists" {
				m := map[*Term]*Term{}
				for _, b := range a.bvars {
					m[b] = TFresh("sk", b.sort, b.lo)
				}
				rec(hs, Not(Subst(a.args[0], m)), depth+1)
				return
			}
		case "ite":
			rec(append(hs[:len(hs):len(hs)], g.args[0]), g.args[1], depth+1)
			rec(append(hs[:len(hs):len(hs)], Not(g.args[0])), g.args[2], depth+1)
			return
		case "or":
			best := -1
			for i, a := range g.args {
				if a.op == "forall" {
					best = i
					break
				}
				if a.op == "and" && best < 0 {
					best = i
				}
			}
			if best >= 0 {
				hs = hs[:len(hs):len(hs)]
				for i, a := range g.args {
					if i == best {
						continue
					}
					if n := Not(a); n.op == "and" {
						hs = append(hs, n.args...)
					} else {
						hs = append(hs, n)
					}
				}
				rec(hs, g.args[best], depth+1)
				return
			}
		}
		out = append(out, part{hs, g})
	}
	rec(hyps, goal, 0)
	return out
}
