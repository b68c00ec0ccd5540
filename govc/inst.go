package main

import "sort"

// Ground instances of quantified facts. Solvers match quantifiers by syntactic
// patterns, which fail on indices such as offset+i; the instances added here are
// consequences of the quantified fact itself (F => F[i:=t]), so they are sound
// whatever the choice of t.

func skolemGoal(g *Term) *Term {
	switch g.op {
	case "forall":
		m := map[*Term]*Term{}
		for _, b := range g.bound {
			m[b] = freshVar("sk_"+b.name, b.sort)
		}
		return skolemGoal(substTerm(g.args[0], m))
	case "=>":
		return mkImp(g.args[0], skolemGoal(g.args[1]))
	case "and":
		var as []*Term
		for _, a := range g.args {
			as = append(as, skolemGoal(a))
		}
		return mkAnd(as...)
	}
	if g.op == "=" && g.args[0].sort == SBytes {
		// byte strings are equal when they have one length and agree everywhere
		a, b := g.args[0], g.args[1]
		k := freshVar("sk_byte", SInt)
		at := mkImp(mkAnd(mkLe(mkInt(0), k), mkLt(k, mkUF("blen", SInt, a))), mkEq(mkUF("bat", SInt, a, k), mkUF("bat", SInt, b, k)))
		return mkOr(g, mkAnd(mkEq(mkUF("blen", SInt, a), mkUF("blen", SInt, b)), at))
	}
	return g
}

// ctxSimp uses the boolean atoms among the facts to simplify the goal.
func ctxSimp(facts []*Term, goal *Term) *Term {
	m := map[*Term]*Term{}
	for _, f := range facts {
		v := tTrue
		if f.op == "not" {
			f, v = f.args[0], tFalse
		}
		if f.sort == SBool && (f.op == "var" || f.op == "uf" || f.op == "select") && !f.hasBV {
			m[f] = v
		}
	}
	if len(m) == 0 {
		return goal
	}
	return substTerm(goal, m)
}

// arrKey identifies an array up to the stores done to it.
func arrKey(t *Term) string {
	switch t.op {
	case "store":
		return arrKey(t.args[0])
	case "select":
		return "s(" + arrKey(t.args[0]) + "," + itoa(t.args[1].id) + ")"
	}
	return itoa(t.id)
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

// addInstances returns ground instances of the quantified formulas in ts.
func addInstances(ts []*Term) []*Term {
	var foralls []*Term
	ground := map[string][]*Term{} // array key -> indices
	gseen := map[string]bool{}
	seen := map[*Term]bool{}
	var out []*Term
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "forall" && !t.hasBV && len(t.pats) == 0 && len(t.bound) <= 2 {
			ok := true
			for _, b := range t.bound {
				ok = ok && b.sort == SInt
			}
			if ok {
				foralls = append(foralls, t)
			}
		}
		if (t.op == "select" || t.op == "uf" && len(t.args) == 2 && t.name == "bat") && !t.hasBV && t.args[1].sort == SInt {
			k := arrKey(t.args[0])
			gk := k + "@" + itoa(t.args[1].id)
			if !gseen[gk] && len(ground[k]) < 24 {
				gseen[gk] = true
				ground[k] = append(ground[k], t.args[1])
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	if len(foralls) == 0 {
		return nil
	}
	// extensionality between complements and memory ranges
	var cm, by []*Term
	for t := range seen {
		if isUF(t, "bcmpl") && !t.hasBV {
			cm = append(cm, t)
		}
		if isUF(t, "bytes") && !t.hasBV {
			by = append(by, t)
		}
	}
	sort.Slice(cm, func(i, j int) bool { return cm[i].id < cm[j].id })
	sort.Slice(by, func(i, j int) bool { return by[i].id < by[j].id })
	if len(cm) <= 2 && len(by) <= 12 {
		for _, c := range cm {
			for _, y := range by {
				if y == c.args[0] {
					continue
				}
				k := freshVar("sk_cmpl", SInt)
				in := mkAnd(mkLe(mkInt(0), k), mkLt(k, mkUF("blen", SInt, y)))
				x := mkOr(mkEq(y, c), mkNot(mkEq(mkUF("blen", SInt, y), mkUF("blen", SInt, c))),
					mkAnd(in, mkNot(mkEq(mkUFraw("bat", SInt, y, k), mkSub(mkInt(255), mkUFraw("bat", SInt, c.args[0], k))))))
				out = append(out, x)
				walk(x)
			}
		}
	}
	for round := 0; round < 2; round++ {
		var added []*Term
		for _, f := range foralls {
			// candidate values per bound variable
			cand := make([][]*Term, len(f.bound))
			cseen := map[*Term]bool{}
			var find func(t *Term)
			fs := map[*Term]bool{}
			find = func(t *Term) {
				if !t.hasBV || fs[t] {
					return
				}
				fs[t] = true
				if (t.op == "select" || t.op == "uf" && t.name == "bat") && !t.args[0].hasBV && t.args[1].hasBV && t.args[1].sort == SInt {
					for bi, b := range f.bound {
						rest := substTerm(t.args[1], map[*Term]*Term{b: mkInt(0)})
						if rest.hasBV || mkAdd(rest, b) != t.args[1] {
							continue
						}
						for _, g := range ground[arrKey(t.args[0])] {
							c := mkSub(g, rest)
							if !cseen[c] && len(cand[bi]) < 16 {
								cseen[c] = true
								cand[bi] = append(cand[bi], c)
							}
						}
					}
				}
				for _, a := range t.args {
					find(a)
				}
			}
			find(f.args[0])
			add := func(m map[*Term]*Term) {
				x := mkImp(f, substTerm(f.args[0], m))
				if !done[x] && len(out) < 400 {
					done[x] = true
					out = append(out, x)
					added = append(added, x)
				}
			}
			switch len(f.bound) {
			case 1:
				for _, c := range cand[0] {
					add(map[*Term]*Term{f.bound[0]: c})
				}
			case 2:
				// both variables range over the union of candidates
				all := append(append([]*Term{}, cand[0]...), cand[1]...)
				if len(all) > 8 {
					all = all[:8]
				}
				for _, c := range all {
					for _, d := range all {
						add(map[*Term]*Term{f.bound[0]: c, f.bound[1]: d})
					}
				}
			}
		}
		if len(added) == 0 {
			break
		}
		for _, t := range added {
			walk(t)
		}
	}
	return out
}
