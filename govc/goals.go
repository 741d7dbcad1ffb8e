package main

import (
	"strings"
	"sync"
	"time"
)

// Goal decomposition: a goal is split into conjuncts, implications move their hypotheses to the left, universal
// quantifiers become fresh constants, and reads at such a constant from an array that has just been stored to are
// split into the written and the untouched case. Each part is implied by, and together they imply, the goal.

type subgoal struct {
	hyp  []*Term
	goal *Term
}

func (x *Exec) subgoals(goal *Term) []subgoal {
	var out []subgoal
	n := 0
	var rec func(h []*Term, g *Term, depth int)
	splitStores := func(h []*Term, g *Term, sk map[*Term]bool, depth int) bool {
		// first select(store(A, idx, v), s) with s a fresh constant
		seen := map[*Term]bool{}
		var sel *Term
		var walk func(t *Term)
		walk = func(t *Term) {
			if sel != nil || seen[t] {
				return
			}
			seen[t] = true
			if t.op == OSelect && t.args[0].op == OStore && sk[t.args[1]] && !t.args[0].hasBV {
				sel = t
				return
			}
			for _, a := range t.args {
				walk(a)
			}
			for _, p := range t.pats {
				for _, y := range p {
					walk(y)
				}
			}
		}
		walk(g)
		if sel == nil {
			return false
		}
		s, idx := sel.args[1], sel.args[0].args[1]
		if mentions2(idx, s) {
			return false
		}
		m := map[*Term]*Term{s: idx}
		var h1 []*Term
		for _, y := range h {
			h1 = append(h1, x.tb.Subst(y, m))
		}
		rec(h1, x.tb.Subst(g, m), depth+1)
		// untouched
		ne := x.tb.Not(x.tb.Eq(s, idx))
		for {
			sel = nil
			seen = map[*Term]bool{}
			walk = func(t *Term) {
				if sel != nil || seen[t] {
					return
				}
				seen[t] = true
				if t.op == OSelect && t.args[0].op == OStore && t.args[1] == s && t.args[0].args[1] == idx {
					sel = t
					return
				}
				for _, a := range t.args {
					walk(a)
				}
				for _, p := range t.pats {
					for _, y := range p {
						walk(y)
					}
				}
			}
			walk(g)
			if sel == nil {
				break
			}
			r := x.tb.Select(sel.args[0].args[0], s)
			if r == sel {
				return true
			}
			g = x.tb.Subst(g, map[*Term]*Term{sel: r})
		}
		rec(append(append([]*Term{}, h...), ne), g, depth+1)
		return true
	}
	sk := map[*Term]bool{}
	rec = func(h []*Term, g *Term, depth int) {
		n++
		if g == x.tb.True {
			return
		}
		for _, y := range h {
			if y == x.tb.False {
				return
			}
		}
		if depth > 24 || n > 200 {
			out = append(out, subgoal{h, g})
			return
		}
		switch g.op {
		case OAnd:
			if len(sk) > 0 && !hasQuant(g, x.qf.qmemo) {
				break // the parts hold each other's trigger terms
			}
			for _, a := range g.args {
				rec(h, a, depth+1)
			}
			return
		case OOr:
			k := -1
			cnt := 0
			for i, a := range g.args {
				if hasQuant(a, x.qf.qmemo) {
					k = i
					cnt++
				}
			}
			if cnt == 1 {
				h2 := append([]*Term{}, h...)
				for i, a := range g.args {
					if i != k {
						h2 = append(h2, x.tb.Not(a))
					}
				}
				rec(h2, g.args[k], depth+1)
				return
			}
		case OForall:
			m := map[*Term]*Term{}
			for _, v := range g.bound {
				c := x.tb.Fresh("sk", v.sort)
				if v.sort == SInt {
					sk[c] = true
				}
				m[v] = c
			}
			body := x.tb.Subst(g.args[0], m)
			if body != x.tb.True {
				// name the instance: an uninterpreted predicate over the trigger terms, true of all of them
				h = append([]*Term{}, h...)
				for _, ps := range g.pats {
					for _, p := range ps {
						q := x.tb.Subst(p, m)
						h = append(h, x.tb.App("trg:"+q.sort.String(), SBool, q))
					}
				}
			}
			rec(h, body, depth+1)
			return
		}
		if len(sk) > 0 && splitStores(h, g, sk, depth) {
			return
		}
		out = append(out, subgoal{h, g})
	}
	rec(nil, goal, 0)
	return out
}

func mentions2(t, v *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// neg: hypotheses and the negated goal
func (x *Exec) negGoal(s subgoal) *Term {
	return x.tb.And(append(append([]*Term{}, s.hyp...), x.tb.Not(s.goal))...)
}

// boundCases splits a negated goal at the upper bound of one of its fresh constants: the last index, and the rest.
func (x *Exec) boundCases(n *Term) []*Term {
	var lits []*Term
	var flat func(t *Term)
	flat = func(t *Term) {
		switch {
		case t.op == OAnd:
			for _, a := range t.args {
				flat(a)
			}
		case t.op == ONot && t.args[0].op == OOr:
			for _, a := range t.args[0].args {
				flat(x.tb.Not(a))
			}
		default:
			lits = append(lits, t)
		}
	}
	flat(n)
	for _, l := range lits {
		if l.op != OLe || l.args[0].op != OLin {
			continue
		}
		lin := l.args[0]
		for i, a := range lin.args {
			if a.op != OVar || !strings.HasPrefix(a.name, "sk!") || !lin.coef[i].IsInt64() || lin.coef[i].Int64() != -1 {
				continue
			}
			last := x.tb.Add(lin, a)
			if mentions2(last, a) {
				continue
			}
			eq := x.tb.Subst(n, map[*Term]*Term{a: last})
			rest := x.tb.And(n, x.tb.Ge0(x.tb.Sub(lin, x.tb.Int(1))))
			return []*Term{eq, rest}
		}
	}
	return nil
}

// refute n under the facts: first as it stands, then split at a bound, then by every solver
func (x *Exec) refute(f *Fact, n *Term, ms int, portfolio time.Duration) (bool, string, CheckResult) {
	if n == x.tb.False {
		return true, "simplifier", Unsat
	}
	if x.sol.Check(f, n, ms) == Unsat {
		return true, "z3", Unsat
	}
	if x.timedOut || portfolio == 0 {
		return false, "", Unknown
	}
	parts := x.boundCases(n)
	if len(parts) == 0 {
		r, by := x.longRun(Script(x.tb, f, n), portfolio)
		return r == Unsat, by, r
	}
	res := "z3"
	for _, p := range parts {
		if p == x.tb.False || x.sol.Check(f, p, 2*ms) == Unsat {
			continue
		}
		r, by := x.longRun(Script(x.tb, f, p), portfolio)
		if r != Unsat {
			return false, by, r
		}
		res = by
	}
	return true, res, Unsat
}

var slowLock sync.Mutex

// longRun gives an obligation to all solvers; the first few of a function that stay open get a second, longer attempt
// that has the machine to itself as far as other second attempts are concerned
func (x *Exec) longRun(script string, d time.Duration) (CheckResult, string) {
	r, by := RunPortfolio(script, portfolio, d)
	if r != Unknown || d < 10*time.Second || x.retries >= 3 || x.timedOut {
		return r, by
	}
	slowLock.Lock()
	defer slowLock.Unlock()
	left := time.Until(x.deadline)
	if left < 5*time.Second {
		return r, by
	}
	if left > 40*time.Second {
		left = 40 * time.Second
	}
	r, by = RunPortfolio(script, portfolio2, left)
	if r != Unsat {
		x.retries++
	}
	return r, by
}
