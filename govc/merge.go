package main

import (
	"go/types"
	"os"

	"golang.org/x/tools/go/ssa"
)

// Merging of the states that meet again after a small acyclic branch.  It is an exact union: the merged
// state has a selector per incoming state, that state's facts hold under its selector, and every value
// that differs is an if-then-else on the selectors.

type joinMark struct {
	block  *ssa.BasicBlock
	states []*State
}

var debugMerge = os.Getenv("GOVC_DBG_MERGE") != ""

// joinOf returns the block where the two sides of b's branch meet, when the region between is small,
// acyclic and leaves only through that block.
func (x *Exec) joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	if j, ok := x.joins[b]; ok {
		return j
	}
	lf := x.p.Loops(b.Parent())
	same := func(c *ssa.BasicBlock) bool {
		for _, l := range lf.byHeader {
			if l.blocks[b] != l.blocks[c] {
				return false
			}
		}
		return true
	}
	try := func(j *ssa.BasicBlock) bool {
		if j == b || lf.byHeader[j] != nil || !same(j) {
			return false
		}
		// only worth it when a loop follows
		loop := false
		after := map[*ssa.BasicBlock]bool{}
		for q := []*ssa.BasicBlock{j}; len(q) > 0 && !loop; {
			c := q[len(q)-1]
			q = q[:len(q)-1]
			if after[c] {
				continue
			}
			after[c] = true
			loop = lf.byHeader[c] != nil
			q = append(q, c.Succs...)
		}
		if !loop {
			return false
		}
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(work) > 0 {
			c := work[len(work)-1]
			work = work[:len(work)-1]
			if c == j || seen[c] {
				continue
			}
			if c == b || lf.byHeader[c] != nil || len(c.Succs) == 0 || !same(c) || len(seen) >= 12 {
				return false
			}
			seen[c] = true
			work = append(work, c.Succs...)
		}
		return true
	}
	// breadth first
	var res *ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{b: true}
	q := append([]*ssa.BasicBlock(nil), b.Succs...)
	for n := 0; len(q) > 0 && n < 40; n++ {
		c := q[0]
		q = q[1:]
		if seen[c] {
			continue
		}
		seen[c] = true
		if try(c) {
			res = c
			break
		}
		q = append(q, c.Succs...)
	}
	if x.joins == nil {
		x.joins = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	x.joins[b] = res
	return res
}

func (x *Exec) mergeBranch(st *State, fr *Frame, c *Term, bt, bf, j *ssa.BasicBlock) bool {
	base := st.facts
	m := &joinMark{block: j}
	fr.joins = append(fr.joins, m)
	depth := len(st.frames)
	o := st.clone()
	x.assume(o, x.tb.Not(c))
	x.assume(st, c)
	trail := st.trail
	var init []*State
	// states stopped at the join directly are recorded by goTo
	if x.goTo(o, o.top(), bf) && !o.dead {
		init = append(init, o)
	}
	if x.goTo(st, st.top(), bt) && !st.dead {
		init = append(init, st)
	}
	x.explore(init)
	if x.timedOut {
		return false
	}
	push := func(s *State) {
		t := s.top()
		if n := len(t.joins); n > 0 && t.joins[n-1].block == j {
			t.joins[n-1].states = append(t.joins[n-1].states, s)
			return
		}
		x.push(s)
	}
	var in []*State
	for _, s := range m.states {
		if !s.dead {
			if len(s.frames) != depth {
				x.fail("merge depth")
			}
			t := s.top()
			t.joins = t.joins[:len(t.joins)-1]
			in = append(in, s)
		}
	}
	if len(in) == 0 {
		return false
	}
	if len(in) == 1 {
		push(in[0])
		return false
	}
	if len(in) > 6 {
		for _, s := range in {
			push(s)
		}
		return false
	}
	r := x.mergeStates(base, in, c)
	if r == nil {
		if debugMerge {
			println("merge failed", j.Parent().String(), j.Index, len(in))
		}
		for _, s := range in {
			push(s)
		}
		return false
	}
	r.trail = trail + " ~" + x.condPos(fr.block)
	push(r)
	return false
}

func factsSince(f, base *Fact) ([]*Term, bool) {
	var r []*Term
	for ; f != base; f = f.prev {
		if f == nil {
			return nil, false
		}
		r = append(r, f.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r, true
}

func (x *Exec) mergeStates(base *Fact, in []*State, c *Term) *State {
	tb := x.tb
	var facts [][]*Term
	for _, s := range in {
		f, ok := factsSince(s.facts, base)
		if !ok {
			return nil
		}
		facts = append(facts, f)
	}
	// structural agreement
	f0 := in[0]
	for _, s := range in[1:] {
		if len(s.frames) != len(f0.frames) {
			return nil
		}
		for k, fr := range s.frames {
			g := f0.frames[k]
			if fr.fn != g.fn || fr.block != g.block || fr.pc != g.pc || len(fr.defers) != len(g.defers) || len(fr.joins) != len(g.joins) || fr.inDefer != g.inDefer {
				return nil
			}
			for i := range fr.defers {
				if fr.defers[i] != g.defers[i] {
					return nil
				}
			}
			if len(fr.cuts) != len(g.cuts) || len(fr.unroll) != len(g.unroll) {
				return nil
			}
			for b, cu := range fr.cuts {
				if g.cuts[b] != cu {
					return nil
				}
			}
			for b, n := range fr.unroll {
				if g.unroll[b] != n {
					return nil
				}
			}
		}
	}
	r := f0.clone()
	// selectors
	n := len(in)
	pcs := make([]*Term, n)
	has := func(l []*Term, t *Term) bool {
		for _, u := range l {
			if u == t {
				return true
			}
		}
		return false
	}
	if n == 2 && has(facts[0], c) && has(facts[1], tb.Not(c)) {
		pcs[0], pcs[1] = c, tb.Not(c)
	} else if n == 2 && has(facts[1], c) && has(facts[0], tb.Not(c)) {
		pcs[1], pcs[0] = c, tb.Not(c)
	} else {
		rest := tb.True
		for i := 0; i < n-1; i++ {
			s := tb.Fresh("sel", SBool)
			pcs[i] = tb.And(rest, s)
			rest = tb.And(rest, tb.Not(s))
		}
		pcs[n-1] = rest
	}
	ite := func(vs []*Term) *Term {
		v := vs[n-1]
		for i := n - 2; i >= 0; i-- {
			v = tb.Ite(pcs[i], vs[i], v)
		}
		return v
	}
	// environments
	for k, fr := range r.frames {
		for v, val := range fr.env {
			diff := false
			missing := false
			for _, s := range in[1:] {
				o, ok := s.frames[k].env[v]
				if !ok {
					missing = true
					break
				}
				for i := range val.L {
					if i >= len(o.L) || o.L[i] != val.L[i] {
						diff = true
					}
				}
			}
			if missing {
				delete(fr.env, v) // defined on one side only: does not dominate the join
				continue
			}
			if !diff {
				continue
			}
			if ins, ok := v.(ssa.Instruction); ok && k == len(r.frames)-1 && !ins.Block().Dominates(fr.block) {
				delete(fr.env, v)
				continue
			}
			if _, ok := val.T.Underlying().(*types.Signature); ok {
				return nil
			}
			nv := Val{T: val.T, L: append([]*Term(nil), val.L...)}
			for i := range val.L {
				vs := make([]*Term, n)
				for q, s := range in {
					ov := s.frames[k].env[v]
					if i >= len(ov.L) {
						return nil
					}
					vs[q] = ov.L[i]
					if vs[q].sort != vs[0].sort {
						return nil
					}
				}
				nv.L[i] = ite(vs)
			}
			fr.env[v] = nv
		}
	}
	// heap
	keys := map[string]*Sort{}
	for _, s := range in {
		for k, h := range s.heap {
			keys[k] = h.sort
		}
		if s.epoch > r.epoch {
			r.epoch = s.epoch
		}
		if s.nalloc > r.nalloc {
			r.nalloc = s.nalloc
		}
	}
	for _, k := range sortedKeys(keys) {
		hs := make([]*Term, n)
		same := true
		for i, s := range in {
			hs[i] = x.hget(s, k, keys[k])
			if hs[i] != hs[0] {
				same = false
			}
		}
		if same {
			r.heap[k] = hs[0]
			continue
		}
		r.heap[k] = x.mergeMaps(hs, ite)
	}
	// facts
	r.facts = base
	or := tb.False
	for _, p := range pcs {
		or = tb.Or(or, p)
	}
	x.assume(r, or)
	for i, l := range facts {
		for _, f := range l {
			all := true
			for _, m := range facts {
				if !has(m, f) {
					all = false
				}
			}
			if all {
				if i == 0 {
					x.assume(r, f)
				}
				continue
			}
			x.assume(r, tb.Implies(pcs[i], f))
		}
	}
	return r
}

func (x *Exec) mergeMaps(hs []*Term, ite func([]*Term) *Term) *Term {
	tb := x.tb
	if hs[0].sort.k != "Array" {
		return ite(hs)
	}
	// common ancestor along the store chains
	chain := func(h *Term) []*Term {
		r := []*Term{h}
		for h.op == OStore {
			h = h.args[0]
			r = append(r, h)
		}
		return r
	}
	c0 := chain(hs[0])
	anc := map[*Term]bool{}
	for _, t := range c0 {
		anc[t] = true
	}
	for _, h := range hs[1:] {
		m := map[*Term]bool{}
		for _, t := range chain(h) {
			if anc[t] {
				m[t] = true
			}
		}
		anc = m
	}
	var base *Term
	for _, t := range c0 {
		if anc[t] {
			base = t
			break
		}
	}
	if base == nil {
		return ite(hs)
	}
	var idx []*Term
	seen := map[*Term]bool{}
	for _, h := range hs {
		var l []*Term
		for t := h; t != base; t = t.args[0] {
			l = append(l, t.args[1])
		}
		for i := len(l) - 1; i >= 0; i-- {
			if !seen[l[i]] {
				seen[l[i]] = true
				idx = append(idx, l[i])
			}
		}
	}
	r := base
	for _, i := range idx {
		vs := make([]*Term, len(hs))
		for k, h := range hs {
			vs[k] = tb.Select(h, i)
		}
		r = tb.Store(r, i, ite(vs))
	}
	return r
}
