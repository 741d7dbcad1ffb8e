package main

// Loop cuts: havoc of everything the loop may modify (found by probing the body), plus invariants:
// guessed candidates and contract hints, kept only while inductive (Houdini).

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Cut struct {
	exitF func(*State) bool
	backF func(*State, *ssa.BasicBlock)
}

func (c *Cut) exit(st *State) bool                  { return c.exitF(st) }
func (c *Cut) back(st *State, from *ssa.BasicBlock) { c.backF(st, from) }

type loopMemo struct {
	dead map[string]bool
	mod  *modset
}

type modset struct {
	locs  map[string]map[*Term]bool
	whole map[string]bool
	order []string
}

func newModset() *modset {
	return &modset{locs: map[string]map[*Term]bool{}, whole: map[string]bool{}}
}

func (m *modset) clone() *modset {
	n := newModset()
	for k, v := range m.locs {
		n.locs[k] = map[*Term]bool{}
		for r := range v {
			n.locs[k][r] = true
		}
	}
	for k := range m.whole {
		n.whole[k] = true
	}
	return n
}

type invCtx struct {
	x    *Exec
	st   *State
	fr   *Frame
	phis map[*ssa.Phi]Val
	rng  *Term // iterator object of the loop's range, if any
}

type cand struct {
	id   string
	f    func(c *invCtx) *Term
	hint *LoopHint
}

func (x *Exec) shouldUnroll(st *State, fr *Frame, l *Loop, from *ssa.BasicBlock) bool {
	h := l.header
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	var phi *ssa.Phi
	switch v := bo.X.(type) {
	case *ssa.Phi:
		phi = v
	case *ssa.BinOp:
		if p, ok := v.X.(*ssa.Phi); ok {
			phi = p
		}
	}
	if phi == nil || phi.Block() != h {
		return false
	}
	var entry *Term
	var boundT *Term
	for i, p := range h.Preds {
		if p == from {
			entry = x.val(st, fr, phi.Edges[i]).L[0]
		} else if l.blocks[p] {
			e, ok := phi.Edges[i].(*ssa.BinOp)
			if !ok || (e.Op != token.ADD && e.Op != token.SUB) || e.X != ssa.Value(phi) {
				return false
			}
			if _, ok := e.Y.(*ssa.Const); !ok {
				return false
			}
		}
	}
	if entry == nil || !entry.isInt() {
		return false
	}
	c := &invCtx{x: x, st: st, fr: fr, phis: map[*ssa.Phi]Val{}}
	b := x.evalSSA(c, bo.Y, h, 0)
	if b == nil || len(b.L) != 1 {
		return false
	}
	boundT = b.L[0]
	if !boundT.isInt() || !boundT.c.IsInt64() || !entry.c.IsInt64() {
		return false
	}
	d := boundT.c.Int64() - entry.c.Int64()
	if d < 0 {
		d = -d
	}
	lim := int64(40)
	if x.cur != nil && x.cur.maxUnroll > 0 {
		lim = int64(x.cur.maxUnroll)
	}
	return d <= lim
}

// evaluate an ssa expression at the loop head in ctx (nil when not expressible)
func (x *Exec) evalSSA(c *invCtx, v ssa.Value, h *ssa.BasicBlock, d int) *Val {
	if d > 6 {
		return nil
	}
	if p, ok := v.(*ssa.Phi); ok && p.Block() == h {
		if r, ok := c.phis[p]; ok {
			return &r
		}
		return nil
	}
	switch e := v.(type) {
	case *ssa.Const:
		if e.Value == nil {
			return nil
		}
		if b, ok := e.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			r := x.constVal(e)
			return &r
		}
		return nil
	}
	in, isInstr := v.(ssa.Instruction)
	if isInstr && in.Block() != nil && in.Block() != h {
		if h.Parent() == in.Parent() && x.p.Loops(in.Parent()).byHeader[h].blocks[in.Block()] {
			return nil
		}
	}
	if !isInstr || in.Block() != h {
		if r, ok := c.fr.env[v]; ok {
			return &r
		}
		return nil
	}
	switch e := v.(type) {
	case *ssa.BinOp:
		a, b := x.evalSSA(c, e.X, h, d+1), x.evalSSA(c, e.Y, h, d+1)
		if a == nil || b == nil || len(a.L) != 1 || len(b.L) != 1 || a.L[0].sort != SInt {
			return nil
		}
		switch e.Op {
		case token.ADD:
			return &Val{e.Type(), []*Term{x.tb.Add(a.L[0], b.L[0])}}
		case token.SUB:
			return &Val{e.Type(), []*Term{x.tb.Sub(a.L[0], b.L[0])}}
		}
	case *ssa.Call:
		if b, ok := e.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			a := x.evalSSA(c, e.Call.Args[0], h, d+1)
			if a == nil {
				return nil
			}
			if len(a.L) == 4 {
				return &Val{tyInt, []*Term{a.L[2]}}
			}
			if len(a.L) == 1 && a.L[0].sort == SBlob {
				return &Val{tyInt, []*Term{x.tb.App("blen", SInt, a.L[0])}}
			}
			return nil
		}
		// buf.Len()
		if f := e.Call.StaticCallee(); f != nil && modelName(f) == "(*bytes.Buffer).Len" {
			a := x.evalSSA(c, e.Call.Args[0], h, d+1)
			if a == nil {
				return nil
			}
			T := x.bufferType()
			buf := x.loadFieldByName(c.st, T, a.L[0], "buf")
			off := x.loadFieldByName(c.st, T, a.L[0], "off")
			return &Val{tyInt, []*Term{x.tb.Sub(buf.L[2], off.L[0])}}
		}
	case *ssa.Convert:
		a := x.evalSSA(c, e.X, h, d+1)
		if a != nil && len(a.L) == 1 && a.L[0].sort == SInt {
			return &Val{e.Type(), a.L}
		}
	case *ssa.FieldAddr:
		a := x.evalSSA(c, e.X, h, d+1)
		if a != nil {
			pt := e.X.Type().Underlying().(*types.Pointer).Elem()
			return &Val{e.Type(), []*Term{x.fieldAddr(pt, a.L[0], e.Field)}}
		}
	case *ssa.UnOp:
		if e.Op == token.MUL {
			a := x.evalSSA(c, e.X, h, d+1)
			if a != nil {
				r := x.load(c.st, e.Type(), a.L[0])
				return &r
			}
		}
	}
	return nil
}

// a reference that denotes the same object in every iteration
func (x *Exec) loopOld(t *Term, marker int, ep int) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] || t.id <= marker {
			return true
		}
		seen[t] = true
		switch t.op {
		case OVar:
			return strings.HasPrefix(t.name, "h0:") || strings.HasPrefix(t.name, "ext:") || strings.HasPrefix(t.name, "lit!")
		case OBase:
			return t.maxEp <= ep
		}
		for _, a := range t.args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func (x *Exec) loopKey(st *State, h *ssa.BasicBlock) string {
	s := ""
	for _, f := range st.frames {
		s += fmt.Sprintf("%s:%d:%d/", f.fn.Name(), f.block.Index, f.pc)
	}
	return s + fmt.Sprintf("%d|%s", h.Index, st.trail)
}

func (x *Exec) cutLoop(st *State, fr *Frame, l *Loop, from *ssa.BasicBlock) bool {
	tb := x.tb
	h := l.header
	idx := -1
	for i, p := range h.Preds {
		if p == from {
			idx = i
		}
	}
	var phis []*ssa.Phi
	entry := map[*ssa.Phi]Val{}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		v := x.val(st, fr, ph.Edges[idx])
		v.T = ph.Type()
		entry[ph] = v
	}
	mk := x.loopKey(st, h)
	memo := x.loopMemo[mk]
	if memo == nil {
		memo = &loopMemo{dead: map[string]bool{}, mod: newModset()}
		x.loopMemo[mk] = memo
	}
	marker := tb.n
	entryEp := st.epoch
	mod := newModset()
	for k := range memo.mod.whole {
		mod.whole[k] = true
	}
	for k, m := range memo.mod.locs {
		for r := range m {
			if x.loopOld(r, marker, entryEp) && !hasForeignVar(r) {
				if mod.locs[k] == nil {
					mod.locs[k] = map[*Term]bool{}
				}
				mod.locs[k][r] = true
			}
		}
	}
	var rng *Term
	for _, in := range h.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if v, ok := fr.env[nx.Iter]; ok {
				rng = v.L[0]
			}
		}
	}
	snap := st.clone() // entry state
	entryCtx := &invCtx{x: x, st: snap, fr: snap.top(), phis: entry, rng: rng}
	var cands []*cand
	known := map[string]bool{}
	addCands := func() {
		for _, c := range x.genCands(entryCtx, snap, l, phis, mod, rng) {
			if known[c.id] || memo.dead[c.id] {
				continue
			}
			known[c.id] = true
			t := x.safeCand(c, entryCtx)
			if t == nil || t == tb.False {
				continue
			}
			if c.hint == nil && !hasQuant(t, x.qf.qmemo) {
				if !x.entailsQF(snap, t) {
					continue
				}
			} else if !x.entails(snap, t) {
				if os.Getenv("GOVC_LOOPS") != "" && c.hint != nil {
					fmt.Fprintf(os.Stderr, "loop %s: hint %s not established\n", x.pos(l.header.Instrs[0].Pos()), c.id)
				}
				continue
			}
			cands = append(cands, c)
		}
	}
	addCands()

	makeHead := func() *State {
		hs := snap.clone()
		hf := hs.top()
		hs.epoch++
		x.havocMod(hs, mod)
		hf.block = h
		for _, ph := range phis {
			v := x.freshVal(hs, "phi."+ph.Comment+ph.Name(), ph.Type())
			hf.env[ph] = v
			if sl, ok := ph.Type().Underlying().(*types.Slice); ok {
				for _, lf := range x.p.Leaves(sl.Elem()) {
					if lf.sort == SRef {
						x.h0(memKey(sl.Elem(), lf), SArr(SRef, SArr(SInt, SRef)))
					}
				}
			}
		}
		x.bornFacts(hs)
		ctx := &invCtx{x: x, st: hs, fr: hf, phis: map[*ssa.Phi]Val{}, rng: rng}
		for _, ph := range phis {
			ctx.phis[ph] = hf.env[ph]
		}
		for _, c := range cands {
			if t := x.safeCand(c, ctx); t != nil {
				x.assume(hs, t)
			}
		}
		hs.epoch++
		hf.pc = len(phis)
		return hs
	}

	modsStable := len(memo.mod.locs)+len(memo.mod.whole) > 0
	for round := 0; ; round++ {
		if time.Now().After(x.deadline) {
			x.timedOut = true
			return false
		}
		if round > 60 {
			x.fail("loop analysis does not converge")
		}
		hs := makeHead()
		wl := &writeLog{locs: map[string]map[*Term]bool{}, whole: map[string]bool{}}
		dropped := map[*cand]bool{}
		headMarker := tb.n
		_ = headMarker
		cut := &Cut{
			exitF: func(*State) bool { return false },
			backF: func(s *State, from *ssa.BasicBlock) {
				f := s.top()
				bi := -1
				for i, p := range h.Preds {
					if p == from {
						bi = i
					}
				}
				ctx := &invCtx{x: x, st: s, fr: f, phis: map[*ssa.Phi]Val{}, rng: rng}
				for _, ph := range phis {
					v := x.val(s, f, ph.Edges[bi])
					v.T = ph.Type()
					ctx.phis[ph] = v
				}
				if modsStable {
					x.houdini(s, cands, dropped, ctx)
				}
			},
		}
		hs.top().cuts[h] = cut
		x.quiet++
		x.wlogs = append(x.wlogs, wl)
		saveW := x.wlogs
		x.explore([]*State{hs})
		x.wlogs = saveW[:len(saveW)-1]
		x.quiet--
		if x.timedOut {
			return false
		}
		changed := false
		// new modifications?
		for _, k := range sortedKeys(wl.locs) {
			if mod.whole[k] {
				continue
			}
			for r := range wl.locs[k] {
				if mod.locs[k][r] {
					continue
				}
				root := rootOf(r)
				if root.op == OBase && root.maxEp > entryEp && root.args[1].isInt() {
					continue // object born in the loop
				}
				changed = true
				if x.loopOld(r, marker, entryEp) && len(mod.locs[k]) < 12 {
					if mod.locs[k] == nil {
						mod.locs[k] = map[*Term]bool{}
					}
					mod.locs[k][r] = true
				} else {
					mod.whole[k] = true
					break
				}
			}
		}
		for k := range wl.whole {
			if !mod.whole[k] {
				mod.whole[k] = true
				changed = true
			}
		}
		if changed {
			memo.mod = mod.clone()
		} else if !modsStable {
			modsStable = true
			changed = true
		}
		if len(dropped) > 0 {
			var keep []*cand
			for _, c := range cands {
				if dropped[c] {
					memo.dead[c.id] = true
					if os.Getenv("GOVC_LOOPS") != "" && c.hint != nil {
						fmt.Fprintf(os.Stderr, "loop %s: hint %s not inductive\n", x.loopPos(l), c.id)
					}
				} else {
					keep = append(keep, c)
				}
			}
			cands = keep
			changed = true
		}
		if !changed {
			break
		}
		addCands()
	}
	if os.Getenv("GOVC_LOOPS") == "2" && x.quiet == 0 {
		fmt.Fprintf(os.Stderr, "loop %s in %s: mod locs=%v whole=%v\n", x.loopPos(l), fr.fn, locNames(mod), sortedKeys(mod.whole))
		for _, c := range cands {
			fmt.Fprintf(os.Stderr, "   inv %s\n", c.id)
		}
	}
	// log havoc'ed locations for enclosing loops
	for _, k := range sortedKeys(mod.locs) {
		for r := range mod.locs[k] {
			x.noteWrite(st, k, x.keySort[k], r)
		}
	}
	for k := range mod.whole {
		x.noteWhole(k)
	}
	hs := makeHead()
	*st = *hs
	nf := st.top()
	nf.cuts[h] = &Cut{exitF: func(*State) bool { return true }, backF: func(s *State, _ *ssa.BasicBlock) {}}
	return true
}

func (x *Exec) loopPos(l *Loop) string {
	for b := range l.blocks {
		_ = b
	}
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in.Pos())
		}
	}
	return l.header.String()
}

func locNames(m *modset) []string {
	var r []string
	for _, k := range sortedKeys(m.locs) {
		for t := range m.locs[k] {
			r = append(r, k+"@"+t.String())
		}
	}
	return r
}

func hasForeignVar(t *Term) bool { return false }

// check candidates at a back edge
func (x *Exec) houdini(s *State, cands []*cand, dropped map[*cand]bool, ctx *invCtx) {
	if s.dead {
		return
	}
	type ct struct {
		c *cand
		t *Term
	}
	var live, auto []ct
	for _, c := range cands {
		if dropped[c] {
			continue
		}
		t := x.safeCand(c, ctx)
		if t == nil || t == x.tb.False {
			if t == x.tb.False && x.qf.Check(s.facts, nil, 400) == Unsat {
				return
			}
			dropped[c] = true
			continue
		}
		if t == x.tb.True {
			continue
		}
		if c.hint == nil && !hasQuant(t, x.qf.qmemo) {
			auto = append(auto, ct{c, t})
		} else {
			live = append(live, ct{c, t})
		}
	}
	var checkQF func(l []ct)
	checkQF = func(l []ct) {
		var cs []*Term
		for _, e := range l {
			cs = append(cs, e.t)
		}
		if x.qf.Check(s.facts, x.tb.Not(x.tb.And(cs...)), 500) == Unsat {
			return
		}
		if len(l) == 1 {
			dropped[l[0].c] = true
			return
		}
		checkQF(l[:len(l)/2])
		checkQF(l[len(l)/2:])
	}
	if len(auto) > 0 {
		checkQF(auto)
	}
	if len(live) == 0 {
		return
	}
	var check func(l []ct, depth int)
	check = func(l []ct, depth int) {
		var cs []*Term
		for _, e := range l {
			cs = append(cs, e.t)
		}
		to := 1500
		if len(l) == 1 {
			to = 1000
			if l[0].c.hint != nil {
				to = 1200
			}
		}
		if len(l) == 1 {
			ok := true
			for _, g := range x.subgoals(l[0].t) {
				n := x.negGoal(g)
				pf := time.Duration(0)
				if l[0].c.hint != nil {
					pf = 4 * time.Second
				}
				if good, _, _ := x.refute(s.facts, n, to, pf); !good {
					if d := os.Getenv("GOVC_DUMP"); d != "" && l[0].c.hint != nil {
						os.WriteFile(d+"/hint_"+sanitizeName(l[0].c.id)+".smt2", []byte(Script(x.tb, s.facts, n)), 0o644)
					}
					ok = false
					break
				}
			}
			if ok {
				return
			}
		} else if x.sol.Check(s.facts, x.tb.Not(x.tb.And(cs...)), to) == Unsat {
			return
		}
		if len(l) == 1 {
			if l[0].c.hint != nil && os.Getenv("GOVC_LOOPS") != "" {
				fmt.Fprintf(os.Stderr, "  back edge: hint %s fails on path %s\n", l[0].c.id, s.trail)
			}
			dropped[l[0].c] = true
			return
		}
		if len(l) <= 3 {
			for _, e := range l {
				check([]ct{e}, depth+1)
			}
			return
		}
		check(l[:len(l)/2], depth+1)
		check(l[len(l)/2:], depth+1)
	}
	check(live, 0)
}

func (x *Exec) safeCand(c *cand, ctx *invCtx) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				if os.Getenv("GOVC_LOOPS") != "" {
					fmt.Fprintln(os.Stderr, "candidate", c.id, r)
				}
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.f(ctx)
}

func (x *Exec) havocMod(st *State, m *modset) {
	for _, k := range sortedKeys(m.whole) {
		s := x.keySort[k]
		if s == nil {
			continue
		}
		st.heap[k] = x.hfresh(st, k, SArr(SRef, s))
	}
	for _, k := range sortedKeys(m.locs) {
		if m.whole[k] {
			continue
		}
		s := x.keySort[k]
		var refs []*Term
		for r := range m.locs[k] {
			refs = append(refs, r)
		}
		sortTerms(refs)
		for _, r := range refs {
			v := x.freshLeaf(st, "hv:"+k, k, s)
			st.heap[k] = x.tb.Store(x.hget(st, k, SArr(SRef, s)), r, v)
		}
	}
}

// whatever is stored in an array that exists now was allocated before now
func (x *Exec) bornFacts(st *State) {
	tb := x.tb
	for _, k := range sortedKeys(x.h0s) {
		if !strings.HasPrefix(k, "mem:") {
			continue
		}
		m := x.hget(st, k, x.h0s[k].sort)
		if s := m.sort; s.elt.k != "Array" || s.elt.elt != SRef {
			continue
		}
		for m.op == OStore {
			m = m.args[0]
		}
		if m.op != OVar {
			continue
		}
		r, i := tb.Var("?br", SRef), tb.Var("?bi", SInt)
		sel := tb.Select(tb.Select(m, r), i)
		e := tb.Int(int64(st.epoch))
		x.assume(st, tb.Quant(OForall, []*Term{r, i}, [][]*Term{{sel}}, tb.Implies(tb.Le(tb.App("born", SInt, r), e), tb.Le(tb.App("born", SInt, sel), e))))
	}
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (x *Exec) freshLeaf(st *State, name, key string, s *Sort) *Term {
	t := &Term{op: OVar, sort: s, name: x.tb.FreshName(name)}
	if r, ok := x.keyRange[key]; ok {
		t.lo, t.hi = r[0], r[1]
	}
	t.maxEp = st.epoch
	return x.tb.mk(t)
}

// ---------- candidates

type ivar struct {
	name string
	get  func(c *invCtx) *Term
	ent  *Term
}

func (x *Exec) genCands(ec *invCtx, snap *State, l *Loop, phis []*ssa.Phi, mod *modset, rng *Term) []*cand {
	tb := x.tb
	var out []*cand
	add := func(id string, f func(c *invCtx) *Term) { out = append(out, &cand{id: id, f: f}) }
	h := l.header
	var ints []ivar
	// phis
	for _, ph := range phis {
		ph := ph
		e := ec.phis[ph]
		n := ph.Name()
		switch u := ph.Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				ints = append(ints, ivar{n, func(c *invCtx) *Term { return c.phis[ph].L[0] }, e.L[0]})
			} else if u.Info()&(types.IsBoolean|types.IsString) != 0 {
				add(n+"==entry", func(c *invCtx) *Term { return tb.Eq(c.phis[ph].L[0], e.L[0]) })
			}
		case *types.Slice:
			ints = append(ints, ivar{n + ".len", func(c *invCtx) *Term { return c.phis[ph].L[2] }, e.L[2]})
			add(n+".ref==entry", func(c *invCtx) *Term { return tb.Eq(c.phis[ph].L[0], e.L[0]) })
			add(n+".off==entry", func(c *invCtx) *Term { return tb.Eq(c.phis[ph].L[1], e.L[1]) })
			add(n+".off>=entry", func(c *invCtx) *Term { return tb.Le(e.L[1], c.phis[ph].L[1]) })
			add(n+".end==entry", func(c *invCtx) *Term {
				p := c.phis[ph]
				return tb.Eq(tb.Add(p.L[1], p.L[2]), tb.Add(e.L[1], e.L[2]))
			})
			add(n+".end<=entry", func(c *invCtx) *Term {
				p := c.phis[ph]
				return tb.Le(tb.Add(p.L[1], p.L[2]), tb.Add(e.L[1], e.L[2]))
			})
			add(n+".capend==entry", func(c *invCtx) *Term {
				p := c.phis[ph]
				return tb.Eq(tb.Add(p.L[1], p.L[3]), tb.Add(e.L[1], e.L[3]))
			})
			// appended-to slices live in objects born in the loop or are the original one
			add(n+".fresh", func(c *invCtx) *Term {
				p := c.phis[ph]
				return tb.Or(tb.Eq(p.L[0], e.L[0]), tb.Lt(tb.Int(int64(snap.epoch)), tb.App("born", SInt, p.L[0])))
			})
		case *types.Interface:
			add(n+".tag==entry", func(c *invCtx) *Term { return tb.Eq(c.phis[ph].L[0], e.L[0]) })
			add(n+"==entry", func(c *invCtx) *Term { return tb.And(tb.Eq(c.phis[ph].L[0], e.L[0]), tb.Eq(c.phis[ph].L[1], e.L[1])) })
		case *types.Pointer, *types.Map:
			add(n+"==entry", func(c *invCtx) *Term { return tb.Eq(c.phis[ph].L[0], e.L[0]) })
			add(n+"!=nil", func(c *invCtx) *Term { return tb.Not(tb.Eq(c.phis[ph].L[0], tb.Null)) })
		}
	}
	// precise locations
	for _, k := range sortedKeys(mod.locs) {
		if mod.whole[k] {
			continue
		}
		k := k
		s := x.keySort[k]
		var refs []*Term
		for r := range mod.locs[k] {
			refs = append(refs, r)
		}
		sortTerms(refs)
		for _, r := range refs {
			r := r
			get := func(c *invCtx) *Term { return tb.Select(x.hget(c.st, k, SArr(SRef, s)), r) }
			e := get(ec)
			n := fmt.Sprintf("%s@%d", k, r.id)
			if s == SInt && !strings.HasSuffix(k, ".cap") {
				if strings.HasSuffix(k, ".off") {
					base := strings.TrimSuffix(k, ".off")
					add(n+"==entry", func(c *invCtx) *Term { return tb.Eq(get(c), e) })
					add(n+">=entry", func(c *invCtx) *Term { return tb.Le(e, get(c)) })
					if ls := x.keySort[base+".len"]; ls == SInt {
						getl := func(c *invCtx) *Term { return tb.Select(x.hget(c.st, base+".len", SArr(SRef, SInt)), r) }
						el := getl(ec)
						add(n+"+len==entry", func(c *invCtx) *Term { return tb.Eq(tb.Add(get(c), getl(c)), tb.Add(e, el)) })
						add(n+"+len<=entry", func(c *invCtx) *Term { return tb.Le(tb.Add(get(c), getl(c)), tb.Add(e, el)) })
					}
					continue
				}
				ints = append(ints, ivar{n, get, e})
			} else {
				add(n+"==entry", func(c *invCtx) *Term { return tb.Eq(get(c), e) })
				if s == SRef {
					add(n+"!=nil", func(c *invCtx) *Term { return tb.Not(tb.Eq(get(c), tb.Null)) })
					if strings.HasSuffix(k, ".ref") {
						add(n+".fresh", func(c *invCtx) *Term {
							return tb.Or(tb.Eq(get(c), e), tb.Lt(tb.Int(int64(snap.epoch)), tb.App("born", SInt, get(c))))
						})
					}
				}
				if s == SBool {
					add(n+"=>entry", func(c *invCtx) *Term { return tb.Implies(get(c), e) })
					add(n+"<=entry", func(c *invCtx) *Term { return tb.Implies(e, get(c)) })
				}
			}
			if strings.HasSuffix(k, ".len") || strings.HasSuffix(k, ".tag") || strings.HasSuffix(k, ".cap") {
				add(n+"==entry", func(c *invCtx) *Term { return tb.Eq(get(c), e) })
			}
		}
	}
	// whole maps: objects that existed before the loop are unchanged
	for _, k := range sortedKeys(mod.whole) {
		k := k
		s := x.keySort[k]
		if s == nil {
			continue
		}
		e := x.hget(snap, k, SArr(SRef, s))
		ep := tb.Int(int64(snap.epoch))
		add("frame:"+k, func(c *invCtx) *Term {
			r := tb.Var("?r", SRef)
			cur := x.hget(c.st, k, SArr(SRef, s))
			if cur == e {
				return tb.True
			}
			a, b := tb.Select(cur, r), tb.Select(e, r)
			return tb.Quant(OForall, []*Term{r}, [][]*Term{{a}}, tb.Implies(tb.Le(tb.App("born", SInt, r), ep), tb.Eq(a, b)))
		})
	}
	// ... and objects that existed at function entry
	if x.entry != nil && x.entry.epoch < snap.epoch {
		for _, k := range sortedKeys(mod.whole) {
			k := k
			s := x.keySort[k]
			if s == nil {
				continue
			}
			e := x.hget(x.entry, k, SArr(SRef, s))
			ep := tb.Int(int64(x.entry.epoch))
			add("frame0:"+k, func(c *invCtx) *Term {
				r := tb.Var("?r", SRef)
				cur := x.hget(c.st, k, SArr(SRef, s))
				if cur == e {
					return tb.True
				}
				a, b := tb.Select(cur, r), tb.Select(e, r)
				return tb.Quant(OForall, []*Term{r}, [][]*Term{{a}}, tb.Implies(tb.Le(tb.App("born", SInt, r), ep), tb.Eq(a, b)))
			})
		}
	}
	// integers
	for _, v := range ints {
		v := v
		add(v.name+"==entry", func(c *invCtx) *Term { return tb.Eq(v.get(c), v.ent) })
		add(v.name+">=entry", func(c *invCtx) *Term { return tb.Le(v.ent, v.get(c)) })
		add(v.name+"<=entry", func(c *invCtx) *Term { return tb.Le(v.get(c), v.ent) })
		add(v.name+">=0", func(c *invCtx) *Term { return tb.Le(tb.Int(0), v.get(c)) })
	}
	for i := 0; i < len(ints) && i < 9; i++ {
		for j := i + 1; j < len(ints) && j < 9; j++ {
			a, b := ints[i], ints[j]
			add(a.name+"-"+b.name, func(c *invCtx) *Term {
				return tb.Eq(tb.Sub(a.get(c), b.get(c)), tb.Sub(a.ent, b.ent))
			})
			add(a.name+"+"+b.name, func(c *invCtx) *Term {
				return tb.Eq(tb.Add(a.get(c), b.get(c)), tb.Add(a.ent, b.ent))
			})
			add(a.name+"<="+b.name, func(c *invCtx) *Term { return tb.Le(a.get(c), b.get(c)) })
			add(a.name+">="+b.name, func(c *invCtx) *Term { return tb.Le(b.get(c), a.get(c)) })
		}
	}
	// slice lengths outside
	ns := 0
	var names []string
	bySlice := map[string]ssa.Value{}
	for v := range ec.fr.env {
		if _, ok := v.Type().Underlying().(*types.Slice); ok {
			if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
				continue
			}
			names = append(names, v.Name())
			bySlice[v.Name()] = v
		}
	}
	sortStrings(names)
	for _, n := range names {
		if ns >= 6 {
			break
		}
		ns++
		sv := ec.fr.env[bySlice[n]]
		for i, v := range ints {
			if i >= 5 {
				break
			}
			v := v
			add(v.name+"<=len("+n+")", func(c *invCtx) *Term { return tb.Le(v.get(c), sv.L[2]) })
		}
	}
	// loop conditions (every If of the loop that can leave it and is evaluable at the head)
	if ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok {
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok {
			X, Y := bo.X, bo.Y
			mkc := func(id string, f func(a, b *Term) *Term) {
				add("cond"+id, func(c *invCtx) *Term {
					a, b := x.evalSSA(c, X, h, 0), x.evalSSA(c, Y, h, 0)
					if a == nil || b == nil || len(a.L) != 1 || len(b.L) != 1 || a.L[0].sort != SInt || b.L[0].sort != SInt {
						return nil
					}
					return f(a.L[0], b.L[0])
				})
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.NEQ, token.GTR, token.GEQ:
				mkc("a<=b", func(a, b *Term) *Term { return tb.Le(a, b) })
				mkc("a<=b+1", func(a, b *Term) *Term { return tb.Le(a, tb.Add(b, tb.Int(1))) })
				mkc("b<=a", func(a, b *Term) *Term { return tb.Le(b, a) })
				mkc("b<=a+1", func(a, b *Term) *Term { return tb.Le(b, tb.Add(a, tb.Int(1))) })
			}
		}
	}
	// contract hints
	out = append(out, x.hintCands(ec, snap, l, phis, mod, rng)...)
	return out
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// LoopHint: loopinv (i int, s []byte) : expr
type LoopHint struct {
	props []string
	vars  []string
	types []string
	expr  ast.Expr
	text  string
}

func (x *Exec) hintCands(ec *invCtx, snap *State, l *Loop, phis []*ssa.Phi, mod *modset, rng *Term) []*cand {
	if x.cur == nil {
		return nil
	}
	var out []*cand
	for hi, h := range x.cur.hints {
		if !x.specs.selected(h.props) {
			continue
		}
		// value pool per variable
		pools := make([][]ssa.Value, len(h.vars))
		okAll := true
		for i, ts := range h.types {
			onlyPhi := strings.HasPrefix(ts, "phi ")
			ts = strings.TrimPrefix(ts, "phi ")
			onlyRange := strings.HasPrefix(ts, "range ")
			ts = strings.TrimPrefix(ts, "range ")
			var pool []ssa.Value
			seen := map[string]bool{}
			for _, ph := range phis {
				if x.specs.typeMatches(ph.Type(), ts) {
					pool = append(pool, ph)
				}
			}
			if !onlyPhi {
				var rest []ssa.Value
				for v := range ec.fr.env {
					if in, ok := v.(ssa.Instruction); ok && (l.blocks[in.Block()]) {
						continue
					}
					if x.specs.typeMatches(v.Type(), ts) {
						rest = append(rest, v)
					}
				}
				sortVals(rest)
				for _, v := range rest {
					k := termsKey(ec.fr.env[v].L)
					if !seen[k] {
						seen[k] = true
						pool = append(pool, v)
					}
				}
			}
			if onlyRange {
				// only the values the loop indexes, when there are any
				var ranged []ssa.Value
				for v := range ec.fr.env {
					if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] {
						continue
					}
					if x.specs.typeMatches(v.Type(), ts) && indexedIn(v, l) {
						ranged = append(ranged, v)
					}
				}
				sortVals(ranged)
				if len(ranged) > 0 {
					pool = ranged
				}
			}
			if len(pool) == 0 {
				okAll = false
			}
			if len(pool) > 12 {
				pool = pool[:12]
			}
			pools[i] = pool
		}
		if !okAll {
			continue
		}
		h := h
		n := 0
		var rec func(i int, chosen []ssa.Value)
		rec = func(i int, chosen []ssa.Value) {
			if n > 150 {
				return
			}
			if i == len(pools) {
				n++
				ch := append([]ssa.Value(nil), chosen...)
				id := fmt.Sprintf("hint%d", hi)
				for _, v := range ch {
					id += ":" + v.Name()
				}
				out = append(out, &cand{id: id, hint: h, f: func(c *invCtx) *Term {
					ev := x.newEval(c.st)
					ev.pre = snap
					ev.rng = c.rng
					for j, v := range ch {
						if ph, ok := v.(*ssa.Phi); ok {
							if pv, ok := c.phis[ph]; ok {
								ev.bind[h.vars[j]] = pv
								ev.preBind[h.vars[j]] = ec.phis[ph]
								continue
							}
						}
						ev.bind[h.vars[j]] = ec.fr.env[v]
					}
					return ev.boolean(h.expr)
				}})
				return
			}
			for _, v := range pools[i] {
				dup := false
				for _, o := range chosen {
					if o == v {
						dup = true
					}
				}
				if dup {
					continue
				}
				rec(i+1, append(chosen, v))
			}
		}
		rec(0, nil)
	}
	return out
}

func indexedIn(v ssa.Value, l *Loop) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, in := range *v.Referrers() {
		switch q := in.(type) {
		case *ssa.IndexAddr:
			if q.X == v && l.blocks[q.Block()] {
				return true
			}
		case *ssa.Index:
			if q.X == v && l.blocks[q.Block()] {
				return true
			}
		}
	}
	return false
}

func termsKey(ts []*Term) string {
	s := ""
	for _, t := range ts {
		s += fmt.Sprintf("%d,", t.id)
	}
	return s
}

func sortVals(vs []ssa.Value) {
	rank := func(v ssa.Value) string {
		if _, ok := v.(*ssa.Parameter); ok {
			return "0" + v.Name()
		}
		return "1" + fmt.Sprintf("%04d", len(v.Name())) + v.Name()
	}
	for i := 1; i < len(vs); i++ {
		for j := i; j > 0 && rank(vs[j]) < rank(vs[j-1]); j-- {
			vs[j], vs[j-1] = vs[j-1], vs[j]
		}
	}
}
