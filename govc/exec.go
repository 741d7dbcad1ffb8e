package main

// Path-wise symbolic execution of go/ssa (explicit stack, DFS) that generates proof obligations.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type specErr string

type Closure struct {
	fn    *ssa.Function
	binds []Val
}

type Ob struct {
	Fn     string   `json:"fn"`
	Kind   string   `json:"kind"` // ensures, requires, panic, modifies, loop, vacuity
	Name   string   `json:"name"`
	Pos    string   `json:"pos"`
	Props  []string `json:"props,omitempty"`
	Status string   `json:"status"` // proved, failed, unknown
	By     string   `json:"by"`
	Ms     int64    `json:"ms"`
	Trail  string   `json:"trail,omitempty"`
	Detail string   `json:"detail,omitempty"`
}

type Exec struct {
	p         *Prog
	tb        *TB
	sol       *Solver
	qf        *Solver // quantifier-free facts only: cheap, used for path feasibility and guessed loop invariants
	specs     *Specs
	h0s       map[string]*Term
	keyRange  map[string][2]*big.Int
	keySort   map[string]*Sort
	allocN    int
	closures  map[*Term]*Closure
	initFuncs map[*Term][]*Term // functions a package-level table can yield
	work      *[]*State
	obs       map[string]*Ob
	obOrder   []string
	quiet     int // >0: probing, obligations not recorded
	wlogs     []*writeLog
	cur       *Contract
	curFn     *ssa.Function
	entry     *State // state at function entry (for old())
	params    []Val
	onReturn  func(st *State, res []*Term)
	retEnv    map[ssa.Value]Val
	onEnd     func(st *State)
	loopMemo  map[string]*loopMemo
	trusted   map[string]bool
	unsup     []string
	deadline  time.Time
	paths     int
	steps     int
	initDone  bool
	propSel   map[string]bool
	opaque    map[string]bool
	timedOut  bool
	nfail     int
	globRefs  map[*ssa.Global]*Term
	inv       []func()
	notes     map[string]bool
	used      map[string]bool
	inlined   map[string]bool
	obTimeout int
	retries   int
	merge     bool
	joins     map[*ssa.BasicBlock]*ssa.BasicBlock
}

type writeLog struct {
	locs  map[string]map[*Term]bool
	whole map[string]bool
}

func NewExec(p *Prog, specs *Specs) *Exec {
	x := &Exec{p: p, specs: specs}
	x.tb = NewTB()
	x.h0s = map[string]*Term{}
	x.keyRange = map[string][2]*big.Int{}
	x.keySort = map[string]*Sort{}
	x.closures = map[*Term]*Closure{}
	x.initFuncs = map[*Term][]*Term{}
	x.obs = map[string]*Ob{}
	x.loopMemo = map[string]*loopMemo{}
	x.trusted = map[string]bool{}
	x.globRefs = map[*ssa.Global]*Term{}
	x.notes = map[string]bool{}
	x.used = map[string]bool{}
	x.inlined = map[string]bool{}
	x.sol = NewSolver(x.tb)
	x.qf = NewQFSolver(x.tb)
	x.obTimeout = 1200
	return x
}

func (x *Exec) noteWrite(st *State, key string, s *Sort, ref *Term) {
	for _, w := range x.wlogs {
		m := w.locs[key]
		if m == nil {
			m = map[*Term]bool{}
			w.locs[key] = m
		}
		m[ref] = true
	}
}

func (x *Exec) noteWhole(key string) {
	for _, w := range x.wlogs {
		w.whole[key] = true
	}
}

func (x *Exec) trust(s string) { x.trusted[s] = true }

type unsupported struct{ msg string }

func (x *Exec) fail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---------- obligations

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.p.fset.Position(p)
	f := q.Filename
	if strings.HasPrefix(f, x.p.repo+"/") {
		f = f[len(x.p.repo)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// prove cond in st; record under (kind,name,pos). Returns whether proved; assumes cond afterwards.
func (x *Exec) oblige(st *State, kind, name, pos string, props []string, cond *Term) bool {
	if st.dead {
		return true
	}
	if x.quiet > 0 {
		x.assume(st, cond)
		return true
	}
	if kind == "panic" && x.propSel != nil && !x.wantPanics() {
		x.assume(st, cond)
		return true
	}
	fn := FuncKey(x.curFn)
	key := fn + "|" + kind + "|" + name + "|" + pos
	o := x.obs[key]
	if o == nil {
		o = &Ob{Fn: fn, Kind: kind, Name: name, Pos: pos, Props: props, Status: "proved", By: "simplifier"}
		x.obs[key] = o
		x.obOrder = append(x.obOrder, key)
	}
	if o.Status == "failed" {
		x.assume(st, cond)
		return false
	}
	t0 := time.Now()
	ok, by := x.prove(st, cond)
	o.Ms += time.Since(t0).Milliseconds()
	if ok {
		if by != "simplifier" {
			if o.By == "simplifier" || o.By == by {
				o.By = by
			} else if !strings.Contains(o.By, by) {
				o.By += "+" + by
			}
		}
	} else {
		o.Status = "failed"
		if x.nfail++; x.nfail >= 8 {
			x.timedOut = true // enough: report what failed so far
		}
		o.By = by
		o.Trail = st.trail
		o.Detail = cond.String()
		if os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(fmt.Sprintf("%s/%s.smt2", os.Getenv("GOVC_DUMP"), sanitizeName(key)), []byte(Script(x.tb, st.facts, x.tb.Not(cond))), 0o644)
		}
	}
	x.assume(st, cond)
	return ok
}

func sanitizeName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func (x *Exec) wantPanics() bool {
	return x.propSel == nil || x.propSel["panic"]
}

func (x *Exec) prove(st *State, cond *Term) (bool, string) {
	if cond == x.tb.True || st.dead {
		return true, "simplifier"
	}
	if cond.op == OAnd {
		by := "simplifier"
		for _, a := range cond.args {
			ok, b := x.prove(st, a)
			if !ok {
				return false, b
			}
			if b != "simplifier" {
				by = b
			}
		}
		return true, by
	}
	if cond == x.tb.False {
		// only provable if the path is infeasible
	}
	res := "simplifier"
	for _, g := range x.subgoals(cond) {
		n := x.negGoal(g)
		if n == x.tb.False {
			continue
		}
		ok, by, r := x.refute(st.facts, n, x.obTimeout, 12*time.Second)
		if ok {
			if by != "simplifier" && (by != "z3" || res == "simplifier") {
				res = by
			}
			continue
		}
		if x.timedOut {
			return false, "timeout"
		}
		if os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(fmt.Sprintf("%s/sub_%s_%d.smt2", os.Getenv("GOVC_DUMP"), sanitizeName(FuncKey(x.curFn)), n.id), []byte(Script(x.tb, st.facts, n)), 0o644)
		}
		if r == Sat {
			return false, "sat:" + by
		}
		return false, "unknown"
	}
	return true, res
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if c == x.tb.False {
		return false
	}
	return x.qf.Check(st.facts, c, 400) != Unsat
}

// quick entailment (used by the executor itself, not recorded)
func (x *Exec) entails(st *State, c *Term) bool {
	if c == x.tb.True {
		return true
	}
	if c == x.tb.False {
		return false
	}
	if x.qf.Check(st.facts, x.tb.Not(c), 300) == Unsat {
		return true
	}
	return x.sol.Check(st.facts, x.tb.Not(c), 400) == Unsat
}

func (x *Exec) entailsQF(st *State, c *Term) bool {
	if c == x.tb.True {
		return true
	}
	if c == x.tb.False {
		return false
	}
	return x.qf.Check(st.facts, x.tb.Not(c), 300) == Unsat
}

// ---------- exploration

func (x *Exec) push(st *State) { *x.work = append(*x.work, st) }

func (x *Exec) explore(init []*State) {
	saved := x.work
	w := append([]*State(nil), init...)
	x.work = &w
	defer func() { x.work = saved }()
	for len(w) > 0 {
		st := w[len(w)-1]
		w = w[:len(w)-1]
		x.runState(st)
		if time.Now().After(x.deadline) {
			x.timedOut = true
			return
		}
	}
}

func (x *Exec) runState(st *State) {
	for !st.dead {
		if len(st.frames) == 0 {
			return
		}
		fr := st.top()
		if fr.pc >= len(fr.block.Instrs) {
			x.fail("fell off block")
		}
		in := fr.block.Instrs[fr.pc]
		fr.pc++
		x.steps++
		if x.steps%256 == 0 && time.Now().After(x.deadline) {
			x.timedOut = true
			return
		}
		if !x.instr(st, fr, in) {
			return
		}
	}
}

func (x *Exec) set(fr *Frame, v ssa.Value, val Val) { fr.env[v] = val }

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return Val{c.Type(), []*Term{x.globRef(c)}}
	case *ssa.Function:
		return x.funcVal(c)
	case *ssa.Builtin:
		x.fail("builtin value")
	}
	r, ok := fr.env[v]
	if !ok {
		x.fail("undefined ssa value %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) funcVal(f *ssa.Function) Val {
	t := x.tb.Fld(x.tb.Base(0, x.tb.Int(-1)), "func:"+f.String())
	x.closures[t] = &Closure{fn: f}
	return Val{f.Type(), []*Term{t}}
}

func (x *Exec) globRef(g *ssa.Global) *Term {
	return x.tb.Fld(x.tb.Base(0, x.tb.Int(-2)), "glob:"+g.String())
}

func (x *Exec) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	v := Val{T: c.Type()}
	switch u := c.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			v.L = []*Term{x.tb.Bool(constant.BoolVal(c.Value))}
		case u.Info()&types.IsString != 0:
			v.L = []*Term{x.tb.StrLit(constant.StringVal(c.Value))}
		case u.Info()&types.IsInteger != 0:
			i := constant.ToInt(c.Value)
			b, ok := new(big.Int).SetString(i.ExactString(), 10)
			if !ok {
				x.fail("const %s", c)
			}
			v.L = []*Term{x.tb.Big(b)}
		default:
			v.L = []*Term{x.tb.Fresh("float", SInt)}
		}
		return v
	}
	x.fail("const %s", c)
	return v
}

func (x *Exec) goTo(st *State, fr *Frame, b *ssa.BasicBlock) bool {
	from := fr.block
	fr.prev = from
	// leaving loops?
	if len(fr.cuts) > 0 || len(fr.unroll) > 0 {
		lf := x.p.Loops(fr.fn)
		for h, c := range fr.cuts {
			l := lf.byHeader[h]
			if !l.blocks[b] {
				if !c.exit(st) {
					return false
				}
				delete(fr.cuts, h)
			}
		}
		for h := range fr.unroll {
			if !lf.byHeader[h].blocks[b] {
				delete(fr.unroll, h)
			}
		}
	}
	if c := fr.cuts[b]; c != nil {
		// back edge
		fr.block, fr.pc = b, 0
		c.back(st, from)
		return false
	}
	lf := x.p.Loops(fr.fn)
	if l := lf.byHeader[b]; l != nil {
		if n, ok := fr.unroll[b]; ok {
			fr.unroll[b] = n + 1
			if n > 70 {
				x.fail("unroll limit in %s", fr.fn)
			}
		} else {
			fr.block = b
			if x.shouldUnroll(st, fr, l, from) {
				fr.unroll[b] = 1
			} else {
				return x.cutLoop(st, fr, l, from)
			}
		}
	}
	fr.block = b
	fr.pc = 0
	if !x.doPhis(st, fr, from) {
		return false
	}
	if n := len(fr.joins); n > 0 && fr.joins[n-1].block == b {
		if !st.dead {
			fr.joins[n-1].states = append(fr.joins[n-1].states, st)
		}
		return false
	}
	return true
}

func (x *Exec) doPhis(st *State, fr *Frame, from *ssa.BasicBlock) bool {
	b := fr.block
	idx := -1
	for i, p := range b.Preds {
		if p == from {
			idx = i
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.val(st, fr, ph.Edges[idx]))
		phis = append(phis, ph)
	}
	for i, ph := range phis {
		v := vals[i]
		v.T = ph.Type()
		fr.env[ph] = v
	}
	fr.pc = len(phis)
	return true
}

func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) bool {
	tb := x.tb
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		r := x.alloc(st)
		x.initObj(st, t, r)
		x.set(fr, i, Val{i.Type(), []*Term{r}})
	case *ssa.BinOp:
		x.set(fr, i, x.binop(st, i.Op, x.val(st, fr, i.X), x.val(st, fr, i.Y), i.Type(), i.Pos()))
	case *ssa.UnOp:
		return x.unop(st, fr, i)
	case *ssa.Call:
		return x.call(st, fr, &i.Call, i)
	case *ssa.ChangeInterface:
		v := x.val(st, fr, i.X)
		x.set(fr, i, Val{i.Type(), v.L})
	case *ssa.ChangeType:
		v := x.val(st, fr, i.X)
		x.set(fr, i, Val{i.Type(), v.L})
	case *ssa.Convert:
		x.set(fr, i, x.convert(st, x.val(st, fr, i.X), i.Type()))
	case *ssa.MultiConvert:
		x.set(fr, i, x.convert(st, x.val(st, fr, i.X), i.Type()))
	case *ssa.Defer:
		d := &deferred{common: &i.Call}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(st, fr, a))
		}
		if i.Call.IsInvoke() || i.Call.StaticCallee() == nil {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.val(st, fr, i.Call.Value)
			}
		} else if mc, ok := i.Call.Value.(*ssa.MakeClosure); ok {
			d.fn = x.val(st, fr, mc)
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Extract:
		v := x.val(st, fr, i.Tuple)
		tt := i.Tuple.Type().(*types.Tuple)
		a, b := x.p.tupleRange(tt, i.Index)
		x.set(fr, i, Val{i.Type(), v.L[a:b]})
	case *ssa.Field:
		v := x.val(st, fr, i.X)
		a, b := x.p.fieldRange(i.X.Type().Underlying().(*types.Struct), i.Field)
		x.set(fr, i, Val{i.Type(), v.L[a:b]})
	case *ssa.FieldAddr:
		v := x.val(st, fr, i.X)
		pt := i.X.Type().Underlying().(*types.Pointer).Elem()
		x.derefCheck(st, v.L[0], i.Pos(), fr)
		x.set(fr, i, Val{i.Type(), []*Term{x.fieldAddr(pt, v.L[0], i.Field)}})
	case *ssa.If:
		c := x.val(st, fr, i.Cond).L[0]
		return x.branch(st, fr, c, fr.block.Succs[0], fr.block.Succs[1])
	case *ssa.Index:
		return x.index(st, fr, i)
	case *ssa.IndexAddr:
		return x.indexAddr(st, fr, i)
	case *ssa.Jump:
		return x.goTo(st, fr, fr.block.Succs[0])
	case *ssa.Lookup:
		return x.lookup(st, fr, i)
	case *ssa.MakeClosure:
		r := x.alloc(st)
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, x.val(st, fr, b))
		}
		x.closures[r] = c
		x.set(fr, i, Val{i.Type(), []*Term{r}})
	case *ssa.MakeInterface:
		x.set(fr, i, x.makeIface(st, x.val(st, fr, i.X), i.Type()))
	case *ssa.MakeMap:
		r := x.alloc(st)
		x.initMap(st, i.Type().Underlying().(*types.Map), r)
		x.set(fr, i, Val{i.Type(), []*Term{r}})
	case *ssa.MakeSlice:
		ln, cp := x.val(st, fr, i.Len).L[0], x.val(st, fr, i.Cap).L[0]
		x.oblige(st, "panic", "makeslice: len out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), ln), tb.Le(ln, cp)))
		if !ln.isInt() {
			// a successful allocation fits in memory
			x.assume(st, tb.Le(cp, tb.Big(maxLen)))
			x.trust("allocations succeed (memory exhaustion is outside the model)")
		}
		et := i.Type().Underlying().(*types.Slice).Elem()
		r := x.alloc(st)
		x.initElems(st, et, r, ln)
		x.set(fr, i, Val{i.Type(), []*Term{r, tb.Int(0), ln, cp}})
	case *ssa.MapUpdate:
		m := x.val(st, fr, i.Map)
		x.oblige(st, "panic", "assignment to entry in nil map", x.pos(i.Pos()), nil, tb.Not(tb.Eq(m.L[0], tb.Null)))
		x.mapStore(st, i.Map.Type().Underlying().(*types.Map), m.L[0], x.val(st, fr, i.Key), x.val(st, fr, i.Value))
	case *ssa.Next:
		return x.next(st, fr, i)
	case *ssa.Panic:
		x.oblige(st, "panic", "explicit panic", x.pos(i.Pos()), nil, tb.False)
		return false
	case *ssa.Phi:
		x.fail("phi out of place")
	case *ssa.Range:
		return x.rangeOver(st, fr, i)
	case *ssa.Return:
		var res []*Term
		for _, r := range i.Results {
			res = append(res, x.val(st, fr, r).L...)
		}
		return x.doReturn(st, fr, res)
	case *ssa.RunDefers:
		return x.runDefers(st, fr)
	case *ssa.Slice:
		return x.slice(st, fr, i)
	case *ssa.Store:
		p := x.val(st, fr, i.Addr)
		x.derefCheck(st, p.L[0], i.Pos(), fr)
		x.store(st, i.Addr.Type().Underlying().(*types.Pointer).Elem(), p.L[0], x.val(st, fr, i.Val).L)
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, i)
	case *ssa.SliceToArrayPointer:
		v := x.val(st, fr, i.X)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		x.oblige(st, "panic", "slice to array conversion", x.pos(i.Pos()), nil, tb.Le(tb.Int(n), v.L[2]))
		if v.L[1].isInt() && v.L[1].c.Sign() == 0 {
			x.set(fr, i, Val{i.Type(), []*Term{v.L[0]}})
		} else {
			x.fail("slice to array pointer with offset")
		}
	default:
		x.fail("instruction %T", in)
	}
	return true
}

func (x *Exec) fieldAddr(pt types.Type, ref *Term, i int) *Term {
	u := pt.Underlying().(*types.Struct)
	return x.tb.Fld(ref, fieldKey(pt, u.Field(i)))
}

func (x *Exec) derefCheck(st *State, r *Term, p token.Pos, fr *Frame) {
	root := rootOf(r)
	if root.op == OBase {
		return
	}
	if root == x.tb.Null {
		x.oblige(st, "panic", "nil pointer dereference", x.pos(p), nil, x.tb.False)
		st.dead = true
		return
	}
	if r.op == OFld || r.op == OElm {
		return // checked when the address was formed
	}
	c := x.tb.Not(x.tb.Eq(r, x.tb.Null))
	x.oblige(st, "panic", "nil pointer dereference", x.pos(p), nil, c)
}

// zero-initialised object of type t at r (r is newly allocated)
func (x *Exec) initObj(st *State, t types.Type, r *Term) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fk := fieldKey(t, f)
			switch fu := f.Type().Underlying().(type) {
			case *types.Struct:
				x.initObj(st, f.Type(), x.tb.Fld(r, fk))
			case *types.Array:
				x.initElems(st, fu.Elem(), x.tb.Fld(r, fk), x.tb.Int(fu.Len()))
			default:
				for _, l := range x.p.Leaves(f.Type()) {
					x.hstore(st, fk+l.path, l, r, x.zeroSort(l.sort))
				}
			}
		}
	case *types.Array:
		x.initElems(st, u.Elem(), r, x.tb.Int(u.Len()))
	default:
		for _, l := range x.p.Leaves(t) {
			x.hstore(st, "cell:"+elemKey(t)+l.path, l, r, x.zeroSort(l.sort))
		}
	}
}

func (x *Exec) initElems(st *State, et types.Type, r *Term, n *Term) {
	if isStruct(et) {
		if n.isInt() && n.c.IsInt64() && n.c.Int64() <= 16 {
			for i := int64(0); i < n.c.Int64(); i++ {
				x.initObj(st, et, x.tb.Elm(r, x.tb.Int(i)))
			}
			return
		}
		x.zeroElems(st, et, r)
		return
	}
	if at, ok := et.Underlying().(*types.Array); ok {
		if n.isInt() && n.c.IsInt64() && n.c.Int64() <= 16 {
			for i := int64(0); i < n.c.Int64(); i++ {
				x.initElems(st, at.Elem(), x.tb.Elm(r, x.tb.Int(i)), x.tb.Int(at.Len()))
			}
			return
		}
		x.notes["large array of arrays not initialised"] = true
		return
	}
	for _, l := range x.p.Leaves(et) {
		x.setMem(st, et, l, r, x.tb.ConstArr(SArr(SInt, l.sort), x.zeroSort(l.sort)))
	}
}

// all struct elements elm(r,i) zero: quantified facts on the current heap
func (x *Exec) zeroElems(st *State, et types.Type, r *Term) {
	i := x.tb.Var("?i", SInt)
	e := x.tb.Elm(r, i)
	v := x.loadStructNoFacts(st, et, e)
	for _, t := range v.L {
		z := x.zeroSort(t.sort)
		if t.op == OSelect {
			x.assume(st, x.tb.Quant(OForall, []*Term{i}, [][]*Term{{t}}, x.tb.Eq(t, z)))
		}
	}
}

func (x *Exec) loadStructNoFacts(st *State, t types.Type, ref *Term) Val {
	tmp := &State{heap: st.heap, epoch: epUnknown}
	return x.loadStruct(tmp, t, ref)
}

// ---------- branches

func (x *Exec) branch(st *State, fr *Frame, c *Term, bt, bf *ssa.BasicBlock) bool {
	tb := x.tb
	if c == tb.True {
		return x.goTo(st, fr, bt)
	}
	if c == tb.False {
		return x.goTo(st, fr, bf)
	}
	ft := x.feasible(st, c)
	if !ft {
		x.assume(st, tb.Not(c))
		return x.goTo(st, fr, bf)
	}
	ff := x.feasible(st, tb.Not(c))
	if !ff {
		x.assume(st, c)
		return x.goTo(st, fr, bt)
	}
	if x.merge {
		if j := x.joinOf(fr.block); j != nil {
			return x.mergeBranch(st, fr, c, bt, bf, j)
		}
	}
	o := st.clone()
	x.assume(o, tb.Not(c))
	ln := ""
	if len(fr.block.Instrs) > 0 {
		ln = x.condPos(fr.block)
	}
	o.trail += fmt.Sprintf(" !%s", ln)
	st.trail += fmt.Sprintf(" %s", ln)
	if x.goTo(o, o.top(), bf) && !o.dead {
		x.push(o)
	}
	x.assume(st, c)
	return x.goTo(st, fr, bt)
}

func (x *Exec) condPos(b *ssa.BasicBlock) string {
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p.IsValid() {
			q := x.p.fset.Position(p)
			return fmt.Sprintf("%s:%d", trimPath(q.Filename), q.Line)
		}
	}
	return b.String()
}

// fork st on condition c: returns states where c holds / does not hold (nil if infeasible)
func (x *Exec) split(st *State, c *Term) (yes, no *State) {
	tb := x.tb
	if c == tb.True {
		return st, nil
	}
	if c == tb.False {
		return nil, st
	}
	if !x.feasible(st, c) {
		x.assume(st, tb.Not(c))
		return nil, st
	}
	if !x.feasible(st, tb.Not(c)) {
		x.assume(st, c)
		return st, nil
	}
	no = st.clone()
	x.assume(no, tb.Not(c))
	x.assume(st, c)
	return st, no
}

// ---------- unary / loads

func (x *Exec) unop(st *State, fr *Frame, i *ssa.UnOp) bool {
	tb := x.tb
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok && !isRepo(g.Pkg.Pkg) {
			x.set(fr, i, x.extGlobal(st, g))
			return true
		} else if ok {
			if v, ok := x.globalInit(st, g); ok {
				x.set(fr, i, v)
				return true
			}
			x.globalElems(st, g)
		}
		p := x.val(st, fr, i.X)
		x.derefCheck(st, p.L[0], i.Pos(), fr)
		if st.dead {
			return false
		}
		x.set(fr, i, x.load(st, i.Type(), p.L[0]))
	case token.NOT:
		x.set(fr, i, Val{i.Type(), []*Term{tb.Not(x.val(st, fr, i.X).L[0])}})
	case token.SUB:
		v := x.val(st, fr, i.X)
		x.set(fr, i, Val{i.Type(), []*Term{x.wrap(st, tb.Neg(v.L[0]), i.Type())}})
	case token.XOR:
		v := x.val(st, fr, i.X)
		// ^v = -v-1 (signed); unsigned: max - v
		b := i.Type().Underlying().(*types.Basic)
		lo, hi, _ := intRange(b)
		if lo.Sign() == 0 {
			x.set(fr, i, Val{i.Type(), []*Term{tb.Sub(tb.Big(hi), v.L[0])}})
		} else {
			x.set(fr, i, Val{i.Type(), []*Term{tb.Sub(tb.Int(-1), v.L[0])}})
		}
	default:
		x.fail("unop %s", i.Op)
	}
	return true
}

// globals of other packages: constant, error sentinels are non-nil and pairwise distinct
func (x *Exec) extGlobal(st *State, g *ssa.Global) Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	x.trust("package-level variables of other packages are never reassigned (" + g.Pkg.Pkg.Path() + ")")
	v := Val{T: t}
	if types.Identical(t, tyError) {
		v.L = []*Term{x.tb.Int(int64(x.errTag())), x.tb.Fld(x.tb.Base(0, x.tb.Int(-3)), "g:"+g.String())}
		return v
	}
	for _, l := range x.p.Leaves(t) {
		tm := &Term{op: OVar, sort: l.sort, name: "ext:" + g.String() + l.path, lo: l.lo, hi: l.hi, maxEp: 0}
		v.L = append(v.L, x.tb.mk(tm))
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		x.assume(st, x.tb.Not(x.tb.Eq(v.L[0], x.tb.Null)))
	}
	x.typeFacts(st, v, 1)
	return v
}

// ---------- arithmetic

func (x *Exec) wrap(st *State, t *Term, ty types.Type) *Term {
	b, ok := ty.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	lo, hi, ok := intRange(b)
	if !ok {
		return t
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
		return t
	}
	tb := x.tb
	if t.op == OApp {
		if n, sg := leSize(t.name); n > 0 && n == binSize(ty) && sg != (lo.Sign() < 0) {
			return tb.App(leName(n, !sg), SInt, t.args[0], t.args[1])
		} else if n == 8 && b.Kind() == types.Int {
			return tb.App(leName(n, true), SInt, t.args[0], t.args[1])
		} else if n == 8 && b.Kind() == types.Uint {
			return tb.App(leName(n, false), SInt, t.args[0], t.args[1])
		}
	}
	if st != nil && x.entails(st, tb.And(tb.Le(tb.Big(lo), t), tb.Le(t, tb.Big(hi)))) {
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), bi(1))
	if lo.Sign() == 0 {
		return tb.Mod(t, m)
	}
	// values within one wrap of the range: prefer ite form for small ranges
	if t.lo != nil && t.hi != nil && t.lo.Sign() >= 0 && t.hi.Cmp(m) < 0 {
		return tb.Ite(tb.Le(t, tb.Big(hi)), t, tb.Sub(t, tb.Big(m)))
	}
	return tb.Add(tb.Mod(tb.Sub(t, tb.Big(lo)), m), tb.Big(lo))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, rt types.Type, p token.Pos) Val {
	tb := x.tb
	r := func(t *Term) Val { return Val{rt, []*Term{t}} }
	switch op {
	case token.EQL:
		return r(x.eqVal(st, a, b))
	case token.NEQ:
		return r(tb.Not(x.eqVal(st, a, b)))
	}
	if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return r(tb.App("bcat", SBlob, a.L[0], b.L[0]))
		case token.LSS:
			return r(tb.App("strlt", SBool, a.L[0], b.L[0]))
		case token.GTR:
			return r(tb.App("strlt", SBool, b.L[0], a.L[0]))
		case token.LEQ:
			return r(tb.Not(tb.App("strlt", SBool, b.L[0], a.L[0])))
		case token.GEQ:
			return r(tb.Not(tb.App("strlt", SBool, a.L[0], b.L[0])))
		}
	}
	if bt, ok := a.T.Underlying().(*types.Basic); ok && bt.Info()&(types.IsFloat|types.IsComplex) != 0 {
		l := x.p.Leaves(rt)
		return r(tb.Fresh("float", l[0].sort))
	}
	u, v := a.L[0], b.L[0]
	switch op {
	case token.LSS:
		return r(tb.Lt(u, v))
	case token.LEQ:
		return r(tb.Le(u, v))
	case token.GTR:
		return r(tb.Gt(u, v))
	case token.GEQ:
		return r(tb.Ge(u, v))
	case token.ADD:
		return r(x.wrap(st, tb.Add(u, v), rt))
	case token.SUB:
		return r(x.wrap(st, tb.Sub(u, v), rt))
	case token.MUL:
		return r(x.wrap(st, tb.Mul(u, v), rt))
	case token.QUO, token.REM:
		return r(x.divide(st, op, u, v, rt, p))
	case token.AND:
		return r(x.bitAnd(st, u, v, rt))
	case token.OR:
		return r(x.bitOr(st, u, v, rt))
	case token.XOR:
		if u.isInt() && v.isInt() {
			return r(tb.Big(new(big.Int).Xor(u.c, v.c)))
		}
		return r(x.bitOpaque(st, "bxor", u, v, rt))
	case token.AND_NOT:
		if v.isInt() {
			lo, hi, _ := intRange(rt.Underlying().(*types.Basic))
			_ = lo
			var nv *big.Int
			if v.c.Sign() >= 0 && lo.Sign() == 0 {
				nv = new(big.Int).AndNot(hi, v.c)
			} else {
				nv = new(big.Int).Not(v.c)
			}
			return r(x.bitAnd(st, u, tb.Big(nv), rt))
		}
		return r(x.bitOpaque(st, "bandnot", u, v, rt))
	case token.SHL:
		if v.isInt() && v.c.IsInt64() && v.c.Int64() < 128 {
			return r(x.wrap(st, tb.MulC(u, new(big.Int).Lsh(bi(1), uint(v.c.Int64()))), rt))
		}
		x.shiftCheck(st, v, p)
		t := tb.App("shl", SInt, u, v)
		return r(x.wrap(st, t, rt))
	case token.SHR:
		if v.isInt() && v.c.IsInt64() && v.c.Int64() < 128 {
			return r(tb.Div(u, new(big.Int).Lsh(bi(1), uint(v.c.Int64()))))
		}
		x.shiftCheck(st, v, p)
		t := tb.App("shr", SInt, u, v)
		x.rangeFact(st, t, rt)
		x.assume(st, tb.Implies(tb.Le(tb.Int(0), u), tb.And(tb.Le(tb.Int(0), t), tb.Le(t, u))))
		return r(t)
	}
	x.fail("binop %s", op)
	return Val{}
}

func (x *Exec) shiftCheck(st *State, v *Term, p token.Pos) {
	x.oblige(st, "panic", "negative shift amount", x.pos(p), nil, x.tb.Le(x.tb.Int(0), v))
}

func (x *Exec) rangeFact(st *State, t *Term, ty types.Type) {
	lo, hi, ok := intRange(ty.Underlying().(*types.Basic))
	if ok {
		x.assume(st, x.tb.And(x.tb.Le(x.tb.Big(lo), t), x.tb.Le(t, x.tb.Big(hi))))
	}
}

func (x *Exec) bitOpaque(st *State, f string, u, v *Term, rt types.Type) *Term {
	t := x.tb.App(f, SInt, u, v)
	x.rangeFact(st, t, rt)
	return t
}

func (x *Exec) bitAnd(st *State, u, v *Term, rt types.Type) *Term {
	tb := x.tb
	if u.isInt() && !v.isInt() {
		u, v = v, u
	}
	if v.isInt() {
		m := v.c
		if u.isInt() {
			return tb.Big(new(big.Int).And(u.c, m))
		}
		if m.Sign() == 0 {
			return tb.Int(0)
		}
		if m.Sign() < 0 { // u & ~k  = u - (u & k)
			k := new(big.Int).Not(m)
			return tb.Sub(u, x.bitAnd(st, u, tb.Big(k), rt))
		}
		// sum over runs of ones
		var parts []*Term
		i := 0
		runs := 0
		for i < m.BitLen() {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			runs++
			w := new(big.Int).Lsh(bi(1), uint(j-i))
			parts = append(parts, tb.MulC(tb.Mod(tb.Div(u, new(big.Int).Lsh(bi(1), uint(i))), w), new(big.Int).Lsh(bi(1), uint(i))))
			i = j
		}
		if runs <= 4 {
			return tb.Add(parts...)
		}
	}
	if u == v {
		return u
	}
	if u.id > v.id {
		u, v = v, u
	}
	t := x.bitOpaque(st, "band", u, v, rt)
	x.assume(st, tb.Implies(tb.And(tb.Le(tb.Int(0), u), tb.Le(tb.Int(0), v)), tb.And(tb.Le(tb.Int(0), t), tb.Le(t, u), tb.Le(t, v))))
	return t
}

func (x *Exec) bitOr(st *State, u, v *Term, rt types.Type) *Term {
	tb := x.tb
	if u.isInt() && v.isInt() {
		return tb.Big(new(big.Int).Or(u.c, v.c))
	}
	if u.isInt() && u.c.Sign() == 0 {
		return v
	}
	if v.isInt() && v.c.Sign() == 0 {
		return u
	}
	if u == v {
		return u
	}
	disjoint := func(a, b *Term) bool { // b multiple of 2^k, 0<=a<2^k
		if b.align == 0 {
			return false
		}
		k := new(big.Int).Lsh(bi(1), b.align)
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(k) < 0 {
			return true
		}
		return x.entails(st, tb.And(tb.Le(tb.Int(0), a), tb.Lt(a, tb.Big(k))))
	}
	if disjoint(u, v) || disjoint(v, u) {
		return tb.Add(u, v)
	}
	if u.id > v.id {
		u, v = v, u
	}
	t := x.bitOpaque(st, "bor", u, v, rt)
	x.assume(st, tb.Implies(tb.And(tb.Le(tb.Int(0), u), tb.Le(tb.Int(0), v)), tb.And(tb.Le(u, t), tb.Le(v, t), tb.Le(t, tb.Add(u, v)))))
	x.assume(st, tb.Implies(tb.Lt(u, tb.Int(0)), tb.And(tb.Lt(t, tb.Int(0)), tb.Le(u, t))))
	x.assume(st, tb.Implies(tb.Lt(v, tb.Int(0)), tb.And(tb.Lt(t, tb.Int(0)), tb.Le(v, t))))
	return t
}

// Go truncated division
func (x *Exec) divide(st *State, op token.Token, u, v *Term, rt types.Type, p token.Pos) *Term {
	tb := x.tb
	x.oblige(st, "panic", "integer divide by zero", x.pos(p), nil, tb.Not(tb.Eq(v, tb.Int(0))))
	if v.isInt() && v.c.Sign() > 0 {
		if u.lo != nil && u.lo.Sign() >= 0 || x.entails(st, tb.Le(tb.Int(0), u)) {
			if op == token.QUO {
				return tb.Div(u, v.c)
			}
			return tb.Mod(u, v.c)
		}
		// trunc: u>=0 ? u div v : -((-u) div v)
		q := tb.Ite(tb.Le(tb.Int(0), u), tb.Div(u, v.c), tb.Neg(tb.Div(tb.Neg(u), v.c)))
		if op == token.QUO {
			return q
		}
		return tb.Ite(tb.Le(tb.Int(0), u), tb.Mod(u, v.c), tb.Neg(tb.Mod(tb.Neg(u), v.c)))
	}
	if op == token.QUO {
		t := tb.App("gdiv", SInt, u, v)
		x.rangeFact(st, t, rt)
		x.assume(st, tb.Implies(tb.And(tb.Le(tb.Int(0), u), tb.Lt(tb.Int(0), v)),
			tb.And(tb.Le(tb.Mul(t, v), u), tb.Lt(u, tb.Add(tb.Mul(t, v), v)), tb.Le(tb.Int(0), t), tb.Le(t, u))))
		return t
	}
	t := tb.App("gmod", SInt, u, v)
	x.rangeFact(st, t, rt)
	x.assume(st, tb.Implies(tb.And(tb.Le(tb.Int(0), u), tb.Lt(tb.Int(0), v)), tb.And(tb.Le(tb.Int(0), t), tb.Lt(t, v), tb.Le(t, u))))
	return t
}

func isNilConst(v Val) bool {
	for _, l := range v.L {
		if !(l.op == ONull || l.isInt() && l.c.Sign() == 0) {
			return false
		}
	}
	return true
}

func (x *Exec) eqVal(st *State, a, b Val) *Term {
	tb := x.tb
	switch u := a.T.Underlying().(type) {
	case *types.Slice: // comparison with nil only
		if isNilConst(b) {
			return tb.Eq(a.L[0], tb.Null)
		}
		return tb.Eq(b.L[0], tb.Null)
	case *types.Interface:
		if _, ok := b.T.Underlying().(*types.Interface); !ok {
			b = x.makeIface(st, b, a.T)
		}
		if isNilConst(b) {
			return tb.Eq(a.L[0], tb.Int(0))
		}
		if isNilConst(a) {
			return tb.Eq(b.L[0], tb.Int(0))
		}
		return tb.And(tb.Eq(a.L[0], b.L[0]), tb.Eq(a.L[1], b.L[1]))
	case *types.Array:
		var cs []*Term
		if u.Len() <= 64 {
			for k := int64(0); k < u.Len(); k++ {
				for j := range a.L {
					cs = append(cs, tb.Eq(tb.Select(a.L[j], tb.Int(k)), tb.Select(b.L[j], tb.Int(k))))
				}
			}
			return tb.And(cs...)
		}
		x.fail("array comparison")
	}
	if _, ok := b.T.Underlying().(*types.Interface); ok {
		a = x.makeIface(st, a, b.T)
		return x.eqVal(st, a, b)
	}
	var cs []*Term
	for i := range a.L {
		cs = append(cs, tb.Eq(a.L[i], b.L[i]))
	}
	return tb.And(cs...)
}

func (x *Exec) convert(st *State, v Val, t types.Type) Val {
	tb := x.tb
	from, to := v.T.Underlying(), t.Underlying()
	fb, fok := from.(*types.Basic)
	tbas, tok := to.(*types.Basic)
	if fok && tok {
		if fb.Info()&types.IsInteger != 0 && tbas.Info()&types.IsInteger != 0 {
			return Val{t, []*Term{x.wrap(st, v.L[0], t)}}
		}
		if fb.Info()&types.IsString != 0 && tbas.Info()&types.IsString != 0 {
			return Val{t, v.L}
		}
		if fb.Info()&types.IsInteger != 0 && tbas.Info()&types.IsString != 0 {
			return Val{t, []*Term{tb.App("runestr", SBlob, v.L[0])}}
		}
		// floats
		l := x.p.Leaves(t)
		f := tb.Fresh("float", l[0].sort)
		if tbas.Info()&types.IsInteger != 0 {
			x.rangeFact(st, f, t)
		}
		return Val{t, []*Term{f}}
	}
	if fs, ok := from.(*types.Slice); ok && tok && tbas.Info()&types.IsString != 0 {
		if elemKey(fs.Elem()) == "uint8" {
			return Val{t, []*Term{x.contentOf(st, v)}}
		}
		return Val{t, []*Term{tb.Fresh("str", SBlob)}}
	}
	if fok && fb.Info()&types.IsString != 0 {
		if ts, ok := to.(*types.Slice); ok {
			if elemKey(ts.Elem()) == "uint8" {
				r := x.bytesFromBlob(st, v.L[0])
				r.T = t
				return r
			}
			n := tb.Fresh("runes", SInt)
			x.assume(st, tb.And(tb.Le(tb.Int(0), n), tb.Le(n, tb.App("blen", SInt, v.L[0]))))
			r := x.alloc(st)
			et := ts.Elem()
			for _, l := range x.p.Leaves(et) {
				x.setMem(st, et, l, r, tb.Fresh("runearr", SArr(SInt, l.sort)))
			}
			return Val{t, []*Term{r, tb.Int(0), n, n}}
		}
	}
	if len(x.p.Leaves(t)) == len(v.L) {
		return Val{t, v.L}
	}
	x.fail("convert %s -> %s", v.T, t)
	return Val{}
}

// ---------- interfaces

func (x *Exec) makeIface(st *State, v Val, it types.Type) Val {
	tb := x.tb
	tag := tb.Int(int64(x.p.Tag(v.T)))
	switch u := v.T.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Val{it, []*Term{tag, v.L[0]}}
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			return Val{it, []*Term{tb.Int(0), tb.Null}}
		}
		switch v.L[0].sort {
		case SInt:
			return Val{it, []*Term{tag, tb.BxI(v.L[0])}}
		case SBlob:
			return Val{it, []*Term{tag, tb.BxB(v.L[0])}}
		case SBool:
			return Val{it, []*Term{tag, tb.BxI(tb.Ite(v.L[0], tb.Int(1), tb.Int(0)))}}
		}
	case *types.Interface:
		return Val{it, v.L}
	}
	r := x.alloc(st)
	x.store(st, v.T, r, v.L)
	return Val{it, []*Term{tag, r}}
}

// value of dynamic type t held by interface v
func (x *Exec) unbox(st *State, v Val, t types.Type) Val {
	tb := x.tb
	ref := v.L[1]
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		r := Val{t, []*Term{ref}}
		x.typeFacts(st, r, 1)
		return r
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if ref.op == OBxI {
				return Val{t, []*Term{tb.Eq(ref.args[0], tb.Int(1))}}
			}
			return Val{t, []*Term{tb.Eq(tb.App("bxiv", SInt, ref), tb.Int(1))}}
		case u.Info()&types.IsString != 0:
			if ref.op == OBxB {
				return Val{t, []*Term{ref.args[0]}}
			}
			return Val{t, []*Term{tb.App("bxbv", SBlob, ref)}}
		default:
			if ref.op == OBxI {
				return Val{t, []*Term{ref.args[0]}}
			}
			r := Val{t, []*Term{tb.App("bxiv", SInt, ref)}}
			x.typeFacts(st, r, 0)
			return r
		}
	}
	return x.load(st, t, ref)
}

func (x *Exec) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) bool {
	tb := x.tb
	v := x.val(st, fr, i.X)
	if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
		// to interface
		var c *Term
		if it.NumMethods() == 0 {
			c = tb.Not(tb.Eq(v.L[0], tb.Int(0)))
		} else if v.L[0].isInt() {
			if v.L[0].c.Sign() == 0 {
				c = tb.False
			} else if dt := x.p.TagType(int(v.L[0].c.Int64())); dt != nil {
				c = tb.Bool(types.Implements(dt, it))
			}
		}
		if c == nil {
			c = tb.And(tb.Not(tb.Eq(v.L[0], tb.Int(0))), tb.App("implements:"+typeKey(i.AssertedType), SBool, v.L[0]))
		}
		if i.CommaOk {
			ok := c
			x.set(fr, i, Val{i.Type(), []*Term{tb.Ite(ok, v.L[0], tb.Int(0)), tb.Ite(ok, v.L[1], tb.Null), ok}})
			return true
		}
		x.oblige(st, "panic", "interface conversion", x.pos(i.Pos()), nil, c)
		x.set(fr, i, Val{i.Type(), v.L})
		return true
	}
	c := tb.Eq(v.L[0], tb.Int(int64(x.p.Tag(i.AssertedType))))
	if !i.CommaOk {
		x.oblige(st, "panic", "type assertion", x.pos(i.Pos()), nil, c)
		if st.dead {
			return false
		}
		x.set(fr, i, Val{i.Type(), x.unbox(st, v, i.AssertedType).L})
		return true
	}
	yes, no := x.split(st, c)
	if no != nil {
		z := x.zero(i.AssertedType)
		no.top().env[i] = Val{i.Type(), append(append([]*Term{}, z.L...), tb.False)}
		if yes == nil {
			return true
		}
		x.push(no)
	}
	if yes != nil {
		u := x.unbox(yes, v, i.AssertedType)
		yes.top().env[i] = Val{i.Type(), append(append([]*Term{}, u.L...), tb.True)}
	}
	return true
}

// ---------- indexing, slicing

func (x *Exec) index(st *State, fr *Frame, i *ssa.Index) bool {
	v := x.val(st, fr, i.X)
	idx := x.val(st, fr, i.Index).L[0]
	tb := x.tb
	if at, ok := i.X.Type().Underlying().(*types.Array); ok {
		x.oblige(st, "panic", "index out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Int(at.Len()))))
		r := Val{T: i.Type()}
		for _, a := range v.L {
			r.L = append(r.L, tb.Select(a, idx))
		}
		x.set(fr, i, r)
		return true
	}
	// string
	x.oblige(st, "panic", "index out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.App("blen", SInt, v.L[0]))))
	x.set(fr, i, Val{i.Type(), []*Term{tb.App("bat", SInt, v.L[0], idx)}})
	return true
}

func (x *Exec) indexAddr(st *State, fr *Frame, i *ssa.IndexAddr) bool {
	tb := x.tb
	v := x.val(st, fr, i.X)
	idx := x.val(st, fr, i.Index).L[0]
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		x.oblige(st, "panic", "index out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, v.L[2])))
		if st.dead {
			return false
		}
		x.set(fr, i, Val{i.Type(), []*Term{tb.Elm(v.L[0], tb.Add(v.L[1], idx))}})
	case *types.Pointer: // to array
		at := u.Elem().Underlying().(*types.Array)
		if g, ok := i.X.(*ssa.Global); ok {
			x.globalElems(st, g)
		}
		x.derefCheck(st, v.L[0], i.Pos(), fr)
		x.oblige(st, "panic", "index out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), idx), tb.Lt(idx, tb.Int(at.Len()))))
		if st.dead {
			return false
		}
		x.set(fr, i, Val{i.Type(), []*Term{tb.Elm(v.L[0], idx)}})
	default:
		x.fail("indexaddr %s", i.X.Type())
	}
	return true
}

func (x *Exec) slice(st *State, fr *Frame, i *ssa.Slice) bool {
	tb := x.tb
	v := x.val(st, fr, i.X)
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return x.val(st, fr, s).L[0]
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = tb.Int(0)
	}
	var ref, off, ln, cp *Term
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		n := tb.App("blen", SInt, v.L[0])
		if hi == nil {
			hi = n
		}
		x.oblige(st, "panic", "slice bounds out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, n)))
		if st.dead {
			return false
		}
		x.set(fr, i, Val{i.Type(), []*Term{x.substr(v.L[0], lo, hi)}})
		return true
	case *types.Slice:
		ref, off, ln, cp = v.L[0], v.L[1], v.L[2], v.L[3]
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		x.derefCheck(st, v.L[0], i.Pos(), fr)
		ref, off, ln, cp = v.L[0], tb.Int(0), tb.Int(at.Len()), tb.Int(at.Len())
	default:
		x.fail("slice of %s", i.X.Type())
	}
	if hi == nil {
		hi = ln
	}
	lim := cp
	if mx != nil {
		lim = mx
		x.oblige(st, "panic", "slice bounds out of range", x.pos(i.Pos()), nil, tb.Le(mx, cp))
	}
	x.oblige(st, "panic", "slice bounds out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), lo), tb.Le(lo, hi), tb.Le(hi, lim)))
	if st.dead {
		return false
	}
	x.set(fr, i, Val{i.Type(), []*Term{ref, tb.Add(off, lo), tb.Sub(hi, lo), tb.Sub(lim, lo)}})
	return true
}

func (x *Exec) substr(s, lo, hi *Term) *Term {
	tb := x.tb
	if str, ok := tb.litStr(s); ok && lo.isInt() && hi.isInt() {
		a, b := lo.c.Int64(), hi.c.Int64()
		if 0 <= a && a <= b && b <= int64(len(str)) {
			return tb.StrLit(str[a:b])
		}
	}
	if s.op == OApp && s.name == "content" {
		return tb.App("content", SBlob, s.args[0], tb.Add(s.args[1], lo), tb.Sub(hi, lo))
	}
	return tb.App("content", SBlob, tb.App("bytesOf", SArr(SInt, SInt), s), lo, tb.Sub(hi, lo))
}

// ---------- maps

func (x *Exec) mapKeys(mt *types.Map) (prefix string, ks *Sort, vl []Leaf) {
	kl := x.p.Leaves(mt.Key())
	if len(kl) != 1 {
		x.fail("map key type %s", mt.Key())
	}
	return "map:" + elemKey(mt.Key()) + ":" + elemKey(mt.Elem()), kl[0].sort, x.p.Leaves(mt.Elem())
}

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	p, ks, _ := x.mapKeys(mt)
	return x.hload(st, p+"#dom", Leaf{"", SArr(ks, SBool), nil, nil}, m)
}
func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	p, ks, _ := x.mapKeys(mt)
	n := x.hload(st, p+"#len", Leaf{"", SInt, bi(0), maxLen}, m)
	x.assume(st, x.tb.Le(x.tb.Int(0), n))
	// len == 0 <=> no key
	d := x.mapDom(st, mt, m)
	k := x.tb.Var("?k"+ks.k, ks)
	sel := x.tb.Select(d, k)
	if !n.isInt() {
		x.assume(st, x.tb.Implies(x.tb.Eq(n, x.tb.Int(0)), x.tb.Quant(OForall, []*Term{k}, [][]*Term{{sel}}, x.tb.Not(sel))))
		w := x.tb.App("mapwit"+ks.k, ks, d)
		x.assume(st, x.tb.Implies(x.tb.Lt(x.tb.Int(0), n), x.tb.Select(d, w)))
	}
	return n
}

func (x *Exec) mapVal(st *State, mt *types.Map, m, k *Term) Val {
	p, ks, vl := x.mapKeys(mt)
	v := Val{T: mt.Elem()}
	for _, l := range vl {
		a := x.hload(st, p+"#val"+l.path, Leaf{"", SArr(ks, l.sort), l.lo, l.hi}, m)
		v.L = append(v.L, x.tb.Select(a, k))
	}
	return v
}

func (x *Exec) initMap(st *State, mt *types.Map, m *Term) {
	p, ks, _ := x.mapKeys(mt)
	x.hstore(st, p+"#dom", Leaf{"", SArr(ks, SBool), nil, nil}, m, x.tb.ConstArr(SArr(ks, SBool), x.tb.False))
	x.hstore(st, p+"#len", Leaf{"", SInt, bi(0), maxLen}, m, x.tb.Int(0))
}

func (x *Exec) mapStore(st *State, mt *types.Map, m *Term, k, v Val) {
	tb := x.tb
	p, ks, vl := x.mapKeys(mt)
	kk := k.L[0]
	d := x.mapDom(st, mt, m)
	n := x.hload(st, p+"#len", Leaf{"", SInt, bi(0), maxLen}, m)
	in := tb.Select(d, kk)
	x.assume(st, tb.Implies(in, tb.Lt(tb.Int(0), n)))
	x.hstore(st, p+"#len", Leaf{"", SInt, bi(0), maxLen}, m, tb.Ite(in, n, tb.Add(n, tb.Int(1))))
	x.hstore(st, p+"#dom", Leaf{"", SArr(ks, SBool), nil, nil}, m, tb.Store(d, kk, tb.True))
	for j, l := range vl {
		ml := Leaf{"", SArr(ks, l.sort), l.lo, l.hi}
		a := x.hload(st, p+"#val"+l.path, ml, m)
		x.hstore(st, p+"#val"+l.path, ml, m, tb.Store(a, kk, v.L[j]))
	}
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m *Term, k Val) {
	tb := x.tb
	p, ks, _ := x.mapKeys(mt)
	kk := k.L[0]
	d := x.mapDom(st, mt, m)
	n := x.hload(st, p+"#len", Leaf{"", SInt, bi(0), maxLen}, m)
	in := tb.Select(d, kk)
	x.assume(st, tb.Implies(in, tb.Lt(tb.Int(0), n)))
	x.assume(st, tb.Le(tb.Int(0), n))
	x.hstore(st, p+"#len", Leaf{"", SInt, bi(0), maxLen}, m, tb.Ite(in, tb.Sub(n, tb.Int(1)), n))
	x.hstore(st, p+"#dom", Leaf{"", SArr(ks, SBool), nil, nil}, m, tb.Store(d, kk, tb.False))
}

func (x *Exec) mapGet(st *State, mt *types.Map, m *Term, k Val) (Val, *Term) {
	tb := x.tb
	if m == tb.Null {
		return x.zero(mt.Elem()), tb.False
	}
	in := tb.Select(x.mapDom(st, mt, m), k.L[0])
	if !(m.op == OBase) {
		in = tb.And(tb.Not(tb.Eq(m, tb.Null)), in)
	}
	v := x.mapVal(st, mt, m, k.L[0])
	z := x.zero(mt.Elem())
	r := Val{T: mt.Elem()}
	for j := range v.L {
		r.L = append(r.L, tb.Ite(in, v.L[j], z.L[j]))
	}
	x.typeFacts(st, r, 1)
	return r, in
}

func (x *Exec) lookup(st *State, fr *Frame, i *ssa.Lookup) bool {
	tb := x.tb
	m := x.val(st, fr, i.X)
	k := x.val(st, fr, i.Index)
	mt, ok := i.X.Type().Underlying().(*types.Map)
	if !ok { // string index
		x.oblige(st, "panic", "index out of range", x.pos(i.Pos()), nil, tb.And(tb.Le(tb.Int(0), k.L[0]), tb.Lt(k.L[0], tb.App("blen", SInt, m.L[0]))))
		if st.dead {
			return false
		}
		x.set(fr, i, Val{i.Type(), []*Term{tb.App("bat", SInt, m.L[0], k.L[0])}})
		return true
	}
	v, in := x.mapGet(st, mt, m.L[0], k)
	if i.CommaOk {
		x.set(fr, i, Val{i.Type(), append(append([]*Term{}, v.L...), in)})
	} else {
		x.set(fr, i, Val{i.Type(), v.L})
	}
	return true
}

// range over map or string
func (x *Exec) rangeOver(st *State, fr *Frame, i *ssa.Range) bool {
	v := x.val(st, fr, i.X)
	it := x.alloc(st)
	switch u := i.X.Type().Underlying().(type) {
	case *types.Map:
		_, ks, _ := x.mapKeys(u)
		x.hstore(st, "iter:"+ks.k, Leaf{"", SArr(ks, SBool), nil, nil}, it, x.tb.ConstArr(SArr(ks, SBool), x.tb.False))
	default:
		x.hstore(st, "iter:str", Leaf{"", SInt, bi(0), maxLen}, it, x.tb.Int(0))
	}
	x.set(fr, i, Val{i.Type(), []*Term{it}})
	_ = v
	return true
}

func (x *Exec) next(st *State, fr *Frame, i *ssa.Next) bool {
	tb := x.tb
	rg := i.Iter.(*ssa.Range)
	it := x.val(st, fr, i.Iter).L[0]
	coll := x.val(st, fr, rg.X)
	tt := i.Type().(*types.Tuple)
	if i.IsString {
		pos := x.hload(st, "iter:str", Leaf{"", SInt, bi(0), maxLen}, it)
		n := tb.App("blen", SInt, coll.L[0])
		yes, no := x.split(st, tb.Lt(pos, n))
		if no != nil {
			no.top().env[i] = Val{tt, []*Term{tb.False, tb.Int(0), tb.Int(0)}}
			if yes == nil {
				return true
			}
			x.push(no)
		}
		c := tb.App("bat", SInt, coll.L[0], pos)
		r := tb.FreshRange("rune", bi(0), bi(0x10ffff))
		w := tb.FreshRange("runew", bi(1), bi(4))
		x.assume(yes, tb.Implies(tb.Lt(c, tb.Int(128)), tb.And(tb.Eq(r, c), tb.Eq(w, tb.Int(1)))))
		x.assume(yes, tb.Implies(tb.Ge(c, tb.Int(128)), tb.Ge(r, tb.Int(128))))
		x.assume(yes, tb.Le(tb.Add(pos, w), n))
		x.hstore(yes, "iter:str", Leaf{"", SInt, bi(0), maxLen}, it, tb.Add(pos, w))
		yes.top().env[i] = Val{tt, []*Term{tb.True, pos, r}}
		return true
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	_, ks, _ := x.mapKeys(mt)
	il := Leaf{"", SArr(ks, SBool), nil, nil}
	vis := x.hload(st, "iter:"+ks.k, il, it)
	m := coll.L[0]
	dom := x.mapDom(st, mt, m)
	// done
	done := st.clone()
	k := tb.Var("?k"+ks.k, ks)
	sd, sv := tb.Select(dom, k), tb.Select(vis, k)
	{
		q := tb.Quant(OForall, []*Term{k}, [][]*Term{{sd}}, tb.Or(tb.Not(sd), sv))
		if m.op != OBase {
			q = tb.Or(tb.Eq(m, tb.Null), q)
		}
		x.assume(done, q)
		for _, gk := range x.mapLitKeys(dom) { // ground instances for explicitly stored keys
			x.assume(done, tb.Or(tb.Not(tb.Select(dom, gk)), tb.Select(vis, gk), tb.Eq(m, tb.Null)))
		}
	}
	z := Val{tt, []*Term{tb.False}}
	for j := 1; j < tt.Len(); j++ {
		z.L = append(z.L, x.zero(tt.At(j).Type()).L...)
	}
	done.top().env[i] = z
	if !done.dead && x.qf.Check(done.facts, nil, 400) != Unsat {
		x.push(done)
	}
	// another key
	kv := x.freshVal(st, "key", mt.Key())
	x.assume(st, tb.And(tb.Not(tb.Eq(m, tb.Null)), tb.Select(dom, kv.L[0]), tb.Not(tb.Select(vis, kv.L[0]))))
	if x.qf.Check(st.facts, nil, 400) == Unsat {
		return false
	}
	x.hstore(st, "iter:"+ks.k, il, it, tb.Store(vis, kv.L[0], tb.True))
	v := x.mapVal(st, mt, m, kv.L[0])
	x.typeFacts(st, v, 1)
	r := Val{tt, []*Term{tb.True}}
	for j := 1; j < tt.Len(); j++ {
		n := len(x.p.Leaves(tt.At(j).Type()))
		if j == 1 {
			if len(kv.L) == n {
				r.L = append(r.L, kv.L...)
			} else {
				r.L = append(r.L, x.zero(tt.At(j).Type()).L...)
			}
		} else if len(v.L) == n {
			r.L = append(r.L, v.L...)
		} else {
			r.L = append(r.L, x.zero(tt.At(j).Type()).L...)
		}
	}
	fr.env[i] = r
	return true
}

func (x *Exec) mapLitKeys(dom *Term) []*Term {
	var r []*Term
	for dom.op == OStore && len(r) < 64 {
		r = append(r, dom.args[1])
		dom = dom.args[0]
	}
	return r
}

// ---------- returns, defers

func (x *Exec) doReturn(st *State, fr *Frame, res []*Term) bool {
	for _, c := range fr.cuts {
		if !c.exit(st) {
			return false
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if fr.onRet != nil {
		return fr.onRet(st, res)
	}
	if len(st.frames) == 0 {
		if !st.dead {
			x.paths++
			x.retEnv = fr.env
			x.onReturn(st, res)
		}
		return false
	}
	if fr.inDefer {
		return true
	}
	if fr.retVal != nil {
		st.top().env[fr.retVal] = Val{fr.retVal.Type(), res}
	}
	return true
}

func (x *Exec) runDefers(st *State, fr *Frame) bool {
	if len(fr.defers) == 0 {
		return true
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	fr.pc-- // re-run RunDefers afterwards
	return x.callDeferred(st, fr, d)
}

// ---------- calls

type CallCtx struct {
	x      *Exec
	fr     *Frame
	common *ssa.CallCommon
	pos    token.Pos
	ret    ssa.Value // may be nil
	rt     types.Type
	name   string
	argT   []types.Type
}

func resultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, ret *ssa.Call) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, fr, b, c, ret)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	if c.IsInvoke() {
		return x.invoke(st, fr, x.val(st, fr, c.Value), c.Method, args, c.Value.Type(), ret, ret.Pos())
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			if cl := x.closures[x.val(st, fr, mc).L[0]]; cl != nil {
				binds = cl.binds
			}
		}
		return x.callFunc(st, f, args, binds, ret, ret.Pos())
	}
	return x.callValue(st, fr, x.val(st, fr, c.Value), args, c.Signature(), ret, ret.Pos())
}

func (x *Exec) callValue(st *State, fr *Frame, fv Val, args []Val, sig *types.Signature, ret ssa.Value, pos token.Pos) bool {
	t := fv.L[0]
	if cl := x.closures[t]; cl != nil {
		return x.callFunc(st, cl.fn, args, cl.binds, ret, pos)
	}
	if t.op == OIte {
		yes, no := x.split(st, t.args[0])
		if no != nil && yes != nil {
			// re-execute in the other state
			nf := no.top()
			if x.callValue(no, nf, Val{fv.T, []*Term{t.args[2]}}, args, sig, ret, pos) {
				x.push(no)
			}
		} else if no != nil {
			return x.callValue(no, no.top(), Val{fv.T, []*Term{t.args[2]}}, args, sig, ret, pos)
		}
		return x.callValue(yes, yes.top(), Val{fv.T, []*Term{t.args[1]}}, args, sig, ret, pos)
	}
	// a function read from a map of known functions (ite/store chains): candidates
	if cands := x.funcCands(t); len(cands) > 0 {
		rest := st
		for _, c := range cands {
			if rest == nil {
				break
			}
			var yes *State
			yes, rest = x.split(rest, x.tb.Eq(t, c))
			if yes != nil {
				if x.callValue(yes, yes.top(), Val{fv.T, []*Term{c}}, args, sig, ret, pos) {
					x.push(yes)
				}
			}
		}
		if rest == nil {
			return false
		}
		x.unknownCall(rest, t, args, sig, ret, pos)
		return false
	}
	x.unknownCall(st, t, args, sig, ret, pos)
	return false
}

// call through a function value nothing is known about (the continuation is queued)
func (x *Exec) unknownCall(st *State, t *Term, args []Val, sig *types.Signature, ret ssa.Value, pos token.Pos) {
	x.oblige(st, "panic", "call of nil function", x.pos(pos), nil, x.tb.Not(x.tb.Eq(t, x.tb.Null)))
	x.trust("calls through unknown function values return arbitrary results and modify nothing")
	st.epoch++
	v := x.freshVal(st, "fnres", resultType(sig))
	st.epoch++
	// func(content []byte, hasher hash.Hash) error: the outcome gets a name, the hasher is written
	if d := x.tb.funs["G:calledOK"]; d != nil && len(args) == 2 && len(v.L) == 2 && x.namedIs(args[1].T, "hash.Hash") && sig.Results().Len() == 1 {
		if sl, ok := args[0].T.Underlying().(*types.Slice); ok && elemKey(sl.Elem()) == "uint8" {
			h := args[1].L[1]
			x.assume(st, x.tb.Iff(x.tb.Eq(v.L[0], x.tb.Int(0)), x.tb.App("G:calledOK", SBool, t, x.contentOf(st, args[0]), x.ghost(st, "halg", h), x.ghost(st, "hout", h))))
			x.setGhost(st, "hout", h, x.tb.Fresh("hout", SBlob))
		}
	}
	if x.finish(st, ret, v) {
		x.push(st)
	}
}

func (x *Exec) funcCands(t *Term) []*Term {
	var r []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term, d int)
	walk = func(t *Term, d int) {
		if d > 200 || seen[t] {
			return
		}
		seen[t] = true
		if _, ok := x.closures[t]; ok {
			r = append(r, t)
			return
		}
		switch t.op {
		case OSelect:
			for _, c := range x.initFuncs[t.args[1]] {
				if !seen[c] {
					seen[c] = true
					r = append(r, c)
				}
			}
			walk(t.args[0], d+1)
		case OStore:
			walk(t.args[0], d+1)
			walk(t.args[2], d+1)
		case OIte:
			walk(t.args[1], d+1)
			walk(t.args[2], d+1)
		}
	}
	walk(t, 0)
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// set the result of a call in the top frame and continue
func (x *Exec) finish(st *State, ret ssa.Value, v Val) bool {
	if st.dead {
		return false
	}
	if ret != nil {
		st.top().env[ret] = Val{ret.Type(), v.L}
	}
	return true
}

func (x *Exec) callFunc(st *State, f *ssa.Function, args []Val, binds []Val, ret ssa.Value, pos token.Pos) bool {
	if f.Synthetic != "" && len(f.Blocks) > 0 && (strings.HasPrefix(f.Synthetic, "wrapper") || strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "promoted") || strings.HasPrefix(f.Synthetic, "instance")) {
		if m := models[modelName(f)]; m == nil {
			return x.inline(st, f, args, binds, ret)
		}
	}
	name := modelName(f)
	if ct := x.specs.contractFor(f); ct != nil && ct.trusted && ct.usable(x, f) && !isRepoFn(f) {
		return x.applyContract(st, ct, f, args, ret, pos)
	}
	if m := models[name]; m != nil {
		c := &CallCtx{x: x, fr: st.top(), pos: pos, ret: ret, rt: resultType(f.Signature), name: name}
		return m(c, st, args)
	}
	if ct := x.specs.contractFor(f); ct != nil && ct.usable(x, f) && !ct.inlineOnly {
		return x.applyContract(st, ct, f, args, ret, pos)
	}
	if len(f.Blocks) > 0 && x.inlinable(f) {
		depth := 0
		for _, fr := range st.frames {
			if fr.fn == f {
				depth++
			}
		}
		if depth == 0 && len(st.frames) < 40 {
			return x.inline(st, f, args, binds, ret)
		}
		if isRepo(f.Pkg.Pkg) {
			x.fail("recursive call of %s needs a contract", f)
		}
	}
	return x.havocCall(st, f.String(), f.Signature, args, ret, pos)
}

func (x *Exec) havocCall(st *State, name string, sig *types.Signature, args []Val, ret ssa.Value, pos token.Pos) bool {
	x.trust("external function " + name + ": arbitrary result, no panic, writes only through its pointer arguments")
	for _, a := range args {
		x.havocReach(st, a)
	}
	st.epoch++
	v := x.freshVal(st, "r:"+trimPath(name), resultType(sig))
	st.epoch++
	return x.finish(st, ret, v)
}

// havoc the object a pointer argument points to
func (x *Exec) havocReach(st *State, a Val) {
	switch u := a.T.Underlying().(type) {
	case *types.Pointer:
		if a.L[0] == x.tb.Null {
			return
		}
		t := u.Elem()
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !isRepo(n.Obj().Pkg()) {
			if _, isS := t.Underlying().(*types.Struct); isS && !strings.HasPrefix(typeKey(n), "bytes.") {
				return // library objects are opaque
			}
		}
		v := x.freshVal(st, "hv", t)
		x.store(st, t, a.L[0], v.L)
	case *types.Slice:
		if elemKey(u.Elem()) == "uint8" {
			x.trust("external functions do not modify byte slices passed to them (unless modelled)")
		}
	case *types.Interface:
		if a.L[0].isInt() {
			if dt := x.p.TagType(int(a.L[0].c.Int64())); dt != nil {
				if _, ok := dt.Underlying().(*types.Pointer); ok {
					x.havocReach(st, Val{dt, []*Term{a.L[1]}})
				}
			}
		}
	}
}

func (x *Exec) inlinable(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil {
		return f.Parent() != nil || f.Synthetic != ""
	}
	if isRepo(pk.Pkg) {
		return true
	}
	return inlineStd[modelName(f)] || f.Parent() != nil
}

func (x *Exec) inline(st *State, f *ssa.Function, args []Val, binds []Val, ret ssa.Value) bool {
	x.inlined[FuncKey(f)] = true
	nf := &Frame{fn: f, env: map[ssa.Value]Val{}, block: f.Blocks[0], retVal: ret, cuts: map[*ssa.BasicBlock]*Cut{}, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range f.Params {
		v := args[i]
		v.T = p.Type()
		nf.env[p] = v
	}
	for i, fv := range f.FreeVars {
		nf.env[fv] = binds[i]
	}
	st.frames = append(st.frames, nf)
	return true
}

func (x *Exec) callDeferred(st *State, fr *Frame, d *deferred) bool {
	c := d.common
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "recover" || b.Name() == "close" || b.Name() == "print" {
			return true
		}
		x.fail("deferred builtin %s", b.Name())
	}
	if c.IsInvoke() {
		return x.invoke(st, fr, d.fn, c.Method, d.args, c.Value.Type(), nil, c.Pos())
	}
	if f := c.StaticCallee(); f != nil {
		var binds []Val
		if d.fn.L != nil {
			if cl := x.closures[d.fn.L[0]]; cl != nil {
				binds = cl.binds
			}
		}
		return x.callFunc(st, f, d.args, binds, nil, c.Pos())
	}
	return x.callValue(st, fr, d.fn, d.args, c.Signature(), nil, c.Pos())
}

func (x *Exec) invoke(st *State, fr *Frame, recv Val, m *types.Func, args []Val, it types.Type, ret ssa.Value, pos token.Pos) bool {
	tb := x.tb
	tag := recv.L[0]
	if !(tag.isInt() && tag.c.Sign() > 0) {
		x.oblige(st, "panic", "nil interface method call", x.pos(pos), nil, tb.Not(tb.Eq(tag, tb.Int(0))))
		if st.dead {
			return false
		}
	}
	sig := m.Type().(*types.Signature)
	name := ifaceMethodName(it, m)
	if md := imodels[name]; md != nil {
		c := &CallCtx{x: x, fr: fr, pos: pos, ret: ret, rt: resultType(sig), name: name}
		done, cont := md(c, st, recv, args)
		if done {
			return cont
		}
	}
	if tag.op == OIte {
		yes, no := x.split(st, tag.args[0])
		if no != nil {
			r := Val{recv.T, []*Term{tag.args[2], recv.L[1]}}
			if recv.L[1].op == OIte && recv.L[1].args[0] == tag.args[0] {
				r.L[1] = recv.L[1].args[2]
			}
			cont := x.invoke(no, no.top(), r, m, args, it, ret, pos)
			if yes == nil {
				return cont
			}
			if cont {
				x.push(no)
			}
		}
		r := Val{recv.T, []*Term{tag.args[1], recv.L[1]}}
		if recv.L[1].op == OIte && recv.L[1].args[0] == tag.args[0] {
			r.L[1] = recv.L[1].args[1]
		}
		return x.invoke(yes, yes.top(), r, m, args, it, ret, pos)
	}
	if tag.isInt() {
		if dt := x.p.TagType(int(tag.c.Int64())); dt != nil {
			f := x.p.ssa.LookupMethod(dt, m.Pkg(), m.Name())
			if f != nil {
				rv := x.unbox(st, recv, dt)
				return x.callFunc(st, f, append([]Val{rv}, args...), nil, ret, pos)
			}
		}
		return x.havocInvoke(st, name, recv, sig, args, ret)
	}
	// closed world for unexported repo interfaces
	if n, ok := types.Unalias(it).(*types.Named); ok && isRepo(n.Obj().Pkg()) && !n.Obj().Exported() {
		rest := st
		for _, dt := range x.p.Implementers(it) {
			var yes *State
			yes, rest = x.split(rest, tb.Eq(tag, tb.Int(int64(x.p.Tag(dt)))))
			if yes != nil {
				f := x.p.ssa.LookupMethod(dt, m.Pkg(), m.Name())
				rv := x.unbox(yes, recv, dt)
				if x.callFunc(yes, f, append([]Val{rv}, args...), nil, ret, pos) {
					x.push(yes)
				}
			}
			if rest == nil {
				return false
			}
		}
		return false
	}
	return x.havocInvoke(st, name, recv, sig, args, ret)
}

func (x *Exec) havocInvoke(st *State, name string, recv Val, sig *types.Signature, args []Val, ret ssa.Value) bool {
	x.trust("interface method " + name + ": arbitrary result, no panic, writes only through its pointer arguments")
	for _, a := range args {
		x.havocReach(st, a)
	}
	st.epoch++
	v := x.freshVal(st, "r:"+trimPath(name), resultType(sig))
	st.epoch++
	return x.finish(st, ret, v)
}

func ifaceMethodName(it types.Type, m *types.Func) string {
	// use the interface that declares the method
	recv := m.Type().(*types.Signature).Recv()
	if recv != nil {
		if n, ok := types.Unalias(recv.Type()).(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return n.Obj().Name() + "." + m.Name()
			}
			return typeKey(n) + "." + m.Name()
		}
	}
	return typeKey(it) + "." + m.Name()
}

func isRepoFn(f *ssa.Function) bool { return f.Pkg != nil && isRepo(f.Pkg.Pkg) }

func modelName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil && f.Object() != nil {
		return f.Object().(*types.Func).FullName()
	}
	if f.Object() != nil {
		return f.Object().(*types.Func).FullName()
	}
	return f.String()
}
