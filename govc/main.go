package main

// Command line: verifies the contracts relevant to one property and prints a JSON report.

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FuncReport struct {
	Key      string   `json:"key"`
	Status   string   `json:"status"` // proved, failed, undecided, trusted
	Reason   string   `json:"reason,omitempty"`
	Obs      []*Ob    `json:"obligations"`
	Trusted  []string `json:"trusted"`
	Used     []string `json:"used"`
	Inlined  []string `json:"inlined"`
	Loops    int      `json:"loops"`
	Paths    int      `json:"paths"`
	Ms       int64    `json:"ms"`
	Contract string   `json:"contract"`
}

type Report struct {
	Prop    string        `json:"prop"`
	Funcs   []*FuncReport `json:"funcs"`
	Queries int64         `json:"queries"`
	SolveMs int64         `json:"solver_ms"`
	WallMs  int64         `json:"wall_ms"`
	Error   string        `json:"error,omitempty"`
	Missing []string      `json:"missing,omitempty"`
}

var (
	sanity   bool
	hardStop time.Time
)

func verifyFunc(p *Prog, specs *Specs, f *ssa.Function, ct *Contract, verbose bool, limit time.Duration) (r *FuncReport) {
	t0 := time.Now()
	r = &FuncReport{Key: ct.key, Contract: fmt.Sprintf("%s:%d", ct.file, ct.line)}
	x := NewExec(p, specs)
	defer x.sol.Close()
	defer x.qf.Close()
	defer func() {
		if e := recover(); e != nil {
			r.Status = "undecided"
			switch v := e.(type) {
			case unsupported:
				r.Reason = "unsupported: " + v.msg
			case specErr:
				r.Reason = "contract does not fit the code: " + string(v)
			default:
				r.Reason = fmt.Sprintf("internal: %v", v)
				if verbose || os.Getenv("GOVC_STACK") != "" {
					r.Reason += "\n" + string(debug.Stack())
				}
			}
		}
		for _, k := range x.obOrder {
			r.Obs = append(r.Obs, x.obs[k])
		}
		for _, m := range []struct {
			m map[string]bool
			d *[]string
		}{{x.trusted, &r.Trusted}, {x.used, &r.Used}, {x.inlined, &r.Inlined}} {
			for k := range m.m {
				*m.d = append(*m.d, k)
			}
			sort.Strings(*m.d)
		}
		r.Paths = x.paths
		r.Ms = time.Since(t0).Milliseconds()
	}()
	x.cur, x.curFn = ct, f
	if ct.timeout > 0 {
		limit = time.Duration(ct.timeout) * time.Second
	}
	x.deadline = time.Now().Add(limit)
	if !hardStop.IsZero() && hardStop.Before(x.deadline) {
		x.deadline = hardStop
	}
	x.merge = ct.merge || os.Getenv("GOVC_MERGE") != ""
	if ct.obTimeout > 0 {
		x.obTimeout = ct.obTimeout * 1000
	}
	x.propSel = map[string]bool{}
	if specs.prop == "" {
		x.propSel["panic"] = len(ct.panicProps) > 0
	}
	for _, q := range ct.panicProps {
		if q == specs.prop {
			x.propSel["panic"] = true
		}
	}
	st := &State{heap: map[string]*Term{}}
	fr := &Frame{fn: f, env: map[ssa.Value]Val{}, block: f.Blocks[0], cuts: map[*ssa.BasicBlock]*Cut{}, unroll: map[*ssa.BasicBlock]int{}}
	for i, pr := range f.Params {
		v := x.freshVal(st, "p:"+ct.params[i], pr.Type())
		x.concreteTag(ct, ct.params[i], v)
		fr.env[pr] = v
		x.params = append(x.params, v)
	}
	for _, fv := range f.FreeVars {
		fr.env[fv] = x.freshVal(st, "fv:"+fv.Name(), fv.Type())
	}
	x.entry = st.clone()
	x.assumeAxioms(st)
	st.epoch = 1
	for _, c := range ct.clauses {
		if c.kind == "requires" && specs.selected(c.props) {
			ev := x.newEval(st)
			ev.oldSt = st
			x.assume(st, ev.boolean(c.expr))
		}
	}
	x.entry = st.clone()
	x.entry.epoch = 0
	x.entry.frames = nil
	if st.dead || x.sol.Check(st.facts, nil, 5000) == Unsat {
		x.record("vacuity", "precondition satisfiable", false)
		r.Status = "failed"
		return
	}
	x.record("vacuity", "precondition satisfiable", true)
	st.frames = []*Frame{fr}
	returns := 0
	consistent := false
	x.onReturn = func(st *State, res []*Term) {
		if st.dead {
			return
		}
		returns++
		if !consistent {
			// at least one returning path whose assumptions the solver cannot refute
			consistent = x.sol.Check(st.facts, nil, 2000) != Unsat
			if consistent && sanity {
				r, _ := RunPortfolio(Script(x.tb, st.facts, x.tb.True), portfolio, 60*time.Second)
				consistent = r != Unsat
			}
		}
		rs := f.Signature.Results()
		ev := x.newEval(st)
		if rs.Len() > 0 {
			x.bindResults(ev, ct, f, Val{resultType(f.Signature), res})
		}
		for _, c := range ct.clauses {
			if c.kind != "ensures" && c.kind != "witness" && c.kind != "sets" && c.kind != "fresh" || !specs.selected(c.props) {
				continue
			}
			ev.sink = st
			nm := c.kind + " " + c.text
			if c.name != "" {
				nm = c.kind + " " + c.name
			}
			w := x.tb.True
			if c.when != nil {
				w = ev.boolean(c.when)
			}
			switch c.kind {
			case "ensures":
				x.oblige(st, "ensures", nm, "", c.props, ev.boolean(c.expr))
			case "witness":
				x.oblige(st, "ensures", nm, "", c.props, x.witness(ev, c))
			case "sets":
				x.oblige(st, "ensures", nm, "", c.props, x.tb.Implies(w, ev.setEq(c)))
			case "fresh":
				v := ev.eval(c.expr)
				ref := v.L[0]
				if len(v.L) == 2 {
					ref = v.L[1]
				}
				x.oblige(st, "ensures", nm, "", c.props, x.tb.Implies(w, ev.isNew(ref)))
			}
		}
		if ct.frames {
			x.frameObs(st, ct)
		}
	}
	x.explore([]*State{st})
	if x.timedOut {
		r.Status, r.Reason = "undecided", "time limit"
		for _, o := range x.obs {
			if o.Status != "proved" {
				r.Status = "failed"
			}
		}
		return
	}
	if returns == 0 || !consistent {
		x.record("vacuity", "some execution returns", false)
	} else {
		x.record("vacuity", "some execution returns", true)
	}
	r.Status = "proved"
	for _, o := range x.obs {
		if o.Status != "proved" {
			r.Status = "failed"
		}
	}
	return
}

func (x *Exec) record(kind, name string, ok bool) {
	o := &Ob{Fn: FuncKey(x.curFn), Kind: kind, Name: name, Status: "proved", By: "z3"}
	if !ok {
		o.Status = "failed"
	}
	k := kind + "|" + name
	if x.obs[k] == nil {
		x.obs[k] = o
		x.obOrder = append(x.obOrder, k)
	}
}

// everything that existed at entry and is not listed in modifies is unchanged
func (x *Exec) frameObs(st *State, ct *Contract) {
	tb := x.tb
	whole := map[string]bool{}
	type rw struct{ ref, when *Term }
	refs := map[string][]rw{}
	ev := x.newEval(st)
	ev.st = x.entry
	ev.sink = st
	for _, c := range ct.clauses {
		if (c.kind != "modifies" && c.kind != "sets") || !x.specs.selected(c.props) {
			continue
		}
		e := c.expr
		if c.kind == "sets" {
			e = c.lhs
		}
		locs := func() (r []modLoc) {
			defer func() {
				if e := recover(); e != nil && c.kind != "sets" {
					panic(e) // "sets" of a result field concerns a new object
				}
			}()
			return ev.modLocs(e)
		}()
		w := tb.True
		if c.kind == "modifies" && c.when != nil {
			w = ev.boolean(c.when)
		}
		for _, m := range locs {
			if m.ref == nil {
				whole[m.key] = true
			} else {
				refs[m.key] = append(refs[m.key], rw{m.ref, w})
			}
		}
	}
	for _, k := range sortedKeys(st.heap) {
		now := st.heap[k]
		if whole[k] || strings.HasPrefix(k, "iter:") {
			continue
		}
		was := x.hget(x.entry, k, now.sort)
		if now == was {
			continue
		}
		r := x.tb.mk(&Term{op: OVar, sort: SRef, name: "frame!" + k, maxEp: 0})
		var cs []*Term
		for _, q := range refs[k] {
			cs = append(cs, tb.And(q.when, tb.Eq(r, q.ref)))
		}
		cs = append(cs, tb.Eq(r, tb.Null), tb.Eq(tb.Select(now, r), tb.Select(was, r)))
		x.oblige(st, "modifies", "unlisted locations of "+k+" are unchanged", "", nil, tb.Or(cs...))
	}
}

func findFunc(p *Prog) map[string]*ssa.Function {
	m := map[string]*ssa.Function{}
	for _, f := range p.funcs {
		m[FuncKey(f)] = f
	}
	return m
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specDir := flag.String("specs", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "property")
	only := flag.String("fn", "", "only these functions (comma separated keys)")
	jsonOut := flag.String("json", "", "report file")
	verbose := flag.Bool("v", false, "print obligations")
	limit := flag.Int("limit", 120, "seconds per function")
	total := flag.Int("total", 0, "seconds for everything (0: no limit)")
	flag.BoolVar(&sanity, "sanity", false, "check with more effort that the assumptions on some returning path are consistent")
	par := flag.Int("j", runtime.NumCPU(), "parallel functions")
	dump := flag.String("ssa", "", "dump ssa of a function")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	t0 := time.Now()
	if *total > 0 {
		hardStop = t0.Add(time.Duration(*total) * time.Second)
	}
	rep := &Report{Prop: *prop}
	finish := func() {
		rep.WallMs = time.Since(t0).Milliseconds()
		rep.Queries = statQueries.Load()
		rep.SolveMs = statSolverNs.Load() / 1e6
		if *jsonOut != "" {
			b, _ := json.MarshalIndent(rep, "", " ")
			os.WriteFile(*jsonOut, b, 0o644)
		}
	}
	p, err := Load(*repo)
	if err != nil {
		rep.Error = "load: " + err.Error()
		fmt.Println(rep.Error)
		finish()
		os.Exit(3)
	}
	fns := findFunc(p)
	if *list {
		for _, k := range sortedKeys(fns) {
			fmt.Println(k, fns[k].Signature)
		}
		return
	}
	if *dump != "" {
		fns[*dump].WriteTo(os.Stdout)
		return
	}
	specs, err := LoadSpecs(p, *specDir)
	if err != nil {
		rep.Error = "specs: " + err.Error()
		fmt.Println(rep.Error)
		finish()
		os.Exit(3)
	}
	specs.prop = *prop
	for _, ct := range specs.contracts {
		for _, p := range ct.trustedUnless {
			if p == *prop {
				ct.trusted = false
			}
		}
	}
	var queue []string
	seen := map[string]bool{}
	add := func(k string) {
		if !seen[k] {
			seen[k] = true
			queue = append(queue, k)
		}
	}
	if *only != "" {
		for _, k := range strings.Split(*only, ",") {
			add(k)
		}
	} else {
		for _, k := range specs.order {
			ct := specs.contracts[k]
			if ct.trusted || ct.inlineOnly {
				continue
			}
			if *prop == "" || ct.hasProp(*prop) {
				add(k)
			}
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, *par)
	var schedule func()
	schedule = func() {
		for len(queue) > 0 {
			k := queue[0]
			queue = queue[1:]
			ct := specs.contracts[k]
			if ct == nil {
				rep.Missing = append(rep.Missing, k+": no contract")
				continue
			}
			if ct.trusted {
				rep.Funcs = append(rep.Funcs, &FuncReport{Key: k, Status: "trusted", Contract: fmt.Sprintf("%s:%d", ct.file, ct.line)})
				continue
			}
			if ct.inlineOnly {
				continue
			}
			f := fns[k]
			if f == nil || len(f.Blocks) == 0 {
				rep.Missing = append(rep.Missing, k+": function not found")
				rep.Funcs = append(rep.Funcs, &FuncReport{Key: k, Status: "undecided", Reason: "function not found in the code"})
				continue
			}
			if len(ct.params) != len(f.Params) || len(ct.results) != f.Signature.Results().Len() {
				rep.Funcs = append(rep.Funcs, &FuncReport{Key: k, Status: "undecided", Reason: "signature differs from the contract"})
				continue
			}
			wg.Add(1)
			go func() {
				sem <- true
				r := verifyFunc(p, specs, f, ct, *verbose, time.Duration(*limit)*time.Second)
				<-sem
				mu.Lock()
				rep.Funcs = append(rep.Funcs, r)
				if *only == "" {
					for _, u := range r.Used {
						add(u)
					}
				}
				schedule()
				mu.Unlock()
				wg.Done()
			}()
		}
	}
	mu.Lock()
	schedule()
	mu.Unlock()
	wg.Wait()
	sort.Slice(rep.Funcs, func(i, j int) bool { return rep.Funcs[i].Key < rep.Funcs[j].Key })
	code := 0
	for _, r := range rep.Funcs {
		n := 0
		for _, o := range r.Obs {
			if o.Status == "proved" {
				n++
			}
		}
		fmt.Printf("%-10s %-60s %d/%d obligations, %d paths, %.1fs %s\n", r.Status, r.Key, n, len(r.Obs), r.Paths, float64(r.Ms)/1000, r.Reason)
		if r.Status != "proved" && r.Status != "trusted" {
			code = 1
		}
		for _, o := range r.Obs {
			if *verbose || o.Status != "proved" {
				fmt.Printf("    %-8s %-9s %s %s [%s %dms]\n", o.Status, o.Kind, o.Name, o.Pos, o.By, o.Ms)
				if o.Status != "proved" {
					fmt.Printf("        path:%s\n        goal: %.1500s\n", o.Trail, o.Detail)
				}
			}
		}
	}
	finish()
	fmt.Printf("%d functions, %.1fs, %d queries, %.1fs solver\n", len(rep.Funcs), time.Since(t0).Seconds(), rep.Queries, float64(rep.SolveMs)/1000)
	os.Exit(code)
}

var _ = types.Typ

// concreteTag makes the dynamic type of an interface parameter the one a selected precondition states.
func (x *Exec) concreteTag(ct *Contract, name string, v Val) {
	if len(v.L) != 2 || !types.IsInterface(v.T) {
		return
	}
	var walk func(e ast.Expr)
	walk = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.ParenExpr:
			walk(e.X)
		case *ast.BinaryExpr:
			if e.Op == token.LAND {
				walk(e.X)
				walk(e.Y)
			}
		case *ast.CallExpr:
			if f, ok := e.Fun.(*ast.Ident); !ok || f.Name != "typeis" || len(e.Args) != 2 {
				return
			}
			if a, ok := e.Args[0].(*ast.Ident); ok && a.Name == name {
				ev := x.newEval(x.entrySt())
				v.L[0] = x.tb.Int(int64(x.p.Tag(ev.typeArg(e.Args[1]))))
			}
		}
	}
	for _, c := range ct.clauses {
		if c.kind == "requires" && x.specs.selected(c.props) {
			walk(c.expr)
		}
	}
}

func (x *Exec) entrySt() *State { return &State{heap: map[string]*Term{}} }

// witness: the clause holds for some choice of local values of the listed types. Where no such value exists on the
// path, the condition of the clause has to be false.
func (x *Exec) witness(ev *Eval, c *Clause) *Term {
	tb := x.tb
	pools := make([][]Val, len(c.vars))
	for i, ts := range c.types {
		seen := map[string]bool{}
		var vs []ssa.Value
		for v := range x.retEnv {
			if x.specs.typeMatches(v.Type(), ts) {
				vs = append(vs, v)
			}
		}
		sortVals(vs)
		for _, v := range vs {
			val := x.retEnv[v]
			if k := termsKey(val.L); !seen[k] {
				seen[k] = true
				pools[i] = append(pools[i], val)
			}
		}
		if len(pools[i]) == 0 {
			if call, ok := c.expr.(*ast.CallExpr); ok && len(call.Args) == 2 {
				if f, ok := call.Fun.(*ast.Ident); ok && f.Name == "imp" {
					return tb.Not(ev.boolean(call.Args[0]))
				}
			}
			return tb.False
		}
	}
	r := tb.False
	n := 0
	var rec func(i int)
	rec = func(i int) {
		if i == len(pools) {
			if n++; n <= 24 {
				r = tb.Or(r, ev.boolean(c.expr))
			}
			return
		}
		for _, v := range pools[i] {
			ev.bind[c.vars[i]] = v
			rec(i + 1)
		}
	}
	rec(0)
	for _, v := range c.vars {
		delete(ev.bind, v)
	}
	return r
}
