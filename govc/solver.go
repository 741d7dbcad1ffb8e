package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

const prelude = `(declare-sort Blob 0)
(declare-datatypes ((Ref 0)) (((null) (base (bep Int) (bn Int)) (fld (fldr Ref) (fldk Int)) (elm (elmr Ref) (elmi Int)) (bxI (bxiv Int)) (bxB (bxbv Blob)))))
(declare-fun born (Ref) Int)
(assert (= (born null) (- 1)))
(assert (forall ((e Int) (n Int)) (! (= (born (base e n)) e) :pattern ((base e n)))))
(assert (forall ((r Ref) (k Int)) (! (= (born (fld r k)) (born r)) :pattern ((fld r k)))))
(assert (forall ((r Ref) (k Int)) (! (= (born (elm r k)) (born r)) :pattern ((elm r k)))))
(assert (forall ((k Int)) (! (= (born (bxI k)) (- 1)) :pattern ((bxI k)))))
(assert (forall ((k Blob)) (! (= (born (bxB k)) (- 1)) :pattern ((bxB k)))))
`

// axioms attached to function symbols; emitted when the symbol is first declared
var funAxioms = map[string]string{
	"content": `(assert (forall ((a (Array Int Int)) (o Int) (l Int) (k Int) (v Int)) (! (=> (or (< k o) (<= (+ o l) k)) (= (|content| (store a k v) o l) (|content| a o l))) :pattern ((|content| (store a k v) o l)))))
`,
	"blen": `(assert (forall ((b Blob)) (! (<= 0 (|blen| b)) :pattern ((|blen| b)))))
`,
	"bat": `(assert (forall ((b Blob) (i Int)) (! (and (<= 0 (|bat| b i)) (<= (|bat| b i) 255)) :pattern ((|bat| b i)))))
`,
	"blen+content": `(assert (forall ((a (Array Int Int)) (o Int) (l Int)) (! (=> (<= 0 l) (= (|blen| (|content| a o l)) l)) :pattern ((|content| a o l)))))
`,
	"bat+content": `(assert (forall ((a (Array Int Int)) (o Int) (l Int) (i Int)) (! (=> (and (<= 0 i) (< i l) (<= 0 (select a (+ o i))) (<= (select a (+ o i)) 255)) (= (|bat| (|content| a o l) i) (select a (+ o i)))) :pattern ((|bat| (|content| a o l) i)))))
`,
	"shift": `(assert (forall ((a (Array Int Int)) (o Int) (i Int)) (! (= (select (|shift| a o) i) (select a (+ o i))) :pattern ((select (|shift| a o) i)))))
`,
	"shift+content": `(assert (forall ((a (Array Int Int)) (s Int) (o Int) (l Int)) (! (= (|content| (|shift| a s) o l) (|content| a (+ o s) l)) :pattern ((|content| (|shift| a s) o l)))))
`,
	"cpy": `(assert (forall ((a (Array Int Int)) (d Int) (b (Array Int Int)) (s Int) (n Int) (i Int)) (! (= (select (|cpy| a d b s n) i) (ite (and (<= d i) (< i (+ d n))) (select b (+ s (- i d))) (select a i))) :pattern ((select (|cpy| a d b s n) i)))))
`,
	"cpy+content": `(assert (forall ((a (Array Int Int)) (d Int) (b (Array Int Int)) (s Int) (n Int) (o Int) (l Int)) (! (=> (and (<= d o) (<= (+ o l) (+ d n))) (= (|content| (|cpy| a d b s n) o l) (|content| b (+ s (- o d)) l))) :pattern ((|content| (|cpy| a d b s n) o l)))))
(assert (forall ((a (Array Int Int)) (d Int) (b (Array Int Int)) (s Int) (n Int) (o Int) (l Int)) (! (=> (or (<= (+ o l) d) (<= (+ d n) o)) (= (|content| (|cpy| a d b s n) o l) (|content| a o l))) :pattern ((|content| (|cpy| a d b s n) o l)))))
`,
	"bytesOf": `(assert (forall ((b Blob) (i Int)) (! (= (select (|bytesOf| b) i) (|bat| b i)) :pattern ((select (|bytesOf| b) i)))))
(assert (forall ((b Blob)) (! (= (|content| (|bytesOf| b) 0 (|blen| b)) b) :pattern ((|bytesOf| b)))))
`,
	"bcat": `(assert (forall ((a Blob) (b Blob)) (! (= (|blen| (|bcat| a b)) (+ (|blen| a) (|blen| b))) :pattern ((|bcat| a b)))))
(assert (forall ((a Blob) (b Blob) (i Int)) (! (= (|bat| (|bcat| a b) i) (ite (< i (|blen| a)) (|bat| a i) (|bat| b (- i (|blen| a))))) :pattern ((|bat| (|bcat| a b) i)))))
(assert (forall ((a Blob) (b Blob) (c Blob)) (! (= (|bcat| (|bcat| a b) c) (|bcat| a (|bcat| b c))) :pattern ((|bcat| (|bcat| a b) c)))))
`,
}

var funAxiomDeps = map[string][]string{
	"bytesOf": {"bat", "blen", "content"},
	"bcat":    {"blen", "bat"},
}

type Emitter struct { // tracks what was declared to one solver process / script
	tb       *TB
	out      io.Writer
	declared map[string]bool
	defs     map[*Term]string
	extra    map[string]string // spec function axioms: name -> text
	extraDep map[string][]string
	qf       bool // quantifier-free fragment only: axioms are replaced by ground range facts
}

var slowMs, _ = strconv.Atoi(os.Getenv("GOVC_SLOW"))

var smtErrSeen atomic.Int64

func newEmitter(tb *TB, out io.Writer) *Emitter {
	return &Emitter{tb: tb, out: out, declared: map[string]bool{"f:born": true}, defs: map[*Term]string{}}
}

func (e *Emitter) declFun(name string) (axioms string) {
	if e.declared["f:"+name] {
		return ""
	}
	e.declared["f:"+name] = true
	d := e.tb.funs[name]
	if d == nil {
		switch name {
		case "bat":
			d = &FunDecl{"bat", []*Sort{SBlob, SInt}, SInt}
		case "blen":
			d = &FunDecl{"blen", []*Sort{SBlob}, SInt}
		case "content":
			d = &FunDecl{"content", []*Sort{SArr(SInt, SInt), SInt, SInt}, SBlob}
		default:
			panic("declFun " + name)
		}
	}
	var as []string
	for _, a := range d.args {
		as = append(as, a.String())
	}
	fmt.Fprintf(e.out, "(declare-fun %s (%s) %s)\n", smtSym(name), strings.Join(as, " "), d.ret)
	return name
}

// declare everything t needs; returns assertion texts (axioms/ranges) that have to be asserted at the current level
func (e *Emitter) need(t *Term, acc *[]string, seen map[*Term]bool, lv map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		e.need(a, acc, seen, lv)
	}
	for _, p := range t.pats {
		for _, x := range p {
			e.need(x, acc, seen, lv)
			e.needPat(x, acc, lv)
		}
	}
	if e.qf && !t.hasBV {
		e.groundFacts(t, acc, lv)
	}
	switch t.op {
	case OVar:
		if strings.HasPrefix(t.name, "?") {
			return
		}
		if !e.declared["v:"+t.name] {
			e.declared["v:"+t.name] = true
			fmt.Fprintf(e.out, "(declare-const %s %s)\n", smtSym(t.name), t.sort)
		}
		if !lv["v:"+t.name] {
			lv["v:"+t.name] = true
			e.varAxioms(t, acc, lv)
		}
	case OApp:
		e.needFun(t.name, acc, lv)
	}
}

func hasQuant(t *Term, memo map[*Term]bool) bool {
	if t.op == OForall || t.op == OExists {
		return true
	}
	if r, ok := memo[t]; ok {
		return r
	}
	memo[t] = false
	for _, a := range t.args {
		if hasQuant(a, memo) {
			memo[t] = true
			return true
		}
	}
	return false
}

func (e *Emitter) groundFacts(t *Term, acc *[]string, lv map[string]bool) {
	switch t.op {
	case OApp, OSelect, OBase, OFld, OElm:
	default:
		return
	}
	k := fmt.Sprintf("t:%d", t.id)
	if lv[k] {
		return
	}
	lv[k] = true
	p := func() string { return printTerm(t, e.defs) }
	switch t.op {
	case OApp, OSelect:
		if t.sort == SInt {
			if t.lo != nil {
				*acc = append(*acc, fmt.Sprintf("(assert (<= %s %s))\n", smtInt(t.lo), p()))
			}
			if t.hi != nil {
				*acc = append(*acc, fmt.Sprintf("(assert (<= %s %s))\n", p(), smtInt(t.hi)))
			}
		}
		if t.sort == SRef && t.maxEp < epUnknown {
			*acc = append(*acc, fmt.Sprintf("(assert (<= (born %s) %s))\n", p(), smtInt(bi(int64(t.maxEp)))))
		}
	case OBase:
		*acc = append(*acc, fmt.Sprintf("(assert (= (born %s) %s))\n", p(), printTerm(t.args[0], e.defs)))
	case OFld, OElm:
		*acc = append(*acc, fmt.Sprintf("(assert (= (born %s) (born %s)))\n", p(), printTerm(t.args[0], e.defs)))
	}
}

func (e *Emitter) needFun(name string, acc *[]string, lv map[string]bool) {
	e.declFun(name)
	if e.qf {
		return
	}
	if lv["f:"+name] {
		return
	}
	lv["f:"+name] = true
	for _, d := range funAxiomDeps[name] {
		e.needFun(d, acc, lv)
	}
	if ax, ok := funAxioms[name]; ok {
		*acc = append(*acc, ax)
	}
	if ob := opBase(name); ob != name {
		elt := name[len(ob)+1:]
		srt := elt
		if strings.HasPrefix(elt, "A@") {
			srt = "(Array Int " + elt[2:] + ")"
		} else if elt == "A" {
			srt = "(Array Int Int)"
		}
		if ax, ok := funAxioms[ob]; ok {
			ax = strings.ReplaceAll(ax, "(Array Int Int)", "(Array Int "+srt+")")
			ax = strings.ReplaceAll(ax, "|"+ob+"|", "|"+name+"|")
			*acc = append(*acc, ax)
		}
	}
	for k, ax := range funAxioms {
		if i := strings.IndexByte(k, '+'); i > 0 {
			a, b := k[:i], k[i+1:]
			if (a == name || b == name) && lv["f:"+a] && lv["f:"+b] && !lv["x:"+k] {
				lv["x:"+k] = true
				*acc = append(*acc, ax)
			}
		}
	}
}

func (e *Emitter) varAxioms(t *Term, acc *[]string, lv map[string]bool) {
	n := smtSym(t.name)
	switch t.sort.k {
	case "Int":
		if t.lo != nil {
			*acc = append(*acc, fmt.Sprintf("(assert (<= %s %s))\n", smtInt(t.lo), n))
		}
		if t.hi != nil {
			*acc = append(*acc, fmt.Sprintf("(assert (<= %s %s))\n", n, smtInt(t.hi)))
		}
	case "Ref":
		if t.maxEp < epUnknown {
			*acc = append(*acc, fmt.Sprintf("(assert (<= (born %s) %s))\n", n, smtInt(bi(int64(t.maxEp)))))
		}
	case "Blob":
		if s, ok := e.tb.litStr(t); ok {
			e.needFun("blen", acc, lv)
			e.needFun("bat", acc, lv)
			if e.qf {
				e.declFun("blen")
				e.declFun("bat")
			}
			var sb strings.Builder
			fmt.Fprintf(&sb, "(assert (= (|blen| %s) %d))\n", n, len(s))
			if len(s) == 0 && !e.qf {
				// the empty blob is unique
				fmt.Fprintf(&sb, "(assert (forall ((b Blob)) (! (=> (= (|blen| b) 0) (= b %s)) :pattern ((|blen| b)))))\n", n)
			}
			if len(s) <= 40 {
				for i := 0; i < len(s); i++ {
					fmt.Fprintf(&sb, "(assert (= (|bat| %s %d) %d))\n", n, i, s[i])
				}
			}
			fmt.Fprintf(&sb, "(assert (= (litid %s) %d))\n", n, t.id)
			if !e.declared["litid"] {
				e.declared["litid"] = true
				fmt.Fprintf(e.out, "(declare-fun litid (Blob) Int)\n")
			}
			*acc = append(*acc, sb.String())
		}
	case "Array":
		if e.qf {
			return
		}
		s := t.sort
		depth := 0
		idx := n
		vars := ""
		for s.k == "Array" {
			v := fmt.Sprintf("i%d", depth)
			vars += fmt.Sprintf("(%s %s)", v, s.idx)
			idx = fmt.Sprintf("(select %s %s)", idx, v)
			s = s.elt
			depth++
		}
		if s == SInt && (t.lo != nil || t.hi != nil) {
			c := ""
			if t.lo != nil {
				c += fmt.Sprintf(" (<= %s %s)", smtInt(t.lo), idx)
			}
			if t.hi != nil {
				c += fmt.Sprintf(" (<= %s %s)", idx, smtInt(t.hi))
			}
			*acc = append(*acc, fmt.Sprintf("(assert (forall (%s) (! (and%s) :pattern (%s))))\n", vars, c, idx))
		}
		if s == SRef && t.maxEp < epUnknown {
			g := fmt.Sprintf("(<= (born %s) %s)", idx, smtInt(bi(int64(t.maxEp))))
			if t.sort.idx == SRef {
				g = fmt.Sprintf("(=> (<= (born i0) %s) %s)", smtInt(bi(int64(t.maxEp))), g)
			}
			*acc = append(*acc, fmt.Sprintf("(assert (forall (%s) (! %s :pattern (%s))))\n", vars, g, idx))
		}
	}
}

// define large closed shared subterms as macros
func (e *Emitter) define(t *Term) {
	if _, ok := e.defs[t]; ok {
		return
	}
	if t.size < 12 {
		return
	}
	for _, a := range t.args {
		e.define(a)
	}
	if t.hasBV || t.op == OForall || t.op == OExists {
		return
	}
	n := fmt.Sprintf("d!%d", t.id)
	fmt.Fprintf(e.out, "(define-fun %s () %s %s)\n", n, t.sort, printTerm(t, e.defs))
	e.defs[t] = n
}

// ---------------- incremental solver

type level struct {
	asserted map[string]bool
	fact     *Fact
}

type Solver struct {
	tb     *TB
	cmd    *exec.Cmd
	in     *bufio.Writer
	rd     *bufio.Reader
	em     *Emitter
	levels []*level
	curTO  int
	dead   bool
	log    io.Writer
	qf     bool
	qmemo  map[*Term]bool
}

var statQueries, statSolverNs atomic.Int64

func NewSolver(tb *TB) *Solver {
	s := &Solver{tb: tb}
	s.start()
	return s
}

func NewQFSolver(tb *TB) *Solver {
	s := &Solver{tb: tb, qf: true, qmemo: map[*Term]bool{}}
	s.start()
	return s
}

const preludeQF = `(declare-sort Blob 0)
(declare-datatypes ((Ref 0)) (((null) (base (bep Int) (bn Int)) (fld (fldr Ref) (fldk Int)) (elm (elmr Ref) (elmi Int)) (bxI (bxiv Int)) (bxB (bxbv Blob)))))
(declare-fun born (Ref) Int)
(assert (= (born null) (- 1)))
`

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.rd = bufio.NewReaderSize(r, 1<<16)
	var out io.Writer = s.in
	if os.Getenv("GOVC_SMTLOG") != "" {
		f, _ := os.Create(os.Getenv("GOVC_SMTLOG"))
		out = io.MultiWriter(s.in, f)
	}
	s.log = out
	s.em = newEmitter(s.tb, out)
	s.em.qf = s.qf
	io.WriteString(out, "(set-option :global-declarations true)\n(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 20)\n")
	if s.qf {
		io.WriteString(out, preludeQF)
	} else {
		io.WriteString(out, prelude)
	}
	s.levels = []*level{{asserted: map[string]bool{}}}
	s.curTO = -1
	s.dead = false
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) isAsserted(k string) bool {
	for _, l := range s.levels {
		if l.asserted[k] {
			return true
		}
	}
	return false
}

func (s *Solver) assertTerm(t *Term) {
	if s.qf && hasQuant(t, s.qmemo) {
		if t.op == OAnd {
			for _, a := range t.args {
				s.assertTerm(a)
			}
		}
		return
	}
	// collect axioms not yet asserted on the stack
	lv := map[string]bool{}
	for _, l := range s.levels {
		for k := range l.asserted {
			lv[k] = true
		}
	}
	before := len(lv)
	_ = before
	var acc []string
	s.em.need(t, &acc, map[*Term]bool{}, lv)
	top := s.levels[len(s.levels)-1]
	for k := range lv {
		top.asserted[k] = true
	}
	for _, a := range acc {
		io.WriteString(s.log, a)
	}
	s.em.define(t)
	fmt.Fprintf(s.log, "(assert %s)\n", printTerm(t, s.em.defs))
}

func (s *Solver) push(f *Fact) {
	io.WriteString(s.log, "(push 1)\n")
	// copy-free: asserted sets are per level
	s.levels = append(s.levels, &level{asserted: map[string]bool{}, fact: f})
}
func (s *Solver) pop(n int) {
	if n > 0 {
		fmt.Fprintf(s.log, "(pop %d)\n", n)
		s.levels = s.levels[:len(s.levels)-n]
	}
}

// sync brings the solver's assertion stack to the facts of f
func (s *Solver) sync(f *Fact) {
	var chain []*Fact
	for x := f; x != nil; x = x.prev {
		chain = append(chain, x)
	}
	// chain reversed: oldest last
	n := len(chain)
	common := 0
	for common < n && common+1 < len(s.levels) && s.levels[common+1].fact == chain[n-1-common] {
		common++
	}
	s.pop(len(s.levels) - 1 - common)
	for i := common; i < n; i++ {
		x := chain[n-1-i]
		s.push(x)
		s.assertTerm(x.t)
	}
}

type CheckResult int

const (
	Unsat CheckResult = iota
	Sat
	Unknown
)

func (s *Solver) readLine() (string, error) {
	l, err := s.rd.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check satisfiability of facts(f) + extra
func (s *Solver) Check(f *Fact, extra *Term, timeoutMs int) CheckResult {
	if s.dead || s.cmd == nil {
		s.Close()
		s.start()
	}
	if s.qf && extra != nil && hasQuant(extra, s.qmemo) {
		return Unknown
	}
	t0 := time.Now()
	s.sync(f)
	if extra != nil {
		s.push(nil)
		s.assertTerm(extra)
	}
	if s.curTO != timeoutMs {
		fmt.Fprintf(s.log, "(set-option :timeout %d)\n", timeoutMs)
		s.curTO = timeoutMs
	}
	io.WriteString(s.log, "(check-sat)\n")
	s.in.Flush()
	done := make(chan struct{})
	var line string
	var err error
	go func() {
		for {
			line, err = s.readLine()
			if err != nil || line == "sat" || line == "unsat" || line == "unknown" || strings.HasPrefix(line, "(error") {
				break
			}
			if line == "timeout" {
				break
			}
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond*4 + 3*time.Second):
		s.cmd.Process.Kill()
		<-done
		s.cmd.Wait()
		s.cmd = nil
		s.dead = true
	}
	statQueries.Add(1)
	statSolverNs.Add(int64(time.Since(t0)))
	if slowMs > 0 && time.Since(t0) > time.Duration(slowMs)*time.Millisecond {
		g := fmt.Sprint(extra)
		if len(g) > 300 {
			g = g[:300]
		}
		if d := os.Getenv("GOVC_DUMP"); d != "" && extra != nil {
			os.WriteFile(fmt.Sprintf("%s/slow_%d.smt2", d, extra.id), []byte(Script(s.tb, f, extra)), 0o644)
		}
		fmt.Fprintf(os.Stderr, "SLOW %v %s %s\n", time.Since(t0).Round(time.Millisecond), line, g)
	}
	if strings.HasPrefix(line, "(error") {
		if smtErrSeen.Add(1) <= 3 {
			fmt.Fprintln(os.Stderr, "SMT error:", line)
			if os.Getenv("GOVC_DBG") != "" && extra != nil {
				fmt.Fprintln(os.Stderr, "  goal:", extra)
			}
		}
		s.dead = true
	}
	if extra != nil && !s.dead {
		s.pop(1)
	}
	if err != nil {
		s.dead = true
		return Unknown
	}
	switch line {
	case "unsat":
		return Unsat
	case "sat":
		return Sat
	}
	return Unknown
}

// ---------------- one-shot scripts for the portfolio

func Script(tb *TB, f *Fact, extra *Term) string {
	var buf bytes.Buffer
	em := newEmitter(tb, &buf)
	buf.WriteString(prelude)
	var facts []*Term
	for x := f; x != nil; x = x.prev {
		facts = append(facts, x.t)
	}
	if extra != nil {
		facts = append([]*Term{extra}, facts...)
	}
	lv := map[string]bool{}
	seen := map[*Term]bool{}
	for i := len(facts) - 1; i >= 0; i-- {
		var acc []string
		em.need(facts[i], &acc, seen, lv)
		for _, a := range acc {
			buf.WriteString(a)
		}
		em.define(facts[i])
		fmt.Fprintf(&buf, "(assert %s)\n", printTerm(facts[i], em.defs))
	}
	buf.WriteString("(check-sat)\n")
	return buf.String()
}

type portfolioEntry struct {
	name string
	args []string
	pre  string
}

var portfolio = []portfolioEntry{
	{"z3-new", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	{"z3", []string{"z3", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	{"cvc5", []string{"cvc5", "--lang=smt2", "-"}, "(set-logic ALL)\n"},
	{"z3-new-d", []string{"z3-new", "-in"}, ""},
	{"z3-new-a2", []string{"z3-new", "smt.arith.solver=2", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	{"z3-new-c3", []string{"z3-new", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 20)\n"},
	{"z3-new-r0", []string{"z3-new", "smt.relevancy=0", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
}

// other seeds and heuristics for a second attempt
var portfolio2 = append(append([]portfolioEntry{}, portfolio...),
	portfolioEntry{"z3-new-s7", []string{"z3-new", "smt.random_seed=7", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	portfolioEntry{"z3-s7", []string{"z3", "smt.random_seed=7", "-in"}, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
)

func RunPortfolio(script string, portfolio []portfolioEntry, timeout time.Duration) (CheckResult, string) {
	type res struct {
		r CheckResult
		n string
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	ch := make(chan res, len(portfolio))
	for _, p := range portfolio {
		go func(p portfolioEntry) {
			cmd := exec.CommandContext(ctx, p.args[0], p.args[1:]...)
			cmd.Stdin = strings.NewReader(p.pre + script)
			t0 := time.Now()
			out, _ := cmd.Output()
			statQueries.Add(1)
			statSolverNs.Add(int64(time.Since(t0)))
			r := Unknown
			for _, l := range strings.Split(string(out), "\n") {
				switch strings.TrimSpace(l) {
				case "unsat":
					r = Unsat
				case "sat":
					r = Sat
				}
			}
			ch <- res{r, p.name}
		}(p)
	}
	var sat string
	for range portfolio {
		r := <-ch
		if r.r == Unsat {
			return Unsat, r.n
		}
		if r.r == Sat {
			sat = r.n
		}
	}
	if sat != "" {
		return Sat, sat
	}
	return Unknown, ""
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
