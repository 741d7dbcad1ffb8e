package main

// Contract language: line-oriented files, expressions in Go syntax.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// spec-only types
type specType struct{ name string }

func (s *specType) Underlying() types.Type { return s }
func (s *specType) String() string         { return s.name }

var (
	tyMath = types.Typ[types.UntypedInt]
	tyBlob = &specType{"blob"}
	tyView = &specType{"view"} // bytes as (array, off, len)
	tyRefS = &specType{"ref"}
	tyArr  = &specType{"arr"}
)

type Clause struct {
	vars, types []string // witness
	kind        string   // requires ensures assume modifies fresh sets cases
	props       []string
	when        ast.Expr
	lhs         ast.Expr
	expr        ast.Expr
	text        string
	line        int
	name        string
}

type Contract struct {
	key           string
	file          string
	line          int
	params        []string
	results       []string
	clauses       []*Clause
	hints         []*LoopHint
	panicProps    []string
	inlineOnly    bool
	trustedUnless []string
	trusted       bool // contract assumed, body not verified (external or out of reach)
	opaqueFn      bool
	pure          bool
	maxUnroll     int
	timeout       int
	sigCheck      string
	ghosts        []string
	lets          []letDef
	obTimeout     int
	merge         bool
	frames        bool // check modifies
	bounded       bool
	noinline      []string
}

type letDef struct {
	name string
	expr ast.Expr
}

type Macro struct {
	name   string
	params []string
	ptypes []string
	body   ast.Expr
	ret    string
	rec    bool
	crec   bool // depends on its views through their bytes only: represented as a function of the content
	ghost  bool
	text   string
}

type Axiom struct {
	name  string
	vars  []string
	types []string
	trigs [][]ast.Expr
	body  ast.Expr
	text  string
}

type Specs struct {
	p         *Prog
	contracts map[string]*Contract
	order     []string
	macros    map[string]*Macro
	axioms    []*Axiom
	assumed   []string
	prop      string
}

func LoadSpecs(p *Prog, dir string) (*Specs, error) {
	s := &Specs{p: p, contracts: map[string]*Contract{}, macros: map[string]*Macro{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := s.parseFile(f); err != nil {
			return nil, err
		}
	}
	return s, nil
}

func splitHead(h string) (name string, args []string) {
	i := strings.LastIndexByte(h, '(')
	name = strings.TrimSpace(h[:i])
	in := strings.TrimSuffix(strings.TrimSpace(h[i+1:]), ")")
	for _, a := range strings.Split(in, ",") {
		a = strings.TrimSpace(a)
		if a != "" {
			args = append(args, a)
		}
	}
	return
}

func splitTypes(args []string) (names, ts []string) {
	for _, a := range args {
		f := strings.SplitN(a, " ", 2)
		names = append(names, f[0])
		if len(f) > 1 {
			ts = append(ts, strings.TrimSpace(f[1]))
		} else {
			ts = append(ts, "")
		}
	}
	for i := len(ts) - 2; i >= 0; i-- {
		if ts[i] == "" {
			ts[i] = ts[i+1]
		}
	}
	return
}

func (s *Specs) parseFile(fn string) error {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err
	}
	raw := strings.Split(string(b), "\n")
	type ln struct {
		t string
		n int
	}
	var lines []ln
	for i, l := range raw {
		if j := strings.Index(l, "//"); j >= 0 && !strings.Contains(l[:j], "\"") {
			l = l[:j]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		// continuation: deeper indented lines starting with at least 6 spaces or a tab tab
		if len(lines) > 0 && (strings.HasPrefix(l, "      ") || strings.HasPrefix(l, "\t\t")) {
			lines[len(lines)-1].t += " " + strings.TrimSpace(l)
			continue
		}
		lines = append(lines, ln{strings.TrimRight(l, " \t"), i + 1})
	}
	var cur *Contract
	bad := func(n int, f string, a ...interface{}) error {
		return fmt.Errorf("%s:%d: %s", filepath.Base(fn), n, fmt.Sprintf(f, a...))
	}
	parseE := func(n int, t string) (ast.Expr, error) {
		e, err := parser.ParseExpr(t)
		if err != nil {
			return nil, bad(n, "%v in %q", err, t)
		}
		return e, nil
	}
	for _, l := range lines {
		t := strings.TrimSpace(l.t)
		top := l.t[0] != ' ' && l.t[0] != '\t'
		w := t
		rest := ""
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w, rest = t[:i], strings.TrimSpace(t[i:])
		}
		if top {
			cur = nil
			switch w {
			case "func":
				// func KEY(params) (results)
				res := ""
				if strings.HasSuffix(rest, ")") {
					i := strings.LastIndexByte(rest, '(')
					res = rest[i+1 : len(rest)-1]
					rest = strings.TrimSpace(rest[:i])
				}
				name, ps := splitHead(rest)
				c := &Contract{key: name, params: ps, file: filepath.Base(fn), line: l.n, frames: true}
				for _, r := range strings.Split(res, ",") {
					if r = strings.TrimSpace(r); r != "" {
						c.results = append(c.results, r)
					}
				}
				if s.contracts[name] != nil {
					return bad(l.n, "duplicate contract %s", name)
				}
				s.contracts[name] = c
				s.order = append(s.order, name)
				cur = c
			case "def", "rec", "crec", "ghost":
				m := &Macro{text: t, rec: w == "rec" || w == "crec", crec: w == "crec", ghost: w == "ghost"}
				hd, body := rest, ""
				if i := strings.Index(rest, " = "); i >= 0 {
					hd, body = rest[:i], rest[i+3:]
				}
				j := strings.LastIndexByte(hd, ')')
				m.ret = strings.TrimSpace(hd[j+1:])
				name, ps := splitHead(hd[:j+1])
				m.name = name
				m.params, m.ptypes = splitTypes(ps)
				if body != "" {
					e, err := parseE(l.n, body)
					if err != nil {
						return err
					}
					m.body = e
				}
				if s.macros[name] != nil {
					return bad(l.n, "duplicate %s", name)
				}
				s.macros[name] = m
			case "axiom":
				// axiom name (x T, y T) {trig; trig} : body
				i := strings.IndexByte(rest, '(')
				a := &Axiom{name: strings.TrimSpace(rest[:i]), text: t}
				j := strings.IndexByte(rest, ')')
				var vs []string
				for _, v := range strings.Split(rest[i+1:j], ",") {
					if v = strings.TrimSpace(v); v != "" {
						vs = append(vs, v)
					}
				}
				a.vars, a.types = splitTypes(vs)
				r := strings.TrimSpace(rest[j+1:])
				for strings.HasPrefix(r, "{") {
					k := strings.IndexByte(r, '}')
					var pat []ast.Expr
					for _, p := range strings.Split(r[1:k], ";") {
						e, err := parseE(l.n, p)
						if err != nil {
							return err
						}
						pat = append(pat, e)
					}
					a.trigs = append(a.trigs, pat)
					r = strings.TrimSpace(r[k+1:])
				}
				r = strings.TrimPrefix(r, ":")
				e, err := parseE(l.n, r)
				if err != nil {
					return err
				}
				a.body = e
				s.axioms = append(s.axioms, a)
			default:
				return bad(l.n, "unknown %q", w)
			}
			continue
		}
		if cur == nil {
			return bad(l.n, "clause outside func: %s", t)
		}
		c := &Clause{kind: w, line: l.n}
		if strings.HasPrefix(rest, "[") {
			i := strings.IndexByte(rest, ']')
			for _, p := range strings.FieldsFunc(rest[1:i], func(r rune) bool { return r == ',' || r == ' ' }) {
				c.props = append(c.props, p)
			}
			rest = strings.TrimSpace(rest[i+1:])
		}
		c.text = rest
		switch w {
		case "requires", "ensures", "assume", "cases", "assert":
			if i := strings.Index(rest, ": "); i > 0 && !strings.ContainsAny(rest[:i], " (") {
				c.name = rest[:i]
				rest = rest[i+2:]
			}
			e, err := parseE(l.n, rest)
			if err != nil {
				return err
			}
			c.expr = e
			cur.clauses = append(cur.clauses, c)
		case "modifies":
			var mwhen ast.Expr
			if i := strings.LastIndex(rest, " when "); i >= 0 {
				e, err := parseE(l.n, rest[i+6:])
				if err != nil {
					return err
				}
				mwhen = e
				rest = rest[:i]
			}
			for _, p := range splitTop(rest) {
				e, err := parseE(l.n, p)
				if err != nil {
					return err
				}
				cur.clauses = append(cur.clauses, &Clause{kind: "modifies", expr: e, text: p, line: l.n, props: c.props, when: mwhen})
			}
		case "fresh", "sets":
			if i := strings.LastIndex(rest, " when "); i >= 0 {
				e, err := parseE(l.n, rest[i+6:])
				if err != nil {
					return err
				}
				c.when = e
				rest = rest[:i]
			}
			if w == "sets" {
				i := strings.Index(rest, " = ")
				e, err := parseE(l.n, rest[:i])
				if err != nil {
					return err
				}
				c.lhs = e
				rest = rest[i+3:]
			}
			e, err := parseE(l.n, rest)
			if err != nil {
				return err
			}
			c.expr = e
			cur.clauses = append(cur.clauses, c)
		case "witness":
			j := strings.IndexByte(rest, ')')
			if !strings.HasPrefix(rest, "(") || j < 0 {
				return bad(l.n, "witness needs binders")
			}
			var vs []string
			for _, v := range strings.Split(rest[1:j], ",") {
				if v = strings.TrimSpace(v); v != "" {
					vs = append(vs, v)
				}
			}
			c.vars, c.types = splitTypes(vs)
			rest = strings.TrimSpace(rest[j+1:])
			if i := strings.Index(rest, ": "); i > 0 && !strings.ContainsAny(rest[:i], " (") {
				c.name = rest[:i]
				rest = rest[i+2:]
			}
			e, err := parseE(l.n, rest)
			if err != nil {
				return err
			}
			c.expr = e
			cur.clauses = append(cur.clauses, c)
		case "let":
			i := strings.Index(rest, " = ")
			e, err := parseE(l.n, rest[i+3:])
			if err != nil {
				return err
			}
			cur.lets = append(cur.lets, letDef{strings.TrimSpace(rest[:i]), e})
		case "loopinv":
			h := &LoopHint{text: rest, props: c.props}
			if strings.HasPrefix(rest, "(") {
				j := strings.IndexByte(rest, ')')
				var vs []string
				for _, v := range strings.Split(rest[1:j], ",") {
					if v = strings.TrimSpace(v); v != "" {
						vs = append(vs, v)
					}
				}
				h.vars, h.types = splitTypes(vs)
				rest = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(rest[j+1:]), ":"))
			}
			e, err := parseE(l.n, rest)
			if err != nil {
				return err
			}
			h.expr = e
			cur.hints = append(cur.hints, h)
		case "panics":
			cur.panicProps = append(cur.panicProps, strings.Fields(rest)...)
		case "inline":
			cur.inlineOnly = true
		case "trusted":
			cur.trusted = true
			// trusted unless P,Q: only in runs for other properties
			if strings.HasPrefix(rest, "unless ") {
				cur.trustedUnless = strings.FieldsFunc(rest[7:], func(r rune) bool { return r == ',' || r == ' ' })
			}
		case "pure":
			cur.pure = true
		case "merge":
			cur.merge = true
		case "noframe":
			cur.frames = false
		case "unroll":
			cur.maxUnroll, _ = strconv.Atoi(rest)
		case "timeout":
			cur.timeout, _ = strconv.Atoi(rest)
		case "obtimeout":
			cur.obTimeout, _ = strconv.Atoi(rest)
		default:
			return bad(l.n, "unknown clause %q", w)
		}
	}
	return nil
}

func splitTop(s string) []string {
	var r []string
	d := 0
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				r = append(r, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(r, strings.TrimSpace(s[st:]))
}

func (s *Specs) contractFor(f *ssa.Function) *Contract {
	k := FuncKey(f)
	if c := s.contracts[k]; c != nil {
		return c
	}
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		if c := s.contracts[k[i+1:]]; c != nil && c.trusted {
			return c
		}
	}
	return nil
}

func (s *Specs) selected(props []string) bool {
	if len(props) == 0 || s.prop == "" {
		return true
	}
	for _, p := range props {
		if p == s.prop {
			return true
		}
	}
	return false
}

// mentions property p in any clause
func (c *Contract) hasProp(p string) bool {
	for _, cl := range c.clauses {
		for _, q := range cl.props {
			if q == p {
				return true
			}
		}
	}
	for _, q := range c.panicProps {
		if q == p {
			return true
		}
	}
	return false
}

func (c *Contract) usable(x *Exec, f *ssa.Function) bool {
	n := f.Signature.Params().Len()
	if f.Signature.Recv() != nil {
		n++
	}
	if len(c.params) != n {
		return false
	}
	if len(c.results) != f.Signature.Results().Len() {
		return false
	}
	return true
}

func (s *Specs) typeMatches(t types.Type, name string) bool {
	switch name {
	case "anyint":
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Info()&types.IsInteger != 0
	case "anyslice":
		_, ok := t.Underlying().(*types.Slice)
		return ok
	case "anyptr":
		_, ok := t.Underlying().(*types.Pointer)
		return ok
	}
	if typeKey(t) == name || typeKey(t.Underlying()) == name {
		return true
	}
	return dirRE.ReplaceAllString(typeKey(t), "") == name
}

var dirRE = regexp.MustCompile(`[A-Za-z0-9_.-]+/`)

// ---------- evaluation

type Eval struct {
	x       *Exec
	st      *State // current
	oldSt   *State
	pre     *State // loop entry
	bind    map[string]Val
	preBind map[string]Val
	rng     *Term
	pkg     *ssa.Package
	lets    map[string]ast.Expr
	inOld   bool
	depth   int
	qdepth  int
	noUnf   bool
	sink    *State // where facts go
}

func (x *Exec) newEval(st *State) *Eval {
	ev := &Eval{x: x, st: st, oldSt: x.entry, bind: map[string]Val{}, preBind: map[string]Val{}, sink: st}
	if x.cur != nil {
		for i, n := range x.cur.params {
			if i < len(x.params) {
				ev.bind[n] = x.params[i]
			}
		}
		ev.setLets(x.cur)
	}
	if x.curFn != nil {
		ev.pkg = x.curFn.Pkg
	}
	return ev
}

func (ev *Eval) setLets(c *Contract) {
	ev.lets = map[string]ast.Expr{}
	for _, l := range c.lets {
		ev.lets[l.name] = l.expr
	}
}

func (ev *Eval) err(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

func (ev *Eval) boolean(e ast.Expr) *Term {
	v := ev.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SBool {
		ev.err("not boolean: %s", exprStr(e))
	}
	return v.L[0]
}

func (ev *Eval) intv(e ast.Expr) *Term {
	v := ev.eval(e)
	if len(v.L) != 1 || v.L[0].sort != SInt {
		ev.err("not an integer: %s", exprStr(e))
	}
	return v.L[0]
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func mInt(t *Term) Val  { return Val{tyMath, []*Term{t}} }
func mBool(t *Term) Val { return Val{tyBool, []*Term{t}} }
func mBlob(t *Term) Val { return Val{tyBlob, []*Term{t}} }

func (ev *Eval) flush(hs *State) {
	if hs != ev.sink && ev.sink != nil && ev.qdepth == 0 {
		ev.sink.facts = hs.facts
		if hs.dead {
			ev.sink.dead = true
		}
	}
}

// state used for heap access; facts are shared with the sink
func (ev *Eval) hst() *State {
	if ev.qdepth > 0 {
		// under a quantifier: no facts may be added about bound variables
		return &State{heap: ev.st.heap, epoch: epUnknown}
	}
	if ev.st == ev.sink {
		return ev.st
	}
	ep := ev.st.epoch
	return &State{heap: ev.st.heap, epoch: ep, facts: ev.sink.facts}
}

func (ev *Eval) eval(e ast.Expr) Val {
	x, tb := ev.x, ev.x.tb
	switch n := e.(type) {
	case *ast.ParenExpr:
		return ev.eval(n.X)
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT, token.CHAR:
			c := constant.MakeFromLiteral(n.Value, n.Kind, 0)
			b, _ := new(big.Int).SetString(c.ExactString(), 10)
			return mInt(tb.Big(b))
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return Val{tyString, []*Term{tb.StrLit(s)}}
		}
	case *ast.Ident:
		return ev.ident(n.Name)
	case *ast.SelectorExpr:
		if id, ok := n.X.(*ast.Ident); ok {
			if _, bound := ev.lookup(id.Name); !bound {
				if p := ev.pkgByName(id.Name); p != nil {
					return ev.pkgMember(p, n.Sel.Name)
				}
			}
		}
		return ev.field(ev.eval(n.X), n.Sel.Name)
	case *ast.StarExpr:
		v := ev.eval(n.X)
		pt, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			ev.err("deref of %s", v.T)
		}
		hs := ev.hst()
		r := x.load(hs, pt.Elem(), v.L[0])
		ev.flush(hs)
		return r
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return mBool(tb.Not(ev.boolean(n.X)))
		case token.SUB:
			return mInt(tb.Neg(ev.intv(n.X)))
		}
	case *ast.BinaryExpr:
		return ev.binary(n)
	case *ast.IndexExpr:
		return ev.index(ev.eval(n.X), ev.eval(n.Index))
	case *ast.SliceExpr:
		v := ev.eval(n.X)
		var lo, hi *Term
		if n.Low != nil {
			lo = ev.intv(n.Low)
		} else {
			lo = tb.Int(0)
		}
		if n.High != nil {
			hi = ev.intv(n.High)
		} else {
			hi = ev.length(v)
		}
		return ev.subslice(v, lo, hi)
	case *ast.CallExpr:
		return ev.call(n)
	}
	ev.err("cannot evaluate %s", exprStr(e))
	return Val{}
}

func (ev *Eval) subslice(v Val, lo, hi *Term) Val {
	tb := ev.x.tb
	if v.T == tyView {
		return Val{tyView, []*Term{v.L[0], tb.Add(v.L[1], lo), tb.Sub(hi, lo)}}
	}
	if len(v.L) == 1 && v.L[0].sort == SBlob {
		return Val{v.T, []*Term{ev.x.substr(v.L[0], lo, hi)}}
	}
	if _, ok := v.T.Underlying().(*types.Slice); ok {
		return Val{v.T, []*Term{v.L[0], tb.Add(v.L[1], lo), tb.Sub(hi, lo), tb.Sub(v.L[3], lo)}}
	}
	ev.err("slice of %s", v.T)
	return Val{}
}

func (ev *Eval) length(v Val) *Term {
	tb := ev.x.tb
	if v.T == tyView {
		return v.L[2]
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		return v.L[2]
	case *types.Map:
		if ev.qdepth > 0 {
			ev.err("len(map) under quantifier")
		}
		hs := ev.hst()
		r := ev.x.mapLen(hs, u, v.L[0])
		ev.flush(hs)
		return tb.Ite(tb.Eq(v.L[0], tb.Null), tb.Int(0), r)
	case *types.Array:
		return tb.Int(u.Len())
	}
	if len(v.L) == 1 && v.L[0].sort == SBlob {
		return tb.App("blen", SInt, v.L[0])
	}
	ev.err("len of %s", v.T)
	return nil
}

func (ev *Eval) lookup(name string) (Val, bool) {
	if ev.inOld {
		if v, ok := ev.preBind[name]; ok {
			return v, true
		}
	}
	v, ok := ev.bind[name]
	return v, ok
}

func (ev *Eval) ident(name string) Val {
	if v, ok := ev.lookup(name); ok {
		return v
	}
	tb := ev.x.tb
	switch name {
	case "true":
		return mBool(tb.True)
	case "false":
		return mBool(tb.False)
	case "nil":
		return Val{types.Typ[types.UntypedNil], []*Term{tb.Null}}
	}
	if e, ok := ev.lets[name]; ok {
		// lets are evaluated in the old state
		sv, so := ev.st, ev.inOld
		if ev.oldSt != nil {
			ev.st = ev.oldSt
		}
		v := ev.eval(e)
		ev.st, ev.inOld = sv, so
		return v
	}
	if m := ev.x.specs.macros[name]; m != nil && len(m.params) == 0 {
		return ev.macro(m, nil)
	}
	if ev.pkg != nil {
		if _, ok := ev.pkg.Members[name]; ok {
			return ev.pkgMember(ev.pkg, name)
		}
	}
	ev.err("unknown identifier %s", name)
	return Val{}
}

func (ev *Eval) pkgByName(n string) *ssa.Package {
	for _, p := range ev.x.p.repoPkgs {
		if p.Pkg.Name() == n {
			return p
		}
	}
	for _, cand := range []string{n, "encoding/" + n, "crypto/" + n} {
		if p := ev.x.p.pkgBy[cand]; p != nil {
			return p
		}
	}
	return nil
}

func (ev *Eval) pkgMember(p *ssa.Package, name string) Val {
	switch m := p.Members[name].(type) {
	case *ssa.NamedConst:
		return ev.x.constVal(m.Value)
	case *ssa.Global:
		t := m.Type().Underlying().(*types.Pointer).Elem()
		hs := ev.hst()
		var r Val
		if isRepo(p.Pkg) {
			r = ev.x.load(hs, t, ev.x.globRef(m))
		} else {
			r = ev.x.extGlobal(hs, m)
		}
		ev.flush(hs)
		return r
	}
	ev.err("no member %s.%s", p.Pkg.Name(), name)
	return Val{}
}

func (ev *Eval) field(v Val, name string) Val {
	t := v.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		hs := ev.hst()
		i := fieldIdx(p.Elem(), name)
		if i < 0 {
			ev.err("no field %s in %s", name, p.Elem())
		}
		r := ev.x.loadField(hs, p.Elem(), v.L[0], i)
		ev.flush(hs)
		return r
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				a, b := ev.x.p.fieldRange(s, i)
				return Val{s.Field(i).Type(), v.L[a:b]}
			}
		}
	}
	ev.err("no field %s in %s", name, t)
	return Val{}
}

func (ev *Eval) binary(n *ast.BinaryExpr) Val {
	x, tb := ev.x, ev.x.tb
	switch n.Op {
	case token.LAND:
		a := ev.boolean(n.X)
		if a == tb.False {
			return mBool(a)
		}
		return mBool(tb.And(a, ev.boolean(n.Y)))
	case token.LOR:
		a := ev.boolean(n.X)
		if a == tb.True {
			return mBool(a)
		}
		return mBool(tb.Or(a, ev.boolean(n.Y)))
	}
	a, b := ev.eval(n.X), ev.eval(n.Y)
	switch n.Op {
	case token.EQL:
		return mBool(ev.equal(a, b))
	case token.NEQ:
		return mBool(tb.Not(ev.equal(a, b)))
	}
	if len(a.L) != 1 || len(b.L) != 1 {
		ev.err("operands of %s", n.Op)
	}
	u, v := a.L[0], b.L[0]
	if u.sort == SBlob && n.Op == token.ADD {
		return Val{a.T, []*Term{tb.App("bcat", SBlob, u, v)}}
	}
	if u.sort != SInt || v.sort != SInt {
		ev.err("integer operands expected: %s", exprStr(n))
	}
	switch n.Op {
	case token.LSS:
		return mBool(tb.Lt(u, v))
	case token.LEQ:
		return mBool(tb.Le(u, v))
	case token.GTR:
		return mBool(tb.Gt(u, v))
	case token.GEQ:
		return mBool(tb.Ge(u, v))
	case token.ADD:
		return mInt(tb.Add(u, v))
	case token.SUB:
		return mInt(tb.Sub(u, v))
	case token.MUL:
		return mInt(tb.Mul(u, v))
	case token.QUO:
		if v.isInt() && v.c.Sign() > 0 {
			return mInt(tb.Div(u, v.c))
		}
	case token.REM:
		if v.isInt() && v.c.Sign() > 0 {
			return mInt(tb.Mod(u, v.c))
		}
	case token.AND:
		return mInt(x.bitAnd(ev.hst(), u, v, types.Typ[types.Uint64]))
	case token.SHL:
		if v.isInt() {
			return mInt(tb.MulC(u, new(big.Int).Lsh(bi(1), uint(v.c.Int64()))))
		}
	}
	ev.err("operator %s in %s", n.Op, exprStr(n))
	return Val{}
}

func (ev *Eval) equal(a, b Val) *Term {
	tb := ev.x.tb
	an := isUntypedNil(a.T)
	bn := isUntypedNil(b.T)
	if an && !bn {
		a, b = b, a
		bn = true
	}
	if bn {
		switch a.T.Underlying().(type) {
		case *types.Interface:
			return tb.Eq(a.L[0], tb.Int(0))
		}
		return tb.Eq(a.L[0], tb.Null)
	}
	if len(a.L) != len(b.L) {
		ev.err("comparison of %s and %s", a.T, b.T)
	}
	if _, ok := a.T.Underlying().(*types.Slice); ok { // same slice header (without capacity)
		return tb.And(tb.Eq(a.L[0], b.L[0]), tb.Eq(a.L[1], b.L[1]), tb.Eq(a.L[2], b.L[2]))
	}
	var cs []*Term
	for i := range a.L {
		if a.L[i].sort != b.L[i].sort {
			ev.err("comparison of %s and %s", a.T, b.T)
		}
		cs = append(cs, tb.Eq(a.L[i], b.L[i]))
	}
	return tb.And(cs...)
}

func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (ev *Eval) index(v, i Val) Val {
	x, tb := ev.x, ev.x.tb
	if v.T == tyView {
		return mInt(tb.Select(v.L[0], tb.Add(v.L[1], i.L[0])))
	}
	switch u := v.T.Underlying().(type) {
	case *types.Slice:
		hs := ev.hst()
		r := x.load(hs, u.Elem(), tb.Elm(v.L[0], tb.Add(v.L[1], i.L[0])))
		ev.flush(hs)
		return r
	case *types.Map:
		hs := ev.hst()
		r, _ := x.mapGet(hs, u, v.L[0], i)
		ev.flush(hs)
		return r
	case *types.Array:
		r := Val{T: u.Elem()}
		for _, a := range v.L {
			r.L = append(r.L, tb.Select(a, i.L[0]))
		}
		return r
	case *types.Pointer:
		if at, ok := u.Elem().Underlying().(*types.Array); ok {
			hs := ev.hst()
			r := x.load(hs, at.Elem(), tb.Elm(v.L[0], i.L[0]))
			ev.flush(hs)
			return r
		}
	}
	if len(v.L) == 1 && v.L[0].sort == SBlob {
		return mInt(tb.App("bat", SInt, v.L[0], i.L[0]))
	}
	ev.err("index of %s", v.T)
	return Val{}
}

// bytes value as a view
func (ev *Eval) view(v Val) Val {
	x, tb := ev.x, ev.x.tb
	if v.T == tyView {
		return v
	}
	if s, ok := v.T.Underlying().(*types.Slice); ok {
		ls := x.p.Leaves(s.Elem())
		if len(ls) != 1 {
			ev.err("view of %s", v.T)
		}
		hs := ev.hst()
		a := x.mem(hs, s.Elem(), ls[0], v.L[0])
		ev.flush(hs)
		return Val{tyView, []*Term{a, v.L[1], v.L[2]}}
	}
	if len(v.L) == 1 && v.L[0].sort == SBlob {
		return Val{tyView, []*Term{tb.App("bytesOf", SArr(SInt, SInt), v.L[0]), tb.Int(0), tb.App("blen", SInt, v.L[0])}}
	}
	ev.err("view of %s", v.T)
	return Val{}
}

func (ev *Eval) blob(v Val) *Term {
	if len(v.L) == 1 && v.L[0].sort == SBlob {
		return v.L[0]
	}
	if at, ok := v.T.Underlying().(*types.Array); ok && len(v.L) == 1 {
		return ev.x.tb.App("content", SBlob, v.L[0], ev.x.tb.Int(0), ev.x.tb.Int(at.Len()))
	}
	w := ev.view(v)
	return ev.x.tb.App("content", SBlob, w.L[0], w.L[1], w.L[2])
}

func (ev *Eval) le(v Val, off *Term, n int) *Term {
	w := ev.view(v)
	return ev.x.tb.LeV(w.L[0], ev.x.tb.Add(w.L[1], off), n, false)
}

func (ev *Eval) viewOrBlob(v Val) Val {
	if len(v.L) == 1 && v.L[0].sort == SBlob {
		return v
	}
	return ev.view(v)
}

func (ev *Eval) withState(st *State, inOld bool, f func() Val) Val {
	s, o := ev.st, ev.inOld
	if st == nil {
		ev.err("no such state")
	}
	ev.st, ev.inOld = st, inOld
	defer func() { ev.st, ev.inOld = s, o }()
	return f()
}

func (ev *Eval) call(n *ast.CallExpr) Val {
	x, tb := ev.x, ev.x.tb
	name := ""
	switch f := n.Fun.(type) {
	case *ast.Ident:
		name = f.Name
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			name = id.Name + "." + f.Sel.Name
		}
	}
	a := n.Args
	switch name {
	case "imp":
		c := ev.boolean(a[0])
		if c == tb.False {
			return mBool(tb.True)
		}
		return mBool(tb.Implies(c, ev.boolean(a[1])))
	case "iff":
		return mBool(tb.Iff(ev.boolean(a[0]), ev.boolean(a[1])))
	case "ite":
		c := ev.boolean(a[0])
		if c == tb.True {
			return ev.eval(a[1])
		}
		if c == tb.False {
			return ev.eval(a[2])
		}
		p, q := ev.eval(a[1]), ev.eval(a[2])
		if len(p.L) != len(q.L) {
			ev.err("ite branches")
		}
		r := Val{T: p.T}
		for i := range p.L {
			r.L = append(r.L, tb.Ite(c, p.L[i], q.L[i]))
		}
		return r
	case "forall", "exists":
		return ev.quant(name, a)
	case "old":
		return ev.withState(ev.oldSt, ev.inOld, func() Val { return ev.eval(a[0]) })
	case "pre":
		return ev.withState(ev.pre, true, func() Val { return ev.eval(a[0]) })
	case "len":
		return mInt(ev.length(ev.eval(a[0])))
	case "cap":
		return mInt(ev.eval(a[0]).L[3])
	case "content", "blob":
		return mBlob(ev.blob(ev.eval(a[0])))
	case "view":
		return ev.view(ev.eval(a[0]))
	case "filev": // content of a file-like reader
		v := ev.eval(a[0])
		r := v.L[len(v.L)-1]
		x.ghostRange("fmem")
		x.ghostRange("flen")
		return Val{tyView, []*Term{tb.Select(x.hget(ev.st, "g:fmem", SArr(SRef, SArr(SInt, SInt))), r), tb.Int(0), tb.Select(x.hget(ev.st, "g:flen", SArr(SRef, SInt)), r)}}
	case "le16", "le32", "le64":
		off := tb.Int(0)
		if len(a) > 1 {
			off = ev.intv(a[1])
		}
		k := map[string]int{"le16": 2, "le32": 4, "le64": 8}[name]
		return mInt(ev.le(ev.eval(a[0]), off, k))
	case "int32", "uint32", "int64", "uint64", "int", "uint8", "byte", "int16", "uint16", "uint":
		v := ev.eval(a[0])
		t := types.Universe.Lookup(name).Type()
		return Val{t, []*Term{x.wrap(nil, v.L[0], t)}}
	case "mathint":
		return mInt(ev.intv(a[0]))
	case "string":
		return Val{tyString, []*Term{ev.blob(ev.eval(a[0]))}}
	case "in": // in(k, m)
		k, m := ev.eval(a[0]), ev.eval(a[1])
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			ev.err("in: not a map")
		}
		hs := ev.hst()
		d := x.mapDom(hs, mt, m.L[0])
		ev.flush(hs)
		r := tb.Select(d, k.L[0])
		if m.L[0].op != OBase {
			r = tb.And(tb.Not(tb.Eq(m.L[0], tb.Null)), r)
		}
		return mBool(r)
	case "rem": // remaining bytes of a *bytes.Buffer (or *bytes.Reader)
		v := ev.eval(a[0])
		return ev.rem(v)
	case "typeis":
		v := ev.eval(a[0])
		t := ev.typeArg(a[1])
		return mBool(tb.Eq(v.L[0], tb.Int(int64(x.p.Tag(t)))))
	case "as":
		v := ev.eval(a[0])
		t := ev.typeArg(a[1])
		hs := ev.hst()
		r := x.unbox(hs, v, t)
		ev.flush(hs)
		return r
	case "ptr": // ptr(refexpr, "T")
		v := ev.eval(a[0])
		t := ev.typeArg(a[1])
		return Val{t, []*Term{v.L[len(v.L)-1]}}
	case "isnew": // did not exist at function entry / before the call
		v := ev.eval(a[0])
		r := v.L[0]
		if len(v.L) == 2 {
			r = v.L[1]
		}
		return mBool(ev.isNew(r))
	case "born":
		v := ev.eval(a[0])
		return mInt(tb.App("born", SInt, v.L[0]))
	case "aged": // exists already
		v := ev.eval(a[0])
		r := v.L[0]
		if len(v.L) == 2 {
			r = v.L[1]
		}
		return mBool(tb.Le(tb.App("born", SInt, r), tb.Int(int64(ev.st.epoch))))
	case "refof":
		v := ev.eval(a[0])
		if len(v.L) == 2 {
			return Val{tyRefS, []*Term{v.L[1]}}
		}
		return Val{tyRefS, []*Term{v.L[0]}}
	case "offof":
		return mInt(ev.eval(a[0]).L[1])
	case "addr": // addr(p, field): reference of an embedded struct/array field
		v := ev.eval(a[0])
		pt := v.T.Underlying().(*types.Pointer).Elem()
		fn := a[1].(*ast.Ident).Name
		i := fieldIdx(pt, fn)
		f := pt.Underlying().(*types.Struct).Field(i)
		return Val{types.NewPointer(f.Type()), []*Term{x.fieldAddr(pt, v.L[0], i)}}
	case "elem": // elem(s, i): pointer to element
		v := ev.eval(a[0])
		i := ev.intv(a[1])
		et := v.T.Underlying().(*types.Slice).Elem()
		return Val{types.NewPointer(et), []*Term{tb.Elm(v.L[0], tb.Add(v.L[1], i))}}
	case "visited":
		k := ev.eval(a[0])
		if ev.rng == nil {
			ev.err("visited outside a range loop")
		}
		ks := k.L[0].sort
		return mBool(tb.Select(x.hget(ev.st, "iter:"+ks.k, SArr(SRef, SArr(ks, SBool))), ev.rng))._sel(tb, k.L[0])
	case "g": // ghost field: g(obj, name) -> heap map "g:name"
		return ev.ghostField(a)
	case "nilslice":
		return mBool(tb.Eq(ev.eval(a[0]).L[0], tb.Null))
	case "sameview":
		p, q := ev.eval(a[0]), ev.eval(a[1])
		return mBool(tb.And(tb.Eq(p.L[0], q.L[0]), tb.Eq(p.L[1], q.L[1]), tb.Eq(p.L[2], q.L[2])))
	case "sameslice":
		p, q := ev.eval(a[0]), ev.eval(a[1])
		return mBool(tb.And(tb.Eq(p.L[0], q.L[0]), tb.Eq(p.L[1], q.L[1]), tb.Eq(p.L[2], q.L[2])))
	case "unchanged": // unchanged(key-pattern): whole heap map as at entry for old objects
		ev.err("unchanged not supported")
	case "bit": // bit(x, k) for constant k
		u, k := ev.intv(a[0]), ev.intv(a[1])
		return mInt(tb.Mod(tb.Div(u, new(big.Int).Lsh(bi(1), uint(k.c.Int64()))), bi(2)))
	case "seq": // seq(view/slice): array leaf
		return Val{tyArr, []*Term{ev.view(ev.eval(a[0])).L[0]}}
	}
	if m := x.specs.macros[name]; m != nil {
		var args []Val
		for _, e := range a {
			args = append(args, ev.eval(e))
		}
		return ev.macro(m, args)
	}
	// conversion to a repo named type
	if ev.pkg != nil {
		if t, ok := ev.pkg.Members[name].(*ssa.Type); ok && len(a) == 1 {
			v := ev.eval(a[0])
			return Val{t.Type(), v.L}
		}
	}
	ev.err("unknown function %s", name)
	return Val{}
}

func (v Val) _sel(tb *TB, k *Term) Val { return Val{v.T, []*Term{tb.Select(v.L[0], k)}} }

func (ev *Eval) isNew(r *Term) *Term {
	tb := ev.x.tb
	ep := int64(0)
	if ev.oldSt != nil {
		ep = int64(ev.oldSt.epoch)
	}
	root := rootOf(r)
	if root.op == OBase && root.args[0].isInt() {
		if root.args[0].c.Int64() > ep {
			return tb.True
		}
	}
	return tb.Lt(tb.Int(ep), tb.App("born", SInt, r))
}

func (ev *Eval) rem(v Val) Val {
	x, tb := ev.x, ev.x.tb
	hs := ev.hst()
	defer ev.flush(hs)
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		ev.err("rem of %s", v.T)
	}
	if typeKey(pt.Elem()) == "bytes.Reader" {
		b := x.loadFieldByName(hs, pt.Elem(), v.L[0], "s")
		i := x.loadFieldByName(hs, pt.Elem(), v.L[0], "i")
		return Val{b.T, []*Term{b.L[0], tb.Add(b.L[1], i.L[0]), tb.Sub(b.L[2], i.L[0]), tb.Sub(b.L[3], i.L[0])}}
	}
	buf := x.loadFieldByName(hs, pt.Elem(), v.L[0], "buf")
	off := x.loadFieldByName(hs, pt.Elem(), v.L[0], "off")
	if ev.qdepth == 0 {
		x.assume(hs, tb.And(tb.Le(tb.Int(0), off.L[0]), tb.Le(off.L[0], buf.L[2])))
	}
	return Val{buf.T, []*Term{buf.L[0], tb.Add(buf.L[1], off.L[0]), tb.Sub(buf.L[2], off.L[0]), tb.Sub(buf.L[3], off.L[0])}}
}

func (ev *Eval) typeArg(e ast.Expr) types.Type {
	s := ""
	if b, ok := e.(*ast.BasicLit); ok {
		s, _ = strconv.Unquote(b.Value)
	} else {
		s = exprStr(e)
	}
	t := ev.x.p.typeByName(s, ev.pkg)
	if t == nil {
		ev.err("unknown type %s", s)
	}
	return t
}

func (p *Prog) typeByName(s string, pkg *ssa.Package) types.Type {
	if strings.HasPrefix(s, "*") {
		if t := p.typeByName(s[1:], pkg); t != nil {
			return types.NewPointer(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "[]") {
		if t := p.typeByName(s[2:], pkg); t != nil {
			return types.NewSlice(t)
		}
		return nil
	}
	if strings.HasPrefix(s, "map[") {
		if i := strings.IndexByte(s, ']'); i > 0 {
			k, v := p.typeByName(s[4:i], pkg), p.typeByName(s[i+1:], pkg)
			if k != nil && v != nil {
				return types.NewMap(k, v)
			}
		}
		return nil
	}
	if o := types.Universe.Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.LastIndexByte(s, '.'); i > 0 {
		pn, tn := s[:i], s[i+1:]
		for _, path := range p.pkgPaths() {
			sp := p.pkgBy[path]
			if path == pn || shortPkg(sp.Pkg) == pn || sp.Pkg.Name() == pn && (isRepo(sp.Pkg) || strings.HasSuffix(path, "/"+pn)) {
				if t, ok := sp.Members[tn].(*ssa.Type); ok {
					return t.Type()
				}
			}
		}
		return nil
	}
	if pkg != nil {
		if t, ok := pkg.Members[s].(*ssa.Type); ok {
			return t.Type()
		}
	}
	return nil
}

func specSort(s string) (types.Type, *Sort) {
	switch s {
	case "int":
		return tyMath, SInt
	case "bool", "":
		return tyBool, SBool
	case "blob", "string":
		return tyBlob, SBlob
	case "ref":
		return tyRefS, SRef
	case "arr":
		return tyArr, SArr(SInt, SInt)
	case "refarr":
		return tyArr, SArr(SInt, SRef)
	}
	return nil, nil
}

// ghost-function argument leaves: slices are passed by content
func (ev *Eval) ghostArgs(args []Val) []*Term {
	var r []*Term
	for _, a := range args {
		if s, ok := a.T.Underlying().(*types.Slice); ok {
			ls := ev.x.p.Leaves(s.Elem())
			if isStruct(s.Elem()) || len(ls) > 2 {
				r = append(r, a.L[0], a.L[1], a.L[2])
				continue
			}
			hs := ev.hst()
			for _, l := range ls {
				r = append(r, ev.x.mem(hs, s.Elem(), l, a.L[0]))
			}
			ev.flush(hs)
			r = append(r, a.L[1], a.L[2])
			continue
		}
		if at, ok := a.T.Underlying().(*types.Array); ok && len(a.L) == 1 && a.L[0].sort == SArr(SInt, SInt) {
			r = append(r, a.L[0], ev.x.tb.Int(0), ev.x.tb.Int(at.Len()))
			continue
		}
		r = append(r, a.L...)
	}
	return r
}

func (ev *Eval) macro(m *Macro, args []Val) Val {
	x, tb := ev.x, ev.x.tb
	if len(args) != len(m.params) {
		ev.err("%s: %d arguments, want %d", m.name, len(args), len(m.params))
	}
	for i := range args {
		switch m.ptypes[i] {
		case "view":
			args[i] = ev.view(args[i])
		case "blob":
			args[i] = mBlob(ev.blob(args[i]))
		case "int":
			if len(args[i].L) != 1 || args[i].L[0].sort != SInt {
				ev.err("%s: argument %d not an integer", m.name, i)
			}
			args[i] = mInt(args[i].L[0])
		case "ref":
			if len(args[i].L) == 2 {
				args[i] = Val{tyRefS, []*Term{args[i].L[1]}}
			} else {
				args[i] = Val{tyRefS, []*Term{args[i].L[0]}}
			}
		}
	}
	if m.rec || m.ghost {
		t, srt := specSort(m.ret)
		if srt == nil {
			gt := x.p.typeByName(m.ret, ev.pkg)
			if gt == nil {
				ev.err("%s: result type %q", m.name, m.ret)
			}
			// multi-leaf result: one function per leaf
			r := Val{T: gt}
			ga := ev.ghostArgs(args)
			for _, l := range x.p.Leaves(gt) {
				at := tb.App("G:"+m.name+l.path, l.sort, ga...)
				r.L = append(r.L, at)
			}
			if ev.qdepth == 0 {
				hs := ev.hst()
				x.typeFacts(hs, r, 0)
				ev.flush(hs)
			}
			return r
		}
		fa := args
		if m.crec {
			x.specs.checkContentOnly(m, map[string]bool{})
			fa = nil
			for _, a := range args {
				if a.T == tyView {
					a = mBlob(ev.blob(a))
				}
				fa = append(fa, a)
			}
		}
		ga := ev.ghostArgs(fa)
		app := tb.App("G:"+m.name, srt, ga...)
		if m.rec && ev.qdepth == 0 && !app.hasBV && ev.sink != nil {
			ev.unfold(m, args, app, 0)
		}
		return Val{t, []*Term{app}}
	}
	return ev.inlineMacro(m, args)
}

func (ev *Eval) inlineMacro(m *Macro, args []Val) Val {
	if ev.depth > 60 {
		ev.err("macro depth")
	}
	ev.depth++
	sb, sp, sl, sr := ev.bind, ev.preBind, ev.lets, ev.inOld
	nb := map[string]Val{}
	for i, p := range m.params {
		nb[p] = args[i]
	}
	ev.bind, ev.preBind, ev.lets, ev.inOld = nb, map[string]Val{}, nil, false
	v := ev.eval(m.body)
	ev.bind, ev.preBind, ev.lets, ev.inOld = sb, sp, sl, sr
	ev.depth--
	return v
}

// assume app == body, once per state and application
func (ev *Eval) unfold(m *Macro, args []Val, app *Term, d int) {
	x, tb := ev.x, ev.x.tb
	if ev.noUnf {
		return
	}
	k := fmt.Sprintf("unf:%d", app.id)
	for f := ev.sink.facts; f != nil; f = f.prev {
		if f.tag == k {
			return
		}
	}
	ev.noUnf = true
	v := ev.inlineMacro(m, args)
	ev.noUnf = false
	eq := tb.Eq(app, v.L[0])
	if eq == tb.True {
		return
	}
	ev.sink.facts = &Fact{t: eq, prev: ev.sink.facts, tag: k}
	_ = x
}

func (ev *Eval) ghostField(a []ast.Expr) Val {
	x := ev.x
	v := ev.eval(a[0])
	name := a[1].(*ast.Ident).Name
	r := v.L[0]
	if len(v.L) == 2 {
		r = v.L[1]
	}
	t, s := specSort(ghostFields[name])
	if s == nil {
		ev.err("ghost field %s", name)
	}
	return Val{t, []*Term{x.tb.Select(x.hget(ev.st, "g:"+name, SArr(SRef, s)), r)}}
}

var ghostFields = map[string]string{
	"pos":  "int",  // file position of an io.ReadSeeker
	"fmem": "arr",  // file content
	"flen": "int",  // file size
	"fok":  "bool", // the file never fails to seek or to read bytes it has
	"hout": "blob", // bytes written to a hash / writer so far
	"halg": "int",
	"zcur": "blob", // content an archive entry currently reads as
	"bigv": "int",  // value of a big.Int
	"keyb": "blob", // encoded public key a parsed key object came from
}

func (ev *Eval) quant(kind string, a []ast.Expr) Val {
	// forall(i, body) / forall(i, "T", body) / forall(i, j, trig(..), body)
	x, tb := ev.x, ev.x.tb
	body := a[len(a)-1]
	var trigs []*ast.CallExpr
	var names []string
	var tys []types.Type
	for k := 0; k < len(a)-1; k++ {
		switch n := a[k].(type) {
		case *ast.Ident:
			names = append(names, n.Name)
			tys = append(tys, tyMath)
		case *ast.BasicLit:
			s, _ := strconv.Unquote(n.Value)
			t, srt := specSort(s)
			if s == "view" {
				t = tyView
			} else if srt == nil {
				t = x.p.typeByName(s, ev.pkg)
			}
			if t == nil {
				ev.err("quantifier type %s", s)
			}
			tys[len(tys)-1] = t
		case *ast.CallExpr:
			trigs = append(trigs, n)
		}
	}
	saved := map[string]*Val{}
	var bound []*Term
	for i, n := range names {
		if v, ok := ev.bind[n]; ok {
			vv := v
			saved[n] = &vv
		} else {
			saved[n] = nil
		}
		v := Val{T: tys[i]}
		var ls []Leaf
		if st, ok := tys[i].(*specType); ok {
			_, srt := specSort(st.name)
			if st == tyView {
				ls = []Leaf{{".a", SArr(SInt, SInt), nil, nil}, {".o", SInt, nil, nil}, {".l", SInt, nil, nil}}
			} else {
				ls = []Leaf{{"", srt, nil, nil}}
			}
		} else if tys[i] == tyMath {
			ls = []Leaf{{"", SInt, nil, nil}}
		} else {
			ls = x.p.Leaves(tys[i])
		}
		for _, l := range ls {
			bv := tb.Var(fmt.Sprintf("?%s%d%s%s", n, ev.qdepth, l.path, sortTag(l.sort)), l.sort)
			bound = append(bound, bv)
			v.L = append(v.L, bv)
		}
		ev.bind[n] = v
	}
	ev.qdepth++
	b := ev.boolean(body)
	var pats [][]*Term
	for _, t := range trigs {
		var p []*Term
		for _, e := range t.Args {
			tv := ev.eval(e)
			pt := tv.L[len(tv.L)-1]
			for pt.op == OIte { // a value read from a map: the stored value
				pt = pt.args[1]
			}
			for pt.op == OAnd || pt.op == ONot { // in(k, m): the lookup itself
				q := pt.args[0]
				for _, a := range pt.args {
					if a.hasBV && (a.op == OSelect || a.op == OApp) {
						q = a
					}
				}
				pt = q
			}
			p = append(p, pt)
		}
		pats = append(pats, p)
	}
	ev.qdepth--
	for n, v := range saved {
		if v == nil {
			delete(ev.bind, n)
		} else {
			ev.bind[n] = *v
		}
	}
	if len(pats) == 0 {
		pats = inferPats(b, bound)
	}
	op := OForall
	if kind == "exists" {
		op = OExists
	}
	return mBool(tb.Quant(op, bound, pats, b))
}

func sortTag(s *Sort) string {
	if s == SInt {
		return ""
	}
	return ":" + s.String()
}

// pick select/app subterms covering all bound variables
func inferPats(b *Term, bound []*Term) [][]*Term {
	var best []*Term
	seen := map[*Term]bool{}
	covers := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		var w func(t *Term)
		w = func(t *Term) {
			if !t.hasBV {
				return
			}
			for _, v := range bound {
				if t == v {
					m[v] = true
				}
			}
			for _, a := range t.args {
				w(a)
			}
		}
		w(t)
		return m
	}
	simple := func(t *Term) bool { // no interpreted arithmetic beyond linear offset
		return true
	}
	var cands []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.op == OForall || t.op == OExists {
			return
		}
		if (t.op == OSelect || t.op == OApp) && simple(t) {
			cands = append(cands, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(b)
	sort.Slice(cands, func(i, j int) bool {
		if cands[i].size != cands[j].size {
			return cands[i].size < cands[j].size
		}
		return cands[i].id < cands[j].id
	})
	var out [][]*Term
	for _, c := range cands {
		if len(covers(c)) == len(bound) {
			out = append(out, []*Term{c})
			if len(out) >= 3 {
				break
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	need := map[*Term]bool{}
	for _, v := range bound {
		need[v] = true
	}
	for _, c := range cands {
		cv := covers(c)
		use := false
		for v := range cv {
			if need[v] {
				use = true
			}
		}
		if use {
			best = append(best, c)
			for v := range cv {
				delete(need, v)
			}
		}
	}
	if len(need) == 0 && len(best) > 0 {
		return [][]*Term{best}
	}
	return nil
}

// axioms are asserted as facts in the entry state
func (x *Exec) assumeAxioms(st *State) {
	for _, a := range x.specs.axioms {
		ev := x.newEval(st)
		ev.bind = map[string]Val{}
		ev.lets = nil
		var ids []ast.Expr
		for i, v := range a.vars {
			ids = append(ids, &ast.Ident{Name: v}, &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(a.types[i])})
		}
		for _, t := range a.trigs {
			ids = append(ids, &ast.CallExpr{Fun: &ast.Ident{Name: "trig"}, Args: t})
		}
		ids = append(ids, a.body)
		if len(a.vars) == 0 {
			x.assume(st, ev.boolean(a.body))
			continue
		}
		x.assume(st, ev.quant("forall", ids).L[0])
	}
}

// ---------- modifies locations

type modLoc struct {
	key  string
	sort *Sort
	ref  *Term // nil: whole map
}

func (ev *Eval) modLocs(e ast.Expr) []modLoc {
	x := ev.x
	var out []modLoc
	add := func(key string, l Leaf, ref *Term) {
		x.setRange(key, l)
		out = append(out, modLoc{key, l.sort, ref})
	}
	var addField func(t types.Type, ref *Term, i int)
	addField = func(t types.Type, ref *Term, i int) {
		f := t.Underlying().(*types.Struct).Field(i)
		fk := fieldKey(t, f)
		switch fu := f.Type().Underlying().(type) {
		case *types.Struct:
			for j := 0; j < fu.NumFields(); j++ {
				if ref == nil {
					addField(f.Type(), nil, j)
				} else {
					addField(f.Type(), x.tb.Fld(ref, fk), j)
				}
			}
		case *types.Array:
			for _, l := range x.p.Leaves(fu.Elem()) {
				if ref == nil {
					add(memKey(fu.Elem(), l), x.memLeaf2(l), nil)
				} else {
					add(memKey(fu.Elem(), l), x.memLeaf2(l), x.tb.Fld(ref, fk))
				}
			}
		default:
			for _, l := range x.p.Leaves(f.Type()) {
				add(fk+l.path, l, ref)
			}
		}
	}
	switch n := e.(type) {
	case *ast.SelectorExpr:
		v := ev.eval(n.X)
		p, ok := v.T.Underlying().(*types.Pointer)
		if !ok {
			ev.err("modifies %s", exprStr(e))
		}
		i := fieldIdx(p.Elem(), n.Sel.Name)
		if i < 0 {
			ev.err("no field %s", n.Sel.Name)
		}
		addField(p.Elem(), v.L[0], i)
		return out
	case *ast.StarExpr:
		v := ev.eval(n.X)
		p := v.T.Underlying().(*types.Pointer)
		if s, ok := p.Elem().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				addField(p.Elem(), v.L[0], i)
			}
			return out
		}
		for _, l := range x.p.Leaves(p.Elem()) {
			switch v.L[0].op {
			case OFld:
				add(v.L[0].name+l.path, l, v.L[0].args[0])
			default:
				add("cell:"+elemKey(p.Elem())+l.path, l, v.L[0])
			}
		}
		return out
	case *ast.CallExpr:
		fn := n.Fun.(*ast.Ident).Name
		switch fn {
		case "elems":
			v := ev.eval(n.Args[0])
			et := v.T.Underlying().(*types.Slice).Elem()
			for _, l := range x.p.Leaves(et) {
				add(memKey(et, l), x.memLeaf2(l), v.L[0])
			}
			return out
		case "mapof":
			v := ev.eval(n.Args[0])
			mt := v.T.Underlying().(*types.Map)
			p, ks, vl := x.mapKeys(mt)
			add(p+"#dom", Leaf{"", SArr(ks, SBool), nil, nil}, v.L[0])
			add(p+"#len", Leaf{"", SInt, bi(0), maxLen}, v.L[0])
			for _, l := range vl {
				add(p+"#val"+l.path, Leaf{"", SArr(ks, l.sort), l.lo, l.hi}, v.L[0])
			}
			return out
		case "g":
			v := ev.eval(n.Args[0])
			r := v.L[0]
			if len(v.L) == 2 {
				r = v.L[1]
			}
			name := n.Args[1].(*ast.Ident).Name
			_, s := specSort(ghostFields[name])
			add("g:"+name, Leaf{"", s, nil, nil}, r)
			return out
		case "allghost": // allghost(name): a ghost field of every object
			name := n.Args[0].(*ast.Ident).Name
			_, s := specSort(ghostFields[name])
			add("g:"+name, Leaf{"", s, nil, nil}, nil)
			return out
		case "all": // all("T", field): the field of every object
			t := ev.typeArg(n.Args[0])
			i := fieldIdx(t, n.Args[1].(*ast.Ident).Name)
			addField(t, nil, i)
			return out
		case "allof": // every field of every object of type T
			t := ev.typeArg(n.Args[0])
			for i := 0; i < t.Underlying().(*types.Struct).NumFields(); i++ {
				addField(t, nil, i)
			}
			return out
		case "allmem": // every slice element / array element of elem type T
			t := ev.typeArg(n.Args[0])
			for _, l := range x.p.Leaves(t) {
				add(memKey(t, l), x.memLeaf2(l), nil)
			}
			return out
		case "fileof": // position of a reader
			v := ev.eval(n.Args[0])
			add("g:pos", Leaf{"", SInt, nil, nil}, v.L[1])
			return out
		}
	}
	ev.err("modifies %s", exprStr(e))
	return nil
}

// ---------- applying a contract at a call

func (x *Exec) bindCall(ev *Eval, ct *Contract, f *ssa.Function, args []Val) {
	ev.bind = map[string]Val{}
	for i, n := range ct.params {
		a := args[i]
		a.T = paramType(f, i)
		ev.bind[n] = a
	}
	ev.setLets(ct)
	ev.pkg = f.Pkg
}

func paramType(f *ssa.Function, i int) types.Type {
	if r := f.Signature.Recv(); r != nil {
		if i == 0 {
			return r.Type()
		}
		i--
	}
	return f.Signature.Params().At(i).Type()
}

func (x *Exec) applyContract(st *State, ct *Contract, f *ssa.Function, args []Val, ret ssa.Value, pos tokenPos) bool {
	tb := x.tb
	x.used[ct.key] = true
	ev := x.newEval(st)
	ev.oldSt = st
	x.bindCall(ev, ct, f, args)
	for _, c := range ct.clauses {
		if c.kind == "requires" && x.specs.selected(c.props) {
			x.oblige(st, "requires", ct.key+": "+c.text, x.pos(pos), nil, ev.boolean(c.expr))
		}
	}
	if st.dead {
		return false
	}
	pre := st.clone()
	rt := resultType(f.Signature)
	st.epoch++
	// havoc
	evp := x.newEval(pre)
	evp.oldSt = pre
	x.bindCall(evp, ct, f, args)
	evp.sink = st
	for _, c := range ct.clauses {
		if c.kind != "modifies" || !x.specs.selected(c.props) {
			continue
		}
		mw := tb.True
		if c.when != nil {
			mw = evp.boolean(c.when)
			if mw == tb.False || x.entails(pre, tb.Not(mw)) {
				continue
			}
			if x.entails(pre, mw) {
				mw = tb.True
			}
		}
		for _, m := range evp.modLocs(c.expr) {
			if m.ref == nil {
				x.noteWhole(m.key)
				st.heap[m.key] = x.hfresh(st, m.key, SArr(SRef, m.sort))
				continue
			}
			v := x.freshLeaf(st, "mod:"+m.key, m.key, m.sort)
			x.noteWrite(st, m.key, m.sort, m.ref)
			h := x.hget(st, m.key, SArr(SRef, m.sort))
			if mw != tb.True {
				v = tb.Ite(mw, v, tb.Select(h, m.ref))
			}
			st.heap[m.key] = tb.Store(h, m.ref, v)
		}
	}
	res := x.freshVal(st, "r:"+f.Name(), rt)
	states := []*State{st}
	vals := []Val{res}
	// case splits
	for _, c := range ct.clauses {
		if c.kind != "cases" || !x.specs.selected(c.props) {
			continue
		}
		var ns []*State
		var nv []Val
		for i, s := range states {
			e2 := x.newEval(s)
			x.bindCall(e2, ct, f, args)
			e2.oldSt = pre
			x.bindResults(e2, ct, f, vals[i])
			cond := e2.boolean(c.expr)
			// result-determining case: err == nil makes the error concretely nil
			if s.dead {
				continue
			}
			if cond == tb.True || cond == tb.False {
				ns, nv = append(ns, s), append(nv, vals[i])
				continue
			}
			o := s.clone()
			ov := Val{vals[i].T, append([]*Term(nil), vals[i].L...)}
			sv := Val{vals[i].T, append([]*Term(nil), vals[i].L...)}
			x.assume(o, tb.Not(cond))
			x.assume(s, cond)
			concretize(tb, sv, cond)
			concretize(tb, ov, tb.Not(cond))
			ns = append(ns, s, o)
			nv = append(nv, sv, ov)
		}
		states, vals = ns, nv
	}
	cont := false
	for i, s := range states {
		v := vals[i]
		// fresh objects
		for _, c := range ct.clauses {
			if c.kind != "fresh" || !x.specs.selected(c.props) {
				continue
			}
			e2 := x.newEval(s)
			x.bindCall(e2, ct, f, args)
			e2.oldSt = pre
			x.bindResults(e2, ct, f, v)
			w := tb.True
			if c.when != nil {
				w = e2.boolean(c.when)
			}
			if w == tb.False {
				continue
			}
			if w != tb.True && !x.entailsQF(s, w) {
				fv := e2.eval(c.expr)
				x.assume(s, tb.Implies(w, tb.Lt(tb.Int(int64(pre.epoch)), tb.App("born", SInt, fv.L[0]))))
				continue
			}
			// replace the result reference by a new object
			fv := e2.eval(c.expr)
			nr := x.alloc(s)
			for j := range v.L {
				if v.L[j] == fv.L[0] {
					v.L[j] = nr
				} else if len(fv.L) == 2 && v.L[j] == fv.L[1] {
					v.L[j] = nr
				}
			}
		}
		e2 := x.newEval(s)
		x.bindCall(e2, ct, f, args)
		e2.oldSt = pre
		x.bindResults(e2, ct, f, v)
		for _, c := range ct.clauses {
			if c.kind != "sets" || !x.specs.selected(c.props) {
				continue
			}
			w := tb.True
			if c.when != nil {
				w = e2.boolean(c.when)
			}
			if w == tb.False {
				continue
			}
			if w == tb.True || x.entailsQF(s, w) {
				x.applySet(e2, s, c)
			} else {
				x.assume(s, tb.Implies(w, e2.setEq(c)))
			}
		}
		for _, c := range ct.clauses {
			if (c.kind == "ensures" || c.kind == "assume") && x.specs.selected(c.props) {
				if os.Getenv("GOVC_DBG") != "" {
					fmt.Fprintln(os.Stderr, "ASSUME", ct.key, c.text, e2.boolean(c.expr))
				}
				t := e2.boolean(c.expr)
				x.assume(s, t)
				x.closureFacts(s, t)
			}
		}
		if s.dead {
			continue
		}
		s.epoch++
		if len(states) > 1 && x.qf.Check(s.facts, nil, 300) == Unsat {
			continue
		}
		if ret != nil {
			s.top().env[ret] = Val{ret.Type(), v.L}
		}
		if s == st {
			cont = true
		} else {
			x.push(s)
		}
	}
	return cont
}

type tokenPos = token.Pos

// if cond is t == const for a result leaf, replace the leaf
func concretize(tb *TB, v Val, cond *Term) {
	set := func(a, c *Term) {
		for j := range v.L {
			if v.L[j] == a {
				v.L[j] = c
				// nil error: data word too
				if j+1 < len(v.L) && c.isInt() && c.c.Sign() == 0 && v.L[j+1].sort == SRef && strings.HasSuffix(v.L[j].name, "") && isTagLeaf(a) {
					v.L[j+1] = tb.Null
				}
			}
		}
	}
	switch cond.op {
	case OEq:
		a, b := cond.args[0], cond.args[1]
		if b.isInt() && a.op == OVar {
			set(a, b)
		} else if a.isInt() && b.op == OVar {
			set(b, a)
		}
	case OVar:
		if cond.sort == SBool {
			set(cond, tb.True)
		}
	case ONot:
		if cond.args[0].op == OVar {
			set(cond.args[0], tb.False)
		}
	}
}

func isTagLeaf(t *Term) bool { return t.op == OVar && strings.Contains(t.name, ".tag") }

func (x *Exec) bindResults(ev *Eval, ct *Contract, f *ssa.Function, res Val) {
	rs := f.Signature.Results()
	if rs.Len() == 1 {
		ev.bind[ct.results[0]] = Val{rs.At(0).Type(), res.L}
		return
	}
	o := 0
	for i := 0; i < rs.Len(); i++ {
		n := len(x.p.Leaves(rs.At(i).Type()))
		ev.bind[ct.results[i]] = Val{rs.At(i).Type(), res.L[o : o+n]}
		o += n
	}
}

// sets p.f = e : store into the caller's heap
func (x *Exec) applySet(ev *Eval, st *State, c *Clause) {
	v := ev.eval(c.expr)
	switch l := c.lhs.(type) {
	case *ast.SelectorExpr:
		b := ev.eval(l.X)
		pt := b.T.Underlying().(*types.Pointer).Elem()
		i := fieldIdx(pt, l.Sel.Name)
		x.storeField(st, pt, b.L[0], i, v.L)
		return
	case *ast.StarExpr:
		b := ev.eval(l.X)
		x.store(st, b.T.Underlying().(*types.Pointer).Elem(), b.L[0], v.L)
		return
	}
	ev.err("sets %s", exprStr(c.lhs))
}

func (ev *Eval) setEq(c *Clause) *Term {
	tb := ev.x.tb
	a, b := ev.eval(c.lhs), ev.eval(c.expr)
	var cs []*Term
	for i := range a.L {
		cs = append(cs, tb.Eq(a.L[i], b.L[i]))
	}
	return tb.And(cs...)
}

// package paths, shortest first
func (p *Prog) pkgPaths() []string {
	p.pathsOnce.Do(func() {
		p.paths = sortedKeys(p.pkgBy)
		sort.SliceStable(p.paths, func(i, j int) bool { return len(p.paths[i]) < len(p.paths[j]) })
	})
	return p.paths
}

// a crec function may look at its views only through content, length and little-endian integers
func (s *Specs) checkContentOnly(m *Macro, seen map[string]bool) {
	if seen[m.name] || m.body == nil {
		return
	}
	seen[m.name] = true
	ast.Inspect(m.body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		id, ok := c.Fun.(*ast.Ident)
		if !ok {
			panic("crec " + m.name + ": call")
		}
		switch id.Name {
		case "sameview", "sameslice", "refof", "offof", "seq", "isnew", "born", "nilslice", "addr", "elem", "visited", "g", "in", "rem", "old", "pre", "filev":
			panic("crec " + m.name + " must not use " + id.Name)
		}
		if d := s.macros[id.Name]; d != nil {
			s.checkContentOnly(d, seen)
		}
		return true
	})
}

// A contract that says a function value it was given accepted a digest (calledOK) is used together with the body of
// the closure: the body is executed on that digest and a fresh hasher, and what holds whenever it returns nil is
// assumed under calledOK.
func (x *Exec) closureFacts(s *State, e *Term) {
	tb := x.tb
	if s.dead || tb.funs["G:calledOK"] == nil {
		return
	}
	var found []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && t.name == "G:calledOK" && !t.hasBV {
			if _, ok := x.closures[t.args[0]]; ok {
				found = append(found, t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(e)
	for _, t := range found {
		cl := x.closures[t.args[0]]
		ps := cl.fn.Signature.Params()
		if ps.Len() != 2 || len(cl.fn.Blocks) == 0 {
			continue
		}
		b := s.clone()
		x.assume(b, t)
		if b.dead {
			continue
		}
		b.frames = nil
		b.epoch++
		d := x.bytesFromBlob(b, t.args[1])
		h := x.alloc(b)
		x.setGhost(b, "halg", h, t.args[2])
		x.setGhost(b, "hout", h, t.args[3])
		base := b.facts
		var alts []*Term
		nalloc, epoch := b.nalloc, b.epoch
		x.quiet++
		x.inline(b, cl.fn, []Val{d, {ps.At(1).Type(), []*Term{tb.Int(hashTag), h}}}, cl.binds, nil)
		b.top().onRet = func(st *State, res []*Term) bool {
			x.assume(st, tb.Eq(res[0], tb.Int(0)))
			if st.dead {
				return false
			}
			c := tb.True
			for f := st.facts; f != nil && f != base; f = f.prev {
				c = tb.And(c, f.t)
			}
			alts = append(alts, c)
			if st.nalloc > nalloc {
				nalloc = st.nalloc
			}
			if st.epoch > epoch {
				epoch = st.epoch
			}
			return false
		}
		x.explore([]*State{b})
		x.quiet--
		if x.timedOut {
			return
		}
		or := tb.False
		for _, a := range alts {
			or = tb.Or(or, a)
		}
		x.trust("a function value given to a contracted function is deterministic in the digest and the hasher state it is called with")
		s.nalloc, s.epoch = nalloc, epoch+1
		x.assume(s, tb.Implies(t, or))
	}
}
