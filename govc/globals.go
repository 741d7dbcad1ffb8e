package main

// Initial values of package-level tables. A package-level variable of the repository that is never reassigned
// outside package initialisation keeps the value its initialiser gives it: the SSA of the package initialiser is
// evaluated for constants, maps, arrays, slices, error values and functions.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type globInit struct {
	val   ssa.Value           // stored as a whole
	elems map[int64]ssa.Value // array elements
	ok    bool
}

// collects the stores of package initialisers, and withdraws tables that are written through elsewhere
func (p *Prog) scanInits() {
	p.ginit = map[*ssa.Global]*globInit{}
	for _, sp := range p.repoPkgs {
		f := sp.Func("init")
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				switch a := s.Addr.(type) {
				case *ssa.Global:
					gi := p.gi(a)
					if gi.val != nil {
						gi.ok = false
					}
					gi.val = s.Val
					if u, ok := s.Val.(*ssa.UnOp); ok && u.Op == token.MUL {
						if al, ok := u.X.(*ssa.Alloc); ok {
							for _, r := range *al.Referrers() {
								ia, ok := r.(*ssa.IndexAddr)
								if !ok {
									continue
								}
								c, isC := ia.Index.(*ssa.Const)
								for _, q := range *ia.Referrers() {
									if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
										if !isC {
											gi.ok = false
											break
										}
										gi.elems[c.Int64()] = st.Val
									}
								}
							}
						}
					}
				case *ssa.IndexAddr:
					if g, ok := a.X.(*ssa.Global); ok {
						gi := p.gi(g)
						c, ok := a.Index.(*ssa.Const)
						if !ok {
							gi.ok = false
							continue
						}
						gi.elems[c.Int64()] = s.Val
					}
				}
			}
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
					if g, ok := u.X.(*ssa.Global); ok && f.Name() != "init" && writesThrough(u, 0) {
						p.gi(g).ok = false
					}
				}
				if a, ok := in.(*ssa.IndexAddr); ok && f.Name() != "init" {
					if g, ok := a.X.(*ssa.Global); ok && writesThrough(a, 0) {
						p.gi(g).ok = false
					}
				}
			}
		}
	}
}

func (p *Prog) gi(g *ssa.Global) *globInit {
	r := p.ginit[g]
	if r == nil {
		r = &globInit{elems: map[int64]ssa.Value{}, ok: true}
		p.ginit[g] = r
	}
	return r
}

func writesThrough(v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		switch q := r.(type) {
		case *ssa.MapUpdate:
			if q.Map == v {
				return true
			}
		case *ssa.Store:
			if q.Addr == v {
				return true
			}
		case *ssa.IndexAddr:
			if writesThrough(q, depth+1) {
				return true
			}
		case *ssa.FieldAddr:
			if writesThrough(q, depth+1) {
				return true
			}
		case *ssa.Slice:
			if writesThrough(q, depth+1) {
				return true
			}
		case *ssa.Call:
			if b, ok := q.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "copy", "clear":
					if q.Call.Args[0] == v {
						return true
					}
				case "append":
					// copies (capacity exhausted: the literal's length equals its capacity)
				}
			}
		}
	}
	return false
}

func (x *Exec) globID(g *ssa.Global) *Term {
	return x.tb.Fld(x.tb.Base(0, x.tb.Int(-4)), "init:"+g.String())
}

// the frozen value of g; facts about what it points to are assumed in st
func (x *Exec) globalInit(st *State, g *ssa.Global) (v Val, ok bool) {
	if !x.p.frozen[g] {
		return
	}
	gi := x.p.ginit[g]
	if gi == nil || !gi.ok || gi.val == nil {
		return
	}
	v, ok = x.initVal(st, gi.val, g.String(), 0)
	if ok {
		x.trust("package-level tables of the repository keep their initial values (" + g.String() + ")")
	}
	return
}

func (x *Exec) globalElems(st *State, g *ssa.Global) {
	if !x.p.frozen[g] {
		return
	}
	gi := x.p.ginit[g]
	at, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok || gi == nil || !gi.ok || len(gi.elems) == 0 || at.Len() > 64 {
		return
	}
	ref := x.globRef(g)
	for i := int64(0); i < at.Len(); i++ {
		sv := gi.elems[i]
		var v Val
		if sv == nil {
			v = x.zero(at.Elem())
		} else if v, ok = x.initVal(st, sv, g.String(), 0); !ok {
			continue
		}
		if isStruct(at.Elem()) {
			continue
		}
		for j, l := range x.p.Leaves(at.Elem()) {
			x.assume(st, x.tb.Eq(x.tb.Select(x.mem(st, at.Elem(), l, ref), x.tb.Int(i)), v.L[j]))
		}
	}
	x.trust("package-level tables of the repository keep their initial values (" + g.String() + ")")
}

func (x *Exec) initVal(st *State, v ssa.Value, id string, depth int) (r Val, ok bool) {
	tb := x.tb
	if depth > 5 {
		return
	}
	obj := func(v ssa.Value) *Term { return tb.Fld(tb.Base(0, tb.Int(-4)), "init:"+id+":"+v.Name()) }
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c), true
	case *ssa.Function:
		return x.funcVal(c), true
	case *ssa.ChangeType:
		r, ok = x.initVal(st, c.X, id, depth+1)
		r.T = c.Type()
		return
	case *ssa.Convert:
		if r, ok = x.initVal(st, c.X, id, depth+1); ok {
			if _, isB := c.Type().Underlying().(*types.Basic); !isB {
				return r, false
			}
			r = x.convert(st, r, c.Type())
		}
		return
	case *ssa.UnOp:
		if g, isG := c.X.(*ssa.Global); isG && c.Op == token.MUL {
			if !isRepo(g.Pkg.Pkg) {
				return x.extGlobal(st, g), true
			}
			return x.globalInit(st, g)
		}
	case *ssa.MakeClosure:
		if len(c.Bindings) == 0 {
			return x.funcVal(c.Fn.(*ssa.Function)), true
		}
	case *ssa.Call:
		if f := c.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
			return Val{c.Type(), []*Term{tb.Int(int64(x.errTag())), obj(v)}}, true
		}
	case *ssa.MakeMap:
		mt := c.Type().Underlying().(*types.Map)
		if len(x.p.Leaves(mt.Key())) != 1 || c.Referrers() == nil {
			return
		}
		m := obj(v)
		_, ks, vl := x.mapKeys(mt)
		dom := tb.ConstArr(SArr(ks, SBool), tb.False)

		for _, q := range *c.Referrers() {
			switch u := q.(type) {
			case *ssa.MapUpdate:
				kv, ok1 := x.initVal(st, u.Key, id, depth+1)
				ev, ok2 := x.initVal(st, u.Value, id, depth+1)
				if !ok1 {
					return r, false
				}

				dom = tb.Store(dom, kv.L[0], tb.True)
				if ok2 {
					if _, isF := mt.Elem().Underlying().(*types.Signature); isF {
						x.initFuncs[m] = append(x.initFuncs[m], ev.L[0])
					}
					for j := range vl {
						x.assume(st, tb.Eq(x.mapVal(st, mt, m, kv.L[0]).L[j], ev.L[j]))
					}
				}
			case *ssa.Store, *ssa.DebugRef:
			default:
				return r, false
			}
		}
		x.assume(st, tb.Eq(x.mapDom(st, mt, m), dom))
		return Val{c.Type(), []*Term{m}}, true
	case *ssa.Slice:
		al, isA := c.X.(*ssa.Alloc)
		if !isA || c.Low != nil || c.High != nil {
			return
		}
		at, isArr := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !isArr || at.Len() > 64 || isStruct(at.Elem()) {
			return
		}
		ref := obj(al)
		leaves := x.p.Leaves(at.Elem())
		seen := map[int64]bool{}
		for _, q := range *al.Referrers() {
			ia, isI := q.(*ssa.IndexAddr)
			if !isI {
				continue
			}
			k, isC := ia.Index.(*ssa.Const)
			if !isC {
				return r, false
			}
			for _, q2 := range *ia.Referrers() {
				if s, isS := q2.(*ssa.Store); isS {
					ev, ok2 := x.initVal(st, s.Val, id, depth+1)
					seen[k.Int64()] = true
					if !ok2 {
						continue
					}
					for j, l := range leaves {
						x.assume(st, tb.Eq(tb.Select(x.mem(st, at.Elem(), l, ref), tb.Int(k.Int64())), ev.L[j]))
					}
				}
			}
		}
		for i := int64(0); i < at.Len(); i++ {
			if !seen[i] {
				z := x.zero(at.Elem())
				for j, l := range leaves {
					x.assume(st, tb.Eq(tb.Select(x.mem(st, at.Elem(), l, ref), tb.Int(i)), z.L[j]))
				}
			}
		}
		n := tb.Int(at.Len())
		return Val{c.Type(), []*Term{ref, tb.Int(0), n, n}}, true
	}
	return
}
