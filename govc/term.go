package main

// Hash-consed SMT terms with aggressive, equality-preserving simplification.
// Integers are mathematical; machine arithmetic is made explicit by the executor (wrap).

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	k        string // "Int","Bool","Ref","Blob","Array"
	idx, elt *Sort
}

var (
	SInt  = &Sort{k: "Int"}
	SBool = &Sort{k: "Bool"}
	SRef  = &Sort{k: "Ref"}
	SBlob = &Sort{k: "Blob"}
)

var arrSorts = map[[2]*Sort]*Sort{}

func SArr(i, e *Sort) *Sort {
	sortMu.Lock()
	defer sortMu.Unlock()
	k := [2]*Sort{i, e}
	if s := arrSorts[k]; s != nil {
		return s
	}
	s := &Sort{"Array", i, e}
	arrSorts[k] = s
	return s
}

func (s *Sort) String() string {
	if s.k == "Array" {
		return "(Array " + s.idx.String() + " " + s.elt.String() + ")"
	}
	return s.k
}

type Op int

const (
	OVar Op = iota
	OInt
	OBool
	OLin // sum coef[i]*args[i] + c
	OMul
	ODiv // floor division by positive constant or general (SMT div)
	OMod
	ONot
	OAnd
	OOr
	OIte
	OEq
	OLe // args[0] <= 0 encoded as: 0 <= args[0]
	OSelect
	OStore
	OConstArr
	OApp
	ONull
	OBase
	OFld
	OElm
	OBxI
	OBxB
	OForall
	OExists
)

type Term struct {
	op    Op
	sort  *Sort
	args  []*Term
	coef  []*big.Int
	c     *big.Int
	name  string
	id    int
	bound []*Term   // quantifiers
	pats  [][]*Term // quantifiers
	// analysis
	lo, hi *big.Int
	align  uint // largest k with 2^k | value (capped at 64), 0 unknown
	maxEp  int  // Ref: upper bound on birth epoch; -1 null; 1<<30 unknown
	hasBV  bool
	size   int
}

const epUnknown = 1 << 30

type TB struct { // term builder
	tab    map[string]*Term
	n      int
	True   *Term
	False  *Term
	Null   *Term
	litIDs map[string]*Term
	funs   map[string]*FunDecl
	fresh  map[string]int
}

type FunDecl struct {
	name string
	args []*Sort
	ret  *Sort
}

func NewTB() *TB {
	b := &TB{tab: map[string]*Term{}, litIDs: map[string]*Term{}, funs: map[string]*FunDecl{}, fresh: map[string]int{}}
	b.True = b.mk(&Term{op: OBool, sort: SBool, name: "true"})
	b.False = b.mk(&Term{op: OBool, sort: SBool, name: "false"})
	b.Null = b.mk(&Term{op: ONull, sort: SRef, maxEp: -1})
	return b
}

func (b *TB) key(t *Term) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", t.op, t.name)
	if t.op == OVar || t.op == OConstArr || t.op == OApp {
		sb.WriteString(t.sort.String())
	}
	for i, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if t.coef != nil {
			sb.WriteByte('*')
			sb.WriteString(t.coef[i].String())
		}
	}
	if t.c != nil {
		sb.WriteByte('#')
		sb.WriteString(t.c.String())
	}
	for _, v := range t.bound {
		fmt.Fprintf(&sb, "@%d", v.id)
	}
	for _, p := range t.pats {
		sb.WriteByte('{')
		for _, x := range p {
			fmt.Fprintf(&sb, "%d ", x.id)
		}
	}
	return sb.String()
}

func (b *TB) mk(t *Term) *Term {
	k := b.key(t)
	if x := b.tab[k]; x != nil {
		return x
	}
	b.n++
	t.id = b.n
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if a.hasBV {
			t.hasBV = true
		}
		if t.size > 1<<28 {
			t.size = 1 << 28
		}
	}
	if t.op == OVar && strings.HasPrefix(t.name, "?") {
		t.hasBV = true
	}
	if t.sort == SRef && t.op != ONull && t.maxEp == 0 && t.op != OVar && t.op != OBase && t.op != OFld && t.op != OElm {
		// caller sets maxEp explicitly where known
	}
	b.tab[k] = t
	return t
}

func bi(x int64) *big.Int { return big.NewInt(x) }

func (b *TB) Int(x int64) *Term { return b.Big(bi(x)) }
func (b *TB) Big(x *big.Int) *Term {
	v := new(big.Int).Set(x)
	al := uint(64)
	if v.Sign() != 0 {
		al = v.TrailingZeroBits()
	}
	return b.mk(&Term{op: OInt, sort: SInt, c: v, lo: v, hi: v, align: al})
}
func (b *TB) Bool(x bool) *Term {
	if x {
		return b.True
	}
	return b.False
}

func (t *Term) isInt() bool       { return t.op == OInt }
func (t *Term) isConstBool() bool { return t.op == OBool }

func (b *TB) Var(name string, s *Sort) *Term {
	t := &Term{op: OVar, sort: s, name: name}
	if s == SRef {
		t.maxEp = epUnknown
	}
	return b.mk(t)
}

func (b *TB) FreshName(p string) string {
	b.fresh[p]++
	return fmt.Sprintf("%s!%d", p, b.fresh[p])
}

func (b *TB) Fresh(p string, s *Sort) *Term { return b.Var(b.FreshName(p), s) }

func (b *TB) FreshRange(p string, lo, hi *big.Int) *Term {
	t := b.Fresh(p, SInt)
	t.lo, t.hi = lo, hi
	return t
}

func (b *TB) FreshRef(p string, maxEp int) *Term {
	t := b.Fresh(p, SRef)
	t.maxEp = maxEp
	return t
}

// ---------- integers

type linform struct {
	m map[int]*big.Int
	t map[int]*Term
	c *big.Int
}

func newLin() *linform { return &linform{map[int]*big.Int{}, map[int]*Term{}, bi(0)} }

func (l *linform) add(t *Term, k *big.Int) {
	if k.Sign() == 0 {
		return
	}
	switch t.op {
	case OInt:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.c, k))
	case OLin:
		l.c = new(big.Int).Add(l.c, new(big.Int).Mul(t.c, k))
		for i, a := range t.args {
			l.addAtom(a, new(big.Int).Mul(t.coef[i], k))
		}
	default:
		l.addAtom(t, k)
	}
}

func (l *linform) addAtom(t *Term, k *big.Int) {
	if o, ok := l.m[t.id]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.m, t.id)
			delete(l.t, t.id)
		} else {
			l.m[t.id] = s
		}
	} else {
		l.m[t.id] = new(big.Int).Set(k)
		l.t[t.id] = t
	}
}

func (b *TB) fromLin(l *linform) *Term {
	if len(l.m) == 0 {
		return b.Big(l.c)
	}
	ids := make([]int, 0, len(l.m))
	for i := range l.m {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	if len(ids) == 1 && l.c.Sign() == 0 && l.m[ids[0]].Cmp(bi(1)) == 0 {
		return l.t[ids[0]]
	}
	t := &Term{op: OLin, sort: SInt, c: l.c}
	al := uint(64)
	if l.c.Sign() != 0 {
		al = l.c.TrailingZeroBits()
	}
	lo, hi := new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for _, i := range ids {
		a, k := l.t[i], l.m[i]
		t.args = append(t.args, a)
		t.coef = append(t.coef, k)
		ka := a.align + k.TrailingZeroBits()
		if ka < al {
			al = ka
		}
		alo, ahi := a.lo, a.hi
		if k.Sign() < 0 {
			alo, ahi = ahi, alo
		}
		if lo != nil && alo != nil {
			lo = new(big.Int).Add(lo, new(big.Int).Mul(alo, k))
		} else {
			lo = nil
		}
		if hi != nil && ahi != nil {
			hi = new(big.Int).Add(hi, new(big.Int).Mul(ahi, k))
		} else {
			hi = nil
		}
	}
	t.lo, t.hi, t.align = lo, hi, al
	return b.mk(t)
}

func (b *TB) Add(xs ...*Term) *Term {
	l := newLin()
	for _, x := range xs {
		l.add(x, bi(1))
	}
	return b.fromLin(l)
}
func (b *TB) Sub(x, y *Term) *Term {
	l := newLin()
	l.add(x, bi(1))
	l.add(y, bi(-1))
	return b.fromLin(l)
}
func (b *TB) Neg(x *Term) *Term { return b.Sub(b.Int(0), x) }
func (b *TB) MulC(x *Term, k *big.Int) *Term {
	l := newLin()
	l.add(x, k)
	return b.fromLin(l)
}
func (b *TB) Mul(x, y *Term) *Term {
	if x.isInt() {
		return b.MulC(y, x.c)
	}
	if y.isInt() {
		return b.MulC(x, y.c)
	}
	if x.id > y.id {
		x, y = y, x
	}
	t := &Term{op: OMul, sort: SInt, args: []*Term{x, y}}
	if x.lo != nil && y.lo != nil && x.lo.Sign() >= 0 && y.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(x.lo, y.lo)
		if x.hi != nil && y.hi != nil {
			t.hi = new(big.Int).Mul(x.hi, y.hi)
		}
	}
	return b.mk(t)
}

func floorDiv(a, d *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, d, m) // Euclidean: for d>0 it is floor
	return q
}

// Div: Euclidean/floor division, constant positive divisor
func (b *TB) Div(x *Term, d *big.Int) *Term {
	if d.Sign() <= 0 {
		panic("Div by nonpositive")
	}
	if d.Cmp(bi(1)) == 0 {
		return x
	}
	if x.isInt() {
		return b.Big(floorDiv(x.c, d))
	}
	if x.lo != nil && x.hi != nil {
		l, h := floorDiv(x.lo, d), floorDiv(x.hi, d)
		if l.Cmp(h) == 0 {
			return b.Big(l)
		}
	}
	// (div (lin) d): split off multiples
	if x.op == OLin {
		q, r := newLin(), newLin()
		r.c = new(big.Int).Mod(x.c, d)
		q.c = floorDiv(x.c, d)
		for i, a := range x.args {
			k := x.coef[i]
			kq := floorDiv(k, d)
			kr := new(big.Int).Mod(k, d)
			if kr.Sign() == 0 {
				q.add(a, kq)
			} else {
				r.add(a, k)
			}
		}
		if len(q.m) > 0 || q.c.Sign() != 0 {
			return b.Add(b.fromLin(q), b.Div(b.fromLin(r), d))
		}
	}
	if x.op == ODiv {
		return b.Div(x.args[0], new(big.Int).Mul(d, x.c))
	}
	t := &Term{op: ODiv, sort: SInt, args: []*Term{x}, c: d}
	if x.lo != nil {
		t.lo = floorDiv(x.lo, d)
	}
	if x.hi != nil {
		t.hi = floorDiv(x.hi, d)
	}
	return b.mk(t)
}

func (b *TB) Mod(x *Term, d *big.Int) *Term {
	if x.isInt() {
		return b.Big(new(big.Int).Mod(x.c, d))
	}
	if x.lo != nil && x.hi != nil {
		l, h := floorDiv(x.lo, d), floorDiv(x.hi, d)
		if l.Cmp(h) == 0 {
			return b.Sub(x, b.Big(new(big.Int).Mul(l, d)))
		}
	}
	if x.op == OLin {
		r := newLin()
		r.c = new(big.Int).Mod(x.c, d)
		changed := r.c.Cmp(x.c) != 0
		for i, a := range x.args {
			kr := new(big.Int).Mod(x.coef[i], d)
			if kr.Cmp(x.coef[i]) != 0 {
				changed = true
			}
			r.add(a, kr)
		}
		if changed {
			return b.Mod(b.fromLin(r), d)
		}
	}
	if x.op == OMod {
		if new(big.Int).Mod(x.c, d).Sign() == 0 {
			return b.Mod(x.args[0], d)
		}
	}
	t := &Term{op: OMod, sort: SInt, args: []*Term{x}, c: d, lo: bi(0), hi: new(big.Int).Sub(d, bi(1))}
	if x.align > 0 {
		a := d.TrailingZeroBits()
		if x.align < a {
			a = x.align
		}
		t.align = a
	}
	return b.mk(t)
}

// 0 <= x
func (b *TB) Ge0(x *Term) *Term {
	if x.isInt() {
		return b.Bool(x.c.Sign() >= 0)
	}
	if x.lo != nil && x.lo.Sign() >= 0 {
		return b.True
	}
	if x.hi != nil && x.hi.Sign() < 0 {
		return b.False
	}
	if x.op == OLin {
		g := new(big.Int)
		for _, k := range x.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(k))
		}
		if g.Cmp(bi(1)) > 0 {
			l := newLin()
			l.c = floorDiv(x.c, g)
			for i, a := range x.args {
				l.add(a, new(big.Int).Quo(x.coef[i], g))
			}
			return b.Ge0(b.fromLin(l))
		}
	}
	if x.op == OIte {
		c, p, q := x.args[0], b.Ge0(x.args[1]), b.Ge0(x.args[2])
		if p.isConstBool() || q.isConstBool() {
			return b.Ite(c, p, q)
		}
	}
	return b.mk(&Term{op: OLe, sort: SBool, args: []*Term{x}})
}
func (b *TB) Le(x, y *Term) *Term { return b.Ge0(b.Sub(y, x)) }
func (b *TB) Lt(x, y *Term) *Term { return b.Ge0(b.Sub(b.Sub(y, x), b.Int(1))) }
func (b *TB) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *TB) Gt(x, y *Term) *Term { return b.Lt(y, x) }

// ---------- bool

func (b *TB) Not(x *Term) *Term {
	switch x.op {
	case OBool:
		return b.Bool(x == b.False)
	case ONot:
		return x.args[0]
	case OLe: // !(0<=t) = t <= -1 = 0 <= -t-1
		return b.Ge0(b.Sub(b.Int(-1), x.args[0]))
	}
	return b.mk(&Term{op: ONot, sort: SBool, args: []*Term{x}})
}

func (b *TB) nary(op Op, xs []*Term) *Term {
	unit, zero := b.True, b.False
	if op == OOr {
		unit, zero = b.False, b.True
	}
	seen := map[int]bool{}
	var out []*Term
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x.id] {
			return true
		}
		if x.op == op {
			for _, a := range x.args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		if seen[b.Not(x).id] {
			return false
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !rec(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return b.mk(&Term{op: op, sort: SBool, args: out})
}
func (b *TB) And(xs ...*Term) *Term { return b.nary(OAnd, xs) }
func (b *TB) Or(xs ...*Term) *Term  { return b.nary(OOr, xs) }
func (b *TB) Implies(x, y *Term) *Term {
	return b.Or(b.Not(x), y)
}
func (b *TB) Iff(x, y *Term) *Term { return b.Eq(x, y) }

func (b *TB) Ite(c, x, y *Term) *Term {
	if c == b.True {
		return x
	}
	if c == b.False {
		return y
	}
	if x == y {
		return x
	}
	if c.op == ONot {
		return b.Ite(c.args[0], y, x)
	}
	if x.sort == SBool {
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	t := &Term{op: OIte, sort: x.sort, args: []*Term{c, x, y}}
	if x.sort == SInt {
		if x.lo != nil && y.lo != nil {
			t.lo = minB(x.lo, y.lo)
		}
		if x.hi != nil && y.hi != nil {
			t.hi = maxB(x.hi, y.hi)
		}
		t.align = x.align
		if y.align < t.align {
			t.align = y.align
		}
	}
	if x.sort == SRef {
		t.maxEp = maxI(x.maxEp, y.maxEp)
	}
	return b.mk(t)
}

func minB(a, c *big.Int) *big.Int {
	if a.Cmp(c) < 0 {
		return a
	}
	return c
}
func maxB(a, c *big.Int) *big.Int {
	if a.Cmp(c) > 0 {
		return a
	}
	return c
}
func maxI(a, c int) int {
	if a > c {
		return a
	}
	return c
}

// distinctTerms: definitely different values?
func (b *TB) distinct(x, y *Term) bool {
	if x == y {
		return false
	}
	switch x.sort {
	case SInt:
		d := b.Sub(x, y)
		if d.isInt() {
			return d.c.Sign() != 0
		}
		return d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0
	case SBool:
		return x.isConstBool() && y.isConstBool()
	case SRef:
		return b.refDistinct(x, y)
	case SBlob:
		return x.op == OVar && y.op == OVar && strings.HasPrefix(x.name, "lit!") && strings.HasPrefix(y.name, "lit!")
	}
	return false
}

func refCtor(x *Term) bool {
	switch x.op {
	case ONull, OBase, OFld, OElm, OBxI, OBxB:
		return true
	}
	return false
}

func (b *TB) refDistinct(x, y *Term) bool {
	if x == y {
		return false
	}
	if x.op == OIte {
		return b.refDistinct(x.args[1], y) && b.refDistinct(x.args[2], y)
	}
	if y.op == OIte {
		return b.refDistinct(y, x)
	}
	if refCtor(x) && refCtor(y) {
		if x.op != y.op {
			return true
		}
		switch x.op {
		case OBase:
			return b.distinct(x.args[0], y.args[0]) || b.distinct(x.args[1], y.args[1])
		case OFld:
			return x.name != y.name || b.refDistinct(x.args[0], y.args[0])
		case OElm:
			return b.refDistinct(x.args[0], y.args[0]) || b.distinct(x.args[1], y.args[1])
		case OBxI, OBxB:
			return b.distinct(x.args[0], y.args[0])
		}
		return false
	}
	// birth epochs
	if x.op != OBase && y.op == OBase {
		x, y = y, x
	}
	rx, ry := rootOf(x), rootOf(y)
	if rx.op == OBase && rx.args[0].isInt() {
		if ry.maxEp < int(rx.args[0].c.Int64()) {
			return true
		}
	}
	if ry.op == OBase && ry.args[0].isInt() {
		if rx.maxEp < int(ry.args[0].c.Int64()) {
			return true
		}
	}
	return false
}

func rootOf(x *Term) *Term {
	for x.op == OFld || x.op == OElm {
		x = x.args[0]
	}
	return x
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s = %s", x.sort, y.sort, x, y))
	}
	if b.distinct(x, y) {
		return b.False
	}
	if x.sort == SBool {
		if x == b.True {
			return y
		}
		if x == b.False {
			return b.Not(y)
		}
		if y == b.True {
			return x
		}
		if y == b.False {
			return b.Not(x)
		}
	}
	if x.sort == SInt {
		d := b.Sub(x, y)
		if d.isInt() {
			return b.Bool(d.c.Sign() == 0)
		}
		if (d.lo != nil && d.lo.Sign() > 0) || (d.hi != nil && d.hi.Sign() < 0) {
			return b.False
		}
		if d.op == OLin {
			if al := d.align; al > 0 && false {
				_ = al
			}
			g := new(big.Int)
			for _, k := range d.coef {
				g.GCD(nil, nil, g, new(big.Int).Abs(k))
			}
			if g.Cmp(bi(1)) > 0 {
				if new(big.Int).Mod(d.c, g).Sign() != 0 {
					return b.False
				}
				l := newLin()
				l.c = floorDiv(d.c, g)
				for i, a := range d.args {
					l.add(a, new(big.Int).Quo(d.coef[i], g))
				}
				d = b.fromLin(l)
			}
			if d.op == OLin && d.coef[0].Sign() < 0 {
				d = b.Neg(d)
			}
			// d == 0; make x = first positive part
			if d.op == OLin {
				if len(d.args) == 1 && d.coef[0].Cmp(bi(1)) == 0 {
					x, y = d.args[0], b.Big(new(big.Int).Neg(d.c))
				} else {
					x, y = d, b.Int(0)
				}
			} else {
				x, y = d, b.Int(0)
			}
		} else {
			x, y = d, b.Int(0)
			if d.op == OIte && false {
				return nil
			}
		}
		if x.op == OIte && y.isInt() {
			p, q := b.Eq(x.args[1], y), b.Eq(x.args[2], y)
			if p.isConstBool() || q.isConstBool() {
				return b.Ite(x.args[0], p, q)
			}
		}
		return b.mk(&Term{op: OEq, sort: SBool, args: []*Term{x, y}})
	}
	if x.sort == SRef {
		if x.op == y.op {
			switch x.op {
			case OBase:
				return b.And(b.Eq(x.args[0], y.args[0]), b.Eq(x.args[1], y.args[1]))
			case OFld:
				if x.name == y.name {
					return b.Eq(x.args[0], y.args[0])
				}
			case OElm:
				return b.And(b.Eq(x.args[0], y.args[0]), b.Eq(x.args[1], y.args[1]))
			case OBxI, OBxB:
				return b.Eq(x.args[0], y.args[0])
			}
		}
		if x.op == OIte {
			p, q := b.Eq(x.args[1], y), b.Eq(x.args[2], y)
			if p.isConstBool() || q.isConstBool() {
				return b.Ite(x.args[0], p, q)
			}
		}
		if y.op == OIte {
			p, q := b.Eq(y.args[1], x), b.Eq(y.args[2], x)
			if p.isConstBool() || q.isConstBool() {
				return b.Ite(y.args[0], p, q)
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(&Term{op: OEq, sort: SBool, args: []*Term{x, y}})
}

// ---------- refs

func (b *TB) Base(ep int, n *Term) *Term {
	return b.mk(&Term{op: OBase, sort: SRef, args: []*Term{b.Int(int64(ep)), n}, maxEp: ep})
}
func (b *TB) Fld(r *Term, id string) *Term {
	if r.op == OIte {
		return b.Ite(r.args[0], b.Fld(r.args[1], id), b.Fld(r.args[2], id))
	}
	return b.mk(&Term{op: OFld, sort: SRef, name: id, args: []*Term{r}, maxEp: r.maxEp})
}
func (b *TB) Elm(r, i *Term) *Term {
	return b.mk(&Term{op: OElm, sort: SRef, args: []*Term{r, i}, maxEp: r.maxEp})
}
func (b *TB) BxI(x *Term) *Term {
	return b.mk(&Term{op: OBxI, sort: SRef, args: []*Term{x}, maxEp: -1})
}
func (b *TB) BxB(x *Term) *Term {
	return b.mk(&Term{op: OBxB, sort: SRef, args: []*Term{x}, maxEp: -1})
}

// ---------- arrays

func (b *TB) ConstArr(s *Sort, v *Term) *Term {
	return b.mk(&Term{op: OConstArr, sort: s, args: []*Term{v}, name: s.String()})
}

func (b *TB) Store(a, i, v *Term) *Term {
	if a.op == OStore {
		if a.args[1] == i {
			return b.Store(a.args[0], i, v)
		}
	}
	// storing back the same value
	if b.Select(a, i) == v {
		return a
	}
	return b.mk(&Term{op: OStore, sort: a.sort, args: []*Term{a, i, v}})
}

// dropStore rewrites chain removing earlier overwritten store at i (cheap, limited)
func (b *TB) Select(a, i *Term) *Term {
	if a.sort.k != "Array" {
		panic("select on " + a.sort.String() + " " + a.String())
	}
	if a.sort.idx != i.sort {
		panic("select idx sort " + a.sort.String() + " idx " + i.sort.String() + " " + i.String())
	}
	for {
		switch a.op {
		case OStore:
			if a.args[1] == i {
				return a.args[2]
			}
			if b.distinct(a.args[1], i) {
				a = a.args[0]
				continue
			}
		case OConstArr:
			return a.args[0]
		case OIte:
			p, q := b.Select(a.args[1], i), b.Select(a.args[2], i)
			return b.Ite(a.args[0], p, q)
		case OApp:
			if opBase(a.name) == "shift" {
				return b.Select(a.args[0], b.Add(a.args[1], i))
			}
			if opBase(a.name) == "cpy" { // cpy(A,d,B,s,n)
				A, d, B, s, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
				in := b.And(b.Le(d, i), b.Lt(i, b.Add(d, n)))
				if in == b.True {
					a, i = B, b.Add(s, b.Sub(i, d))
					continue
				}
				if in == b.False {
					a = A
					continue
				}
			}
			if a.name == "bytesOf" {
				return b.App("bat", SInt, a.args[0], i)
			}
		}
		break
	}
	if i.op == OIte && i.sort == SRef {
		return b.Ite(i.args[0], b.Select(a, i.args[1]), b.Select(a, i.args[2]))
	}
	t := &Term{op: OSelect, sort: a.sort.elt, args: []*Term{a, i}}
	if t.sort == SRef {
		t.maxEp = epUnknown
		t.maxEp = b.loadEp(a, i)
	}
	if t.sort == SInt {
		if lo, hi := b.arrRange(a); lo != nil {
			t.lo, t.hi = lo, hi
		} else if hi != nil {
			t.hi = hi
		}
	}
	return b.mk(t)
}

// element range of an array term, from its root variable's annotation
func (b *TB) arrRange(a *Term) (lo, hi *big.Int) {
	switch a.op {
	case OVar:
		return a.lo, a.hi
	case OSelect:
		return b.arrRange(a.args[0])
	case OConstArr:
		return b.arrRange(a.args[0])
	case OInt:
		return a.c, a.c
	case OStore:
		l1, h1 := b.arrRange(a.args[0])
		v := a.args[2]
		var l2, h2 *big.Int
		if v.sort == SInt {
			l2, h2 = v.lo, v.hi
		} else {
			l2, h2 = b.arrRange(v)
		}
		if l1 != nil && l2 != nil {
			lo = minB(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = maxB(h1, h2)
		}
		return
	case OIte:
		l1, h1 := b.arrRange(a.args[1])
		l2, h2 := b.arrRange(a.args[2])
		if l1 != nil && l2 != nil {
			lo = minB(l1, l2)
		}
		if h1 != nil && h2 != nil {
			hi = maxB(h1, h2)
		}
		return
	case OApp:
		switch opBase(a.name) {
		case "shift":
			return b.arrRange(a.args[0])
		case "bytesOf":
			return bi(0), bi(255)
		case "cpy":
			l1, h1 := b.arrRange(a.args[0])
			l2, h2 := b.arrRange(a.args[2])
			if l1 != nil && l2 != nil {
				lo = minB(l1, l2)
			}
			if h1 != nil && h2 != nil {
				hi = maxB(h1, h2)
			}
			return
		}
	}
	return nil, nil
}

// epoch bound of references stored in array a (at index i)
func (b *TB) loadEp(a, i *Term) int {
	ep := -1
	for {
		switch a.op {
		case OStore:
			v := a.args[2]
			if v.sort == SRef {
				ep = maxI(ep, v.maxEp)
			} else if v.sort.k == "Array" {
				ep = maxI(ep, b.loadEp(v, nil))
			}
			a = a.args[0]
			continue
		case OVar:
			if a.sort.idx == SRef && (i == nil || i.sort != SRef || i.maxEp > a.maxEp) {
				return epUnknown
			}
			return maxI(ep, a.maxEp)
		case OSelect:
			return maxI(ep, b.loadEp(a.args[0], a.args[1]))
		case OConstArr:
			v := a.args[0]
			if v.sort == SRef {
				return maxI(ep, v.maxEp)
			} else if v.sort.k == "Array" {
				return maxI(ep, b.loadEp(v, nil))
			}
			return ep
		case OIte:
			return maxI(ep, maxI(b.loadEp(a.args[1], i), b.loadEp(a.args[2], i)))
		case OApp:
			switch opBase(a.name) {
			case "shift":
				a = a.args[0]
				continue
			case "cpy":
				return maxI(ep, maxI(b.loadEp(a.args[0], nil), b.loadEp(a.args[2], nil)))
			}
			return maxI(ep, a.maxEp)
		}
		return epUnknown
	}
}

// ---------- apps

func opBase(n string) string {
	if i := strings.IndexByte(n, '@'); i > 0 {
		return n[:i]
	}
	return n
}

func eltSuffix(s *Sort) string {
	if s == SInt {
		return ""
	}
	if s.k == "Array" {
		return "@A" + eltSuffix(s.elt)
	}
	return "@" + s.k
}

// Shift(A,o)[i] = A[o+i]
func (b *TB) Shift(a, o *Term) *Term { return b.App("shift"+eltSuffix(a.sort.elt), a.sort, a, o) }

// Cpy(A,d,B,s,n): A with [d,d+n) replaced by B[s,s+n)
func (b *TB) Cpy(A, d, B, s, n *Term) *Term {
	if n.isInt() && n.c.Sign() <= 0 {
		return A
	}
	if n.isInt() && n.c.IsInt64() && n.c.Int64() <= 8 {
		r := A
		for i := int64(0); i < n.c.Int64(); i++ {
			r = b.Store(r, b.Add(d, b.Int(i)), b.Select(B, b.Add(s, b.Int(i))))
		}
		return r
	}
	return b.App("cpy"+eltSuffix(A.sort.elt), A.sort, A, d, B, s, n)
}

func (b *TB) App(name string, ret *Sort, args ...*Term) *Term {
	if b.funs[name] == nil {
		d := &FunDecl{name: name, ret: ret}
		for _, a := range args {
			d.args = append(d.args, a.sort)
		}
		b.funs[name] = d
	}
	d := b.funs[name]
	if len(d.args) != len(args) {
		panic(fmt.Sprintf("App %s: arity %d vs %d", name, len(d.args), len(args)))
	}
	for i, a := range args {
		if a.sort != d.args[i] {
			panic(fmt.Sprintf("App %s arg %d: sort %s vs %s (%s)", name, i, a.sort, d.args[i], a))
		}
	}
	t := &Term{op: OApp, sort: d.ret, name: name, args: args}
	switch opBase(name) {
	case "blen":
		x := args[0]
		if x.op == OApp && x.name == "content" && x.args[2].lo != nil && x.args[2].lo.Sign() >= 0 {
			return x.args[2]
		}
		if x.op == OApp && x.name == "bcat" {
			return b.Add(b.App("blen", SInt, x.args[0]), b.App("blen", SInt, x.args[1]))
		}
		if x.op == OVar {
			if s, ok := b.litStr(x); ok {
				return b.Int(int64(len(s)))
			}
		}
		t.lo, t.hi = bi(0), new(big.Int).Lsh(bi(1), 47)
	case "bat":
		if x := args[0]; x.op == OApp && x.name == "content" {
			return b.Select(x.args[0], b.Add(x.args[1], args[1]))
		}
		if x := args[0]; x.op == OVar && args[1].isInt() {
			if s, ok := b.litStr(x); ok && args[1].c.IsInt64() {
				if k := args[1].c.Int64(); k >= 0 && k < int64(len(s)) {
					return b.Int(int64(s[k]))
				}
			}
		}
		t.lo, t.hi = bi(0), bi(255)
	case "shift":
		if args[1].isInt() && args[1].c.Sign() == 0 {
			return args[0]
		}
		if x := args[0]; x.op == OApp && x.name == name {
			return b.App(name, ret, x.args[0], b.Add(x.args[1], args[1]))
		}
	case "le2", "le4", "le8", "sle2", "sle4", "sle8":
		t.lo, t.hi = leRange(leSize(name))
	case "content":
		return b.content(args[0], args[1], args[2])
	case "bcat":
		if x := args[0]; x == b.StrLit("") {
			return args[1]
		}
		if x := args[1]; x == b.StrLit("") {
			return args[0]
		}
		if x := args[0]; x.op == OApp && x.name == "bcat" {
			return b.App("bcat", SBlob, x.args[0], b.App("bcat", SBlob, x.args[1], args[1]))
		}
		if s1, ok := b.litStr(args[0]); ok {
			if s2, ok := b.litStr(args[1]); ok {
				return b.StrLit(s1 + s2)
			}
		}
	}
	if t.sort == SRef {
		t.maxEp = epUnknown
	}
	return b.mk(t)
}

func (b *TB) content(a, o, l *Term) *Term {
	for {
		if l.isInt() && l.c.Sign() <= 0 {
			return b.StrLit("")
		}
		if a.op == OStore {
			k := a.args[1]
			if b.Lt(k, o) == b.True || b.Le(b.Add(o, l), k) == b.True {
				a = a.args[0]
				continue
			}
		}
		if a.op == OApp && a.name == "shift" {
			o = b.Add(o, a.args[1])
			a = a.args[0]
			continue
		}
		if a.op == OApp && a.name == "cpy" {
			A, d, B, s, n := a.args[0], a.args[1], a.args[2], a.args[3], a.args[4]
			if b.Le(d, o) == b.True && b.Le(b.Add(o, l), b.Add(d, n)) == b.True {
				a, o = B, b.Add(s, b.Sub(o, d))
				continue
			}
			if b.Le(b.Add(o, l), d) == b.True || b.Le(b.Add(d, n), o) == b.True {
				a = A
				continue
			}
		}
		if a.op == OApp && a.name == "bytesOf" && o.isInt() && o.c.Sign() == 0 && l == b.App("blen", SInt, a.args[0]) {
			return a.args[0]
		}
		if a.op == OIte {
			return b.Ite(a.args[0], b.content(a.args[1], o, l), b.content(a.args[2], o, l))
		}
		break
	}
	// constant content?
	if l.isInt() && l.c.IsInt64() && l.c.Int64() <= 64 {
		n := int(l.c.Int64())
		bs := make([]byte, 0, n)
		for i := 0; i < n; i++ {
			v := b.Select(a, b.Add(o, b.Int(int64(i))))
			if !v.isInt() {
				bs = nil
				break
			}
			bs = append(bs, byte(v.c.Int64()))
		}
		if bs != nil {
			return b.StrLit(string(bs))
		}
	}
	if b.funs["content"] == nil {
		b.funs["content"] = &FunDecl{"content", []*Sort{SArr(SInt, SInt), SInt, SInt}, SBlob}
	}
	return b.mk(&Term{op: OApp, sort: SBlob, name: "content", args: []*Term{a, o, l}})
}

var litNames = map[string]string{}

func (b *TB) StrLit(s string) *Term {
	if t := b.litIDs[s]; t != nil {
		return t
	}
	t := b.Var(fmt.Sprintf("lit!%d!%s", len(b.litIDs), sanitize(s)), SBlob)
	b.litIDs[s] = t
	return t
}

func (b *TB) litStr(t *Term) (string, bool) {
	if t.op != OVar || !strings.HasPrefix(t.name, "lit!") {
		return "", false
	}
	for s, x := range b.litIDs {
		if x == t {
			return s, true
		}
	}
	return "", false
}

func sanitize(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s) && i < 24; i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == '_' || c == '.' {
			sb.WriteByte(c)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// ---------- quantifiers

func mentions(t *Term, vs []*Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if !t.hasBV || seen[t] {
			return false
		}
		seen[t] = true
		for _, v := range vs {
			if t == v {
				return true
			}
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// idxOffset: the first array index in the patterns of the form v+rest (rest closed); nil if v occurs on its own
func (b *TB) idxOffset(pats [][]*Term, v *Term, own []*Term) *Term {
	var found *Term
	bare := false
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, a := range t.args {
			if a == v && t.op != OLin {
				bare = true
			}
			if a.op == OLin && a.sort == SInt && (t.op == OSelect || t.op == OElm || t.op == OApp) && found == nil {
				ok := false
				for i, y := range a.args {
					if y == v {
						ok = a.coef[i].Cmp(bi(1)) == 0
					} else if y.hasBV && mentions(y, own) {
						ok = false
						break
					}
				}
				if ok {
					found = b.Sub(a, v)
				}
			}
		}
	}
	for _, p := range pats {
		for _, x := range p {
			walk(x)
		}
	}
	if bare {
		return nil
	}
	return found
}

func (b *TB) Quant(op Op, bound []*Term, pats [][]*Term, body *Term) *Term {
	if body.isConstBool() {
		return body
	}
	// keep only bound vars occurring
	occ := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !t.hasBV {
			return
		}
		seen[t] = true
		if t.op == OVar {
			occ[t] = true
		}
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
	}
	walk(body)
	var bv []*Term
	for _, v := range bound {
		if occ[v] {
			bv = append(bv, v)
		}
	}
	if len(bv) == 0 {
		return body
	}
	// absolute indices in patterns: a pattern select(a, off+k) is rewritten (k := k-off) to select(a, k),
	// which matches whatever the index term looks like
	for _, v := range bv {
		if v.sort != SInt || len(pats) == 0 {
			continue
		}
		if rest := b.idxOffset(pats, v, bv); rest != nil {
			m := map[*Term]*Term{v: b.Sub(v, rest)}
			body = b.Subst(body, m)
			np := make([][]*Term, len(pats))
			for i, p := range pats {
				for _, x := range p {
					np[i] = append(np[i], b.Subst(x, m))
				}
			}
			pats = np
			if body.isConstBool() {
				return body
			}
		}
	}
	// a witness for an element of a freshly written array may be known as an element of the array before
	if op == OExists {
		have := map[*Term]bool{}
		for _, p := range pats {
			if len(p) == 1 {
				have[p[0]] = true
			}
		}
		for i := 0; i < len(pats) && len(pats) < 6; i++ {
			p := pats[i]
			if len(p) == 1 && p[0].op == OSelect && p[0].args[0].op == OStore && !p[0].args[0].args[1].hasBV {
				q := b.Select(p[0].args[0].args[0], p[0].args[1])
				if q.op == OSelect && !have[q] {
					have[q] = true
					pats = append(pats[:len(pats):len(pats)], []*Term{q})
				}
			}
		}
	}
	t := b.mk(&Term{op: op, sort: SBool, args: []*Term{body}, bound: bv, pats: pats})
	// closed unless other bvs remain
	rem := false
	inb := map[*Term]bool{}
	for _, v := range bv {
		inb[v] = true
	}
	for v := range occ {
		if !inb[v] {
			rem = true
		}
	}
	t.hasBV = rem
	return t
}

// ---------- substitution

func (b *TB) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var na []*Term
		ch := false
		for _, a := range t.args {
			x := rec(a)
			if x != a {
				ch = true
			}
			na = append(na, x)
		}
		var np [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				y := rec(x)
				if y != x {
					ch = true
				}
				q = append(q, y)
			}
			np = append(np, q)
		}
		r := t
		if ch {
			r = b.rebuild(t, na, np)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (b *TB) rebuild(t *Term, a []*Term, np [][]*Term) *Term {
	switch t.op {
	case OLin:
		l := newLin()
		l.c = t.c
		for i, x := range a {
			l.add(x, t.coef[i])
		}
		return b.fromLin(l)
	case OMul:
		return b.Mul(a[0], a[1])
	case ODiv:
		return b.Div(a[0], t.c)
	case OMod:
		return b.Mod(a[0], t.c)
	case ONot:
		return b.Not(a[0])
	case OAnd:
		return b.And(a...)
	case OOr:
		return b.Or(a...)
	case OIte:
		return b.Ite(a[0], a[1], a[2])
	case OEq:
		return b.Eq(a[0], a[1])
	case OLe:
		return b.Ge0(a[0])
	case OSelect:
		return b.Select(a[0], a[1])
	case OStore:
		return b.Store(a[0], a[1], a[2])
	case OConstArr:
		return b.ConstArr(t.sort, a[0])
	case OApp:
		if n, sg := leSize(t.name); n > 0 {
			return b.LeV(a[0], a[1], n, sg)
		}
		return b.App(t.name, t.sort, a...)
	case OBase:
		return b.mk(&Term{op: OBase, sort: SRef, args: a, maxEp: t.maxEp})
	case OFld:
		return b.Fld(a[0], t.name)
	case OElm:
		return b.Elm(a[0], a[1])
	case OBxI:
		return b.BxI(a[0])
	case OBxB:
		return b.BxB(a[0])
	case OForall, OExists:
		return b.Quant(t.op, t.bound, np, a[0])
	}
	panic("rebuild")
}

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.size > 400 {
		return fmt.Sprintf("<big#%d>", t.id)
	}
	return printTerm(t, nil)
}
