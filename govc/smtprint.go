package main

import (
	"fmt"
	"math/big"
	"strings"
	"sync"
)

var sortMu sync.Mutex

func smtInt(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func smtSym(s string) string { return "|" + strings.ReplaceAll(s, "|", "_") + "|" }

// printTerm prints t; defs maps terms to already defined names.
func printTerm(t *Term, defs map[*Term]string) string {
	var sb strings.Builder
	writeTerm(&sb, t, defs)
	return sb.String()
}

func writeTerm(sb *strings.Builder, t *Term, defs map[*Term]string) {
	if defs != nil {
		if n, ok := defs[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	ap := func(f string, args ...*Term) {
		sb.WriteByte('(')
		sb.WriteString(f)
		for _, a := range args {
			sb.WriteByte(' ')
			writeTerm(sb, a, defs)
		}
		sb.WriteByte(')')
	}
	switch t.op {
	case OVar:
		sb.WriteString(smtSym(t.name))
	case OInt:
		sb.WriteString(smtInt(t.c))
	case OBool:
		sb.WriteString(t.name)
	case OLin:
		n := len(t.args)
		multi := n > 1 || t.c.Sign() != 0
		if multi {
			sb.WriteString("(+")
		}
		for i, a := range t.args {
			if multi {
				sb.WriteByte(' ')
			}
			if t.coef[i].Cmp(bi(1)) == 0 {
				writeTerm(sb, a, defs)
			} else {
				sb.WriteString("(* " + smtInt(t.coef[i]) + " ")
				writeTerm(sb, a, defs)
				sb.WriteByte(')')
			}
		}
		if t.c.Sign() != 0 {
			sb.WriteString(" " + smtInt(t.c))
		}
		if multi {
			sb.WriteByte(')')
		}
	case OMul:
		ap("*", t.args...)
	case ODiv:
		sb.WriteString("(div ")
		writeTerm(sb, t.args[0], defs)
		sb.WriteString(" " + smtInt(t.c) + ")")
	case OMod:
		sb.WriteString("(mod ")
		writeTerm(sb, t.args[0], defs)
		sb.WriteString(" " + smtInt(t.c) + ")")
	case ONot:
		ap("not", t.args...)
	case OAnd:
		ap("and", t.args...)
	case OOr:
		ap("or", t.args...)
	case OIte:
		ap("ite", t.args...)
	case OEq:
		ap("=", t.args...)
	case OLe:
		sb.WriteString("(<= 0 ")
		writeTerm(sb, t.args[0], defs)
		sb.WriteByte(')')
	case OSelect:
		ap("select", t.args...)
	case OStore:
		ap("store", t.args...)
	case OConstArr:
		sb.WriteString("((as const " + t.sort.String() + ") ")
		writeTerm(sb, t.args[0], defs)
		sb.WriteByte(')')
	case OApp:
		if len(t.args) == 0 {
			sb.WriteString(smtSym(t.name))
		} else {
			ap(smtSym(t.name), t.args...)
		}
	case ONull:
		sb.WriteString("null")
	case OBase:
		ap("base", t.args...)
	case OFld:
		sb.WriteString("(fld ")
		writeTerm(sb, t.args[0], defs)
		sb.WriteString(fmt.Sprintf(" %d)", fldID(t.name)))
	case OElm:
		ap("elm", t.args...)
	case OBxI:
		ap("bxI", t.args...)
	case OBxB:
		ap("bxB", t.args...)
	case OForall, OExists:
		if t.op == OForall {
			sb.WriteString("(forall (")
		} else {
			sb.WriteString("(exists (")
		}
		for _, v := range t.bound {
			sb.WriteString("(" + smtSym(v.name) + " " + v.sort.String() + ")")
		}
		sb.WriteString(") ")
		pats := make([][]*Term, 0, len(t.pats))
		for _, p := range t.pats {
			ok := true
			for _, x := range p {
				ok = ok && len(x.args) > 0
			}
			if ok {
				pats = append(pats, p)
			}
		}
		if len(pats) > 0 {
			sb.WriteString("(! ")
		}
		writeTerm(sb, t.args[0], defs)
		if len(pats) > 0 {
			for _, p := range pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					writePat(sb, x, defs)
				}
				sb.WriteByte(')')
			}
			sb.WriteByte(')')
		}
		sb.WriteByte(')')
	}
}

var fldMu sync.Mutex
var fldIDs = map[string]int{}

func fldID(name string) int {
	fldMu.Lock()
	defer fldMu.Unlock()
	if i, ok := fldIDs[name]; ok {
		return i
	}
	i := len(fldIDs) + 1
	fldIDs[name] = i
	return i
}

// solvers refuse patterns that contain ite or connectives: closed subterms with such parts get a name
var patBadMemo sync.Map

func patBad(t *Term) bool {
	if len(t.args) == 0 {
		return false
	}
	switch t.op {
	case OIte, ONot, OAnd, OOr, OEq, OLe, OForall, OExists:
		return true
	}
	if v, ok := patBadMemo.Load(t); ok {
		return v.(bool)
	}
	r := false
	for _, a := range t.args {
		if patBad(a) {
			r = true
			break
		}
	}
	patBadMemo.Store(t, r)
	return r
}

func patName(t *Term) string { return fmt.Sprintf("p!%d", t.id) }

func writePat(sb *strings.Builder, t *Term, defs map[*Term]string) {
	switch {
	case !patBad(t):
		writeTerm(sb, t, defs)
	case !t.hasBV:
		sb.WriteString(patName(t))
	case t.op == OApp, t.op == OSelect:
		sb.WriteByte('(')
		if t.op == OSelect {
			sb.WriteString("select")
		} else {
			sb.WriteString(smtSym(t.name))
		}
		for _, a := range t.args {
			sb.WriteByte(' ')
			writePat(sb, a, defs)
		}
		sb.WriteByte(')')
	default:
		writeTerm(sb, t, defs)
	}
}

// declare the names writePat uses
func (e *Emitter) needPat(t *Term, acc *[]string, lv map[string]bool) {
	switch {
	case !patBad(t):
	case !t.hasBV:
		n := patName(t)
		if !e.declared["p:"+n] {
			e.declared["p:"+n] = true
			fmt.Fprintf(e.out, "(declare-const %s %s)\n", n, t.sort)
		}
		if !lv["p:"+n] {
			lv["p:"+n] = true
			*acc = append(*acc, fmt.Sprintf("(assert (= %s %s))\n", n, printTerm(t, e.defs)))
		}
	case t.op == OApp, t.op == OSelect:
		for _, a := range t.args {
			e.needPat(a, acc, lv)
		}
	}
}
