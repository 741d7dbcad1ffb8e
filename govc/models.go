package main

// Models of the standard library and of external dependencies (all of them are trusted assumptions), and Go builtins.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	hashTag  = 99998 // dynamic type of hash.Hash values made by the standard library
	otherTag = 99997
)

// functions of the standard library whose real source is executed symbolically
var inlineStd = map[string]bool{
	"(*bytes.Buffer).Next":     true,
	"(*bytes.Buffer).Len":      true,
	"(*bytes.Buffer).Bytes":    true,
	"(*bytes.Buffer).empty":    true,
	"(*bytes.Buffer).Reset":    true,
	"(*bytes.Buffer).Truncate": true,
	"(*bytes.Buffer).Read":     true,
	"(*bytes.Buffer).ReadByte": true,
	"(*bytes.Reader).Len":      true,
	"(*bytes.Reader).Size":     true,
	"(*bytes.Reader).Read":     true,
	"(*bytes.Reader).ReadByte": true,
	"(*bytes.Reader).Seek":     true,
	"(*bytes.Reader).Reset":    true,
	"bytes.NewReader":          true,
	"bytes.NewBuffer":          true,

	"(encoding/binary.littleEndian).Uint16":    true,
	"(encoding/binary.littleEndian).Uint32":    true,
	"(encoding/binary.littleEndian).Uint64":    true,
	"(encoding/binary.littleEndian).PutUint16": true,
	"(encoding/binary.littleEndian).PutUint32": true,
	"(encoding/binary.littleEndian).PutUint64": true,
	"(encoding/binary.bigEndian).Uint16":       true,
	"(encoding/binary.bigEndian).Uint32":       true,
	"(encoding/binary.bigEndian).Uint64":       true,
	"(encoding/asn1.BitString).RightAlign":     true,
	"(encoding/asn1.BitString).At":             true,
}

type model func(c *CallCtx, st *State, args []Val) bool
type imodel func(c *CallCtx, st *State, recv Val, args []Val) (done, cont bool)

var models = map[string]model{}
var imodels = map[string]imodel{}

// results depend only on the (content of the) arguments; no effect, no panic
var pureFns = strings.Fields(`
strings.Contains strings.ToLower strings.ToUpper strings.TrimSpace strings.TrimSuffix strings.TrimPrefix strings.EqualFold strings.Index
strings.IndexByte strings.LastIndexByte strings.LastIndex bytes.Index bytes.IndexByte
encoding/hex.EncodeToString unicode/utf8.Valid unicode/utf8.ValidString strconv.Itoa path/filepath.Base
(crypto/x509.SignatureAlgorithm).String os.Getenv net.ParseIP (net.IP).Equal (net.IP).String
(time.Time).After (time.Time).Before (time.Time).Equal (time.Time).Sub (time.Time).IsZero (time.Time).UTC (time.Time).AddDate (time.Time).Year
(*math/big.Int).String (crypto.Hash).Available (crypto.Hash).HashFunc
strconv.ParseInt strconv.Atoi time.Unix
`)

// fresh arbitrary result, no effect, no panic
var freshFns = strings.Fields(`
fmt.Sprintf fmt.Sprint fmt.Sprintln (time.Time).Format (time.Time).Date (time.Time).Clock (time.Time).Zone strings.Join strings.Split
time.Now time.Parse encoding/base64.NewDecoder encoding/hex.DecodeString (*encoding/base64.Encoding).DecodeString strings.NewReader
(crypto/x509/pkix.Name).ToRDNSequence (encoding/asn1.ObjectIdentifier).String unicode/utf16.Decode unicode/utf16.Encode strings.Fields
(*sync.Mutex).Lock (*sync.Mutex).Unlock (*os.File).Close (*github.com/avast/apkparser.ZipReader).Close (*github.com/avast/apkparser.ZipReaderFile).Close
(crypto/x509/pkix.Name).String encoding/pem.Decode fmt.Printf fmt.Println runtime.KeepAlive
`)

func (c *CallCtx) done(st *State, l ...*Term) bool {
	return c.x.finish(st, c.ret, Val{c.rt, l})
}

// finish a forked state (not the one being executed)
func (c *CallCtx) doneFork(st *State, l ...*Term) {
	if c.x.finish(st, c.ret, Val{c.rt, l}) {
		c.x.push(st)
	}
}

func (c *CallCtx) fresh(st *State) bool {
	st.epoch++
	v := c.x.freshVal(st, "r:"+trimPath(c.name), c.rt)
	st.epoch++
	return c.x.finish(st, c.ret, v)
}

func (x *Exec) unknownErr(st *State) Val {
	st.epoch++
	v := x.freshVal(st, "err", tyError)
	st.epoch++
	x.assume(st, x.tb.Lt(x.tb.Int(0), v.L[0]))
	return v
}

// argument leaves with byte slices replaced by their content
func (x *Exec) contentLeaves(st *State, args []Val) []*Term {
	var r []*Term
	for _, a := range args {
		if s, ok := a.T.Underlying().(*types.Slice); ok && elemKey(s.Elem()) == "uint8" {
			r = append(r, x.contentOf(st, a))
			continue
		}
		if x.isPtrTo(a.T, "math/big.Int") || x.isPtrTo(a.T, "big.Int") {
			r = append(r, x.bigVal(st, a))
			continue
		}
		r = append(r, a.L...)
	}
	return r
}

func (x *Exec) pureApp(st *State, name string, rt types.Type, args []Val) Val {
	in := x.contentLeaves(st, args)
	v := Val{T: rt}
	for i, l := range x.p.Leaves(rt) {
		v.L = append(v.L, x.tb.App(fmt.Sprintf("fn:%s#%d", name, i), l.sort, in...))
	}
	if tt, ok := rt.(*types.Tuple); ok {
		o := 0
		for i := 0; i < tt.Len(); i++ {
			n := len(x.p.Leaves(tt.At(i).Type()))
			x.typeFacts(st, Val{tt.At(i).Type(), v.L[o : o+n]}, 1)
			o += n
		}
	} else {
		x.typeFacts(st, v, 1)
	}
	return v
}

func (x *Exec) ghost(st *State, name string, ref *Term) *Term {
	_, s := specSort(ghostFields[name])
	x.ghostRange(name)
	return x.tb.Select(x.hget(st, "g:"+name, SArr(SRef, s)), ref)
}

func (x *Exec) ghostRange(name string) {
	switch name {
	case "fmem":
		x.keyRange["g:fmem"] = [2]*big.Int{bi(0), bi(255)}
	case "pos", "flen":
		x.keyRange["g:"+name] = [2]*big.Int{bi(0), new(big.Int).Lsh(bi(1), 62)}
	}
	_, s := specSort(ghostFields[name])
	x.keySort["g:"+name] = s
}

func (x *Exec) setGhost(st *State, name string, ref, v *Term) {
	x.ghostRange(name)
	_, s := specSort(ghostFields[name])
	h := x.hget(st, "g:"+name, SArr(SRef, s))
	x.noteWrite(st, "g:"+name, s, ref)
	st.heap["g:"+name] = x.tb.Store(h, ref, v)
}

// mathematical value of a *big.Int object
func (x *Exec) bigVal(st *State, v Val) *Term { return x.ghost(st, "bigv", v.L[0]) }

func (x *Exec) dynIs(v Val, name string) bool {
	if !v.L[0].isInt() {
		return false
	}
	t := x.p.TagType(int(v.L[0].c.Int64()))
	return t != nil && x.isPtrTo(t, name)
}

// little-endian bytes of an integer value stored in an array
func (x *Exec) leBytes(v *Term, n int) []*Term {
	tb := x.tb
	var r []*Term
	u := tb.Mod(v, new(big.Int).Lsh(bi(1), uint(8*n)))
	for i := 0; i < n; i++ {
		r = append(r, tb.Mod(tb.Div(u, new(big.Int).Lsh(bi(1), uint(8*i))), bi(256)))
	}
	return r
}

func (x *Exec) leValue(arr, off *Term, n int, t types.Type) *Term {
	lo, _, ok := intRange(t.Underlying().(*types.Basic))
	return x.tb.LeV(arr, off, n, ok && lo.Sign() < 0)
}

func binSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Int8, types.Uint8, types.Bool:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32:
			return 4
		case types.Int64, types.Uint64:
			return 8
		}
	case *types.Array:
		n := binSize(u.Elem())
		if n < 0 {
			return -1
		}
		return n * int(u.Len())
	case *types.Struct:
		s := 0
		for i := 0; i < u.NumFields(); i++ {
			n := binSize(u.Field(i).Type())
			if n < 0 {
				return -1
			}
			s += n
		}
		return s
	}
	return -1
}

// decode a value of type t from bytes and store it at ref
func (x *Exec) binDecode(st *State, t types.Type, ref, arr, off *Term) {
	tb := x.tb
	switch u := t.Underlying().(type) {
	case *types.Basic:
		x.store(st, t, ref, []*Term{x.leValue(arr, off, binSize(t), t)})
	case *types.Array:
		if elemKey(u.Elem()) == "uint8" {
			n := tb.Int(u.Len())
			old := x.mem(st, u.Elem(), byteLeaf, ref)
			x.setMem(st, u.Elem(), byteLeaf, ref, tb.Cpy(old, tb.Int(0), arr, off, n))
			return
		}
		es := binSize(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			x.binDecode(st, u.Elem(), tb.Elm(ref, tb.Int(i)), arr, tb.Add(off, tb.Int(i*int64(es))))
		}
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			var r *Term
			r = tb.Fld(ref, fieldKey(t, f))
			if f.Name() != "_" {
				x.binDecode(st, f.Type(), r, arr, tb.Add(off, tb.Int(int64(o))))
			}
			o += binSize(f.Type())
		}
	}
}

// consume n bytes from a reader. onOK runs on the success state with (array, offset) of the bytes.
func (c *CallCtx) readN(st *State, r Val, n *Term, onOK func(st *State, arr, off *Term) bool, onFail func(st *State, got *Term)) bool {
	x, tb := c.x, c.x.tb
	if x.dynIs(r, "bytes.Buffer") || x.dynIs(r, "bytes.Reader") {
		isBuf := x.dynIs(r, "bytes.Buffer")
		T := x.p.TagType(int(r.L[0].c.Int64())).Underlying().(*types.Pointer).Elem()
		ref := r.L[1]
		x.derefCheck(st, ref, c.pos, c.fr)
		if st.dead {
			return false
		}
		var base, off, end *Term // absolute
		if isBuf {
			b := x.loadFieldByName(st, T, ref, "buf")
			o := x.loadFieldByName(st, T, ref, "off").L[0]
			x.assume(st, tb.And(tb.Le(tb.Int(0), o), tb.Le(o, b.L[2])))
			base, off, end = b.L[0], tb.Add(b.L[1], o), tb.Add(b.L[1], b.L[2])
		} else {
			b := x.loadFieldByName(st, T, ref, "s")
			o := x.loadFieldByName(st, T, ref, "i").L[0]
			x.assume(st, tb.Le(tb.Int(0), o))
			base, off, end = b.L[0], tb.Add(b.L[1], o), tb.Add(b.L[1], b.L[2])
		}
		yes, no := x.split(st, tb.Le(tb.Add(off, n), end))
		if no != nil {
			// everything that was left is consumed
			if isBuf {
				b := x.loadFieldByName(no, T, ref, "buf")
				x.storeField(no, T, ref, fieldIdx(T, "buf"), []*Term{b.L[0], b.L[1], tb.Int(0), b.L[3]})
				x.storeField(no, T, ref, fieldIdx(T, "off"), []*Term{tb.Int(0)})
				x.storeField(no, T, ref, fieldIdx(T, "lastRead"), []*Term{tb.FreshRange("lastRead", bi(-1), bi(4))})
			} else {
				b := x.loadFieldByName(no, T, ref, "s")
				i := x.loadFieldByName(no, T, ref, "i").L[0]
				x.storeField(no, T, ref, fieldIdx(T, "i"), []*Term{tb.Ite(tb.Lt(i, b.L[2]), b.L[2], i)})
				x.storeField(no, T, ref, fieldIdx(T, "prevRune"), []*Term{tb.Int(-1)})
			}
			got := tb.FreshRange("got", bi(0), maxLen)
			x.assume(no, tb.Lt(got, n))
			onFail(no, got)
			if yes == nil {
				return false
			}
		}
		arr := x.bytesMem(yes, base)
		if isBuf {
			x.storeField(yes, T, ref, fieldIdx(T, "off"), []*Term{tb.Add(x.loadFieldByName(yes, T, ref, "off").L[0], n)})
			x.storeField(yes, T, ref, fieldIdx(T, "lastRead"), []*Term{tb.FreshRange("lastRead", bi(-1), bi(4))})
		} else {
			x.storeField(yes, T, ref, fieldIdx(T, "i"), []*Term{tb.Add(x.loadFieldByName(yes, T, ref, "i").L[0], n)})
			x.storeField(yes, T, ref, fieldIdx(T, "prevRune"), []*Term{tb.Int(-1)})
		}
		return onOK(yes, arr, off)
	}
	// a file-like reader with ghost content and position
	x.trust("readers (files): content never changes during verification, reads return the bytes at the current position or an error")
	ref := r.L[1]
	pos, mem, fl := x.ghost(st, "pos", ref), x.ghost(st, "fmem", ref), x.ghost(st, "flen", ref)
	no := st.clone()
	x.setGhost(no, "pos", ref, tb.FreshRange("pos", bi(0), new(big.Int).Lsh(bi(1), 62)))
	got := tb.FreshRange("got", bi(0), maxLen)
	x.assume(no, tb.And(tb.Lt(got, n), tb.Not(tb.And(x.ghost(no, "fok", ref), tb.Le(tb.Int(0), pos), tb.Le(tb.Add(pos, n), fl)))))
	if !no.dead {
		onFail(no, got)
	}
	x.assume(st, tb.And(tb.Le(tb.Int(0), pos), tb.Le(tb.Add(pos, n), fl)))
	if st.dead || x.qf.Check(st.facts, nil, 300) == Unsat {
		return false
	}
	x.setGhost(st, "pos", ref, tb.Add(pos, n))
	return onOK(st, mem, pos)
}

func init() {
	for _, n := range pureFns {
		n := n
		models[n] = func(c *CallCtx, st *State, args []Val) bool {
			c.x.trust("library function " + n + " is a pure function of its arguments and does not panic")
			return c.x.finish(st, c.ret, c.x.pureApp(st, n, c.rt, args))
		}
	}
	for _, n := range freshFns {
		n := n
		models[n] = func(c *CallCtx, st *State, args []Val) bool {
			c.x.trust("library function " + n + ": arbitrary result, no effect, no panic")
			return c.fresh(st)
		}
	}
	newErr := func(c *CallCtx, st *State, args []Val) bool {
		return c.x.finish(st, c.ret, c.x.freshErr(st))
	}
	models["errors.New"] = newErr
	models["fmt.Errorf"] = newErr
	imodels["error.Error"] = func(c *CallCtx, st *State, recv Val, args []Val) (bool, bool) {
		c.x.trust("error.Error and String methods do not panic and have no effect")
		return true, c.x.finish(st, c.ret, c.x.freshVal(st, "errstr", tyString))
	}
	eqBytes := func(c *CallCtx, st *State, args []Val) bool {
		x := c.x
		return c.done(st, x.tb.Eq(x.contentOf(st, args[0]), x.contentOf(st, args[1])))
	}
	models["bytes.Equal"] = eqBytes
	models["crypto/hmac.Equal"] = eqBytes
	models["crypto/subtle.ConstantTimeCompare"] = func(c *CallCtx, st *State, args []Val) bool {
		x := c.x
		return c.done(st, x.tb.Ite(x.tb.Eq(x.contentOf(st, args[0]), x.contentOf(st, args[1])), x.tb.Int(1), x.tb.Int(0)))
	}
	models["bytes.Compare"] = func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		a, b := x.contentOf(st, args[0]), x.contentOf(st, args[1])
		r := tb.App("bcompare", SInt, a, b)
		x.assume(st, tb.And(tb.Le(tb.Int(-1), r), tb.Le(r, tb.Int(1)), tb.Iff(tb.Eq(r, tb.Int(0)), tb.Eq(a, b))))
		return c.done(st, r)
	}
	pfx := func(suffix, bytes bool) model {
		return func(c *CallCtx, st *State, args []Val) bool {
			x, tb := c.x, c.x.tb
			var s, p *Term
			if bytes {
				s, p = x.contentOf(st, args[0]), x.contentOf(st, args[1])
			} else {
				s, p = args[0].L[0], args[1].L[0]
			}
			ls, lp := tb.App("blen", SInt, s), tb.App("blen", SInt, p)
			var part *Term
			if suffix {
				part = x.substr(s, tb.Sub(ls, lp), ls)
			} else {
				part = x.substr(s, tb.Int(0), lp)
			}
			return c.done(st, tb.And(tb.Le(lp, ls), tb.Eq(part, p)))
		}
	}
	models["strings.HasPrefix"] = pfx(false, false)
	models["strings.HasSuffix"] = pfx(true, false)
	models["bytes.HasPrefix"] = pfx(false, true)
	models["bytes.HasSuffix"] = pfx(true, true)

	// ---- binary.Read / io.ReadFull / Seek / CopyN
	models["encoding/binary.Read"] = func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		r, data := args[0], args[2]
		if !data.L[0].isInt() {
			x.fail("binary.Read into unknown type")
		}
		t := x.p.TagType(int(data.L[0].c.Int64()))
		if sl, ok := t.Underlying().(*types.Slice); ok && elemKey(sl.Elem()) == "uint8" {
			v := x.unbox(st, data, t)
			return c.readN(st, r, v.L[2], func(st *State, arr, off *Term) bool {
				x.setBytesMem(st, v.L[0], tb.Cpy(x.bytesMem(st, v.L[0]), v.L[1], arr, off, v.L[2]))
				return c.done(st, tb.Int(0), tb.Null)
			}, func(st *State, got *Term) { c.doneFork(st, x.unknownErr(st).L...) })
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			x.fail("binary.Read into %s", t)
		}
		n := binSize(pt.Elem())
		if n < 0 {
			x.fail("binary.Read into %s", t)
		}
		be := false
		if args[1].L[0].isInt() {
			if ot := x.p.TagType(int(args[1].L[0].c.Int64())); ot != nil && strings.Contains(ot.String(), "bigEndian") {
				be = true
			}
		}
		if be {
			x.fail("big endian binary.Read")
		}
		return c.readN(st, r, tb.Int(int64(n)), func(st *State, arr, off *Term) bool {
			x.binDecode(st, pt.Elem(), data.L[1], arr, off)
			return c.done(st, tb.Int(0), tb.Null)
		}, func(st *State, got *Term) { c.doneFork(st, x.unknownErr(st).L...) })
	}
	models["io.ReadFull"] = func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		b := args[1]
		return c.readN(st, args[0], b.L[2], func(st *State, arr, off *Term) bool {
			if b.L[2] != tb.Int(0) {
				x.setBytesMem(st, b.L[0], tb.Cpy(x.bytesMem(st, b.L[0]), b.L[1], arr, off, b.L[2]))
			}
			return c.done(st, b.L[2], tb.Int(0), tb.Null)
		}, func(st *State, got *Term) {
			st.epoch++
			junk := x.tb.mk(&Term{op: OVar, sort: SArr(SInt, SInt), name: tb.FreshName("junk"), lo: bi(0), hi: bi(255)})
			x.setBytesMem(st, b.L[0], tb.Cpy(x.bytesMem(st, b.L[0]), b.L[1], junk, tb.Int(0), b.L[2]))
			e := x.unknownErr(st)
			c.doneFork(st, got, e.L[0], e.L[1])
		})
	}
	imodels["io.Seeker.Seek"] = func(c *CallCtx, st *State, recv Val, args []Val) (bool, bool) {
		x, tb := c.x, c.x.tb
		if x.dynIs(recv, "bytes.Reader") {
			return false, false
		}
		ref := recv.L[1]
		pos, fl := x.ghost(st, "pos", ref), x.ghost(st, "flen", ref)
		w := args[1].L[0]
		if !w.isInt() {
			x.fail("seek whence")
		}
		x.trust("Seek on a file moves to the requested non-negative position or fails")
		var np *Term
		switch w.c.Int64() {
		case 0:
			np = args[0].L[0]
		case 1:
			np = tb.Add(pos, args[0].L[0])
		default:
			np = tb.Add(fl, args[0].L[0])
		}
		no := st.clone()
		x.setGhost(no, "pos", ref, tb.FreshRange("pos", bi(0), new(big.Int).Lsh(bi(1), 62)))
		x.assume(no, tb.Not(tb.And(x.ghost(no, "fok", ref), tb.Le(tb.Int(0), np))))
		if !no.dead {
			e := x.unknownErr(no)
			c.doneFork(no, tb.FreshRange("seekpos", bi(-1<<62), bi(1<<62)), e.L[0], e.L[1])
		}
		x.assume(st, tb.And(tb.Le(tb.Int(0), np), tb.Le(np, tb.Big(new(big.Int).Lsh(bi(1), 62))), tb.Le(tb.Int(0), fl), tb.Le(fl, tb.Big(maxLen))))
		if st.dead || x.qf.Check(st.facts, nil, 300) == Unsat {
			return true, false
		}
		x.setGhost(st, "pos", ref, np)
		return true, c.done(st, np, tb.Int(0), tb.Null)
	}
	models["io.CopyN"] = func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		w, r, n := args[0], args[1], args[2].L[0]
		pos, neg := x.split(st, tb.Le(tb.Int(0), n))
		if neg != nil {
			if pos == nil {
				return c.done(neg, tb.Int(0), tb.Int(0), tb.Null)
			}
			c.doneFork(neg, tb.Int(0), tb.Int(0), tb.Null)
		}
		bad := pos.clone()
		// source or sink fails
		x.setGhost(bad, "pos", r.L[1], tb.FreshRange("pos", bi(0), new(big.Int).Lsh(bi(1), 62)))
		x.setGhost(bad, "hout", w.L[1], tb.Fresh("hout", SBlob))
		e := x.unknownErr(bad)
		c.doneFork(bad, tb.FreshRange("copied", bi(0), maxLen), e.L[0], e.L[1])
		p, mem, fl := x.ghost(pos, "pos", r.L[1]), x.ghost(pos, "fmem", r.L[1]), x.ghost(pos, "flen", r.L[1])
		x.assume(pos, tb.And(tb.Le(tb.Int(0), p), tb.Le(tb.Add(p, n), fl)))
		if pos.dead || x.qf.Check(pos.facts, nil, 300) == Unsat {
			return false
		}
		x.setGhost(pos, "pos", r.L[1], tb.Add(p, n))
		x.setGhost(pos, "hout", w.L[1], tb.App("bcat", SBlob, x.ghost(pos, "hout", w.L[1]), tb.App("content", SBlob, mem, p, n)))
		return c.done(pos, n, tb.Int(0), tb.Null)
	}
	imodels["io.Writer.Write"] = func(c *CallCtx, st *State, recv Val, args []Val) (bool, bool) {
		x, tb := c.x, c.x.tb
		if recv.L[0].isInt() && recv.L[0].c.Int64() != hashTag {
			return false, false // a concrete writer
		}
		ref := recv.L[1]
		if !x.namedIs(recv.T, "hash.Hash") && !recv.L[0].isInt() {
			bad := st.clone()
			x.setGhost(bad, "hout", ref, tb.Fresh("hout", SBlob))
			e := x.unknownErr(bad)
			c.doneFork(bad, tb.FreshRange("written", bi(0), maxLen), e.L[0], e.L[1])
		} else {
			x.trust("hash.Hash.Write never fails")
		}
		x.setGhost(st, "hout", ref, tb.App("bcat", SBlob, x.ghost(st, "hout", ref), x.contentOf(st, args[0])))
		return true, c.done(st, args[0].L[2], tb.Int(0), tb.Null)
	}
	imodels["hash.Hash.Reset"] = func(c *CallCtx, st *State, recv Val, args []Val) (bool, bool) {
		c.x.setGhost(st, "hout", recv.L[1], c.x.tb.StrLit(""))
		return true, c.done(st)
	}
	imodels["hash.Hash.Size"] = func(c *CallCtx, st *State, recv Val, args []Val) (bool, bool) {
		return true, c.done(st, c.x.hashSize(st, c.x.ghost(st, "halg", recv.L[1])))
	}
	imodels["hash.Hash.Sum"] = func(c *CallCtx, st *State, recv Val, args []Val) (bool, bool) {
		x, tb := c.x, c.x.tb
		h := x.hashOf(st, x.ghost(st, "halg", recv.L[1]), x.ghost(st, "hout", recv.L[1]))
		if args[0].L[0] == tb.Null || args[0].L[2] == tb.Int(0) {
			v := x.bytesFromBlob(st, h)
			return true, c.done(st, v.L...)
		}
		src := x.bytesFromBlob(st, h)
		v := x.appendSlices(st, args[0], src, tyByte)
		return true, c.done(st, v.L...)
	}
	mkHash := func(c *CallCtx, st *State, alg *Term) bool {
		x := c.x
		r := x.alloc(st)
		x.setGhost(st, "halg", r, alg)
		x.setGhost(st, "hout", r, x.tb.StrLit(""))
		return c.done(st, x.tb.Int(hashTag), r)
	}
	models["(crypto.Hash).New"] = func(c *CallCtx, st *State, args []Val) bool {
		c.x.trust("crypto.Hash.New: the hash function is linked into the program (the repository imports it)")
		c.x.oblige(st, "panic", "crypto.Hash.New of an unknown hash", c.x.pos(c.pos), nil, c.x.tb.And(c.x.tb.Lt(c.x.tb.Int(0), args[0].L[0]), c.x.tb.Le(args[0].L[0], c.x.tb.Int(7))))
		return mkHash(c, st, args[0].L[0])
	}
	models["(crypto.Hash).Size"] = func(c *CallCtx, st *State, args []Val) bool {
		return c.done(st, c.x.hashSize(st, args[0].L[0]))
	}
	for n, a := range map[string]int64{"crypto/md5.New": 2, "crypto/sha1.New": 3, "crypto/sha256.New224": 4, "crypto/sha256.New": 5, "crypto/sha512.New384": 6, "crypto/sha512.New": 7} {
		a := a
		models[n] = func(c *CallCtx, st *State, args []Val) bool { return mkHash(c, st, c.x.tb.Int(a)) }
	}
	for n, a := range map[string]int64{"crypto/md5.Sum": 2, "crypto/sha1.Sum": 3, "crypto/sha256.Sum224": 4, "crypto/sha256.Sum256": 5, "crypto/sha512.Sum384": 6, "crypto/sha512.Sum512": 7} {
		a := a
		models[n] = func(c *CallCtx, st *State, args []Val) bool {
			x := c.x
			return c.done(st, x.tb.App("bytesOf", SArr(SInt, SInt), x.hashOf(st, x.tb.Int(a), x.contentOf(st, args[0]))))
		}
	}
	// ---- sorting
	models["sort.Slice"] = func(c *CallCtx, st *State, args []Val) bool {
		x := c.x
		x.trust("sort.Slice permutes the slice in place (the order itself and the permutation are not modelled) ")
		if !args[0].L[0].isInt() {
			x.fail("sort.Slice of unknown type")
		}
		t := x.p.TagType(int(args[0].L[0].c.Int64()))
		v := x.unbox(st, args[0], t)
		x.permute(st, v)
		return c.done(st)
	}
	models["sort.Sort"] = func(c *CallCtx, st *State, args []Val) bool {
		x := c.x
		x.trust("sort.Sort permutes the slice in place (the order itself and the permutation are not modelled)")
		if args[0].L[0].isInt() {
			t := x.p.TagType(int(args[0].L[0].c.Int64()))
			v := x.unbox(st, args[0], t)
			if _, ok := t.Underlying().(*types.Slice); ok {
				x.permute(st, v)
				return c.done(st)
			}
		}
		x.fail("sort.Sort of unknown type")
		return false
	}
	bw := func(get func(x *Exec, st *State, a Val) (arr, off, n *Term), res func(x *Exec, n *Term) []*Term) model {
		return func(c *CallCtx, st *State, args []Val) bool {
			x, tb := c.x, c.x.tb
			ref := args[0].L[0]
			x.derefCheck(st, ref, c.pos, c.fr)
			if st.dead {
				return false
			}
			T := x.bufferType()
			buf := x.loadFieldByName(st, T, ref, "buf")
			arr, off, n := get(x, st, args[1])
			nv := x.appendRaw(st, buf, tyByte, func(st *State, nr, at *Term) {
				x.setBytesMem(st, nr, tb.Cpy(x.bytesMem(st, nr), at, arr, off, n))
			}, n)
			x.storeField(st, T, ref, fieldIdx(T, "buf"), nv.L)
			x.storeField(st, T, ref, fieldIdx(T, "lastRead"), []*Term{tb.Int(0)})
			x.trust("bytes.Buffer writes: appended bytes go to a new array (views of the buffer taken earlier keep the old bytes)")
			return c.done(st, res(x, n)...)
		}
	}
	nres := func(x *Exec, n *Term) []*Term { return []*Term{n, x.tb.Int(0), x.tb.Null} }
	models["(*bytes.Buffer).Write"] = bw(func(x *Exec, st *State, a Val) (*Term, *Term, *Term) { return x.bytesMem(st, a.L[0]), a.L[1], a.L[2] }, nres)
	models["(*bytes.Buffer).WriteString"] = bw(func(x *Exec, st *State, a Val) (*Term, *Term, *Term) {
		return x.tb.App("bytesOf", SArr(SInt, SInt), a.L[0]), x.tb.Int(0), x.tb.App("blen", SInt, a.L[0])
	}, nres)
	models["(*bytes.Buffer).WriteByte"] = bw(func(x *Exec, st *State, a Val) (*Term, *Term, *Term) {
		return x.tb.ConstArr(SArr(SInt, SInt), a.L[0]), x.tb.Int(0), x.tb.Int(1)
	}, func(x *Exec, n *Term) []*Term { return []*Term{x.tb.Int(0), x.tb.Null} })
	models["(*bytes.Buffer).String"] = func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		T := x.bufferType()
		b := x.loadFieldByName(st, T, args[0].L[0], "buf")
		o := x.loadFieldByName(st, T, args[0].L[0], "off").L[0]
		return c.done(st, tb.App("content", SBlob, x.bytesMem(st, b.L[0]), tb.Add(b.L[1], o), tb.Sub(b.L[2], o)))
	}
	models["fmt.Fprintf"] = func(c *CallCtx, st *State, args []Val) bool {
		x := c.x
		x.trust("fmt.Fprintf writes some text to its writer")
		if x.dynIs(args[0], "bytes.Buffer") {
			T := x.bufferType()
			st.epoch++
			v := x.freshVal(st, "buf", T)
			st.epoch++
			x.store(st, T, args[0].L[1], v.L)
			x.bufferFacts(st, args[0].L[1])
		} else if !args[0].L[0].isInt() || args[0].L[0].c.Int64() == hashTag {
			x.setGhost(st, "hout", args[0].L[1], x.tb.Fresh("hout", SBlob))
		}
		return c.fresh(st)
	}
	models["encoding/binary.Write"] = func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		data := args[2]
		if !data.L[0].isInt() {
			x.fail("binary.Write of unknown type")
		}
		t := x.p.TagType(int(data.L[0].c.Int64()))
		var v Val
		if p, ok := t.Underlying().(*types.Pointer); ok {
			v = x.load(st, p.Elem(), data.L[1])
			t = p.Elem()
		} else {
			v = x.unbox(st, data, t)
		}
		n := binSize(t)
		if n < 0 {
			x.fail("binary.Write of %s", t)
		}
		arr := tb.ConstArr(SArr(SInt, SInt), tb.Int(0))
		x.binEncode(st, v, &arr, 0)
		w := args[0]
		r := x.alloc(st)
		x.setBytesMem(st, r, arr)
		src := x.mkSlice(tyBytes, r, tb.Int(0), tb.Int(int64(n)), tb.Int(int64(n)))
		if x.dynIs(w, "bytes.Buffer") {
			T := x.bufferType()
			buf := x.loadFieldByName(st, T, w.L[1], "buf")
			nv := x.appendSlices(st, buf, src, tyByte)
			x.storeField(st, T, w.L[1], fieldIdx(T, "buf"), nv.L)
			return c.done(st, tb.Int(0), tb.Null)
		}
		if !x.namedIs(w.T, "hash.Hash") && !(w.L[0].isInt() && w.L[0].c.Int64() == hashTag) {
			bad := st.clone()
			x.setGhost(bad, "hout", w.L[1], tb.Fresh("hout", SBlob))
			c.doneFork(bad, x.unknownErr(bad).L...)
		}
		x.setGhost(st, "hout", w.L[1], tb.App("bcat", SBlob, x.ghost(st, "hout", w.L[1]), tb.App("content", SBlob, arr, tb.Int(0), tb.Int(int64(n)))))
		return c.done(st, tb.Int(0), tb.Null)
	}
	initCryptoModels()
}

func (x *Exec) binEncode(st *State, v Val, arr **Term, off int) int {
	tb := x.tb
	switch u := v.T.Underlying().(type) {
	case *types.Basic:
		n := binSize(v.T)
		for i, b := range x.leBytes(v.L[0], n) {
			*arr = tb.Store(*arr, tb.Int(int64(off+i)), b)
		}
		return off + n
	case *types.Array:
		if elemKey(u.Elem()) == "uint8" {
			*arr = tb.Cpy(*arr, tb.Int(int64(off)), v.L[0], tb.Int(0), tb.Int(u.Len()))
			return off + int(u.Len())
		}
		x.fail("binary.Write of array %s", v.T)
	case *types.Struct:
		o := 0
		for i := 0; i < u.NumFields(); i++ {
			n := len(x.p.Leaves(u.Field(i).Type()))
			off = x.binEncode(st, Val{u.Field(i).Type(), v.L[o : o+n]}, arr, off)
			o += n
		}
		return off
	}
	x.fail("binary.Write of %s", v.T)
	return 0
}

func (x *Exec) hashSize(st *State, alg *Term) *Term {
	tb := x.tb
	if alg.isInt() {
		switch alg.c.Int64() {
		case 1, 2:
			return tb.Int(16)
		case 3:
			return tb.Int(20)
		case 4:
			return tb.Int(28)
		case 5:
			return tb.Int(32)
		case 6:
			return tb.Int(48)
		case 7:
			return tb.Int(64)
		}
	}
	r := tb.App("hsize", SInt, alg)
	x.assume(st, tb.And(tb.Le(tb.Int(16), r), tb.Le(r, tb.Int(64))))
	for a, n := range map[int64]int64{2: 16, 3: 20, 4: 28, 5: 32, 6: 48, 7: 64} {
		x.assume(st, tb.Implies(tb.Eq(alg, tb.Int(a)), tb.Eq(r, tb.Int(n))))
	}
	return r
}

// digest of data under algorithm alg (crypto.Hash number)
func (x *Exec) hashOf(st *State, alg, data *Term) *Term {
	h := x.tb.App("G:H", SBlob, alg, data)
	x.trust("hash functions: uninterpreted function of algorithm and data with the right output length")
	x.assume(st, x.tb.Eq(x.tb.App("blen", SInt, h), x.hashSize(st, alg)))
	return h
}

// unknown reordering of a slice
func (x *Exec) permute(st *State, v Val) {
	et := v.T.Underlying().(*types.Slice).Elem()
	tb := x.tb
	if isStruct(et) {
		x.fail("sorting structs")
	}
	perm := tb.Fresh("perm", SArr(SInt, SInt))
	inv := tb.Fresh("perminv", SArr(SInt, SInt))
	i := tb.Var("?i", SInt)
	var first *Term
	var olds, news []*Term
	for _, l := range x.p.Leaves(et) {
		old := x.mem(st, et, l, v.L[0])
		if first == nil {
			first = old
		}
		na := tb.mk(&Term{op: OVar, sort: SArr(SInt, l.sort), name: tb.FreshName("sorted"), lo: l.lo, hi: l.hi, maxEp: st.epoch})
		in := tb.And(tb.Le(v.L[1], i), tb.Lt(i, tb.Add(v.L[1], v.L[2])))
		sel := tb.Select(na, i)
		pi := tb.Select(perm, i)
		x.assume(st, tb.Quant(OForall, []*Term{i}, [][]*Term{{sel}}, tb.And(
			tb.Implies(in, tb.And(tb.Le(v.L[1], pi), tb.Lt(pi, tb.Add(v.L[1], v.L[2])), tb.Eq(sel, tb.Select(old, pi)), tb.Eq(tb.Select(inv, pi), i))),
			tb.Implies(tb.Not(in), tb.Eq(sel, tb.Select(old, i))))))
		x.setMem(st, et, l, v.L[0], na)
		olds, news = append(olds, old), append(news, na)
	}
	// every old element is still there
	if first != nil {
		kept := tb.True
		for k := range olds {
			kept = tb.And(kept, tb.Eq(tb.Select(news[k], tb.Select(inv, i)), tb.Select(olds[k], i)))
		}
		pi := tb.Select(inv, i)
		in := tb.And(tb.Le(v.L[1], i), tb.Lt(i, tb.Add(v.L[1], v.L[2])))
		x.assume(st, tb.Quant(OForall, []*Term{i}, [][]*Term{{pi}, {tb.App("trg:"+first.sort.elt.String(), SBool, tb.Select(first, i))}}, tb.Implies(in, tb.And(tb.Le(v.L[1], pi), tb.Lt(pi, tb.Add(v.L[1], v.L[2])), tb.Eq(tb.Select(perm, pi), i), kept))))
	}
}

// ---------- slices: append and copy

// new backing array holding the elements of v; fill writes n more elements at absolute index `at`
func (x *Exec) appendRaw(st *State, v Val, et types.Type, fill func(st *State, nr, at *Term), n *Term) Val {
	tb := x.tb
	nr := x.alloc(st)
	old := v.L[0]
	x.copyElems(st, et, nr, v.L[1], old, v.L[1], v.L[2], true)
	fill(st, nr, tb.Add(v.L[1], v.L[2]))
	nl := tb.Add(v.L[2], n)
	var cp *Term
	if nl.isInt() {
		cp = tb.FreshRange("cap", nl.c, maxLen)
	} else {
		cp = tb.FreshRange("cap", bi(0), maxLen)
	}
	x.assume(st, tb.And(tb.Le(nl, cp), tb.Le(tb.Add(v.L[1], cp), tb.Big(maxLen))))
	x.trust("append and buffer growth: allocations succeed; append never writes into spare capacity shared with another live slice (always treated as a copy)")
	return Val{v.T, []*Term{nr, v.L[1], nl, cp}}
}

// copy n elements src[so..] to dst[do..]; whole: dst is new and its other elements do not matter
func (x *Exec) copyElems(st *State, et types.Type, dst, do, src, so, n *Term, whole bool) {
	tb := x.tb
	if isStruct(et) {
		if n.isInt() && n.c.IsInt64() && n.c.Int64() <= 8 {
			var vs []Val
			for i := int64(0); i < n.c.Int64(); i++ {
				vs = append(vs, x.loadStruct(st, et, tb.Elm(src, tb.Add(so, tb.Int(i)))))
			}
			for i := range vs {
				x.storeStruct(st, et, tb.Elm(dst, tb.Add(do, tb.Int(int64(i)))), vs[i].L)
			}
			return
		}
		if !whole {
			x.fail("copy of a variable number of structs")
		}
		i := tb.Var("?i", SInt)
		a := x.loadStructNoFacts(st, et, tb.Elm(dst, i))
		b := x.loadStructNoFacts(st, et, tb.Elm(src, tb.Add(i, tb.Sub(so, do))))
		in := tb.And(tb.Le(do, i), tb.Lt(i, tb.Add(do, n)))
		for j := range a.L {
			x.assume(st, tb.Quant(OForall, []*Term{i}, [][]*Term{{a.L[j]}}, tb.Implies(in, tb.Eq(a.L[j], b.L[j]))))
		}
		return
	}
	for _, l := range x.p.Leaves(et) {
		sa := x.mem(st, et, l, src)
		if whole && do == so {
			x.setMem(st, et, l, dst, sa)
			continue
		}
		da := x.mem(st, et, l, dst)
		x.setMem(st, et, l, dst, tb.Cpy(da, do, sa, so, n))
	}
}

func (x *Exec) appendSlices(st *State, a, b Val, et types.Type) Val {
	tb := x.tb
	if b.L[2] == tb.Int(0) {
		return a
	}
	// values of b must be read before the new array is filled
	r := x.appendRaw(st, a, et, func(st *State, nr, at *Term) {
		x.copyElems(st, et, nr, at, b.L[0], b.L[1], b.L[2], isStruct(et))
	}, b.L[2])
	if !b.L[2].isInt() && !x.entails(st, tb.Lt(tb.Int(0), tb.Add(a.L[2], b.L[2]))) {
		// nothing appended to nil stays nil
		nilc := tb.And(tb.Eq(b.L[2], tb.Int(0)), tb.Eq(a.L[0], tb.Null))
		if nilc != tb.False {
			r.L[0] = tb.Ite(nilc, tb.Null, r.L[0])
			r.L[3] = tb.Ite(nilc, tb.Int(0), r.L[3])
		}
	}
	return r
}

func (x *Exec) builtin(st *State, fr *Frame, b *ssa.Builtin, c *ssa.CallCommon, ret *ssa.Call) bool {
	tb := x.tb
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, fr, a))
	}
	done := func(l ...*Term) bool {
		if ret != nil {
			x.set(fr, ret, Val{ret.Type(), l})
		}
		return true
	}
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch u := v.T.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				return done(v.L[3])
			}
			return done(v.L[2])
		case *types.Basic:
			return done(tb.App("blen", SInt, v.L[0]))
		case *types.Map:
			n := x.mapLen(st, u, v.L[0])
			if v.L[0].op != OBase {
				n = tb.Ite(tb.Eq(v.L[0], tb.Null), tb.Int(0), n)
			}
			return done(n)
		case *types.Array:
			return done(tb.Int(u.Len()))
		case *types.Pointer:
			return done(tb.Int(u.Elem().Underlying().(*types.Array).Len()))
		}
	case "append":
		et := ret.Type().Underlying().(*types.Slice).Elem()
		src := args[1]
		if bt, ok := src.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			n := tb.App("blen", SInt, src.L[0])
			r := x.alloc(st)
			x.setBytesMem(st, r, tb.App("bytesOf", SArr(SInt, SInt), src.L[0]))
			src = x.mkSlice(tyBytes, r, tb.Int(0), n, n)
		}
		v := x.appendSlices(st, args[0], src, et)
		return done(v.L...)
	case "copy":
		d, s := args[0], args[1]
		et := d.T.Underlying().(*types.Slice).Elem()
		var n *Term
		if bt, ok := s.T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			ln := tb.App("blen", SInt, s.L[0])
			n = x.minTerm(st, d.L[2], ln)
			x.setBytesMem(st, d.L[0], tb.Cpy(x.bytesMem(st, d.L[0]), d.L[1], tb.App("bytesOf", SArr(SInt, SInt), s.L[0]), tb.Int(0), n))
			return done(n)
		}
		n = x.minTerm(st, d.L[2], s.L[2])
		x.copyElems(st, et, d.L[0], d.L[1], s.L[0], s.L[1], n, false)
		return done(n)
	case "delete":
		mt := args[0].T.Underlying().(*types.Map)
		if args[0].L[0] == tb.Null {
			return done()
		}
		x.mapDelete(st, mt, args[0].L[0], args[1])
		return done()
	case "min", "max":
		r := args[0].L[0]
		for _, a := range args[1:] {
			if b.Name() == "min" {
				r = tb.Ite(tb.Le(r, a.L[0]), r, a.L[0])
			} else {
				r = tb.Ite(tb.Le(r, a.L[0]), a.L[0], r)
			}
		}
		return done(r)
	case "print", "println":
		return done()
	case "panic":
		x.oblige(st, "panic", "explicit panic", x.pos(ret.Pos()), nil, tb.False)
		return false
	case "recover":
		return done(tb.Int(0), tb.Null)
	case "ssa:wrapnilchk":
		x.derefCheck(st, args[0].L[0], ret.Pos(), fr)
		return done(args[0].L...)
	case "close":
		return done()
	}
	x.fail("builtin %s", b.Name())
	return false
}

func (x *Exec) minTerm(st *State, a, b *Term) *Term {
	tb := x.tb
	if x.entails(st, tb.Le(a, b)) {
		return a
	}
	if x.entails(st, tb.Le(b, a)) {
		return b
	}
	return tb.Ite(tb.Le(a, b), a, b)
}
