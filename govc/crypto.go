package main

// Models of asn1.Unmarshal and math/big (trusted).

import (
	"go/types"
	"math/big"
)

var maxInt62 = new(big.Int).Lsh(bi(1), 62)

func (x *Exec) bigNew(st *State, v *Term) *Term {
	r := x.alloc(st)
	x.setGhost(st, "bigv", r, v)
	return r
}

func initCryptoModels() {
	unm := func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		x.trust("encoding/asn1.Unmarshal: arbitrary result or error, writes only through its target; a []*big.Int target receives non-nil integers determined by the input")
		target := args[1]
		if !target.L[0].isInt() {
			x.fail("asn1.Unmarshal into unknown type")
		}
		t := x.p.TagType(int(target.L[0].c.Int64()))
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			x.fail("asn1.Unmarshal into %s", t)
		}
		in := x.contentOf(st, args[0])
		bad := st.clone()
		badRest := Val{}
		// failure: the target may have been partly written
		bad.epoch++
		bv := x.freshVal(bad, "unm", pt.Elem())
		badRest = x.freshVal(bad, "rest", tyBytes)
		bad.epoch++
		x.store(bad, pt.Elem(), target.L[1], bv.L)
		e := x.unknownErr(bad)
		c.doneFork(bad, append(append([]*Term(nil), badRest.L...), e.L...)...)
		rl := tb.FreshRange("restlen", bi(0), maxLen)
		x.assume(st, tb.Le(rl, args[0].L[2]))
		rest := x.mkSlice(tyBytes, args[0].L[0], tb.Add(args[0].L[1], tb.Sub(args[0].L[2], rl)), rl, rl)
		if sl, ok := pt.Elem().Underlying().(*types.Slice); ok && (x.isPtrTo(sl.Elem(), "big.Int") || x.isPtrTo(sl.Elem(), "math/big.Int")) {
			n := tb.App("G:derCount", SInt, in)
			x.assume(st, tb.And(tb.Le(tb.Int(0), n), tb.Le(n, tb.Big(maxLen))))
			arr := x.alloc(st)
			mem := tb.mk(&Term{op: OVar, sort: SArr(SInt, SRef), name: tb.FreshName("bigs"), maxEp: st.epoch})
			x.setMem(st, sl.Elem(), x.p.Leaves(sl.Elem())[0], arr, mem)
			i := tb.Var("?i", SInt)
			el := tb.Select(mem, i)
			gv := tb.Select(x.hget(st, "g:bigv", SArr(SRef, SInt)), el)
			x.assume(st, tb.Quant(OForall, []*Term{i}, [][]*Term{{el}}, tb.Implies(tb.And(tb.Le(tb.Int(0), i), tb.Lt(i, n)),
				tb.And(tb.Not(tb.Eq(el, tb.Null)), tb.Eq(gv, tb.App("G:derInt", SInt, in, i))))))
			s := x.mkSlice(pt.Elem(), arr, tb.Int(0), n, n)
			x.store(st, pt.Elem(), target.L[1], s.L)
		} else {
			st.epoch++
			v := x.freshVal(st, "unm", pt.Elem())
			st.epoch++
			x.store(st, pt.Elem(), target.L[1], v.L)
		}
		return c.done(st, append(append([]*Term(nil), rest.L...), tb.Int(0), tb.Null)...)
	}
	models["encoding/asn1.Unmarshal"] = unm
	models["github.com/avast/apkverifier/internal/asn1andr.Unmarshal"] = unm

	// ---- math/big: values are mathematical integers
	models["math/big.NewInt"] = func(c *CallCtx, st *State, args []Val) bool {
		return c.done(st, c.x.bigNew(st, args[0].L[0]))
	}
	set := func(f func(c *CallCtx, st *State, args []Val) *Term) model {
		return func(c *CallCtx, st *State, args []Val) bool {
			c.x.derefCheck(st, args[0].L[0], c.pos, c.fr)
			if st.dead {
				return false
			}
			c.x.trust("math/big.Int: exact mathematical integers")
			c.x.setGhost(st, "bigv", args[0].L[0], f(c, st, args))
			return c.done(st, args[0].L[0])
		}
	}
	bv := func(c *CallCtx, st *State, a Val) *Term { return c.x.bigVal(st, a) }
	models["(*math/big.Int).SetInt64"] = set(func(c *CallCtx, st *State, a []Val) *Term { return a[1].L[0] })
	models["(*math/big.Int).Set"] = set(func(c *CallCtx, st *State, a []Val) *Term { return bv(c, st, a[1]) })
	models["(*math/big.Int).Add"] = set(func(c *CallCtx, st *State, a []Val) *Term { return c.x.tb.Add(bv(c, st, a[1]), bv(c, st, a[2])) })
	models["(*math/big.Int).Sub"] = set(func(c *CallCtx, st *State, a []Val) *Term { return c.x.tb.Sub(bv(c, st, a[1]), bv(c, st, a[2])) })
	models["(*math/big.Int).Neg"] = set(func(c *CallCtx, st *State, a []Val) *Term { return c.x.tb.Neg(bv(c, st, a[1])) })
	models["(*math/big.Int).Not"] = set(func(c *CallCtx, st *State, a []Val) *Term {
		return c.x.tb.Sub(c.x.tb.Int(-1), bv(c, st, a[1]))
	})
	// big-endian unsigned value of bytes: G:beval(array, off, len)
	models["(*math/big.Int).SetBytes"] = set(func(c *CallCtx, st *State, a []Val) *Term {
		tb := c.x.tb
		v := tb.App("G:beval", SInt, c.x.bytesMem(st, a[1].L[0]), a[1].L[1], a[1].L[2])
		c.x.assume(st, tb.Le(tb.Int(0), v))
		return v
	})
	models["(*math/big.Int).Sign"] = func(c *CallCtx, st *State, args []Val) bool {
		c.x.derefCheck(st, args[0].L[0], c.pos, c.fr)
		if st.dead {
			return false
		}
		tb := c.x.tb
		v := bv(c, st, args[0])
		return c.done(st, tb.Ite(tb.Lt(v, tb.Int(0)), tb.Int(-1), tb.Ite(tb.Lt(tb.Int(0), v), tb.Int(1), tb.Int(0))))
	}
	models["(*math/big.Int).Cmp"] = func(c *CallCtx, st *State, args []Val) bool {
		tb := c.x.tb
		v, w := bv(c, st, args[0]), bv(c, st, args[1])
		return c.done(st, tb.Ite(tb.Lt(v, w), tb.Int(-1), tb.Ite(tb.Lt(w, v), tb.Int(1), tb.Int(0))))
	}
	models["(*math/big.Int).BitLen"] = func(c *CallCtx, st *State, args []Val) bool {
		tb := c.x.tb
		c.x.derefCheck(st, args[0].L[0], c.pos, c.fr)
		if st.dead {
			return false
		}
		r := tb.App("G:bitlen", SInt, bv(c, st, args[0]))
		c.x.assume(st, tb.And(tb.Le(tb.Int(0), r), tb.Le(r, tb.Big(maxLen))))
		return c.done(st, r)
	}
	// content of the minimal big-endian representation of |x|
	models["(*math/big.Int).Bytes"] = func(c *CallCtx, st *State, args []Val) bool {
		x, tb := c.x, c.x.tb
		x.derefCheck(st, args[0].L[0], c.pos, c.fr)
		if st.dead {
			return false
		}
		v := bv(c, st, args[0])
		av := tb.Ite(tb.Lt(v, tb.Int(0)), tb.Neg(v), v)
		b := tb.App("G:magBytes", SBlob, av)
		s := x.bytesFromBlob(st, b)
		x.assume(st, tb.Eq(tb.App("G:beval", SInt, x.bytesMem(st, s.L[0]), s.L[1], s.L[2]), av))
		x.assume(st, tb.Iff(tb.Eq(s.L[2], tb.Int(0)), tb.Eq(av, tb.Int(0))))
		x.assume(st, tb.Implies(tb.Lt(tb.Int(0), s.L[2]), tb.Lt(tb.Int(0), tb.Select(x.bytesMem(st, s.L[0]), s.L[1]))))
		return c.done(st, s.L...)
	}
	_ = maxInt62
}
