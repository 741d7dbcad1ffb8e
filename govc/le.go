package main

import (
	"fmt"
	"math/big"
	"strings"
)

// little-endian integers read from a byte array are opaque applications leN(arr, off) / sleN(arr, off)
// (N = bytes, s = two's complement), with axioms relating them to array updates and to single bytes.

func init() {
	for _, n := range []int{2, 4, 8} {
		for _, s := range []bool{false, true} {
			funAxioms[leName(n, s)] = leAxioms(n, s)
			funAxioms[leName(n, s)+"+shift"] = strings.ReplaceAll(`(assert (forall ((a (Array Int Int)) (s Int) (o Int)) (! (= (|LE| (|shift| a s) o) (|LE| a (+ s o))) :pattern ((|LE| (|shift| a s) o)))))
`, "LE", leName(n, s))
			funAxioms[leName(n, s)+"+cpy"] = strings.ReplaceAll(strings.ReplaceAll(`(assert (forall ((a (Array Int Int)) (d Int) (b (Array Int Int)) (s Int) (n Int) (o Int)) (! (=> (and (<= d o) (<= (+ o LEN) (+ d n))) (= (|LE| (|cpy| a d b s n) o) (|LE| b (+ s (- o d))))) :pattern ((|LE| (|cpy| a d b s n) o)))))
(assert (forall ((a (Array Int Int)) (d Int) (b (Array Int Int)) (s Int) (n Int) (o Int)) (! (=> (or (<= (+ o LEN) d) (<= (+ d n) o)) (= (|LE| (|cpy| a d b s n) o) (|LE| a o))) :pattern ((|LE| (|cpy| a d b s n) o)))))
`, "LEN", fmt.Sprint(n)), "|LE|", "|"+leName(n, s)+"|")
		}
		funAxioms[leName(n, false)+"+"+leName(n, true)] = fmt.Sprintf(`(assert (forall ((a (Array Int Int)) (o Int)) (! (= (|%s| a o) (ite (<= (|%s| a o) %s) (|%s| a o) (- (|%s| a o) %s))) :pattern ((|%s| a o) (|%s| a o)))))
`, leName(n, true), leName(n, false), new(big.Int).Sub(pow2(8*n-1), bi(1)), leName(n, false), leName(n, false), pow2(8*n), leName(n, true), leName(n, false))
	}
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(bi(1), uint(n)) }

func leName(n int, signed bool) string {
	if signed {
		return fmt.Sprintf("sle%d", n)
	}
	return fmt.Sprintf("le%d", n)
}

func leSize(name string) (n int, signed bool) {
	switch name {
	case "le2", "le4", "le8":
		return int(name[2] - '0'), false
	case "sle2", "sle4", "sle8":
		return int(name[3] - '0'), true
	}
	return 0, false
}

func leRange(n int, signed bool) (lo, hi *big.Int) {
	if signed {
		return new(big.Int).Neg(pow2(8*n - 1)), new(big.Int).Sub(pow2(8*n-1), bi(1))
	}
	return bi(0), new(big.Int).Sub(pow2(8*n), bi(1))
}

func leAxioms(n int, signed bool) string {
	nm := "|" + leName(n, signed) + "|"
	lo, hi := leRange(n, signed)
	var sb strings.Builder
	fmt.Fprintf(&sb, "(assert (forall ((a (Array Int Int)) (o Int)) (! (and (<= %s (%s a o)) (<= (%s a o) %s)) :pattern ((%s a o)))))\n", smtInt(lo), nm, nm, smtInt(hi), nm)
	fmt.Fprintf(&sb, "(assert (forall ((a (Array Int Int)) (k Int) (v Int) (o Int)) (! (=> (or (< k o) (<= (+ o %d) k)) (= (%s (store a k v) o) (%s a o))) :pattern ((%s (store a k v) o)))))\n", n, nm, nm, nm)
	sum, bytes := "", ""
	for i := 0; i < n; i++ {
		bytes += fmt.Sprintf(" (<= 0 (select a (+ o %d))) (<= (select a (+ o %d)) 255)", i, i)
		sum += fmt.Sprintf(" (* %s (select a (+ o %d)))", pow2(8*i), i)
	}
	if !signed {
		fmt.Fprintf(&sb, "(assert (forall ((a (Array Int Int)) (o Int)) (! (=> (and%s) (= (%s a o) (+%s))) :pattern ((%s a o) (select a o)))))\n", bytes, nm, sum, nm)
	} else {
		fmt.Fprintf(&sb, "(assert (forall ((a (Array Int Int)) (o Int)) (! (=> (and%s) (= (%s a o) (- (+%s) (ite (<= 128 (select a (+ o %d))) %s 0)))) :pattern ((%s a o) (select a o)))))\n", bytes, nm, sum, n-1, pow2(8*n), nm)
	}
	return sb.String()
}

// LeV is the n-byte little-endian integer at arr[off..off+n)
func (b *TB) LeV(arr, off *Term, n int, signed bool) *Term {
	if n == 1 {
		u := b.Select(arr, off)
		if signed {
			return b.Ite(b.Le(u, b.Int(127)), u, b.Sub(u, b.Int(256)))
		}
		return u
	}
	end := b.Add(off, b.Int(int64(n)))
	for {
		switch arr.op {
		case OStore:
			k := arr.args[1]
			if b.Lt(k, off) == b.True || b.Le(end, k) == b.True {
				arr = arr.args[0]
				continue
			}
		case OApp:
			switch arr.name {
			case "shift":
				off = b.Add(off, arr.args[1])
				end = b.Add(off, b.Int(int64(n)))
				arr = arr.args[0]
				continue
			case "cpy":
				A, d, B, s, l := arr.args[0], arr.args[1], arr.args[2], arr.args[3], arr.args[4]
				if b.Le(end, d) == b.True || b.Le(b.Add(d, l), off) == b.True {
					arr = A
					continue
				}
				if b.Le(d, off) == b.True && b.Le(end, b.Add(d, l)) == b.True {
					off = b.Add(s, b.Sub(off, d))
					end = b.Add(off, b.Int(int64(n)))
					arr = B
					continue
				}
			case "bytesOf":
				c := arr.args[0]
				if c.op == OApp && c.name == "content" && b.Le(b.Int(0), off) == b.True && b.Le(end, c.args[2]) == b.True {
					off = b.Add(c.args[1], off)
					end = b.Add(off, b.Int(int64(n)))
					arr = c.args[0]
					continue
				}
			}
		}
		break
	}
	expand := false
	switch arr.op {
	case OStore:
		k := arr.args[1]
		expand = b.Le(off, k) == b.True && b.Lt(k, end) == b.True
	case OConstArr:
		expand = true
	case OApp:
		if arr.name == "bytesOf" && arr.args[0].op == OVar && off.isInt() {
			_, expand = b.litStr(arr.args[0])
		}
	}
	if expand {
		var bs []*Term
		for i := 0; i < n; i++ {
			bs = append(bs, b.Select(arr, b.Add(off, b.Int(int64(i)))))
		}
		if bs[0].op == OSelect {
			same := true
			a0, o0 := bs[0].args[0], bs[0].args[1]
			for i := range bs {
				if bs[i].op != OSelect || bs[i].args[0] != a0 || bs[i].args[1] != b.Add(o0, b.Int(int64(i))) {
					same = false
				}
			}
			if same {
				return b.LeV(a0, o0, n, signed)
			}
		}
		var parts []*Term
		for i := range bs {
			parts = append(parts, b.MulC(bs[i], pow2(8*i)))
		}
		u := b.Add(parts...)
		if signed {
			_, hi := leRange(n, true)
			return b.Ite(b.Le(u, b.Big(hi)), u, b.Sub(u, b.Big(pow2(8*n))))
		}
		return u
	}
	return b.App(leName(n, signed), SInt, arr, off)
}
