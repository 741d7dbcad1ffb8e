package main

// An independent reading of an APK's signing block: what has to be true of a file that was accepted.

import (
	"bytes"
	"crypto/x509"
	"encoding/binary"
	"fmt"
	"math"
	"sort"

	"github.com/avast/apkverifier/signingblock"
)

type refBlock struct {
	pre, cd, eocd []byte
	eocdOff       int
	cdOff, sbOff  int
	pairs         []pair
	last          map[uint32][]byte
}

// refEocd: the end record the format prescribes: the one nearest to the end whose comment reaches the end of the file
func refEocd(f []byte) (off int, ok bool) {
	for c := 0; c <= math.MaxUint16; c++ {
		p := len(f) - 22 - c
		if p < 0 {
			return 0, false
		}
		if binary.LittleEndian.Uint32(f[p:]) == 0x06054b50 && int(binary.LittleEndian.Uint16(f[p+20:])) == c {
			return p, true
		}
	}
	return 0, false
}

func refParse(f []byte) (*refBlock, error) {
	e, ok := refEocd(f)
	if !ok {
		return nil, fmt.Errorf("no end record")
	}
	cdOff := int64(binary.LittleEndian.Uint32(f[e+16:]))
	cdSize := int64(binary.LittleEndian.Uint32(f[e+12:]))
	if cdOff+cdSize != int64(e) || cdOff >= int64(e) {
		return nil, fmt.Errorf("central directory does not end at the end record")
	}
	if e >= 20 && binary.LittleEndian.Uint32(f[e-20:]) == 0x07064b50 {
		return nil, fmt.Errorf("zip64")
	}
	if cdOff < 32 {
		return nil, fmt.Errorf("no room for a block")
	}
	foot := f[cdOff-24 : cdOff]
	if string(foot[8:]) != "APK Sig Block 42" {
		return nil, fmt.Errorf("no magic")
	}
	size := binary.LittleEndian.Uint64(foot)
	if size < 24 || size > math.MaxInt32-8 || int64(size)+8 > cdOff {
		return nil, fmt.Errorf("block size")
	}
	off := cdOff - int64(size) - 8
	if binary.LittleEndian.Uint64(f[off:]) != size {
		return nil, fmt.Errorf("block sizes differ")
	}
	r := &refBlock{pre: f[:off], cd: f[cdOff:e], eocd: f[e:], eocdOff: e, cdOff: int(cdOff), sbOff: int(off), last: map[uint32][]byte{}}
	b := f[off+8 : cdOff-24]
	for len(b) > 0 {
		if len(b) < 12 {
			return nil, fmt.Errorf("short pair")
		}
		n := binary.LittleEndian.Uint64(b)
		if n < 4 || n > uint64(len(b)-8) {
			return nil, fmt.Errorf("pair length")
		}
		id := binary.LittleEndian.Uint32(b[8:])
		v := b[12 : 8+n]
		r.pairs = append(r.pairs, pair{id, v})
		r.last[id] = v
		b = b[8+n:]
	}
	return r, nil
}

func (r *refBlock) digest(kind int) []byte {
	e := append([]byte(nil), r.eocd...)
	binary.LittleEndian.PutUint32(e[16:], uint32(r.sbOff))
	return contentDigest(kind, r.pre, r.cd, e)
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) lp() *rd {
	if len(r.b) < 4 {
		r.bad = true
		return &rd{bad: true}
	}
	n := int32(binary.LittleEndian.Uint32(r.b))
	if n < 0 || int(n) > len(r.b)-4 {
		r.bad = true
		return &rd{bad: true}
	}
	x := &rd{b: r.b[4 : 4+n]}
	r.b = r.b[4+n:]
	return x
}

func (r *rd) u32() uint32 {
	if len(r.b) < 4 {
		r.bad = true
		return 0
	}
	v := binary.LittleEndian.Uint32(r.b)
	r.b = r.b[4:]
	return v
}

type refSigner struct {
	problems map[string]string // property -> what is wrong
	certs    []*x509.Certificate
	min, max int32
	smin     int32
	smax     int32
	kind     int
	digest   []byte
	strips   []uint32 // v2: declared scheme ids
	lineage  []*refNode
	nLineage int
	minAttr  []int32
}

type refNode struct {
	cert   *x509.Certificate
	parent uint32
	algo   uint32
	flags  uint32
	sig    []byte
	sd     []byte
}

func (s *refSigner) bad(p, f string, a ...interface{}) {
	if _, ok := s.problems[p]; !ok {
		s.problems[p] = fmt.Sprintf(f, a...)
	}
}

func refSignerParse(b []byte, v3 bool) *refSigner {
	s := &refSigner{problems: map[string]string{}}
	r := &rd{b: b}
	sdr := r.lp()
	sd := sdr.b
	if v3 {
		s.min, s.max = int32(r.u32()), int32(r.u32())
	}
	sigs := r.lp()
	pub := r.lp()
	if r.bad {
		s.bad("C02", "signer does not parse")
		return s
	}
	var sigAlgos, digAlgos []uint32
	best := uint32(0)
	var bestSigs [][]byte // signatures by an algorithm of the best kind
	type sr struct {
		a uint32
		s []byte
	}
	var all []sr
	for len(sigs.b) > 0 {
		x := sigs.lp()
		a := x.u32()
		if x.bad || sigs.bad {
			s.bad("C02", "signatures do not parse")
			return s
		}
		g := x.lp()
		sigAlgos = append(sigAlgos, a)
		if digestKind(a) == 0 {
			continue
		}
		all = append(all, sr{a, g.b})
		if best == 0 || kindRank(digestKind(a)) > kindRank(digestKind(best)) {
			best = a
		}
	}
	if best == 0 {
		s.bad("C02", "no supported signature")
		return s
	}
	pk, err := x509.ParsePKIXPublicKey(pub.b)
	if err != nil {
		pk = nil
	}
	for _, x := range all {
		if x.a == best {
			bestSigs = append(bestSigs, x.s)
		}
	}
	okSig := false
	for _, g := range bestSigs[:1] {
		okSig = okSig || (pk != nil && verifySig(pk, best, sd, g))
	}
	if !okSig && pk != nil {
		s.bad("C02", "the signature by the strongest algorithm 0x%x is not valid over the signed data", best)
	}
	q := &rd{b: sd}
	digs := q.lp()
	certs := q.lp()
	if v3 {
		s.smin, s.smax = int32(q.u32()), int32(q.u32())
	}
	if q.bad {
		s.bad("C02", "signed data does not parse")
		return s
	}
	attrs := q.lp()
	nBest := 0
	for len(digs.b) > 0 {
		x := digs.lp()
		a := x.u32()
		if digs.bad || x.bad {
			s.bad("C02", "digests do not parse")
			return s
		}
		digAlgos = append(digAlgos, a)
		d := x.lp()
		if a == best {
			s.digest = d.b
			nBest++
		}
	}
	if fmt.Sprint(digAlgos) != fmt.Sprint(sigAlgos) {
		s.bad("C02", "algorithms of signatures %x and digests %x differ", sigAlgos, digAlgos)
	}
	s.kind = digestKind(best)
	for len(certs.b) > 0 {
		c := certs.lp()
		if certs.bad {
			s.bad("C02", "certificates do not parse")
			return s
		}
		x, err := x509.ParseCertificate(c.b)
		if err != nil {
			x = &x509.Certificate{Raw: c.b}
			s.nLineage = 99
		}
		s.certs = append(s.certs, x)
	}
	if len(s.certs) == 0 {
		s.bad("C02", "no certificate")
	} else if s.nLineage == 0 && !bytes.Equal(s.certs[0].RawSubjectPublicKeyInfo, pub.b) {
		s.bad("C02", "the public key is not the one of the first certificate")
	}
	if v3 {
		if s.min != s.smin || s.max != s.smax {
			s.bad("C05", "range <%d;%d> but signed <%d;%d>", s.min, s.max, s.smin, s.smax)
		}
		if s.min < 1 || s.min > s.max {
			s.bad("C05", "range <%d;%d> is empty or not positive", s.min, s.max)
		}
	}
	for len(attrs.b) > 0 {
		x := attrs.lp()
		id := x.u32()
		if attrs.bad || x.bad {
			break
		}
		switch {
		case !v3 && id == 0xbeeff00d && len(x.b) >= 4:
			s.strips = append(s.strips, binary.LittleEndian.Uint32(x.b))
		case v3 && id == 0x559f8b02 && len(x.b) >= 4:
			s.minAttr = append(s.minAttr, int32(binary.LittleEndian.Uint32(x.b)))
		case v3 && id == 0x3ba06f8c:
			s.nLineage++
			s.refLineage(x.b)
		}
	}
	return s
}

func (s *refSigner) refLineage(b []byte) {
	r := &rd{b: b}
	if len(b) == 0 {
		return
	}
	if r.u32() != 1 {
		s.bad("C06", "lineage version")
		return
	}
	var ns []*refNode
	for len(r.b) > 0 {
		n := r.lp()
		sd := n.lp()
		nd := &refNode{flags: n.u32(), algo: n.u32(), sd: sd.b}
		nd.sig = n.lp().b
		q := &rd{b: sd.b}
		c := q.lp()
		nd.parent = q.u32()
		if r.bad || n.bad || sd.bad || q.bad || c.bad {
			s.bad("C06", "lineage does not parse")
			return
		}
		x, err := x509.ParseCertificate(c.b)
		if err != nil {
			s.bad("C06", "lineage certificate does not parse")
			return
		}
		nd.cert = x
		ns = append(ns, nd)
	}
	s.lineage = ns
	if p := lineageProblem(ns); p != "" {
		s.bad("C06", "%s", p)
	}
	if len(ns) > 0 && len(s.certs) > 0 && !bytes.Equal(ns[len(ns)-1].cert.Raw, s.certs[0].Raw) {
		s.bad("C06", "the lineage does not end in the signer's certificate")
	}
}

func lineageProblem(ns []*refNode) string {
	for i, n := range ns {
		if i == 0 {
			continue
		}
		if n.parent != ns[i-1].algo {
			return fmt.Sprintf("node %d was signed for algorithm 0x%x, its parent announces 0x%x", i, n.parent, ns[i-1].algo)
		}
		if !verifySig(ns[i-1].cert.PublicKey, ns[i-1].algo, n.sd, n.sig) {
			return fmt.Sprintf("node %d is not signed by node %d", i, i-1)
		}
		for j := 0; j < i; j++ {
			if bytes.Equal(ns[j].cert.Raw, n.cert.Raw) {
				return fmt.Sprintf("certificate %d repeats as %d", j, i)
			}
		}
	}
	return ""
}

func refSigners(b []byte, v3 bool) ([]*refSigner, bool) {
	r := &rd{b: b}
	l := r.lp()
	if r.bad {
		return nil, false
	}
	var res []*refSigner
	for len(l.b) > 0 {
		s := l.lp()
		if l.bad {
			return res, false
		}
		res = append(res, refSignerParse(s.b, v3))
	}
	return res, true
}

// refVerdict: what is wrong with accepting f with the given result, per property
func refVerdict(f []byte, min, max int32, res *signingblock.VerificationResult) map[string]string {
	out := map[string]string{}
	bad := func(p, f string, a ...interface{}) {
		if _, ok := out[p]; !ok {
			out[p] = fmt.Sprintf(f, a...)
		}
	}
	b, err := refParse(f)
	if err != nil {
		bad("C12", "accepted although the layout is wrong: %v", err)
		if err.Error() == "short pair" || err.Error() == "pair length" {
			delete(out, "C12")
			bad("C13", "accepted although a pair does not fit: %v", err)
		}
		return out
	}
	if res == nil {
		bad("C03", "success without result")
		return out
	}
	if max < 24 {
		if res.SchemeId != 1 {
			bad("C04", "scheme %d used for platforms below 24", res.SchemeId)
		}
		return out
	}
	have := func(id uint32, from int32) bool { _, ok := b.last[id]; return ok && max >= from }
	// present means present and of this platform range; a block that is present but empty is nil in the code
	strongest := 1
	switch {
	case have(idV31, 33):
		strongest = 31
	case have(idV3, 28):
		strongest = 3
	case have(idV2, 24):
		strongest = 2
	}
	if res.SchemeId != strongest {
		if !(res.SchemeId == 2 && strongest >= 3 && min < 28 && have(idV2, 24)) {
			bad("C04", "scheme %d decided although %d is present (requested <%d;%d>)", res.SchemeId, strongest, min, max)
		}
	}
	if have(idV31, 33) && !have(idV3, 28) && res.SchemeId == 31 {
		bad("C04", "v3.1 accepted without v3")
	}
	var id uint32
	switch res.SchemeId {
	case 31:
		id = idV31
	case 3:
		id = idV3
	case 2:
		id = idV2
	default:
		bad("C04", "success with scheme %d", res.SchemeId)
		return out
	}
	blk, ok := b.last[id]
	if !ok {
		bad("C03", "scheme %d reported but there is no such block", res.SchemeId)
		return out
	}
	check := func(blk []byte, v3 bool, what string) []*refSigner {
		ss, ok := refSigners(blk, v3)
		if !ok {
			bad("C02", "%s signers do not parse", what)
		}
		for i, s := range ss {
			for p, t := range s.problems {
				bad(p, "%s signer %d: %s", what, i, t)
			}
			if s.kind != 0 {
				if d := b.digest(s.kind); !bytes.Equal(d, s.digest) {
					bad("C01", "%s signer %d signed digest %x of kind %d, the file has %x", what, i, s.digest, s.kind, d)
				}
			}
			for _, st := range s.strips {
				if (st == 3 && max >= 28) && !have(idV3, 28) {
					bad("C04", "v2 signer declares scheme 3, which is missing")
				}
				if (st == 31 && max >= 33) && !have(idV31, 33) {
					bad("C04", "v2 signer declares scheme 3.1, which is missing")
				}
			}
		}
		return ss
	}
	ss := check(blk, id != idV2, fmt.Sprintf("scheme %d", res.SchemeId))
	if len(ss) == 0 {
		bad("C02", "success without signers")
	}
	if len(res.Certs) != len(ss) {
		bad("C03", "%d chains reported for %d signers", len(res.Certs), len(ss))
	} else {
		for i, s := range ss {
			if len(s.certs) != len(res.Certs[i]) {
				bad("C03", "chain %d has %d certificates, the signer %d", i, len(res.Certs[i]), len(s.certs))
				continue
			}
			for j, c := range s.certs {
				if !bytes.Equal(c.Raw, res.Certs[i][j].Raw) {
					bad("C03", "certificate %d of chain %d is not the signer's", j, i)
				}
			}
		}
	}
	cover := func(ss []*refSigner, lo, hi int64, what string) {
		ord := append([]*refSigner(nil), ss...)
		sort.SliceStable(ord, func(i, j int) bool { return ord[i].min < ord[j].min })
		size := 0
		for i, s := range ord {
			if i > 0 && int64(s.min) != int64(ord[i-1].max)+1 {
				bad("C05", "%s ranges are not contiguous: <%d;%d> <%d;%d>", what, ord[i-1].min, ord[i-1].max, s.min, s.max)
			}
			if n := len(s.lineage); n > 0 && s.nLineage == 1 {
				if n < size {
					bad("C05", "%s lineage sizes shrink", what)
				}
				size = n
			}
		}
		if len(ord) > 0 && (int64(ord[0].min) > lo || int64(ord[len(ord)-1].max) < hi) {
			bad("C05", "%s ranges cover <%d;%d>, requested <%d;%d>", what, ord[0].min, ord[len(ord)-1].max, lo, hi)
		}
	}
	lo := int64(min)
	if lo < 28 {
		lo = 28
	}
	reported := func(lin *signingblock.V3SigningLineage, ss []*refSigner, what string) {
		if lin == nil {
			return
		}
		found := false
		for _, s := range ss {
			if s.nLineage > 1 {
				return
			}
			if sameLineage(lin, s.lineage) {
				found = true
			}
		}
		if !found {
			bad("C06", "%s reported lineage belongs to no signer", what)
		}
		for i, s := range ss {
			if len(s.lineage) > len(lin.Nodes) || !bytes.Equal(nodesRaw(s.lineage), linRaw(lin, len(s.lineage))) {
				bad("C06", "%s lineage of signer %d is no prefix of the reported one", what, i)
			}
		}
	}
	switch res.SchemeId {
	case 3:
		cover(ss, lo, int64(max), "v3")
		for _, s := range ss {
			for range s.minAttr {
				if max >= 33 {
					bad("C04", "v3 signer announces a v3.1 block, which is missing")
				}
			}
		}
		reported(res.SigningLineage, ss, "v3")
	case 31:
		cover(ss, int64(max), int64(max), "v3.1")
		reported(res.SigningLineage, ss, "v3.1")
		rot := int64(math.MaxInt32) + 1
		for _, s := range ss {
			if int64(s.min) < rot {
				rot = int64(s.min)
			}
		}
		if v3, ok := b.last[idV3]; ok {
			s3 := check(v3, true, "base v3")
			cover(s3, lo, rot-1, "base v3")
			for _, s := range s3 {
				for _, m := range s.minAttr {
					if int64(m) != rot {
						bad("C04", "v3 signer announces rotation at %d, v3.1 starts at %d", m, rot)
					}
				}
			}
			if x := res.ExtraResults[3]; x != nil {
				reported(x.SigningLineage, s3, "base v3")
				if len(x.Certs) != len(s3) {
					bad("C03", "%d base v3 chains reported for %d signers", len(x.Certs), len(s3))
				}
			}
		}
	case 2:
		if res.SigningLineage != nil {
			bad("C06", "lineage reported for v2")
		}
		if len(res.ExtraResults) != 0 && strongest != 31 {
			bad("C03", "results of another scheme reported with v2")
		}
	}
	// enumeration
	for _, p := range b.pairs {
		want := b.last[p.id]
		known := map[uint32]bool{idV2: true, idV3: true, idV31: true, idFrosting: true, idStampV2: true, idVerityPad: true}[p.id]
		if !known && !bytes.Equal(res.ExtraBlocks[signingblock.BlockId(p.id)], want) {
			bad("C13", "extra block 0x%x is reported as %d bytes, it has %d", p.id, len(res.ExtraBlocks[signingblock.BlockId(p.id)]), len(want))
		}
	}
	for bid, v := range res.ExtraBlocks {
		if w, ok := b.last[uint32(bid)]; v != nil && (!ok || !bytes.Equal(w, v)) {
			bad("C13", "extra block 0x%x reported, not in the file", uint32(bid))
		}
	}
	return out
}

func nodesRaw(ns []*refNode) []byte {
	var b []byte
	for _, n := range ns {
		b = append(b, lp(lp(n.cert.Raw), u32(n.parent), u32(n.algo), lp(n.sig), u32(n.flags))...)
	}
	return b
}

func linRaw(l *signingblock.V3SigningLineage, n int) []byte {
	var b []byte
	for i, x := range l.Nodes {
		if i >= n {
			break
		}
		b = append(b, lp(lp(x.SigningCert.Raw), u32(uint32(x.ParentSigAlgorithm)), u32(uint32(x.SigAlgorithm)), lp(x.Signature), u32(uint32(x.Flags)))...)
	}
	return b
}

func sameLineage(l *signingblock.V3SigningLineage, ns []*refNode) bool {
	return len(l.Nodes) == len(ns) && bytes.Equal(nodesRaw(ns), linRaw(l, len(ns)))
}

// refExtract: what is wrong with reporting these certificates without an error
func refExtract(f []byte, min, max int32, certs [][]*x509.Certificate) (prop, what string) {
	b, err := refParse(f)
	if err != nil {
		return "", ""
	}
	have := func(id uint32, from int32) bool { _, ok := b.last[id]; return ok && max >= from }
	id := uint32(idV2)
	switch {
	case have(idV31, 33):
		id = idV31
	case have(idV3, 28):
		id = idV3
	}
	blk, ok := b.last[id]
	if !ok {
		return "", ""
	}
	ss, ok := refSigners(blk, id != idV2)
	if !ok {
		return "C03", "certificates reported although the signers do not parse"
	}
	for i, s := range ss {
		if t, bad := s.problems["C02"]; bad {
			return "C03", fmt.Sprintf("certificates reported although signer %d: %s", i, t)
		}
	}
	if len(certs) != len(ss) {
		return "C03", fmt.Sprintf("%d chains reported for %d signers", len(certs), len(ss))
	}
	for i, s := range ss {
		if len(s.certs) != len(certs[i]) {
			return "C03", fmt.Sprintf("chain %d has %d certificates, the signer %d", i, len(certs[i]), len(s.certs))
		}
		for j, c := range s.certs {
			if !bytes.Equal(c.Raw, certs[i][j].Raw) {
				return "C03", fmt.Sprintf("certificate %d of chain %d is not the signer's", j, i)
			}
		}
	}
	return "", ""
}
