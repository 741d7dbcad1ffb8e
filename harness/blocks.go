package main

// Signing block properties: C01-C06, C12-C14, C18.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"strings"

	"github.com/avast/apkverifier/signingblock"
)

func init() {
	register(blockCases, "C01", "C02", "C03", "C04", "C05", "C06", "C12", "C13", "C14", "C18")
}

type fileInput struct {
	Min, Max int32
	File     string `json:"file_base64"`
}

const anyMax = 0x7fffffff

// want: what the verifier has to answer; empty leaves it to the reference
func (h *harness) runBlock(label string, file []byte, min, max int32, acceptProps string) {
	if h.found {
		return
	}
	in := &fileInput{min, max, ""}
	if len(file) < 4<<20 {
		in.File = base64.StdEncoding.EncodeToString(file)
	}
	h.guard("C14", label, in, func() {
		res, _, err := signingblock.VerifySigningBlockReader(bytes.NewReader(file), min, max)
		if err != nil {
			h.note(label, "rejected")
			if acceptProps != "" {
				for _, p := range splitProps(acceptProps) {
					h.fail(p, label, "a valid file was rejected: "+err.Error(), in, "")
				}
			}
			return
		}
		h.note(label, "accepted")
		for p, t := range refVerdict(file, min, max, res) {
			h.fail(p, label, t, in, "")
		}
	})
	if h.prop == "C03" && !h.found && max >= 24 {
		h.guard("C14", label+" (certificates)", in, func() {
			certs, err := signingblock.ExtractCertsReader(bytes.NewReader(file), min, max)
			if err == nil {
				if p, t := refExtract(file, min, max, certs); p != "" {
					h.fail(p, label+" (certificates)", t, in, "")
				}
			}
		})
	}
	if h.prop == "C14" && !h.found {
		h.guard("C14", label+" (certificates)", in, func() {
			signingblock.ExtractCertsReader(bytes.NewReader(file), min, max)
		})
	}
}

func splitProps(s string) []string {
	var r []string
	for len(s) >= 3 {
		r = append(r, s[:3])
		s = s[3:]
		if len(s) > 0 {
			s = s[1:]
		}
	}
	return r
}

var baseZips = map[string]*apkLayout{}

// base: an APK to be signed. size: bytes of the stored file in it
func base(align bool, size int, comment string) *apkLayout {
	k := fmt.Sprint(align, size, comment)
	l := baseZips[k]
	if l == nil {
		r := mrand.New(mrand.NewSource(int64(size) + 77))
		l = splitZip(zipBytes([]zent{
			{name: "AndroidManifest.xml", data: []byte(`<manifest package="a.b"><uses-sdk minSdkVersion="1"/></manifest>`)},
			{name: "classes.dex", data: rbytes(r, size), store: true},
		}, comment), comment, align)
		baseZips[k] = l
	}
	c := *l
	c.pre = append([]byte(nil), l.pre...)
	c.cd = append([]byte(nil), l.cd...)
	c.eocd = append([]byte(nil), l.eocd...)
	return &c
}

func (a *apkLayout) with(ps ...pair) []byte {
	a.block = sigBlock(ps)
	return a.bytes()
}

func v2s(k *key, algos ...uint32) *signerSpec { return &signerSpec{k: k, algos: algos} }
func v3s(k *key, min, max uint32, algos ...uint32) *signerSpec {
	return &signerSpec{v3: true, k: k, algos: algos, min: min, max: max}
}

func p2(a *apkLayout, ss ...*signerSpec) pair  { return pair{idV2, schemeBlock(a, ss...)} }
func p3(a *apkLayout, ss ...*signerSpec) pair  { return pair{idV3, schemeBlock(a, ss...)} }
func p31(a *apkLayout, ss ...*signerSpec) pair { return pair{idV31, schemeBlock(a, ss...)} }

func ptr(v uint32) *uint32 { return &v }

// attachments to try with one signer: every way a signer can be wrong
type tweak struct {
	name string
	f    func(h *harness, s *signerSpec)
}

func flip(b []byte, i int) []byte {
	c := append([]byte(nil), b...)
	if len(c) > 0 {
		if i < 0 {
			i += len(c)
		}
		c[i%len(c)] ^= 1
	}
	return c
}

func otherKey(k *key) *key {
	for _, o := range allKeys {
		if o != k && fmt.Sprintf("%T", o.priv) == fmt.Sprintf("%T", k.priv) && (o.name[:2] != "ec" || o.x.PublicKey != nil) {
			return o
		}
	}
	return nil
}

var tweaks = []tweak{
	{"none", func(h *harness, s *signerSpec) {}},
	{"signed data changed after signing", func(h *harness, s *signerSpec) {
		s.signedData = func(b []byte) []byte { return flip(b, h.r.Intn(len(b))) }
	}},
	{"signed data extended after signing", func(h *harness, s *signerSpec) {
		s.signedData = func(b []byte) []byte { return append(append([]byte(nil), b...), 0) }
	}},
	{"signature over other data", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte {
			if !supportsAlgo(s.k, a) {
				return g
			}
			return sign(s.k, a, append(append([]byte(nil), sd...), 0))
		}
	}},
	{"strongest signature broken", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte {
			if a == strongestOf(s.algos) {
				return flip(g, len(g)/2)
			}
			return g
		}
	}},
	{"weaker signatures broken", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte {
			if a != strongestOf(s.algos) {
				return flip(g, len(g)/2)
			}
			return g
		}
	}},
	{"empty signature", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte { return nil }
	}},
	{"signature truncated", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte { return g[:len(g)-1] }
	}},
	{"signature extended", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte { return append(g, 0) }
	}},
	{"zero signature values", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte { return []byte{0x30, 6, 2, 1, 0, 2, 1, 0} }
	}},
	{"one signature value", func(h *harness, s *signerSpec) {
		s.sig = func(a uint32, g, sd []byte) []byte { return []byte{0x30, 3, 2, 1, 1} }
	}},
	{"signed by another key", func(h *harness, s *signerSpec) { s.signKey = otherKey(s.k) }},
	{"signed by another key, which is given as public key", func(h *harness, s *signerSpec) {
		if o := otherKey(s.k); o != nil {
			s.signKey, s.pub = o, o.spki
		}
	}},
	{"public key of another type", func(h *harness, s *signerSpec) {
		for _, o := range allKeys {
			if o.name[:2] != s.k.name[:2] {
				s.pub = o.spki
			}
		}
	}},
	{"garbage public key", func(h *harness, s *signerSpec) { s.pub = []byte{1, 2, 3} }},
	{"public key with trailing data", func(h *harness, s *signerSpec) { s.pub = append(append([]byte(nil), s.k.spki...), 0) }},
	{"no certificates", func(h *harness, s *signerSpec) { s.chain = [][]byte{} }},
	{"certificate of another key", func(h *harness, s *signerSpec) {
		if o := otherKey(s.k); o != nil {
			s.chain = [][]byte{o.cert}
		}
	}},
	{"certificate second in the chain", func(h *harness, s *signerSpec) {
		if o := otherKey(s.k); o != nil {
			s.chain = [][]byte{o.cert, s.k.cert}
		}
	}},
	{"chain of two", func(h *harness, s *signerSpec) { s.chain = [][]byte{s.k.cert, rsaKeys[3].cert} }},
	{"chain of three", func(h *harness, s *signerSpec) { s.chain = [][]byte{s.k.cert, rsaKeys[3].cert, ecKeys[5].cert} }},
	{"garbage second certificate", func(h *harness, s *signerSpec) { s.chain = [][]byte{s.k.cert, {1, 2, 3}} }},
	{"no digests", func(h *harness, s *signerSpec) { s.digAlgos = []uint32{} }},
	{"digest algorithms in another order", func(h *harness, s *signerSpec) {
		s.digAlgos = append([]uint32{}, s.algos...)
		for i, j := 0, len(s.digAlgos)-1; i < j; i, j = i+1, j-1 {
			s.digAlgos[i], s.digAlgos[j] = s.digAlgos[j], s.digAlgos[i]
		}
	}},
	{"one more digest", func(h *harness, s *signerSpec) {
		s.digAlgos = append(append([]uint32{}, s.algos...), s.algos[0])
	}},
	{"one digest less", func(h *harness, s *signerSpec) { s.digAlgos = append([]uint32{}, s.algos[:len(s.algos)-1]...) }},
	{"last digest of another algorithm", func(h *harness, s *signerSpec) {
		s.digAlgos = append([]uint32{}, s.algos...)
		s.digAlgos[len(s.digAlgos)-1] = 0x9999
	}},
	{"other digests of the same length", func(h *harness, s *signerSpec) {
		s.digAlgos = append([]uint32{}, s.algos...)
		s.digAlgos[0] = 0x9998
	}},
	{"all digests wrong", func(h *harness, s *signerSpec) { s.digest = func(a uint32, d []byte) []byte { return flip(d, -1) } }},
	{"first byte of all digests wrong", func(h *harness, s *signerSpec) { s.digest = func(a uint32, d []byte) []byte { return flip(d, 0) } }},
	{"empty digests", func(h *harness, s *signerSpec) { s.digest = func(a uint32, d []byte) []byte { return nil } }},
	{"short digests", func(h *harness, s *signerSpec) { s.digest = func(a uint32, d []byte) []byte { return d[:len(d)-1] } }},
	{"long digests", func(h *harness, s *signerSpec) { s.digest = func(a uint32, d []byte) []byte { return append(d, 0) } }},
	{"strongest digest wrong", func(h *harness, s *signerSpec) {
		s.digest = func(a uint32, d []byte) []byte {
			if a == strongestOf(s.algos) {
				return flip(d, 3)
			}
			return d
		}
	}},
	{"weaker digests wrong", func(h *harness, s *signerSpec) {
		s.digest = func(a uint32, d []byte) []byte {
			if a != strongestOf(s.algos) {
				return flip(d, 3)
			}
			return d
		}
	}},
	{"unknown algorithm added in front", func(h *harness, s *signerSpec) { s.algos = append([]uint32{0x777}, s.algos...) }},
	{"unknown algorithm added at the end", func(h *harness, s *signerSpec) { s.algos = append(append([]uint32{}, s.algos...), 0x777) }},
	{"only unknown algorithms", func(h *harness, s *signerSpec) { s.algos = []uint32{0x777, 0x778} }},
	{"algorithm of another key type", func(h *harness, s *signerSpec) {
		if s.k.name[:2] == "ec" {
			s.algos = []uint32{aPk256}
		} else {
			s.algos = []uint32{aEc256}
		}
	}},
	{"stronger algorithm of another key type", func(h *harness, s *signerSpec) {
		if s.k.name[:2] == "ec" {
			s.algos = append(append([]uint32{}, s.algos...), aPk512)
		} else {
			s.algos = append(append([]uint32{}, s.algos...), aEc512)
		}
	}},
	{"no signatures", func(h *harness, s *signerSpec) { s.algos = []uint32{} }},
	{"unknown attribute", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0x12345678, []byte{1, 2, 3}}) }},
	{"attribute of three bytes", func(h *harness, s *signerSpec) {
		s.signedData = nil
		s.attrs = append(s.attrs, attr{0xbeeff00d, []byte{1, 2, 3}})
	}},
	{"strip attribute 3", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0xbeeff00d, u32(3)}) }},
	{"strip attribute 31", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0xbeeff00d, u32(31)}) }},
	{"strip attribute 2", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0xbeeff00d, u32(2)}) }},
	{"strip attribute 77", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0xbeeff00d, u32(77)}) }},
	{"strip attribute after another", func(h *harness, s *signerSpec) {
		s.attrs = append(s.attrs, attr{0x55, []byte{9}}, attr{0xbeeff00d, u32(3)})
	}},
	{"rotation minimum attribute 33", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0x559f8b02, u32(33)}) }},
	{"rotation minimum attribute 35", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0x559f8b02, u32(35)}) }},
	{"rotation on development release", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0xc2a6b3ba, nil}) }},
	{"signed minimum differs", func(h *harness, s *signerSpec) { s.smin = ptr(s.min + 1) }},
	{"signed minimum differs downwards", func(h *harness, s *signerSpec) { s.smin = ptr(s.min - 1) }},
	{"signed maximum differs", func(h *harness, s *signerSpec) { s.smax = ptr(s.max - 1) }},
	{"signed maximum lower", func(h *harness, s *signerSpec) { s.smax = ptr(s.min) }},
	{"minimum zero", func(h *harness, s *signerSpec) { s.min = 0 }},
	{"minimum negative", func(h *harness, s *signerSpec) { s.min = 0xffffffff }},
	{"minimum one", func(h *harness, s *signerSpec) { s.min = 1 }},
	{"empty range", func(h *harness, s *signerSpec) { s.min, s.max = s.max, s.min }},
	{"trailing bytes", func(h *harness, s *signerSpec) { s.tail = []byte{1, 2, 3, 4, 5} }},
	{"one byte of the signer", func(h *harness, s *signerSpec) {
		s.raw = func(b []byte) []byte { return flip(b, h.r.Intn(len(b))) }
	}},
	{"signer cut", func(h *harness, s *signerSpec) { s.raw = func(b []byte) []byte { return b[:h.r.Intn(len(b))] } }},
	{"length field", func(h *harness, s *signerSpec) { s.raw = func(b []byte) []byte { return h.mutLen(b) } }},
	{"lineage", func(h *harness, s *signerSpec) { s.attrs = append(s.attrs, attr{0x3ba06f8c, h.lineage(s.k).encode()}) }},
}

// mutLen overwrites four bytes with an interesting number
func (h *harness) mutLen(b []byte) []byte {
	c := append([]byte(nil), b...)
	if len(c) < 4 {
		return c
	}
	vals := []uint32{0, 1, 3, 4, 7, 8, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, uint32(len(c)), uint32(len(c) - 4)}
	i := h.r.Intn(len(c) - 3)
	v := vals[h.r.Intn(len(vals))]
	if h.r.Intn(2) == 0 {
		v = binary.LittleEndian.Uint32(c[i:]) + uint32(h.r.Intn(9)) - 4
	}
	binary.LittleEndian.PutUint32(c[i:], v)
	return c
}

func strongestOf(as []uint32) uint32 {
	var best uint32
	for _, a := range as {
		if digestKind(a) == 0 {
			continue
		}
		if best == 0 || kindRank(digestKind(a)) > kindRank(digestKind(best)) {
			best = a
		}
	}
	return best
}

// lineage ending in k, mostly valid, sometimes with one fault
func (h *harness) lineage(k *key) *lineageSpec {
	n := 1 + h.r.Intn(4)
	var ks []*key
	perm := h.r.Perm(len(allKeys))
	for _, i := range perm {
		if len(ks) == n-1 {
			break
		}
		if allKeys[i] != k {
			ks = append(ks, allKeys[i])
		}
	}
	l := &lineageSpec{keys: append(ks, k)}
	n = len(l.keys)
	at := h.r.Intn(n)
	switch h.r.Intn(14) {
	case 0:
		if n > 1 {
			at = 1 + h.r.Intn(n-1)
		}
		l.signer = func(i int) *key {
			if i == at {
				return k
			}
			return nil
		}
	case 1:
		l.parentAlgo = func(i int, a uint32) uint32 {
			if i == at {
				return a ^ 1
			}
			return a
		}
	case 2:
		l.sigAlgo = func(i int, a uint32) uint32 {
			if i == at {
				return a ^ 1
			}
			return a
		}
	case 3:
		l.sig = func(i int, s []byte) []byte {
			if i == at {
				return flip(s, len(s)/2)
			}
			return s
		}
	case 4:
		l.keys = append(l.keys, rsaKeys[2]) // does not end in k
	case 5:
		l.keys = append([]*key{k}, l.keys...) // repeats
	case 6:
		l.version = 2
	case 7:
		l.keys = append(append([]*key{}, l.keys...), l.keys...)
	case 9:
		// a certificate returns after others
		x, y := rsaKeys[3], ecKeys[1]
		if k != x && k != y {
			l.keys = []*key{x, y, x, k}
			if h.r.Intn(2) == 0 {
				l.keys = []*key{y, x, rsaKeys[2], y, k}
			}
		}
	case 8:
		l.sig = func(i int, s []byte) []byte {
			if i == at {
				return nil
			}
			return s
		}
	}
	return l
}

var algoSets = map[string][][]uint32{
	"rs": {{aPk256}, {aPss256}, {aPss512}, {aPk512}, {aVRsa}, {aPk256, aPk512}, {aPk512, aPk256}, {aPk256, aVRsa}, {aVRsa, aPk512}, {aPk256, aPss256}, {aPss256, aPk512, aVRsa}},
	"ec": {{aEc256}, {aEc512}, {aVEc}, {aEc256, aEc512}, {aEc256, aVEc}, {aVEc, aEc256, aEc512}},
	"ds": {{aDsa256}, {aVDsa}, {aDsa256, aVDsa}},
}

func (h *harness) key() *key { return allKeys[h.r.Intn(len(allKeys))] }
func (h *harness) algos(k *key) []uint32 {
	s := algoSets[k.name[:2]]
	return append([]uint32(nil), s[h.r.Intn(len(s))]...)
}

type spans struct{ lo, hi uint32 }

var ranges = [][]spans{
	{{28, anyMax}}, {{1, anyMax}}, {{28, 32}, {33, anyMax}}, {{24, 29}, {30, 32}, {33, anyMax}}, {{33, anyMax}, {28, 32}},
	{{28, 31}, {33, anyMax}}, {{28, 33}, {33, anyMax}}, {{29, anyMax}}, {{28, 100}}, {{28, 32}}, {{33, anyMax}}, {{34, anyMax}},
	{{33, 40}}, {{28, 29}, {30, 31}, {33, anyMax}}, {{28, 32}, {33, 50}}, {{28, anyMax}, {28, anyMax}},
}

var sdkPairs = [][2]int32{{24, anyMax}, {28, anyMax}, {-1, anyMax}, {28, 33}, {24, 27}, {21, 32}, {33, 40}, {28, 32}, {1, 23}, {34, 34}, {28, 28}, {33, 33}, {14, 28}, {30, 35}, {27, 33}, {100, 200}}

func blockCases(h *harness) {
	switch h.prop {
	case "C12", "C13":
		layoutCases(h)
		return
	case "C18":
		verityCases(h)
		return
	}
	// systematic: one v2 and one v3 signer with every tweak, for every kind of key
	keys := []*key{rsaKeys[0], ecKeys[0], dsaKs[0], dsaKs[1], ecKeys[4]}
	h.r.Shuffle(len(keys)-1, func(i, j int) { keys[i+1], keys[j+1] = keys[j+1], keys[i+1] })
	if h.prop == "C05" {
		rangeCases(h)
	}
	if h.prop == "C06" {
		lineageCases(h)
	}
	if h.prop == "C04" || h.prop == "C03" {
		schemeCases(h)
	}
	if h.prop == "C01" {
		otherDigestCases(h)
		contentCases(h)
	}
	if h.prop == "C14" {
		layoutCases(h)
		lengthCases(h)
	}
	for _, k := range keys {
		for _, tw := range tweaks {
			for _, as := range algoSets[k.name[:2]] {
				if !h.time() {
					return
				}
				if k != rsaKeys[0] && h.r.Intn(3) != 0 {
					continue
				}
				h.oneSigner(k, as, tw)
			}
		}
	}
	for h.time() {
		h.randomBlock()
	}
}

func (h *harness) oneSigner(k *key, as []uint32, tw tweak) {
	a := base(true, 3000, "")
	s := v2s(k, append([]uint32(nil), as...)...)
	tw.f(h, s)
	h.runBlock("v2 "+tw.name, a.with(p2(a, s)), 24, anyMax, "")
	h.runBlock("v2, second signer "+tw.name, a.with(p2(a, v2s(rsaKeys[1], as[0]&0xff|0x100), s)), 24, anyMax, "")
	h.runBlock("v2, first signer "+tw.name, a.with(p2(a, s, v2s(rsaKeys[1], aPk256))), 24, 27, "")
	s3 := v3s(k, 28, anyMax, append([]uint32(nil), as...)...)
	tw.f(h, s3)
	h.runBlock("v3 "+tw.name, a.with(p3(a, s3)), 28, anyMax, "")
	h.runBlock("v3 over v2 "+tw.name, a.with(p2(a, v2s(rsaKeys[2], aPk256)), p3(a, s3)), 24, anyMax, "")
	s31 := v3s(k, 33, anyMax, append([]uint32(nil), as...)...)
	tw.f(h, s31)
	h.runBlock("v3.1 "+tw.name, a.with(p3(a, v3s(rsaKeys[1], 28, 32, aPk256)), p31(a, s31)), 28, anyMax, "")
	s30 := v3s(k, 28, 32, append([]uint32(nil), as...)...)
	tw.f(h, s30)
	h.runBlock("base v3 "+tw.name, a.with(p3(a, s30), p31(a, v3s(rsaKeys[1], 33, anyMax, aPk256))), 28, anyMax, "")
}

func (h *harness) randomSigner(v3 bool, sp spans, chance int) (*signerSpec, string) {
	k := h.key()
	s := &signerSpec{v3: v3, k: k, algos: h.algos(k), min: sp.lo, max: sp.hi}
	name := ""
	if h.r.Intn(chance) == 0 {
		tw := tweaks[h.r.Intn(len(tweaks))]
		tw.f(h, s)
		name = tw.name
	}
	return s, name
}

func (h *harness) randomBlock() {
	a := base(true, []int{100, 3000, 4096, 70000}[h.r.Intn(4)], []string{"", "", "comment"}[h.r.Intn(3)])
	var ps []pair
	label := ""
	chance := []int{1000, 6, 3}[h.r.Intn(3)]
	use := func(name string, v3 bool, rs []spans) []*signerSpec {
		var ss []*signerSpec
		label += name
		for _, sp := range rs {
			s, t := h.randomSigner(v3, sp, chance)
			ss = append(ss, s)
			if t != "" {
				label += "[" + t + "]"
			}
		}
		label += " "
		return ss
	}
	if h.r.Intn(2) == 0 {
		ps = append(ps, p2(a, use("v2", false, make([]spans, 1+h.r.Intn(3)))...))
	}
	if h.r.Intn(4) != 0 {
		ps = append(ps, p3(a, use("v3", true, ranges[h.r.Intn(len(ranges))])...))
	}
	if h.r.Intn(2) == 0 {
		ps = append(ps, p31(a, use("v31", true, ranges[8+h.r.Intn(len(ranges)-8)])...))
	}
	if h.r.Intn(4) == 0 {
		ps = append(ps, pair{0x504b4453, rbytes(h.r, h.r.Intn(40))})
	}
	h.r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	f := a.with(ps...)
	switch h.r.Intn(12) {
	case 0:
		f[h.r.Intn(len(a.pre))] ^= 1 << uint(h.r.Intn(8))
		label += "content byte "
	case 1:
		f[len(f)-1-h.r.Intn(len(a.cd)+len(a.eocd))] ^= 1 << uint(h.r.Intn(8))
		label += "directory byte "
	case 2:
		f[len(a.pre)+h.r.Intn(len(a.block))] ^= 1 << uint(h.r.Intn(8))
		label += "block byte "
	case 3:
		b := h.mutLen(a.block)
		copy(f[len(a.pre):], b)
		label += "block length "
	}
	for i := 0; i < 3 && !h.found; i++ {
		sp := sdkPairs[h.r.Intn(len(sdkPairs))]
		h.runBlock(label, f, sp[0], sp[1], "")
	}
}

// otherDigestCases: signers that sign the digest of something else than the file
func otherDigestCases(h *harness) {
	type dg struct {
		name string
		f    func(a *apkLayout, kind int, right []byte) []byte
	}
	le := func(a *apkLayout, off int) []byte { return a.eocdAt(off) }
	alts := []dg{
		{"without the comment", func(a *apkLayout, k int, d []byte) []byte {
			return contentDigest(k, a.pre, a.cd, le(a, len(a.pre))[:22])
		}},
		{"with the directory offset as it is", func(a *apkLayout, k int, d []byte) []byte {
			return contentDigest(k, a.pre, a.cd, a.eocd)
		}},
		{"without the directory", func(a *apkLayout, k int, d []byte) []byte { return contentDigest(k, a.pre, le(a, len(a.pre))) }},
		{"without the end record", func(a *apkLayout, k int, d []byte) []byte { return contentDigest(k, a.pre, a.cd) }},
		{"without the entries", func(a *apkLayout, k int, d []byte) []byte { return contentDigest(k, a.cd, le(a, len(a.pre))) }},
		{"of the sections in another order", func(a *apkLayout, k int, d []byte) []byte { return contentDigest(k, a.cd, a.pre, le(a, len(a.pre))) }},
		{"of the sections in one", func(a *apkLayout, k int, d []byte) []byte {
			return contentDigest(k, cat(a.pre, a.cd, le(a, len(a.pre))))
		}},
		{"without the last byte", func(a *apkLayout, k int, d []byte) []byte {
			return contentDigest(k, a.pre[:len(a.pre)-1], a.cd, le(a, len(a.pre)))
		}},
		{"without the last megabyte", func(a *apkLayout, k int, d []byte) []byte {
			return contentDigest(k, a.pre[:len(a.pre)>>20<<20], a.cd, le(a, len(a.pre)))
		}},
		{"without its first byte", func(a *apkLayout, k int, d []byte) []byte { return d[1:] }},
		{"without its last byte", func(a *apkLayout, k int, d []byte) []byte { return d[:len(d)-1] }},
		{"with another last byte", func(a *apkLayout, k int, d []byte) []byte { return flip(d, len(d)-1) }},
		{"with another byte in the middle", func(a *apkLayout, k int, d []byte) []byte { return flip(d, 20) }},
		{"of other case", func(a *apkLayout, k int, d []byte) []byte { return bytes.ToUpper(d) }},
		{"without anything", func(a *apkLayout, k int, d []byte) []byte { return nil }},
		{"of zeros", func(a *apkLayout, k int, d []byte) []byte { return make([]byte, len(d)) }},
		{"and one byte more", func(a *apkLayout, k int, d []byte) []byte { return cat(d, []byte{0}) }},
		{"of another kind", func(a *apkLayout, k int, d []byte) []byte { return a.digest(k%3 + 1) }},
	}
	for _, size := range []int{5000, 1<<20 + 5000} {
		for _, al := range []uint32{aPk256, aPk512, aVRsa} {
			for _, alt := range alts {
				for _, v := range []int{2, 3, 31} {
					if !h.time() {
						return
					}
					if size > 1<<20 && !strings.HasPrefix(alt.name, "without the") && !strings.HasPrefix(alt.name, "of the") {
						continue
					}
					a := base(true, size, "a comment")
					if alt.f == nil {
						continue
					}
					sp := &signerSpec{v3: v > 2, k: rsaKeys[0], algos: []uint32{al}, min: 28, max: anyMax}
					sp.digest = func(x uint32, d []byte) []byte { return alt.f(a, digestKind(x), d) }
					label := fmt.Sprintf("digest %s, v%d %x", alt.name, v, al)
					switch v {
					case 2:
						h.runBlock(label, a.with(p2(a, sp)), 24, anyMax, "")
						h.runBlock(label+", second signer", a.with(p2(a, v2s(rsaKeys[1], aPk256), sp)), 24, anyMax, "")
					case 3:
						h.runBlock(label, a.with(p3(a, sp)), 28, anyMax, "")
					case 31:
						sp.min = 33
						h.runBlock(label, a.with(p3(a, v3s(ecKeys[0], 28, 32, aEc256)), p31(a, sp)), 28, anyMax, "")
					}
				}
			}
		}
	}
}

// lengthCases overwrites every length in the blocks with numbers around the ends of its range
func lengthCases(h *harness) {
	vals := []uint32{0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0xfffffffc, 0x7fffffff, 0, 1, 3, 7}
	a := base(false, 600, "")
	set := func(b []byte, i int, v uint32) []byte {
		c := append([]byte(nil), b...)
		binary.LittleEndian.PutUint32(c[i:], v)
		return c
	}
	isLen := func(b []byte, i int) bool {
		v := binary.LittleEndian.Uint32(b[i:])
		return v != 0 && v <= uint32(len(b)-i-4)
	}
	mk := func(v3 bool) *signerSpec {
		s := &signerSpec{v3: v3, k: ecKeys[0], algos: []uint32{aEc256}, min: 28, max: anyMax}
		if v3 {
			s.attrs = []attr{{0x3ba06f8c, h.lineage(s.k).encode()}, {0x559f8b02, u32(33)}}
		} else {
			s.attrs = []attr{{0xbeeff00d, u32(3)}, {0x11223344, nil}}
		}
		return s
	}
	run := func(label string, v3 bool, s *signerSpec) {
		if !v3 {
			h.runBlock(label, a.with(p2(a, s)), 24, anyMax, "")
		} else {
			h.runBlock(label, a.with(p3(a, s)), 28, anyMax, "")
			c := s.clone()
			c.min = 33
			h.runBlock(label+" v3.1", a.with(p31(a, c), p3(a, v3s(rsaKeys[0], 28, 32, aPk256))), 28, anyMax, "")
		}
	}
	for _, v3 := range []bool{false, true} {
		var sd, raw []byte
		s := mk(v3)
		s.preSign = func(b []byte) []byte { sd = append([]byte(nil), b...); return b }
		s.raw = func(b []byte) []byte { raw = append([]byte(nil), b...); return b }
		run("plain", v3, s)
		for i := 0; i+4 <= len(sd); i++ {
			for _, v := range vals {
				if !isLen(sd, i) || !h.time() {
					continue
				}
				c := s.clone()
				c.raw = nil
				c.preSign = func([]byte) []byte { return set(sd, i, v) }
				run("length in the signed data", v3, c)
			}
		}
		for i := 0; i+4 <= len(raw); i++ {
			for _, v := range vals {
				if !isLen(raw, i) || !h.time() {
					continue
				}
				c := s.clone()
				c.preSign = nil
				c.raw = func([]byte) []byte { return set(raw, i, v) }
				run("length in the signer", v3, c)
			}
		}
		for n := 0; n < len(sd) && h.time(); n++ {
			c := s.clone()
			c.raw = nil
			c.preSign = func([]byte) []byte { return sd[:n] }
			run("signed data cut", v3, c)
		}
	}
}

func contentCases(h *harness) {
	// digests of different kinds in different signers
	for i := 0; i < 12 && h.time(); i++ {
		a := base(true, 5000, "")
		kinds := []uint32{aPk256, aPk512, aVRsa}
		good, bad := v2s(rsaKeys[0], kinds[i%3]), v2s(rsaKeys[1], kinds[(i/3)%3])
		bad.digest = func(al uint32, d []byte) []byte { return flip(d, i) }
		h.runBlock("one signer of two with a wrong digest", a.with(p2(a, good, bad)), 24, 27, "")
		h.runBlock("one signer of two with a wrong digest", a.with(p2(a, bad, good)), 24, 27, "")
		g3, b3 := v3s(rsaKeys[0], 28, 32, kinds[i%3]), v3s(rsaKeys[1], 33, anyMax, kinds[(i/3)%3])
		b3.digest = bad.digest
		h.runBlock("wrong digest in the later v3 signer", a.with(p3(a, g3, b3)), 28, anyMax, "")
		h.runBlock("wrong digest in v3.1 only", a.with(p3(a, g3), p31(a, b3)), 28, anyMax, "")
		g3, b3 = v3s(rsaKeys[0], 33, anyMax, kinds[i%3]), v3s(rsaKeys[1], 28, 32, kinds[(i/3)%3])
		b3.digest = bad.digest
		h.runBlock("wrong digest in the base v3 only", a.with(p3(a, b3), p31(a, g3)), 28, anyMax, "")
	}
	sizes := []int{100, 4096 * 3, 1 << 20, 1<<20 + 5, 3<<20 + 77}
	for _, size := range sizes {
		for _, comment := range []string{"", "a comment"} {
			for _, as := range [][]uint32{{aPk256}, {aPk512}, {aVRsa}, {aPk256, aVRsa}} {
				if !h.time() {
					return
				}
				for _, v := range []int{2, 3, 31, 310} {
					a := base(true, size, comment)
					var ps []pair
					switch v {
					case 2:
						ps = []pair{p2(a, v2s(rsaKeys[0], as...))}
					case 3:
						ps = []pair{p3(a, v3s(rsaKeys[0], 28, anyMax, as...))}
					case 31:
						ps = []pair{p3(a, v3s(ecKeys[0], 28, 32, aEc256)), p31(a, v3s(rsaKeys[0], 33, anyMax, as...))}
					case 310:
						ps = []pair{p3(a, v3s(rsaKeys[0], 28, 32, as...)), p31(a, v3s(ecKeys[0], 33, anyMax, aEc256))}
					}
					f := a.with(ps...)
					label := fmt.Sprintf("v%d %x, %d bytes", v, as, size)
					h.runBlock(label, f, 28, anyMax, "")
					pos := map[string]int{"first byte": 0, "last byte before the block": len(a.pre) - 1, "first byte of the directory": len(a.pre) + len(a.block),
						"last byte of the directory": len(a.pre) + len(a.block) + len(a.cd) - 1, "disk number in the end record": len(f) - len(a.eocd) + 4,
						"record count": len(f) - len(a.eocd) + 8, "comment": len(f) - 1, "middle": len(a.pre) / 2, "random": h.r.Intn(len(a.pre)),
						"4 KB": 4095 % len(a.pre), "1 MB": (1 << 20) % len(a.pre), "1 MB - 1": (1<<20 - 1) % len(a.pre), "2 MB": (2 << 20) % len(a.pre)}
					for name, p := range pos {
						if name == "comment" && comment == "" || !h.time() {
							continue
						}
						g := append([]byte(nil), f...)
						g[p] ^= 0x10
						h.runBlock(label+", changed: "+name, g, 28, anyMax, "")
					}
					if size > 2<<20 {
						// two whole chunks exchanged
						g := append([]byte(nil), f...)
						copy(g, f[1<<20:2<<20])
						copy(g[1<<20:], f[:1<<20])
						h.runBlock(label+", chunks exchanged", g, 28, anyMax, "")
					}
				}
			}
		}
	}
}

func rangeCases(h *harness) {
	a := base(false, 600, "")
	// signed and unsigned range differ in either direction, requests inside both
	for _, m := range [][4]uint32{{28, anyMax, 28, 40}, {28, 40, 28, anyMax}, {28, 40, 28, 41}, {28, 41, 28, 40}, {28, 40, 27, 40}, {27, 40, 28, 40}, {20, 40, 28, 50}, {28, 40, 28, 40}, {28, 40, 1, 40}, {28, 40, 0, 40}} {
		for _, sp := range [][2]int32{{28, 40}, {24, 39}, {30, 33}, {28, 28}, {36, 40}} {
			s := v3s(rsaKeys[0], m[0], m[1], aPk256)
			s.smin, s.smax = ptr(m[2]), ptr(m[3])
			h.runBlock(fmt.Sprintf("v3 with range and signed range %v requested %v", m, sp), a.with(p3(a, s)), sp[0], sp[1], "")
			s31 := v3s(rsaKeys[1], max(m[0], 33), m[1], aPk256)
			s31.smin, s31.smax = ptr(max(m[2], 33)), ptr(m[3])
			h.runBlock(fmt.Sprintf("v3.1 with range and signed range %v requested %v", m, sp), a.with(p3(a, v3s(rsaKeys[0], 28, 32, aPk256)), p31(a, s31)), sp[0], sp[1], "")
		}
	}
	// lineage sizes over the ranges
	for _, n := range [][]int{{1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 2, 3}, {2, 3, 1}, {3, 2, 1}, {2, 0, 1}, {2, 0, 3}, {3, 0, 2}, {1, 3, 2}} {
		var ss []*signerSpec
		lo := uint32(28)
		for i, c := range n {
			hi := lo + 2
			if i == len(n)-1 {
				hi = anyMax
			}
			ks := rsaKeys[:c]
			k := rsaKeys[0]
			if c > 0 {
				k = ks[c-1]
			}
			s := v3s(k, lo, hi, aPk256)
			if c > 0 {
				l := &lineageSpec{keys: ks}
				l.sigAlgo = func(i int, al uint32) uint32 { return aPk256 }
				s.attrs = []attr{{0x3ba06f8c, l.encode()}}
			}
			ss = append(ss, s)
			lo = hi + 1
		}
		h.runBlock(fmt.Sprintf("v3 lineages of %v", n), a.with(p3(a, ss...)), 28, anyMax, "")
		if len(ss) == 2 {
			h.runBlock(fmt.Sprintf("v3 lineages of %v, given in reverse order", n), a.with(p3(a, ss[1], ss[0])), 28, anyMax, "")
		}
	}
	for _, rs := range ranges {
		for _, sp := range sdkPairs {
			for _, second := range append([][]spans{nil}, ranges...) {
				if !h.time() {
					return
				}
				mk := func(rs []spans) []*signerSpec {
					var ss []*signerSpec
					for i, r := range rs {
						ss = append(ss, v3s(rsaKeys[i], r.lo, r.hi, aPk256))
					}
					return ss
				}
				if second == nil {
					h.runBlock(fmt.Sprintf("v3 %v requested %v", rs, sp), a.with(p3(a, mk(rs)...)), sp[0], sp[1], "")
				} else if sp[1] >= 33 {
					h.runBlock(fmt.Sprintf("v3 %v v3.1 %v requested %v", rs, second, sp), a.with(p3(a, mk(rs)...), p31(a, mk(second)...)), sp[0], sp[1], "")
				}
			}
		}
	}
}

func lineageCases(h *harness) {
	a := base(false, 600, "")
	until := h.evals + 6000
	for h.time() && h.evals < until {
		k := rsaKeys[h.r.Intn(3)]
		if h.r.Intn(3) == 0 {
			k = h.key()
		}
		l := h.lineage(k)
		s := v3s(k, 28, anyMax, h.algos(k)[0])
		s.algos[0] = lineageAlgo(k)
		s.attrs = []attr{{0x3ba06f8c, l.encode()}}
		h.runBlock("v3 with a lineage", a.with(p3(a, s)), 28, anyMax, "")
		if h.r.Intn(3) == 0 {
			b := l.encode()
			s.attrs = []attr{{0x3ba06f8c, h.mutLen(b)}}
			h.runBlock("v3 with a damaged lineage", a.with(p3(a, s)), 28, anyMax, "")
			s.attrs = []attr{{0x3ba06f8c, flip(b, h.r.Intn(len(b)))}}
			h.runBlock("v3 with a changed lineage", a.with(p3(a, s)), 28, anyMax, "")
		}
		// two or three signers, lineages prefixes of each other or not
		n := 2 + h.r.Intn(2)
		ks := rsaKeys[:n]
		full := &lineageSpec{keys: ks, sigAlgo: func(int, uint32) uint32 { return aPk256 }}
		nodes := full.nodes()
		var cut []int
		q := &rd{b: nodes}
		for len(q.b) > 0 {
			q.lp()
			cut = append(cut, len(nodes)-len(q.b))
		}
		var ss []*signerSpec
		lo := uint32(28)
		fault := h.r.Intn(4 * n)
		for i := 0; i < n; i++ {
			hi := lo + 1
			if i == n-1 {
				hi = anyMax
			}
			s := v3s(ks[i], lo, hi, aPk256)
			lo = hi + 1
			nb := nodes[:cut[i]]
			if fault == i {
				x := &lineageSpec{keys: ks[:i+1], sigAlgo: func(int, uint32) uint32 { return aPk256 }, flags: make([]uint32, i+1)}
				x.flags[h.r.Intn(i+1)] = 5
				nb = x.nodes()
			} else if fault == n+i && i > 0 {
				x := &lineageSpec{keys: append(append([]*key{}, ecKeys[:i]...), ks[i])}
				nb = x.nodes()
			}
			s.attrs = []attr{{0x3ba06f8c, cat(u32(1), nb)}}
			ss = append(ss, s)
		}
		h.r.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
		h.runBlock(fmt.Sprintf("v3 %d signers with lineages", n), a.with(p3(a, ss...)), 28, anyMax, "")
		if h.r.Intn(2) == 0 {
			base := v3s(ecKeys[0], 28, 32, aEc256)
			s := v3s(k, 33, anyMax, lineageAlgo(k))
			s.attrs = []attr{{0x3ba06f8c, l.encode()}}
			h.runBlock("v3.1 with a lineage", a.with(p3(a, base), p31(a, s)), 28, anyMax, "")
		}
	}
}

// schemeCases: which blocks are present, which of them are broken, for which platforms
func schemeCases(h *harness) {
	a := base(false, 600, "")
	brk := func(s *signerSpec) *signerSpec {
		c := s.clone()
		c.sig = func(al uint32, g, sd []byte) []byte { return flip(g, 5) }
		return c
	}
	wrongDigest := func(s *signerSpec) *signerSpec {
		c := s.clone()
		c.digest = func(al uint32, d []byte) []byte { return flip(d, 5) }
		return c
	}
	for m2 := 0; m2 < 6; m2++ {
		for m3 := 0; m3 < 6; m3++ {
			for m31 := 0; m31 < 5; m31++ {
				for _, sp := range sdkPairs {
					if !h.time() {
						return
					}
					var ps []pair
					s2 := v2s(rsaKeys[0], aPk256)
					switch m2 {
					case 2:
						s2 = brk(s2)
					case 3:
						s2.attrs = []attr{{0xbeeff00d, u32(3)}}
					case 4:
						s2.attrs = []attr{{0xbeeff00d, u32(31)}}
					case 5:
						s2.attrs = []attr{{0xbeeff00d, u32(3)}}
						ps = append(ps, p2(a, v2s(ecKeys[0], aEc256), s2))
					}
					if m2 > 0 && m2 < 5 {
						ps = append(ps, p2(a, s2))
					}
					hi := uint32(anyMax)
					if m31 > 0 && sp[1] >= 33 {
						hi = 32
					}
					s3 := v3s(rsaKeys[1], 28, hi, aPk256)
					switch m3 {
					case 2:
						s3 = brk(s3)
					case 3:
						s3 = wrongDigest(s3)
					case 4:
						s3.attrs = []attr{{0x559f8b02, u32(33)}}
					case 5:
						s3 = brk(s3)
						ps = append(ps, p3(a, v3s(rsaKeys[3], 28, 30, aPk256), s3))
					}
					if m3 > 0 && m3 < 5 {
						ps = append(ps, p3(a, s3))
					}
					s31 := v3s(rsaKeys[2], 33, anyMax, aPk256)
					switch m31 {
					case 2:
						s31 = brk(s31)
					case 3:
						s31 = wrongDigest(s31)
					}
					if m31 == 4 {
						s31 = v3s(rsaKeys[2], 28, anyMax, aPk256)
					}
					if m31 > 0 {
						ps = append(ps, p31(a, s31))
					}
					h.runBlock(fmt.Sprintf("v2:%d v3:%d v3.1:%d requested %v", m2, m3, m31, sp), a.with(ps...), sp[0], sp[1], "")
				}
			}
		}
	}
}

func layoutCases(h *harness) {
	mk := func(a *apkLayout) pair { return p2(a, v2s(rsaKeys[0], aPk256)) }
	for _, comment := range []string{"", "x", "hello world", string(bytes.Repeat([]byte("c"), 65535)), "PK\x05\x06 in the comment which is long enough to look like a record"} {
		a := base(false, 600, comment)
		f := a.with(mk(a))
		h.runBlock(fmt.Sprintf("comment of %d bytes", len(comment)), f, 24, 27, "C12")
		for i := 0; i < 22; i++ {
			for _, d := range []byte{1, 0x80} {
				g := append([]byte(nil), f...)
				g[len(f)-22-len(comment)+i] ^= d
				h.runBlock(fmt.Sprintf("end record byte %d, comment of %d", i, len(comment)), g, 24, 27, "")
			}
		}
		h.runBlock("one byte after the comment", append(append([]byte(nil), f...), 0), 24, 27, "")
		h.runBlock("one byte less", f[:len(f)-1], 24, 27, "")
	}
	// a record in the comment of another
	{
		a := base(false, 600, "")
		inner := a.with(mk(a))
		e := inner[len(inner)-22:]
		for _, n := range []int{0, 5, 22, 100} {
			f := append(append([]byte(nil), inner...), e...)
			f = append(f, make([]byte, n)...)
			binary.LittleEndian.PutUint16(f[len(inner)-2:], uint16(22+n))
			binary.LittleEndian.PutUint16(f[len(inner)+20:], uint16(n))
			h.runBlock("end record inside a comment", f, 24, 27, "")
			g := append([]byte(nil), f...)
			binary.LittleEndian.PutUint32(g[len(inner)+12:], uint32(binary.LittleEndian.Uint32(e[12:])+22))
			h.runBlock("consistent end record inside a comment", g, 24, 27, "")
		}
	}
	// directory not adjacent to the record or the block
	for _, n := range []int{1, 4, 22, 4096} {
		a := base(false, 600, "")
		a.block = sigBlock([]pair{mk(a)})
		gap := make([]byte, n)
		off := len(a.pre) + len(a.block)
		h.runBlock("gap between directory and end record", cat(a.pre, a.block, a.cd, gap, a.eocdAt(off)), 24, 27, "")
		h.runBlock("gap between block and directory", cat(a.pre, a.block, gap, a.cd, a.eocdAt(off+n)), 24, 27, "")
		h.runBlock("bytes before the file", cat(gap, a.pre, a.block, a.cd, a.eocdAt(off)), 24, 27, "")
		h.runBlock("bytes before the file, moved directory", cat(gap, a.pre, a.block, a.cd, a.eocdAt(off+n)), 24, 27, "")
	}
	// bytes after the directory that the end record does not count, signed along
	for _, n := range []int{1, 4, 22, 46, 4096} {
		a := base(false, 600, "")
		a.cd = append(append([]byte(nil), a.cd...), make([]byte, n)...)
		h.runBlock("uncounted bytes after the directory", a.with(mk(a)), 24, 27, "")
		a.cd = a.cd[:len(a.cd)-n-1]
		h.runBlock("directory shorter than counted", a.with(mk(a)), 24, 27, "")
	}
	// ZIP64 locator before the end record
	{
		a := base(false, 600, "")
		loc := cat([]byte("PK\x06\x07"), make([]byte, 16))
		a.cd = append(a.cd, loc...)
		binary.LittleEndian.PutUint32(a.eocd[12:], uint32(len(a.cd)))
		h.runBlock("ZIP64 locator", a.with(mk(a)), 24, 27, "")
	}
	// block header, footer, magic
	a := base(false, 600, "")
	good := sigBlock([]pair{mk(a)})
	for i := 0; i < 8; i++ {
		for _, d := range []byte{1, 8, 0x80} {
			for _, where := range []int{i, len(good) - 24 + i, len(good) - 16 + i, len(good) - 8 + i} {
				b := append([]byte(nil), good...)
				b[where] ^= d
				a.block = b
				h.runBlock("block frame byte", a.bytes(), 24, 27, "")
			}
		}
	}
	for _, d := range []int64{-24, -8, -4, -1, 1, 4, 8, 24, 4096, 1 << 33, -1 << 33, 1<<63 - 1} {
		b := append([]byte(nil), good...)
		n := uint64(int64(len(good)-8) + d)
		binary.LittleEndian.PutUint64(b[len(b)-24:], n)
		a.block = b
		h.runBlock("footer size", a.bytes(), 24, 27, "")
		binary.LittleEndian.PutUint64(b, n)
		h.runBlock("both sizes", a.bytes(), 24, 27, "")
		// a second header at the place the size points to
		if d < 0 && d > -100 {
			binary.LittleEndian.PutUint64(b[-d:], n)
			h.runBlock("inner header", a.bytes(), 24, 27, "")
		}
	}
	// order and repetition of known blocks
	if h.prop == "C13" {
		orderCases(h)
	}
	// pairs
	for i := 0; h.time() && (h.prop == "C13" || i < 4000); i++ {
		a := base(false, 600, "")
		ps := []pair{mk(a)}
		n := h.r.Intn(6)
		label := fmt.Sprintf("%d more pairs", n)
		for j := 0; j < n; j++ {
			id := []uint32{0x504b4453, 0x71777777, 0x2b09189e, idVerityPad, h.r.Uint32(), 7, 0, 0xffffffff}[h.r.Intn(8)]
			ps = append(ps, pair{id, rbytes(h.r, []int{0, 0, 1, 3, 4, 8, 12, 100, 5000}[h.r.Intn(9)])})
		}
		if h.r.Intn(3) == 0 && n > 0 { // the same id twice
			ps = append(ps, pair{ps[1].id, rbytes(h.r, h.r.Intn(20))})
			label += ", one id twice"
		}
		dup := h.r.Intn(6) == 0
		h.r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		if dup { // the last v2 block counts
			bad := v2s(rsaKeys[1], aPk256)
			bad.sig = func(al uint32, g, sd []byte) []byte { return flip(g, 5) }
			if h.r.Intn(2) == 0 {
				ps = append([]pair{p2(a, bad)}, ps...)
				label += ", v2 twice, first broken"
			} else {
				ps = append(ps, p2(a, bad))
				label += ", v2 twice, last broken"
			}
		}
		f := a.with(ps...)
		ok := "C13"
		if dup && label[len(label)-11:] == "last broken" {
			ok = ""
		}
		h.runBlock(label, f, 24, 27, ok)
		// a damaged pair length
		b := append([]byte(nil), a.block...)
		at := 8
		for _, p := range ps[:h.r.Intn(len(ps))] {
			at += 12 + len(p.val)
		}
		v := []uint64{0, 1, 3, 4, 5, 1 << 31, 1<<31 - 1, 1 << 32, 1<<64 - 1, 1 << 63, uint64(len(b))}[h.r.Intn(11)]
		if h.r.Intn(2) == 0 {
			v = binary.LittleEndian.Uint64(b[at:]) + uint64(h.r.Intn(25)-12)
		}
		binary.LittleEndian.PutUint64(b[at:], v)
		a.block = b
		h.runBlock(label+", a pair length changed", a.bytes(), 24, 27, "")
		// body shortened or extended by a few bytes at the end
		body := a.with(ps...)
		_ = body
		k := 1 + h.r.Intn(11)
		raw := append(append([]byte(nil), a.block[8:len(a.block)-24]...), make([]byte, k)...)
		size := uint64(len(raw) + 24)
		a.block = cat(u64(size), raw, u64(size), []byte("APK Sig Block 42"))
		h.runBlock(label+", bytes after the last pair", a.bytes(), 24, 27, "")
	}
}

func orderCases(h *harness) {
	a := base(false, 600, "")
	ps := []pair{p2(a, v2s(rsaKeys[0], aPk256)), p3(a, v3s(rsaKeys[0], 28, anyMax, aPk256)), p31(a, v3s(rsaKeys[0], 33, anyMax, aPk256)), {0x71777777, []byte("meituan")}}
	for _, keep := range []int{15, 7, 6, 3, 5, 9, 14} {
		for perm := 0; perm < 24; perm++ {
			var q []pair
			idx := []int{0, 1, 2, 3}
			for i, p := 0, perm; i < 4; i++ {
				j := i + p%(4-i)
				p /= 4 - i
				idx[i], idx[j] = idx[j], idx[i]
				if keep&(1<<idx[i]) != 0 {
					q = append(q, ps[idx[i]])
				}
			}
			label := fmt.Sprintf("known blocks %d in order %v", keep, idx)
			ok := "C13"
			if keep == 5 {
				ok = ""
			}
			f := a.with(q...)
			h.runBlock(label, f, 24, anyMax, ok)
			h.runBlock(label, f, 24, 27, "")
		}
	}
	// the last of two blocks decides
	stamp := func(f []byte) string {
		res, _, err := signingblock.VerifySigningBlockReader(bytes.NewReader(f), 24, 27)
		if res == nil {
			return fmt.Sprint(err)
		}
		if x := res.SourceStamp; x != nil {
			return fmt.Sprint(err, x.Cert != nil, x.Errors, x.Warnings)
		}
		return fmt.Sprint(err)
	}
	vals := [][]byte{nil, {1}, {1, 2, 3, 4}, lp([]byte("x")), lp(lp([]byte("abc"))), lp(lp(rsaKeys[0].cert), lp()), lp(lp(rsaKeys[0].cert), lp(lp(u32(2), lp(nil))), lp())}
	for i, x := range vals {
		for j, y := range vals {
			f := a.with(ps[0], pair{idStampV2, x}, pair{idStampV2, y})
			g := a.with(ps[0], pair{idStampV2, y})
			in := &fileInput{24, 27, ""}
			label := fmt.Sprintf("source stamp %d before %d", i, j)
			h.guard("C14", label, in, func() {
				if s, t := stamp(f), stamp(g); s != t {
					in.File = base64.StdEncoding.EncodeToString(f)
					h.fail("C13", label, "the last source stamp block does not decide: "+s+" instead of "+t, in, "")
				}
				h.note(label, "")
			})
		}
	}
}

func verityCases(h *harness) {
	sizes := []int{0, 1, 100, 4000, 4095, 4096, 4097, 8192, 100000, 128*4096 - 4000, 128 * 4096, 128*4096 + 1, 129 * 4096, 300000, 1 << 20, 128*128*4096 + 5}
	for i := 0; h.time() && i < 4000; i++ {
		size := h.r.Intn(600000)
		comment := ""
		if i < len(sizes) {
			size = sizes[i]
			if size > 8<<20 && h.deadline.Unix()%1 != 0 {
				continue
			}
		} else if h.r.Intn(2) == 0 {
			// the length of the content around a multiple of a page or of a tree level
			comment = string(bytes.Repeat([]byte{'c'}, h.r.Intn(9000)))
			size = []int{4096 * 127, 4096 * 126, 4096 * 128, 4096 * 2, 0}[h.r.Intn(5)] - h.r.Intn(3)*100
			if size < 0 {
				size = 10
			}
		}
		a := base(true, size, comment)
		f := a.with(p2(a, v2s(rsaKeys[0], aVRsa)))
		h.runBlock(fmt.Sprintf("verity, content of %d KB", size/20480*20), f, 28, anyMax, "C18")
		g := append([]byte(nil), f...)
		p := h.r.Intn(len(f) - len(a.block))
		if p >= len(a.pre) {
			p += len(a.block)
		}
		if p < len(f)-len(a.eocd) || p >= len(f)-2 {
			g[p] ^= 4
			if _, err := refParse(g); err == nil {
				h.runVerityChanged("verity, a byte changed", g)
			}
		}
		delete(baseZips, fmt.Sprint(true, size, comment))
	}
}

func (h *harness) runVerityChanged(label string, f []byte) {
	in := &fileInput{28, anyMax, ""}
	h.guard("C14", label, in, func() {
		_, _, err := signingblock.VerifySigningBlockReader(bytes.NewReader(f), 28, anyMax)
		if err == nil {
			h.fail("C18", label, "a file with another content than digested was accepted", in, "")
		}
		h.note(label, fmt.Sprint("accepted ", err == nil))
	})
}
