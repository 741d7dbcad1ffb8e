package main

// Builders for APK files: ZIP with central directory, signing block, v2/v3/v3.1 signers, lineages.
// Nothing in here uses the code under test.

import (
	"archive/zip"
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/big"
	mrand "math/rand"
	"time"
)

type key struct {
	name string
	priv crypto.PrivateKey
	cert []byte // DER
	x    *x509.Certificate
	spki []byte
}

var rsaKeys, ecKeys, dsaKs []*key
var allKeys []*key

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

func big16(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("harness: bad number")
	}
	return n
}

var serialNo int64 = 1000

func makeCert(priv crypto.Signer, cn string, issuer *key) []byte {
	serialNo++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(serialNo),
		Subject:      pkix.Name{CommonName: cn, Organization: []string{"Verif"}},
		NotBefore:    time.Unix(1500000000, 0),
		NotAfter:     time.Unix(4000000000, 0),
	}
	parent, signer := t, priv
	if issuer != nil {
		parent, signer = issuer.x, issuer.priv.(crypto.Signer)
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, priv.Public(), signer)
	must(err)
	return der
}

func mkKey(name string, priv crypto.PrivateKey, cert []byte) *key {
	x, err := x509.ParseCertificate(cert)
	must(err)
	return &key{name, priv, cert, x, x.RawSubjectPublicKeyInfo}
}

type tbsCert struct {
	Version            int `asn1:"optional,explicit,default:0,tag:0"`
	SerialNumber       *big.Int
	SignatureAlgorithm pkix.AlgorithmIdentifier
	Issuer             asn1.RawValue
	Validity           struct{ NotBefore, NotAfter time.Time }
	Subject            asn1.RawValue
	PublicKey          asn1.RawValue
	Rest               []asn1.RawValue `asn1:"optional,explicit,tag:3"`
}

// dsaCert makes a certificate of a DSA key: an EC certificate with the key replaced (its own signature is not valid,
// nothing in the APK schemes looks at it).
func dsaCert(k *dsa.PrivateKey, cn string) []byte {
	var outer struct {
		TBS asn1.RawValue
		Alg asn1.RawValue
		Sig asn1.RawValue
	}
	_, err := asn1.Unmarshal(makeCert(ecKeys[0].priv.(crypto.Signer), cn, nil), &outer)
	must(err)
	var tbs []asn1.RawValue
	_, err = asn1.Unmarshal(outer.TBS.FullBytes, &tbs)
	must(err)
	params, err := asn1.Marshal(struct{ P, Q, G *big.Int }{k.P, k.Q, k.G})
	must(err)
	y, err := asn1.Marshal(k.Y)
	must(err)
	spki, err := asn1.Marshal(struct {
		A pkix.AlgorithmIdentifier
		B asn1.BitString
	}{pkix.AlgorithmIdentifier{Algorithm: asn1.ObjectIdentifier{1, 2, 840, 10040, 4, 1}, Parameters: asn1.RawValue{FullBytes: params}}, asn1.BitString{Bytes: y, BitLength: 8 * len(y)}})
	must(err)
	tbs[6] = asn1.RawValue{FullBytes: spki}
	t, err := asn1.Marshal(tbs)
	must(err)
	outer.TBS = asn1.RawValue{FullBytes: t}
	der, err := asn1.Marshal(outer)
	must(err)
	return der
}

func initKeys() {
	for i, s := range rsaKeys64 {
		b, err := base64.StdEncoding.DecodeString(s)
		must(err)
		k, err := x509.ParsePKCS1PrivateKey(b)
		must(err)
		rsaKeys = append(rsaKeys, mkKey(fmt.Sprintf("rsa%d", i), k, makeCert(k, fmt.Sprintf("RSA %d", i), nil)))
	}
	for i, s := range ecKeys64 {
		b, err := base64.StdEncoding.DecodeString(s)
		must(err)
		k, err := x509.ParseECPrivateKey(b)
		must(err)
		ecKeys = append(ecKeys, mkKey(fmt.Sprintf("ec%d", i), k, makeCert(k, fmt.Sprintf("EC %d", i), nil)))
	}
	for i, s := range dsaKeys {
		k := &dsa.PrivateKey{X: big16(s[4])}
		k.P, k.Q, k.G, k.Y = big16(s[0]), big16(s[1]), big16(s[2]), big16(s[3])
		dsaKs = append(dsaKs, mkKey(fmt.Sprintf("dsa%d", i), k, dsaCert(k, fmt.Sprintf("DSA %d", i))))
	}
	allKeys = append(append(append(allKeys, rsaKeys...), ecKeys...), dsaKs...)
}

const (
	aPss256, aPss512, aPk256, aPk512 = 0x101, 0x102, 0x103, 0x104
	aEc256, aEc512, aDsa256          = 0x201, 0x202, 0x301
	aVRsa, aVEc, aVDsa               = 0x421, 0x423, 0x425

	idV2, idV3, idV31     = 0x7109871a, 0xf05368c0, 0x1b93ad61
	idFrosting, idStampV2 = 0x2146444e, 0x6dff800d
	idVerityPad           = 0x42726577
)

func algoHash(a uint32) crypto.Hash {
	switch a {
	case aPss512, aPk512, aEc512:
		return crypto.SHA512
	}
	return crypto.SHA256
}

// digestKind: 1 chunked sha256, 2 chunked sha512, 3 verity; 0 unknown
func digestKind(a uint32) int {
	switch a {
	case aPss256, aPk256, aEc256, aDsa256:
		return 1
	case aPss512, aPk512, aEc512:
		return 2
	case aVRsa, aVEc, aVDsa:
		return 3
	}
	return 0
}

// strength of the digest kinds
func kindRank(k int) int { return [...]int{0, 1, 3, 2}[k] }

func keyAlgos(k *key) []uint32 {
	switch k.priv.(type) {
	case *rsa.PrivateKey:
		return []uint32{aPss256, aPss512, aPk256, aPk512, aVRsa}
	case *ecdsa.PrivateKey:
		return []uint32{aEc256, aEc512, aVEc}
	}
	return []uint32{aDsa256, aVDsa}
}

func hashOf(h crypto.Hash, data []byte) []byte {
	x := h.New()
	x.Write(data)
	return x.Sum(nil)
}

func sign(k *key, algo uint32, data []byte) []byte {
	h := algoHash(algo)
	d := hashOf(h, data)
	switch p := k.priv.(type) {
	case *rsa.PrivateKey:
		if algo == aPss256 || algo == aPss512 {
			s, err := rsa.SignPSS(rand.Reader, p, h, d, &rsa.PSSOptions{SaltLength: h.Size()})
			must(err)
			return s
		}
		s, err := rsa.SignPKCS1v15(rand.Reader, p, h, d)
		must(err)
		return s
	case *ecdsa.PrivateKey:
		s, err := ecdsa.SignASN1(rand.Reader, p, d)
		must(err)
		return s
	case *dsa.PrivateKey:
		return dsaSign(p, d)
	}
	panic("harness: key type")
}

func dsaSign(p *dsa.PrivateKey, d []byte) []byte {
	if q := p.Q.BitLen() / 8; len(d) > q {
		d = d[:q]
	}
	r, s, err := dsa.Sign(rand.Reader, p, d)
	must(err)
	b, err := asn1.Marshal(struct{ R, S *big.Int }{r, s})
	must(err)
	return b
}

// verifySig: independent verification of an APK signature
func verifySig(pub interface{}, algo uint32, data, sig []byte) bool {
	h := algoHash(algo)
	d := hashOf(h, data)
	switch algo {
	case aPss256, aPss512:
		p, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPSS(p, h, d, sig, &rsa.PSSOptions{SaltLength: h.Size()}) == nil
	case aPk256, aPk512, aVRsa:
		p, ok := pub.(*rsa.PublicKey)
		return ok && rsa.VerifyPKCS1v15(p, h, d, sig) == nil
	case aEc256, aEc512, aVEc:
		p, ok := pub.(*ecdsa.PublicKey)
		var rs []*big.Int
		if _, err := asn1.Unmarshal(sig, &rs); !ok || err != nil || len(rs) != 2 {
			return false
		}
		return ecdsa.Verify(p, d, rs[0], rs[1])
	case aDsa256, aVDsa:
		p, ok := pub.(*dsa.PublicKey)
		var rs []*big.Int
		if _, err := asn1.Unmarshal(sig, &rs); !ok || err != nil || len(rs) != 2 {
			return false
		}
		if q := p.Q.BitLen() / 8; len(d) > q {
			d = d[:q]
		}
		return dsa.Verify(p, d, rs[0], rs[1])
	}
	return false
}

func u32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func u64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func lp(bs ...[]byte) []byte {
	b := cat(bs...)
	return append(u32(uint32(len(b))), b...)
}

// apkLayout is an APK split at the place of its signing block.
type apkLayout struct {
	pre, cd, eocd []byte // eocd as it will be in the file with cdOffset for an empty block
	block         []byte
}

func (a *apkLayout) eocdAt(off int) []byte {
	e := append([]byte(nil), a.eocd...)
	binary.LittleEndian.PutUint32(e[16:], uint32(off))
	return e
}

func (a *apkLayout) bytes() []byte {
	return cat(a.pre, a.block, a.cd, a.eocdAt(len(a.pre)+len(a.block)))
}

type zent struct {
	name   string
	data   []byte
	store  bool
	method uint16
}

func zipBytes(ents []zent, comment string) []byte {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, e := range ents {
		m := zip.Deflate
		if e.store {
			m = zip.Store
		}
		f, err := w.CreateHeader(&zip.FileHeader{Name: e.name, Method: m})
		must(err)
		_, err = f.Write(e.data)
		must(err)
	}
	if comment != "" {
		must(w.SetComment(comment))
	}
	must(w.Close())
	return b.Bytes()
}

// splitZip cuts a ZIP at its central directory; align pads the part before it with zeros to a multiple of 4096.
func splitZip(z []byte, comment string, align bool) *apkLayout {
	e := len(z) - 22 - len(comment)
	cdOff := int(binary.LittleEndian.Uint32(z[e+16:]))
	pre := append([]byte(nil), z[:cdOff]...)
	if align {
		for len(pre)%4096 != 0 {
			pre = append(pre, 0)
		}
	}
	return &apkLayout{pre: pre, cd: append([]byte(nil), z[cdOff:e]...), eocd: append([]byte(nil), z[e:]...)}
}

type pair struct {
	id  uint32
	val []byte
}

func sigBlock(ps []pair) []byte {
	var body []byte
	for _, p := range ps {
		body = append(body, u64(uint64(4+len(p.val)))...)
		body = append(body, u32(p.id)...)
		body = append(body, p.val...)
	}
	size := uint64(len(body) + 24)
	return cat(u64(size), body, u64(size), []byte("APK Sig Block 42"))
}

// content digests, straight from their definition

func chunked(h crypto.Hash, secs ...[]byte) []byte {
	var sums []byte
	n := 0
	for _, s := range secs {
		for len(s) > 0 {
			c := s
			if len(c) > 1<<20 {
				c = c[:1<<20]
			}
			s = s[len(c):]
			sums = append(sums, hashOf(h, cat([]byte{0xa5}, u32(uint32(len(c))), c))...)
			n++
		}
	}
	return hashOf(h, cat([]byte{0x5a}, u32(uint32(n)), sums))
}

// verityRoot: the root of the 4K tree over data with the given salt
func verityRoot(data, salt []byte) []byte {
	pad := func(b []byte) []byte {
		b = append([]byte(nil), b...)
		for len(b)%4096 != 0 {
			b = append(b, 0)
		}
		return b
	}
	level := pad(data)
	for {
		var next []byte
		for i := 0; i < len(level); i += 4096 {
			s := sha256.Sum256(cat(salt, level[i:i+4096]))
			next = append(next, s[:]...)
		}
		if len(next) <= 4096 {
			s := sha256.Sum256(cat(salt, pad(next)))
			return s[:]
		}
		level = pad(next)
	}
}

func verityDigest(secs ...[]byte) []byte {
	all := cat(secs...)
	return cat(verityRoot(all, make([]byte, 8)), u64(uint64(len(all))))
}

func contentDigest(kind int, secs ...[]byte) []byte {
	switch kind {
	case 1:
		return chunked(crypto.SHA256, secs...)
	case 2:
		return chunked(crypto.SHA512, secs...)
	case 3:
		return verityDigest(secs...)
	}
	return nil
}

func (a *apkLayout) digest(kind int) []byte {
	return contentDigest(kind, a.pre, a.cd, a.eocdAt(len(a.pre)))
}

type attr struct {
	id  uint32
	val []byte
}

// signerSpec describes one signer; the fields after tamper override parts of it.
type signerSpec struct {
	v3         bool
	k          *key
	chain      [][]byte // DER; default: the key's certificate
	algos      []uint32
	min, max   uint32 // v3
	smin, smax *uint32
	attrs      []attr

	digAlgos   []uint32                                   // algorithms in the digests, default algos
	digest     func(algo uint32, right []byte) []byte     // replaces the digest of an algorithm
	sig        func(algo uint32, right, sd []byte) []byte // replaces the signature of an algorithm
	signKey    *key                                       // key that signs (default k)
	pub        []byte                                     // public key field (default spki of k)
	preSign    func(sd []byte) []byte                     // changes the signed data before it is signed
	signedData func(sd []byte) []byte                     // replaces the signed data after it was signed
	raw        func(b []byte) []byte                      // replaces the whole signer
	tail       []byte                                     // appended to the signer
}

func (s *signerSpec) clone() *signerSpec {
	c := *s
	c.algos = append([]uint32(nil), s.algos...)
	c.attrs = append([]attr(nil), s.attrs...)
	c.chain = append([][]byte(nil), s.chain...)
	return &c
}

func (s *signerSpec) build(a *apkLayout) []byte {
	chain := s.chain
	if chain == nil {
		chain = [][]byte{s.k.cert}
	}
	da := s.digAlgos
	if da == nil {
		da = s.algos
	}
	var digs, certs, attrs []byte
	for _, al := range da {
		d := a.digest(digestKind(al))
		if d == nil {
			d = make([]byte, 32)
		}
		if s.digest != nil {
			d = s.digest(al, d)
		}
		digs = append(digs, lp(u32(al), lp(d))...)
	}
	for _, c := range chain {
		certs = append(certs, lp(c)...)
	}
	for _, at := range s.attrs {
		attrs = append(attrs, lp(u32(at.id), at.val)...)
	}
	sd := cat(lp(digs), lp(certs))
	smin, smax := s.min, s.max
	if s.smin != nil {
		smin = *s.smin
	}
	if s.smax != nil {
		smax = *s.smax
	}
	if s.v3 {
		sd = cat(sd, u32(smin), u32(smax))
	}
	sd = cat(sd, lp(attrs))
	if s.preSign != nil {
		sd = s.preSign(sd)
	}
	sk := s.signKey
	if sk == nil {
		sk = s.k
	}
	var sigs []byte
	for _, al := range s.algos {
		var g []byte
		if supportsAlgo(sk, al) {
			g = sign(sk, al, sd)
		} else {
			g = []byte{1, 2, 3, 4}
		}
		if s.sig != nil {
			g = s.sig(al, g, sd)
		}
		sigs = append(sigs, lp(u32(al), lp(g))...)
	}
	if s.signedData != nil {
		sd = s.signedData(sd)
	}
	pub := s.pub
	if pub == nil {
		pub = s.k.spki
	}
	var r []byte
	if s.v3 {
		r = cat(lp(sd), u32(s.min), u32(s.max), lp(sigs), lp(pub))
	} else {
		r = cat(lp(sd), lp(sigs), lp(pub))
	}
	r = append(r, s.tail...)
	if s.raw != nil {
		r = s.raw(r)
	}
	return r
}

func supportsAlgo(k *key, a uint32) bool {
	for _, x := range keyAlgos(k) {
		if x == a {
			return true
		}
	}
	return false
}

func schemeBlock(a *apkLayout, ss ...*signerSpec) []byte {
	var b []byte
	for _, s := range ss {
		b = append(b, lp(s.build(a))...)
	}
	return lp(b)
}

// lineage: a chain of keys; algos[i] is the algorithm with which node i signs node i+1
type lineageSpec struct {
	keys  []*key
	flags []uint32
	// overrides
	signer     func(i int) *key             // key that signs node i
	parentAlgo func(i int, a uint32) uint32 // algorithm in the signed data of node i
	sigAlgo    func(i int, a uint32) uint32 // algorithm announced by node i
	sig        func(i int, s []byte) []byte
	version    uint32
}

func lineageAlgo(k *key) uint32 {
	switch k.priv.(type) {
	case *rsa.PrivateKey:
		return aPk256
	case *ecdsa.PrivateKey:
		return aEc256
	}
	return aDsa256
}

func (l *lineageSpec) nodes() []byte {
	var out []byte
	var prev *key
	for i, k := range l.keys {
		pa := uint32(0)
		if prev != nil {
			pa = lineageAlgo(prev)
		}
		real := pa
		if l.parentAlgo != nil {
			pa = l.parentAlgo(i, pa)
		}
		sd := cat(lp(k.cert), u32(pa))
		var sg []byte
		if prev != nil {
			sk := prev
			if l.signer != nil {
				if o := l.signer(i); o != nil {
					sk = o
				}
			}
			if supportsAlgo(sk, real) {
				sg = sign(sk, real, sd)
			} else {
				sg = sign(sk, lineageAlgo(sk), sd)
			}
		}
		if l.sig != nil {
			sg = l.sig(i, sg)
		}
		own := lineageAlgo(k)
		if i == len(l.keys)-1 {
			own = 0
		}
		if l.sigAlgo != nil {
			own = l.sigAlgo(i, own)
		}
		fl := uint32(0x1f)
		if l.flags != nil {
			fl = l.flags[i]
		}
		out = append(out, lp(lp(sd), u32(fl), u32(own), lp(sg))...)
		prev = k
	}
	return out
}

func (l *lineageSpec) encode() []byte {
	v := l.version
	if v == 0 {
		v = 1
	}
	return cat(u32(v), l.nodes())
}

func rbytes(r *mrand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

var _ = sha1.New
var _ = sha512.New

// zipPrefixed: a ZIP after other bytes, with offsets counted from the start of the file
func zipPrefixed(ents []zent, comment string, prefix []byte) []byte {
	var b bytes.Buffer
	b.Write(prefix)
	w := zip.NewWriter(&b)
	w.SetOffset(int64(len(prefix)))
	for _, e := range ents {
		m := zip.Deflate
		if e.store {
			m = zip.Store
		}
		f, err := w.CreateHeader(&zip.FileHeader{Name: e.name, Method: m})
		must(err)
		_, err = f.Write(e.data)
		must(err)
	}
	if comment != "" {
		must(w.SetComment(comment))
	}
	must(w.Close())
	return b.Bytes()
}

func le16(v uint16) []byte { return binary.LittleEndian.AppendUint16(nil, v) }
func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
