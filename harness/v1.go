package main

// v1 (JAR) signing and the overall verdict: C07-C11, C15, C22.

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/avast/apkverifier"
	"github.com/avast/apkverifier/signingblock"
)

func init() {
	register(v1Cases, "C07", "C08", "C09", "C10", "C11", "C15", "C22")
}

// DER by hand
func der(tag byte, parts ...[]byte) []byte {
	b := cat(parts...)
	n := len(b)
	switch {
	case n < 128:
		return cat([]byte{tag, byte(n)}, b)
	case n < 256:
		return cat([]byte{tag, 0x81, byte(n)}, b)
	case n < 65536:
		return cat([]byte{tag, 0x82, byte(n >> 8), byte(n)}, b)
	}
	return cat([]byte{tag, 0x83, byte(n >> 16), byte(n >> 8), byte(n)}, b)
}

func oid(s string) []byte {
	var o asn1.ObjectIdentifier
	for _, p := range strings.Split(s, ".") {
		var n int
		fmt.Sscan(p, &n)
		o = append(o, n)
	}
	b, err := asn1.Marshal(o)
	must(err)
	return b
}

const (
	oSha1, oSha224, oSha256, oSha384, oSha512 = "1.3.14.3.2.26", "2.16.840.1.101.3.4.2.4", "2.16.840.1.101.3.4.2.1", "2.16.840.1.101.3.4.2.2", "2.16.840.1.101.3.4.2.3"
	oMd5                                      = "1.2.840.113549.2.5"
	oRsa, oEcPub, oDsa                        = "1.2.840.113549.1.1.1", "1.2.840.10045.2.1", "1.2.840.10040.4.1"
	oData, oSignedData                        = "1.2.840.113549.1.7.1", "1.2.840.113549.1.7.2"
)

var oidHash = map[string]crypto.Hash{oSha1: crypto.SHA1, oSha224: crypto.SHA224, oSha256: crypto.SHA256, oSha384: crypto.SHA384, oSha512: crypto.SHA512, oMd5: crypto.MD5}

func encOid(k *key) string {
	switch k.priv.(type) {
	case *rsa.PrivateKey:
		return oRsa
	case *ecdsa.PrivateKey:
		return oEcPub
	}
	return oDsa
}

func signRaw(k *key, h crypto.Hash, data []byte) []byte {
	d := hashOf(h, data)
	switch p := k.priv.(type) {
	case *rsa.PrivateKey:
		s, err := rsa.SignPKCS1v15(rand.Reader, p, h, d)
		must(err)
		return s
	case *ecdsa.PrivateKey:
		s, err := ecdsa.SignASN1(rand.Reader, p, d)
		must(err)
		return s
	case *dsa.PrivateKey:
		return dsaSign(p, d)
	}
	panic("harness: key type")
}

// p7Signer is one signer info
type p7Signer struct {
	k        *key
	hash     string // oid
	encOid   string // default by key
	attrs    bool
	signedBy *key
	// overrides
	content   []byte // content the attributes' digest is made of
	attrType  string // content type in the attributes
	noType    bool
	noDigest  bool
	sigOver   func(b []byte) []byte // what is signed instead
	sig       func(b []byte) []byte
	cert      *x509.Certificate // issuer and serial from another certificate
	attrsTail bool              // attributes replaced after signing
}

type p7Spec struct {
	signers []*p7Signer
	certs   [][]byte
	ctype   string
}

func (p *p7Spec) encode(sf []byte) []byte {
	var infos, algs, certs []byte
	for _, s := range p.signers {
		h := oidHash[s.hash]
		issuer := s.k.x
		if s.cert != nil {
			issuer = s.cert
		}
		serial, err := asn1.Marshal(issuer.SerialNumber)
		must(err)
		alg := der(0x30, oid(s.hash), []byte{5, 0})
		algs = append(algs, alg...)
		eo := s.encOid
		if eo == "" {
			eo = encOid(s.k)
		}
		content := sf
		if s.content != nil {
			content = s.content
		}
		signed := sf
		var attrs []byte
		if s.attrs {
			at := s.attrType
			if at == "" {
				at = oData
			}
			a1 := der(0x30, oid("1.2.840.113549.1.9.3"), der(0x31, oid(at)))
			a2 := der(0x30, oid("1.2.840.113549.1.9.4"), der(0x31, der(4, hashOf(h, content))))
			if s.noType {
				a1 = nil
			}
			if s.noDigest {
				a2 = nil
			}
			attrs = der(0xa0, a1, a2)
			signed = der(0x31, a1, a2)
			if s.attrsTail {
				a2 = der(0x30, oid("1.2.840.113549.1.9.4"), der(0x31, der(4, hashOf(h, sf))))
				attrs = der(0xa0, a1, a2)
			}
		}
		if s.sigOver != nil {
			signed = s.sigOver(signed)
		}
		sk := s.signedBy
		if sk == nil {
			sk = s.k
		}
		sig := signRaw(sk, h, signed)
		if s.sig != nil {
			sig = s.sig(sig)
		}
		infos = append(infos, der(0x30, der(2, []byte{1}), der(0x30, issuer.RawIssuer, serial), alg, attrs, der(0x30, oid(eo), []byte{5, 0}), der(4, sig))...)
	}
	for _, c := range p.certs {
		certs = append(certs, c...)
	}
	ct := p.ctype
	if ct == "" {
		ct = oData
	}
	sd := der(0x30, der(2, []byte{1}), der(0x31, algs), der(0x30, oid(ct)), der(0xa0, certs), der(0x31, infos))
	return der(0x30, oid(oSignedData), der(0xa0, sd))
}

type kv struct{ k, v string }

type section struct {
	name  string
	attrs []kv
}

func wrapLine(k, v, nl string) string {
	s := k + ": " + v
	var out strings.Builder
	for len(s) > 70 {
		out.WriteString(s[:70] + nl)
		s = " " + s[70:]
	}
	out.WriteString(s + nl)
	return out.String()
}

func renderSection(s section, nl string) string {
	var b strings.Builder
	if s.name != "" {
		b.WriteString(wrapLine("Name", s.name, nl))
	}
	for _, a := range s.attrs {
		b.WriteString(wrapLine(a.k, a.v, nl))
	}
	b.WriteString(nl)
	return b.String()
}

// digest attribute prefix -> hash
var jarAlgs = []struct {
	name string
	h    crypto.Hash
}{{"SHA-512", crypto.SHA512}, {"SHA-384", crypto.SHA384}, {"SHA-256", crypto.SHA256}, {"SHA1", crypto.SHA1}}

func jarHash(name string) crypto.Hash {
	for _, a := range jarAlgs {
		if strings.EqualFold(a.name, name) {
			return a.h
		}
	}
	return 0
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

type v1Signer struct {
	name string // file name without extension
	ext  string
	p7   *p7Spec

	alg       string // digest of the signature file, default SHA-256
	main      []kv   // further main attributes
	createdBy string
	whole     func(d []byte) []byte // digest of the whole manifest; returning nil leaves it out
	mainDig   func(d []byte) []byte
	skip      map[string]bool                    // entries left out
	entry     func(name string, d []byte) []byte // digest of a section
	noVersion bool
	after     func(sf []byte) []byte // changed after signing
	extra     []section
	block     func(b []byte) []byte
}

type v1Spec struct {
	files    []zent
	algs     []string // digest algorithms of the manifest
	nl       string
	skip     map[string]bool                         // files without manifest section
	extra    []section                               // further manifest sections
	entry    func(name, alg string, d []byte) []byte // digest of a file; nil leaves it out
	attrs    func(name string) []kv                  // further attributes of a section
	manifest func(b []byte) []byte                   // changed before anything is digested
	manAfter func(b []byte) []byte                   // changed after signing
	signers  []*v1Signer
	meta     []zent // further files in META-INF, not listed
	comment  string
	prefix   []byte
	adjust   bool
	preBlock func(a *apkLayout) []pair
}

func stdFiles(h *harness) []zent {
	return []zent{
		{name: "AndroidManifest.xml", data: binXml(manSpec{})},
		{name: "classes.dex", data: bytes.Repeat([]byte("dex code "), 300)},
		{name: "res/raw/x.bin", data: []byte("resource"), store: true},
		{name: "assets/" + strings.Repeat("long-name", 12) + ".txt", data: []byte("asset")},
	}
}

func stdSigner(k *key) *v1Signer {
	ext := "RSA"
	if k.name[:2] == "ec" {
		ext = "EC"
	} else if k.name[:2] == "ds" {
		ext = "DSA"
	}
	return &v1Signer{name: "CERT", ext: ext, p7: &p7Spec{signers: []*p7Signer{{k: k, hash: oSha256}}, certs: [][]byte{k.cert}}}
}

func (s *v1Spec) build() []byte {
	nl := s.nl
	if nl == "" {
		nl = "\r\n"
	}
	algs := s.algs
	if algs == nil {
		algs = []string{"SHA-256"}
	}
	mainText := renderSection(section{"", []kv{{"Manifest-Version", "1.0"}, {"Created-By", "1.0 (Android)"}}}, nl)
	var secs []section
	for _, f := range s.files {
		if s.skip[f.name] || strings.HasSuffix(f.name, "/") {
			continue
		}
		sec := section{name: f.name}
		for _, a := range algs {
			d := hashOf(jarHash(a), f.data)
			if s.entry != nil {
				d = s.entry(f.name, a, d)
			}
			if d != nil {
				sec.attrs = append(sec.attrs, kv{a + "-Digest", b64(d)})
			}
		}
		if s.attrs != nil {
			sec.attrs = append(sec.attrs, s.attrs(f.name)...)
		}
		secs = append(secs, sec)
	}
	secs = append(secs, s.extra...)
	man := mainText
	chunks := map[string]string{}
	var names []string
	for _, sec := range secs {
		t := renderSection(sec, nl)
		man += t
		chunks[sec.name] = t
		names = append(names, sec.name)
	}
	mb := []byte(man)
	if s.manifest != nil {
		mb = s.manifest(mb)
	}
	ents := append([]zent(nil), s.files...)
	var sigs []zent
	for _, sg := range s.signers {
		alg := sg.alg
		if alg == "" {
			alg = "SHA-256"
		}
		h := jarHash(alg)
		cb := sg.createdBy
		if cb == "" {
			cb = "1.0 (Android)"
		}
		var m []kv
		if !sg.noVersion {
			m = append(m, kv{"Signature-Version", "1.0"})
		}
		m = append(m, kv{"Created-By", cb})
		md := hashOf(h, []byte(mainText))
		if sg.mainDig != nil {
			md = sg.mainDig(md)
		}
		if md != nil {
			m = append(m, kv{alg + "-Digest-Manifest-Main-Attributes", b64(md)})
		}
		wd := hashOf(h, mb)
		if sg.whole != nil {
			wd = sg.whole(wd)
		}
		if wd != nil {
			m = append(m, kv{alg + "-Digest-Manifest", b64(wd)})
		}
		m = append(m, sg.main...)
		sf := renderSection(section{"", m}, nl)
		for _, n := range names {
			if sg.skip[n] {
				continue
			}
			d := hashOf(h, []byte(chunks[n]))
			if sg.entry != nil {
				d = sg.entry(n, d)
			}
			var kvs []kv
			if d != nil {
				kvs = []kv{{alg + "-Digest", b64(d)}}
			}
			sf += renderSection(section{n, kvs}, nl)
		}
		for _, x := range sg.extra {
			sf += renderSection(x, nl)
		}
		sfb := []byte(sf)
		blk := sg.p7.encode(sfb)
		if sg.block != nil {
			blk = sg.block(blk)
		}
		if sg.after != nil {
			sfb = sg.after(sfb)
		}
		sigs = append(sigs, zent{name: "META-INF/" + sg.name + ".SF", data: sfb}, zent{name: "META-INF/" + sg.name + "." + sg.ext, data: blk})
	}
	if s.manAfter != nil {
		mb = s.manAfter(mb)
	}
	ents = append(ents, zent{name: "META-INF/MANIFEST.MF", data: mb})
	ents = append(ents, sigs...)
	ents = append(ents, s.meta...)
	z := zipBytes(ents, s.comment)
	if s.prefix != nil {
		if s.adjust {
			z = zipPrefixed(ents, s.comment, s.prefix)
		} else {
			z = cat(s.prefix, z)
		}
	}
	if s.preBlock != nil {
		a := splitZip(z, s.comment, false)
		z = a.with(s.preBlock(a)...)
	}
	return z
}

func (h *harness) v1run(prop, label string, f []byte, min, max int32, want string, wantErr error) {
	if h.found {
		return
	}
	in := &fileInput{min, max, b64(f)}
	h.guard("C15", label, in, func() {
		res, err := apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(f), nil, min, max)
		out := "accepted"
		if err != nil {
			out = "rejected"
			if h.evals < 0 {
				fmt.Println(label, err)
			}
		}
		h.note(prop+" "+label, out)
		if want == "reject" && err == nil {
			h.fail(prop, label, "accepted, has to be rejected", in, "")
		}
		if want == "accept" && err != nil {
			h.fail(prop, label, "has to be accepted: "+err.Error(), in, "")
		}
		if wantErr != nil && !errors.Is(err, wantErr) {
			h.fail(prop, label, fmt.Sprintf("expected error %v, got %v", wantErr, err), in, "")
		}
		if errors.Is(err, apkverifier.ErrMixedDexApkFile) && !(len(f) > 4 && string(f[:4]) == "dex\n") {
			h.fail("C08", label, "the mixed DEX error was returned for a file with another magic", in, "")
		}
		_ = res
	})
	if prop == "C15" {
		h.guard("C15", label+" (certificates)", in, func() { apkverifier.ExtractCertsReader(bytes.NewReader(f), nil) })
	}
}

func v1std(h *harness, ks ...*key) *v1Spec {
	s := &v1Spec{files: stdFiles(h)}
	for i, k := range ks {
		g := stdSigner(k)
		if i > 0 {
			g.name = fmt.Sprintf("CERT%d", i)
		}
		s.signers = append(s.signers, g)
	}
	return s
}

func v1Cases(h *harness) {
	switch h.prop {
	case "C07":
		verdictCases(h)
	case "C08":
		dexCases(h)
	case "C09":
		coverCases(h)
	case "C10":
		authCases(h)
	case "C11":
		stripCases(h)
	case "C22":
		digestChoice(h)
	case "C15":
		// everything above, then damage
		verdictCases(h)
		coverCases(h)
		authCases(h)
		stripCases(h)
		v1Fuzz(h)
	}
}

// ---- C09

func coverCases(h *harness) {
	ks := []*key{rsaKeys[0], ecKeys[0], dsaKs[1], dsaKs[0]}
	for round := 0; round < 40 && h.time(); round++ {
		k := ks[round%len(ks)]
		k2 := rsaKeys[1+round%3]
		mk := func(ks ...*key) *v1Spec { return v1std(h, ks...) }
		names := []string{"AndroidManifest.xml", "classes.dex", "res/raw/x.bin", stdFiles(h)[3].name}
		victim := names[round%len(names)]
		min := []int32{9, 14, 18, 21}[round%4]
		max := []int32{23, anyMax, 30}[round%3]
		run := func(label string, s *v1Spec, want string) {
			if h.time() {
				h.v1run("C09", label, s.build(), min, max, want, nil)
			}
		}
		run("valid", mk(k), "accept")
		run("valid, two signers", mk(k, k2), "accept")
		change := func(s *v1Spec, f func(z *zent)) *v1Spec {
			// contents differ from what the manifest says
			ent := map[string][]byte{}
			for i := range s.files {
				ent[s.files[i].name] = s.files[i].data
			}
			s.entry = func(n, a string, d []byte) []byte { return hashOf(jarHash(a), ent[n]) }
			for i := range s.files {
				if s.files[i].name == victim {
					f(&s.files[i])
				}
			}
			return s
		}
		if victim != "AndroidManifest.xml" {
			run("a file changed", change(mk(k), func(z *zent) { z.data = flip(z.data, round) }), "reject")
			run("a file extended", change(mk(k, k2), func(z *zent) { z.data = append(z.data[:len(z.data):len(z.data)], 0) }), "reject")
			run("a file emptied", change(mk(k), func(z *zent) { z.data = nil }), "reject")
		} else {
			run("the application manifest changed", change(mk(k), func(z *zent) { z.data = append(z.data[:len(z.data):len(z.data)], ' ') }), "reject")
		}
		// digest attribute truncated, extended, empty
		s := mk(k)
		s.entry = func(n, a string, d []byte) []byte {
			if n == victim {
				return d[:len(d)-1-round%5]
			}
			return d
		}
		run("a short digest", s, "reject")
		s = mk(k)
		s.entry = func(n, a string, d []byte) []byte {
			if n == victim {
				return []byte{}
			}
			return d
		}
		run("an empty digest", s, "reject")
		s = mk(k)
		s.entry = func(n, a string, d []byte) []byte {
			if n == victim {
				return nil
			}
			return d
		}
		run("no digest for a file", s, "reject")
		s = mk(k)
		s.skip = map[string]bool{victim: true}
		run("a file not in the manifest", s, "reject")
		s = mk(k, k2)
		s.skip = map[string]bool{victim: true}
		run("a file not in the manifest, two signers", s, "reject")
		s = mk(k)
		s.files = append(s.files, zent{name: "BundleConfig.pb", data: []byte("b")})
		run("bundle with manifest", s, "accept")
		s = mk(k)
		s.files = append(s.files, zent{name: "BundleConfig.pb", data: []byte("b")})
		s.skip = map[string]bool{victim: true}
		run("bundle, a file not in the manifest", s, "reject")
		s = mk(k)
		s.files = append(s.files[1:], zent{name: "BundleConfig.pb", data: []byte("b")})
		run("bundle without application manifest", s, "accept")
		s = mk(k)
		s.files = s.files[1:]
		run("no application manifest", s, "reject")
		s = mk(k)
		s.files = append(s.files, zent{name: "lib/", store: true}, zent{name: "META-INF/services/x", data: []byte("unsigned")})
		s.skip = map[string]bool{"META-INF/services/x": true}
		run("directory and file in META-INF", s, "accept")
		for _, n := range []string{"meta-inf/x", "META-INFX/x", "x/META-INF/y", "META-INF.txt", "androidmanifest.xml", "AndroidManifest.xml.bak", " AndroidManifest.xml", "a/"} {
			s = mk(k)
			s.files = append(s.files, zent{name: n, data: []byte("unsigned")})
			s.skip = map[string]bool{n: true}
			w := "reject"
			if strings.HasSuffix(n, "/") {
				s.files[len(s.files)-1].data = nil
				w = "accept"
			}
			run("unsigned file "+n, s, w)
		}
		s = mk(k)
		s.extra = []section{{"gone.txt", []kv{{"SHA-256-Digest", b64(hashOf(crypto.SHA256, nil))}}}}
		run("a listed file is missing", s, "reject")
		// signature files that do not cover everything
		s = mk(k)
		s.signers[0].skip = map[string]bool{victim: true}
		run("a file not in the signature file", s, "reject")
		s = mk(k)
		s.algs = []string{"SHA1", "SHA-256"}
		s.entry = func(n, a string, d []byte) []byte {
			if n == victim && a == s.algs[round%2] && (a != "SHA1" || min < 18) {
				return flip(d, round)
			}
			return d
		}
		if max >= 18 && (round%2 == 1 || min < 18) {
			run("one of two digests wrong", s, "reject")
		}
		s = mk(k, k2)
		s.signers[round%2].skip = map[string]bool{victim: true}
		run("a file missing in one of two signature files", s, "reject")
		s = mk(k, k2)
		s.signers[0].skip = map[string]bool{victim: true}
		s.signers[1].skip = map[string]bool{names[(round+1)%4]: true}
		run("each signature file misses another file", s, "reject")
		s = mk(k, k2)
		s.signers[0].skip = map[string]bool{victim: true}
		s.signers[1].skip = map[string]bool{victim: true}
		run("a file missing in both signature files", s, "reject")
		s = mk(k, k2, rsaKeys[2+round%2])
		s.signers[1+round%2].skip = map[string]bool{victim: true}
		run("a file missing in one of three signature files", s, "reject")
		s = mk(k, k2)
		all := map[string]bool{}
		for i, n := range names {
			all[n] = true
			if i%2 == round%2 {
				s.signers[0].skip = all
			}
		}
		sk0, sk1 := map[string]bool{}, map[string]bool{}
		for i, n := range names {
			if i%2 == 0 {
				sk0[n] = true
			} else {
				sk1[n] = true
			}
		}
		s.signers[0].skip, s.signers[1].skip = sk0, sk1
		run("files divided between two signature files", s, "reject")
		// a signature file that lists further files
		s = mk(k)
		s.signers[0].whole = func([]byte) []byte { return nil }
		s.signers[0].extra = []section{{"gone.txt", []kv{{"SHA-256-Digest", b64(hashOf(crypto.SHA256, nil))}}}}
		run("the signature file lists more, no digest of the whole manifest", s, "reject")
	}
}

// ---- C10

func authCases(h *harness) {
	for round := 0; round < 30 && h.time(); round++ {
		ks := []*key{rsaKeys[0], ecKeys[0], dsaKs[1], rsaKeys[1], ecKeys[1]}
		k := ks[round%len(ks)]
		o := otherKey(k)
		min := []int32{14, 18, 24}[round%3]
		max := []int32{anyMax, 23, 28}[(round/3)%3]
		if min > max {
			max = anyMax
		}
		run := func(label string, want string, f func(s *v1Spec, g *v1Signer, p *p7Signer)) {
			for _, at := range []bool{false, true} {
				if !h.time() {
					return
				}
				s := v1std(h, k)
				g := s.signers[0]
				p := g.p7.signers[0]
				p.attrs = at
				w := want
				f(s, g, p)
				if strings.HasPrefix(want, "attrs:") {
					w = want[6:]
					if !at {
						continue
					}
				}
				h.v1run("C10", fmt.Sprintf("%s (attributes %v)", label, at), s.build(), min, max, w, nil)
			}
		}
		run("valid", "accept", func(s *v1Spec, g *v1Signer, p *p7Signer) {})
		run("signature file changed", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.after = func(b []byte) []byte { return append(append([]byte(nil), b...), "Name: x\r\n\r\n"...) }
		})
		run("signature file changed at its start", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.after = func(b []byte) []byte { return bytes.Replace(b, []byte("1.0 (Android)"), []byte("1.1 (Android)"), 1) }
		})
		run("signature broken", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			p.sig = func(b []byte) []byte { return flip(b, -3) }
		})
		run("signature empty", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.sig = func(b []byte) []byte { return nil } })
		run("signature of zeros", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			p.sig = func(b []byte) []byte { return []byte{0x30, 6, 2, 1, 0, 2, 1, 0} }
		})
		run("signature over something else", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			p.sigOver = func(b []byte) []byte { return append(append([]byte(nil), b...), 'x') }
		})
		run("signature over an empty file", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			p.sigOver = func(b []byte) []byte { return nil }
		})
		if o != nil {
			run("signed by another key", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.signedBy = o })
			run("signed by another key, whose certificate is included", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
				p.signedBy = o
				g.p7.certs = append(g.p7.certs, o.cert)
			})
			run("signed by another key, whose certificate is first", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
				p.signedBy = o
				g.p7.certs = append([][]byte{o.cert}, g.p7.certs...)
			})
			run("certificate missing", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { g.p7.certs = [][]byte{o.cert} })
			run("certificates in another order", "accept", func(s *v1Spec, g *v1Signer, p *p7Signer) {
				g.p7.certs = append([][]byte{o.cert}, g.p7.certs...)
			})
		}
		run("certificate of another key type", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			x := rsaKeys[3]
			if k.name[:2] == "rs" {
				x = ecKeys[3]
			}
			p.cert = x.x
			g.p7.certs = [][]byte{x.cert}
		})
		run("no signers", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { g.p7.signers = nil })
		run("attributes digest another file", "attrs:reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.content = []byte("another file") })
		run("attributes digest an empty file", "attrs:reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.content = []byte{} })
		run("attributes replaced after signing", "attrs:reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			p.content = []byte("another file")
			p.attrsTail = true
		})
		run("signature over the file in spite of attributes", "attrs:reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			sf := []byte(nil)
			_ = sf
			p.sigOver = func(b []byte) []byte { return b[2:] }
		})
		run("no digest attribute", "attrs:reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.noDigest = true })
		if max >= 24 {
			run("another content type", "attrs:reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.attrType = oSignedData })
			run("no content type", "attrs:reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.noType = true })
		}
		// what the signature file says about the manifest
		run("digest of the whole manifest wrong, sections right", "", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.whole = func(d []byte) []byte { return flip(d, 0) }
		})
		names := stdFiles(h)
		victim := names[round%len(names)].name
		run("whole and one section wrong", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.whole = func(d []byte) []byte { return flip(d, -1) }
			g.entry = func(n string, d []byte) []byte {
				if n == victim {
					return flip(d, round)
				}
				return d
			}
		})
		run("no digest of the whole manifest, one section wrong", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.whole = func(d []byte) []byte { return nil }
			g.entry = func(n string, d []byte) []byte {
				if n == victim {
					return flip(d, round)
				}
				return d
			}
		})
		run("no digest of the whole manifest, one section digest empty", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.whole = func(d []byte) []byte { return nil }
			g.entry = func(n string, d []byte) []byte {
				if n == victim {
					return []byte{}
				}
				return d
			}
		})
		run("whole wrong, one section without digest", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.whole = func(d []byte) []byte { return flip(d, -1) }
			g.entry = func(n string, d []byte) []byte {
				if n == victim {
					return nil
				}
				return d
			}
		})
		run("manifest changed after signing", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			// an attribute of one section is added: neither the whole nor the section match
			s.manAfter = func(b []byte) []byte {
				i := bytes.Index(b, []byte("Name: "+victim[:5]))
				j := i + bytes.Index(b[i:], []byte("SHA-256-Digest"))
				return cat(b[:j], []byte("X: y\r\n"), b[j:])
			}
		})
		run("main section of the manifest changed after signing", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			s.manAfter = func(b []byte) []byte { return bytes.Replace(b, []byte("Created-By"), []byte("Created-bY"), 1) }
		})
		run("digest of the main section wrong", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.mainDig = func(d []byte) []byte { return flip(d, 2) }
		})
		run("no digest of the main section", "accept", func(s *v1Spec, g *v1Signer, p *p7Signer) {
			g.mainDig = func(d []byte) []byte { return nil }
		})
		run("no version in the signature file", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) { g.noVersion = true })
		// two signers infos
		if o != nil {
			run("second signer info broken", "", func(s *v1Spec, g *v1Signer, p *p7Signer) {
				g.p7.signers = append(g.p7.signers, &p7Signer{k: o, hash: oSha256, sig: func(b []byte) []byte { return flip(b, -3) }})
				g.p7.certs = append(g.p7.certs, o.cert)
			})
			run("both signer infos broken", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
				p.sig = func(b []byte) []byte { return flip(b, -3) }
				g.p7.signers = append(g.p7.signers, &p7Signer{k: o, hash: oSha256, sig: func(b []byte) []byte { return flip(b, -3) }})
				g.p7.certs = append(g.p7.certs, o.cert)
			})
			if min < 24 {
				run("first signer info broken, platforms before 24", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
					p.sig = func(b []byte) []byte { return flip(b, -3) }
					g.p7.signers = append(g.p7.signers, &p7Signer{k: o, hash: oSha256})
					g.p7.certs = append(g.p7.certs, o.cert)
				})
			}
		}
		// digest and signature algorithm combinations
		for _, hs := range []string{oSha1, oSha224, oSha256, oSha384, oSha512, oMd5} {
			run("digest "+hs, "", func(s *v1Spec, g *v1Signer, p *p7Signer) { p.hash = hs })
			run("digest "+hs+", signature broken", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
				p.hash = hs
				p.sig = func(b []byte) []byte { return flip(b, -3) }
			})
			run("digest "+hs+", signature file changed", "reject", func(s *v1Spec, g *v1Signer, p *p7Signer) {
				p.hash = hs
				g.after = func(b []byte) []byte { return append(append([]byte(nil), b...), "Name: x\r\n\r\n"...) }
			})
		}
		// the certificate chain that is reported
		h.chainCase(k)
	}
}

// chainCase: the reported chains start with certificates that signed
func (h *harness) chainCase(k *key) {
	o := otherKey(k)
	if o == nil || !h.time() {
		return
	}
	s := v1std(h, k)
	s.signers[0].p7.certs = append([][]byte{o.cert}, s.signers[0].p7.certs...)
	f := s.build()
	res, err := apkverifier.VerifyWithSdkVersionReader(bytes.NewReader(f), nil, 14, 23)
	if err == nil && (len(res.SignerCerts) != 1 || len(res.SignerCerts[0]) == 0 || !bytes.Equal(res.SignerCerts[0][0].Raw, k.cert)) {
		h.fail("C10", "reported chain", "the first reported certificate is not the signer's", &fileInput{14, 23, b64(f)}, "")
	}
	h.note("C10 reported chain", fmt.Sprint(err == nil))
}

// ---- C11

func stripCases(h *harness) {
	type tc struct {
		v     string
		strip bool
	}
	for _, t := range []tc{{"2", true}, {"2, 3", true}, {"3, 2", true}, {"3,2", true}, {" 2 ", true}, {"3", false}, {"", false}, {"22", false}, {"12", false}, {"2,", true}, {",2", true},
		{",,2", true}, {"x, 2", true}, {"x", false}, {"3 , 4 ,2", true}, {"99999999999, 2", true}, {"-2", false}, {"02", true}, {"2x", false}, {"1,3,31,2,5", true}, {"3;2", false}, {"2\t", true}} {
		for _, sp := range [][2]int32{{14, anyMax}, {14, 23}, {14, 24}, {24, anyMax}, {1, 28}, {21, 22}} {
			for signers := 1; signers <= 2; signers++ {
				if !h.time() {
					return
				}
				for _, attrName := range []string{"X-Android-APK-Signed", "x-android-apk-signed"} {
					s := v1std(h, rsaKeys[0])
					if signers == 2 {
						s = v1std(h, rsaKeys[0], ecKeys[0])
					}
					s.signers[signers-1].main = []kv{{attrName, t.v}}
					want := "accept"
					if t.strip && sp[1] >= 24 {
						want = "reject"
					}
					lbl := fmt.Sprintf("%s: %q, %v, %d signers", attrName, t.v, sp, signers)
					if want == "accept" && (strings.TrimSpace(t.v) == "" || t.v == "-2") {
						want = ""
					}
					h.v1run("C11", lbl, s.build(), sp[0], sp[1], want, nil)
					if sp[0] < 24 {
						// the same with a v2 block: valid
						s.preBlock = func(a *apkLayout) []pair { return []pair{p2(a, v2s(rsaKeys[0], aPk256))} }
						h.v1run("C11", lbl+", v2 present", s.build(), sp[0], sp[1], "accept", nil)
						if want == "reject" {
							// a block without v2
							s.preBlock = func(a *apkLayout) []pair { return []pair{{0x777, []byte{1}}} }
							h.v1run("C11", lbl+", block without v2", s.build(), sp[0], sp[1], "reject", nil)
						}
					}
				}
			}
		}
	}
}

// ---- C07, C08

type manSpec struct{ sandbox, target, min int }

func (m manSpec) xml() []byte { return binXml(m) }

// binXml is the manifest in Android's binary form
func binXml(m manSpec) []byte {
	const none = 0xffffffff
	type attr struct {
		name uint32
		typ  byte
		data uint32
		raw  uint32
	}
	strs := []string{"targetSandboxVersion", "minSdkVersion", "targetSdkVersion", "manifest", "uses-sdk", "http://schemas.android.com/apk/res/android", "package", "a.b"}
	chunk := func(id, hl uint16, body []byte) []byte {
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
		return cat(le16(id), le16(hl), le32(uint32(8+len(body))), body)
	}
	var offs, data []byte
	for _, s := range strs {
		offs = append(offs, le32(uint32(len(data)))...)
		data = append(data, byte(len(s)), byte(len(s)))
		data = append(data, s...)
		data = append(data, 0)
	}
	pool := chunk(1, 28, cat(le32(uint32(len(strs))), le32(0), le32(0x100), le32(uint32(28+len(offs))), le32(0), offs, data))
	ids := chunk(0x180, 8, cat(le32(0x0101054c), le32(0x0101020c), le32(0x01010270)))
	start := func(name uint32, as []attr) []byte {
		b := cat(le32(1), le32(none), le32(none), le32(name), le16(20), le16(20), le16(uint16(len(as))), le16(0), le16(0), le16(0))
		for _, a := range as {
			ns := uint32(5)
			if a.name > 2 {
				ns = none
			}
			b = cat(b, le32(ns), le32(a.name), le32(a.raw), le16(8), []byte{0, a.typ}, le32(a.data))
		}
		return chunk(0x102, 16, b)
	}
	end := func(name uint32) []byte {
		return chunk(0x103, 16, cat(le32(1), le32(none), le32(none), le32(name)))
	}
	as := []attr{{6, 3, 7, 7}}
	if m.sandbox > 0 {
		as = append(as, attr{0, 0x10, uint32(m.sandbox), none})
	}
	body := cat(pool, ids, start(3, as))
	if m.min > 0 || m.target > 0 {
		var us []attr
		if m.min > 0 {
			us = append(us, attr{1, 0x10, uint32(m.min), none})
		}
		if m.target > 0 {
			us = append(us, attr{2, 0x10, uint32(m.target), none})
		}
		body = cat(body, start(4, us), end(4))
	}
	return chunk(3, 8, cat(body, end(3)))
}

// verdict: what the documented composition says. block: 0 absent, 1 valid, 2 broken; v1: 0 absent 1 valid 2 broken
func verdict(block, v1 int, m manSpec, min, max int32) bool {
	if min == -1 {
		min = 1
		if m.min > 0 {
			min = int32(m.min)
		}
	}
	if min > max {
		return false
	}
	scheme := 1
	if max >= 24 {
		if block == 2 {
			return false
		}
		if block == 1 {
			scheme = 2
			if min >= 24 {
				return true
			}
		}
	}
	if max >= 26 && m.sandbox > 1 && scheme < 2 {
		return false
	}
	if max >= 26 && m.target >= 30 && int64(max) >= int64(m.target) && scheme < 2 {
		return false
	}
	return v1 == 1
}

func verdictCases(h *harness) {
	mans := []manSpec{{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 25, 21}, {0, 29, 14}, {0, 30, 14}, {0, 31, 24}, {2, 30, 28}, {0, 30, 30}, {1, 33, 0}}
	type combo struct{ b, v int }
	var combos []combo
	for b := 0; b < 3; b++ {
		for v := 0; v < 3; v++ {
			combos = append(combos, combo{b, v})
		}
	}
	for _, m := range mans {
		for _, c := range combos {
			s := v1std(h, rsaKeys[0])
			// digests that every platform knows
			s.algs = []string{"SHA1"}
			s.signers[0].alg = "SHA1"
			s.files[0].data = m.xml()
			switch c.v {
			case 0:
				s.signers = nil
			case 2:
				s.signers[0].p7.signers[0].sig = func(b []byte) []byte { return flip(b, -3) }
			}
			switch c.b {
			case 1:
				s.preBlock = func(a *apkLayout) []pair { return []pair{p2(a, v2s(rsaKeys[0], aPk256))} }
			case 2:
				s.preBlock = func(a *apkLayout) []pair {
					g := v2s(rsaKeys[0], aPk256)
					g.sig = func(al uint32, b, sd []byte) []byte { return flip(b, 5) }
					return []pair{p2(a, g)}
				}
			}
			f := s.build()
			for _, sp := range [][2]int32{{-1, anyMax}, {14, anyMax}, {24, anyMax}, {1, 23}, {1, 24}, {23, 25}, {24, 26}, {23, 26}, {14, 29}, {14, 30}, {28, 27}, {30, 14}, {24, 24}, {23, 23}, {-1, 23}, {-1, 13}, {26, 29}, {30, 30}, {24, 31}, {1, 1}} {
				if !h.time() {
					return
				}
				want := "reject"
				if verdict(c.b, c.v, m, sp[0], sp[1]) {
					want = "accept"
				}
				h.v1run("C07", fmt.Sprintf("block %d v1 %d manifest %v requested %v", c.b, c.v, m, sp), f, sp[0], sp[1], want, nil)
			}
		}
	}
	h.noBlockCases()
}

// a signing block that is present but has no known scheme
func (h *harness) noBlockCases() {
	for _, sp := range [][2]int32{{14, anyMax}, {24, anyMax}, {14, 23}, {28, 30}} {
		for v := 1; v <= 2; v++ {
			if !h.time() {
				return
			}
			s := v1std(h, rsaKeys[0])
			want := "accept"
			if v == 2 {
				want = "reject"
				s.signers[0].p7.signers[0].sig = func(b []byte) []byte { return flip(b, -3) }
			}
			s.preBlock = func(a *apkLayout) []pair { return []pair{{0x504b4453, []byte("x")}} }
			h.v1run("C07", fmt.Sprintf("block without schemes, v1 %d, %v", v, sp), s.build(), sp[0], sp[1], want, nil)
		}
	}
}

func dexCases(h *harness) {
	dex := cat([]byte("dex\n035\x00"), bytes.Repeat([]byte{7}, 104))
	for _, adjust := range []bool{false, true} {
		for _, pre := range [][]byte{nil, dex, []byte("dex\n"), []byte("dex\n\n"), []byte("dey\n035\x00...."), []byte("dex\r035\x00...."), []byte("Dex\n035\x00"), []byte("\ndex\n035"), []byte("xedn\n\x00"), cat([]byte{0}, dex), []byte("ELF_____"), []byte("\nxed\nxed")} {
			for _, sp := range [][2]int32{{-1, anyMax}, {14, anyMax}, {14, 23}, {24, anyMax}, {1, 28}} {
				for v := 0; v < 4; v++ {
					if !h.time() {
						return
					}
					s := v1std(h, rsaKeys[0])
					s.prefix, s.adjust = pre, adjust
					isDex := len(pre) >= 4 && string(pre[:4]) == "dex\n"
					label := fmt.Sprintf("prefix %q adjusted %v requested %v", pre, adjust, sp)
					if len(label) > 120 {
						label = fmt.Sprintf("DEX of %d bytes adjusted %v requested %v", len(pre), adjust, sp)
					}
					var f []byte
					switch v {
					case 0:
						f = s.build()
						if pre == nil || !isDex {
							h.v1run("C08", label, f, sp[0], sp[1], "", nil)
						} else {
							h.v1run("C08", label, f, sp[0], sp[1], "reject", apkverifier.ErrMixedDexApkFile)
						}
					case 1:
						// v1 broken: never accepted
						s.signers[0].p7.signers[0].sig = func(b []byte) []byte { return flip(b, -3) }
						h.v1run("C08", label+", v1 broken", s.build(), sp[0], sp[1], "reject", nil)
					case 2:
						// with a valid v2 block over everything
						if !adjust || pre == nil {
							continue
						}
						s.preBlock = func(a *apkLayout) []pair { return []pair{p2(a, v2s(rsaKeys[0], aPk256))} }
						if isDex && sp[0] < 24 {
							h.v1run("C08", label+", v2 valid", s.build(), sp[0], sp[1], "reject", apkverifier.ErrMixedDexApkFile)
						} else {
							h.v1run("C08", label+", v2 valid", s.build(), sp[0], sp[1], "", nil)
						}
					case 3:
						s.signers = append(s.signers, stdSigner(ecKeys[0]))
						s.signers[1].name = "B"
						if isDex {
							h.v1run("C08", label+", two signers", s.build(), sp[0], sp[1], "reject", apkverifier.ErrMixedDexApkFile)
						} else {
							h.v1run("C08", label+", two signers", s.build(), sp[0], sp[1], "", nil)
						}
					}
				}
			}
		}
	}
}

// ---- C22

// chosen: the digests that are verified for an entry, by the rule of the platform range. attrs: lower case names present
func chosen(present map[string]bool, list string, min, max int32) []string {
	var r []string
	if min < 18 {
		l := strings.ToLower(list)
		if l == "" {
			l = "sha sha1"
		}
		for _, a := range strings.Split(l, " ") {
			if (min >= 9 || a != "sha-384" && a != "sha-512") && present[a] {
				r = append(r, a)
			}
		}
	}
	if max >= 18 {
		for _, a := range []string{"sha-512", "sha-384", "sha-256", "sha1"} {
			if present[a] {
				r = append(r, a)
				break
			}
		}
	}
	return r
}

func digestChoice(h *harness) {
	lists := []string{"", "", "", "SHA-256", "SHA1", "SHA1 SHA-256", "SHA-512 SHA-384 SHA-256 SHA1", "SHA-384", "SHA-512", "sha-256 foo", "foo", "SHA-512 SHA1", "md5 SHA-256"}
	spsList := [][2]int32{{1, 17}, {1, anyMax}, {8, 30}, {9, 30}, {9, 17}, {17, 18}, {18, 18}, {18, 30}, {14, 23}, {21, 23}, {8, 17}, {8, 8}, {17, 17}, {1, 18}, {24, 28}}
	for h.time() {
		sp := spsList[h.r.Intn(len(spsList))]
		list := lists[h.r.Intn(len(lists))]
		// which algorithms are present and right
		present, right := map[string]bool{}, map[string]bool{}
		var order []string
		for _, i := range h.r.Perm(4) {
			a := strings.ToLower(jarAlgs[i].name)
			if h.r.Intn(2) == 0 {
				present[a] = true
				right[a] = h.r.Intn(4) != 0
				order = append(order, a)
			}
		}
		extra := h.r.Intn(5) == 0 // an attribute of an algorithm nobody knows
		if extra {
			present["md5"] = true
			present["foo"] = true
		}
		sel := chosen(present, list, sp[0], sp[1])
		want := "accept"
		if len(sel) == 0 {
			want = "reject"
		}
		for _, a := range sel {
			if !right[a] {
				want = "reject"
			}
		}
		s := v1std(h, rsaKeys[0])
		target := s.files[1].name
		s.algs = []string{"SHA1", "SHA-256", "SHA-384", "SHA-512"}
		s.entry = func(n, alg string, d []byte) []byte {
			if n == target {
				return nil
			}
			return d
		}
		s.attrs = func(n string) []kv {
			if n != target {
				return nil
			}
			var r []kv
			if list != "" {
				r = append(r, kv{"Digest-Algorithms", list})
			}
			for _, a := range order {
				d := hashOf(jarHash(a), s.files[1].data)
				if !right[a] {
					d = flip(d, h.r.Intn(len(d)))
				}
				r = append(r, kv{strings.ToUpper(a) + "-Digest", b64(d)})
			}
			if extra {
				r = append(r, kv{"foo-Digest", b64([]byte{1})}, kv{"MD5-Digest", b64([]byte{2})})
			}
			return r
		}
		s.signers[0].alg = "SHA1"
		s.signers[0].p7.signers[0].hash = oSha1
		h.v1run("C22", fmt.Sprintf("digests %v (right %v) algorithms %q requested %v, chosen %v", order, right, list, sp, sel), s.build(), sp[0], sp[1], want, nil)
	}
}

// ---- C15

func v1Fuzz(h *harness) {
	for h.time() {
		ks := []*key{rsaKeys[0], ecKeys[0], dsaKs[0], ecKeys[4]}
		k := ks[h.r.Intn(len(ks))]
		s := v1std(h, k)
		g := s.signers[0]
		p := g.p7.signers[0]
		p.attrs = h.r.Intn(2) == 0
		label := ""
		damage := func(b []byte) []byte {
			switch h.r.Intn(6) {
			case 0:
				return b[:h.r.Intn(len(b))]
			case 1:
				return flip(b, h.r.Intn(len(b)))
			case 2:
				c := append([]byte(nil), b...)
				c[h.r.Intn(len(c))] = []byte{0, 1, 0x7f, 0x80, 0x81, 0x84, 0x88, 0xff, 0x30, 0x1f, 0x3f, '\n', '\r', ':', ' '}[h.r.Intn(15)]
				return c
			case 3:
				i := h.r.Intn(len(b))
				return cat(b[:i], rbytes(h.r, 1+h.r.Intn(5)), b[i:])
			case 4:
				i := h.r.Intn(len(b))
				j := i + h.r.Intn(len(b)-i)
				return cat(b[:i], b[j:])
			default:
				c := append([]byte(nil), b...)
				for n := 0; n < 4; n++ {
					c[h.r.Intn(len(c))] ^= byte(1 << uint(h.r.Intn(8)))
				}
				return c
			}
		}
		switch h.r.Intn(7) {
		case 0:
			label = "damaged signature block"
			g.block = damage
		case 1:
			label = "damaged signature file"
			g.after = damage
		case 2:
			label = "damaged signature file, signed"
			x := g.p7
			orig := s.manifest
			_ = orig
			g.after = damage
			g.block = func(b []byte) []byte { return b }
			_ = x
		case 3:
			label = "damaged manifest"
			s.manifest = damage
		case 4:
			label = "damaged manifest after signing"
			s.manAfter = damage
		case 5:
			label = "random signature value"
			p.sig = func(b []byte) []byte { return rbytes(h.r, h.r.Intn(80)) }
		case 6:
			label = "random algorithm"
			p.hash = []string{oSha1, oSha224, oSha256, oSha384, oSha512, oMd5}[h.r.Intn(6)]
			p.encOid = []string{oRsa, oEcPub, oDsa, "1.2.840.113549.1.1.4", "1.2.840.113549.1.1.11", "1.2.840.10045.4.3.2", "2.16.840.1.101.3.4.3.1", "1.2.3.4"}[h.r.Intn(8)]
		}
		h.v1run("C15", label, s.build(), []int32{1, 14, 24}[h.r.Intn(3)], []int32{23, anyMax}[h.r.Intn(2)], "", nil)
	}
}

var _ = hex.EncodeToString
var _ = big.NewInt
var _ = signingblock.IsSigningBlockNotFoundError
