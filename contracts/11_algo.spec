// signingblock/signer.go : algorithm tables

def algoSupported(a) = a == 0x101 || a == 0x102 || a == 0x103 || a == 0x104 || a == 0x201 || a == 0x202 || a == 0x301 || a == 0x421 || a == 0x423 || a == 0x425
// content digest of a signature algorithm: 1 chunked SHA-256, 2 chunked SHA-512, 3 verity
def algoDigest(a) = ite(a == 0x101 || a == 0x103 || a == 0x201 || a == 0x301, 1, ite(a == 0x102 || a == 0x104 || a == 0x202, 2, 3))
// strength order of content digests: chunked SHA-256 < verity < chunked SHA-512
def digestRank(d) = ite(d == 1, 0, ite(d == 3, 1, 2))
def algoBetter(a, b) = digestRank(algoDigest(a)) > digestRank(algoDigest(b))
def digestHash(d) = ite(d == 2, 7, 5)

func signingblock.(SignatureAlgorithm).isSupported(algo) (r)
  panics C14 C16
  ensures iff(r, algoSupported(algo))

func signingblock.(SignatureAlgorithm).getDigestType(algo) (d)
  panics C14 C16
  requires algoSupported(algo)
  ensures d == algoDigest(algo)

func signingblock.(contentDigest).Hash(c) (h)
  panics C14 C16
  requires 1 <= c && c <= 4
  ensures h == ite(c == 2, 7, 5)

func signingblock.(SignatureAlgorithm).getMinSdkVersion(algo) (r)
  panics C14 C16
  ensures r == ite(algo == 0x102 || algo == 0x103 || algo == 0x104 || algo == 0x201 || algo == 0x202 || algo == 0x301, 24,
      ite(algo == 0x421 || algo == 0x423 || algo == 0x425, 28, 2147483647))

func signingblock.(SignatureAlgorithm).getMinSdkVersionJca(algo) (r)
  panics C14 C16
  ensures r == ite(algo == 0x101 || algo == 0x102, 23, ite(algo == 0x103 || algo == 0x104 || algo == 0x301 || algo == 0x421 || algo == 0x425, 1,
      ite(algo == 0x201 || algo == 0x202 || algo == 0x423, 11, 2147483647)))

func signingblock.compareAlgos(a, b) (r)
  panics C14 C16
  requires algoSupported(a) && algoSupported(b)
  ensures iff(r > 0, algoBetter(a, b))
  ensures iff(r == 0, digestRank(algoDigest(a)) == digestRank(algoDigest(b)))

// sig is a valid signature over data by the key encoded in key, with Android signature algorithm algo
ghost SigOK(key blob, algo int, data blob, sig blob) bool
def dsaTrunc(h, key) = ite(bitlen(dsaQ(key)) / 8 < len(h), h[0:bitlen(dsaQ(key)) / 8], h)
axiom sigPss256 (k blob, d blob, s blob) {PSSOK(k, 5, H(5, d), s, 32)} : imp(PSSOK(k, 5, H(5, d), s, 32), SigOK(k, 0x101, d, s))
axiom sigPss512 (k blob, d blob, s blob) {PSSOK(k, 7, H(7, d), s, 64)} : imp(PSSOK(k, 7, H(7, d), s, 64), SigOK(k, 0x102, d, s))
axiom sigPk256 (k blob, d blob, s blob) {PKCS1OK(k, 5, H(5, d), s)} : imp(PKCS1OK(k, 5, H(5, d), s), SigOK(k, 0x103, d, s) && SigOK(k, 0x421, d, s))
axiom sigPk512 (k blob, d blob, s blob) {PKCS1OK(k, 7, H(7, d), s)} : imp(PKCS1OK(k, 7, H(7, d), s), SigOK(k, 0x104, d, s))
axiom sigEc256 (k blob, d blob, s blob) {ECDSAOK(k, H(5, d), derInt(s, 0), derInt(s, 1))} : imp(ECDSAOK(k, H(5, d), derInt(s, 0), derInt(s, 1)), SigOK(k, 0x201, d, s) && SigOK(k, 0x423, d, s))
axiom sigEc512 (k blob, d blob, s blob) {ECDSAOK(k, H(7, d), derInt(s, 0), derInt(s, 1))} : imp(ECDSAOK(k, H(7, d), derInt(s, 0), derInt(s, 1)), SigOK(k, 0x202, d, s))
axiom sigDsa256 (k blob, d blob, s blob, t blob) {DSAOK(k, t, derInt(s, 0), derInt(s, 1)); H(5, d)} : imp(DSAOK(k, t, derInt(s, 0), derInt(s, 1)) && t == dsaTrunc(H(5, d), k), SigOK(k, 0x301, d, s) && SigOK(k, 0x425, d, s))

func signingblock.verifySignature(publicKey, algo, signedDataBytes, signature) (err)
  panics C14 C16
  requires keyOK(publicKey)
  cases err == nil
  ensures [C02,C06,C16] valid: imp(err == nil, SigOK(g(publicKey, keyb), algo, content(signedDataBytes), content(signature)))
