// Assumed contracts of libraries (trusted) and the vocabulary of the contracts.

// ---- cryptography: uninterpreted predicates that only the named library call can establish
ghost H(alg int, data blob) blob
ghost PSSOK(key blob, hash int, digest blob, sig blob, salt int) bool
ghost PKCS1OK(key blob, hash int, digest blob, sig blob) bool
ghost ECDSAOK(key blob, digest blob, r int, s int) bool
ghost DSAOK(key blob, digest blob, r int, s int) bool
ghost derInt(sig blob, i int) int
ghost derCount(sig blob) int
ghost dsaQ(key blob) int
ghost bitlen(v int) int
ghost spkiOf(cert blob) blob
ghost beval(a arr, o int, l int) int
ghost magBytes(v int) blob

def isRsa(k) = typeis(k, "*rsa.PublicKey")
def isDsa(k) = typeis(k, "*dsa.PublicKey")
def isEc(k) = typeis(k, "*ecdsa.PublicKey")
// a key object that came from a parser: never a nil pointer, DSA parameters present
def keyOK(k) = imp(isRsa(k) || isDsa(k) || isEc(k), refof(k) != nil) &&
      imp(isDsa(k), as(k, "*dsa.PublicKey").Parameters.Q != nil && g(as(k, "*dsa.PublicKey").Parameters.Q, bigv) == dsaQ(g(k, keyb)))

func rsa.VerifyPSS(pub, hash, digest, sig, opts) (err)
  trusted
  requires pub != nil
  ensures iff(err == nil, PSSOK(g(pub, keyb), hash, digest, sig, ite(opts == nil, 0, opts.SaltLength)))

func rsa.VerifyPKCS1v15(pub, hash, hashed, sig) (err)
  trusted
  requires pub != nil
  ensures iff(err == nil, PKCS1OK(g(pub, keyb), hash, hashed, sig))

func ecdsa.Verify(pub, hash, r, s) (ok)
  trusted
  requires pub != nil && r != nil && s != nil
  ensures iff(ok, ECDSAOK(g(pub, keyb), hash, g(r, bigv), g(s, bigv)))

func dsa.Verify(pub, hash, r, s) (ok)
  trusted
  requires pub != nil && r != nil && s != nil
  ensures iff(ok, DSAOK(g(pub, keyb), hash, g(r, bigv), g(s, bigv)))

func x509andr.ParsePKIXPublicKey(derBytes) (pub, err)
  trusted
  cases err == nil
  ensures imp(err == nil, isRsa(pub) || isDsa(pub) || isEc(pub))
  ensures imp(err == nil, keyOK(pub) && g(pub, keyb) == content(derBytes))

func x509andr.ParseCertificateForGo(asn1Data) (cert, err)
  trusted
  cases err == nil
  fresh cert when err == nil
  ensures imp(err == nil, cert != nil && content(cert.Raw) == content(asn1Data) && content(cert.RawSubjectPublicKeyInfo) == spkiOf(content(asn1Data)))
  ensures imp(err == nil, keyOK(cert.PublicKey) && g(cert.PublicKey, keyb) == spkiOf(content(asn1Data)))

func x509.ParseCertificate(der) (cert, err)
  trusted
  cases err == nil
  fresh cert when err == nil
  ensures imp(err == nil, cert != nil && content(cert.Raw) == content(der) && content(cert.RawSubjectPublicKeyInfo) == spkiOf(content(der)))
  ensures imp(err == nil, keyOK(cert.PublicKey) && g(cert.PublicKey, keyb) == spkiOf(content(der)))

func x509.(*Certificate).Equal(c, other) (r)
  trusted
  ensures imp(c != nil && other != nil, iff(r, content(c.Raw) == content(other.Raw)))
  ensures imp(c == nil || other == nil, iff(r, c == other))
