// signingblock/signer.go : one signer of a v2/v3/v3.1 block

// ---- length-prefixed sequences
def lpOK(v view) = len(v) >= 4 && 0 <= int32(le32(v)) && int32(le32(v)) <= len(v) - 4
def lpBody(v view) = v[4:4 + int32(le32(v))]
def lpRest(v view) = v[4 + int32(le32(v)):]
// r is what is left of v after its first element
rec lpStep(v view, r view) = lpOK(v) && sameview(r, lpRest(v))
rec lpCount(v view) int = ite(lpOK(v), 1 + lpCount(lpRest(v)), 0)
// content and leading little-endian int32 of the j-th element
rec lpAt(v view, j int) blob = ite(j <= 0, content(lpBody(v)), lpAt(lpRest(v), j - 1))
rec lpId(v view, j int) int = ite(j <= 0, int32(le32(lpBody(v))), lpId(lpRest(v), j - 1))
axiom lpAtStep (v view, r view, j int) {lpStep(v, r); lpAt(r, j)} : imp(lpStep(v, r) && 0 <= j, lpAt(v, j + 1) == lpAt(r, j))
axiom lpIdStep (v view, r view, j int) {lpStep(v, r); lpId(r, j)} : imp(lpStep(v, r) && 0 <= j, lpId(v, j + 1) == lpId(r, j))

// position and length of the k-th element
rec lpRel(v view, k int) int = ite(k <= 0, 4, 4 + int32(le32(v)) + lpRel(lpRest(v), k - 1))
rec lpLn(v view, k int) int = ite(k <= 0, int32(le32(v)), lpLn(lpRest(v), k - 1))
axiom lpRelStep (v view, r view, k int) {lpStep(v, r); lpRel(r, k)} : imp(lpStep(v, r) && 0 <= k, lpRel(v, k + 1) == 4 + int32(le32(v)) + lpRel(r, k) && lpLn(v, k + 1) == lpLn(r, k))
def lpNth(v, k) = v[lpRel(v, k):lpRel(v, k) + lpLn(v, k)]
// r is what is left of v after i elements
def lpTailN(v, r, i) = i + lpCount(r) == lpCount(v)
def lpTail0(v, r, i) = lpRel(v, i) == len(v) - len(r) + lpRel(r, 0) && lpLn(v, i) == lpLn(r, 0)
def lpTailK(v, r, i) = forall(k, trig(lpRel(r, k)), imp(0 <= k, lpRel(v, i + k) == len(v) - len(r) + lpRel(r, k) && lpLn(v, i + k) == lpLn(r, k)))

def algoTake(a, cur) = algoSupported(a) && (cur == -1 || algoBetter(a, cur))
// strongest supported algorithm of a list of signature records, and the signature bytes of that record
rec bestAlgo(v view, cur int) int = ite(!lpOK(v), cur, bestAlgo(lpRest(v), ite(algoTake(int32(le32(lpBody(v))), cur), int32(le32(lpBody(v))), cur)))
rec bestSig(v view, cur int, sig blob) blob = ite(!lpOK(v), sig, bestSig(lpRest(v), ite(algoTake(int32(le32(lpBody(v))), cur), int32(le32(lpBody(v))), cur),
      ite(algoTake(int32(le32(lpBody(v))), cur), content(lpBody(lpBody(v)[4:])), sig)))
// digest recorded for an algorithm (last record of that algorithm)
rec digestFor(v view, algo int, d blob) blob = ite(!lpOK(v), d, digestFor(lpRest(v), algo, ite(int32(le32(lpBody(v))) == algo, content(lpBody(lpBody(v)[4:])), d)))

def noErr(r) = len(r.Errors) == len(old(r.Errors))
def moreErr(r) = len(r.Errors) > len(old(r.Errors))

func signingblock.(*signerContext).parseSignatures(s, sigs) (ok)
  panics C14
  requires s != nil && s.result != nil && sigs != nil && len(s.signaturesAlgos) == 0 && len(s.bestAlgoSignature) == 0
  modifies s.bestAlgo, s.bestAlgoSignature, s.signaturesAlgos, s.result.Errors, s.result.Warnings, sigs.buf, sigs.off, sigs.lastRead
  cases ok
  let v = old(rem(sigs))
  ensures iff(ok, noErr(s.result)) && iff(!ok, moreErr(s.result))
  ensures imp(ok, algoSupported(s.bestAlgo))
  ensures [C01,C02] imp(ok, s.bestAlgo == bestAlgo(v, -1) && content(s.bestAlgoSignature) == bestSig(v, -1, ""))
  ensures [C02] imp(ok, len(s.signaturesAlgos) == lpCount(v) && forall(j, imp(0 <= j && j < lpCount(v), s.signaturesAlgos[j] == lpId(v, j))))
  loopinv bestAlgo(rem(sigs), s.bestAlgo) == bestAlgo(old(rem(sigs)), -1)
  loopinv s.bestAlgo == -1 || algoSupported(s.bestAlgo)
  loopinv bestSig(rem(sigs), s.bestAlgo, content(s.bestAlgoSignature)) == bestSig(old(rem(sigs)), -1, "")
  loopinv len(s.signaturesAlgos) + lpCount(rem(sigs)) == lpCount(old(rem(sigs)))
  loopinv forall(k, trig(lpId(rem(sigs), k)), imp(0 <= k, lpId(old(rem(sigs)), len(s.signaturesAlgos) + k) == lpId(rem(sigs), k)))
  loopinv lpId(old(rem(sigs)), len(s.signaturesAlgos)) == lpId(rem(sigs), 0)
  loopinv forall(j, trig(s.signaturesAlgos[j]), imp(0 <= j && j < len(s.signaturesAlgos), s.signaturesAlgos[j] == lpId(old(rem(sigs)), j)))
  loopinv len(s.result.Errors) == len(old(s.result.Errors))

func signingblock.(*signerContext).parsePublicKey(s, pk, sd) (ok)
  panics C14
  requires s != nil && s.result != nil && pk != nil
  modifies s.publicKeyBytes, s.result.Errors
  cases ok
  ensures iff(ok, noErr(s.result)) && iff(!ok, moreErr(s.result))
  ensures sameview(view(s.publicKeyBytes), old(view(rem(pk))))
  ensures [C02] imp(ok, SigOK(content(old(rem(pk))), s.bestAlgo, content(sd), content(s.bestAlgoSignature)))

def certFields(c untyped, raw blob) = content(c.RawSubjectPublicKeyInfo) == spkiOf(raw) && keyOK(c.PublicKey) && g(c.PublicKey, keyb) == spkiOf(raw)

func signingblock.(*certAdder).append(a, cert) ()
  panics C14
  requires a != nil && a.res != nil && imp(len(a.Certs) > 0, len(a.res.Certs) > 0)
  modifies a.Certs, a.res.Certs
  modifies elems(a.res.Certs) when len(a.Certs) > 0
  let m = len(old(a.Certs))
  let n = len(old(a.res.Certs))
  ensures len(a.Certs) == m + 1 && a.Certs[m] == cert && isnew(a.Certs)
  ensures forall(j, trig(a.Certs[j]), imp(0 <= j && j < m, a.Certs[j] == old(a.Certs[j])))
  ensures len(a.res.Certs) == ite(m == 0, n + 1, n)
  ensures imp(m == 0, isnew(a.res.Certs)) && imp(m > 0, sameslice(a.res.Certs, old(a.res.Certs)))
  ensures sameslice(a.res.Certs[len(a.res.Certs) - 1], a.Certs)
  ensures forall(k, trig(len(a.res.Certs[k])), imp(0 <= k && k < len(a.res.Certs) - 1, sameslice(a.res.Certs[k], old(a.res.Certs[k]))))

func signingblock.(*signerContext).parseCertificates(s, certs) (main, ok)
  panics C14
  requires s != nil && s.result != nil && certs != nil
  modifies s.result.Certs, s.result.Errors, certs.buf, certs.off, certs.lastRead
  cases ok
  let v = old(rem(certs))
  let n = len(old(s.result.Certs))
  ensures iff(ok, noErr(s.result)) && iff(!ok, moreErr(s.result))
  ensures [C03] imp(ok, len(s.result.Certs) == n + 1)
  ensures [C03] len(s.result.Certs) <= n + 1 && len(s.result.Certs) >= n
  ensures [C03] forall(k, trig(len(s.result.Certs[k])), imp(0 <= k && k < n, sameslice(s.result.Certs[k], old(s.result.Certs[k]))))
  ensures [C03] imp(ok, len(s.result.Certs[n]) == lpCount(v) && len(s.result.Certs[n]) > 0)
  ensures [C03] imp(ok, forall(j, trig(s.result.Certs[n][j]), imp(0 <= j && j < lpCount(v), s.result.Certs[n][j] != nil && content(s.result.Certs[n][j].Raw) == lpAt(v, j))))
  ensures [C02,C03,C06] imp(ok, main != nil && main == s.result.Certs[n][0] && content(main.Raw) == lpAt(v, 0) && spkiOf(lpAt(v, 0)) == content(s.publicKeyBytes))
  ensures imp(ok, main != nil && keyOK(main.PublicKey) && g(main.PublicKey, keyb) == spkiOf(lpAt(v, 0)))
  loopinv len(s.result.Errors) == len(old(s.result.Errors))
  loopinv (a *signingblock.certAdder) : a.res == s.result
  loopinv (a *signingblock.certAdder) : imp(len(a.Certs) == 0, sameslice(s.result.Certs, old(s.result.Certs)))
  loopinv (a *signingblock.certAdder) : imp(len(a.Certs) > 0, isnew(s.result.Certs) && len(s.result.Certs) == len(old(s.result.Certs)) + 1 && sameslice(s.result.Certs[len(s.result.Certs) - 1], a.Certs))
  loopinv forall(k, trig(len(s.result.Certs[k])), imp(0 <= k && k < len(old(s.result.Certs)), sameslice(s.result.Certs[k], old(s.result.Certs[k]))))
  loopinv (a *signingblock.certAdder) : len(a.Certs) + lpCount(rem(certs)) == lpCount(old(rem(certs)))
  loopinv (a *signingblock.certAdder) : forall(k, trig(lpAt(rem(certs), k)), imp(0 <= k, lpAt(old(rem(certs)), len(a.Certs) + k) == lpAt(rem(certs), k)))
  loopinv (a *signingblock.certAdder) : lpAt(old(rem(certs)), len(a.Certs)) == lpAt(rem(certs), 0)
  loopinv (a *signingblock.certAdder) : forall(j, trig(a.Certs[j]), imp(0 <= j && j < len(a.Certs), a.Certs[j] != nil && content(a.Certs[j].Raw) == lpAt(old(rem(certs)), j) && certFields(a.Certs[j], lpAt(old(rem(certs)), j))))

func signingblock.(*signerContext).parseDigests(s, digests, m) (ok)
  panics C14
  requires s != nil && s.result != nil && digests != nil && m != nil && algoSupported(s.bestAlgo)
  modifies s.result.Errors, mapof(m), digests.buf, digests.off, digests.lastRead
  cases ok
  let v = old(rem(digests))
  let d = algoDigest(s.bestAlgo)
  ensures iff(ok, noErr(s.result)) && iff(!ok, moreErr(s.result))
  ensures [C02] imp(ok, lpCount(v) == len(s.signaturesAlgos) && forall(j, trig(lpId(v, j)), imp(0 <= j && j < lpCount(v), s.signaturesAlgos[j] == lpId(v, j))))
  ensures [C01,C02] imp(ok, in(d, m) && content(m[d]) == digestFor(v, s.bestAlgo, ""))
  ensures [C01,C02] imp(ok && !nilslice(old(m[d])), content(old(m[d])) == content(m[d]))
  ensures forall(a, trig(in(a, m)), imp(in(a, m), old(in(a, m)) || (1 <= a && a <= 3)))
  ensures [C01,C02] forall(a, trig(len(m[a])), imp(a != d, sameslice(m[a], old(m[a])) && iff(in(a, m), old(in(a, m)))))
  loopinv (c phi []byte) : digestFor(rem(digests), s.bestAlgo, content(c)) == digestFor(old(rem(digests)), s.bestAlgo, "")
  loopinv (a phi []signingblock.SignatureAlgorithm) : len(a) + lpCount(rem(digests)) == lpCount(old(rem(digests)))
  loopinv (a phi []signingblock.SignatureAlgorithm) : forall(k, trig(lpId(rem(digests), k)), imp(0 <= k, lpId(old(rem(digests)), len(a) + k) == lpId(rem(digests), k)))
  loopinv (a phi []signingblock.SignatureAlgorithm) : lpId(old(rem(digests)), len(a)) == lpId(rem(digests), 0)
  loopinv (a phi []signingblock.SignatureAlgorithm) : forall(j, trig(a[j]), imp(0 <= j && j < len(a), a[j] == lpId(old(rem(digests)), j)))
  loopinv (a []signingblock.SignatureAlgorithm, i phi int, e phi bool) : imp(e, forall(j, trig(s.signaturesAlgos[j]), imp(0 <= j && j < i, a[j] == s.signaturesAlgos[j])))
  loopinv (a []signingblock.SignatureAlgorithm, e phi bool) : imp(e, len(a) == len(s.signaturesAlgos))
