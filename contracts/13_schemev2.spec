// signingblock/schemev2.go

// ---- one signer. sd: signed data; r1: what follows the signed data (v2) or the unsigned sdk range (v3)
// a valid signature over the signed data by the strongest supported algorithm, made with the key of the first
// certificate inside the signed data, and identical algorithm lists
rec sigAuth(sd view, r1 view) =
      SigOK(content(lpBody(lpRest(r1))), bestAlgo(lpBody(r1), -1), content(sd), bestSig(lpBody(r1), -1, "")) &&
      algoSupported(bestAlgo(lpBody(r1), -1)) &&
      spkiOf(lpAt(lpBody(lpRest(sd)), 0)) == content(lpBody(lpRest(r1)))
rec algosEq(sd view, r1 view) =
      lpCount(lpBody(sd)) == lpCount(lpBody(r1)) &&
      forall(j, trig(lpId(lpBody(sd), j)), imp(0 <= j && j < lpCount(lpBody(sd)), lpId(lpBody(r1), j) == lpId(lpBody(sd), j)))
// the digest kind and value the signer contributes
def sgDigType(r1) = algoDigest(bestAlgo(lpBody(r1), -1))
def sgDig(sd, r1) = digestFor(lpBody(sd), bestAlgo(lpBody(r1), -1), "")
def digOK(sd, r1, a, d) = imp(sgDigType(r1) == a, sgDig(sd, r1) == d || sgDig(sd, r1) == "")
def certsN(sd) = lpCount(lpBody(lpRest(sd)))
def certsAt(sd, j) = lpAt(lpBody(lpRest(sd)), j)

// stripping protection: every declared stronger scheme is present. h2, h3, h31: blocks known to be present
def schemePresent(id, h2, h3, h31) = ite(id == 2, h2, ite(id == 3, h3, ite(id == 31, h31, false)))
rec attrs2OK(at view, max int, h2 bool, h3 bool, h31 bool) = ite(!lpOK(at), true,
      imp(le32(lpBody(at)) == 0xbeeff00d && max >= 28, schemePresent(int32(le32(lpBody(at)[4:])), h2, h3, h31)) &&
      attrs2OK(lpRest(at), max, h2, h3, h31))
def hasBlock(r, id) = !nilslice(r.ExtraBlocks[id])

// chain n of the result is the certificate list of the signed data
def chainIs(r, n, sd) = len(r.Certs[n]) == certsN(sd) && len(r.Certs[n]) > 0 &&
      forall(j, trig(r.Certs[n][j]), imp(0 <= j && j < len(r.Certs[n]), r.Certs[n][j] != nil && content(r.Certs[n][j].Raw) == certsAt(sd, j)))

func signingblock.(*schemeV2).verifySigner(s, signerBlock, contentDigests, result) ()
  panics C14
  requires s != nil && result != nil && signerBlock != nil && contentDigests != nil
  modifies result.Certs, result.Errors, result.Warnings, mapof(contentDigests), signerBlock.buf, signerBlock.off, signerBlock.lastRead
  let e = old(rem(signerBlock))
  let sd = lpBody(e)
  let r1 = lpRest(e)
  let n = len(old(result.Certs))
  let at = lpBody(lpRest(lpRest(sd)))
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures [C02] sig: imp(noErr(result), sigAuth(sd, r1))
  ensures [C02] algos: imp(noErr(result), algosEq(sd, r1))
  ensures [C03] imp(noErr(result), len(result.Certs) == n + 1) && len(result.Certs) >= n
  ensures [C03] forall(k, trig(len(result.Certs[k])), imp(0 <= k && k < n, sameslice(result.Certs[k], old(result.Certs[k]))))
  ensures [C03] chain: imp(noErr(result), chainIs(result, n, sd))
  ensures [C01,C02] digest: imp(noErr(result), digOK(sd, r1, 1, content(contentDigests[1])) && digOK(sd, r1, 2, content(contentDigests[2])) && digOK(sd, r1, 3, content(contentDigests[3])))
  ensures [C01,C02] imp(noErr(result), imp(!nilslice(old(contentDigests[1])), content(contentDigests[1]) == content(old(contentDigests[1]))) &&
      imp(!nilslice(old(contentDigests[2])), content(contentDigests[2]) == content(old(contentDigests[2]))) && imp(!nilslice(old(contentDigests[3])), content(contentDigests[3]) == content(old(contentDigests[3]))))
  ensures domain: forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), old(in(a, contentDigests)) || (1 <= a && a <= 3)))
  ensures [C04] stripped: imp(noErr(result), attrs2OK(at, s.maxSdkVersion, hasBlock(result, 0x7109871a), hasBlock(result, 0xf05368c0), hasBlock(result, 0x1b93ad61)))
  loopinv len(result.Errors) >= len(old(result.Errors))
  loopinv [C04] (q *bytes.Buffer) : imp(noErr(result) && attrs2OK(rem(q), s.maxSdkVersion, hasBlock(result, 0x7109871a), hasBlock(result, 0xf05368c0), hasBlock(result, 0x1b93ad61)), attrs2OK(at, s.maxSdkVersion, hasBlock(result, 0x7109871a), hasBlock(result, 0xf05368c0), hasBlock(result, 0x1b93ad61)))

// ---- all signers of a block. h: bytes between the signed data and the signatures (0 for v2, 8 for v3)
def sgData(e) = lpBody(e)
def sgRest(e, h) = lpRest(e)[h:]
def sgAuth(e, h) = sigAuth(lpBody(e), lpRest(e)[h:]) && algosEq(lpBody(e), lpRest(e)[h:])
def sgDigOK(e, h, a, d) = digOK(lpBody(e), lpRest(e)[h:], a, d)
def sgAttrs2(e, max, h2, h3, h31) = attrs2OK(lpBody(lpRest(lpRest(lpBody(e)))), max, h2, h3, h31)
def sgCertsN(e) = certsN(lpBody(e))
def sgCertsAt(e, j) = certsAt(lpBody(e), j)
def chainOf(r, n, e) = len(r.Certs[n]) == sgCertsN(e) && len(r.Certs[n]) > 0 &&
      forall(j, trig(r.Certs[n][j]), imp(0 <= j && j < len(r.Certs[n]), r.Certs[n][j] != nil && content(r.Certs[n][j].Raw) == sgCertsAt(e, j)))

func signingblock.(*schemeV2).parseSigners(s, block, contentDigests, result) ()
  assume [C02,C03] forall(j, trig(result.Errors[j]), imp(0 <= j && j < len(result.Errors), result.Errors[j] != nil))
  panics C14
  requires s != nil && result != nil && block != nil && contentDigests != nil
  requires len(result.Certs) == 0 && forall(a, trig(in(a, contentDigests)), !in(a, contentDigests))
  modifies result.Certs, result.Errors, result.Warnings, mapof(contentDigests), block.buf, block.off, block.lastRead
  let S = lpBody(old(view(rem(block))))
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures [C02,C03] imp(noErr(result), lpOK(old(rem(block))))
  ensures [C02] auth: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgAuth(lpNth(S, k), 0))))
  ensures [C03] imp(noErr(result), len(result.Certs) == lpCount(S) && len(result.Certs) <= 10)
  ensures [C03] chains: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), chainOf(result, k, lpNth(S, k)))))
  ensures [C01,C02] digest1: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgDigOK(lpNth(S, k), 0, 1, content(contentDigests[1])))))
  ensures [C01,C02] digest2: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgDigOK(lpNth(S, k), 0, 2, content(contentDigests[2])))))
  ensures [C01,C02] digest3: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgDigOK(lpNth(S, k), 0, 3, content(contentDigests[3])))))
  ensures domain: forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), 1 <= a && a <= 3))
  ensures [C04] stripped: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgAttrs2(lpNth(S, k), s.maxSdkVersion, hasBlock(result, 0x7109871a), hasBlock(result, 0xf05368c0), hasBlock(result, 0x1b93ad61)))))
  loopinv len(result.Errors) >= len(old(result.Errors))
  loopinv (q *bytes.Buffer, i phi int) : 0 <= i && i <= len(S) - len(rem(q))
  loopinv (q *bytes.Buffer, i phi int) : lpTailN(S, view(rem(q)), i)
  loopinv (q *bytes.Buffer, i phi int) : lpTail0(S, view(rem(q)), i)
  loopinv (q *bytes.Buffer, i phi int) : lpTailK(S, view(rem(q)), i)
  loopinv (q *bytes.Buffer) : sameview(view(rem(q)), S[len(S) - len(rem(q)):])
  loopinv [C03] (i phi int) : imp(noErr(result), len(result.Certs) == i)
  loopinv [C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgAuth(lpNth(S, k), 0))))
  loopinv [C03] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, chainOf(result, k, lpNth(S, k)))))
  loopinv [C01,C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgDigOK(lpNth(S, k), 0, 1, content(contentDigests[1])))))
  loopinv [C01,C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgDigOK(lpNth(S, k), 0, 2, content(contentDigests[2])))))
  loopinv [C01,C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgDigOK(lpNth(S, k), 0, 3, content(contentDigests[3])))))
  loopinv forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), 1 <= a && a <= 3))
  loopinv [C04] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgAttrs2(lpNth(S, k), s.maxSdkVersion, hasBlock(result, 0x7109871a), hasBlock(result, 0xf05368c0), hasBlock(result, 0x1b93ad61)))))
