// signingblock/schemev3.go

// a signer of a v3 block: the platform range stands between the signed data and the signatures, and again inside the signed data
def sgMin(e) = int32(le32(lpRest(e)))
def sgMax(e) = int32(le32(lpRest(e)[4:]))
def sgSignedMin(e) = int32(le32(lpRest(lpRest(lpBody(e)))))
def sgSignedMax(e) = int32(le32(lpRest(lpRest(lpBody(e)))[4:]))
def sgRange(e) = 1 <= sgMin(e) && sgMin(e) <= sgMax(e) && sgSignedMin(e) == sgMin(e) && sgSignedMax(e) == sgMax(e)
def sgAttrs3(e) = lpBody(lpRest(lpRest(lpBody(e)))[8:])
// stripping protection of v3.1: a v3 signer that announces rotation has the v3.1 block with that platform version
rec attrs3OK(at view, max int, rot int) = ite(!lpOK(at), true,
      imp(le32(lpBody(at)) == 0x559f8b02 && max >= 33, rot != 0 && int32(le32(lpBody(at)[4:])) == rot) && attrs3OK(lpRest(at), max, rot))
// lineage l belongs to the signer whose first certificate is c
def lineageOf(l, c) = imp(l != nil, chainValid(l.Nodes) && len(l.Nodes) > 0 && content(l.Nodes[len(l.Nodes) - 1].SigningCert.Raw) == c)
def lineageWF(l) = imp(l != nil, nodesWF(l.Nodes))

func signingblock.(*schemeV3).verifySigner(s, signerBlock, contentDigests, result) ()
  panics C14
  merge
  requires s != nil && result != nil && signerBlock != nil && contentDigests != nil
  modifies s.signers, result.Certs, result.Errors, result.Warnings, mapof(contentDigests), signerBlock.buf, signerBlock.off, signerBlock.lastRead
  let e = old(rem(signerBlock))
  let sd = lpBody(e)
  let r1 = lpRest(e)[8:]
  let n = len(old(result.Certs))
  let m = len(old(s.signers))
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures [C02] sig: imp(noErr(result), sigAuth(sd, r1))
  ensures [C02] algos: imp(noErr(result), algosEq(sd, r1))
  ensures [C03] imp(noErr(result), len(result.Certs) == n + 1) && len(result.Certs) >= n
  ensures [C03] forall(k, trig(len(result.Certs[k])), imp(0 <= k && k < n, sameslice(result.Certs[k], old(result.Certs[k]))))
  ensures [C03] chain: imp(noErr(result), chainIs(result, n, sd))
  ensures [C01,C02] digest: imp(noErr(result), digOK(sd, r1, 1, content(contentDigests[1])) && digOK(sd, r1, 2, content(contentDigests[2])) && digOK(sd, r1, 3, content(contentDigests[3])))
  ensures [C01,C02] imp(noErr(result), imp(!nilslice(old(contentDigests[1])), content(contentDigests[1]) == content(old(contentDigests[1]))) &&
      imp(!nilslice(old(contentDigests[2])), content(contentDigests[2]) == content(old(contentDigests[2]))) && imp(!nilslice(old(contentDigests[3])), content(contentDigests[3]) == content(old(contentDigests[3]))))
  ensures domain: forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), old(in(a, contentDigests)) || (1 <= a && a <= 3)))
  ensures [C05] range: imp(noErr(result), sgRange(e))
  ensures imp(noErr(result), len(s.signers) == m + 1) && m <= len(s.signers) && len(s.signers) <= m + 1
  ensures forall(k, trig(s.signers[k]), imp(0 <= k && k < m, s.signers[k] == old(s.signers[k])))
  ensures sameslice(s.signers, old(s.signers)) || isnew(s.signers)
  ensures imp(len(s.signers) > m, s.signers[m] != nil && isnew(s.signers[m]) && lineageWF(s.signers[m].lineage))
  ensures [C05] signer: imp(noErr(result), s.signers[m].minSdkVersion == sgMin(e) && s.signers[m].maxSdkVersion == sgMax(e))
  ensures [C06] lineage: imp(noErr(result), lineageOf(s.signers[m].lineage, sgCertsAt(e, 0)))
  ensures [C04] stripped: imp(noErr(result), attrs3OK(sgAttrs3(e), s.maxSdkVersion, s.rotationMinSdkVersion))
  loopinv len(result.Errors) >= len(old(result.Errors))
  loopinv [C04] (q *bytes.Buffer) : imp(noErr(result) && attrs3OK(rem(q), s.maxSdkVersion, s.rotationMinSdkVersion), attrs3OK(sgAttrs3(e), s.maxSdkVersion, s.rotationMinSdkVersion))
  loopinv lineageWF(s.signers[m].lineage)
  loopinv [C06] imp(noErr(result), lineageOf(s.signers[m].lineage, sgCertsAt(e, 0)))

func signingblock.(*schemeV3).parseSigners(s, block, contentDigests, result) ()
  assume [C02,C03] forall(j, trig(result.Errors[j]), imp(0 <= j && j < len(result.Errors), result.Errors[j] != nil))
  panics C14
  requires s != nil && result != nil && block != nil && contentDigests != nil
  requires len(result.Certs) == 0 && nilslice(s.signers) && forall(a, trig(in(a, contentDigests)), !in(a, contentDigests))
  modifies s.signers, result.Certs, result.Errors, result.Warnings, mapof(contentDigests), block.buf, block.off, block.lastRead
  let S = lpBody(old(view(rem(block))))
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures [C02,C03] imp(noErr(result), lpOK(old(rem(block))))
  ensures [C02] auth: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgAuth(lpNth(S, k), 8))))
  ensures [C03] imp(noErr(result), len(result.Certs) == lpCount(S))
  ensures [C03] chains: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), chainOf(result, k, lpNth(S, k)))))
  ensures [C01,C02] digest1: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgDigOK(lpNth(S, k), 8, 1, content(contentDigests[1])))))
  ensures [C01,C02] digest2: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgDigOK(lpNth(S, k), 8, 2, content(contentDigests[2])))))
  ensures [C01,C02] digest3: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgDigOK(lpNth(S, k), 8, 3, content(contentDigests[3])))))
  ensures domain: forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), 1 <= a && a <= 3))
  ensures [C05] ranges: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgRange(lpNth(S, k)))))
  ensures [C05,C06] imp(noErr(result), len(s.signers) == lpCount(S))
  ensures nilslice(s.signers) || isnew(s.signers)
  ensures [C05] signers: imp(noErr(result), forall(k, trig(s.signers[k]), imp(0 <= k && k < lpCount(S), s.signers[k].minSdkVersion == sgMin(lpNth(S, k)) && s.signers[k].maxSdkVersion == sgMax(lpNth(S, k)))))
  ensures [C06] lineages: imp(noErr(result), forall(k, trig(s.signers[k]), imp(0 <= k && k < lpCount(S), lineageOf(s.signers[k].lineage, sgCertsAt(lpNth(S, k), 0)))))
  ensures forall(k, trig(s.signers[k]), imp(0 <= k && k < len(s.signers), s.signers[k] != nil && lineageWF(s.signers[k].lineage)))
  ensures [C04] stripped: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), attrs3OK(sgAttrs3(lpNth(S, k)), s.maxSdkVersion, s.rotationMinSdkVersion))))
  loopinv len(result.Errors) >= len(old(result.Errors))
  loopinv (q *bytes.Buffer, i phi int) : 0 <= i && i <= len(S) - len(rem(q))
  loopinv (q *bytes.Buffer, i phi int) : lpTailN(S, view(rem(q)), i)
  loopinv (q *bytes.Buffer, i phi int) : lpTail0(S, view(rem(q)), i)
  loopinv (q *bytes.Buffer, i phi int) : lpTailK(S, view(rem(q)), i)
  loopinv (q *bytes.Buffer) : sameview(view(rem(q)), S[len(S) - len(rem(q)):])
  loopinv nilslice(s.signers) || isnew(s.signers)
  loopinv (i phi int) : imp(noErr(result), len(s.signers) == i)
  loopinv [C03] (i phi int) : imp(noErr(result), len(result.Certs) == i)
  loopinv [C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgAuth(lpNth(S, k), 8))))
  loopinv [C03] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, chainOf(result, k, lpNth(S, k)))))
  loopinv [C01,C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgDigOK(lpNth(S, k), 8, 1, content(contentDigests[1])))))
  loopinv [C01,C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgDigOK(lpNth(S, k), 8, 2, content(contentDigests[2])))))
  loopinv [C01,C02] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgDigOK(lpNth(S, k), 8, 3, content(contentDigests[3])))))
  loopinv forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), 1 <= a && a <= 3))
  loopinv [C05] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, sgRange(lpNth(S, k)))))
  loopinv [C05] (i phi int) : imp(noErr(result), forall(k, trig(s.signers[k]), imp(0 <= k && k < i, s.signers[k].minSdkVersion == sgMin(lpNth(S, k)) && s.signers[k].maxSdkVersion == sgMax(lpNth(S, k)))))
  loopinv [C06] (i phi int) : imp(noErr(result), forall(k, trig(s.signers[k]), imp(0 <= k && k < i, lineageOf(s.signers[k].lineage, sgCertsAt(lpNth(S, k), 0)))))
  loopinv forall(k, trig(s.signers[k]), imp(0 <= k && k < len(s.signers), s.signers[k] != nil && lineageWF(s.signers[k].lineage)))
  loopinv [C04] (i phi int) : imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < i, attrs3OK(sgAttrs3(lpNth(S, k)), s.maxSdkVersion, s.rotationMinSdkVersion))))

def sgWF(ls) = forall(k, trig(ls[k]), imp(0 <= k && k < len(ls), ls[k] != nil && lineageWF(ls[k].lineage)))
def allChains(ls) = forall(k, trig(ls[k]), imp(0 <= k && k < len(ls) && ls[k].lineage != nil, chainValid(ls[k].lineage.Nodes)))
def lnSize(sg, k) = len(sg[k].lineage.Nodes)
// the range of platform versions the signers of this block have to cover
def v3ReqMin(s, lo, hi) = ite(s.actingAsV31, hi, ite(lo < 28, 28, lo))
def v3ReqMax(s, hi) = ite(s.rotationMinSdkVersion != 0, int32(s.rotationMinSdkVersion - 1), hi)

func signingblock.(*schemeV3).finalizeResult(s, requestedMinSdkVersion, requestedMaxSdkVersion, result) ()
  panics C14
  merge
  requires s != nil && result != nil && sgWF(s.signers)
  modifies elems(s.signers), result.Errors, result.SigningLineage
  let sg = s.signers
  let n = len(old(s.signers))
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures [C05] same: forall(k, trig(old(s.signers[k])), imp(0 <= k && k < n, exists(j, trig(s.signers[j]), 0 <= j && j < n && s.signers[j] == old(s.signers[k]))))
  ensures sgWF(s.signers)
  ensures [C05] contiguous: imp(noErr(result) && n > 0 && s.signers[0].minSdkVersion != 0, forall(k, trig(s.signers[k], s.signers[k - 1]), imp(1 <= k && k < n, s.signers[k].minSdkVersion == int32(s.signers[k - 1].maxSdkVersion + 1))))
  ensures [C05] low: imp(noErr(result) && n > 0 && s.signers[0].minSdkVersion != 0, s.signers[0].minSdkVersion <= v3ReqMin(s, requestedMinSdkVersion, requestedMaxSdkVersion))
  ensures [C05] high: imp(noErr(result) && n > 0, s.signers[n - 1].maxSdkVersion >= v3ReqMax(s, requestedMaxSdkVersion))
  ensures [C05] empty: imp(noErr(result) && n == 0, 0 <= v3ReqMin(s, requestedMinSdkVersion, requestedMaxSdkVersion) && 0 >= v3ReqMax(s, requestedMaxSdkVersion))
  ensures [C06] sizes: imp(noErr(result), forall(k, trig(s.signers[k]), forall(j, trig(s.signers[j]), imp(0 <= k && k < j && j < n && s.signers[k].lineage != nil && s.signers[j].lineage != nil, lnSize(s.signers, k) <= lnSize(s.signers, j)))))
  ensures [C06] longest: imp(noErr(result) && old(result.SigningLineage) == nil, forall(k, trig(s.signers[k]), imp(0 <= k && k < n && s.signers[k].lineage != nil, result.SigningLineage != nil && lnSize(s.signers, k) <= len(result.SigningLineage.Nodes))))
  ensures [C06] authentic: imp(noErr(result) && old(allChains(s.signers)) && old(result.SigningLineage) == nil && result.SigningLineage != nil, chainValid(result.SigningLineage.Nodes))
  loopinv sgWF(s.signers)
  loopinv imp(old(allChains(s.signers)), allChains(s.signers))
  loopinv (i phi int, lm phi int32) : imp(i >= 0, lm == s.signers[i].maxSdkVersion)
  loopinv (i phi int, fm phi int32) : imp(i >= 0 && s.signers[0].minSdkVersion != 0, fm == s.signers[0].minSdkVersion)
  loopinv (i phi int, fm phi int32, lm phi int32) : imp(i < 0, fm == 0 && lm == 0)
  loopinv (i phi int) : imp(n > 0 && s.signers[0].minSdkVersion != 0, forall(k, trig(s.signers[k], s.signers[k - 1]), imp(1 <= k && k <= i, s.signers[k].minSdkVersion == int32(s.signers[k - 1].maxSdkVersion + 1))))
  loopinv (i phi int, z phi int) : forall(k, trig(s.signers[k]), imp(0 <= k && k <= i && s.signers[k].lineage != nil, lnSize(s.signers, k) <= z))
  loopinv (i phi int) : forall(k, trig(s.signers[k]), forall(j, trig(s.signers[j]), imp(0 <= k && k < j && j <= i && s.signers[k].lineage != nil && s.signers[j].lineage != nil, lnSize(s.signers, k) <= lnSize(s.signers, j))))
  loopinv (l phi []*signingblock.V3SigningLineage) : lineageNodesWF(l)
  loopinv (i phi int, l phi []*signingblock.V3SigningLineage) : forall(k, trig(s.signers[k]), imp(0 <= k && k <= i && s.signers[k].lineage != nil, exists(j, trig(l[j]), 0 <= j && j < len(l) && l[j] == s.signers[k].lineage)))
  loopinv (l phi []*signingblock.V3SigningLineage) : imp(old(allChains(s.signers)), forall(j, trig(l[j]), imp(0 <= j && j < len(l), chainValid(l[j].Nodes))))

func signingblock.(*schemeV31).parseSigners(s, block, contentDigests, result) ()
  assume [C02,C03] forall(j, trig(result.Errors[j]), imp(0 <= j && j < len(result.Errors), result.Errors[j] != nil))
  panics C14
  requires s != nil && result != nil && block != nil && contentDigests != nil
  requires len(result.Certs) == 0 && result.ExtraResults == nil && s.contentDigests == nil && nilslice(s.backendV3.signers) && nilslice(s.backendV31.signers) && forall(a, trig(in(a, contentDigests)), !in(a, contentDigests))
  modifies s.contentDigests, addr(s, backendV31).signers, addr(s, backendV3).signers, addr(s, backendV3).rotationMinSdkVersion, result.Certs, result.Errors, result.Warnings, result.ExtraResults, mapof(result.ExtraResults), mapof(contentDigests), block.buf, block.off, block.lastRead
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures sgWF(s.backendV31.signers)
  ensures sgWF(s.backendV3.signers)
  ensures len(s.backendV3.signers) == 0 || refof(s.backendV31.signers) != refof(s.backendV3.signers)
  ensures [C04,C05] needsV3: imp(noErr(result), old(in(0xf05368c0, result.ExtraBlocks)) && !nilslice(old(result.ExtraBlocks[0xf05368c0])))
  ensures [C05] rotmin: imp(noErr(result) && s.backendV3.rotationMinSdkVersion != 0, forall(k, trig(s.backendV31.signers[k]), imp(0 <= k && k < len(s.backendV31.signers), s.backendV3.rotationMinSdkVersion <= s.backendV31.signers[k].minSdkVersion)))
  let S = lpBody(old(view(rem(block))))
  ensures nilslice(s.backendV31.signers) || isnew(s.backendV31.signers)
  ensures nilslice(s.backendV3.signers) || isnew(s.backendV3.signers)
  ensures domain: forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), 1 <= a && a <= 3))
  ensures s.contentDigests == nil || (isnew(s.contentDigests) && s.contentDigests != contentDigests)
  ensures imp(s.contentDigests != nil, forall(a, trig(in(a, s.contentDigests)), imp(in(a, s.contentDigests), 1 <= a && a <= 3)))
  ensures result.ExtraResults == nil || isnew(result.ExtraResults)
  ensures imp(in(3, result.ExtraResults), result.ExtraResults[3] != nil && isnew(result.ExtraResults[3]) && result.ExtraResults[3] != result)
  ensures [C02,C03] imp(noErr(result), lpOK(old(rem(block))))
  ensures [C03] imp(noErr(result), len(result.Certs) == lpCount(S))
  ensures [C03] chains: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), chainOf(result, k, lpNth(S, k)))))
  ensures [C02] auth: imp(noErr(result), forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgAuth(lpNth(S, k), 8))))
  ensures [C01] own: imp(noErr(result), s.contentDigests != nil && forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgDigOK(lpNth(S, k), 8, 1, content(s.contentDigests[1])) && sgDigOK(lpNth(S, k), 8, 2, content(s.contentDigests[2])) && sgDigOK(lpNth(S, k), 8, 3, content(s.contentDigests[3])))))
  loopinv forall(a, trig(in(a, contentDigests)), imp(in(a, contentDigests), 1 <= a && a <= 3))
  loopinv (i phi int) : forall(k, trig(s.backendV31.signers[k]), imp(0 <= k && k <= i, s.backendV3.rotationMinSdkVersion <= s.backendV31.signers[k].minSdkVersion))

// the ranges of the v3.1 block start at 33; everything below is the v3 block's
func signingblock.(*schemeV31).finalizeResult(s, requestedMinSdkVersion, requestedMaxSdkVersion, result) ()
  panics C14
  requires s != nil && result != nil && sgWF(s.backendV31.signers) && sgWF(s.backendV3.signers)
  requires imp(in(3, result.ExtraResults), result.ExtraResults[3] != nil && result.ExtraResults[3] != result)
  requires len(s.backendV3.signers) == 0 || refof(s.backendV31.signers) != refof(s.backendV3.signers)
  modifies elems(s.backendV31.signers), elems(s.backendV3.signers), result.Errors, result.Warnings, result.SigningLineage
  modifies result.ExtraResults[3].Errors, result.ExtraResults[3].SigningLineage when in(3, result.ExtraResults)
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures [C05] both: imp(noErr(result) && old(in(3, result.ExtraResults)), len(result.ExtraResults[3].Errors) == 0)
