// signingblock/schemev3lineage.go and the lineage part of schemev3.go

// ---- one node of a lineage attribute. e: the node; its signed data holds the certificate and an algorithm id
def lnData(e) = lpBody(e)
def lnAlgo(e) = int32(le32(lpRest(e)[4:]))
def lnFlags(e) = int32(le32(lpRest(e)))
def lnSig(e) = lpBody(lpRest(e)[8:])
def lnCert(e) = lpBody(lpBody(e))
def lnSignedAlgo(e) = int32(le32(lpRest(lpBody(e))))
// the node signed by the previous one p
def lnLink(p, e) = SigOK(spkiOf(content(lnCert(p))), lnAlgo(p), content(lnData(e)), content(lnSig(e))) && lnSignedAlgo(e) == lnAlgo(p)
// the reported node shows what the encoded node contains
def lnNode(n, e) = n != nil && n.SigningCert != nil && content(n.SigningCert.Raw) == content(lnCert(e)) && n.SigAlgorithm == lnAlgo(e) &&
      n.ParentSigAlgorithm == lnSignedAlgo(e) && n.Flags == lnFlags(e) && content(n.Signature) == content(lnSig(e))
def certWF(c) = c != nil && keyOK(c.PublicKey) && g(c.PublicKey, keyb) == spkiOf(content(c.Raw))

func signingblock.lineageCalculateMinSdkVersion(nodes) (r)
  panics C14 C16
  requires forall(j, trig(nodes[j]), imp(0 <= j && j < len(nodes), nodes[j] != nil))
  ensures r >= 28

func signingblock.(*V3LineageSigningCertificateNode).Equal(n, o) (r)
  panics C14 C16
  requires n != nil && o != nil && n.SigningCert != nil && o.SigningCert != nil
  ensures iff(r, n == o || (content(n.SigningCert.Raw) == content(o.SigningCert.Raw) && n.ParentSigAlgorithm == o.ParentSigAlgorithm && n.SigAlgorithm == o.SigAlgorithm &&
      content(n.Signature) == content(o.Signature) && n.Flags == o.Flags))

def nodeEq(a, b) = a == b || (content(a.SigningCert.Raw) == content(b.SigningCert.Raw) && a.ParentSigAlgorithm == b.ParentSigAlgorithm && a.SigAlgorithm == b.SigAlgorithm &&
      content(a.Signature) == content(b.Signature) && a.Flags == b.Flags)
def nodesWF(l) = forall(j, trig(l[j]), imp(0 <= j && j < len(l), l[j] != nil && l[j].SigningCert != nil))

func signingblock.(V3LineageSigningCertificateNodeList).Equal(l, o) (r)
  panics C14 C16
  requires nodesWF(l) && nodesWF(o)
  ensures [C06] imp(r, len(l) == len(o) && forall(j, trig(l[j]), imp(0 <= j && j < len(l), nodeEq(l[j], o[j]))))
  loopinv (i phi int) : forall(j, trig(l[j]), imp(0 <= j && j < i, nodeEq(l[j], o[j])))
  loopinv (i phi int) : forall(j, trig(l[j]), imp(0 <= j && j <= i, nodeEq(l[j], o[j])))

func signingblock.(*V3SigningLineage).getSubLineage(l, cert) (sub, err)
  panics C14 C16
  requires l != nil && cert != nil && nodesWF(l.Nodes)
  cases err == nil
  fresh sub when err == nil
  ensures imp(err == nil, sub != nil)
  ensures [C06] imp(err == nil, len(sub.Nodes) >= 1 && len(sub.Nodes) <= len(l.Nodes) && content(l.Nodes[len(sub.Nodes) - 1].SigningCert.Raw) == content(cert.Raw))
  ensures [C06] imp(err == nil, forall(j, trig(sub.Nodes[j]), imp(0 <= j && j < len(sub.Nodes), sub.Nodes[j] == l.Nodes[j])))

def nodesOK(l, v) = forall(j, trig(l[j]), imp(0 <= j && j < len(l), lnNode(l[j], lpNth(v, j)) && certWF(l[j].SigningCert)))
def linksOK(n, v) = forall(j, trig(lpRel(v, j)), imp(0 < j && j < n, lnLink(lpNth(v, j - 1), lpNth(v, j))))
def certsDistinct(l) = forall(i, trig(l[i]), forall(j, trig(l[j]), imp(0 <= i && i < j && j < len(l), content(l[i].SigningCert.Raw) != content(l[j].SigningCert.Raw))))

// some signed data carrying certificate c and algorithm sa is signed by the key of certificate pc with algorithm pa
ghost signedNode(pc blob, pa int, c blob, sa int, sig blob) bool
axiom signedNodeI (sd view, pc blob, pa int, sig blob) {SigOK(spkiOf(pc), pa, content(sd), sig)} : imp(SigOK(spkiOf(pc), pa, content(sd), sig),
      signedNode(pc, pa, content(lpBody(sd)), int32(le32(lpRest(sd))), sig))
def linkedNodes(p, n) = n.ParentSigAlgorithm == p.SigAlgorithm && signedNode(content(p.SigningCert.Raw), p.SigAlgorithm, content(n.SigningCert.Raw), n.ParentSigAlgorithm, content(n.Signature))
def chainLinks(l) = forall(j, trig(l[j]), imp(0 < j && j < len(l), linkedNodes(l[j - 1], l[j])))
// the reported chain is cryptographically valid
def chainValid(l) = nodesWF(l) && chainLinks(l) && certsDistinct(l)

func signingblock.(*schemeV3).readSigningCertificateLineage(s, lineageSlice) (nodes, err)
  panics C14 C16
  requires lineageSlice != nil
  modifies lineageSlice.buf, lineageSlice.off, lineageSlice.lastRead
  cases err == nil
  let v = old(view(rem(lineageSlice)))[4:]
  ensures [C06] imp(err == nil, len(nodes) == 0 || (int32(le32(old(rem(lineageSlice)))) == 1 && len(nodes) == lpCount(v)))
  ensures imp(err == nil, nodesWF(nodes))
  ensures [C06,C16] nodes: imp(err == nil, nodesOK(nodes, v))
  ensures [C06,C16] links: imp(err == nil, linksOK(len(nodes), v))
  ensures [C06,C16] chain: imp(err == nil, chainLinks(nodes))
  ensures [C06] distinct: imp(err == nil, certsDistinct(nodes))
  loopinv 0 <= len(rem(lineageSlice)) && len(rem(lineageSlice)) <= len(v)
  loopinv (l phi signingblock.V3LineageSigningCertificateNodeList) : len(l) <= len(v) - len(rem(lineageSlice))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : lpTailN(v, view(rem(lineageSlice)), len(l))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : lpTail0(v, view(rem(lineageSlice)), len(l))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : lpTailK(v, view(rem(lineageSlice)), len(l))
  loopinv sameview(view(rem(lineageSlice)), v[len(v) - len(rem(lineageSlice)):])
  loopinv (l phi signingblock.V3LineageSigningCertificateNodeList) : forall(j, trig(l[j]), imp(0 <= j && j < len(l), l[j] != nil && l[j].SigningCert != nil && isnew(l[j])))
  loopinv (l phi signingblock.V3LineageSigningCertificateNodeList) : forall(j, trig(l[j]), imp(0 <= j && j < len(l), certWF(l[j].SigningCert)))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : forall(j, trig(l[j]), imp(0 <= j && j < len(l), content(l[j].SigningCert.Raw) == content(lnCert(lpNth(v, j)))))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : forall(j, trig(l[j]), imp(0 <= j && j < len(l), l[j].SigAlgorithm == lnAlgo(lpNth(v, j)) && l[j].ParentSigAlgorithm == lnSignedAlgo(lpNth(v, j)) && l[j].Flags == lnFlags(lpNth(v, j))))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : forall(j, trig(l[j]), imp(0 <= j && j < len(l), content(l[j].Signature) == content(lnSig(lpNth(v, j)))))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : linksOK(len(l), v)
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : chainLinks(l)
  loopinv (l phi signingblock.V3LineageSigningCertificateNodeList, c phi *x509.Certificate, a phi signingblock.SignatureAlgorithm) : ite(len(l) == 0, c == nil, c != nil && c == l[len(l) - 1].SigningCert && a == l[len(l) - 1].SigAlgorithm)
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList, h phi []*x509.Certificate) : len(h) == len(l) && forall(j, trig(h[j]), imp(0 <= j && j < len(h), h[j] == l[j].SigningCert))
  loopinv [C06,C16] (l phi signingblock.V3LineageSigningCertificateNodeList) : certsDistinct(l)
  loopinv [C06,C16] (l signingblock.V3LineageSigningCertificateNodeList, c *x509.Certificate, i phi int) : forall(j, trig(l[j]), imp(0 <= j && j <= i, content(l[j].SigningCert.Raw) != content(c.Raw)))

def lineageNodesWF(ls) = forall(i, trig(ls[i]), imp(0 <= i && i < len(ls), ls[i] != nil && forall(j, trig(ls[i].Nodes[j]), imp(0 <= j && j < len(ls[i].Nodes), ls[i].Nodes[j] != nil && ls[i].Nodes[j].SigningCert != nil))))
def lnPrefix(a, b) = len(a.Nodes) <= len(b.Nodes) && forall(j, trig(a.Nodes[j]), imp(0 <= j && j < len(a.Nodes), nodeEq(a.Nodes[j], b.Nodes[j])))

func signingblock.(*schemeV3).consolidateLineages(s, lineages) (r, err)
  panics C14
  requires lineageNodesWF(lineages)
  cases err == nil
  ensures [C06] imp(err == nil && len(lineages) == 0, r == nil)
  ensures [C06] imp(err == nil && len(lineages) > 0, exists(i, trig(lineages[i]), 0 <= i && i < len(lineages) && r == lineages[i]))
  ensures [C06] imp(err == nil, forall(i, trig(lineages[i]), imp(0 <= i && i < len(lineages), lnPrefix(lineages[i], r))))
  ensures imp(err != nil, r == nil)
  loopinv (i phi int, m phi int, li phi int) : 0 <= li && li < len(lineages)
  loopinv (i phi int, m phi int) : forall(j, trig(lineages[j]), imp(0 <= j && j < i, len(lineages[j].Nodes) <= m))
  loopinv (i phi int, m phi int) : forall(j, trig(lineages[j]), imp(0 <= j && j <= i, len(lineages[j].Nodes) <= m))
  loopinv (m phi int, li phi int) : (m == 0 && li == 0) || len(lineages[li].Nodes) == m
  loopinv (i phi int, h signingblock.V3LineageSigningCertificateNodeList) : forall(j, trig(lineages[j]), imp(0 <= j && j <= i, len(lineages[j].Nodes) <= len(h) && forall(k, trig(lineages[j].Nodes[k]), imp(0 <= k && k < len(lineages[j].Nodes), nodeEq(lineages[j].Nodes[k], h[k])))))
