// signingblock/signingblock.go : choosing the scheme, integrity of the contents

func signingblock.(*signingBlock).pickScheme(s, blocks, minSdkVersion, maxSdkVersion) (schemeId, scheme, block, err)
  inline
func signingblock.(*signingBlock).extractCerts(s, scheme, block, res) (r)
  inline
func signingblock.(*signingBlock).verify(s, scheme, block, minSdkVersion, maxSdkVersion, res) (r)
  inline

def locatedOK(s) = sbWF(s) && 0 <= s.sigBlockOffset && s.sigBlockOffset <= s.centralDirOffset && s.centralDirOffset < s.eocdOffset && s.eocdOffset < len(filev(s.file)) && len(s.eocd) >= 22
// the digest of kind a over three sections: before the signing block, the central directory, the end record (e1, a central directory offset, e2)
ghost fileDigest(a int, pre blob, cd blob, e1 blob, off int, e2 blob) blob
// the digest of kind a of the file of s outside its signing block, the end record pointing to the signing block
def digestOf(s, a) = fileDigest(a, content(filev(s.file)[0:s.sigBlockOffset]), content(filev(s.file)[s.centralDirOffset:s.eocdOffset]), content(view(s.eocd)[0:16]), s.sigBlockOffset % 4294967296, content(view(s.eocd)[20:]))

// the data sources the digests are computed over
def srcApk(x) = as(x, "*signingblock.dataSourceApk")
def srcBytes(x) = as(x, "*signingblock.dataSourceBytes")
def apkSrcOK(x) = typeis(x, "*signingblock.dataSourceApk") && srcApk(x) != nil && refof(srcApk(x).file) != nil && 0 <= srcApk(x).start && srcApk(x).start <= srcApk(x).end && srcApk(x).end <= len(filev(srcApk(x).file))
def srcsOK(c) = len(c) == 3 && apkSrcOK(c[0]) && apkSrcOK(c[1]) && srcApk(c[0]).file == srcApk(c[1]).file && typeis(c[2], "*signingblock.dataSourceBytes") && srcBytes(c[2]) != nil && len(srcBytes(c[2]).data) >= 22
def apkSrcView(x) = filev(srcApk(x).file)[srcApk(x).start:srcApk(x).end]
def srcsDigest(c, a) = fileDigest(a, content(apkSrcView(c[0])), content(apkSrcView(c[1])), content(view(srcBytes(c[2]).data)[0:16]), le32(srcBytes(c[2]).data, 16), content(view(srcBytes(c[2]).data)[20:]))

func signingblock.(*signingBlock).computeOneMbChunkContentDigests(s, digestAlgorithms, contents) (r, err)
  panics C14
  trusted
  requires s != nil && srcsOK(contents) && forall(j, trig(digestAlgorithms[j]), imp(0 <= j && j < len(digestAlgorithms), digestAlgorithms[j] == 1 || digestAlgorithms[j] == 2))
  modifies fileof(srcApk(contents[0]).file)
  cases err == nil
  fresh r when err == nil
  ensures imp(err == nil, r != nil)
  ensures [C01] imp(err == nil, forall(j, trig(digestAlgorithms[j]), imp(0 <= j && j < len(digestAlgorithms), in(digestAlgorithms[j], r) && content(r[digestAlgorithms[j]]) == srcsDigest(contents, digestAlgorithms[j]))))

func signingblock.(*signingBlock).computeVerityContentDigest(s, contents) (r, err)
  panics C14
  trusted
  requires s != nil && srcsOK(contents)
  modifies fileof(srcApk(contents[0]).file)
  cases err == nil
  ensures [C01] imp(err == nil, content(r) == srcsDigest(contents, 3))

func signingblock.(*signingBlock).computeContentDigests(s, digestAlgorithms, contents) (r, err)
  panics C14
  requires s != nil && srcsOK(contents) && forall(j, trig(digestAlgorithms[j]), imp(0 <= j && j < len(digestAlgorithms), 1 <= digestAlgorithms[j] && digestAlgorithms[j] <= 3))
  modifies fileof(srcApk(contents[0]).file)
  cases err == nil
  ensures [C01] all: imp(err == nil, forall(j, trig(digestAlgorithms[j]), imp(0 <= j && j < len(digestAlgorithms), content(r[digestAlgorithms[j]]) == srcsDigest(contents, digestAlgorithms[j]))))
  loopinv (l phi []signingblock.contentDigest) : forall(j, trig(l[j]), imp(0 <= j && j < len(l), l[j] == 1 || l[j] == 2))
  loopinv (l phi []signingblock.contentDigest) : nilslice(l) || isnew(l)
  loopinv [C01] (l phi []signingblock.contentDigest, i phi int) : forall(j, trig(digestAlgorithms[j]), imp(0 <= j && j <= i && digestAlgorithms[j] != 3, exists(k, trig(l[k]), 0 <= k && k < len(l) && l[k] == digestAlgorithms[j])))
  loopinv [C01] (v phi bool, i phi int) : forall(j, trig(digestAlgorithms[j]), imp(0 <= j && j <= i && digestAlgorithms[j] == 3, v))

func signingblock.(*signingBlock).verifyIntegrity(s, expectedDigests, result) (r)
  panics C14
  requires locatedOK(s) && result != nil
  requires forall(a, trig(in(a, expectedDigests)), imp(in(a, expectedDigests), 1 <= a && a <= 3))
  modifies result.Errors, fileof(s.file)
  ensures len(result.Errors) >= len(old(result.Errors))
  ensures [C01] imp(!r, !noErr(result))
  ensures [C01] imp(noErr(result), forall(a, trig(in(a, expectedDigests)), imp(in(a, expectedDigests), content(expectedDigests[a]) == digestOf(s, a))))
  loopinv len(result.Errors) >= len(old(result.Errors))
  loopinv (l phi []signingblock.contentDigest) : forall(j, trig(l[j]), imp(0 <= j && j < len(l), 1 <= l[j] && l[j] <= 3)) && isnew(l)
  loopinv [C01] (l phi []signingblock.contentDigest) : forall(a, trig(visited(a)), imp(visited(a), exists(k, trig(l[k]), 0 <= k && k < len(l) && l[k] == a)))
  loopinv [C01] (l []signingblock.contentDigest, i phi int) : imp(noErr(result), forall(j, trig(l[j]), imp(0 <= j && j <= i, content(expectedDigests[l[j]]) == digestOf(s, l[j]))))

// the signers of the block that decides
def signersOf(m) = lpBody(view(ite(!nilslice(m[0x1b93ad61]), m[0x1b93ad61], ite(!nilslice(m[0xf05368c0]), m[0xf05368c0], m[0x7109871a]))))
def rangeBytes(m) = ite(!nilslice(m[0x1b93ad61]) || !nilslice(m[0xf05368c0]), 8, 0)
// every signer's digest is the one of the file
def allCover(S, h, s) = forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S),
      sgDigOK(lpNth(S, k), h, 1, digestOf(s, 1)) && sgDigOK(lpNth(S, k), h, 2, digestOf(s, 2)) && sgDigOK(lpNth(S, k), h, 3, digestOf(s, 3))))
def chainsAre(r, S) = len(r.Certs) == lpCount(S) && forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), chainOf(r, k, lpNth(S, k))))
def allAuth(S, h) = forall(k, trig(lpRel(S, k)), imp(0 <= k && k < lpCount(S), sgAuth(lpNth(S, k), h)))

func signingblock.(*signingBlock).pickAndVerify(s, blocks, minSdkVersion, maxSdkVersion, res) (digests)
  panics C14
  requires locatedOK(s) && res != nil && blocks != nil && res.ExtraBlocks != blocks
  requires len(res.Certs) == 0 && len(res.Errors) == 0 && res.ExtraResults == nil && res.SigningLineage == nil
  modifies res.SchemeId, res.Certs, res.Errors, res.Warnings, res.ExtraResults, res.SigningLineage, fileof(s.file)
  let v31 = !nilslice(blocks[0x1b93ad61])
  let v3 = !nilslice(blocks[0xf05368c0])
  let v2 = !nilslice(blocks[0x7109871a])
  assume forall(j, trig(res.Errors[j]), imp(0 <= j && j < len(res.Errors), res.Errors[j] != nil))
  ensures [C03] oldplatform: imp(maxSdkVersion < 24, len(res.Certs) == 0)
  ensures [C03,C04,C07] strongest: res.SchemeId == ite(maxSdkVersion < 24 || !(v31 || v3 || v2), 1, ite(v31, 31, ite(v3, 3, 2)))
  ensures [C03,C04,C07] present: imp(noErr(res) && maxSdkVersion >= 24, v31 || v3 || v2)
  ensures [C01] digests: imp(noErr(res), forall(a, trig(in(a, digests)), imp(in(a, digests), content(digests[a]) == digestOf(s, a))))
  ensures [C03,C07] signed: imp(noErr(res) && maxSdkVersion >= 24, len(res.Certs) > 0)
  let S = signersOf(blocks)
  ensures [C03] chains: imp(noErr(res) && maxSdkVersion >= 24, chainsAre(res, S))
  ensures [C01] covered: imp(noErr(res) && maxSdkVersion >= 24, allCover(S, rangeBytes(blocks), s))
  ensures [C02] authentic: imp(noErr(res) && maxSdkVersion >= 24, allAuth(S, rangeBytes(blocks)))

func apkparser.OpenZipReader(zipReader) (zip, err)
  trusted
  cases err == nil
  modifies fileof(zipReader)
  fresh zip when err == nil
  ensures imp(err == nil, zip != nil)
  ensures [C07,C08] imp(err != nil, !typeis(err, "*signingblock.signingBlockNotFoundError") && err != apkverifier.ErrMixedDexApkFile)

func apkparser.(*ZipReader).Close(zr) (err)
  trusted
  requires zr != nil

func signingblock.(*frostingInfo).verifyApk(f, r, signingBlockOffset, schemeV2block, zipCdOffset, zipCdSize, eocdOrig) (err)
  panics C14
  trusted
  requires f != nil && refof(r) != nil && len(eocdOrig) >= 22
  modifies fileof(r)

func signingblock.(*sourceStampVerifier).VerifySourceV2Stamp(v, zip, block, contentDigests) (res)
  panics C14
  trusted
  requires v != nil && zip != nil
  modifies *v

// what is accepted: strongest scheme present for the requested platforms, or v2 after a failed v3 for old platforms
def usedPair(v, id, max) = usedId(id, max) && hasPair(v, id)
def strongestOf(v, max) = ite(usedPair(v, 0x1b93ad61, max), 31, ite(usedPair(v, 0xf05368c0, max), 3, ite(usedPair(v, 0x7109871a, max), 2, 1)))

// names the outcome of verifying the signing block of a file: 0 verified, 1 absent, 2 invalid
ghost sbState(f blob, min int, max int) int

func signingblock.VerifySigningBlockReaderWithZip(r, minSdkVersion, maxSdkVersion, optionalZip) (res, magic, err)
  panics C14
  requires refof(r) != nil
  modifies fileof(r)
  ensures [C03,C04,C07] imp(err == nil, res != nil && len(res.Errors) == 0)
  ensures [C07,C08] imp(res == nil, err != nil && !typeis(err, "*signingblock.signingBlockNotFoundError"))
  ensures [C03,C07] imp(err == nil, ite(maxSdkVersion >= 24, res.SchemeId >= 2 && len(res.Certs) > 0, res.SchemeId == 1))
  ensures [C08] imp(res != nil, magic == le32(filev(r)))
  assume [C07,C08] imp(err == nil, sbState(content(filev(r)), minSdkVersion, maxSdkVersion) == 0)
  assume [C07,C08] imp(typeis(err, "*signingblock.signingBlockNotFoundError"), sbState(content(filev(r)), minSdkVersion, maxSdkVersion) == 1)
  assume [C08] imp(err != nil, err != apkverifier.ErrMixedDexApkFile)
  witness [C04] (s *signingblock.signingBlock) strongest: imp(err == nil && maxSdkVersion >= 24, res.SchemeId == strongestOf(pairArea(s), maxSdkVersion) ||
      (res.SchemeId == 2 && strongestOf(pairArea(s), maxSdkVersion) == 3 && minSdkVersion < 28))
  witness [C12] (s *signingblock.signingBlock) located: imp(err == nil, filev(s.file) == filev(r) && layoutOK(s, filev(r)) && sbAt(filev(r), s.sigBlockOffset, s.centralDirOffset))
  witness [C01] (s *signingblock.signingBlock, m map[signingblock.BlockId][]byte) covered: imp(err == nil && maxSdkVersion >= 24, filev(s.file) == filev(r) && layoutOK(s, filev(r)) && sbAt(filev(r), s.sigBlockOffset, s.centralDirOffset) && allCover(signersOf(m), rangeBytes(m), s))
  witness [C02] (m map[signingblock.BlockId][]byte) authentic: imp(err == nil && maxSdkVersion >= 24, allAuth(signersOf(m), rangeBytes(m)))
  witness [C03] (m map[signingblock.BlockId][]byte) chains: imp(err == nil && maxSdkVersion >= 24, chainsAre(res, signersOf(m)))
  ensures [C03] imp(err == nil && maxSdkVersion < 24, len(res.Certs) == 0)

func signingblock.VerifySigningBlockReader(r, minSdkVersion, maxSdkVersion) (res, magic, err)
  panics C14
  requires refof(r) != nil
  modifies fileof(r)
  ensures [C03,C04,C07] imp(err == nil, res != nil && len(res.Errors) == 0)
  ensures [C08] imp(res != nil, magic == le32(filev(r)))

func os.Open(name) (f, err)
  trusted
  cases err == nil
  fresh f when err == nil
  ensures imp(err == nil, f != nil)

func signingblock.VerifySigningBlock(path, minSdkVersion, maxSdkVersion) (res, magic, err)
  panics C14
  ensures [C03,C04,C07] imp(err == nil, res != nil && len(res.Errors) == 0)

func signingblock.ExtractCertsReader(r, minSdkVersion, maxSdkVersion) (certs, err)
  panics C14
  requires refof(r) != nil
  modifies fileof(r)
  witness [C03] (m map[signingblock.BlockId][]byte, res *signingblock.VerificationResult) chains: imp(err == nil, sameslice(certs, res.Certs) && chainsAre(res, signersOf(m)))
  witness [C02] (m map[signingblock.BlockId][]byte) authentic: imp(err == nil, allAuth(signersOf(m), rangeBytes(m)))

func signingblock.ExtractCerts(path, minSdkVersion, maxSdkVersion) (certs, err)
  panics C14
