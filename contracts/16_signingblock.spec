// signingblock/signingblock.go : locating and enumerating the signing block

// the end-of-central-directory record at x: comment to the end of the file, central directory right before it
def eocdAt(f, x) = 0 <= x && x + 22 <= len(f) && le32(f, x) == 0x06054b50 && le16(f, x + 20) == len(f) - 22 - x
def eocdCd(f, x) = le32(f, x + 16)
def eocdCdSize(f, x) = le32(f, x + 12)
def layoutOK(s, f) = eocdAt(f, s.eocdOffset) && len(s.eocd) == len(f) - s.eocdOffset && content(s.eocd) == content(f[s.eocdOffset:]) &&
      s.centralDirOffset == eocdCd(f, s.eocdOffset) && s.centralDirSize == eocdCdSize(f, s.eocdOffset) &&
      s.centralDirOffset < s.eocdOffset && s.centralDirOffset + s.centralDirSize == s.eocdOffset
def sbWF(s) = s != nil && refof(s.file) != nil && s.fileSize == len(filev(s.file))

func signingblock.newSigningBlock(r) (sb, magic, err)
  assume [C07,C08] imp(err != nil, !typeis(err, "*signingblock.signingBlockNotFoundError"))
  panics C14
  requires refof(r) != nil
  modifies fileof(r)
  cases err == nil
  fresh sb when err == nil
  ensures imp(err == nil, sb != nil && sbWF(sb) && sb.file == r && sb.fileSize >= 4)
  ensures [C08] imp(err == nil, magic == le32(filev(r)))

func signingblock.(*signingBlock).findEocdMaxCommentSize(s, maxCommentSize) (err)
  panics C14
  requires sbWF(s) && s.fileSize >= 22 && maxCommentSize >= 0
  modifies s.eocdOffset, s.centralDirOffset, s.centralDirSize, s.eocd, fileof(s.file)
  cases err == nil
  ensures [C12,C01] layout: imp(err == nil, layoutOK(s, filev(s.file)))
  ensures imp(err == nil, len(s.eocd) >= 22 && 0 <= s.centralDirOffset && s.centralDirOffset < s.eocdOffset && s.eocdOffset < len(filev(s.file)))

func signingblock.(*signingBlock).findEocd(s) (err)
  panics C14
  requires sbWF(s)
  modifies s.eocdOffset, s.centralDirOffset, s.centralDirSize, s.eocd, fileof(s.file)
  cases err == nil
  ensures [C12,C01] layout: imp(err == nil, layoutOK(s, filev(s.file)))
  ensures imp(err == nil, len(s.eocd) >= 22 && 0 <= s.centralDirOffset && s.centralDirOffset < s.eocdOffset && s.eocdOffset < len(filev(s.file)))

func signingblock.(*signingBlock).isZip64(s) (r)
  panics C14
  requires sbWF(s) && 0 <= s.eocdOffset && s.eocdOffset < len(filev(s.file))
  modifies fileof(s.file)
  ensures [C12] imp(g(s.file, fok), iff(r, s.eocdOffset >= 20 && le32(filev(s.file), s.eocdOffset - 20) == 0x07064b50))

// the signing block b starting at o, ending at the central directory
def sbAt(f, o, cd) = 0 <= o && o + 32 <= cd && cd <= len(f) && le64(f, cd - 16) == 0x20676953204b5041 && le64(f, cd - 8) == 0x3234206b636f6c42 &&
      le64(f, cd - 24) == cd - o - 8 && le64(f, o) == cd - o - 8

func signingblock.(*signingBlock).findApkSigningBlock(s) (block, offset, err)
  panics C14
  requires sbWF(s) && 0 <= s.centralDirOffset && s.centralDirOffset < len(filev(s.file))
  modifies fileof(s.file)
  cases err == nil
  ensures [C12,C01] located: imp(err == nil, sbAt(filev(s.file), offset, s.centralDirOffset))
  ensures imp(err == nil, 0 <= offset && offset <= s.centralDirOffset && len(block) == s.centralDirOffset - offset && len(block) >= 32)
  ensures [C12,C13,C04] bytes: imp(err == nil, content(block[8:len(block) - 24]) == content(filev(s.file)[offset + 8:s.centralDirOffset - 24]))

// ---- the ID-value pairs
def pairOK(v view) = len(v) >= 8 && 4 <= le64(v) && le64(v) <= 0x7fffffff && le64(v) <= len(v) - 8
def pairId(v) = le32(v, 8)
def pairBody(v) = v[12:8 + le64(v)]
def pairRest(v) = v[8 + le64(v):]
crec pairsOK(v view) bool = len(v) == 0 || (pairOK(v) && pairsOK(pairRest(v)))
// some pair has this id; the bytes of the last one with it
crec hasPair(v view, id int) bool = pairOK(v) && (pairId(v) == id || hasPair(pairRest(v), id))
crec lastPair(v view, id int, cur blob) blob = ite(!pairOK(v), cur, lastPair(pairRest(v), id, ite(pairId(v) == id, content(pairBody(v)), cur)))
// pairs are walked from here
crec pairWalk(v view) bool = true
axiom hasPairStep (v view, id int) {pairWalk(v); hasPair(v, id)} : hasPair(v, id) == (pairOK(v) && (pairId(v) == id || hasPair(pairRest(v), id)))
axiom lastPairStep (v view, id int, cur blob) {pairWalk(v); lastPair(v, id, cur)} : lastPair(v, id, cur) == ite(!pairOK(v), cur, lastPair(pairRest(v), id, ite(pairId(v) == id, content(pairBody(v)), cur)))

def blockSoFar(m, r, v, id, max) = imp(usedId(id, max), iff(in(id, m) || hasPair(r, id), hasPair(v, id)) && lastPair(r, id, ite(in(id, m), content(m[id]), "")) == lastPair(v, id, "") &&
      imp(in(id, m), !nilslice(m[id]))) && imp(!usedId(id, max), !in(id, m))
def usedId(id, max) = (id == 0x7109871a && max >= 24) || (id == 0xf05368c0 && max >= 28) || (id == 0x1b93ad61 && max >= 33) || id == 0x6dff800d
def extraId(id, max) = id != 0x42726577 && id != 0x2146444e && id != 0x6dff800d && (!usedId(id, max) || (id == 0xf05368c0 && max >= 33))
def pairArea(s) = filev(s.file)[s.sigBlockOffset + 8:s.centralDirOffset - 24]
// map m holds exactly the pairs of v with a used id
def blockIs(m, v, id, max) = iff(in(id, m), usedId(id, max) && hasPair(v, id)) && imp(in(id, m), content(m[id]) == lastPair(v, id, "") && !nilslice(m[id]))

func signingblock.(*signingBlock).findSignatureBlocks(s, maxSdkVersion, res) (blocks, frostingRes, err)
  panics C14
  requires sbWF(s) && res != nil && res.ExtraBlocks == nil
  modifies s.eocdOffset, s.centralDirOffset, s.centralDirSize, s.sigBlockOffset, s.eocd, fileof(s.file), res.ExtraBlocks, res.Frosting, res.Warnings
  ensures [C12,C01] layout: imp(err == nil, layoutOK(s, filev(s.file)) && sbAt(filev(s.file), s.sigBlockOffset, s.centralDirOffset))
  ensures [C12] zip64: imp(err == nil && g(s.file, fok), s.eocdOffset < 20 || le32(filev(s.file), s.eocdOffset - 20) != 0x07064b50)
  ensures imp(err == nil, len(s.eocd) >= 22 && 0 <= s.sigBlockOffset && s.sigBlockOffset + 32 <= s.centralDirOffset && s.centralDirOffset < s.eocdOffset && s.eocdOffset < len(filev(s.file)))
  ensures imp(err == nil, blocks != nil && isnew(blocks) && (res.ExtraBlocks == nil || isnew(res.ExtraBlocks)) && res.ExtraBlocks != blocks)
  ensures imp(frostingRes != nil, res.Frosting != nil && isnew(frostingRes) && isnew(res.Frosting) && len(s.eocd) >= 22)
  ensures [C13,C04] wellformed: imp(err == nil, pairsOK(pairArea(s)))
  ensures [C13,C04] v2: imp(err == nil, blockIs(blocks, pairArea(s), 0x7109871a, maxSdkVersion))
  ensures [C13,C04] v3: imp(err == nil, blockIs(blocks, pairArea(s), 0xf05368c0, maxSdkVersion))
  ensures [C13,C04] v31: imp(err == nil, blockIs(blocks, pairArea(s), 0x1b93ad61, maxSdkVersion))
  ensures [C13] stamp: imp(err == nil, blockIs(blocks, pairArea(s), 0x6dff800d, maxSdkVersion))
  ensures [C13,C04] only: imp(err == nil, forall(id, trig(in(id, blocks)), imp(in(id, blocks), usedId(id, maxSdkVersion))))
  ensures [C13] extra: imp(err == nil, forall(id, trig(in(id, res.ExtraBlocks)), iff(in(id, res.ExtraBlocks), extraId(id, maxSdkVersion) && hasPair(pairArea(s), id))))
  ensures [C13] extraBytes: imp(err == nil, forall(id, trig(in(id, res.ExtraBlocks)), imp(in(id, res.ExtraBlocks), content(res.ExtraBlocks[id]) == lastPair(pairArea(s), id, "") && !nilslice(res.ExtraBlocks[id]))))
  loopinv (q *bytes.Reader, b []byte) : len(b) >= 32 && len(b) == s.centralDirOffset - s.sigBlockOffset && content(view(b)[8:len(b) - 24]) == content(pairArea(s))
  loopinv (q *bytes.Reader, b []byte) : len(rem(q)) <= len(b) - 32 && sameview(view(rem(q)), view(b)[len(b) - 24 - len(rem(q)):len(b) - 24])
  loopinv (e phi error) : e == nil
  loopinv res.ExtraBlocks == nil || isnew(res.ExtraBlocks)
  loopinv (m map[signingblock.BlockId][]byte) : m != nil && isnew(m) && m != res.ExtraBlocks
  loopinv (f phi *signingblock.frostingInfo) : imp(f != nil, isnew(f) && res.Frosting != nil && isnew(res.Frosting))
  loopinv [C13,C04] (q *bytes.Reader) : pairWalk(rem(q))
  loopinv [C13,C04] (q *bytes.Reader, b []byte) : imp(pairsOK(rem(q)), pairsOK(view(b)[8:len(b) - 24]))
  loopinv [C13,C04] (q *bytes.Reader, b []byte, m map[signingblock.BlockId][]byte) : blockSoFar(m, rem(q), view(b)[8:len(b) - 24], 0x7109871a, maxSdkVersion)
  loopinv [C13,C04] (q *bytes.Reader, b []byte, m map[signingblock.BlockId][]byte) : blockSoFar(m, rem(q), view(b)[8:len(b) - 24], 0xf05368c0, maxSdkVersion)
  loopinv [C13,C04] (q *bytes.Reader, b []byte, m map[signingblock.BlockId][]byte) : blockSoFar(m, rem(q), view(b)[8:len(b) - 24], 0x1b93ad61, maxSdkVersion)
  loopinv [C13] (q *bytes.Reader, b []byte, m map[signingblock.BlockId][]byte) : blockSoFar(m, rem(q), view(b)[8:len(b) - 24], 0x6dff800d, maxSdkVersion)
  loopinv [C13,C04] (m map[signingblock.BlockId][]byte) : forall(id, trig(in(id, m)), imp(in(id, m), usedId(id, maxSdkVersion)))
  loopinv [C13] (q *bytes.Reader, b []byte) : forall(id, trig(in(id, res.ExtraBlocks)), trig(hasPair(view(b)[8:len(b) - 24], id)), iff(in(id, res.ExtraBlocks) || (extraId(id, maxSdkVersion) && hasPair(rem(q), id)), extraId(id, maxSdkVersion) && hasPair(view(b)[8:len(b) - 24], id)))
  loopinv [C13] (q *bytes.Reader, b []byte) : forall(id, trig(in(id, res.ExtraBlocks)), imp(in(id, res.ExtraBlocks), extraId(id, maxSdkVersion) && !nilslice(res.ExtraBlocks[id])))
  loopinv [C13] (q *bytes.Reader, b []byte) : forall(id, trig(in(id, res.ExtraBlocks)), trig(lastPair(view(b)[8:len(b) - 24], id, "")), imp(in(id, res.ExtraBlocks), lastPair(rem(q), id, content(res.ExtraBlocks[id])) == lastPair(view(b)[8:len(b) - 24], id, "")))
  loopinv [C13] (q *bytes.Reader, b []byte) : forall(id, trig(lastPair(view(b)[8:len(b) - 24], id, "")), imp(!in(id, res.ExtraBlocks) && extraId(id, maxSdkVersion), lastPair(rem(q), id, "") == lastPair(view(b)[8:len(b) - 24], id, "")))
  loopinv forall(id, trig(in(id, res.ExtraBlocks)), imp(in(id, res.ExtraBlocks), aged(res.ExtraBlocks[id])))
