// schemev1.go, certinfo.go

ghost slower(s blob) blob
ghost ssplitN(s blob, sep blob) int
ghost ssplitAt(s blob, sep blob, i int) blob

func strings.ToLower(s) (r)
  trusted
  ensures r == slower(s)

func strings.Split(s, sep) (r)
  trusted
  fresh r when true
  ensures len(r) == ssplitN(s, sep)
  ensures forall(j, trig(r[j]), imp(0 <= j && j < len(r), r[j] == ssplitAt(s, sep, j)))
  ensures forall(j, trig(ssplitAt(s, sep, j)), imp(0 <= j && j < len(r), r[j] == ssplitAt(s, sep, j)))

// the algorithms an entry lists for devices before API 18, and which of them such devices check
ghost algList(s blob) blob
axiom algListDef (s blob) {algList(s)} : algList(s) == ite(slower(s) == "", "sha sha1", slower(s))
def listed(entry) = algList(entry["digest-algorithms"])
def listedN(entry) = ssplitN(listed(entry), " ")
def listedAt(entry, j) = ssplitAt(listed(entry), " ", j)
def oldChecks(entry, suffix, min, a) = (min >= 9 || (a != "sha-384" && a != "sha-512")) && in(a + suffix, entry)
// a is the strongest algorithm present
def strongest(entry, suffix, a) = in(a + suffix, entry) && (a == "sha-512" || (!in("sha-512" + suffix, entry) && (a == "sha-384" ||
      (!in("sha-384" + suffix, entry) && (a == "sha-256" || (!in("sha-256" + suffix, entry) && a == "sha1"))))))
// at least one digest is selected
def usable(entry, suffix, min, max) = (max >= 18 && someStrong(entry, suffix)) || (min < 18 && exists(j, trig(listedAt(entry, j)), 0 <= j && j < listedN(entry) && oldChecks(entry, suffix, min, listedAt(entry, j))))
def someStrong(entry, suffix) = in("sha-512" + suffix, entry) || in("sha-384" + suffix, entry) || in("sha-256" + suffix, entry) || in("sha1" + suffix, entry)

// v is an element of r
ghost mk(k int) bool
axiom mkTrue (k int) {mk(k)} : mk(k)
def hasElem(r, v) = (mk(len(r) - 1) && len(r) > 0 && r[len(r) - 1] == v) || exists(k, trig(mk(k)), mk(k) && 0 <= k && k < len(r) && r[k] == v)
def isListed(entry, v) = exists(j, trig(listedAt(entry, j)), 0 <= j && j < listedN(entry) && v == listedAt(entry, j))

func apkverifier.(*schemeV1).getDigestsToVerify(p, entry, suffix, minSdkVersion, maxSdkVersion) (res)
  panics C15
  requires p != nil
  ensures [C09,C10,C22] sha512: imp(maxSdkVersion >= 18 && strongest(entry, suffix, "sha-512"), hasElem(res, "sha-512"))
  ensures [C09,C10,C22] sha384: imp(maxSdkVersion >= 18 && strongest(entry, suffix, "sha-384"), hasElem(res, "sha-384"))
  ensures [C09,C10,C22] sha256: imp(maxSdkVersion >= 18 && strongest(entry, suffix, "sha-256"), hasElem(res, "sha-256"))
  ensures [C09,C10,C22] sha1: imp(maxSdkVersion >= 18 && strongest(entry, suffix, "sha1"), hasElem(res, "sha1"))
  ensures [C22] list: imp(minSdkVersion < 18, forall(j, trig(listedAt(entry, j)), imp(0 <= j && j < listedN(entry) && oldChecks(entry, suffix, minSdkVersion, listedAt(entry, j)), hasElem(res, listedAt(entry, j)))))
  ensures [C09,C10,C22] only: forall(k, trig(res[k]), imp(0 <= k && k < len(res), (maxSdkVersion >= 18 && strongest(entry, suffix, res[k])) ||
      (minSdkVersion < 18 && isListed(entry, res[k]) && oldChecks(entry, suffix, minSdkVersion, res[k]))))
  loopinv [C22] (r phi []string, i phi int) : forall(j, trig(listedAt(entry, j)), imp(0 <= j && j <= i && oldChecks(entry, suffix, minSdkVersion, listedAt(entry, j)), hasElem(r, listedAt(entry, j))))
  loopinv [C09,C10,C22] (r phi []string) : forall(k, trig(r[k]), imp(0 <= k && k < len(r), isListed(entry, r[k]) && oldChecks(entry, suffix, minSdkVersion, r[k])))

func apkverifier.(*schemeV1).chainEqual(p, a, b) (r)
  panics C15

func apkverifier.(*schemeV1).certChainsMatch(p, a, b) (r)
  panics C15

ghost b64ok(s blob) bool
ghost b64(s blob) blob

func base64.(*Encoding).DecodeString(enc, s) (b, err)
  trusted
  cases err == nil
  fresh b when true
  ensures iff(err == nil, b64ok(s)) && imp(err == nil, content(b) == b64(s))

// the function a digest check hands its hash to accepted the decoded hash d with a fresh hasher of algorithm alg
ghost calledOK(f ref, d blob, alg int, out blob) bool
def algNum(a) = ite(a == "sha-512", 7, ite(a == "sha-384", 6, ite(a == "sha-256", 5, ite(a == "sha1", 3, 0))))
def checked(f, entry, suffix, a) = algNum(a) != 0 && b64ok(entry[a + suffix]) && calledOK(f, b64(entry[a + suffix]), algNum(a), "")
// every hasher computes the algorithm it is filed under
def hashersOK(p) = p.hashers != nil && forall(a, "blob", trig(p.hashers[a]), imp(p.hashers[a] != nil, g(p.hashers[a], halg) == algNum(a) && algNum(a) != 0))

func apkverifier.(*schemeV1).verifyManifestEntry(p, entry, digestSuffix, minSdkVersion, maxSdkVersion, verify) (err)
  panics C15
  requires p != nil && verify != nil
  requires hashersOK(p)
  modifies mapof(p.hashers)
  modifies allghost(hout)
  ensures hashersOK(p)
  ensures [C09,C10,C22] some: imp(err == nil, usable(entry, digestSuffix, minSdkVersion, maxSdkVersion))
  ensures [C09,C10,C22] sha512: imp(err == nil && maxSdkVersion >= 18 && strongest(entry, digestSuffix, "sha-512"), checked(verify, entry, digestSuffix, "sha-512"))
  ensures [C09,C10,C22] sha384: imp(err == nil && maxSdkVersion >= 18 && strongest(entry, digestSuffix, "sha-384"), checked(verify, entry, digestSuffix, "sha-384"))
  ensures [C09,C10,C22] sha256: imp(err == nil && maxSdkVersion >= 18 && strongest(entry, digestSuffix, "sha-256"), checked(verify, entry, digestSuffix, "sha-256"))
  ensures [C09,C10,C22] sha1: imp(err == nil && maxSdkVersion >= 18 && strongest(entry, digestSuffix, "sha1"), checked(verify, entry, digestSuffix, "sha1"))
  ensures [C22] list: imp(err == nil && minSdkVersion < 18, forall(j, trig(listedAt(entry, j)), imp(0 <= j && j < listedN(entry) && oldChecks(entry, digestSuffix, minSdkVersion, listedAt(entry, j)), checked(verify, entry, digestSuffix, listedAt(entry, j)))))
  loopinv hashersOK(p)
  loopinv [C09,C10,C22] (l range []string, i phi int) : forall(k, trig(mk(k)), imp(0 <= k && k <= i, checked(verify, entry, digestSuffix, l[k])))

// an entry of the archive can be read as content c (the central directory or a local header decides how)
ghost zipHas(f ref, c blob) bool
ghost entryMatches(f ref, d blob, alg int) bool
axiom entryMatchesDef (f ref, c blob, alg int) {entryMatches(f, H(alg, c), alg)} : imp(zipHas(f, c), entryMatches(f, H(alg, c), alg))

func apkparser.(*ZipReaderFile).Open(f) (err)
  trusted
  requires f != nil

func apkparser.(*ZipReaderFile).Close(f) (err)
  trusted
  requires f != nil

func apkparser.(*ZipReaderFile).Next(f) (r)
  trusted
  requires f != nil
  modifies g(f, zcur)
  ensures imp(r, zipHas(f, g(f, zcur)))

func io.Copy(dst, src) (n, err)
  trusted
  cases err == nil
  modifies g(dst, hout)
  ensures imp(err == nil, g(dst, hout) == old(g(dst, hout)) + g(src, zcur))

func apkverifier.(*schemeV1).verifyFileHash(p, f, hash, hasher) (err)
  panics C15
  requires f != nil && hasher != nil
  modifies g(hasher, hout)
  modifies g(f, zcur)
  ensures [C09] match: imp(err == nil, entryMatches(f, content(hash), g(hasher, halg)))

// every selected strong digest of the manifest section of path matches the content of the entry
def strongMatch(f, e, max, a) = imp(max >= 18 && strongest(e, "-digest", a), b64ok(e[a + "-digest"]) && entryMatches(f, b64(e[a + "-digest"]), algNum(a)))
def covered(f, e, min, max) = usable(e, "-digest", min, max) && strongMatch(f, e, max, "sha-512") && strongMatch(f, e, max, "sha-384") && strongMatch(f, e, max, "sha-256") && strongMatch(f, e, max, "sha1")
def hasPrefix(s, q) = len(q) <= len(s) && s[:len(q)] == q
def needsDigest(path) = path != "AndroidManifest.xml" && !hasPrefix(path, "META-INF/")
// some signature file left lists the path
def signedPath(p, path) = exists(n, "blob", trig(p.sigs[n]), in(n, p.sigs) && in(path, p.sigs[n].signatureManifest.entries))
def coveredPath(p, apk, path, min, max) = in(path, p.manifest.entries) && covered(apk.File[path], p.manifest.entries[path], min, max)

func apkverifier.(*schemeV1).verifyMainManifest(p, apk, minSdkVersion, maxSdkVersion) (err)
  panics C15
  requires p != nil && apk != nil && p.manifest != nil && hashersOK(p)
  requires forall(path, "blob", trig(apk.File[path]), imp(in(path, apk.File), apk.File[path] != nil))
  requires forall(n, "blob", trig(p.sigs[n]), imp(in(n, p.sigs), p.sigs[n] != nil && p.sigs[n].signatureManifest != nil))
  modifies p.chain
  modifies mapof(p.hashers)
  modifies allghost(hout)
  modifies allghost(zcur)
  ensures [C09] listed: imp(err == nil, forall(path, "blob", trig(in(path, p.manifest.entries)), imp(in(path, p.manifest.entries), in(path, apk.File))))
  ensures [C09] files: imp(err == nil, forall(path, "blob", trig(in(path, apk.File)), imp(in(path, apk.File) && !apk.File[path].IsDir && needsDigest(path), coveredPath(p, apk, path, minSdkVersion, maxSdkVersion))))
  ensures [C09] app: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, in("AndroidManifest.xml", p.manifest.entries))
  ensures [C09] app-some: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, usable(p.manifest.entries["AndroidManifest.xml"], "-digest", minSdkVersion, maxSdkVersion))
  ensures [C09] app-sha-512: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-512"))
  ensures [C09] app-sha-384: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-384"))
  ensures [C09] app-sha-256: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-256"))
  ensures [C09] app-sha1: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha1"))
  ensures [C09] bundle: imp(err == nil && !(in("BundleConfig.pb", apk.File) && !apk.File["BundleConfig.pb"].IsDir), coveredPath(p, apk, "AndroidManifest.xml", minSdkVersion, maxSdkVersion))
  ensures [C09] signed: imp(err == nil, forall(path, "blob", trig(in(path, apk.File)), imp(in(path, apk.File) && !apk.File[path].IsDir && needsDigest(path), signedPath(p, path))))
  loopinv hashersOK(p)
  loopinv [C09] (l range []string) : mk(len(l) - 1)
  loopinv [C09] (c phi [][]*x509.Certificate, path string) : imp(len(c) > 0, signedPath(p, path))
  loopinv [C09] (l range []string, i phi int) : forall(k, trig(mk(k)), imp(0 <= k && k <= i, signedPath(p, l[k])))
  loopinv [C09] forall(path, "blob", trig(visited(path)), imp(visited(path), in(path, apk.File)))
  loopinv [C09] (l phi []string) : forall(path, "blob", trig(visited(path)), imp(visited(path) && !apk.File[path].IsDir && needsDigest(path), hasElem(l, path)))
  loopinv [C09] (am phi bool) : imp(visited("AndroidManifest.xml") && !apk.File["AndroidManifest.xml"].IsDir, am)
  loopinv [C09] (am phi bool) : imp(am, visited("BundleConfig.pb") && !apk.File["BundleConfig.pb"].IsDir)
  loopinv [C09] (l range []string, i phi int) : forall(k, trig(mk(k)), imp(0 <= k && k <= i, in(l[k], p.manifest.entries) && usable(p.manifest.entries[l[k]], "-digest", minSdkVersion, maxSdkVersion)))
  loopinv [C09] (l range []string, i phi int) : forall(k, trig(mk(k)), imp(0 <= k && k <= i, strongMatch(apk.File[l[k]], p.manifest.entries[l[k]], maxSdkVersion, "sha-512")))
  loopinv [C09] (l range []string, i phi int) : forall(k, trig(mk(k)), imp(0 <= k && k <= i, strongMatch(apk.File[l[k]], p.manifest.entries[l[k]], maxSdkVersion, "sha-384")))
  loopinv [C09] (l range []string, i phi int) : forall(k, trig(mk(k)), imp(0 <= k && k <= i, strongMatch(apk.File[l[k]], p.manifest.entries[l[k]], maxSdkVersion, "sha-256")))
  loopinv [C09] (l range []string, i phi int) : forall(k, trig(mk(k)), imp(0 <= k && k <= i, strongMatch(apk.File[l[k]], p.manifest.entries[l[k]], maxSdkVersion, "sha1")))

def v1Sig(s) = s != nil && s.signatureManifest != nil && s.cert != nil
def v1OK(p) = p.manifest != nil && hashersOK(p) && forall(n, "blob", trig(p.sigs[n]), imp(in(n, p.sigs), v1Sig(p.sigs[n])))
def filesOK(apk) = forall(path, "blob", trig(apk.File[path]), imp(in(path, apk.File), apk.File[path] != nil))

def readable(apk) = filesOK(apk) && forall(k, trig(apk.FilesOrdered[k]), imp(0 <= k && k < len(apk.FilesOrdered), apk.FilesOrdered[k] != nil))

// the signature file of s is authenticated by the signature block of s
ghost v1Auth(s ref, min int, max int) bool

func apkverifier.(*schemeV1).verifySignature(p, sig, minSdkVersion, maxSdkVersion) (chain, err)
  trusted
  requires p != nil && v1Sig(sig)
  fresh chain when true
  ensures iff(err == nil, v1Auth(refof(sig), minSdkVersion, maxSdkVersion))

ghost strim(s blob) blob
func strings.TrimSpace(s) (r)
  trusted
  ensures r == strim(s)

// what a decimal number in 32 bits reads as
ghost intOK(s blob, base int, bits int) bool
ghost intVal(s blob, base int, bits int) int
func strconv.ParseInt(s, base, bitSize) (i, err)
  trusted
  cases err == nil
  ensures iff(err == nil, intOK(s, base, bitSize)) && imp(err == nil, i == intVal(s, base, bitSize))

def idAt(s, j) = strim(ssplitAt(s, ",", j))
def isTwo(t) = t != "" && intOK(t, 10, 32) && intVal(t, 10, 32) == 2
ghost claimsV2(s blob) bool
axiom claimsV2Def (s blob) {claimsV2(s)} : iff(claimsV2(s), exists(j, trig(ssplitAt(s, ",", j)), 0 <= j && j < ssplitN(s, ",") && isTwo(idAt(s, j))))

// the signature file of s does not announce a v2 signature
def noV2(s) = imp(in("x-android-apk-signed", s.signatureManifest.main), !claimsV2(s.signatureManifest.main["x-android-apk-signed"]))

func apkverifier.(*schemeV1).verify(p, apk, hasValidSigningBlock, minSdkVersion, maxSdkVersion) (err)
  panics C15
  requires p != nil && apk != nil && v1OK(p) && filesOK(apk)
  modifies p.sigs
  modifies p.chain
  modifies all("schemeV1Signature", chain)
  modifies mapof(p.hashers)
  modifies allghost(hout)
  modifies allghost(zcur)
  ensures [C09] signed: imp(err == nil, forall(path, "blob", trig(in(path, apk.File)), imp(in(path, apk.File) && !apk.File[path].IsDir && needsDigest(path), signedPath(p, path))))
  ensures [C09] listed: imp(err == nil, forall(path, "blob", trig(in(path, p.manifest.entries)), imp(in(path, p.manifest.entries), in(path, apk.File))))
  ensures [C09] files: imp(err == nil, forall(path, "blob", trig(in(path, apk.File)), imp(in(path, apk.File) && !apk.File[path].IsDir && needsDigest(path), coveredPath(p, apk, path, minSdkVersion, maxSdkVersion))))
  ensures [C09] app: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, in("AndroidManifest.xml", p.manifest.entries))
  ensures [C09] app-some: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, usable(p.manifest.entries["AndroidManifest.xml"], "-digest", minSdkVersion, maxSdkVersion))
  ensures [C09] app-sha-512: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-512"))
  ensures [C09] app-sha-384: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-384"))
  ensures [C09] app-sha-256: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-256"))
  ensures [C09] app-sha1: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, strongMatch(apk.File["AndroidManifest.xml"], p.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha1"))
  ensures [C09] bundle: imp(err == nil && !(in("BundleConfig.pb", apk.File) && !apk.File["BundleConfig.pb"].IsDir), coveredPath(p, apk, "AndroidManifest.xml", minSdkVersion, maxSdkVersion))
  ensures [C11] stripped: imp(err == nil && !hasValidSigningBlock && maxSdkVersion >= 24, forall(n, "blob", trig(in(n, old(p.sigs))), imp(in(n, old(p.sigs)) && v1Auth(refof(old(p.sigs)[n]), minSdkVersion, maxSdkVersion) && in("x-android-apk-signed", old(p.sigs)[n].signatureManifest.main), !claimsV2(old(p.sigs)[n].signatureManifest.main["x-android-apk-signed"]))))
  loopinv v1OK(p)
  loopinv (m map[string]*apkverifier.schemeV1Signature) : forall(n, "blob", trig(m[n]), imp(in(n, m), v1Sig(m[n])))
  loopinv [C11] forall(n, "blob", trig(visited(n)), imp(visited(n) && !hasValidSigningBlock && maxSdkVersion >= 24 && v1Auth(refof(p.sigs[n]), minSdkVersion, maxSdkVersion) && in("x-android-apk-signed", p.sigs[n].signatureManifest.main), !claimsV2(p.sigs[n].signatureManifest.main["x-android-apk-signed"])))
  ensures [C11] left: imp(err == nil && !hasValidSigningBlock && maxSdkVersion >= 24, forall(n, "blob", trig(p.sigs[n]), imp(in(n, p.sigs), noV2(p.sigs[n]))))
  loopinv [C11] (m map[string]*apkverifier.schemeV1Signature) : forall(n, "blob", trig(m[n]), imp(in(n, m) && !hasValidSigningBlock && maxSdkVersion >= 24, noV2(m[n])))
  loopinv [C11] (l range []string, i phi int) : forall(k, trig(l[k]), imp(0 <= k && k <= i, !isTwo(strim(l[k]))))

func apkverifier.parseManifest(f, withChunks) (m, err)
  trusted
  requires f != nil
  modifies allghost(zcur)
  fresh m when err == nil
  ensures imp(err == nil, m != nil)

func pkcs7.Parse(data) (p7, err)
  trusted
  fresh p7 when err == nil
  ensures imp(err == nil, p7 != nil)

func ioutil.ReadAll(r) (b, err)
  trusted
  fresh b when true

func filepath.Base(path) (r)
  trusted

func strings.LastIndexByte(s, c) (i)
  trusted
  ensures i >= -1 && i < len(s)
  ensures imp(i >= 0, s[i] == c)

func apkverifier.(*schemeV1).signaturePrefix(p, pathUpper) (r)
  trusted

func apkverifier.(*schemeV1).prepForVerification(p) (err)
  panics C15
  requires p != nil
  modifies mapof(p.sigs)
  ensures [C09,C10,C11,C22] man: imp(err == nil, p.manifest != nil)
  ensures [C09,C10,C11,C22] sigs: imp(err == nil, forall(n, "blob", trig(p.sigs[n]), imp(in(n, p.sigs), v1Sig(p.sigs[n]))))
  loopinv [C09,C10,C11,C22] forall(n, "blob", trig(visited(n)), imp(visited(n) && in(n, p.sigs), v1Sig(p.sigs[n])))

func apkverifier.newSchemeV1(apk) (r, err)
  panics C15
  requires apk != nil
  requires forall(k, trig(apk.FilesOrdered[k]), imp(0 <= k && k < len(apk.FilesOrdered), apk.FilesOrdered[k] != nil))
  modifies allghost(zcur)
  modifies all("schemeV1Signature", cert)
  modifies all("schemeV1Signature", manifestFilename)
  modifies all("schemeV1Signature", sigBlockFilename)
  modifies all("schemeV1Signature", signatureManifest)
  fresh r when err == nil
  ensures own: imp(err == nil, r != nil && isnew(r.hashers) && isnew(r.sigs))
  ensures [C09,C10,C11,C22] ready: imp(err == nil, v1OK(r))
  loopinv (s []*apkparser.ZipReaderFile) : forall(k, trig(s[k]), imp(0 <= k && k < len(s), s[k] != nil))
  loopinv (m map[string]*apkparser.ZipReaderFile) : forall(n, "blob", trig(m[n]), imp(in(n, m), m[n] != nil))

func apkverifier.extractCertsSchemeV1(apk, minSdkVersion, maxSdkVersion) (chains, err)
  panics C15
  requires apk != nil
  requires [C09,C11,C15,C22] readable(apk)
  modifies allghost(zcur)
  modifies allghost(hout)
  modifies all("schemeV1Signature", chain)
  modifies all("schemeV1Signature", cert)
  modifies all("schemeV1Signature", manifestFilename)
  modifies all("schemeV1Signature", sigBlockFilename)
  modifies all("schemeV1Signature", signatureManifest)

func apkverifier.NewCertInfo(cert) (r)
  panics C15

func apkverifier.PickBestApkCert(chains) (info, cert)
  panics C15
