// apkverifier.go : the overall verdict

// names for the outcomes of reading the manifest and of verifying the v1 signatures of an archive
ghost manFails(z ref) bool
ghost manMin(z ref) int
ghost manTarget(z ref) int
ghost manSandbox(z ref) int
ghost v1Valid(z ref, withBlock bool, min int, max int) bool

func apkverifier.getManifestInfo(zip) (minSdkVersion, targetSdkVersion, sandboxVersion, err)
  trusted
  requires zip != nil
  cases err == nil
  ensures [C07,C08] iff(err == nil, !manFails(zip))
  ensures [C07,C08] minSdkVersion == manMin(zip) && targetSdkVersion == manTarget(zip) && sandboxVersion == manSandbox(zip)
  ensures [C08] imp(err != nil, err != apkverifier.ErrMixedDexApkFile)

func apkverifier.verifySchemeV1(apk, hasValidSigningBlock, minSdkVersion, maxSdkVersion) (chains, err)
  trusted unless C09,C11,C22
  requires apk != nil
  requires [C09,C11,C15,C22] readable(apk)
  modifies [C09,C11,C15,C22] allghost(zcur)
  modifies [C09,C11,C15,C22] allghost(hout)
  modifies [C09,C11,C15,C22] all("schemeV1Signature", chain)
  modifies [C09,C11,C15,C22] all("schemeV1Signature", cert)
  modifies [C09,C11,C15,C22] all("schemeV1Signature", manifestFilename)
  modifies [C09,C11,C15,C22] all("schemeV1Signature", sigBlockFilename)
  modifies [C09,C11,C15,C22] all("schemeV1Signature", signatureManifest)
  cases err == nil
  witness [C11] (s *apkverifier.schemeV1) stripped: imp(err == nil && !hasValidSigningBlock && maxSdkVersion >= 24, s != nil && sameslice(chains, s.chain) && forall(n, "blob", trig(s.sigs[n]), imp(in(n, s.sigs), noV2(s.sigs[n]))))
  witness [C09] (s *apkverifier.schemeV1) signed: imp(err == nil, s != nil && sameslice(chains, s.chain) && s.manifest != nil && forall(path, "blob", trig(in(path, apk.File)), imp(in(path, apk.File) && !apk.File[path].IsDir && needsDigest(path), signedPath(s, path))))
  witness [C09] (s *apkverifier.schemeV1) listed: imp(err == nil, s != nil && sameslice(chains, s.chain) && s.manifest != nil && forall(path, "blob", trig(in(path, s.manifest.entries)), imp(in(path, s.manifest.entries), in(path, apk.File))))
  witness [C09] (s *apkverifier.schemeV1) files: imp(err == nil, s != nil && sameslice(chains, s.chain) && s.manifest != nil && forall(path, "blob", trig(in(path, apk.File)), imp(in(path, apk.File) && !apk.File[path].IsDir && needsDigest(path), coveredPath(s, apk, path, minSdkVersion, maxSdkVersion))))
  witness [C09] (s *apkverifier.schemeV1) app: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, s != nil && sameslice(chains, s.chain) && s.manifest != nil && in("AndroidManifest.xml", s.manifest.entries))
  witness [C09] (s *apkverifier.schemeV1) app-some: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, s != nil && sameslice(chains, s.chain) && s.manifest != nil && usable(s.manifest.entries["AndroidManifest.xml"], "-digest", minSdkVersion, maxSdkVersion))
  witness [C09] (s *apkverifier.schemeV1) app-sha-512: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, s != nil && sameslice(chains, s.chain) && s.manifest != nil && strongMatch(apk.File["AndroidManifest.xml"], s.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-512"))
  witness [C09] (s *apkverifier.schemeV1) app-sha-384: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, s != nil && sameslice(chains, s.chain) && s.manifest != nil && strongMatch(apk.File["AndroidManifest.xml"], s.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-384"))
  witness [C09] (s *apkverifier.schemeV1) app-sha-256: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, s != nil && sameslice(chains, s.chain) && s.manifest != nil && strongMatch(apk.File["AndroidManifest.xml"], s.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha-256"))
  witness [C09] (s *apkverifier.schemeV1) app-sha1: imp(err == nil && in("AndroidManifest.xml", apk.File) && !apk.File["AndroidManifest.xml"].IsDir, s != nil && sameslice(chains, s.chain) && s.manifest != nil && strongMatch(apk.File["AndroidManifest.xml"], s.manifest.entries["AndroidManifest.xml"], maxSdkVersion, "sha1"))
  witness [C09] (s *apkverifier.schemeV1) bundle: imp(err == nil && !(in("BundleConfig.pb", apk.File) && !apk.File["BundleConfig.pb"].IsDir), s != nil && sameslice(chains, s.chain) && s.manifest != nil && coveredPath(s, apk, "AndroidManifest.xml", minSdkVersion, maxSdkVersion))
  assume [C07,C08] iff(err == nil, v1Valid(apk, hasValidSigningBlock, minSdkVersion, maxSdkVersion))
  assume [C08] imp(err != nil, err != apkverifier.ErrMixedDexApkFile)

// the oldest platform that counts
def minOf(z, min) = ite(min == -1 && !manFails(z), manMin(z), min)
def blockState(r, z, min, max) = sbState(content(filev(r)), minOf(z, min), max)
// accepted: the block verified, and v1 too for platforms before v2; or no block and v1 verified
def accepted(r, z, min, max) = minOf(z, min) <= max && ((blockState(r, z, min, max) == 0 && (minOf(z, min) >= 24 || v1Valid(z, true, minOf(z, min), max))) ||
      (blockState(r, z, min, max) == 1 && v1Valid(z, false, minOf(z, min), max)))
def manifestRead(min, max) = min == -1 || max >= 26

func apkverifier.VerifyWithSdkVersionReader(r, optionalZip, minSdkVersion, maxSdkVersion) (res, err)
  panics C14,C15
  requires refof(r) != nil
  modifies fileof(r)
  let dex = 0xa786564
  witness [C07] (z *apkparser.ZipReader) verdict: imp(err == nil, z != nil && imp(optionalZip != nil, z == optionalZip) && accepted(r, z, old(minSdkVersion), maxSdkVersion))
  witness [C07] (z *apkparser.ZipReader) sandbox: imp(err == nil && maxSdkVersion >= 26, z != nil && imp(optionalZip != nil, z == optionalZip) &&
      imp(manSandbox(z) > 1 && !manFails(z), res.SigningSchemeId >= 2 && blockState(r, z, old(minSdkVersion), maxSdkVersion) == 0) &&
      imp(manTarget(z) >= 30 && !manFails(z) && maxSdkVersion >= manTarget(z), res.SigningSchemeId >= 2))
  ensures [C07] inverted: imp(old(minSdkVersion) != -1 && old(minSdkVersion) > maxSdkVersion, err != nil)
  ensures [C07] broken: imp(old(minSdkVersion) != -1 && sbState(content(filev(r)), old(minSdkVersion), maxSdkVersion) == 2, err != nil)
  ensures [C07] given: imp(err == nil && old(optionalZip) != nil, accepted(r, old(optionalZip), old(minSdkVersion), maxSdkVersion))
  ensures [C03,C07] chains: imp(err == nil && res.SigningSchemeId >= 2, res.SigningBlockResult != nil && sameslice(res.SignerCerts, res.SigningBlockResult.Certs))
  witness [C08] (z *apkparser.ZipReader) dex: imp(err == nil && le32(filev(r)) == dex, z != nil && imp(optionalZip != nil, z == optionalZip) &&
      minOf(z, old(minSdkVersion)) >= 24 && blockState(r, z, old(minSdkVersion), maxSdkVersion) == 0)
  ensures [C08] onlydex: imp(err != nil && err == apkverifier.ErrMixedDexApkFile, le32(filev(r)) == dex)

func apkverifier.VerifyReader(r, optionalZip) (res, err)
  panics C14,C15
  requires refof(r) != nil
  modifies fileof(r)
  ensures [C08] onlydex: imp(err != nil && err == apkverifier.ErrMixedDexApkFile, le32(filev(r)) == 0xa786564)
  ensures [C07] verdict: imp(err == nil && optionalZip != nil, accepted(r, optionalZip, -1, 2147483647))

func apkverifier.VerifyWithSdkVersion(path, optionalZip, minSdkVersion, maxSdkVersion) (res, err)
  panics C14,C15

func apkverifier.Verify(path, optionalZip) (res, err)
  panics C14,C15
