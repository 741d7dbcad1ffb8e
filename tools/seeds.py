SEEDS = []


def seed(id, prop, needs, breaks, *edits, **k):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, **k))


S = 'signingblock/'
seed('c02-digests-prefix', 'C02', 'a signer with more signature records than digest records, agreeing on the common part',
     'the algorithm lists of signatures and digests no longer have to be the same list',
     (S + 'signer.go', 'algosEqual := len(digestSigAlgorithms) == len(s.signaturesAlgos)', 'algosEqual := len(digestSigAlgorithms) <= len(s.signaturesAlgos)'))
seed('c01-second-signer-digest', 'C01', 'a v2 block with two signers whose digests of the same kind differ, the first one being right',
     'a later signer may list a digest that differs from the one of an earlier signer',
     (S + 'signer.go', '''	contentDigests[digestAlgorithm] = contentDigest
	if previousSignerDigest != nil && !bytes.Equal(previousSignerDigest, contentDigest) {''',
      '''	if previousSignerDigest == nil {
		contentDigests[digestAlgorithm] = contentDigest
	} else if len(previousSignerDigest) != len(contentDigest) {'''))
seed('c02-key-of-any-cert', 'C02', 'a certificate list whose first certificate has another key than the one that verified the signature',
     'the signature has to belong to some listed certificate, not to the first one that identifies the signer',
     (S + 'signer.go', '''	if !bytes.Equal(mainCert.RawSubjectPublicKeyInfo, s.publicKeyBytes) {''',
      '''	matches := false
	for _, c := range certAdder.Certs {
		matches = matches || bytes.Equal(c.RawSubjectPublicKeyInfo, s.publicKeyBytes)
	}
	if !matches {'''))
seed('c02-weakest', 'C02', 'a signer with a wrong SHA-512 signature before a right verity one',
     'the order of strength of verity and chunked SHA-512 digests is reversed, a weaker signature decides',
     (S + 'signer.go', '''		case digestChunkedSha256:
			return 1
		case digestChunkedSha512:
			return -1
''', '''		case digestChunkedSha256, digestChunkedSha512:
			return 1
'''))
seed('c05-gap', 'C05', 'v3 signers that leave out platform versions between their ranges',
     'ranges of consecutive signers may leave a gap',
     (S + 'schemev3.go', 'else if currentMin != lastMax+1 {', 'else if currentMin <= lastMax {'))
seed('c05-v31-start', 'C05', 'v3 and v3.1 blocks where v3 ends one version before v3.1 begins to matter',
     'the v3 signer only has to reach the version before the one preceding rotation',
     (S + 'schemev3.go', 'requestedMaxSdkVersion = s.rotationMinSdkVersion - 1', 'requestedMaxSdkVersion = s.rotationMinSdkVersion - 2'))
seed('c06-dup', 'C06', 'a lineage of at least three certificates in which a certificate returns after another one',
     'certificates of a lineage are only compared with their predecessor',
     (S + 'schemev3.go', 'for _, histCert := range certHistory {', 'for _, histCert := range certHistory[max(0, len(certHistory)-1):] {'))
seed('c06-algo-link', 'C06', 'a lineage node announcing another algorithm than the one its successor was signed with, from the third node on',
     'the algorithm the parent announced is only compared for the second node',
     (S + 'schemev3.go', 'if lastCert != nil && lastSigAlgorithmId != signedSigAlgorithm {', 'if nodeCount == 2 && lastSigAlgorithmId != signedSigAlgorithm {'))
seed('c06-inner', 'C06', 'a signer whose certificate is in the middle of its lineage',
     'the signer may be any member of its lineage instead of the last one',
     (S + 'schemev3.go', 'if len(signerInfo.lineage.Nodes) != len(subLineage.Nodes) {', 'if len(signerInfo.lineage.Nodes) < len(subLineage.Nodes) {'))
seed('c06-flags', 'C06', 'two signers whose lineages differ in the capabilities of a certificate only',
     'lineages with different capability flags count as consistent',
     (S + 'schemev3lineage.go', '''	if n.Flags != o.Flags {
		return false
	}
''', '''	if n.Flags&o.Flags != n.Flags && n.Flags&o.Flags != o.Flags {
		return false
	}
'''))
B = S + 'signingblock.go'
seed('c12-comment', 'C12', 'a file whose comment contains a record whose comment length reaches past the end of the file',
     'the record found may announce a comment longer than what follows it',
     (B, 'if int(recordCommentSize) == commentSize {', 'if int(recordCommentSize) >= commentSize {'))
seed('c12-gap', 'C12', 'an archive with bytes between its central directory and the end record',
     'the central directory may end before the end record',
     (B, 'if s.centralDirOffset+int64(s.centralDirSize) != s.eocdOffset {', 'if s.centralDirOffset+int64(s.centralDirSize) > s.eocdOffset {'))
seed('c12-header-size', 'C12', 'a signing block whose header announces another size than its footer, with equal low halves',
     'only the low halves of the two size fields are compared',
     (B, 'blockSizeHeader := binary.LittleEndian.Uint64(block); blockSizeHeader != blockSizeFooter {', 'blockSizeHeader := binary.LittleEndian.Uint64(block); uint32(blockSizeHeader) != uint32(blockSizeFooter) {'))
seed('c13-first-wins', 'C13', 'a signing block with two source stamp blocks',
     'the first source stamp block decides instead of the last one',
     (B, '''				return
			}
			blocks[bid] = block
		default:''', '''				return
			}
			if blocks[bid] == nil {
				blocks[bid] = block
			}
		default:'''))
seed('c13-size-edge', 'C13', 'a pair whose size is one to three bytes more than what is left, hidden behind its id',
     'the size of a pair is compared with the bytes left before its id was read',
     (B, 'if entryLen > int64(pairs.Len()) {', 'if entryLen-4 > int64(pairs.Len()) {'))
seed('c13-v3-extra', 'C13', 'a v3 block checked for a platform that only knows v3.1 signatures together with v2',
     'the v3 block is only recorded aside when no v3.1 block was seen before it',
     (B, '(bid == blockIdSchemeV3 && apilevel.SupportsSigV31(maxSdkVersion)) {', '(bid == blockIdSchemeV3 && apilevel.SupportsSigV31(maxSdkVersion) && blocks[blockIdSchemeV31] == nil) {'))
seed('c01-digest-prefix', 'C01', 'a signed digest that is a proper prefix of the digest of the contents, an empty one included',
     'a shortened digest is compared with the beginning of the real one',
     (B, 'if !bytes.Equal(expectedDigests[algo], actualDigests[algo]) {', 'if !bytes.HasPrefix(actualDigests[algo], expectedDigests[algo]) {'))
seed('c01-comment', 'C01', 'an archive comment changed after signing',
     'the comment of the end record is not digested',
     (B, 'eocd := &dataSourceBytes{data: append([]byte(nil), s.eocd...)}', 'eocd := &dataSourceBytes{data: append([]byte(nil), s.eocd[:eocdRecMinSize]...)}'))
seed('c03-cert-slot', 'C03', 'a v2 block with two signers where the second one lists several certificates',
     'further certificates of a later signer end up in the chain of the first one',
     (S + 'verificationresult.go', 'idx := len(a.res.Certs) - 1', 'idx := (len(a.res.Certs) - 1) / 2'))
seed('c03-extract-late-error', 'C03', 'an APK whose second signer does not verify, read with ExtractCerts',
     'ExtractCerts returns the certificates of an APK with a bad signer without an error',
     (B, 'return res.Certs, res.GetLastError()', """if len(res.Certs) > 1 {
		return res.Certs, nil
	}
	return res.Certs, res.GetLastError()"""))
seed('c04-fallback-pie', 'C04', 'an APK with an invalid v3 block and a valid v2 one, checked for platforms from Pie on',
     'v2 decides for platforms that insist on v3',
     (B, 'minSdkVersion < apilevel.V9_0_Pie && blocks', 'minSdkVersion <= apilevel.V9_0_Pie && blocks'))
seed('c04-strip-second', 'C04', 'a stripped APK whose v2 signer lists another attribute before the protecting one',
     'only the first attribute protects against stripping',
     (S + 'schemev2.go', 'if !apilevel.SupportsSigV3(s.maxSdkVersion) {', 'if !apilevel.SupportsSigV3(s.maxSdkVersion) || additionalAttributeCount > 1 {'), budget=45)
seed('c04-v31-early', 'C04', 'an APK with v3 and v3.1 blocks checked for platforms that know v3 only',
     'a v3.1 block decides for platforms that do not know it',
     (B, '(bid == blockIdSchemeV31 && apilevel.SupportsSigV31(maxSdkVersion))', '(bid == blockIdSchemeV31 && apilevel.SupportsSigV3(maxSdkVersion))'))
seed('c14-negative-length', 'C14', 'a length-prefixed field with a negative length',
     'a negative length reaches the buffer and panics',
     (S + 'utils.go', '''	if length < 0 {
		return nil, errors.New("negative length")
	} else if int(length) > r.Len() {''', '''	if uint16(length) > math.MaxInt16 && length == -1 {
		return nil, errors.New("negative length")
	} else if int(length) > r.Len() {'''), (S + 'utils.go', '	"fmt"\n	"math/big"', '	"fmt"\n	"math"\n	"math/big"'))
seed('c14-short-pair', 'C14', 'a pair of the signing block whose size is three, too small for its id',
     'the value of a pair gets a negative size',
     (B, 'if entryLen < 4 || entryLen', 'if entryLen < 3 || entryLen'))
A = 'apkverifier.go'
seed('c07-old-platforms', 'C07', 'an APK with a valid signing block and a broken v1 signature, requested from a platform before v2 up to one after',
     'v1 is only checked if no requested platform knows v2',
     (A, '} else if apilevel.SupportsSigV2(minSdkVersion) && signingBlockError == nil {', '} else if apilevel.SupportsSigV2(maxSdkVersion) && signingBlockError == nil {'))
seed('c07-target-edge', 'C07', 'a v1 only APK whose target platform is exactly the newest one requested',
     'the newest requested platform is left out of the rule on target platforms',
     (A, 'maxSdkVersion >= targetSdkVersion && res', 'maxSdkVersion > targetSdkVersion && res'))
seed('c07-sandbox-two', 'C07', 'a v1 only APK with sandbox version 2',
     'sandbox version 2 does not need a v2 signature',
     (A, 'sandboxVersion > 1 && (sign', 'sandboxVersion > 2 && (sign'))
seed('c08-with-block', 'C08', 'a DEX file before an APK with a signing block, requested for old platforms too',
     'a prepended DEX is not reported if there is a signing block',
     (A, '} else if fileMagic == dexHeaderMagic {', '} else if res.SigningSchemeId == 1 && fileMagic == dexHeaderMagic {'))
seed('c08-short-magic', 'C08', 'an APK starting with "dex" and another fourth byte',
     'files that only begin similarly are reported as mixed',
     (A, '} else if fileMagic == dexHeaderMagic {', '} else if fileMagic&0xffffff == dexHeaderMagic&0xffffff {'))
V1 = 'schemev1.go'
seed('c09-lower-metainf', 'C09', 'a file below a directory whose name only looks like META-INF, with small letters',
     'files below meta-inf/ need no manifest section',
     (V1, 'path != "AndroidManifest.xml" && !strings.HasPrefix(path, "META-INF/")', 'path != "AndroidManifest.xml" && !strings.HasPrefix(strings.ToUpper(path), "META-INF/")'))
seed('c09-bundle', 'C09', 'an archive with BundleConfig.pb and an AndroidManifest.xml that differs from its digest',
     'the application manifest is not checked when the archive looks like a bundle',
     (V1, 'if hasAndroidManifest || !hasBundleConfig {', 'if !hasBundleConfig || (hasAndroidManifest && len(required) == 0) {'))
seed('c22-first-digest', 'C22', 'a section with two digests to check, SHA1 for old platforms and SHA-256 for new ones, where only the first is right',
     'only the first selected digest of a section is checked',
     (V1, 'for _, algo := range toVerify {', 'for _, algo := range toVerify[:1] {'))
seed('c11-space', 'C11', 'the id list has a space after the 2',
     'spaces after an id hide it',
     (V1, 'tok = strings.TrimSpace(tok)', 'tok = strings.TrimLeft(tok, " ")'))
seed('c11-bad-id', 'C11', 'the id list has a word before the 2',
     'ids after one that is no number are ignored',
     (V1, '''				if err != nil {
					continue
				}

				if id == 2 {''', '''				if err != nil {
					break
				}

				if id == 2 {'''))
seed('c11-range', 'C11', 'a stripped APK checked for a range that begins before Android 7.0',
     'only ranges that begin with platforms that know v2 are protected',
     (V1, 'prs && apilevel.SupportsSigV2(maxSdkVersion) {', 'prs && apilevel.SupportsSigV2(minSdkVersion) {'))
seed('c22-nine', 'C22', 'a range that begins with API 9, a section listing SHA-512',
     'API 9 devices are thought not to know SHA-384 and SHA-512',
     (V1, 'if minSdkVersion >= 9 ||', 'if minSdkVersion > 9 ||'))
seed('c22-eighteen', 'C22', 'a range that ends with API 18',
     'a range that ends with API 18 does not check the strongest digest',
     (V1, 'if maxSdkVersion >= 18 {', 'if maxSdkVersion > 18 {'))
seed('c22-case', 'C22', 'a section that lists its algorithms in capital letters',
     'listed algorithms in capital letters are not found',
     (V1, 'algs := strings.ToLower(entry["digest-algorithms"])', 'algs := entry["digest-algorithms"]'))
seed('c10-attr-range', 'C10', 'a signature whose signed content type differs from the one of the structure, checked from before Android 7.0 on',
     'the content type is only compared if every requested platform does so',
     (V1, 'if maxSdkVersion >= apilevel.V7_0_Nougat {', 'if minSdkVersion >= apilevel.V7_0_Nougat {'))
seed('c10-sections', 'C10', 'a signature file whose whole manifest digest is wrong and one of whose sections has no usable digest',
     'a section without a usable digest counts as verified',
     (V1, '''				if err != nil {
					break
				}
			}
		}
''', '''				if err == errNoKnownHashes {
					err = nil
				}
				if err != nil {
					break
				}
			}
		}
'''))
