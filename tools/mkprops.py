import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
SB='signingblock/'
p('C01','Accepted content digests cover the whole file outside the signing block',
 'When verification by signature scheme v2, v3 or v3.1 succeeds, every content digest that any contributing signer signed equals the digest of the APK file recomputed from its bytes: all bytes before the signing block, the whole central directory, and the end-of-central-directory record with its central-directory offset replaced by the start of the signing block. No byte outside the signing block (apart from that one offset field) can differ from what was signed, whichever supported digest algorithm was used.',
 ['inputs'],'every APK file, every signing block content, every sdk range, every combination of v2/v3/v3.1 blocks and digest algorithms',
 'Tests only check a few dozen fixture APKs (absent here); a skipped section, a digest that is never compared or a missed chunk shows only for a crafted file.',
 [SB+'signingblock.go',SB+'datasource.go',SB+'schemev31.go'],
 [('verifyIntegrity','signingblock/signingblock.go: verifyIntegrity'),('computeContentDigests','signingblock/signingblock.go: computeContentDigests'),('chunked digest','signingblock/signingblock.go: computeOneMbChunkContentDigests'),('v3.1 digests','signingblock/schemev31.go: parseSigners')],
 obs=['result of VerifySigningBlockReader on a crafted file'])
p('C02','A v2/v3/v3.1 signer is accepted only with a valid signature over its data',
 'Every signer of a successfully verified v2, v3 or v3.1 block carries a valid signature, by its strongest supported algorithm, over exactly the signed data from which its certificates and digests were read, made with the public key of its first certificate; the lists of algorithms in its signatures and digests are identical, and the digest taken is the one for that algorithm. A single signer failing any of this makes the whole verification fail.',
 ['inputs'],'every signing block byte string: every number and order of signers, signatures, digests, certificates, every supported and unsupported algorithm',
 'The quantification is over all byte strings of the signing block and all key/signature combinations; fixtures sample a few well-formed ones.',
 [SB+'signer.go',SB+'schemev2.go',SB+'schemev3.go',SB+'utils.go'],
 [('parseSignatures','signingblock/signer.go'),('parsePublicKey','signingblock/signer.go'),('parseCertificates','signingblock/signer.go'),('parseDigests','signingblock/signer.go'),('verifySignature','signingblock/utils.go'),('verifySigner','signingblock/schemev2.go, schemev3.go')])
p('C03','Certificates reported on success come only from authenticated signers',
 'When signing-block verification succeeds, the reported certificate chains are exactly those of the signers of the block of the reported scheme, one chain per signer in order, each authenticated by that block; nothing parsed from another block, from a rejected attempt or from a failed signer is reported as a signer.',
 ['inputs'],'every APK, including those where a v3/v3.1 block is rejected and v2 is used instead',
 'Needs a file whose stronger block is forged and whose weaker block is genuine; no fixture combines these.',
 [SB+'signingblock.go',SB+'verificationresult.go',SB+'signer.go'],
 [('fallback','signingblock/signingblock.go: VerifySigningBlockReaderWithZip'),('certAdder','signingblock/verificationresult.go')])
p('C04','The strongest applicable scheme is used and its removal is detected',
 'The scheme used is the strongest one present that the newest requested platform supports; a weaker block decides the result only when the stronger one fails, the oldest requested platform predates the stronger scheme, and the weaker block is present. A v2 signer that declares a stronger scheme makes verification fail if that scheme\'s block is absent on platforms that know it, and a v3.1 block without a v3 block is rejected.',
 ['inputs','configurations'],'every combination of present blocks, every (min,max) platform pair, every stripping-protection attribute',
 'The product of block presence and sdk ranges is only sampled by tests.',
 [SB+'signingblock.go',SB+'schemev2.go',SB+'schemev31.go','apilevel/levels.go'],
 [('pickScheme','signingblock/signingblock.go'),('fallback','signingblock/signingblock.go: VerifySigningBlockReaderWithZip'),('stripping protection','signingblock/schemev2.go: verifySigner')])
p('C05','v3/v3.1 signers cover the platform range with signed, contiguous ranges',
 'On success of a v3 or v3.1 verification each signer\'s platform range in the unsigned part equals the one in its signed data and is non-empty and positive, the ranges sorted by minimum are contiguous without gap or overlap, and together they cover the requested range as far as the scheme is responsible for it. Lineage sizes never shrink as ranges advance.',
 ['inputs','configurations'],'every list of signers and ranges, every requested (min,max)',
 'Range combinations are unbounded; fixtures contain a couple.',
 [SB+'schemev3.go',SB+'schemev31.go'],
 [('finalizeResult','signingblock/schemev3.go'),('signed range check','signingblock/schemev3.go: verifySigner')])
p('C06','A reported key-rotation lineage is cryptographically valid',
 'A reported signing lineage is a chain in which every node after the first carries a valid signature over its signed data by the previous node\'s key with the algorithm the previous node announced and the signed data repeats, no certificate occurs twice, the last node is the certificate of the signer it came from, and every lineage of the other signers is a prefix of the reported one.',
 ['inputs'],'every lineage attribute byte string and every set of signers',
 'Forged or reordered lineages are not among the fixtures.',
 [SB+'schemev3.go',SB+'schemev3lineage.go'],
 [('readSigningCertificateLineage','signingblock/schemev3.go'),('getSubLineage','signingblock/schemev3lineage.go'),('consolidateLineages','signingblock/schemev3.go')])
p('C07','The overall verdict combines the scheme verdicts as documented',
 'The top-level verdict is success only if the signing block verified, or it is absent and the v1 signature verified; when the oldest requested platform predates v2 the v1 signature must verify as well. A broken signing block is never overridden by v1, an app needing sandbox version 2 or targeting API 30+ is rejected when only v1 signed, and an inverted platform range is rejected.',
 ['inputs','configurations'],'every outcome of the individual verifiers, every manifest value and every (min,max) pair',
 'Tests exercise few combinations of the five independent inputs of the decision.',
 ['apkverifier.go','apilevel/levels.go'],
 [('VerifyWithSdkVersionReader','apkverifier.go')])
p('C08','A DEX file prepended to a v1-signed APK is always reported',
 'If the file starts with the DEX magic bytes and would otherwise be accepted through its v1 signature, verification returns the dedicated mixed-DEX error and not success; the error is never returned for a file that starts with anything else.',
 ['inputs'],'every file and every verdict of the verifiers',
 'Needs every combination of verdicts with the magic; tests use one fixture.',
 ['apkverifier.go',SB+'signingblock.go'],
 [('magic check','apkverifier.go: VerifyWithSdkVersionReader'),('magic read','signingblock/signingblock.go: newSigningBlock')])
p('C09','v1: every file outside META-INF is covered by digest and by the same signers',
 'When v1 verification succeeds, every non-directory ZIP entry outside META-INF/ has a manifest section, its content matches every digest selected for it, it is listed in a signature file, the same set of signers covers every file, and the manifest lists no entry missing from the ZIP. This includes the application manifest.',
 ['inputs'],'every ZIP content and every manifest / signature file text',
 'One uncovered file name among all possible ones suffices to break it.',
 ['schemev1.go'],
 [('verifyMainManifest','schemev1.go'),('verifyManifestEntry','schemev1.go'),('verifyFileHash','schemev1.go'),('certChainsMatch','schemev1.go')])
p('C10','v1: signer certificates are accepted only over an authenticated signature file',
 'A v1 certificate chain is returned without error only if the signature file bytes are signed by the key of its first certificate, directly or through signed attributes whose message digest equals the digest of the signature file and whose content type matches on platforms that check it. A signature file is accepted only if the whole manifest, or every section it lists, matches its digests.',
 ['inputs'],'every PKCS#7 structure, signature file and manifest',
 'Only genuine signatures are sampled; each missing comparison needs its own forged input.',
 ['schemev1.go','fullsailor/pkcs7/pkcs7.go'],
 [('verifySignature','schemev1.go'),('verify','schemev1.go'),('checkSignature','schemev1.go')])
p('C11','v1: an APK marked as signed with v2 is rejected when v2 is missing',
 'If any verified signature file declares that the APK was also signed with scheme v2 and no valid signing block was found, v1 verification fails on platform ranges that reach Android 7.0 or newer, however the id list is written (spaces, other ids, order).',
 ['inputs','configurations'],'every attribute value, number of signature files, and sdk range',
 'Attribute spelling and signer order are unbounded.',
 ['schemev1.go'],[('X-Android-APK-Signed','schemev1.go: verify')])
p('C12','ZIP end record and signing block are located exactly',
 'The end-of-central-directory record used is one whose comment reaches exactly to the end of the file and whose central directory ends exactly where the record begins; the signing block ends exactly at the central directory, carries the magic and has equal sizes in header and footer. ZIP64 and any inconsistent layout are rejected, and offsets used later lie inside the file.',
 ['inputs'],'every file size and content, every comment length',
 'The search is over 65536 positions with attacker-chosen bytes.',
 [SB+'signingblock.go'],[('findEocdMaxCommentSize','signingblock/signingblock.go'),('findApkSigningBlock','signingblock/signingblock.go'),('isZip64','signingblock/signingblock.go')])
p('C13','Signing block entries are enumerated completely and exactly',
 'Every ID-value pair of a well-formed signing block is seen exactly once with exactly its bytes: known blocks reach their verifier, unknown ones are reported as extra blocks under their id, the last pair with the same id wins, and any pair whose length does not fit makes the block be rejected.',
 ['inputs'],'every sequence of pairs, including empty values and repeated ids',
 'Pair sequences are unbounded; empty and last-position values are not in fixtures.',
 [SB+'signingblock.go'],[('findSignatureBlocks','signingblock/signingblock.go')])
p('C14','Malformed signing blocks never crash the verifier',
 'Whatever the bytes of the signing block (v2, v3, v3.1, frosting, source stamp, end record), verification returns a result or an error and never panics with an out-of-range access, nil dereference, failed type assertion or negative allocation.',
 ['inputs'],'every byte string in every length-prefixed structure, every key type paired with every algorithm id',
 'Crashing inputs are specific malformed combinations, none of which is a fixture.',
 [SB+'signingblock.go',SB+'signer.go',SB+'utils.go',SB+'frosting.go',SB+'schemev3.go',SB+'sourcestamp.go'],
 [('getLenghtPrefixedSlice','signingblock/utils.go'),('verifySignature','signingblock/utils.go'),('parseFrostingBlock','signingblock/frosting.go')])
p('C15','Malformed v1 signature data never crashes the verifier',
 'Whatever the bytes of MANIFEST.MF, the signature files and the signature blocks, v1 verification and certificate extraction return a result or an error and never panic.',
 ['inputs'],'every manifest text, BER byte string, algorithm identifier pair and key type',
 'Crashing inputs are specific malformed files.',
 ['manifest.go','schemev1.go','fullsailor/pkcs7/ber.go'],
 [('readHeader','manifest.go'),('readObject','fullsailor/pkcs7/ber.go'),('verifySignature','schemev1.go'),('checkSignature','schemev1.go')])
p('C16','A source stamp without errors is fully authenticated',
 'A source stamp reported without errors has a certificate whose SHA-256 equals the stamp file in the APK and which validly signed the exact encoding of the verified content digests of the verified scheme; if attributes are present they are signed by the same certificate, and a reported lineage is a valid chain ending in that certificate. A stamp file without stamp block is reported as an error.',
 ['inputs','configurations'],'every stamp block, stamp file, digest set and sdk range',
 'Forged stamps are unbounded; the fixtures are absent.',
 [SB+'sourcestamp.go'],[('VerifySourceV2Stamp','signingblock/sourcestamp.go'),('verifySignature','signingblock/sourcestamp.go'),('parseStampCertLineage','signingblock/sourcestamp.go'),('getSignatureSchemeDigest','signingblock/sourcestamp.go')])
p('C17','Play frosting is reported valid only if signed and matching the file',
 'Frosting is reported without error only if the selected non-disabled entry carries a valid signature by the known key it names over exactly the frosting data up to the end of that entry, and its digest equals the digest of the APK outside the signing block together with the v2 block. Variable-length integers decode to their exact value and overlong ones are rejected.',
 ['inputs'],'every frosting block and APK',
 'Forged frosting blocks are unbounded.',
 [SB+'frosting.go'],[('parseFrostingBlock','signingblock/frosting.go'),('readInt32','signingblock/frosting.go'),('verifyApk','signingblock/frosting.go')])
p('C18','The verity digest equals the 4K Merkle tree definition',
 'The verity content digest equals the root of the salted SHA-256 Merkle tree over the 4096-byte pages of the content (last page zero-padded, each level padded to whole pages), followed by the content length, for every content length.',
 ['inputs'],'every content length and split into sections',
 'Level boundaries (128 pages, 128^2 pages) and partial pages are hit only by particular sizes.',
 [SB+'verity.go',SB+'datasource.go',SB+'signingblock.go'],[('generateTreeRootHash','signingblock/verity.go'),('calculateLevelOffset','signingblock/verity.go'),('dataSourceChained','signingblock/datasource.go')])
p('C19','JAR manifests parse to exactly the attributes their text defines',
 'Parsing a manifest or signature file yields, for the main section and every named section, exactly the attributes written there (names case-insensitive, continuation lines joined, any of CR, LF or CRLF line ends), and the recorded section byte ranges and main-section length are exactly the bytes of those sections, contiguous and in order. NUL bytes, malformed headers and duplicate sections are rejected.',
 ['inputs'],'every manifest text',
 'Line-ending and continuation combinations are unbounded.',
 ['manifest.go'],[('readHeader','manifest.go'),('parse','manifest.go')])
p('C20','BER to DER conversion preserves the encoded value',
 'Converting a BER structure yields, for every accepted input, the definite-length DER encoding of the same tree of tags and contents with minimal length octets; an input already in DER converts to itself.',
 ['inputs'],'every BER byte string',
 'Nesting, indefinite lengths and long tags are unbounded.',
 ['fullsailor/pkcs7/ber.go'],[('readObject','fullsailor/pkcs7/ber.go'),('encodeLength','fullsailor/pkcs7/ber.go')])
p('C21','Lenient ASN.1 integers, tags and lengths decode to their exact value',
 'The lenient ASN.1 decoder returns for each integer, object identifier component, bit string, tag and length exactly the value its octets denote (superfluous leading octets allowed where Android allows them), consumes exactly the octets of the element, and rejects truncated and overflowing encodings; the encoder\'s lengths, tags and integers decode back to the same value.',
 ['inputs'],'every byte string and offset; every integer',
 'Tests use tables of a few dozen encodings.',
 ['internal/asn1andr/asn1.go','internal/asn1andr/marshal.go'],[('parseTagAndLength','internal/asn1andr/asn1.go'),('parseInt64','internal/asn1andr/asn1.go'),('parseBase128Int','internal/asn1andr/asn1.go')])
p('C22','v1 digest algorithms are chosen as the Android version range prescribes',
 'For every manifest entry the set of digest algorithms verified is the strongest one present among SHA-512, SHA-384, SHA-256 and SHA-1 if the range reaches API 18, plus, if it starts below API 18, every listed algorithm that such devices would check; an entry with no usable digest is never treated as verified, and each selected digest is computed by the hash function of its name.',
 ['inputs','configurations'],'every attribute map and sdk range',
 'Combinations of attributes and ranges are unbounded.',
 ['schemev1.go'],[('getDigestsToVerify','schemev1.go'),('verifyManifestEntry','schemev1.go')])
p('C23','Certificate fingerprints and the picked certificate are faithful',
 'Certificate information reports the MD5, SHA-1 and SHA-256 of exactly the certificate\'s DER bytes and its own validity, names, algorithm and serial number; the certificate picked from several chains is the first certificate of one of those chains, and nothing is picked only if there are no chains.',
 ['inputs'],'every list of chains and every certificate',
 'Unbounded certificate lists; tests compare a few fixtures.',
 ['certinfo.go'],[('Fill','certinfo.go'),('PickBestApkCert','certinfo.go')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
