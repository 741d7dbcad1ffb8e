From f5ce79340c4e1f87a6ded7bbbd77e8191fbbca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 01/13] fix: verifySignature must not panic on mismatched keys
 or malformed DSA/ECDSA signatures

---
 signingblock/utils.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/signingblock/utils.go b/signingblock/utils.go
index 6be7bd1..e93af94 100644
--- a/signingblock/utils.go
+++ b/signingblock/utils.go
@@ -37,6 +37,21 @@ func getLenghtPrefixedSlice(r *bytes.Buffer) (*bytes.Buffer, error) {
 }
 
 func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataBytes, signature []byte) error {
+	var keyMatches bool
+	switch algo {
+	case SigRsaPssWithSha256, SigRsaPssWithSha512, SigRsaPkcs1V15WithSha256, SigRsaPkcs1V15WithSha512, SigVerityRsaPkcs1V15WithSha256:
+		_, keyMatches = publicKey.(*rsa.PublicKey)
+	case SigEcdsaWithSha256, SigEcdsaWithSha512, SigVerityEcdsaWithSha256:
+		_, keyMatches = publicKey.(*ecdsa.PublicKey)
+	case SigDsaWithSha256, SigVerityDsaWithSha256:
+		_, keyMatches = publicKey.(*dsa.PublicKey)
+	default:
+		return fmt.Errorf("unhandled signature type: 0x%04x", int32(algo))
+	}
+	if !keyMatches {
+		return fmt.Errorf("public key of type %T can not be used with signature algorithm %s", publicKey, algo.String())
+	}
+
 	switch algo {
 	case SigRsaPssWithSha256:
 		hashed := sha256.Sum256(signedDataBytes)
@@ -59,6 +74,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 		if _, err := asn1.Unmarshal(signature, &params); err != nil {
 			return fmt.Errorf("failed to unmarshal ECDSA signature: %s", err.Error())
 		}
+		if len(params) != 2 {
+			return fmt.Errorf("malformed (EC)DSA signature: expected 2 integers, got %d", len(params))
+		}
 
 		var hashed []byte
 		switch algo {
@@ -74,7 +92,9 @@ func verifySignature(publicKey interface{}, algo SignatureAlgorithm, signedDataB
 
 		if algo == SigDsaWithSha256 || algo == SigVerityDsaWithSha256 {
 			k := publicKey.(*dsa.PublicKey)
-			hashed = hashed[:k.Q.BitLen()/8]
+			if qLen := k.Q.BitLen() / 8; qLen < len(hashed) {
+				hashed = hashed[:qLen]
+			}
 			if !dsa.Verify(k, hashed, params[0], params[1]) {
 				return errors.New("DSA verification failed.")
 			}
-- 
2.43.0


From 09b5d2fbac3458a74b59afe30620013f76b12980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 02/13] fix: v3 signer maxSdkVersion must equal the signed
 maxSdkVersion

---
 signingblock/schemev3.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signingblock/schemev3.go b/signingblock/schemev3.go
index f53f004..fd86eb0 100644
--- a/signingblock/schemev3.go
+++ b/signingblock/schemev3.go
@@ -195,8 +195,8 @@ func (s *schemeV3) verifySigner(signerBlock *bytes.Buffer, contentDigests map[co
 	if parsedMinSdkVersion != signedMinSdkVersion {
 		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
 	}
-	if parsedMaxSdkVersion != parsedMaxSdkVersion {
-		result.addError("mismatch between parsed and signed minSdkVersion: %d != %d", parsedMinSdkVersion, signedMinSdkVersion)
+	if parsedMaxSdkVersion != signedMaxSdkVersion {
+		result.addError("mismatch between parsed and signed maxSdkVersion: %d != %d", parsedMaxSdkVersion, signedMaxSdkVersion)
 	}
 
 	// Parse certificates
-- 
2.43.0


From 4cc36963a86adfb56cbf94e0004e3c6d2c3ec963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 03/13] fix: accept signing block pairs with an empty value at
 the end of the block

---
 signingblock/signingblock.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index 6054709..d24f634 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -494,7 +494,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 		switch bid := BlockId(id); bid {
 		case blockIdSchemeV2, blockIdSchemeV3, blockIdSchemeV31:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 
@@ -517,7 +517,7 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			// for verity signature verification.
 		case blockIdFrosting:
 			frostingBlock := make([]byte, entryLen-4)
-			if _, err = pairs.Read(frostingBlock); err != nil {
+			if _, err = io.ReadFull(pairs, frostingBlock); err != nil {
 				return
 			}
 
@@ -532,13 +532,13 @@ func (s *signingBlock) findSignatureBlocks(maxSdkVersion int32, res *Verificatio
 			}
 		case blockIdSourceStampV2:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			blocks[bid] = block
 		default:
 			block := make([]byte, entryLen-4)
-			if _, err = pairs.Read(block); err != nil {
+			if _, err = io.ReadFull(pairs, block); err != nil {
 				return
 			}
 			if res.ExtraBlocks == nil {
-- 
2.43.0


From 0be8c549b1dbe6e385234ccb5ee89ceba3dc29d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 04/13] fix: reject overflowing frosting varints, a negative
 key index caused a panic

---
 signingblock/frosting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signingblock/frosting.go b/signingblock/frosting.go
index e514cb2..0dc85ed 100644
--- a/signingblock/frosting.go
+++ b/signingblock/frosting.go
@@ -133,7 +133,7 @@ func (f *frostingInfo) readInt32(r io.ByteReader) (int32, error) {
 					}
 
 					v0 = v0 | (v1&0x7F)<<21 | v2<<28
-					if v2 < 0 {
+					if v2 < 0 || v2 > 7 {
 						return 0, fmt.Errorf("varint overflow")
 					}
 				} else {
-- 
2.43.0


From 1734ca06858c04da18d2610f7bf69bc8bbc18561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 05/13] fix: truncated or deeply nested BER must not crash
 ber2der

---
 fullsailor/pkcs7/ber.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 3f56ea6..300de5a 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -61,7 +61,7 @@ func ber2der(ber []byte) ([]byte, error) {
 	//fmt.Printf("--> ber2der: Transcoding %d bytes\n", len(ber))
 	out := new(bytes.Buffer)
 
-	obj, _, err := readObject(ber, 0)
+	obj, _, err := readObject(ber, 0, 0)
 	if err != nil {
 		return nil, err
 	}
@@ -132,18 +132,32 @@ func encodeLength(out *bytes.Buffer, length int) (err error) {
 	return
 }
 
-func readObject(ber []byte, offset int) (asn1Object, int, error) {
+// Nesting deeper than this is rejected, so that the recursion can't exhaust the stack.
+const maxBerDepth = 512
+
+var errBerTruncated = errors.New("ber2der: BER data is truncated")
+
+func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 	//fmt.Printf("\n====> Starting readObject at offset: %d\n\n", offset)
+	if depth > maxBerDepth {
+		return nil, 0, errors.New("ber2der: BER data is nested too deep")
+	}
 	tagStart := offset
+	if offset >= len(ber) {
+		return nil, 0, errBerTruncated
+	}
 	b := ber[offset]
 	offset++
 	tag := b & 0x1F // last 5 bits
 	if tag == 0x1F {
 		tag = 0
-		for ber[offset] >= 0x80 {
+		for offset < len(ber) && ber[offset] >= 0x80 {
 			tag = tag*128 + ber[offset] - 0x80
 			offset++
 		}
+		if offset >= len(ber) {
+			return nil, 0, errBerTruncated
+		}
 		tag = tag*128 + ber[offset] - 0x80
 		offset++
 	}
@@ -159,6 +173,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 	*/
 	// read length
 	var length int
+	if offset >= len(ber) {
+		return nil, 0, errBerTruncated
+	}
 	l := ber[offset]
 	offset++
 	indefinite := false
@@ -167,6 +184,9 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		if numberOfBytes > 4 { // int is only guaranteed to be 32bit
 			return nil, 0, errors.New("ber2der: BER tag length too long")
 		}
+		if numberOfBytes > len(ber)-offset {
+			return nil, 0, errBerTruncated
+		}
 		if numberOfBytes == 4 && (int)(ber[offset]) > 0x7F {
 			return nil, 0, errors.New("ber2der: BER tag length is negative")
 		}
@@ -210,7 +230,7 @@ func readObject(ber []byte, offset int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset)
+			subObj, offset, err = readObject(ber, offset, depth+1)
 			if err != nil {
 				return nil, 0, err
 			}
-- 
2.43.0


From bbdda25984caaf4322042e5f33c3d8fa0cd8450a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 06/13] fix: an empty indefinite-length BER element swallowed
 its terminator

---
 fullsailor/pkcs7/ber.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 300de5a..9a34a64 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -230,12 +230,6 @@ func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 		for (offset < contentEnd) || indefinite {
 			var subObj asn1Object
 			var err error
-			subObj, offset, err = readObject(ber, offset, depth+1)
-			if err != nil {
-				return nil, 0, err
-			}
-			subObjects = append(subObjects, subObj)
-
 			if indefinite {
 				terminated, err := isIndefiniteTermination(ber, offset)
 				if err != nil {
@@ -246,6 +240,12 @@ func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 					break
 				}
 			}
+
+			subObj, offset, err = readObject(ber, offset, depth+1)
+			if err != nil {
+				return nil, 0, err
+			}
+			subObjects = append(subObjects, subObj)
 		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
-- 
2.43.0


From c0c5acb03b73894a463a5321bef4c657febc6d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 07/13] fix: reject BER elements that extend beyond their
 parent

---
 fullsailor/pkcs7/ber.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fullsailor/pkcs7/ber.go b/fullsailor/pkcs7/ber.go
index 9a34a64..7017110 100644
--- a/fullsailor/pkcs7/ber.go
+++ b/fullsailor/pkcs7/ber.go
@@ -247,6 +247,9 @@ func readObject(ber []byte, offset, depth int) (asn1Object, int, error) {
 			}
 			subObjects = append(subObjects, subObj)
 		}
+		if !indefinite && offset != contentEnd {
+			return nil, 0, errors.New("ber2der: BER element exceeds its parent")
+		}
 		obj = asn1Structured{
 			tagBytes: ber[tagStart:tagEnd],
 			content:  subObjects,
-- 
2.43.0


From 9ef0b06acbcc5f3b1367c6c798132cb5ee42d0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 08/13] fix: manifest ending with a colon caused a panic

---
 manifest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 60c0dc7..933516f 100644
--- a/manifest.go
+++ b/manifest.go
@@ -138,7 +138,7 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 		if ctx.data[ctx.pos] == ':' {
 			name = string(ctx.data[mark:ctx.pos])
 
-			if ctx.pos+1 > len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
+			if ctx.pos+1 >= len(ctx.data) || ctx.data[ctx.pos+1] != ' ' {
 				err = fmt.Errorf("Invalid header structure '%s'", name)
 				return
 			}
-- 
2.43.0


From 960b5a7afbf1573cedc4284f9d1ba78dcdf358b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:06 +0000
Subject: [PATCH 09/13] fix: empty continuation line in a manifest caused a
 panic

---
 manifest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/manifest.go b/manifest.go
index 933516f..9528b2c 100644
--- a/manifest.go
+++ b/manifest.go
@@ -186,7 +186,9 @@ func (ctx *manifestParserContext) readHeader() (name, value string, singleBlock
 			continue
 		case ' ':
 			if ctx.consecutiveLineBreaks == 1 {
-				value += string(ctx.data[mark:last])
+				if last > mark {
+					value += string(ctx.data[mark:last])
+				}
 				mark = ctx.pos
 				ctx.consecutiveLineBreaks = 0
 				continue
-- 
2.43.0


From 88e864f1f4a3ed414b6d4a5f7e23c4f61b373aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 10/13] fix: verify content digests of the v3.1 block even if a
 v3 block is present

---
 signingblock/schemev31.go    | 5 +++++
 signingblock/signingblock.go | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/signingblock/schemev31.go b/signingblock/schemev31.go
index dd601e9..cf1089d 100644
--- a/signingblock/schemev31.go
+++ b/signingblock/schemev31.go
@@ -9,6 +9,10 @@ import (
 type schemeV31 struct {
 	backendV3  schemeV3
 	backendV31 schemeV3
+
+	// digests from the v3.1 block, set only if they are not passed back from parseSigners
+	// because the v3 block has its own.
+	contentDigests map[contentDigest][]byte
 }
 
 func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[contentDigest][]byte, result *VerificationResult) {
@@ -42,6 +46,7 @@ func (s *schemeV31) parseSigners(block *bytes.Buffer, contentDigests map[content
 	}
 	result.ExtraResults[schemeIdV3] = v3result
 
+	s.contentDigests = v31ContentDigest
 	s.backendV3.parseSigners(bytes.NewBuffer(v3Block), contentDigests, v3result)
 }
 
diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index d24f634..caff91d 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -579,6 +579,13 @@ func (s *signingBlock) verify(scheme signatureBlockScheme, block []byte, minSdkV
 		return contentDigests
 	}
 
+	// The v3.1 block carries its own digests, they have to match the contents as well.
+	if v31, ok := scheme.(*schemeV31); ok && len(v31.contentDigests) != 0 {
+		if !s.verifyIntegrity(v31.contentDigests, res) {
+			return contentDigests
+		}
+	}
+
 	scheme.finalizeResult(minSdkVersion, maxSdkVersion, res)
 	return contentDigests
 }
-- 
2.43.0


From 427dcb47004cc7363c11e7469781df0d766c71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 11/13] fix: drop results of the invalid v3 scheme when falling
 back to v2

---
 signingblock/signingblock.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signingblock/signingblock.go b/signingblock/signingblock.go
index caff91d..acaa327 100644
--- a/signingblock/signingblock.go
+++ b/signingblock/signingblock.go
@@ -183,6 +183,10 @@ func VerifySigningBlockReaderWithZip(r io.ReadSeeker, minSdkVersion, maxSdkVersi
 			res.Warnings = append(res.Warnings, fmt.Sprintf("schemeV3: %s", e.Error()))
 		}
 		res.Errors = nil
+		// results of the failed scheme must not be mixed up with the v2 ones
+		res.Certs = nil
+		res.SigningLineage = nil
+		res.ExtraResults = nil
 		contentDigests = s.pickAndVerify(blocks, minSdkVersion, maxSdkVersion, res)
 	}
 
-- 
2.43.0


From 78c50d78e6b6c3e2fc823bed342a21545d9208b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 12/13] fix: v1 must verify AndroidManifest.xml when it is
 present

---
 schemev1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemev1.go b/schemev1.go
index a9eb65f..925f8dc 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -464,7 +464,8 @@ func (p *schemeV1) verifyMainManifest(apk *apkparser.ZipReader, minSdkVersion, m
 		}
 	}
 
-	if !hasAndroidManifest && !hasBundleConfig {
+	// AndroidManifest.xml may be missing only in app bundles
+	if hasAndroidManifest || !hasBundleConfig {
 		required = append(required, "AndroidManifest.xml")
 	}
 
-- 
2.43.0


From 27288cc858e6e9751752f9c46790f283aa7a6711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:20 +0000
Subject: [PATCH 13/13] fix: v1 must not panic on unknown digest algorithms or
 mismatched DSA keys

---
 schemev1.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/schemev1.go b/schemev1.go
index 925f8dc..fb236fa 100644
--- a/schemev1.go
+++ b/schemev1.go
@@ -695,7 +695,7 @@ func (p *schemeV1) verifySignature(sig *schemeV1Signature, minSdkVersion, maxSdk
 		dea := info.DigestEncryptionAlgorithm.Algorithm.String()
 		algo, prs := oidToAlgo[fmt.Sprintf("%s %s", da, dea)]
 		if !prs {
-			panic(fmt.Sprintf("Unknown digest algorithm: '%s %s'", da, dea))
+			return chain, fmt.Errorf("Unknown digest algorithm: '%s %s'", da, dea)
 		}
 
 		var signedData []byte
@@ -862,7 +862,10 @@ func (p *schemeV1) checkSignature(cert *x509.Certificate, algo x509.SignatureAlg
 		hasher.Write(signed)
 		hash := hasher.Sum(nil)
 
-		pub := cert.PublicKey.(*dsa.PublicKey)
+		pub, ok := cert.PublicKey.(*dsa.PublicKey)
+		if !ok {
+			return fmt.Errorf("Unexpected public key type (%T)!", cert.PublicKey)
+		}
 		reqLen := pub.Q.BitLen() / 8
 		if reqLen > len(hash) {
 			reqLen = len(hash)
-- 
2.43.0

