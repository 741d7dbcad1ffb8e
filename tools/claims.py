CLAIMED['C02']=dict(note='Contracts on the signer parsing and verification functions of schemes v2 and v3: a signer accepted without error carries a valid signature by its strongest algorithm over its signed data with the key of its first certificate, identical algorithm lists, and its digest.')
CLAIMED['C05']=dict(note='Contracts on v3 and v3.1 signer parsing and finalization: the platform range of every accepted signer is the signed one, ranges do not overlap or leave gaps, and the requested interval decides what is verified.')
CLAIMED['C06']=dict(note='Contracts on lineage parsing, comparison and consolidation: every accepted lineage is a chain of signed certificates, distinct, ending in the signer; the reported one is a longest of them.')
CLAIMED['C01']=dict(note='Contracts from the signer parsers up to the exported verification functions: without an error every signer of the deciding block names, for each digest kind it signs, the digest of the file outside its signing block (end record adjusted). The two functions that compute the chunked and verity digests are assumed to return fileDigest and are only compared with a reference implementation on generated files.')
CLAIMED['C03']=dict(note='Contracts from certAdder up to the exported functions: without an error the reported chains are, in order, the certificate lists of the signers of the deciding block, each authenticated; nothing of a failed scheme remains.')
CLAIMED['C04']=dict(note='Contracts on block enumeration, scheme choice, fallback and stripping attributes: the strongest scheme the requested platforms know decides, v2 replaces a failed v3 only for platforms before Pie, and no accepted signer announces a scheme that is absent.')
CLAIMED['C12']=dict(note='Contracts on end record and signing block location: what is accepted satisfies the layout predicate, and the block lies where its footer and header say.')
CLAIMED['C13']=dict(note='Contract on findSignatureBlocks against a recursive definition of the id-value pairs: every pair is enumerated, the last of each id decides, malformed areas are refused.')
CLAIMED['C14']=dict(note='Absence of run-time panics (index, slice, nil, division, conversion, type assertion) in the functions reachable from the exported signing block functions, from their contracts. Frosting verification and source stamp verification are assumed not to panic and only exercised on generated and mutated files.')
CLAIMED['C07']=dict(note='Contract on VerifyWithSdkVersionReader and its wrappers: acceptance implies a non-empty platform interval, a verified signing block (or none and a valid v1 signature), v1 validity wherever older platforms are in range, and a v2+ signature where sandbox version or target level demand it. The outcomes of reading the manifest and of v1 verification are named by ghost functions, not derived from the archive.')
CLAIMED['C08']=dict(note='Contract on VerifyWithSdkVersionReader: a file starting with the DEX magic is accepted only when the signing block verified and no platform before v2 is in range, and ErrMixedDexApkFile is returned only for such files. The outcomes of reading the manifest and of v1 verification are named by ghost functions.')
CLAIMED['C09']=dict(note='Contracts from verifyFileHash and verifyManifestEntry up to verifySchemeV1: without an error every file outside META-INF and the application manifest has a section with a usable digest, its strongest digest matches what the archive entry reads as, no listed entry is missing, and every such file is listed in a remaining signature file. That the same signers list every file is only exercised on generated archives.')
CLAIMED['C11']=dict(note='Contract on v1 verification with the outcome of verifySignature named: without a signing block and for ranges reaching API 24, no authenticated signature file announces a v2 signature when verification succeeds. Attribute lookup, splitting, trimming and number parsing are library functions taken as given.')
CLAIMED['C22']=dict(note='Contracts on getDigestsToVerify and verifyManifestEntry: exactly the prescribed algorithms are selected, each is checked by the hash function of its name, and an entry without usable digest is refused; callers establish the precondition on the hashers.')
NA['C10']='the certificate check unmarshals and re-encodes ASN.1 by reflection (internal/asn1andr, pkcs7), which the verifier does not model: verifySignature stands under a trusted contract that only names its outcome. The bounded harness group for it exists (check.py C10 runs it) but is not claimed as a proof.'
NA['C15']='manifest.go and fullsailor/pkcs7 are not under contract (parseManifest and pkcs7.Parse are trusted, asn1andr decodes by reflection); panic freedom is discharged only for the schemev1.go functions under contract, which is not the property, so it is not claimed. Defects found here by the harness were repaired.'
NA['C16']='source stamp verification (sourcestamp.go) is only under a trusted contract; its map iteration and sorting into a digest encoding needs a permutation theory of sort.Sort that the verifier does not have.'
NA['C17']='frosting.parse and verifyApk are trusted; variable-length integers shift by symbolic amounts, which the verifier leaves uninterpreted, and the digests run through io.Copy chains it does not model.'
NA['C18']='the tree lives in one buffer whose levels are overlapping sub-slices written through io.Writer and dataSource interfaces; the statement needs a recursive hash-tree definition over those views, which was not brought within reach. C01 assumes the result (trusted contract) and compares it with a reference on generated files, which is bounded and not claimed.'
NA['C19']='the manifest parser works on a byte cursor with nested scanning loops whose invariant is a full grammar of the text; no contract within reach decides it.'
NA['C20']='the BER reader recurses over heap-allocated trees behind an interface with io.Writer encoders; the value-preservation statement needs an inductive tree predicate the contract language lacks.'
NA['C21']='internal/asn1andr decodes through reflect.Value, which the verifier does not model; the leaf integer functions use shifts and loops over symbolic widths left uninterpreted.'
NA['C23']='the digests and fields are copied straight from library calls, so the contract would restate the trusted model of md5, sha1, sha256, hex and x509; picking needs sort.Sort to be a permutation on a user-defined interface, which the verifier does not model.'
