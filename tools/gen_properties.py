#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name","meaning","where"), s)) for s in state],
        "mechanism": [dict(zip(("name","where"), m)) for m in mech],
        "observe_at": observe, "hook_needed": hook}})

prop("C01", "Any quorum of honest nodes produces a valid, unique ECDSA signature",
 "After an honest key, presignature and multiplication run, the signature shares of every set of at least threshold nodes combine to a signature (r, s) that a standard secp256k1 ECDSA verifier accepts for the message hash under the public key derived for the requested path, with s in the lower half of the order and the same (r, s) whichever quorum was used. A set smaller than the threshold always yields an error and never a signature.",
 ["inputs","configurations","histories"], "every committee size and threshold in the bound, every subset of signers, every message hash, randomness and derivation path in the alphabet, and keys that were reshared or recovered through complaints",
 "One test signs one message with one fixed committee using all ten shares; the subset loop is commented out, so no proper quorum, no threshold boundary, no other path or hash is ever exercised, and s is only high or low by luck of one fixed seed.",
 ["sign/sign.go","sign/share.go","sign/combined_sig.go","dealings/transcript.go","key/key_derivation.go","curve/k256_scalar.go"],
 [("signature share combination by interpolation at zero, low-s normalisation","sign/combined_sig.go NewThresholdEcdsaCombinedSigInternal"),("rerandomised presignature and key tweak","sign/sign.go DeriveRho")],
 ["NewThresholdEcdsaSigShareInternal","NewThresholdEcdsaCombinedSigInternal","DerivePublicKey"])

prop("C02", "Transcripts always commit to the secret their history defines",
 "Along every history of random dealing, resharing of masked or unmasked sharings, multiplication and committee or threshold change with an allowed set of dealers, the resulting transcript commits to exactly the secret the history defines: the sum of the dealt secrets, the reshared secret, or the product. Every receiver's combined opening is consistent with the transcript, any threshold-many openings interpolate to that secret, and the result does not depend on which allowed dealer set was used for a resharing or multiplication.",
 ["histories","configurations"], "every operation history up to the depth bound, every sufficiently large dealer subset at each step, every committee size and threshold in the bound",
 "Tests follow four fixed histories with one dealer subset each and compare only constant terms of a few transcripts; they never compare secrets or individual shares with an independent model.",
 ["dealings/transcript.go","dealings/commitment.go","dealings/dealings.go","poly/lagrange.go"],
 [("summation or interpolation of dealing commitments","dealings/transcript.go NewTranscriptInternal"),("combination of decrypted openings","dealings/commitment.go FromDealings")],
 ["NewTranscriptInternal","FromDealings","FromDealingsAndOpenings"],
 [("combined commitment","commitment to the shared secret's polynomial","dealings/transcript_operation.go")])

prop("C03", "A transcript is only created from enough dealings of the right kind",
 "Creating a transcript fails whenever fewer dealings are supplied than the operation needs (the previous sharing's threshold for a resharing, the sum of both thresholds minus one for a multiplication), whenever a dealing's commitment has the wrong length or kind for the operation, whenever a source commitment has the wrong kind, and whenever a resharing of an unmasked sharing would change the shared public point. Otherwise it succeeds, and it never panics.",
 ["inputs","configurations"], "every operation, every number and subset of dealings from none to all, every single deviation of a dealing's commitment or of a source commitment",
 "Tests try a handful of too-small dealer counts for one committee and never a dealing of the wrong kind or length or a substituted dealing.",
 ["dealings/transcript.go"],
 [("count, length and kind checks before combining","dealings/transcript.go NewTranscriptInternal")],
 ["NewTranscriptInternal","CombineCommitmentsViaInterpolation"])

prop("C04", "Public verification accepts exactly the well-formed dealings",
 "Public verification of a dealing accepts every honestly created dealing for its own operation, dealer, receiver count, threshold and associated data. It rejects a dealing whose commitment, ciphertext or proof is of the wrong kind or size for the operation, whose proof of possession or consistency proof does not hold for this dealer, data and previous sharing, or whose constant term is not the dealer's share of the previous sharing; it returns an error rather than panicking on any such dealing.",
 ["inputs","configurations"], "every operation kind crossed with every dealing kind, and every single and selected double deviation of a dealing field or of a verification argument",
 "Tests check acceptance for honest dealings and rejection for only three changes of index, receiver count and data on the same call; no field of a dealing is ever tampered with.",
 ["dealings/dealings.go","mega/ciphertext.go","zk/equal_opening.go","zk/product.go"],
 [("kind and size checks, proof of possession, resharing and product proofs","dealings/dealings.go PubliclyVerify")],
 ["IDkgDealingInternal.PubliclyVerify","NewIDkgDealingInternal"])

prop("C05", "Private verification is exact for each receiver",
 "Private verification by a receiver succeeds if and only if the plaintext encrypted to that receiver in the dealing is the receiver's point on the committed polynomial and the ciphertext's proof of possession holds for the stated dealer and associated data. A corruption aimed at one receiver is detected by that receiver and by no other, and using another receiver's key or index, another dealer index or other associated data fails.",
 ["inputs","configurations","fault_sequences"], "every set of corrupted receivers, every corrupted component, every committed point, every receiver and every wrong verification argument",
 "Tests corrupt randomly drawn receivers by one random additive value in the value component only; masks, commitments and proofs are never corrupted.",
 ["dealings/dealings.go","mega/ciphertext.go","poly/commitment.go"],
 [("decrypt then check the opening against the commitment","mega/ciphertext.go DecryptAndCheck")],
 ["IDkgDealingInternal.PrivateVerify","OpenDealing"])

prop("C06", "Complaints are raised for exactly the bad dealings and cannot be forged",
 "A receiver's complaints cover exactly the dealings that fail for that receiver, and if there are none an error is reported. A complaint verifies if and only if it was made by the stated complainer about a dealing that really is bad for that complainer: complaints about good dealings, altered complaints, and complaints presented for another dealing, dealer, complainer, key or associated data are all rejected.",
 ["inputs","fault_sequences"], "every subset of dealings bad for the receiver, every kind of dealing, every altered part of a complaint and every wrong verification argument",
 "One test generates one complaint for one corrupted dealing and verifies it in its own context plus one wrong index; no spurious, altered or transplanted complaint is tried.",
 ["complaints/complaints.go","zk/dlog.go","mega/ciphertext.go"],
 [("proof that the revealed shared secret is the complainer's","complaints/complaints.go Verify")],
 ["GenerateComplaints","NewComplaintInternal","IDkgComplaintInternal.Verify"])

prop("C07", "Share recovery returns the true share or an error",
 "For a dealing that is bad for some receiver, the openings of every set of at least threshold other receivers recover exactly that receiver's share of the committed polynomial, and the recovered share completes the receiver's combined opening of the transcript. Fewer openings, openings of the wrong kind, or any altered or misattributed opening produce an error or the true share, never a different share.",
 ["inputs","fault_sequences","configurations"], "every subset of openings, every altered opening, every receiver, single and masked sharings, committee sizes and thresholds in the bound",
 "Tests recover with exactly one randomly chosen set of threshold openings per dealing and never with altered, extra or too few openings.",
 ["dealings/transcript.go","dealings/commitment.go"],
 [("interpolation of openings then consistency check","dealings/transcript.go ReconstructShareFromOpenings")],
 ["ReconstructShareFromOpenings","FromDealingsAndOpenings","CombineOpenings"])

prop("C08", "A signature share verifies exactly when it is the signer's correct share",
 "Every honestly computed signature share passes verification for its signer, and a share is rejected when its numerator or denominator (value or mask) is altered, when it belongs to another signer, or when any of message hash, randomness, derivation path or transcripts differs from the one it was computed for. Verification and share creation never panic on openings of an unexpected kind.",
 ["inputs","configurations"], "every signer, every altered component of the share, every replaced verification argument",
 "Tests only call verification on honest shares and only look for success, so a verifier that accepts everything passes.",
 ["sign/share.go"],
 [("comparison with the committed numerator and denominator at the signer's index","sign/share.go Verify")],
 ["NewThresholdEcdsaSigShareInternal","ThresholdEcdsaSigShareInternal.Verify"])

prop("C09", "Combined signature verification agrees with standard ECDSA",
 "Verification of a combined signature accepts exactly the pair (r, s) with non-zero r and s, s not in the upper half of the order, r derived from the rerandomised presignature of this request, and (r, s) a valid ECDSA signature on the message hash under the derived public key. Anything else, including the negated s, swapped or shifted values, and any other hash, randomness, path or transcript, is rejected.",
 ["inputs"], "every single deviation of r, s and of each argument, checked against an independent ECDSA verifier, for hash lengths up to 64 bytes",
 "Tests only verify one honest signature; no rejection is tested, and the low-s rule is never exercised on a high s.",
 ["sign/combined_sig.go","sign/sign.go","curve/k256_scalar.go"],
 [("range checks, rederived presignature, ECDSA equation","sign/combined_sig.go Verify")],
 ["ThresholdEcdsaCombinedSigInternal.Verify"])

prop("C10", "Encrypted shares decrypt only in their own context",
 "Each recipient decrypts exactly the plaintext encrypted to it, for single and paired plaintexts and any number of recipients and any associated data. Decryption fails when the associated data, the dealer index, the ephemeral key or any part of the proof of possession differs from the one used at encryption, and with another recipient's key or index, or an altered ciphertext component, it never yields the original plaintext in the affected position while leaving all other positions intact.",
 ["inputs","configurations"], "every recipient count, both ciphertext kinds, associated data lengths around encoding boundaries, every single altered component or argument, every ordered pair of recipients",
 "Tests decrypt two honest ciphertexts with three-byte associated data and a couple of wrong arguments; long associated data, component tampering and cross-recipient use are not tried.",
 ["mega/mega.go","mega/ciphertext.go","mega/key.go","ro/ro.go"],
 [("hash of the full context masks each plaintext","mega/mega.go megaHashToScalars"),("proof of possession of the ephemeral key","mega/mega.go VerifyPop")],
 ["EncryptCiphertextSingle","EncryptCiphertextPair","Decrypt","ComputePopBase"])

prop("C11", "Zero-knowledge proofs are complete, statement-bound and not forgeable by edits",
 "Each of the three proofs (equal discrete logarithms, equal openings, product) verifies for every witness including zero and boundary values, for the exact statement and associated data it was made for. It is rejected when any proof component, any point of the statement or the associated data is changed, when it was made from a witness that does not satisfy the relation, and when presented as a proof of another kind; the challenge depends on every part of the statement, the commitments and the associated data.",
 ["inputs"], "every witness from a boundary alphabet, every single changed component of proof, statement or associated data (including data longer than 255 bytes), every false witness in the alphabet",
 "Tests create one proof per kind and check at most two wrong arguments; false witnesses, boundary witnesses and changed proofs are never tried.",
 ["zk/dlog.go","zk/equal_opening.go","zk/product.go","ro/ro.go"],
 [("recomputed commitments hashed with the statement into the challenge","zk/*.go HashToChallenge and Verify")],
 ["Create","Verify","HashToChallenge"])

prop("C12", "Point encodings are canonical, validated and round-trip",
 "Every curve point, including the identity, survives serialization and deserialization unchanged in each supported format, and equal points always serialize to equal bytes. Deserialization accepts a byte string if and only if it is the correct encoding, in that format, of a point on the curve with coordinates below the field size, and otherwise returns an error without panicking, whatever the length and content. An encoded point, however it was made, compressed or selected, reads back as exactly the bytes and the text of the encoding it denotes.",
 ["inputs"], "all tag bytes, all lengths up to a bound, coordinates from boundary alphabets, every single-bit change of valid encodings, all formats and entry points",
 "Tests round-trip random valid points in compressed form; invalid x, off-curve or unreduced coordinates, wrong lengths of tagged, CBOR or uncompressed forms are not tried.",
 ["curve/k256_point.go","curve/point.go","curve/encode.go"],
 [("decoding through tagged coordinates with curve check","curve/k256_point.go fromEncodedPoint")],
 ["Point.Deserialize","Point.DeserializeAnyFormat","Point.DeserializeTagged","UnmarshalCBOR","Serialize*"])

prop("C13", "Scalar and field arithmetic is exact modular arithmetic with canonical encodings",
 "Every scalar and field operation (addition, subtraction, multiplication, inversion, negation, squaring, square root, comparison, zero, sign and high tests, conversions) gives the mathematically correct result modulo the group order or field prime, whichever of the operands share storage with each other or with the destination, and leaves its inputs unchanged. Encodings are fixed-length and round-trip, values at or above the modulus and wrong lengths are rejected by strict decoding, wide decoding reduces correctly, and random scalars are drawn by rejection.",
 ["inputs","programs"], "all operand tuples over a boundary alphabet, all aliasing patterns, all short operation programs over shared registers, all decode lengths up to a bound, all random-source answers in an alphabet",
 "Tests use random values, for which limb boundaries, values near the modulus, aliasing and rejection practically never occur; the high test is not tested at all.",
 ["curve/k256_scalar.go","curve/k256_fe.go","curve/scalar.go","curve/fe.go"],
 [("wrappers over Montgomery-form native fields","curve/k256_scalar.go, curve/k256_fe.go")],
 ["EccScalar and EccFieldElement methods","Scalar.*","Field.*"])

prop("C14", "Point arithmetic is the secp256k1 group law",
 "Addition, subtraction, doubling, scalar multiplication, multiplication by a node index, two-term linear combination and Pedersen commitment agree with the secp256k1 group for all operands, including the identity, equal and opposite points, zero and boundary scalars, and any internal representation of the same point. The result is the same whichever operands share storage with each other or with the destination, inputs are left unchanged, and equality and affine coordinates depend only on the point.",
 ["inputs","programs"], "all operand tuples over an alphabet of points (in several representations), scalars and indices, all aliasing patterns, short operation programs over shared registers",
 "Tests check multiplication by small indices against scalar multiplication of the same library, with random points only; identity, opposite points and aliasing are not covered.",
 ["curve/k256_point.go","curve/point.go"],
 [("wrappers over projective native points","curve/k256_point.go")],
 ["EccPoint methods","Point.MulPoints","Point.Pedersen","Point.MulByG"])

prop("C15", "Polynomial arithmetic, interpolation and Lagrange coefficients are exact",
 "Polynomial addition, multiplication, scaling, evaluation, equality and degree agree with arithmetic over the scalar field for every coefficient pattern including zeros. Interpolation returns the unique lowest-degree polynomial through any samples with distinct abscissas, in any order and even when later samples already lie on it, and fails on repeated abscissas; Lagrange coefficients at any value reproduce any polynomial of fitting degree for every set and order of node indices, and fail on empty or repeated indices.",
 ["inputs"], "all small coefficient vectors over a boundary alphabet, all sample sets and orders up to a size, all subsets and orders of node indices",
 "Tests use random coefficients, for which zero coefficients, collinear samples and special evaluation points do not occur.",
 ["poly/poly.go","poly/lagrange.go"],
 [("Newton interpolation","poly/poly.go Interpolate"),("Lagrange basis computation","poly/lagrange.go AtValue")],
 ["Poly.*","Lagrange.*"])

prop("C16", "Polynomial commitments bind: creation, evaluation and opening checks are exact",
 "A simple or Pedersen commitment is created exactly when the polynomial fits the stated number of coefficients and then contains the commitment to each coefficient; evaluating it at an index gives the commitment to the polynomial's value there. An opening is accepted at an index if and only if it is of the commitment's kind and equals the committed value (and mask) there, and commitments are equal, and have the same stable representation, only if kind and all points agree.",
 ["inputs"], "all small coefficient vectors over a boundary alphabet, all sizes, all indices in the alphabet, all altered and wrong-kind openings, all pairs of small commitments",
 "Tests only create commitments from random polynomials and check inequality of swapped ones; opening checks are never tested for rejection, kinds or zero coefficients.",
 ["poly/commitment.go"],
 [("Horner evaluation of points and comparison with the opening","poly/commitment.go EvaluateAt, CheckOpening")],
 ["SimpleCM.Create","PedersenCM.Create","EvaluateAt","CheckOpening","Equal","StableRepresentation"])

prop("C17", "Hash expansion, hash-to-scalar and hash-to-curve follow RFC 9380",
 "For every message, domain separator and output length the message expansion, hash-to-field, hash-to-scalar and hash-to-curve results equal those of RFC 9380 with SHA-256 (including separators of 256 bytes and more and the maximum length), and too long outputs are refused. The curve map gives the RFC's point for every field element, including its exceptional inputs, and its result is always on the curve.",
 ["inputs"], "all boundary lengths of message, separator and output, all counts in the bound, field elements from a boundary alphabet including the exceptional ones",
 "Tests compare a few published vectors; lengths around block and separator limits and exceptional field elements are not reached.",
 ["seed/xmd.go","curve/hash_to_curve.go"],
 [("message expansion","seed/xmd.go"),("simplified SWU map and isogeny","curve/hash_to_curve.go")],
 ["ExpandMessageXmd","HashToField","HashToScalar","HashToCurveRo","MapToCurve"])

prop("C18", "Random-oracle inputs are encoded injectively and never dropped",
 "The output of the structured hash depends on exactly the domain separator and the set of named, typed inputs added: two different sets give different outputs, the same set gives the same output in whatever order it was added, and reading an output changes nothing. An input of any length is included in full, and adding an invalid input (empty or over-long name, repeated name) reports an error and leaves the state unchanged.",
 ["inputs","histories"], "all sequences of add and output calls up to a depth over an alphabet of confusable names, types and values including lengths around 255 and 65536",
 "Tests check one fixed transcript of additions; order, confusable encodings, long inputs and failed additions are not tried.",
 ["ro/ro.go"],
 [("sorted, length-prefixed, typed encoding","ro/ro.go AddInput, formRoInput")],
 ["RandomOracle.Add*","RandomOracle.Output*"])

prop("C19", "Seeds and random streams are deterministic, independent and position-exact",
 "A random stream is a fixed function of its seed: however the bytes are requested (fills of any sizes, 32- and 64-bit words) the consumer sees consecutive bytes of the same stream, regardless of previous buffer contents and of other streams in use. Derived seeds are a fixed function of the parent and the label, different labels or parents give different seeds, and deriving or drawing never changes the parent.",
 ["histories","inputs"], "all request sequences up to a depth over an alphabet of sizes, two interleaved streams, all labels in an alphabet",
 "One test checks one stream prefix; request splitting, dirty buffers, interleaved streams and derivation independence are not tried.",
 ["rand/chacha20.go","seed/seed.go"],
 [("ChaCha20 key stream","rand/chacha20.go"),("hash-based derivation","seed/seed.go")],
 ["Rand methods","Seed.Derive","Seed.Rng","seed.From*"])

prop("C20", "Key derivation follows the extended BIP32 public derivation for every path",
 "For every master key and derivation path, with indices of any byte length, the derived public key is the master key plus the returned tweak times the generator, and tweak and chain key equal those of public BIP32 derivation starting from an all-zero chain key. When an index has no valid child (offset at or above the order, or child at infinity) the next index is used instead, and incrementing an index is exact big-endian addition of one that grows on overflow.",
 ["inputs","fault_sequences"], "all paths up to a depth over an alphabet of indices, all hash answers (valid, too large, leading to infinity) in an alphabet for the first attempts, all index byte strings up to two bytes and boundary ones beyond",
 "Tests check index increments for five inputs; derivation has no known-answer test and the invalid-child branch has probability 2^-127, so no test reaches it.",
 ["key/key_derivation.go","sign/sign.go"],
 [("child derivation by HMAC-SHA512","key/key_derivation.go ckdpub"),("index increment","key/key_derivation.go Next")],
 ["DerivationPath.DeriveTweak","DerivePublicKey","DerivationIndex.Next"])

prop("C21", "Operations do not disturb their inputs and clones are independent",
 "No operation of the library changes the value of anything passed to it (keys, dealings, commitments, openings, transcripts, proofs, maps, byte slices) apart from the receiver of an explicit in-place arithmetic call, so repeating any call, or running it after any other calls, gives the same result. A clone is equal to its original and later changes to either never show in the other.",
 ["histories","programs"], "all ordered pairs and triples of library operations over one shared set of objects, all clone-and-mutate combinations",
 "Tests call each operation once on fresh objects and never re-examine inputs afterwards.",
 ["dealings/transcript.go","dealings/commitment.go","sign/share.go","sign/combined_sig.go","mega/ciphertext.go","zk/product.go","poly/commitment.go"],
 [("cloning before in-place arithmetic","throughout")],
 ["every exported operation"])

prop("C22", "Concurrent use of shared objects gives the sequential results",
 "Read-only operations (verifying, decrypting, opening, combining, hashing, deriving, signing) on shared keys, dealings, transcripts and openings may run concurrently from several goroutines: every interleaving gives each caller exactly the result it would get alone, and no data race occurs.",
 ["schedules"], "all interleavings with a bounded number of preemptions at every statement of the library, for all pairs of operations in the driver, plus a free-running race-detector pass",
 "All tests are single-threaded.",
 ["curve/hash_to_curve.go","curve/k256_scalar.go","curve/k256_point.go","ro/ro.go","mega/ciphertext.go"],
 [("absence of shared mutable state: every operation works on its own temporaries","throughout")],
 ["every exported operation"],
 [("package-level tables and constants","read-only after start-up","curve/hash_to_curve.go, curve/k256_scalar.go")])

prop("C23", "Openings, commitments and keys round-trip; malformed encodings are rejected",
 "Commitment openings, polynomial commitments, opening bytes and encryption keys survive serialization and deserialization with kind and values unchanged, and a deserialized opening can be used wherever the original could. Deserializing truncated, altered-kind, wrong-count or otherwise malformed data returns an error, never a panic or a value with missing parts; the textual form of an opening is the same for every secret; transcripts compare equal exactly when their commitments have the same representation.",
 ["inputs"], "both kinds, values from a boundary alphabet, every prefix and every single-byte change of the encodings of a corpus, all wrong kinds and element counts",
 "Tests round-trip one simple opening and one simple commitment; Pedersen forms and malformed data are not tried.",
 ["poly/commitment.go","dealings/secret_shares.go","dealings/transcript_operation.go","mega/key.go","curve/scalar.go"],
 [("CBOR envelope with curve and kind","poly/commitment.go Serialize, Deserialize")],
 ["CommitmentOpening.Serialize","Commitment.Deserialize","PolynomialCommitment.Serialize","Secret.From","Compare"],
 hook="exported entry point for commitment deserialization (build tag verif)")

prop("C24", "The protocol computes the published algorithm bit for bit",
 "For the same seed, inputs and indices, dealings (polynomials, commitments, ciphertexts, proofs), complaints, combined openings, signature shares and signatures are exactly those of the published threshold-ECDSA algorithm with its domain separators, hashed contexts and seed derivations. In particular every challenge, mask, proof base and presignature randomiser is derived from the complete context the algorithm prescribes.",
 ["inputs","configurations"], "all operation kinds, recipient counts, thresholds, dealer indices and associated-data lengths in the bound, compared with an independent reference implementation",
 "Tests only check that the library agrees with itself, so a context element dropped or confused on both sides goes unnoticed.",
 ["dealings/dealings.go","mega/mega.go","zk/dlog.go","zk/equal_opening.go","zk/product.go","complaints/complaints.go","sign/sign.go"],
 [("seed derivation labels and random-oracle transcripts","throughout")],
 ["NewIDkgDealingInternal","NewComplaintInternal","NewThresholdEcdsaSigShareInternal"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
