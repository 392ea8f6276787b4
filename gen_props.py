#!/usr/bin/env python3
"""Writes properties.jsonl (one JSON object per line)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every honestly cast ballot is accepted by every collector",
  "A ballot cast by an honest voter for any candidate in the inclusive range, in any supported curve group, encrypts that candidate and is accepted by every collector of that election, whether it is handed over in memory or sent as JSON. This holds for every value the entropy source produces and however ballots are delayed, duplicated, reordered, interleaved with other voters and collectors, or re-verified after a restart or clock jump.",
  ["inputs","schedules","histories","configurations","fault_sequences"],
  "all candidates lo..hi, all groups, all entropy streams, all delivery orders and interleavings of casting and verification, all restarts",
  "The only end-to-end test does not compile, and it would look at two stored ballots; no test casts a vote, varies the candidate, the entropy or the order of deliveries.",
  ["voter.go","server.go","elgamal.go","marshal.go","main.go","voteproof/voteproof.go","bulletproofs/bp.go","bulletproofs/bip.go","group/*.go"],
  [("cast: encrypt, two range proofs, cross-group proof","voter.go castVote"),("verify: two range proofs, shift commitments, cross-group proof","server.go verifyVote")],
  ["verdict returned for a delivered ballot","error returned by decoding a delivered ballot"])

p("C02","An accepted ballot always encrypts a candidate inside the range",
  "Whatever message a Byzantine voter sends, if a collector decodes and accepts the ballot then decrypting its ciphertext with the election key gives a candidate number between the lowest and the highest candidate, inclusive. This includes voters who know all their own secrets, who choose any part of the message after seeing the challenge it leads to, and who supply their own parameters inside the message.",
  ["inputs","histories","configurations","fault_sequences"],
  "all Byzantine voter strategies in the strategy library, at every point of an election with honest traffic around them",
  "Tests only run the honest prover on one out-of-range value per side; no test plays a voter who deviates from the protocol.",
  ["server.go","marshal.go","voteproof/voteproof.go","voteproof/marshal.go","bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/marshal.go","bulletproofs/util.go"],
  [("range proofs for x-lo and hi-x","bulletproofs/bp.go Verify"),("equality of the secret across groups","voteproof/voteproof.go Verify"),("collector uses its own parameters","server.go verifyVote")],
  ["verdict of the collector","plaintext of the accepted ciphertext under the election key"])

p("C03","A ballot altered or spliced in transit is rejected",
  "If on its way to the collector the ciphertext, a range-proof commitment or any component of any of the three proofs of an honest ballot is changed to a different value (scalars count modulo the group order), removed, or replaced by the corresponding part of another ballot, the collector rejects it, also when it has already seen and accepted the originals; the untouched ballots are accepted.",
  ["fault_sequences","histories","inputs"],
  "every component of the message, every kind of corruption and splice, every position in a history of accepted ballots",
  "No test delivers a changed ballot; the space of components, corruptions and histories cannot be sampled by fixed examples.",
  ["server.go","marshal.go","voteproof/*.go","bulletproofs/*.go","group/modsafeprime.go"],
  [("challenge recomputation over statement and commitments","voteproof/voteproof.go Verify"),("verification equations","bulletproofs/bp.go, bip.go Verify"),("membership checks on decoding","group/*.go UnmarshalJSON")],
  ["verdict of the collector for a message whose decoded content differs from the one sent"])

p("C04","Malformed messages never crash the collector or disturb other ballots",
  "For every byte string a collector receives (truncated, bit-flipped, structurally mutated JSON, missing or null or oversized or negative values, points off the curve, vectors of the wrong length) decoding and verification return an error or a rejection instead of panicking, hanging or accepting it. Every well-formed honest ballot processed before, during or after it is still accepted.",
  ["inputs","fault_sequences","histories","schedules"],
  "all corruptions of the byte stream of any ballot, at any point between honest ballots, on concurrent collector workers",
  "No test feeds malformed input to any decoder.",
  ["marshal.go","voteproof/marshal.go","bulletproofs/marshal.go","group/p256.go","group/p384.go","group/ristretto255.go","group/p256k1.go","group/modsafeprime.go"],
  [("decoders return errors","marshal.go, */marshal.go, group/*.go UnmarshalJSON"),("shape checks","bulletproofs/bp.go Verify")],
  ["panic or hang of decode/verify","verdict and error of the malformed message","verdicts of surrounding honest ballots"])

p("C05","Shared parameters and ballots are never modified; verdicts are repeatable",
  "Any number of voters and collectors that share one set of public parameters can run concurrently, fail, or be abandoned half way, in any interleaving, and neither the public parameters nor any ballot being verified changes. Verifying the same ballot again, at any time and next to any other activity, gives the same verdict.",
  ["schedules","crash_points","histories"],
  "all interleavings (statement granularity) of casting and verifying tasks over shared parameters, all points at which a task dies",
  "Tests are single-threaded and build fresh parameters for every proof; none verifies a proof twice or abandons an operation.",
  ["voter.go","server.go","bulletproofs/*.go","voteproof/voteproof.go","group/*.go","util/util.go"],
  [("operations write only to fresh elements","group/*.go, bulletproofs/*.go, voteproof/voteproof.go")],
  ["digest of public parameters and ballots at every task boundary and crash point","verdict of each verification"],
  state=[("public parameters","generators, orders, key, range bounds shared by all parties","main.go PublicParameters")])

p("C06","All blinding is fresh, full-width and comes only from the entropy source",
  "Every secret nonce and blinding factor behind the published ciphertexts, commitments and proof messages is drawn from the full range of its group (or masking range) and never repeats within a proof, across proofs, ballots, retries or processes with different entropy; the randomness of an encryption is never zero, whatever the source delivers. Given the same entropy the same ballot results, so nothing but the entropy source decides them.",
  ["inputs","histories","fault_sequences"],
  "all entropy streams, all histories of proofs made in one process by several voters, including retries",
  "Tests never look at randomness; a reused, truncated or predictable nonce passes every verification.",
  ["elgamal.go","bulletproofs/bp.go","bulletproofs/multibp.go","voteproof/voteproof.go","group/*.go"],
  [("independent draws from crypto/rand","elgamal.go encryptVote, bulletproofs/bp.go Prove and sampleRandomVector, voteproof/voteproof.go Prove")],
  ["coefficients of published elements over the generators (read in a group with transparent discrete logarithms)","published responses"])

p("C07","An entropy failure never yields a ballot or proof made with bad randomness",
  "If the entropy source fails, ends early or delivers short reads at any point while a vote is cast or a proof is made, the operation either publishes nothing or publishes a ballot that verifies and whose every blinding factor was still properly drawn. Once the source works again, the next ballot is cast normally and accepted.",
  ["fault_sequences","crash_points","histories"],
  "every read position of the entropy source at which it can fail, every failure shape, every later history",
  "No test injects an entropy fault; all error results of the source are ignored by the callers.",
  ["elgamal.go","voter.go","bulletproofs/bp.go","bulletproofs/multibp.go","voteproof/voteproof.go","group/*.go"],
  [("rand.Int returns no value on error, so use of it stops the operation","all callers of crypto/rand")],
  ["whether a ballot or proof is published after a failed read","its blinding factors","verdict of the next ballot"])

p("C08","Published responses stay inside the masking range and proving terminates",
  "Every cross-group proof that is published has its integer response inside the fixed no-leak range, whatever the entropy source delivers, and a collector rejects every proof whose response lies outside that range. For all sizes that set-up accepts, proving retries with fresh randomness and finishes within a bounded number of draws once the entropy source behaves normally.",
  ["inputs","fault_sequences","histories"],
  "all entropy streams including stuck and extreme ones that force the rare retry, all secrets, all parameter sizes",
  "The retry happens once in 2^12 to 2^143 proofs, so tests never reach it; no test has a response near or beyond the bounds.",
  ["voteproof/voteproof.go"],
  [("abort loop","voteproof/voteproof.go Prove"),("range check of z","voteproof/voteproof.go Verify")],
  ["Z of a published proof","number of entropy draws after the source recovers","verdict for transcripts at and beyond the bounds"])

p("C09","A range proof is accepted exactly when the committed value is in range",
  "For every supported bit length, a range proof made honestly for a value v is accepted if 0 <= v < 2^n and rejected otherwise, in memory and after decoding. No proof a Byzantine prover builds for a commitment to a value outside the range is accepted, whichever of the verification conditions it violates and whichever part it chooses late.",
  ["inputs","configurations","histories","fault_sequences"],
  "all bit lengths 1..32 (powers of two), all values, entropy streams, prover deviations",
  "Tests check five values at one bit length in one group with the honest prover only.",
  ["bulletproofs/bp.go","bulletproofs/bip.go","bulletproofs/util.go","bulletproofs/vector.go","bulletproofs/marshal.go","util/util.go"],
  [("conditions 65, 67 and the inner-product argument","bulletproofs/bp.go Verify, bip.go Verify"),("Fiat-Shamir challenges","bulletproofs/util.go HashBP, bip.go hashIP")],
  ["verdict of the verifier"])

p("C10","The cross-group proof ties ciphertext and both commitments to one secret",
  "A proof made honestly for a ciphertext and two commitments that hide the same secret is accepted, for all parameter sizes and group pairs. It is never accepted for a statement in which the ciphertext is not an encryption of, or a commitment does not hide, that one secret, even if the prover knows every secret value and fixes parts of statement or proof after the challenge.",
  ["inputs","configurations","histories","fault_sequences"],
  "all secrets, group pairs and parameter sizes, entropy streams, prover deviations",
  "The package has no tests at all.",
  ["voteproof/voteproof.go","voteproof/marshal.go"],
  [("four verification equations and challenge recomputation","voteproof/voteproof.go Verify")],
  ["verdict of the verifier"])

p("C11","An aggregated range proof is accepted exactly when all values are in range",
  "For every supported total bit length and every number of values that divides it, an honestly made aggregated range proof is accepted if every committed value fits its share of the bits, and rejected if any value does not. Changing any commitment or proof component makes it rejected.",
  ["inputs","configurations","histories","fault_sequences"],
  "all bit lengths, value counts, values, entropy streams, component faults",
  "One test with one pair of values, which fails on the pinned tree.",
  ["bulletproofs/multibp.go","bulletproofs/bip.go"],
  [("aggregated conditions 65, 67 and inner product","bulletproofs/multibp.go MultiProve, Verify")],
  ["verdict of the verifier"])

p("C12","The wire encoding is lossless for every group element and ballot",
  "Encoding any group element in any group (including the identity and elements whose coordinates have leading zero bytes) to JSON or binary and decoding it gives the same element, and encoding and decoding any ballot or proof gives an equal one that re-encodes to the same bytes. A damaged encoding, of an element or within a ballot, is refused or decodes to exactly what it then denotes: never silently to another element, to one that is not in the group, or to a component that is missing.",
  ["inputs","histories","fault_sequences","configurations"],
  "all elements reachable in elections, all groups, ballots in flight between parties with separately derived parameters, corrupted encodings",
  "Tests sample 128 random elements for some groups; JSON of ristretto255 panics and secp256k1 is not tested at all.",
  ["group/*.go","marshal.go","bulletproofs/marshal.go","voteproof/marshal.go"],
  [("marshal and unmarshal methods","group/*.go"),("ballot decoders","marshal.go, */marshal.go")],
  ["equality of decoded and sent content","re-encoded bytes"])

p("C13","Group elements are values: any history of in-place operations obeys the group",
  "In every group, after any history of in-place operations on a set of elements, with receivers aliasing operands in any way, with any integer scalars, and with several tasks reading shared elements at the same time, each element equals what the abstract prime-order group gives. An operation changes nothing but its receiver, and one on elements of different groups is refused and changes nothing.",
  ["histories","schedules","inputs"],
  "all operation histories over shared element registers, all aliasing patterns, all scalars including 0, negatives and multiples of the order, all interleavings of readers",
  "Tests check a few identities on fresh elements; aliasing, sharing, scalar extremes and long histories are not covered, and secp256k1 is excluded from most.",
  ["group/*.go"],
  [("element operations","group/modsafeprime.go, p256.go, p384.go, ristretto255.go, p256k1.go")],
  ["equality, identity and encoding of all registers after each operation"])

p("C14","Independently set-up parties derive identical, sound public parameters",
  "Any two parties that set up the same election, in any process, at any time, after any other activity and with any entropy, obtain identical public parameters, so a ballot cast under one party's parameters is accepted under another's. All generators in them are members of the group, different from the identity and pairwise distinct.",
  ["histories","configurations","schedules","crash_points"],
  "all groups and sizes, all histories of set-ups, restarts and elections in other groups before or during set-up",
  "Every test sets up once and uses the result in the same place.",
  ["main.go","bulletproofs/bp.go","bulletproofs/bip.go","voteproof/voteproof.go","group/*.go"],
  [("generators hashed from fixed seeds","bulletproofs/bp.go Setup, bip.go setupInnerProduct")],
  ["equality of parameter digests across nodes and restarts","verdict across nodes"])

p("C15","Reported proving and verification times are the time the work took",
  "For any speed of the machine and of its entropy source, any other activity and any adjustment of the wall clock, the duration reported with a ballot covers making its proofs and nothing before that, and the two durations reported for an accepted ballot cover checking its range proofs and checking its cross-group proof, each counted in its own place only. No reported duration is negative or longer than the operation took. The benchmark program reports the averages of these durations and that honest ballots were correctly formed.",
  ["schedules","configurations","fault_sequences"],
  "all stalls of the machine and of the entropy source at any point of casting and verifying, all wall-clock adjustments, all interleavings of voters and collectors, accepted and rejected ballots",
  "No test looks at a reported time, and none can control the clock.",
  ["voter.go","server.go","main.go"],
  [("time measurements","voter.go castVote, server.go verifyVote"),("benchmark report","main.go main")],
  ["durations returned with ballots and verdicts","report of the benchmark program","simulated clocks"])

p("N01","Ballots are computationally hiding and zero-knowledge",
  "A published ballot reveals nothing about the chosen candidate beyond its validity to any efficient observer.",
  ["inputs"],"all efficient distinguishers","Computational indistinguishability is not an observable of any run.",
  ["elgamal.go","bulletproofs/bp.go","voteproof/voteproof.go"],[("ElGamal, Pedersen, Fiat-Shamir","elgamal.go, bulletproofs, voteproof")],["none"])
p("N02","No party knows discrete logarithms between the generators",
  "The auxiliary generators are derived so that nobody knows a discrete-logarithm relation between them.",
  ["configurations"],"all groups","A hardness assumption about a hash function; no test or run can observe it.",
  ["bulletproofs/bp.go","group/*.go"],[("MapToGroup","group/*.go")],["none"])
p("N03","Set-up rejects unsupported range sizes and inconsistent proof sizes",
  "Range set-up accepts exactly the upper bounds 2^n with n a power of two and n <= 32, and cross-group set-up fails exactly when the sizes leave no room for masking.",
  ["inputs"],"all integer arguments","Few values are tried by tests.",
  ["bulletproofs/bp.go","bulletproofs/util.go","voteproof/voteproof.go"],[("argument checks","bulletproofs/bp.go Setup, voteproof/voteproof.go Setup")],["error result"])
p("N04","Casting does not leak the vote through timing",
  "The time casting takes does not depend on the chosen candidate or on secret values.",
  ["inputs"],"all secrets","Real time is not observable in a functional test; the README disclaims it.",
  ["voter.go","group/*.go"],[("none: disclaimed in README.md","README.md")],["none"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
assert all(len(x["title"])<=80 for x in P), [x["title"] for x in P if len(x["title"])>80]
