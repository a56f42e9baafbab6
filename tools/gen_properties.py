#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

Q="src/qesa_zk.rs"; QI="src/ipa/qesa_inner.rs"; AZ="src/ipa/alm_zk.rs"; NZ="src/ipa/no_zk.rs"; GS="src/ipa/gramschmidt.rs"
LN="src/lmpa/no_zk.rs"; LS="src/lmpa/simple_zk.rs"; CC="src/copy/copy.rs"; CM="src/copy/mapping.rs"; MX="src/matrix.rs"; MU="src/math_utils.rs"; TR="src/transcript.rs"
HK="cfg(qesa_verif) accessors for private modules and private proof fields"

p("C01","Honest proofs of satisfied quadratic systems always verify",
  "For every common reference string of power-of-two size n >= 4, every system of one or more quadratic equations w^T*Gamma_i*w = 0 over n-2 variables and every witness whose first entry is 1 and which satisfies all of them, the quadratic-system prover returns a proof that the verifier accepts when both start from equal transcripts. This holds whatever the values (zeros, ones, tiny or huge scalars, sparse or dense or all-zero matrices, more equations than n), whatever was on the transcript before, and prover and verifier leave their transcripts in the same state.",
  ["inputs","configurations"],"all n=2^k>=4, all numbers of equations, all satisfied (Gamma, w), all CRS, all prior transcript contents, all prover randomness",
  "The unit tests prove one n=4 and one n=8 system of 2 random or one fixed-shape equations each with random coefficients; larger n, many equations, non-generic values and used transcripts are never tried.",
  [Q,QI,AZ,NZ,GS,MU,MX],
  [("extend witness with r', rotate it, batch equations, reduce to a masked inner product","%s create/verify"%QI),("masked inner-product argument","%s create/verify"%AZ)],
  observe=["qesa_zk::create","Zk::verify"], hook=HK)

p("C02","No proof verifies for an unsatisfied quadratic system",
  "A quadratic-system proof made from a witness that violates at least one equation, however many equations there are and whichever one it is, or whose first entry is not 1 (even if all equations hold), is never accepted. The same holds for a cheating prover that follows the protocol except for compensating the error in a message of its own choice, or that picks a message after learning the challenges that message should have determined.",
  ["inputs","programs"],"all systems, all witnesses violating them in any one place or with a wrong constant, and a family of cheating provers",
  "No existing test expects a rejection: every test of the quadratic argument is an honest proof that must be accepted.",
  [Q,QI,AZ,NZ,MX],
  [("all equations are batched with distinct powers of a challenge","%s create/verify, %s block_matrix_batch"%(QI,MX)),("first generator rescaled so that the first entry must be 1","%s"%QI),("t is recomputed by the verifier from s and Gamma","%s verify"%QI)],
  observe=["Zk::verify","inner verify"], hook=HK)

p("C03","A quadratic-system proof is bound to its statement and its context",
  "A proof accepted for one system of equations, reference string and transcript is rejected when any coefficient of any equation is changed, an equation the witness does not satisfy is added, any one generator is replaced, or the transcript that precedes it differs. That includes replacement systems computed after the proof was seen, with knowledge of all its challenges: every challenge of a verification depends on every coefficient of every equation and on the transcript before it.",
  ["inputs"],"all accepted (proof, system, CRS, transcript prefix) and all single changes to one of them, including challenge-aware changes of several equations",
  "Tests always verify with exactly the statement and transcript the proof was created for.",
  [Q,QI,AZ,NZ],
  [("challenges are drawn from a transcript that has absorbed statement and commitments","%s, %s"%(QI,TR)),("verifier recomputes the commitment C_w from Gamma, G and H","%s verify"%QI)],
  observe=["Zk::verify"], hook=HK)

p("C04","Any altered inner-product, quadratic or copy proof is rejected",
  "Take an accepted proof of the inner-product, masked inner-product, quadratic-system or commitment-linked argument and change one value in it that the verifier's decision rests on (any curve point, any scalar), swap two different values, drop or duplicate a round, or splice in a value from another proof of the same statement. The verifier no longer accepts it.",
  ["inputs"],"all accepted proofs and all single-component edits that change a value the verifier reads",
  "No test ever changes a proof before verifying it.",
  [NZ,AZ,QI,CC,Q],
  [("final group equation over all rounds","%s verify"%NZ),("verifier recomputes P from C_r and C_w","%s verify"%AZ)],
  observe=["verify of each protocol"], hook=HK)

p("C05","Malformed proofs are rejected, not crashed on",
  "Every verifier in the library returns false on a proof whose point encodings are not valid group elements or whose rounds, rows or final vectors have the wrong number of entries. It never panics and never accepts because of a missing or extra part.",
  ["inputs"],"all proofs obtained by corrupting encodings (random bytes, non-canonical, negative, bit flips) or lengths (missing, extra, unequal rounds; short or long rows) of any component, for every protocol",
  "No test verifies anything but a well-formed honest proof.",
  [NZ,AZ,QI,CC,LN,LS],
  [("decompression and length checks in the verifiers","%s verify, %s verify, %s verify, %s verify, %s verify"%(NZ,AZ,QI,CC,LN))],
  observe=["verify of each protocol"], hook=HK)

p("C06","Quadratic-system and copy proofs carry fresh, full-size blinding",
  "Two quadratic-system (or commitment-linked) proofs of the same statement and witness made with independent randomness differ in every prover message, and every commitment to the witness in a proof is blinded by two independent full-size random values. Nothing in the proof is the unblinded commitment of the witness or of a known function of it.",
  ["inputs"],"all statements and witnesses (including all-zero ones), all CRS including ones that isolate a single generator, all pairs of randomness streams",
  "Tests look only at the verifier's verdict, which is the same with and without blinding.",
  [Q,QI,AZ,GS,CC],
  [("r' sampled per proof, r'' its rotation","%s create, %s create, %s create"%(Q,CC,QI)),("masking by sampled orthogonal vectors","%s create"%AZ)],
  observe=["proof components"], hook=HK+"; harness builds against a copy of the rand crate whose thread_rng can be seeded")

p("C07","Every challenge depends on every earlier prover message",
  "In every protocol of the library, changing any message the prover sends changes every challenge drawn after it on the verifier's side, and leaves earlier ones as they were. Prover and verifier draw the same challenges on an honest run and end in the same transcript state.",
  ["inputs","histories"],"all protocols, all proof messages, all values they are changed to",
  "A message left out of the transcript (or absorbed one step late) on both sides leaves every honest proof valid, so accept-only tests cannot see it.",
  [TR,NZ,AZ,QI,CC,LN,LS],
  [("append_message before challenge_scalar in matching order on both sides","every create/verify pair")],
  observe=["challenges drawn from the transcript","transcript state after create and verify"], hook=HK+"; harness builds against a copy of the merlin crate that logs challenges")

p("C08","The inner-product argument accepts exactly true inner products",
  "For every power-of-two length and all vectors a, b, an inner-product proof verifies against the commitment P to (a, b, t) and the value t = <a,b>. It is rejected for any other claimed value, with or without a commitment shifted to match, for a commitment or generator that differs, and for prover messages chosen after the challenges.",
  ["inputs","programs"],"all n=2^k, all vectors (also zero and sparse ones), all generators, all false claims (t, P, G_i, H_i, Q), and forged round messages",
  "One test proves one random statement with n=4 and only expects acceptance.",
  [NZ,MU],
  [("recursive halving of vectors and generators, check of the folded equation","%s create/verify"%NZ)],
  observe=["NoZK verify"], hook=HK)

p("C09","The masked inner-product argument accepts exactly true inner products",
  "For all power-of-two lengths n >= 2 and all vectors a, b that are not self-orthogonal (zero and parallel vectors included), the masked inner-product prover yields a proof that verifies against the commitment to (a, b) and t = <a,b>, and the proof is rejected against any other value, commitment or generator. Vectors it cannot mask (non-zero but orthogonal to themselves) are refused by the prover rather than turned into an invalid proof.",
  ["inputs"],"all n=2^k>=2, all pairs of vectors, all generators, all false claims",
  "One test proves one random n=4 statement and only expects acceptance; parallel, zero, sparse or orthogonal vectors never occur with random data.",
  [AZ,GS,NZ],
  [("masking vectors orthogonal to the witness and to each other","%s create, %s"%(AZ,GS))],
  observe=["AlmZK verify"], hook=HK)

p("C10","Orthogonalisation always yields orthogonal vectors",
  "For all vectors, the orthogonal projection returns the second vector minus a multiple of the first, and the result is orthogonal to the first; an already orthogonal vector comes back unchanged, and the only inputs refused are those where the first vector is self-orthogonal but not orthogonal to the second. A sampled mask is orthogonal to the one or two vectors it was sampled for, at every length n >= 4 (and is not the zero vector).",
  ["inputs"],"all lengths, all pairs of vectors (zero, parallel, orthogonal, sparse, unit, self-orthogonal), all randomness",
  "Three tests use one random pair of length-4 vectors each.",
  [GS,MU],[("Gram-Schmidt step b - (<a,b>/<a,a>)a","%s orth"%GS)],
  observe=["orth","sample_gram_schmidt","sample_gram_schmidt_twice"], hook=HK)

p("C11","Masks contain enough randomness and are really applied",
  "The random mask used by the masked inner-product argument spans, over repeated sampling, at least min(n-1, 2*log2(n)+1) dimensions for every power-of-two n >= 4, its random entries are independent full-size scalars, and they are fresh for each proof. The vectors handed to the inner argument are challenge times the witness plus these masks, so that no choice of challenges reveals a witness combination unmasked.",
  ["inputs","histories"],"all n=2^k>=4, all vectors, all randomness streams, many samples per case",
  "Tests check only orthogonality of one sample and acceptance of one proof; a mask with a missing, repeated or constant entry passes both.",
  [GS,AZ],[("sparse sampling with two entries per halving level","%s"%GS),("beta*a + r', beta*b + r''","%s create"%AZ)],
  observe=["sampled vectors","final scalars of proofs made with equal randomness under many transcripts"], hook=HK+"; seedable thread_rng")

p("C12","The halving linear-map argument is complete and sound in every row",
  "For every matrix of group elements with any number of rows and a power-of-two number of columns and every w, the proof made from w verifies for t = A*w. For independently chosen generators it is rejected if any single entry of t, or any entry of A such that t is no longer A*w, is different (in any row, including changes made after the proof was seen), if w is not a preimage of t, or if any value in the proof is changed. Every challenge depends on every entry of A and t.",
  ["inputs","programs"],"all m>=1, n=2^k, A, w, all single-entry falsifications of t and A, all single-value edits of the proof, challenge-aware false statements",
  "Tests prove a few random 4-row (or 1/2-row) statements and only expect acceptance.",
  [LN,MX],[("recursive halving and final check A*w = t","%s create/verify"%LN)],
  observe=["lmpa::no_zk::NoZK::verify"], hook=HK)

p("C13","The k-ary linear-map argument is complete and sound in every row",
  "For every folding factor k >= 2, every number of columns n = c*k^d with 1 <= c < k and any number of rows, the k-ary proof made from w verifies for t = A*w. For independently chosen generators it is rejected if any single entry of the claimed t, or any entry of A such that t is no longer A*w, is different (in any row), if w is not a preimage of t, or if any value in the proof is changed. Every challenge depends on every entry of A and t.",
  ["inputs","programs"],"all k>=2, d>=0, 1<=c<k, m>=1, A, w, all single-entry falsifications of t and A, all single-value edits of the proof",
  "One test proves a random 4x125 statement with k=5 and expects acceptance.",
  [LN,MX],[("split into k blocks, cross terms u_l, folding with powers of x and 1/x","%s create_lmpa_noZK/verify_lmpa_noZK"%LN)],
  observe=["lmpa_noZK::verify_lmpa_noZK"], hook=HK)

p("C14","The zero-knowledge linear-map arguments are complete and sound",
  "Both zero-knowledge linear-map arguments (halving and k-ary) verify for t = A*w in all shapes their plain versions support. For independently chosen generators they are rejected if any single entry of t, or any entry of A such that t is no longer A*w, differs in any row (including changes made after the proof was seen), if w is not a preimage of t, if the transcript context differs, or if any value in the proof is changed. Every challenge depends on every entry of A and t and on the transcript before it.",
  ["inputs","programs"],"all shapes, A, w, all single-entry falsifications, all single-value edits, challenge-aware false statements",
  "Tests only expect acceptance of a few random honest proofs.",
  [LS,LN,MX],[("a = A*r, challenge beta, proof for beta*w + r","%s create/verify, create_general/verify_general"%LS)],
  observe=["SimpleZK::verify","SimpleZK_general::verify_general"], hook=HK)

p("C15","Zero-knowledge linear-map proofs never expose the witness",
  "The zero-knowledge linear-map provers only ever work with beta*w + r, where every entry of r is an independent, full-size random value that is fresh for each proof and r's image is the announced vector. Neither the proof nor anything the prover prints contains the witness or a challenge-weighted combination of it that is not masked this way.",
  ["inputs","histories"],"all shapes and witnesses, all randomness streams, many transcripts per randomness stream",
  "Tests look only at the verifier's verdict, which is the same when the witness is not masked at all.",
  [LS,LN],[("w_prime = beta*w + r","%s create/create_general"%LS)],
  observe=["final witness scalars in proofs","announced vector a","standard output of the prover"], hook=HK+"; seedable thread_rng, logged challenges")

p("C16","Honest commitment-linked proofs always verify",
  "For any set of Pedersen vector commitments whose generator indices are admissible and fit the witness, with any overlap between index sets, any messages and randomness, and any quadratic system satisfied by the witness extended with the committed messages at their mapped positions, the commitment-linked proof verifies against those commitments.",
  ["inputs","configurations"],"all n=2^k>=8, numbers and sizes of commitments, index sets (overlapping, scattered, adjacent to the limits, above 255), witness sizes, user equations over witness and messages",
  "Two tests use one or two commitments to the first two or three generators with no user equation.",
  [CC,CM,QI],[("messages placed in the witness, aggregated into commitment positions with powers of alpha, copy equations added","%s create/verify"%CC),("position assignment","%s compute_mapping"%CM)],
  observe=["copy create/verify"], hook=HK)

p("C17","Commitment-linked proofs are bound to the committed values",
  "A commitment-linked proof is rejected for any commitments other than ones to the messages it was made with: a different message or randomness in one commitment, exchanged commitments, openings that do not match, commitments altered after the proof was seen so that their challenge-weighted sum is unchanged, or user equations the committed values do not satisfy. It is also rejected under a different index mapping or equation system. The challenges depend on every commitment and, after the first, on every equation and the mapping.",
  ["inputs","programs"],"all admissible statements as in C16 and all single falsifications plus challenge-aware changes of several commitments",
  "No test expects a rejection.",
  [CC,CM,QI],[("alpha drawn from the transcript weights the commitments; copy equations tie mapped positions to committed ones","%s create/verify"%CC)],
  observe=["copy verify"], hook=HK)

p("C18","The message mapping is a valid injective placement",
  "For every reference size, witness size and list of index sets that fits, the mapping assigns to each committed message, in order of commitment and index, a distinct witness position that is at or after the end of the caller's witness, before the two blinding positions and not one of the generator indices used by any commitment; it uses the lowest such positions and reports correct commitment numbers, generator indices, set of used indices, commitment count and last position. It refuses index sets that use the reserved position 0 or do not fit.",
  ["inputs"],"all n up to the u16 range, witness sizes, numbers of sets, index sets",
  "The one mapping test is random, fails at random and is skipped; the copy tests use one trivial layout.",
  [CM],[("filter of used indices, take(total), zip","%s compute_mapping"%CM)],
  observe=["compute_mapping"], hook=HK)

p("C19","Pedersen commitments are the documented linear combination",
  "A vector commitment equals the sum of each message times the generator selected by its index (in increasing index order) plus the randomness times the last generator (or the separate blinding generator in the linear-map variant). It is therefore additively homomorphic, changes whenever one message or the randomness changes, and is rejected at creation when messages and indices differ in number.",
  ["inputs"],"all generator vectors, index sets, messages and randomness, linear combinations of commitments",
  "One test checks one homomorphic combination of single-message commitments of one of the two functions.",
  [CM,LS],[("multiscalar multiplication plus blinding term","%s commit, %s pedersen_commit"%(CM,LS))],
  observe=["commit","pedersen_commit"], hook=HK)

p("C20","Matrix and vector operations agree with their definitions",
  "For all conforming shapes (rectangular and single-row or single-column too) and all values, scalar multiplication, matrix-vector product, row and matrix addition and subtraction, transpose, column splitting and the inner product, in their scalar, group-element and generic versions, give exactly what their mathematical definitions give. Operands of unequal row length or height, and column counts not divisible by the chunk size, are refused where the operation needs them to match.",
  ["inputs"],"all shapes up to a bound, all scalars including special ones, group elements with known discrete logarithms, machine integers for the generic versions",
  "No test calls these functions directly on anything but square or trivial shapes.",
  [MX,MU],[("direct implementations","%s, %s inner_product"%(MX,MU))],
  observe=["functions of the public matrix module","inner_product"], hook=HK)

p("C21","Batching weights every equation by its own challenge",
  "Batching a block of equal-shape matrices with at least as many challenges returns exactly the sum over all matrices of challenge i times matrix i: no matrix is skipped, repeated or weighted by another's challenge, whatever the number of matrices and their shape. In the quadratic argument every equation takes part in the batch, including when there are more equations than generators.",
  ["inputs"],"all numbers of matrices, shapes, values and challenges; systems with 1 to more than n equations where exactly one, at any position, is violated",
  "No test looks at the batch; the end-to-end tests use 2 satisfied equations, for which any weighting is accepted.",
  [MX,QI],[("zip with challenges, scale, sum","%s block_matrix_batch"%MX)],
  observe=["BlockMatrix::block_matrix_batch","Zk::verify"], hook=HK)

p("C22","Power vectors and random matrices have the documented entries",
  "For every base and every length n >= 1, the challenge expansion is (x, x^2, ..., x^n) and the Vandermonde vector is (1, x, ..., x^(n-1)), in scalar and generic form. Vandermonde matrices consist of such rows with independent bases, and random matrices of the requested shape have independent entries.",
  ["inputs"],"all bases including 0, 1, -1 and all lengths up to several hundred; all shapes",
  "One test expands base 2 to 32 entries.",
  [MU,MX],[("running product","%s vandemonde_challenge, %s vandemonde_vector*"%(MU,MX))],
  observe=["vandemonde_challenge","vandemonde_vector","vandemonde_vector_general","vandemonde_matrix","rand_matrix"], hook=HK)

p("C23","Challenge scalars are a full-width function of the whole transcript",
  "A challenge scalar is the wide reduction of 64 fresh transcript bytes for its label: equal transcripts give equal challenges, and any difference in the label, the protocol name, an earlier message (content, label, boundaries or order) or the number of earlier challenges gives a different one. Drawing a challenge advances the transcript, so repeated draws differ and later challenges depend on it.",
  ["inputs","histories"],"all sequences of appends and challenge draws, all single edits to a sequence",
  "No test looks at challenge values.",
  [TR],[("challenge_bytes into 64 bytes, from_bytes_mod_order_wide","%s"%TR)],
  observe=["TranscriptProtocol::challenge_scalar"])

p("C24","Proof sizes are logarithmic in the statement",
  "A quadratic-system proof has 3 + 2*log2(n) group elements and 2 scalars whatever the number of equations, a commitment-linked one at most two group elements more; inner-product proofs have 2*log2(n) (+1 if masked) group elements and 2 scalars; halving linear-map proofs have 2*m*log2(n) (+m for zero knowledge) elements and 1 scalar; k-ary ones have d rounds of (2k-1)*m elements and c scalars for n = c*k^d (besides the statement they carry along).",
  ["inputs","configurations"],"all protocols and sizes",
  "No test looks at the shape of a proof.",
  [NZ,AZ,QI,CC,LN,LS],[("one L/R pair per halving round; folding down to length one (or c)","create functions")],
  observe=["proof components"], hook=HK)

p("C25","Proofs chained on one transcript verify in their order only",
  "Any sequence of proofs of any mix of protocols, with application messages in between, created on one transcript is accepted when verified in the same order on an equal transcript, and both transcripts stay equal after every step. If a step is skipped, repeated, exchanged with another or an application message changed, every later proof of the sequence that depends on a challenge (at least one folding round or a mask, for a non-zero witness) is rejected. The same holds when a value of a proof that is put on the transcript is replaced, for that proof and every later one, and the transcript after the sequence is then another one.",
  ["histories"],"all sequences (bounded length) of proof creations and messages over all protocols, and all single edits of the verification order",
  "Each test uses a fresh transcript for a single proof.",
  [TR,Q,QI,AZ,NZ,LN,LS,CC],[("protocols take the caller's transcript and continue it","every create/verify pair")],
  observe=["verify results along a history","transcript state"], hook=HK)

p("C26","Verification is deterministic and has no side effects",
  "Verifying the same proof against the same statement and an equal transcript always gives the same verdict and final transcript state, for valid and invalid proofs alike, whatever random state the process is in, on whichever thread, and however often it was verified before. Verification consumes no randomness.",
  ["inputs","histories"],"all protocols, valid and tampered proofs, repetition, random-generator states, threads",
  "One test verifies one valid proof twice.",
  [Q,QI,AZ,NZ,LN,LS,CC],[("verifiers take the proof by shared reference and recompute everything from the statement","every verify")],
  observe=["verdict","transcript state","draws from thread_rng"], hook=HK+"; counting thread_rng")

p("C27","Inputs whose sizes do not fit are never accepted",
  "If the sizes of the inputs do not fit together, proving and verifying never end in acceptance: the prover or the verifier refuses, or the proof is rejected. This covers generator vectors longer or shorter than the rest (for the inner-product arguments a generator vector too short), system matrices with missing or surplus rows, columns or single entries, a witness of another length, blindings that are not two, more or fewer commitments or openings than index sets, inner-product vectors of another length, another size parameter for the arguments and halving linear maps, more or fewer rows or images of a linear map than the proof is for, and linear maps with missing columns or entries on the verifier's side.",
  ["inputs"],"all protocols but the recursion of the linear map itself, all satisfied statements, each input made longer or shorter by up to 4, for prover and verifier or for the verifier only",
  "A test calls each function with fitting sizes only; a dropped length check or a zip that stops at the shorter side lets surplus equations or entries be ignored silently.",
  [Q,QI,AZ,NZ,CC,"src/copy/mapping.rs",LN,LS,"src/matrix.rs","src/math_utils.rs"],[("assert_eq! on lengths in provers and vector operations, length checks in verifiers","create and verify of every protocol; inner_product; row_row_add")],
  observe=["refusal or verdict"], hook=HK)

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
