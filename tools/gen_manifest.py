#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": ("proptest: generated satisfied systems, prove/verify round trip", "Completeness on generated satisfied systems (n up to 256 quick, 512 thorough; 1 to more than n equations)."),
"C02": ("proptest: generated violations and cheating provers, oracle 'must reject'", "Rejection of generated violations and of a fixed family of cheating provers; not a soundness proof."),
"C03": ("proptest: metamorphic statement/context changes, challenge-aware forgeries", "Rejection after every generated single change and after replacement systems computed from the proof's challenges."),
"C04": ("proptest: mutation of accepted proofs, oracle 'must reject'", "Rejection of every generated edit; one facet edits every value of a proof in turn."),
"C05": ("proptest: structure-aware malformed-proof fuzzing of all verifiers", "No panic and no acceptance on generated malformed encodings and lengths, built with overflow checks."),
"C06": ("proptest: metamorphic pairs of randomness streams, isolated-generator decoding", "Freshness and size of the blinding actually present in the commitments, by comparing runs and decoding commitments over isolating CRSs."),
"C07": ("proptest: message perturbation against a logging transcript", "Each challenge changes with each earlier message on generated runs of all protocols."),
"C08": ("proptest: completeness and false-claim generation, forged late messages", "Both directions on generated vectors and claims."),
"C09": ("proptest: completeness and false-claim generation, self-orthogonal inputs", "Both directions on generated vectors in special relations and claims."),
"C10": ("proptest: algebraic laws of the projection and of sampled masks", "Exact algebraic relations on generated vectors."),
"C11": ("proptest: rank over repeated sampling, mask extraction by solving replayed runs", "Dimension, independence and actual application of the masks on generated cases."),
"C12": ("proptest: completeness, single-entry falsification, proof mutation, challenge-aware statements", "Both directions on generated shapes and statements."),
"C13": ("proptest: completeness, single-entry falsification, proof mutation, challenge-aware statements", "Both directions on generated shapes and statements."),
"C14": ("proptest: completeness, single-entry falsification, proof mutation, context changes", "Both directions on generated shapes and statements of both zero-knowledge arguments."),
"C15": ("proptest: mask extraction by solving replayed runs, captured output", "The prover's masked witness is solved for and compared with beta*w + r; output captured at file-descriptor level."),
"C16": ("proptest: generated commitment layouts, prove/verify round trip", "Completeness on generated layouts (n up to 64 quick, 512 in the large facet)."),
"C17": ("proptest: single falsifications and challenge-aware commitment changes, oracle 'must reject'", "Rejection of every generated falsification."),
"C18": ("proptest: reference model of the mapping", "Exact agreement with an independent model, and grown layouts up to the limit."),
"C19": ("proptest: reference computation and homomorphism", "Exact agreement with the defining linear combination."),
"C20": ("proptest: reference implementations, exponent-level model of group matrices", "Exact agreement with definitions on generated shapes; mismatches refused."),
"C21": ("proptest: reference sum, one-violated-equation systems", "Exact agreement with the weighted sum; every equation position matters end to end."),
"C22": ("proptest: reference powers, independence of random entries", "Exact agreement with definitions."),
"C23": ("proptest: stateful sequences against merlin's own bytes, metamorphic edits", "Exact agreement with the wide reduction, and inequality after every generated edit."),
"C24": ("proptest: counted proof components against closed formulas", "Exact counts on generated shapes of all protocols."),
"C25": ("proptest: stateful histories of proofs on one transcript with generated deviations", "Acceptance in order, transcript equality after each step, rejection after each generated deviation."),
"C26": ("proptest: repeated verification in varied surroundings", "Equal verdicts and transcript states over repetitions, threads and random states; zero draws from thread_rng."),
"C27": ("proptest: one input of a satisfied statement made longer or shorter", "No acceptance over generated misfits of every input the library tells apart."),
}
checks = []
for i, (t, n) in sorted(T.items()):
    checks.append(dict(property=i,
        quick_cmd="VERIF_TIER=quick ./run.sh check %s" % i,
        thorough_cmd="VERIF_TIER=thorough ./run.sh check %s" % i,
        evidence_file="evidence/%s.json" % i,
        technique=t, level="exploration",
        level_note=n + " Trusts curve25519-dalek, merlin and proptest; generated search never establishes absence of a violation."))
m = dict(version=1, setup_cmd="./run.sh setup",
    hooks=dict(guard="qesa_verif",
        enable="RUSTFLAGS='--cfg qesa_verif' (set in /verif/harness/.cargo/config.toml); the harness depends on /repo by path",
        source_commits=["fed5ede057b841ec8799f014063361dda59c190f"]),
    checks=checks, not_applicable=[],
    notes="Property-based testing with proptest; see DESIGN.md. known_findings.txt lists repaired defects; there are no suppressed findings.")
with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
