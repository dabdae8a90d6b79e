#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {}
def t(ids, technique, note):
    for i in ids.split():
        T[i] = (technique, note)
MODEL = "runtime monitoring: calls observed at the package boundary and judged online by an independent reference model"
ATTACK = "runtime monitoring under adversarial workloads: verifier outcomes on forged proofs judged by an oracle that knows the opening"
COMMON = "Exploration: held on every execution observed (counts in the evidence file), nothing beyond. Trusts Go's math/big and crypto/sha256 and the harness's own model. "
t("P01", "runtime monitoring of prove/verify under deterministic and hostile random sources", COMMON+"Secrets and draws are sampled, with the extremes of both.")
t("P02", "runtime monitoring of prove/verify on out-of-range secrets", COMMON+"Covers dishonest inputs to the library's prover; dishonest provers are P06, P08.")
t("P03", "runtime monitoring of prove/verify against interval membership", COMMON+"")
t("P04", "runtime monitoring: deep digests of proof and parameters around each verification, repeated in interleaved histories", COMMON+"")
t("P05", "runtime monitoring: structural comparison of values across JSON transport", COMMON+"")
t("P06 P08 P09 P14", ATTACK, COMMON+"Strategies are those listed in DESIGN.md; a soundness error that needs another strategy is out of reach. Assumes the discrete logarithm problem is hard.")
t("P07", "runtime monitoring of the verifier on mutated JSON in watched processes (panic, time, memory), again under AddressSanitizer", COMMON+"AddressSanitizer sees the C library's heap and stack through Go's -asan build; memory that Go manages is checked by Go itself.")
t("P10 P12 P13", "runtime monitoring of prove/verify against the model of membership", COMMON+"")
t("P11", "runtime monitoring of prove/verify on non-members and foreign parameters", COMMON+"")
t("P15", "runtime monitoring: taint of recorded nonces and secrets searched in everything handed out", COMMON+"Finds secrets in the clear or shifted, negated, summed or exponentiated by public values; not statistical leaks.")
t("P16", "runtime monitoring of the random source: recorded draws, bit-flip influence, repetition across proofs", COMMON+"")
t("P17", "fault injection into the random source at every read, outcome monitored", "Every read position of each operation explored is failed once, in three ways (error, sticky error, short read). Held on those positions for the parameter sets in the evidence file.")
t("P18 P19 P20 P21 P22 P23 P24 P25 P27 P28 P29 P30 P31 P32 P34", MODEL, COMMON+"")
t("P26", "runtime monitoring: snapshots of all operands and package-level values around each operation, aliased and separate receivers", COMMON+"")
t("P33", "Go race detector over concurrent workloads, results compared with sequential ones", "Exploration: no race reported on the schedules run (counts in the evidence file). The race detector sees Go memory only, not the C library's.")
t("P35", "runtime monitoring of the inner-product argument against the model, and under adversarial provers", COMMON+"")
t("P36", MODEL, COMMON+"Reaches the unexported field types through an access file; if their layout changes, only the public operations are watched.")
t("P37", "runtime monitoring: snapshots of every live input, parameter and proof after each call of random histories, with inputs overwritten by the caller", COMMON+"")
t("P38", "runtime monitoring: published signatures compared with those the recorded signing key makes, and checked by the pairing equation", COMMON+"Messages are those advertised, their neighbours and extremes; a signature for another message is found too, as it belongs to none of them.")
t("P39", "runtime monitoring: commitments of proofs recomputed from secret and blinding factor", COMMON+"")
t("P42", "runtime monitoring: answers of separate processes in differing surroundings and with differing histories compared value by value", COMMON+"Surroundings and histories are those listed in DESIGN.md; another architecture or Go version cannot be run here.")
t("P43", "runtime monitoring: texts of elements, in several representations and with their relatives, kept in a table that must stay one-to-one", COMMON+"")
t("P40 P41", "runtime monitoring: verdicts of the verifier compared online with those of an independent verifier, on proofs of the code, of an independent prover, and altered ones", COMMON+"The harness takes the group operations and hash functions from the code under test (P18-P25, P28, P32 decide those) and reads off an honest proof which elements are hashed.")
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
run = open(os.path.join(root, 'run.sh')).read()
NOT_YET = os.environ.get('NOT_YET', '').split()
checks, na = [], []
for p in props:
    i = p['id']
    if i in NOT_YET:
        na.append({"property": i, "reason": "the check is still being built"})
        continue
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": tech,
        "level": "fault_enumeration" if i == "P17" else "exploration", "level_note": note.strip()})
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none: the access files in harness/overlay are added to the packages by 'go build -overlay' and are not in /repo",
               "enable": "run.sh passes -overlay .build/overlay.json (written by tools/overlay.py)", "source_commits": []},
     "checks": checks, "not_applicable": na}
open(os.path.join(root, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + "\n")
print(len(checks), 'checks', len(na), 'not applicable')
