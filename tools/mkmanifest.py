#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing of complete protocol runs against set intersection", "Runs of real clients and server over a shared memory link; intersection, table layout and data sets computed independently."),
 "C02": ("stateful model-based testing of protocol histories", "A model of who has outsourced what decides every client's result after every operation; also interleaved and held-back shares."),
 "C03": ("stateful model-based fuzzing of messages", "A model of authentication, roles, names and data decides acceptance; truncations in exactly sized buffers under AddressSanitizer."),
 "C04": ("property-based testing: masks recovered by an independent polynomial evaluation, metamorphic relations between clients", "Uniformity is only judged through spread and collisions, not statistically."),
 "C05": ("property-based testing: recovered linear operator, metamorphic relations over keys and histories", "The keyed operator is recovered from the outputs for zero and unit data and must predict all other outputs."),
 "C06": ("differential property-based testing against an independent MurmurHash3", "Own x64-128 implementation, checked against published vectors."),
 "C07": ("stateful differential testing against independent SHA-1/SHA-256", "Own SHA implementations, checked against published vectors."),
 "C08": ("stateful model-based testing, refusals in child processes", "Model of a vector of bounded buckets."),
 "C09": ("model-based testing with recorded fillers", "Fillers compared as a multiset with every value handed out."),
 "C10": ("stateful differential testing against an independent SHA-1 chain", "The function the statement defines, computed by an independent SHA-1 and GMP."),
 "C11": ("stateful differential testing with object lifetimes", "Independent chain reduced modulo the field; lifetimes under AddressSanitizer."),
 "C12": ("model-based testing with constructed roots", "Polynomials are built from known factors, so the expected roots are known without factoring."),
 "C13": ("stateful model-based testing against natural-number arithmetic", "GMP-backed arithmetic and own conversions."),
 "C14": ("property-based testing against arithmetic definitions", "Definitions evaluated on independent big numbers."),
 "C15": ("stateful model-based testing under a controlled clock", "The clock is replaced at link time; the model holds the marks."),
 "C16": ("property-based testing, fatal cases in child processes", "Exit status and standard error of the child are checked."),
 "C17": ("history monitoring of every link under controlled randomness", "Freshness is judged over generated histories and two random states, not cryptographically."),
 "C18": ("differential testing of the program against a logarithmic reference search", "The bound is recomputed in logarithms; ties within rounding are excluded."),
 "C19": ("property-based testing of the programs' files, output and exit status", "Own placement and own element sets; time is replaced at link time."),
 "C20": ("stateful property-based testing with a metered heap", "Cycles of operations are repeated and the live heap compared; growth must be proportional over 62 cycles to count."),
 "C21": ("differential testing of concurrent against solitary executions under generated schedules", "Hand-overs at loads and stores follow a seeded plan; further rounds run under the operating system's schedules. Interleavings are sampled, not enumerated."),
 "C22": ("stateful model-based testing", "A model of what every message, party and client was given last, and of who knows whom."),
 "C23": ("metamorphic property-based testing over generated surroundings", "The same work in plain and changed surroundings must give the same results; the process is inspected before and after."),
 "C24": ("stateful property-based testing against replayed histories", "Every object is compared with a new one that does the same without copying."),
 "C25": ("property-based testing with injected allocation failures in child processes", "Positions of the failing allocation are sampled, not enumerated, unless there are few."),
 "C26": ("stateful property-based testing with all inputs and earlier results compared after every operation", "What was handed over or back is snapshotted and compared after each call; buffers are exactly sized under AddressSanitizer."),
}
checks = [{"property": p, "quick_cmd": "python3 run.py %s" % p, "thorough_cmd": "python3 run.py %s --tier thorough" % p,
           "evidence_file": "evidence/%s.json" % p, "technique": t, "level": "exploration",
           "level_note": n + " Assurance holds for the generated cases only."} for p, (t, n) in sorted(T.items())]
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": [],
               "notes": "No hooks: the machinery compiles /repo's library sources as they are, with sanitizers and coverage, and replaces rand, time and the clock at link time."}, f, indent=1)
    f.write("\n")
