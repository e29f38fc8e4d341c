#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTE = {
 "C01": "exact solutions recomputed from the decoded inputs with Boost rationals (no code shared with the library)",
 "C02": "determinant by fraction-free elimination in the oracle decides which status is right",
 "C03": "L, U, pivots and permutations multiplied out exactly by the oracle after every factorization, including those whose storage growth was refused or moved",
 "C04": "the permitted pivots of every step are recomputed from the returned factors",
 "C05": "every call is run under refused allocations (single, burst, permanent, by size, budget, growth only, random)",
 "C06": "fingerprints of every argument before and after the failed call; the retry is compared with a fault-free reference",
 "C07": "the simulated allocator owns every block; at the end of the history none may be left, none may be released twice or come from elsewhere",
 "C08": "a state machine of the session decides the permitted answer of every call made before, between and after sessions",
 "C09": "every entry of source and copy compared as exact rationals",
 "C10": "integer data over recorded scale compared with the exact input",
 "C11": "corruptions are drawn over the stored fields; redzones around borrowed arrays and ASan catch reads outside",
 "C12": "each client's history is re-executed alone on another allocator and compared call by call",
 "C13": "borrowed arrays are guarded: contents and redzones checked after every call, and releases are seen by the allocator",
 "C14": "exact arithmetic in the oracle for every wrapper, with aliasing, and refusals at every allocation of the call",
 "C15": "recomputed counts, permutation check, both widths, refused allocations, fill of fresh memory varied",
 "C16": "permutation and status checks, both widths, workspace contents varied, allocator of symamd simulated",
 "C17": "permutation check and a factorization that has to succeed; refusals inside AMD and COLAMD",
 "C18": "block sizes, contents and status flags checked against the simulated allocator's own record",
 "C19": "stored factors, pivots and permutations altered between factorization and solve; the answer checked exactly",
 "C20": "the simulated stream ends, fails, shortens or alters what it delivers; the oracle parses what was delivered",
 "C21": "the simulated print sink records and can fail; the real standard output is watched",
 "C22": "the simulated clock decides; intervals compared in exact arithmetic",
 "C25": "the MEX file runs inside a simulated MATLAB (own allocator that ends the call when it refuses, error exits, arrays, automatic release); results compared with exact solutions, or with the library where the input is not exactly representable",
 "C26": "one argument of a call is made unusable at any point of the history; status, handles, fingerprints, blocks and a later exact solve are checked",
 "C27": "the main functions run inside the simulation with simulated arguments, files, output and memory; the outcome is decided by parsing what the files delivered and an exact determinant",
 "C23": "kept analyses and factors used among arbitrary other calls and compared with exact solutions",
}
NA = {
 "C24": "SuiteSparse_hypot and SuiteSparse_divcomplex are pure functions of two to four doubles: no allocation, stream, clock, schedule or state for a fault "
        "or an interleaving to act on, so a simulation would only be input generation.",
}
BASE = ("Seeded search over histories, allocator behaviours and fault schedules executing the real code; evidence for what was explored, not a proof. ")
TRUST = (" Trusted: the simulator's oracle (Boost.Multiprecision), GMP and MPFR when memory is available, clang and AddressSanitizer. Each violation is "
         "repeated in the worker and in a fresh process before it is reported, and minimised.")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [{"property": i, "quick_cmd": "python3 check.py run " + i, "thorough_cmd": "python3 check.py run " + i + " thorough",
                 "evidence_file": "evidence/%s.json" % i,
                 "technique": "deterministic simulation with fault injection: seeded search over call histories and faults, exact reference model",
                 "level": "exploration", "level_note": BASE + NOTE[i][0].upper() + NOTE[i][1:] + "." + TRUST} for i in ids if i not in NA],
     "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
     "notes": "No hooks: the allocator, print function, streams and clock are reached through the seams the code has (SuiteSparse_config function pointers, "
              "the allocator arguments of symamd, FILE*, link-time wrapping of the clock calls). Replay: python3 check.py replay ID FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
