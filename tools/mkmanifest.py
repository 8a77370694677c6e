#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("mutation-based and structured fuzzing of the readers under AddressSanitizer, with a walk/write/re-read oracle",
         "arbitrary bytes from mutated well-formed tags, random bytes and coverage-guided search; exact-size heap buffers, so any over-read of the input is seen"),
 "C02": ("generated well-formed tags against an independent encoder (reference model)",
         "tags of up to about a dozen frames; unsynchronisation, compression and encryption are out of scope"),
 "C03": ("stateful generation of edit/write/read histories against a list model", "histories of up to a few dozen calls and several writes"),
 "C04": ("generated files, tags and edits; byte-exact oracle on the audio", "audio up to some 100 kB, with 0xFF, zero, text and tag-like contents"),
 "C05": ("generated tags; the written bytes are compared with an independent encoder and parsed by an independent decoder", "reference encoder/decoder written from the ID3v2.3/2.4 documents"),
 "C06": ("stateful model-based testing against an ordered-list model, with lookups after each call", "histories of up to a few dozen calls over all public edit calls"),
 "C07": ("generated files, read-modify-write, byte-exact oracle on untouched frames", "well-formed tags of both versions, all encodings, unknown frames"),
 "C08": ("generated histories under AddressSanitizer with exact allocation and descriptor accounting", "every malloc/free made inside library calls is accounted per case"),
 "C09": ("generated aliasing scenarios: arguments scribbled over and freed, twin tags, self-assignment", "exact-size heap arguments under AddressSanitizer"),
 "C10": ("generated strings against a direct specification", "strings up to a few thousand bytes, both byte orders, in exact-size heap buffers"),
 "C11": ("generated headers against a direct specification, buffer and file", "values reported for size bytes with a high bit set are not specified"),
 "C12": ("differential testing: file reader against buffer reader on arbitrary bytes, metamorphic variations of what follows the tag", "inputs as for C01"),
 "C13": ("stateful differential testing: compatibility layer against the list model of the current API", "histories of up to a few dozen calls"),
 "C14": ("fault injection: every system call up to the replacement made to fail (ptrace), file size limits, unusable targets, on generated files and tags",
         "each fault persists from its onset on; faults while the finished copy is being written back are outside the statement; memory exhaustion is not injected"),
 "C15": ("generated per-thread histories run concurrently under ThreadSanitizer and as chosen interleavings, against per-thread models", "2 to 4 threads, interleavings sampled by the scheduler; data races are detected on all executed accesses whatever the order"),
 "C16": ("metamorphic: generated well-formed tags cut at a chosen byte or with an overlong frame size", "every cut position of generated tags is sampled, small tags exhaustively over the run"),
 "C17": ("metamorphic: repeated write and read/write cycles must be idempotent", "up to several cycles per case"),
 "C18": ("generated sizes around every encoding boundary up to tens of megabytes, round trip against reference encoder", "sizes up to about 40 MB, a few tags up to the largest size a header can hold and some beyond it"),
 "C19": ("stateful model-based testing biased to many comments and pictures", "up to a few dozen calls per history, index from -2 to beyond the end"),
 "C20": ("generated names, paths, links, modes and bystanders; the directory tree and the process state are compared before and after each call", "paths up to about 3700 bytes, names up to 255; a private /tmp is watched where a user namespace can be had; descriptors up to 63"),
 "C21": ("stateful generation of calls on missing tags, files and frames against the list model and direct expectations", "histories of up to a few dozen calls"),
 "C22": ("metamorphic: a generated scenario is played in a fresh process and again in a perturbed one; everything it shows must be equal", "13 kinds of perturbation; the clock and the process number are only varied by chance; what fails alike in both is left to the other checks"),
 "C23": ("stateful generation of direct changes to the public structures, mixed with calls, against the list model and the reference encoder", "histories of up to a dozen steps; contents are changed in place, sizes are not changed directly"),
}
checks = []
for l in open(H + "/properties.jsonl"):
    p = json.loads(l)["id"]
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": "property-based testing and fuzzing: " + t,
                   "level": "fault_enumeration" if p == "C14" else "exploration",
                   "level_note": "Searched, not proved: holds on every generated case of the run. Bounds: %s. Trusts the reference model in harness/, clang's sanitizers and the host libc." % n})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": [],
           "notes": "No hooks: the harness uses only the public API of /repo, built from its working tree with sanitizers. Replay a failure with: python3 check.py <ID> replay <path>. Defects repaired in /repo are listed in KNOWN_FINDINGS.md."},
          open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
