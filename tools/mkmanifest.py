"""Writes MANIFEST.json (run with python3-vt tools/mkmanifest.py)."""
import json
import os

ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
    "C01": ("differential fuzzing of encode against an independent reference encoder", "All elementary types, container templates and lengths are swept; nested types and values are sampled."),
    "C02": ("round-trip property testing (encode, decode in both modes, re-encode)", "Sweep over all elementary types and templates; nested types and values are sampled."),
    "C03": ("fuzzing of arbitrary Python values against a reference domain predicate and encoder", "Every elementary type x boundary and one-off values x a list of junk objects is swept; nested faults are sampled."),
    "C04": ("differential testing of is_encodable against encode and the type specification", "Default, packed and customised codecs; type strings and values are swept and sampled."),
    "C05": ("payload fuzzing with mutation and bounded-exhaustive words against a reference decoder", "All payloads of up to four words over a small word alphabet for 20 type lists, all truncations; everything larger is sampled."),
    "C06": ("single-fault enumeration over the byte-role map of generated encodings", "Every single corruption of the listed kinds is enumerated for each generated encoding; the encodings are swept and sampled."),
    "C07": ("metamorphic and reference testing of strict against non-strict decoding", "Padding faults enumerated per generated encoding; payloads sampled."),
    "C08": ("stateful history generation, every call judged by a stateless reference", "Histories of up to 14 calls over shared types are sampled."),
    "C09": ("stateful model-based testing of registry histories", "Histories of up to 26 operations are sampled and compared with a list-of-registrations model."),
    "C10": ("model-based testing of custom coders in generated container types", "Nested types over custom leaves are sampled; coder keyword grids are enumerated."),
    "C11": ("differential fuzzing of encode_packed against a reference encoder", "Sweep over all elementary types and templates; nested types and values are sampled."),
    "C12": ("bounded-exhaustive and random strings against an independent parser", "Every string of up to five symbols over a fragment alphabet; longer strings are sampled."),
    "C13": ("exhaustive grid of type names and suffixes plus random nesting against the specification's rules", "The grid of names, suffixes up to 300 and size pairs is enumerated; nesting is sampled."),
    "C14": ("metamorphic testing of alias against canonical spelling, plus a reference", "Aliases in all templates are swept; nested types, values, payloads and texts are sampled."),
    "C15": ("property testing with exact rational arithmetic under generated decimal contexts", "All 5,120 fixed-point types are swept at their boundaries; values and contexts are sampled."),
    "C16": ("metamorphic relations between encodings of generated types and values", "Templates and lengths swept; types and values sampled."),
    "C17": ("testing the strategies' draws against the reference domain, with targeted search for extremes", "Representative and random types; draws are sampled, extremes are searched with growing effort before a failure is reported."),
    "C18": ("work-counting property testing (trace events, bytes read, peak allocation) against a bound", "Families of growing types and hostile payloads are swept; values and payloads are sampled. The bound is a generous constant times words x depth."),
    "C19": ("controlled-scheduler testing: enumerated one-preemption and random schedules, judged by the reference", "Every one-preemption schedule at source-line granularity for listed call pairs; more threads and preemptions are sampled. Switches inside C code are not explored."),
    "C20": ("stateful model-based testing of decoding streams and decoders on shared streams", "Operation sequences, decoders and stream classes are sampled."),
    "C21": ("differential testing of introspection against a type model and the wire", "All elementary types and templates swept; types sampled."),
    "C22": ("byte-string fuzzing of string decoding against bytes.decode for every error handler", "All code points and all one- and two-byte strings; malformed strings and nestings sampled."),
    "C23": ("stateful model-based testing over trees of registry copies", "Histories of up to 24 operations over up to six registries are sampled."),
    "C24": ("argument fuzzing: every object class in every position, sampled combinations", "The listed object classes are swept in every position; combinations are sampled."),
    "C25": ("differential testing of coder objects and coder classes against the reference, over a class x type grid", "Elementary types and templates swept against every coder class; types and values sampled."),
    "C27": ("bounded-exhaustive and random strings, and pairs of predicates, against an independent parser", "All texts of up to three (partly four) symbols over a fragment alphabet; longer texts and pairs are sampled."),
    "C28": ("differential testing: generated batches of calls in child processes in many interpreter modes against the default mode", "The listed modes are enumerated; the calls are sampled."),
    "C29": ("metamorphic testing: wrapping subclasses of every coder class against the reference, with marked parts that must be refused", "Ten sets of replaced classes; templates swept, types, values and payloads sampled."),
    "C26": ("fault-injection property testing of error reports: planted faults at known places must be named", "Faults of the listed kinds at known places are swept and sampled."),
}
checks = []
for p, (tech, note) in sorted(T.items()):
    checks.append({
        "property": p,
        "quick_cmd": "./run.sh %s quick" % p,
        "thorough_cmd": "./run.sh %s thorough" % p,
        "technique": "property-based testing and fuzzing: " + tech,
        "level": "fault_enumeration" if p == "C06" else "exploration",
        "level_note": note + " Trusts the reference semantics in vabi/ (written from the ABI specification and the documentation) and CPython.",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: the checks use the public API only. Genuine defects found are repaired by the fix: commits listed in known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
