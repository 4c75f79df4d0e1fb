"""Writes MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
MODEL = "generated programs, every output compared with an independent reference model of the language"
T = {
 "P01": "round-trip property-based testing: generated values printed literally and read back, compared with the model's text",
 "P02": "metamorphic property-based testing: the same expressions in generated layouts, channels and modes against their denotation",
 "P03": "fuzzing: mutated and random byte input under AddressSanitizer, with a per-line oracle for the well-formed lines",
 "P04": MODEL + " (prefixes in every context)",
 "P05": MODEL + " (control forms with evaluation traces)",
 "P06": MODEL + " (argument lists of every shape)",
 "P07": "metamorphic property-based testing: calls split in generated groups against the full call and the model",
 "P08": MODEL + " (scoping histories)",
 "P09": MODEL + " (generated patterns and values)",
 "P10": MODEL + " (generated templates and subjects)",
 "P11": "metamorphic property-based testing: tail and non-tail forms of generated recursions against the model, and peak memory by depth",
 "P12": "stateful model-based testing: histories of global operations against a map",
 "P13": "property-based testing: generated typed and ill-typed programs, live-cell invariant at exit and across repetitions",
 "P14": "property-based testing under AddressSanitizer with heap-backed cells, and value snapshots against the model",
 "P15": "stateful model-based testing of the allocator: generated histories in-process against a set model",
 "P16": "stateful model-based testing of the symbol tree: generated histories in-process against a map, with structural invariants",
 "P17": "property-based testing against exact integer arithmetic",
 "P18": MODEL + " (equality and predicates over pairs of values built in different ways)",
 "P19": MODEL + " (primitives on every kind of value)",
 "P20": "property-based testing of library functions against independent specifications",
 "P21": "property-based testing of library functions against independent specifications",
 "P22": "differential property-based testing: generated functions compiled and interpreted",
 "P23": "stateful model-based testing: histories of output operations against a model of channels and files",
 "P24": "stateful model-based testing: histories of input operations against a model of channels and files",
 "P25": "stateful model-based testing: histories of loads over generated module and file trees against a model",
 "P26": "metamorphic property-based testing: one generated program in every mode, with generated arguments and environments",
 "P27": "stateful model-based testing: generated commands, pipes and processes against recorded arguments and outputs",
 "P28": "stateful model-based testing: generated client schedules against select handlers, bytes accounted for",
 "P29": "differential property-based testing across builds and trace settings",
 "P30": "stateful model-based testing: generated HTTP messages and client schedules against an independent parser",
 "P31": "property-based testing: generated suites, selections and outcomes against a model of the report",
 "P32": "property-based testing: generated functions, the converted form executed and compared with the function's own value, plus an independent type inference",
 "P33": "stateful model-based testing of the C interface over several interpreters, with address sanitising and cell accounting",
 "P34": "stateful model-based testing of histories of operations on descriptors with the limit on descriptors injected, against a model of the descriptor table",
}
NOTE = ("Holds on the cases generated (counts, classes and samples in the evidence file); it is a search, not a proof. "
        "Trusts the reference model and generators in /verif/vf, the compilers and the launcher's limits.")
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, pid.lower())):
        c = importlib.import_module("checks." + pid.lower()).CHECK
        note = NOTE + "".join(" Assumes: " + a + "." for a in c.assumptions)
        checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                           evidence_file="evidence/%s.json" % pid, technique=T[pid], level=c.level, level_note=note))
    else:
        na.append(dict(property=pid, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="python3 vf/build.py dbg asan slabasan asanfull rel nosse clang", hooks=dict(guard="MNML_VERIF_HEAP",
         enable="vf/build.py builds the variants asan and asanfull with -DMNML_VERIF_HEAP (a compiler wrapper adds it); the other variants build with the guard off",
         source_commits=["c37d6253f1c8f9f4d7a8"]), checks=checks, not_applicable=na,
         notes="Findings, all repaired by fix: commits, are listed in KNOWN_FINDINGS.txt. python3 check.py Pxx --replay FILE reruns a saved case.")
import subprocess
m["hooks"]["source_commits"] = [subprocess.run(["git", "-C", "/repo", "rev-parse", "c37d625"], capture_output=True, text=True).stdout.strip()]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
