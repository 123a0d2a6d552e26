"""writes MANIFEST.json from properties.jsonl and the modules in mbv/props"""
import os, json, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "round-trip property over generated bags (hypothesis)",
 "C02": "generated bags and plans against an independent bag reader (hypothesis)",
 "C03": "generated sizes and limits against packing invariants (hypothesis)",
 "C04": "generated bags and head bags against a member/lookup model (hypothesis)",
 "C05": "generated tag sets against a model of the documented transformations (hypothesis)",
 "C06": "generated aggregations against a reference merge (hypothesis)",
 "C07": "differential over restore routes against a reference merge (hypothesis)",
 "C08": "generated amendment histories against a model (hypothesis)",
 "C09": "generated conversions against a model, metamorphic repetition (hypothesis)",
 "C10": "model-based operation sequences on head bags (hypothesis)",
 "C11": "grammar-based line generation, round-trip (hypothesis)",
 "C12": "differential between directory and serialized forms (hypothesis)",
 "C13": "generated corruptions, differential against the reference library (hypothesis)",
 "C14": "generated combinations of departures against an expected-findings table (hypothesis)",
 "C15": "generated result sequences and validators against a list model (hypothesis)",
 "C16": "generated operation sequences with tree snapshots (hypothesis)",
 "C17": "generated hostile paths in contained scratch trees (hypothesis)",
 "C18": "differential against the operating system (hypothesis)",
 "C19": "generated plans and naming iterators against a model (hypothesis)",
 "C20": "generated version pairs and triples against tuple comparison (hypothesis)",
 "C21": "fault injection at every file-system call position, and damaged archives (hypothesis)",
 "C22": "generated dataset plans against counted files (hypothesis)",
 "C23": "generated bags against counted sizes (hypothesis)",
 "C24": "generated aggregations and times against the member files' own (hypothesis)",
 "C25": "stateful histories of all operations against a model of the collection (hypothesis)",
}
NOTE = {
 "exploration": "Random generated search against an explicit oracle; no exhaustiveness claimed. Bounds: small trees (about 16 files), "
                "generated names, sizes up to 0.6 MB; 8 seeded shards, case counts in the evidence.",
 "fault_enumeration": "For each generated scenario the failing call is chosen over all intercepted file-system calls of the run (sampled "
                      "in the quick tier, swept in the thorough tier).",
}
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl"), encoding="utf-8"):
    pid = json.loads(line)["id"]
    fn = os.path.join(here, "mbv", "props", pid.lower() + ".py")
    if not os.path.exists(fn):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    level = re.search(r'LEVEL = "C\d\d", "(\w+)"', open(fn).read()).group(1)
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s" % pid,
                   "thorough_cmd": "python3 run.py %s --tier thorough" % pid,
                   "technique": TECH[pid], "level": level, "level_note": NOTE[level]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not claimed")
