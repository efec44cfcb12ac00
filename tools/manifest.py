"""Regenerate MANIFEST.json from the check modules present."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
NOTES = {
 "C01": "Explicit enumeration of bounded workflow programs on the real reconciler, reference interpreter as oracle; bounded by step count and step alphabet.",
 "C02": "Stateless exploration of every completion order of parked API calls on the real reconciler; bounded by workflow size.",
 "C03": "All outcome sequences to the length bound through the real combiners and reconcilers; class/message/value/delay alphabet is finite.",
 "C04": "All live-object variants within the bounds over the target/directive grammar, executed on the real reconciler and an in-memory API.",
 "C05": "Every target path x deviation x policy within the bounds, executed on the real reconciler; reference comparison as oracle.",
 "C06": "Every placement of adversarial identity fields in every layer within the bounds; calls and payloads compared with apiConfig.",
 "C07": "Complete flag table x cluster situations x fault answers; every API call logged by the in-memory API is judged.",
 "C08": "Every payload reaching the in-memory API over the bounded program space is judged.",
 "C09": "Fault enumeration at every call index of the bounded workflows plus convergence passes, virtual time.",
 "C10": "Every failing expression shape at every expression site within the bounds.",
 "C11": "Exhaustive strings over an adversarial alphabet up to the length bound, numerals and structures at every site.",
 "C12": "All bounded base/overlay combinations against a reference merge; purity by before/after snapshots.",
 "C13": "All assertion lists and truth assignments to the bound against a first-false reference.",
 "C14": "Bounded expression grammar enumerated; static references compared with the grammar's own and with instrumented evaluation.",
 "C15": "All cache histories to the depth bound against a map model after every operation.",
 "C16": "All histories x placements to the bound on the real cache with a controlled event loop; sequential histories of length 3-5.",
 "C17": "Whole reachable model state graph for three resources (and four in thorough), every transition replayed on the implementation.",
 "C18": "All bounded sequences of test cases; relational comparison between runs and with a reference chain.",
 "C19": "All bounded (function outcome, assertion) pairs against an independent oracle.",
 "C20": "Type confusion at every path of every kind and a bounded expression grammar; schema oracle is an independent validator.",
}
TECH = {
 "C02": "stateless model checking (all completion orders, controlled event loop)",
 "C09": "fault enumeration over all call indices under a controlled event loop",
 "C16": "stateless model checking (all histories x operation placements, controlled event loop)",
 "C17": "explicit-state model checking + conformance replay of every model transition",
 "C15": "bounded exhaustive history exploration against a map model",
}
checks = []
for p in props:
    i = p["id"]
    if os.path.exists(f"{ROOT}/mc/checks/{i.lower()}.py"):
        checks.append({
            "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i}",
            "technique": TECH.get(i, "bounded exhaustive exploration of the real code against a reference model"),
            "level": "model_checking", "level_note": NOTES[i]})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []},
          open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
