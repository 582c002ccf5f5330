"""Writes MANIFEST.json from properties.jsonl (run by hand after changing the list)."""
import json
T = {
 "C01": "model-based random testing of call sequences (spelling and greedy-longest predicates, registration model)",
 "C02": "model-based random testing against a linear-scan dictionary",
 "C03": "differential random testing against a dynamic program over all segmentations",
 "C04": "stateful random testing against exact counters",
 "C05": "metamorphic (reordering) and differential (dynamic program) random testing",
 "C06": "random testing of training histories, substring oracle over everything accepted",
 "C07": "random testing of training histories, invariants after every sequence",
 "C08": "stateful random testing of models, round-trip oracle with a set of accepted symbols",
 "C09": "stateful random testing, symbol accounting over histories",
 "C10": "random testing of fit, exact counts of the data as oracle",
 "C11": "round-trip random testing through files, byte-identity of the second file",
 "C12": "random testing with an independent JSON reader and the model's interface as oracle",
 "C13": "stateful random testing across save and load, twin models",
 "C14": "differential random testing: models of texts against integer models and a reference tokenizer",
 "C15": "model-based random testing against a reference tokenizer",
 "C16": "model-based random testing against a map",
 "C17": "metamorphic random testing: isolation, interleaving and observation change nothing",
 "C18": "differential random testing: transform against parse",
 "C19": "metamorphic random testing: renaming of symbols",
 "C20": "statistical random testing on generated sources, held-out code length against single symbols",
 "C21": "generated fault injection: interruption at chosen polls, then the guarantees of fitting",
 "C22": "random testing with captured output, and metamorphic: with and without printing",
 "C23": "round-trip random testing of rendered sequences",
 "C24": "random testing of simplex invariants and means",
 "C25": "model-based random testing against a list of first occurrences",
 "C26": "fuzzing of files: truncation at every byte, lost and mistyped fields, files of other kinds",
 "C27": "random testing against scores computed from pair counts kept by the check",
 "C28": "random testing against removal costs computed from the counts before the reduction",
 "C29": "generated fault injection: the disk full at any byte, places that cannot be written",
 "C30": "random testing of programs, allocated bytes as oracle",
 "C31": "differential random testing: programs alone and in threads, under the thread sanitizer",
 "C32": "stateful random testing: dictionaries kept from every moment of a history",
 "C33": "stateful random testing: uses counted between changes against the minimal probability",
 "C35": "differential random testing: what the Python module defines, called through a stand-in for pybind11, against the library",
 "C34": "stateful random testing with captured output, counters as oracle",
}
NOTE = ("Generated-input search: the property held on every case generated (counts, classes and samples in the evidence file); no proof of absence. "
        "Built from /repo with address and undefined-behaviour sanitizers and container assertions; every failure is shrunk and reproduced three times before it is reported. ")
checks = []
for line in open("properties.jsonl"):
    p = json.loads(line)
    import plan
    a = plan.PLAN[p["id"]]["assumptions"]
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "python3 check.py " + p["id"] + " --thorough",
                   "evidence_file": "evidence/%s.json" % p["id"], "technique": "property-based testing: " + T[p["id"]], "level": "exploration",
                   "level_note": NOTE + ("Assumes: " + "; ".join(a) + "." if a else "")})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: everything is observed through the public interface. VERIF_TIER=thorough (or --thorough) runs about 20 times as many cases and "
              "then a coverage-guided (libFuzzer) campaign over the same choice sequences and oracles. python3 check.py Cxx --replay FILE runs a saved case again."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
