#!/usr/bin/env python3
"""Source of MANIFEST.json: one check per property that the check binary registers."""
import json, re, glob, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
src = "".join(open(f).read() for f in glob.glob(root + "/harness/checks/*.go"))
have = set(re.findall(r'ID:\s+"(C\d\d)"', src))
TECH = {
    "C01": "runtime monitoring: differential oracle over recorded input/output documents, grammar-driven workload",
    "C02": "runtime monitoring: differential oracle over recorded input/output documents, grammar-driven workload",
    "C03": "runtime monitoring: acceptance oracle under single-fault document injection",
    "C04": "runtime monitoring: two independent YAML readers as online oracle of the encoder and decoder",
    "C05": "runtime monitoring: crash sanitizer and fixed-point monitor under hostile byte workload",
    "C06": "runtime monitoring: online document-format checker after every operation of random histories",
    "C07": "runtime monitoring: reference-model oracle over generated request structures",
    "C08": "runtime monitoring: reference-model oracle over generated request structures",
    "C09": "runtime monitoring: reference-model oracle over generated response units",
    "C10": "runtime monitoring: registry state machine shadowing random call histories",
    "C11": "runtime monitoring: reference oracle over generated path patterns",
    "C12": "runtime monitoring: schema evaluator as oracle of verdicts before and after conversion",
    "C13": "runtime monitoring: reference-graph and verdict oracle over exported schemas",
    "C14": "runtime monitoring: callback trace compared with the document an operation produces",
    "C15": "runtime monitoring: lock-step differential monitor of both reflectors",
    "C16": "runtime monitoring: lock-step differential monitor of deprecated and current API",
    "C17": "runtime monitoring: shadow model of setter histories",
    "C18": "runtime monitoring: interceptor event log checked against the operation being added",
    "C19": "race detector under stress with injected delays, plus per-goroutine output oracle",
    "C20": "runtime monitoring: byte comparison over repeats, permutations and processes; deep input snapshots",
    "C21": "runtime monitoring: component ownership monitor over random type sets and orders",
    "C22": "runtime monitoring: field-frame monitor over all builder methods by reflection",
    "C23": "runtime monitoring: customize-hook event log compared with the document",
    "C24": "runtime monitoring with fault injection: every fault that fired has to be returned as error, document state compared before and after",
}
NOTE = "holds on every execution observed; says nothing of inputs and histories not generated. Trusts the harness (grammar, reference model or evaluator), the Go standard library and swaggest/jsonschema-go and refl as dependencies."
checks = []
na = []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd=f"bash run.sh {i} quick", thorough_cmd=f"bash run.sh {i} thorough", evidence_file=f"evidence/{i}.json",
                           technique=TECH[i], level="exploration", level_note="exploration: " + NOTE))
    else:
        na.append(dict(property=i, reason="not built yet"))
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: all monitors attach to public API (interceptors, customize functions, callbacks, marshalers). known_findings.json lists recorded defects and repairs.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "open")
