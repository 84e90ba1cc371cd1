#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json; MISSED lists those the
checks did not catch when they were planted."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "c19-shared-options": "goroutines start with options that have spare capacity",
 "c04-nested-lists": "nested lists in YAML input",
 "c07-case-insensitive": "names that differ in letter case only",
 "c10-shared-no-content": "responses changed in place after SetupOperation",
 "c15-required-header": "required tag on response headers",
 "c17-shared-tags": "tags slice reused by the caller",
 "c20-mapping-consumed": "caller's mappings compared before and after",
 "c20-header-case": "header names in several cases in permuted units",
 "c21-form-tag-prefix": "form and formData structures in one document",
 "c22-item-replaces": "several items with different keys on one entity",
 "c23-customize-twice": "customize calls counted per unit of one status",
 "c07-reference-parameters": "operations that have parameters before (presets)",
 "c21-last-definition": "components edited by the user between operations",
 "c13-depth-guard": "chains of up to 50 components",
 "c14-walk-root-path": "documents with operations at the root",
 "c04-tabs": "YAML text variants: raw tabs, CR, CRLF, byte order marks, UTF-16, indentation, comments, document marks",
 "c10-empty-existing": "operations set through Paths without responses",
 "c11-space-name": "random texts for segments, parameter names and patterns",
 "c13-trim-left": "component names whose letters occur in the reference prefix",
 "c15-pipes-explode": "collectionFormat, style and explode tags anywhere",
 "c20-extra-consumed": "structures that keep and share the schema they expose, compared before and after",
 "c21-case-fold": "type names that differ in letter case only",
 "c03-status-suffix": "unknown members whose names are almost those of a pattern, with values that would be fine there",
 "c10-placeholder-case": "path parameters whose names are almost those of placeholders",
 "c03-encoding-style": "closed members mutated to values of other enumerations and spellings",
 "c04-top-order": "documents with dozens of top-level extensions",
 "c10-webhook-reference": "documents seeded with webhooks that are references",
 "c19-shared-media-schema": "documents changed in place everywhere by their owner before another one is built",
 "c20-mapping-sorted": "one map given for several locations, locations set in any order, values of the caller copied before the first call",
 "c23-reference-after-customize": "several customizing options on one unit",
 "c06-duplicate-content": "units given twice",
 "c10-adjacent-duplicates": "duplicate parameters at a distance",
 "c14-required-substring": "content types with capitals and parameters, names that contain one another",
 "c13-resolve-bare": "references to places below components",
 "c21-param-sanitizer": "types used in a JSON parameter and a body",
 "c09-lower-media": "content types with capitals",
 "c09-header-canonical": "header names in unusual case",
 "c13-ens": "documents without components or schemas",
}
rows = ["| id | check | needs |", "|---|---|---|"]
n = 0
for i in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{i}/meta.json")); n += 1
    rows.append("| %s%s | %s | %s |" % (i, "*" if i in MISSED else "", m["property"], m["needs"].replace("\n", " ").replace("|", "\\|")))
extra = ["", f"{n} bugs, all caught by the quick check of their property. Those marked * were missed when planted; what was added then:", ""]
extra += ["* %s: %s" % kv for kv in sorted(MISSED.items()) if os.path.isdir(f"{root}/seeded/{kv[0]}")]
p = root + "/DESIGN.md"; s = open(p).read()
b, e = "<!-- seeds -->\n", "<!-- /seeds -->"
t = b + "\n".join(rows + extra) + "\n" + e
s = s.replace("SEEDTABLE", t) if "SEEDTABLE" in s else re.sub(re.escape(b) + ".*?" + re.escape(e), lambda _: t, s, flags=re.S)
open(p, "w").write(s)
