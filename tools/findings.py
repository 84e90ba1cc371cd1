#!/usr/bin/env python3
"""Source of known_findings.json: genuine defects that were recorded (known) or repaired (fixed)."""
import json

F = []


def known(prop, key, what):
    F.append({"property": prop, "key": key, "what": what, "status": "known"})


def fixed(prop, commit, what):
    F.append({"property": prop, "key": "fixed-" + commit, "what": what, "status": f"fixed: property={prop} {commit} {what}"})


known("C01", "escaped-type", "a closed enumeration value written with JSON escapes (\"ap\\u0069Key\") is refused: constants are compared as raw text")
known("C01", "escaped-in", "a parameter location written with JSON escapes (\"que\\u0072y\") is refused: constants are compared as raw text")
known("C02", "escaped-in", "a security scheme type written with JSON escapes is refused: constants are compared as raw text")
known("C02", "link-parameters-any", "Link.parameters with a non-string value is refused: the entity models them as strings")
known("C02", "boolean-schema-component", "a boolean schema component is refused: schemas are modelled as objects")
known("C02", "boolean-schema-parameter", "a boolean schema of a parameter is refused: schemas are modelled as objects")

known("C12", "several-types", "a JSON Schema with several types beside null (type: [string, integer]) becomes a 3.0 schema of the last of them; it would take a union, which changes documents of users who have such types today")

known("C13", "nullable-without-type", "a 3.0 schema with nullable: true and no type, e.g. {nullable: true, allOf: [$ref]}, is exported with type null and refuses every value that its source accepts; repairing it would change the meaning of {nullable: true} that the library itself writes for JSON Schema type null")

for v in ("3.0", "3.1"):
    known("C04", "merge-key-" + v, "an object member named << is written to YAML unquoted and is merged into its parent when read back (" + v + ")")

known("C21", "param-role-component", "a type with json tags that is reflected as a parameter first registers its component with parameter properties, and JSON responses that use the type later keep it (e.g. query field []T, then response T); renaming the component is pinned by golden tests")

import subprocess

FIXES = [
    ("C12", "fix: keep const", "const of a JSON Schema (const tag of a field) was lost in 3.0, where the schema accepts every value then"),
    ("C01", "fix: encode every member", "decoded 3.0 Parameter and HTTPSecurityScheme encoded with duplicate members"),
    ("C02", "fix: decode OpenAPI 3.1 Example", "every 3.1 Example object was refused"),
    ("C02", "fix: decode OpenAPI 3.1 objects with", "3.1 objects with $ref and other members were refused as ambiguous"),
    ("C01", "fix: keep empty security", "security: [] of an operation was lost (3.0 and 3.1)"),
    ("C01", "fix: keep empty scopes", "scopes: {} of 3.0 OAuth flows was lost"),
    ("C02", "fix: accept matrix", "3.1 parameters with style matrix, label or simple were refused"),
    ("C01", "fix: accept bearer scheme", "3.0 bearer scheme in another letter case was refused"),
    ("C02", "fix: keep empty schema", "schema: {} of 3.1 parameters, headers and media types was lost"),
    ("C12", "fix: keep exclusive", "exclusiveMinimum/exclusiveMaximum lost their bounds in 3.0"),
    ("C14", "fix: walk default", "walking a default or referenced response, or a body without schema, panicked"),
    ("C03", "fix: refuse paths", "paths, callbacks and component maps of the wrong JSON type were accepted as empty"),
    ("C05", "fix: refuse OpenAPI 3.1 headers", "3.1 headers with schema: null, content: null or content: {} were accepted and then encoded to a header that is refused"),
    ("C10", "fix: refuse operation", "an operation added under another spelling of an existing path replaced it"),
    ("C10", "fix: do not set up operation again", "adding a context a second time (refused) changed the operation added the first time"),
    ("C11", "fix: sanitize", "regexps with braces left garbage in the sanitized path"),
    ("C09", "fix: keep headers", "headers of earlier response units of a status were discarded"),
    ("C10", "fix: do not change", "failed setup of a 3.1 operation changed the existing operation"),
    ("C13", "fix: find references", "references at several JSON Schema keywords had no definition in exported 3.1 schemas"),
    ("C13", "fix: do not panic", "exporting a schema with reference from a document without components panicked"),
    ("C21", "fix: do not replace JSON component of a type", "a JSON-tagged type nested in a form replaced the component of its JSON bodies"),
    ("C21", "fix: do not replace JSON component of a composed", "a oneOf/anyOf/allOf/not type in a form shared the component of its JSON bodies though its parts differ"),
    ("C15", "fix: apply style tag", "style tag of a parameter was ignored in 3.1 (and applied in 3.0)"),
    ("C06", "fix: use permitted style", "collectionFormat csv in path and header gave style form, which is not permitted there"),
    ("C06", "fix: use deepObject style", "objects in path, header and cookie got style deepObject, which is permitted in query only"),
    ("C14", "fix: walk fields of recursive", "fields of a recursive form were not walked, extensions of form fields were replaced by those of the form"),
    ("C07", "fix: do not overflow stack on recursive objects in parameters", "a recursive object with json tags in a parameter overflowed the stack"),
    ("C21", "fix: reflect value of a parameter", "a JSON parameter of pointer type registered the component of its type without what PrepareJSONSchema adds, and a pointer to a type that exposes a string schema had style deepObject"),
    ("C20", "fix: encode YAML documents with", "YAML of the same document had keys in different order from time to time (e.g. responses 100, 200 and 2XX)"),
    ("C04", "fix: keep digits", "big integers lost digits in YAML"),
    ("C18", "fix: keep operation context for interceptors", "interceptors saw no operation context while a structure was probed for having a body"),
    ("C16", "fix: provide operation in deprecated context", "the deprecated context of interceptors had no operation during AddOperation"),
    ("C09", "fix: do not overflow stack on recursive objects in response", "a response header field of a recursive type overflowed the stack"),
    ("C09", "fix: keep JSON schema of OpenAPI 3.1 response", "a contentType field of application/json replaced the JSON schema of the response by a string in 3.1"),
    ("C08", "fix: document JSON body of a virtual structure", "a jsonschema.Struct given as request structure got no JSON body, though its parameters were documented and as a response it had content"),
    ("C03", "fix: refuse components with invalid names", "a 3.0 document with a component name like \"a b\" was accepted and the component silently dropped"),
    ("C09", "fix: strip space before", "a response content type with a space before its parameters (\"text/csv ; charset=utf-8\") kept the space in the media type"),
    ("C02", "fix: keep allowEmptyValue", "allowEmptyValue and allowReserved of a 3.1 parameter were lost (and not set from field tags)"),
    ("C02", "fix: keep server of", "server of a 3.1 link was lost"),
    ("C02", "fix: keep extensions of OpenAPI 3.1 encodings", "x- members of a 3.1 encoding were lost"),
    ("C02", "fix: keep extensions of OpenAPI 3.1 components", "x- members of 3.1 components were lost"),
    ("C02", "fix: keep reference of an OpenAPI 3.1 path item", "$ref of a 3.1 path item under paths was lost"),
    ("C09", "fix: do not panic on an OpenAPI 3.0 response header", "a 3.0 response header whose type describes itself as a reference panicked"),
    ("C24", "fix: return error for a definition that can not be encoded", "a response or parameter type with a value that JSON does not have (e.g. default:\"NaN\") panicked in 3.1"),
]


def subjects():
    out = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    return [l.split(" ", 1) for l in out.splitlines()]


subs = subjects()
for prop, prefix, what in FIXES:
    for h, s in subs:
        if s.startswith(prefix):
            fixed(prop, h, what)

json.dump({"findings": F}, open("/verif/known_findings.json", "w"), indent=1)
