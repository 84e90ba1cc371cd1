#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: `python3 tools/props.py` rewrites it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

ENT = ["openapi3/entities.go", "openapi31/entities.go"]
REF = ["openapi3/reflect.go", "openapi31/reflect.go", "internal/json_schema.go"]

p("C01", "OpenAPI 3.0 documents survive a JSON decode/encode round trip unchanged",
  "Every valid OpenAPI 3.0 JSON document, with any mix of objects, references, x- extensions, null examples/defaults and unusual-but-legal keys, is accepted by the decoder, and encoding the decoded document yields the same JSON value: no member lost, added, renamed, moved or changed (numbers compared as IEEE doubles; an optional empty collection may be left out where absence means the same, and the only permitted style of a header or cookie may be spelled out). A second round trip changes nothing any more, and no JSON object in the output has a member name twice.",
  ["inputs"], "all valid OpenAPI 3.0 documents (every object type, every optional member, extensions at every extensible object, references wherever allowed)",
  "Tests round-trip a handful of sample files; the decoder is 8k lines of generated per-type code in which a defect in any one member of any one object type is invisible to documents that do not use it.",
  ["openapi3/entities.go"],
  [("per-type UnmarshalJSON/MarshalJSON with known-key lists and pattern maps", "openapi3/entities.go"), ("marshalUnion merges an object with its pattern/extension maps", "openapi3/entities.go: marshalUnion")],
  ["openapi3.Spec.UnmarshalJSON", "openapi3.Spec.MarshalJSON"])

p("C02", "OpenAPI 3.1 documents survive a JSON decode/encode round trip unchanged",
  "Every valid OpenAPI 3.1 JSON document (webhooks, path-item/component references with summary and description siblings, free-form JSON Schemas, x- extensions) is accepted by the decoder, and encoding the decoded document yields the same JSON value: no member lost, added, renamed, moved or changed (numbers compared as IEEE doubles; an optional empty collection may be left out where absence means the same). Schema objects are carried verbatim, whatever keywords they contain.",
  ["inputs"], "all valid OpenAPI 3.1 documents: every object type and member modelled by the 3.1 entities, references wherever allowed, arbitrary schema objects",
  "Tests round-trip one or two sample files, none with inline examples, response references with siblings or references in webhooks.",
  ["openapi31/entities.go"],
  [("per-type UnmarshalJSON/MarshalJSON", "openapi31/entities.go"), ("X-or-reference unions", "openapi31/entities.go")],
  ["openapi31.Spec.UnmarshalJSON", "openapi31.Spec.MarshalJSON"])

p("C03", "Decoders reject invalid documents instead of silently repairing them",
  "An OpenAPI 3.0 document that breaks the format at any single place - a required member removed, an unknown member that is not an x- extension added (a component under a name that is not permitted included), a closed enumeration given another value, or a member given a non-null value of the wrong JSON type - is refused with an error, from JSON as well as from YAML. An OpenAPI 3.1 document with a required member removed, a non-null value of the wrong JSON type or a closed enumeration given another value is refused likewise.",
  ["inputs"], "all documents obtained from a valid one by one such mutation at any place",
  "Tests contain a few hand-made invalid samples; each object type and member has its own generated validation code.",
  ENT,
  [("required-key, enum and unknown-key checks in UnmarshalJSON", "openapi3/entities.go, openapi31/entities.go")],
  ["Spec.UnmarshalJSON", "Spec.UnmarshalYAML"])

p("C04", "The YAML and JSON forms of a document are interchangeable",
  "For every document, 3.0 and 3.1, the YAML encoding denotes the same value as the JSON encoding (same members at every level, strings that look like other YAML types stay strings, integers keep their digits), with the top-level members in the same order. Decoding a document from its YAML form, or from any YAML text denoting a valid document, gives the same result as decoding its JSON form.",
  ["inputs"], "all valid documents, including strings and keys that look like numbers, booleans, nulls, dates or YAML syntax, multi-line and non-ASCII text, non-string YAML keys such as bare status codes",
  "Tests convert one or two documents; YAML's implicit typing makes failures depend on rare values.",
  ["openapi3/yaml.go", "openapi31/yaml.go"],
  [("MarshalYAML via ordered JSON object", "yaml.go: orderedMap, objectKeys"), ("UnmarshalYAML converts to JSON", "yaml.go: convertMapI2MapS")],
  ["Spec.MarshalYAML", "Spec.UnmarshalYAML"])

p("C05", "Decoders survive arbitrary bytes, and what they accept they can re-encode",
  "Decoding arbitrary JSON or YAML bytes into a 3.0 or 3.1 document, or into any of its component objects, returns a result or an error and never panics. Whatever is accepted encodes without error to valid JSON that has no duplicate member names, decodes again, and from the second encoding on always encodes to the same bytes.",
  ["inputs"], "all byte strings, in particular near-valid documents: truncated, spliced, with nulls, wrong types, deep nesting, duplicate keys, odd keys",
  "Tests feed well-formed documents only.",
  ENT + ["openapi3/yaml.go", "openapi31/yaml.go"],
  [("UnmarshalJSON of every entity", "entities.go"), ("marshalUnion", "entities.go")],
  ["UnmarshalJSON/UnmarshalYAML/MarshalJSON of Spec and of every entity type"])

p("C06", "Documents built by reflection are valid, closed OpenAPI documents",
  "After any sequence of accepted operations and webhooks the resulting document satisfies the OpenAPI 3.0 or 3.1 document format. Every local schema reference in it resolves to a component of the document, component names use only the permitted characters, parameters of an operation are unique by name and location, path parameters are marked required and match the placeholders of the path exactly, and every operation has at least one response with a description member.",
  ["inputs", "histories"], "all sequences of operations over Go structures with arbitrary field types, tags, nesting, generics, recursion and content options",
  "Golden files check some fixed structures; validity must hold for any combination of types and options.",
  REF + ["openapi3/helper.go", "openapi31/helper.go"],
  [("definition collection with #/components/schemas/ prefix", "reflect.go: collectDefinition, parseRequestBody"), ("definition name sanitizing", "internal/json_schema.go: sanitizeDefName"), ("path parameter validation", "helper.go: validatePathParams")],
  ["Spec.MarshalJSON after Reflector.AddOperation/AddWebhook"])

p("C07", "Each tagged request field yields exactly the parameter its tags describe",
  "For every request structure, the operation gets exactly one parameter per top-level (or embedded) field tagged or mapped for path, query (form as fallback), cookie or header, with that name, location and description, required when tagged so or in path, with the style/explode of its collectionFormat tag, deepObject style for objects in query, JSON content for JSON-encoded objects, and the schema of the field's type and constraint tags; untagged, dash-tagged and unexported fields yield none. Declaring the same name twice in a location is an error, and a structure that forbids additional properties for a location marks the operation as forbidding unknown parameters there and in no other location.",
  ["inputs"], "all request structures: field types x locations x tags x field mappings x embedding x several request units",
  "Tests cover a dozen fixed structures; tags interact combinatorially.",
  REF, [("parameter reflection", "reflect.go: parseParametersIn; internal/json_schema.go: ReflectParametersIn")],
  ["Operation.Parameters after AddOperation", "OperationContext.UnknownParamsAreForbidden"])

p("C08", "Request bodies follow the documented method, tag and content-type rules",
  "A request body appears exactly when the structure calls for one: form and JSON bodies never for GET, HEAD, DELETE or TRACE unless the structure forces them; form fields (formData, else form tags, or mapped) give application/x-www-form-urlencoded, or multipart/form-data as soon as a file field is present; json fields, slices and maps give application/json, which a form-tagged structure suppresses unless it forces JSON; contentType-tagged fields and explicit content types give raw string bodies with the given format. The body schema lists exactly the fields tagged for that content, under their tag names, and separate request units add their content types to one request body without discarding each other's.",
  ["inputs", "configurations"], "all methods x request structures x content types x field mappings x enforcer interfaces x number of request units",
  "Tests cover single combinations of tag, method and content type.",
  REF, [("request body reflection", "reflect.go: setupRequest, parseRequestBody, parseRawRequestBody; internal/json_schema.go: ReflectRequestBody")],
  ["Operation.RequestBody after AddOperation"])

p("C09", "Responses are filed under the right status with all content, headers and text",
  "Each response unit contributes to exactly the response it names: its status code, the NXX family for 1-5, default when marked default, 200 when nothing is set, and 204 No Content when an operation has no response units. Units of the same status accumulate content types and headers instead of replacing each other's; a JSON-describable structure documents its schema under the unit's media type (parameters such as charset stripped) or application/json, header fields become response headers rather than being lost, HEAD operations get headers but no content, and the description is the unit's, else the structure's, else the standard status text.",
  ["inputs", "histories"], "all lists of response units: statuses x structures x content types x formats x descriptions x HTTP methods",
  "Tests use at most two response units per status and few structures.",
  REF + ["openapi3/helper.go", "openapi31/helper.go"],
  [("response setup", "reflect.go: setupResponse, parseJSONResponse, parseResponseHeader, ensureResponseContentType"), ("default 204", "helper.go: Spec.AddOperation")],
  ["Operation.Responses after AddOperation"])

p("C10", "Operations are registered once, where asked, and a rejected one leaves no trace",
  "An accepted operation appears under its sanitized path and method with every other operation, webhook and path item unchanged; adding an operation whose method and path (in any spelling that denotes the same path) already exist, or a webhook whose name exists, is refused. Operations with an unknown method, a path parameter without placeholder, a placeholder without path parameter or duplicate parameters are refused, and a refused call, including a setup function that fails after assigning members of the operation, leaves the document's paths and webhooks exactly as they were.",
  ["histories"], "all sequences of NewOperationContext, AddOperation, AddWebhook, SetupOperation and direct Spec calls, valid and invalid, in any order",
  "Tests check single refusals, not the state of the document after arbitrary histories.",
  ["openapi3/helper.go", "openapi31/helper.go", "openapi3/reflect.go", "openapi31/reflect.go", "operation.go"],
  [("existence check", "helper.go: Spec.AddOperation, AddWebhook; reflect.go: NewOperationContext"), ("validation before commit", "helper.go: SetupOperation, validatePathParams")],
  ["Spec.Paths", "Spec.Webhooks", "returned errors"])

p("C11", "Path patterns are sanitized to plain OpenAPI templates",
  "For every path pattern made of literal segments and {name} or {name:regexp} placeholders, sanitizing returns the same path with exactly the regexps removed and every other byte unchanged, the placeholder names in order of appearance, and the method in lower case. Methods other than the eight of OpenAPI are refused, in any letter case, and sanitizing a sanitized path changes nothing.",
  ["inputs"], "all methods and patterns, including repeated placeholders and regexps with brace quantifiers",
  "Tests check two patterns.",
  ["operation.go"], [("placeholder regexp and replacement", "operation.go: SanitizeMethodPath")],
  ["openapi.SanitizeMethodPath", "NewOperationContext", "Spec.SetupOperation"])

p("C12", "Converting JSON Schema to OpenAPI 3.0 and back keeps its meaning",
  "For every JSON Schema expressible in OpenAPI 3.0, conversion to an OpenAPI 3.0 schema accepts and rejects the same JSON values, keeping every bound, length, pattern, enum, const (as an enum of one value), type, nullability, required list, property, item, combinator and additionalProperties rule, and its annotations (title, description, default, format, examples, deprecated, readOnly, writeOnly, x- members) are kept. Converting that back yields a schema with the same verdict on every value again, and references stay references to the same component.",
  ["inputs"], "all JSON Schemas built from the keywords OpenAPI 3.0 has, nested to any depth, and all JSON values",
  "Tests convert a few schemas and compare goldens; they never evaluate the schemas on values.",
  ["openapi3/jsonschema.go"], [("conversion", "openapi3/jsonschema.go: FromJSONSchema, toJSONSchema, checkNullable, fromBool")],
  ["SchemaOrRef.FromJSONSchema", "SchemaOrRef.ToJSONSchema"])

p("C13", "An exported JSON Schema is self-contained and equivalent to its source",
  "Exporting any schema of a document to JSON Schema terminates, also for recursive and mutually recursive components, and the result carries, for every component reachable through references at any keyword, a definition at the place its references point to, equal in meaning to that component, and no unreachable ones. The exported schema accepts exactly the JSON values that the source schema accepts within its document, and exporting does not modify the document. Resolving a component reference through the reflector finds exactly the components there are.",
  ["inputs"], "all component graphs (chains, cycles, self references, references under every schema keyword, dangling references) and all starting schemas, 3.0 and 3.1",
  "Tests export schemas of a few structures with shallow references.",
  ["openapi3/jsonschema.go", "openapi31/jsonschema.go"],
  [("reference collection", "openapi3/jsonschema.go: toJSONSchema; openapi31/jsonschema.go: findReferences"), ("root inlining by reference count", "jsonschema.go: ToJSONSchema")],
  ["ToJSONSchema (3.0 and 3.1)", "Reflector.ResolveJSONSchemaRef"])

p("C14", "Schema walking reports exactly what adding the operation would document",
  "For every content unit, walking its request or response schemas calls back once per parameter, field of a urlencoded form, JSON body and header that adding an operation with that unit documents, with the same location, name (header names canonicalised), required flag and schema, calls the completion function exactly once, stops at and returns the first callback error, and never panics. Walking registers no operation.",
  ["inputs"], "all request and response content units (structures, statuses incl. default and families, content types, mappings) x methods",
  "Tests walk two fixed structures.",
  ["openapi3/walk_schema.go", "openapi31/walk_schema.go"],
  [("walkers", "walk_schema.go: WalkRequestJSONSchemas, WalkResponseJSONSchemas")],
  ["JSONSchemaCallback invocations", "done callback", "Spec.Paths"])

p("C15", "The 3.0 and 3.1 reflectors document the same API for the same inputs",
  "Fed the same sequence of operations, both reflectors accept and refuse the same ones and produce documents that agree on every path, method, parameter (name, location, required, style, explode, content type), request and response content type, status, header, description, security requirement and component name. Each schema in one document describes the same values as its counterpart in the other, up to the versions' notations for nullability and files.",
  ["inputs", "histories"], "all operation sequences usable with both versions",
  "The two implementations are parallel copies tested with separate goldens; nothing compares them.",
  REF, [("parallel implementations", "openapi3/reflect.go and openapi31/reflect.go")],
  ["Spec.MarshalJSON of both reflectors"])

p("C16", "Deprecated request/response setters equal the operation-context API (3.0)",
  "For every structure, mapping, method and status, setting up an operation through the deprecated SetRequest, SetupRequest, SetJSONResponse, SetStringResponse and SetupResponse and adding it to the document gives the same document as adding the same content through an operation context. (Setters that take no method can not know of HEAD; there the full context is given.) Interceptors see the same operation and processing state through the deprecated context as through the current one.",
  ["inputs", "histories"], "all request/response structures, field mappings, methods, statuses and content types",
  "Tests use fixed structures and compare with goldens instead of with the current API.",
  ["openapi3/reflect_deprecated.go", "openapi3/reflect.go"], [("translation of the deprecated context", "openapi3/reflect.go: toOpCtx, fromOpCtx"), ("deprecated setters", "openapi3/reflect_deprecated.go")],
  ["Spec.MarshalJSON"])

p("C17", "Service info, operation info and security written through the API read back",
  "After any sequence of setter calls on a document or operation context (title, description, version, tags, summary, id, deprecation, security schemes and requirements), every getter returns the last value set and the encoded document shows exactly the values last set: basic, bearer (with format) and API-key (name, location) schemes under their names with their descriptions, and one requirement per added security with its scopes in order. Setting one item changes no other item.",
  ["histories"], "all sequences of setter calls with arbitrary strings, through the version-independent interfaces, 3.0 and 3.1",
  "Tests set each value once.",
  ["openapi3/helper.go", "openapi31/helper.go", "openapi3/reflect.go", "openapi31/reflect.go"],
  [("setters", "helper.go: SetTitle.. SetAPIKeySecurity; reflect.go: operationContext methods")],
  ["openapi.SpecSchema", "openapi.OperationInfo(Reader)", "Spec.MarshalJSON"])

p("C18", "Schema interceptors always see the operation and location being processed",
  "While an operation is reflected, every schema or property interceptor can retrieve that very operation's context, and its state says truthfully whether request or response is being processed and which location (path, query, cookie, header, body) the schema is reflected for. Outside of operation processing no operation context is visible.",
  ["inputs", "histories"], "all operations with any mix of request and response units, structures and fields, added in any order, 3.0 and 3.1",
  "Tests check one operation with a fixed expectation list.",
  REF + ["operation.go", "internal/operation_context.go"], [("context option", "operation.go: WithOperationCtx, OperationCtx")],
  ["interceptor callbacks"])

p("C19", "Separate reflectors and read-only documents are safe for concurrent use",
  "Reflectors used by different goroutines never race or influence each other: each yields the document it yields when run alone. A finished document that goroutines only read - encoding to JSON or YAML, exporting schemas, reading info - causes no data race and gives every reader the same result, and concurrent decoding of documents is independent.",
  ["schedules"], "all interleavings of concurrent reflection, encoding, decoding, walking and schema export",
  "Tests run sequentially and without the race detector.",
  REF + ENT, [("no package-level mutable state", "all packages"), ("encoding without mutation of the receiver", "entities.go, yaml.go, jsonschema.go")],
  ["race detector reports", "per-goroutine outputs"])

p("C20", "Building and encoding are deterministic, order-independent, side-effect free",
  "Repeating the same sequence of calls gives byte-identical JSON and YAML, also in another process; registering the same operations in another order gives the same document, up to the numbers that tell apart names of different types that coincide. Encoding, schema export, reading and walking the units of its operations change nothing in a document, and reflection changes nothing in the caller's structures, mappings and options.",
  ["histories", "schedules"], "all operation sequences and permutations of them (with distinct type names), all process restarts (map iteration orders)",
  "Tests run each scenario once; Go map order makes nondeterminism intermittent.",
  REF + ENT, [("definitions stored by name", "reflect.go: collectDefinition"), ("sorted encoding of maps", "entities.go: marshalUnion"), ("value copies during conversion", "jsonschema.go")],
  ["Spec.MarshalJSON", "Spec.MarshalYAML"])

p("C21", "Every named Go type gets its own component, shared by all its uses",
  "Across a whole document, a named structure used in several bodies, responses, nested fields or operations is described by one component that all uses reference, and different Go types never share a component even when their names coincide after prefixing and sanitizing. The component lists exactly the type's properties, and operations added later do not alter the components that earlier ones refer to.",
  ["inputs", "histories"], "all sets of types incl. equal names in different packages, generic instantiations, recursive types and type mappings, in any order of use",
  "Tests contain one or two collisions.",
  REF, [("definition naming", "internal/json_schema.go: InterceptDefName, sanitizeDefName"), ("first definition wins", "reflect.go: collectDefinition")],
  ["Components.Schemas", "every $ref"])

p("C22", "Entity builder methods set the member they name and nothing else",
  "On every entity type of both versions, With<Member> stores the given value so that the encoded object shows it under that member, With<Member>Item adds or replaces one entry and keeps the others, and <Member>Ens returns the existing member or installs an empty one that subsequent changes reach. No such method changes any other member, and each returns its receiver for chaining.",
  ["inputs"], "all entity types x all builder methods x initial contents x values",
  "About a thousand generated methods, of which the tests call a few dozen.",
  ENT, [("generated builder methods", "openapi3/entities.go, openapi31/entities.go")],
  ["struct fields before and after each call", "MarshalJSON"])

p("C23", "Content customization, references and descriptions are applied as given",
  "A content unit's customize function is called exactly once for the request body or response it belongs to, with the finished entity, and its changes appear in the document; setting a reference replaces the inline content by exactly that reference, leaving other units' responses untouched. Unit descriptions appear on the request body or response they belong to and on no other, and self-describing content units configure themselves as if given the same options.",
  ["inputs", "configurations"], "all lists of request and response units with any mix of structures, descriptions, references and customizers, 3.0 and 3.1",
  "Tests reference one response.",
  REF + ["operation.go", "internal/operation_context.go", "openapi3/helper.go", "openapi31/helper.go"],
  [("customize hooks", "reflect.go: setupRequest, setupResponse"), ("SetReference", "helper.go"), ("ContentUnitPreparer", "internal/operation_context.go")],
  ["customize callbacks", "Spec.MarshalJSON"])

p("C24", "Failures are reported to the caller and leave no half-made operation",
  "When describing a structure fails - an interceptor or the type itself returns an error, or a field tag has a value that can not be read - AddOperation, AddWebhook and the schema walkers return an error that tells the cause, wherever in the operation it happened; the operation is not in the document, existing operations stay as they are, and adding it again without the fault succeeds with the usual result. A document with a value that can not be encoded is refused by JSON and YAML encoding. An operation context of another reflector version or type is refused without any change.",
  ["fault_sequences", "inputs", "histories"], "all places of an operation where an interceptor, type or tag can fail, all places of a document that hold arbitrary values",
  "Tests hardly inject faults: almost no error path of the reflectors is executed by them.",
  REF + ["internal/json_schema.go", "openapi3/walk_schema.go", "openapi31/walk_schema.go", "openapi3/entities.go", "openapi31/entities.go"],
  [("error returns", "reflect.go: setupRequest, setupResponse, parseParameters, parseResponseHeader; json_schema.go: ReflectJSONResponse, ReflectRequestBody"), ("operation added last", "reflect.go: AddOperation, AddWebhook")],
  ["returned errors", "Spec.MarshalJSON", "Spec.MarshalYAML"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
