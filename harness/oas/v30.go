package oas

import (
	"fmt"
	"regexp"
	"strings"
)

var (
	str   = &Node{Kind: KStr}
	boolT = &Node{Kind: KBool}
	intT  = &Node{Kind: KInt}
	numT  = &Node{Kind: KNum}
	anyT  = &Node{Kind: KAny}
)

func named(s string) *Node { return &Node{Kind: KNamed, Name: s} }

func enum(s ...string) *Node { return &Node{Kind: KStr, Enum: s} }

func arr(n *Node) *Node { return &Node{Kind: KArr, Elem: n} }

func uarr(n *Node) *Node { return &Node{Kind: KArr, Elem: n, Unique: true} }

func mapOf(n *Node) *Node { return &Node{Kind: KMap, Elem: n} }

var compKeyRe = regexp.MustCompile(`^[a-zA-Z0-9.\-_]+$`)

func compKey(g *Gen) string {
	if g.P(0.3) {
		return g.Word() + g.Pick(".", "-", "_", "9", "--", "_.") + g.Word()
	}

	if g.P(0.1) {
		return g.Pick("x-foo", "1", "200", "default", "a.b.c", "-", "_", ".", "null", "true", "1e3", "0x10", "1.5", "yes", "2020-01-01")
	}

	return g.Word()
}

func compMap(n *Node) *Node { return &Node{Kind: KMap, Elem: n, GenKey: compKey, KeyRe: compKeyRe} }

// HasRef tells a reference object.
func HasRef(v interface{}) bool {
	m, ok := v.(map[string]interface{})
	if !ok {
		return false
	}

	_, ok = m["$ref"]

	return ok
}

func notRef(v interface{}) bool { return !HasRef(v) }

func ref30(kind string) *Node {
	re := regexp.MustCompile(`^#/components/` + kind + `/|^[^#]|^$|^#[^/]`)

	return &Node{Kind: KObj, Name: kind + "Reference", Strict: true, Fields: []Field{{"$ref", &Node{Kind: KStr, KeyRe: re, GenStr: func(g *Gen) string {
		if g.P(0.75) {
			return "#/components/" + kind + "/" + compKey(g)
		}

		return g.Pick("other.json", "https://example.com/a.json#/b/c", "./x.yaml#/d", "a/b/../c.json", "../up.json#/components/"+kind+"/Z")
	}}, true}}}
}

func orRef30(name, kind string) *Node {
	return &Node{Kind: KAlt, Name: name + "OrRef", Alts: []Alt{
		{T: ref30(kind), Is: HasRef, W: 1, Name: name + ".ref"},
		{T: named(name), Is: notRef, W: 3},
	}}
}

var extPat = regexp.MustCompile(`^x-`)

func obj(name string, fields ...Field) *Node {
	return &Node{Kind: KObj, Name: name, Fields: fields, Ext: true, Strict: true}
}

func req(n string, t *Node) Field { return Field{n, t, true} }

func opt(n string, t *Node) Field { return Field{n, t, false} }

func exclusive(g *Gen, m map[string]interface{}, a, b string) {
	if _, ok := m[a]; ok {
		if _, ok := m[b]; ok {
			if g.P(0.5) {
				delete(m, a)
			} else {
				delete(m, b)
			}
		}
	}
}

func notBoth(m map[string]interface{}, a, b string) error {
	if _, ok := m[a]; ok {
		if _, ok := m[b]; ok {
			return fmt.Errorf("%s and %s are exclusive", a, b)
		}
	}

	return nil
}

// schemaXorContent fixes a parameter or header to have either schema or content.
func schemaXorContent(g *Gen, m map[string]interface{}) {
	exclusive(g, m, "example", "examples")

	if c, ok := m["content"].(map[string]interface{}); ok && g.P(0.5) && len(c) > 0 {
		delete(m, "schema")

		for _, k := range []string{"style", "explode", "allowReserved", "example", "examples"} {
			delete(m, k)
		}

		first := true

		for _, k := range sortedKeys(c) {
			if !first {
				delete(c, k)
			}

			first = false
		}

		return
	}

	delete(m, "content")

	if _, ok := m["schema"]; !ok {
		m["schema"] = g.Gen(named("Schema"))
	}
}

func checkSchemaXorContent(m map[string]interface{}) error {
	_, s := m["schema"]
	c, ok := m["content"].(map[string]interface{})

	if s == ok {
		return fmt.Errorf("exactly one of schema and content is required")
	}

	if ok && len(c) != 1 {
		return fmt.Errorf("content of a parameter must have one media type")
	}

	if ok {
		for _, k := range []string{"style", "explode", "allowReserved", "example", "examples"} {
			if _, ok := m[k]; ok {
				return fmt.Errorf("%s not allowed with content", k)
			}
		}
	}

	return notBoth(m, "example", "examples")
}

func sortedKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	sortStrings(ks)

	return ks
}

var paramStyles = map[string][]string{
	"path": {"matrix", "label", "simple"}, "query": {"form", "spaceDelimited", "pipeDelimited", "deepObject"},
	"header": {"simple"}, "cookie": {"form"},
}

func fixParam(g *Gen, m map[string]interface{}) {
	schemaXorContent(g, m)

	in, _ := m["in"].(string)
	if _, ok := m["style"]; ok {
		m["style"] = paramStyles[in][g.R.Intn(len(paramStyles[in]))]
	}

	if in == "path" {
		m["required"] = true
	}
}

func checkParam(m map[string]interface{}) error {
	if err := checkSchemaXorContent(m); err != nil {
		return err
	}

	in, _ := m["in"].(string)

	if st, ok := m["style"].(string); ok {
		found := false

		for _, s := range paramStyles[in] {
			if s == st {
				found = true
			}
		}

		if !found {
			return fmt.Errorf("style %s not allowed in %s", st, in)
		}
	}

	if in == "path" && m["required"] != true {
		return fmt.Errorf("path parameter must be required")
	}

	return nil
}

func pathKey(g *Gen) string {
	var sb strings.Builder

	for i := 1 + g.R.Intn(3); i > 0; i-- {
		sb.WriteByte('/')

		if g.P(0.3) {
			sb.WriteString("{" + g.Word() + "}")
		} else if g.P(0.1) {
			sb.WriteString(g.Str())
		} else {
			sb.WriteString(g.Word())
		}
	}

	if g.P(0.05) {
		return "/"
	}

	return sb.String()
}

func mimeKey(g *Gen) string {
	return g.Pick("application/json", "application/xml", "text/plain", "*/*", "text/*", "image/png", "multipart/form-data", "application/x-www-form-urlencoded", "application/vnd.api+json", "application/json; charset=utf-8", "x-custom", g.Word())
}

var statusRe = regexp.MustCompile(`^[1-5](?:\d{2}|XX)$`)

func statusKey(g *Gen) string {
	if g.P(0.3) {
		return g.Pick("1XX", "2XX", "3XX", "4XX", "5XX")
	}

	return fmt.Sprintf("%d%02d", 1+g.R.Intn(5), g.R.Intn(100))
}

func nonEmptyContent(n *Node) *Node {
	return &Node{Kind: KMap, Elem: n, GenKey: mimeKey}
}

var methods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

func methodPat(op *Node) Pat {
	return Pat{GenKey: func(g *Gen) string { return g.Pick(methods...) }, Re: regexp.MustCompile(`^(get|put|post|delete|options|head|patch|trace)$`), T: op, Prob: 0.7}
}

// V30 is the grammar of OpenAPI 3.0 documents.
func V30() *Grammar {
	n := map[string]*Node{}
	gr := &Grammar{Version: "3.0", Named: n}

	n["Info"] = obj("Info", req("title", str), opt("description", str), opt("termsOfService", str), opt("contact", named("Contact")), opt("license", named("License")), req("version", str))
	n["Contact"] = obj("Contact", opt("name", str), opt("url", str), opt("email", str))
	n["License"] = obj("License", req("name", str), opt("url", str))
	n["Server"] = obj("Server", req("url", str), opt("description", str), opt("variables", mapOf(named("ServerVariable"))))
	n["ServerVariable"] = obj("ServerVariable", opt("enum", arr(str)), req("default", str), opt("description", str))
	n["ExternalDocs"] = obj("ExternalDocs", opt("description", str), req("url", str))
	n["Tag"] = obj("Tag", req("name", str), opt("description", str), opt("externalDocs", named("ExternalDocs")))
	n["SecurityRequirement"] = mapOf(arr(str))
	n["XML"] = obj("XML", opt("name", str), opt("namespace", str), opt("prefix", str), opt("attribute", boolT), opt("wrapped", boolT))
	n["Discriminator"] = &Node{Kind: KObj, Name: "Discriminator", Fields: []Field{req("propertyName", str), opt("mapping", mapOf(str))}}

	sor := named("SchemaOrRef")
	n["SchemaOrRef"] = orRef30("Schema", "schemas")
	n["Schema"] = obj("Schema",
		opt("title", str), opt("multipleOf", numT), opt("maximum", numT), opt("exclusiveMaximum", boolT), opt("minimum", numT), opt("exclusiveMinimum", boolT),
		opt("maxLength", intT), opt("minLength", intT), opt("pattern", str), opt("maxItems", intT), opt("minItems", intT), opt("uniqueItems", boolT),
		opt("maxProperties", intT), opt("minProperties", intT), opt("required", uarr(str)), opt("enum", uarr(anyT)),
		opt("type", enum("array", "boolean", "integer", "number", "object", "string")), opt("not", sor), opt("allOf", arr(sor)), opt("oneOf", arr(sor)), opt("anyOf", arr(sor)),
		opt("items", sor), opt("properties", mapOf(sor)), opt("additionalProperties", &Node{Kind: KAlt, Name: "additionalProperties", Alts: []Alt{
			{T: boolT, Is: func(v interface{}) bool { _, ok := v.(bool); return ok }, W: 1, Name: "additionalProperties.bool"},
			{T: sor, Is: func(v interface{}) bool { _, ok := v.(bool); return !ok }, W: 2},
		}}),
		opt("description", str), opt("format", str), opt("default", anyT), opt("nullable", boolT), opt("discriminator", named("Discriminator")), opt("readOnly", boolT), opt("writeOnly", boolT),
		opt("example", anyT), opt("externalDocs", named("ExternalDocs")), opt("deprecated", boolT), opt("xml", named("XML")))
	n["Schema"].Fix = func(g *Gen, m map[string]interface{}) {
		for _, k := range []string{"required", "enum"} {
			if a, ok := m[k].([]interface{}); ok && len(a) == 0 {
				delete(m, k)
			}
		}

		if f, ok := m["multipleOf"]; ok {
			c := Canon(f)
			if c == "0" || strings.HasPrefix(c, "-") {
				delete(m, "multipleOf")
			}
		}
	}

	exor := func(m map[string]interface{}) error { return notBoth(m, "example", "examples") }
	fexor := func(g *Gen, m map[string]interface{}) { exclusive(g, m, "example", "examples") }

	n["Response"] = obj("Response", req("description", str), opt("headers", mapOf(orRef30("Header", "headers"))), opt("content", nonEmptyContent(named("MediaType"))), opt("links", mapOf(orRef30("Link", "links"))))
	n["MediaType"] = obj("MediaType", opt("schema", sor), opt("example", anyT), opt("examples", mapOf(orRef30("Example", "examples"))), opt("encoding", mapOf(named("Encoding"))))
	n["MediaType"].Fix, n["MediaType"].Check = fexor, exor
	n["Example"] = obj("Example", opt("summary", str), opt("description", str), opt("value", anyT), opt("externalValue", str))
	n["Header"] = obj("Header", opt("description", str), opt("required", boolT), opt("deprecated", boolT), opt("allowEmptyValue", boolT), opt("style", enum("simple")), opt("explode", boolT), opt("allowReserved", boolT),
		opt("schema", sor), opt("content", nonEmptyContent(named("MediaType"))), opt("example", anyT), opt("examples", mapOf(orRef30("Example", "examples"))))
	n["Header"].Fix, n["Header"].Check = schemaXorContent, checkSchemaXorContent
	n["Encoding"] = &Node{Kind: KObj, Name: "Encoding", Strict: true, Fields: []Field{opt("contentType", str), opt("headers", mapOf(named("Header"))), opt("style", enum("form", "spaceDelimited", "pipeDelimited", "deepObject")), opt("explode", boolT), opt("allowReserved", boolT)}}
	n["Parameter"] = obj("Parameter", req("name", str), req("in", enum("path", "query", "header", "cookie")), opt("description", str), opt("required", boolT), opt("deprecated", boolT), opt("allowEmptyValue", boolT),
		opt("style", str), opt("explode", boolT), opt("allowReserved", boolT), opt("schema", sor), opt("content", nonEmptyContent(named("MediaType"))), opt("example", anyT), opt("examples", mapOf(orRef30("Example", "examples"))))
	n["Parameter"].Fix, n["Parameter"].Check = fixParam, checkParam
	n["RequestBody"] = obj("RequestBody", opt("description", str), req("content", nonEmptyContent(named("MediaType"))), opt("required", boolT))
	n["Link"] = obj("Link", opt("operationId", str), opt("operationRef", str), opt("parameters", mapOf(anyT)), opt("requestBody", anyT), opt("description", str), opt("server", named("Server")))
	n["Link"].Fix = func(g *Gen, m map[string]interface{}) { exclusive(g, m, "operationId", "operationRef") }
	n["Link"].Check = func(m map[string]interface{}) error { return notBoth(m, "operationId", "operationRef") }
	n["Callback"] = &Node{Kind: KObj, Name: "Callback", Ext: true, Pats: []Pat{{GenKey: func(g *Gen) string {
		return g.Pick("{$request.body#/url}", "http://x/{$request.query.a}", "cb"+g.Word())
	}, Re: regexp.MustCompile(`.`), T: named("PathItem"), Prob: 0.6}}}

	n["PathItem"] = obj("PathItem", opt("$ref", str), opt("summary", str), opt("description", str), opt("servers", arr(named("Server"))), opt("parameters", uarr(orRef30("Parameter", "parameters"))))
	n["PathItem"].Pats = []Pat{methodPat(named("Operation"))}
	n["Operation"] = obj("Operation", opt("tags", arr(str)), opt("summary", str), opt("description", str), opt("externalDocs", named("ExternalDocs")), opt("operationId", str), opt("parameters", uarr(orRef30("Parameter", "parameters"))),
		opt("requestBody", orRef30("RequestBody", "requestBodies")), req("responses", named("Responses")), opt("callbacks", mapOf(orRef30("Callback", "callbacks"))), opt("deprecated", boolT), opt("security", arr(named("SecurityRequirement"))), opt("servers", arr(named("Server"))))
	n["Responses"] = obj("Responses", opt("default", orRef30("Response", "responses")))
	n["Responses"].Pats = []Pat{{GenKey: statusKey, Re: statusRe, T: orRef30("Response", "responses"), Prob: 0.5, Min: 1}}
	n["Responses"].Check = func(m map[string]interface{}) error {
		if len(m) == 0 {
			return fmt.Errorf("no responses")
		}

		return nil
	}
	n["Paths"] = obj("Paths")
	n["Paths"].Pats = []Pat{{GenKey: pathKey, Re: regexp.MustCompile(`^/`), T: named("PathItem"), Prob: 0.7}}

	is := func(t string) func(v interface{}) bool {
		return func(v interface{}) bool {
			m, ok := v.(map[string]interface{})

			return ok && m["type"] == t && !HasRef(v)
		}
	}
	n["APIKey"] = obj("APIKey", req("type", enum("apiKey")), req("name", str), req("in", enum("header", "query", "cookie")), opt("description", str))
	n["HTTP"] = obj("HTTP", req("scheme", str), opt("bearerFormat", str), opt("description", str), req("type", enum("http")))
	n["HTTP"].Fix = func(g *Gen, m map[string]interface{}) {
		if _, ok := m["bearerFormat"]; ok || g.P(0.3) {
			m["scheme"] = g.Pick("bearer", "bearer", "Bearer", "BEARER")
		} else if g.P(0.6) {
			m["scheme"] = g.Pick("basic", "digest", "hoba", "mutual", "negotiate")
		}
	}
	n["HTTP"].Check = func(m map[string]interface{}) error {
		if s, _ := m["scheme"].(string); m["bearerFormat"] != nil && !strings.EqualFold(s, "bearer") {
			return fmt.Errorf("bearerFormat without bearer")
		}

		return nil
	}
	n["OAuth2"] = obj("OAuth2", req("type", enum("oauth2")), req("flows", named("OAuthFlows")), opt("description", str))
	n["OpenID"] = obj("OpenID", req("type", enum("openIdConnect")), req("openIdConnectUrl", str), opt("description", str))
	n["SecurityScheme"] = &Node{Kind: KAlt, Name: "SecurityScheme", Alts: []Alt{
		{T: named("APIKey"), Is: is("apiKey"), W: 1}, {T: named("HTTP"), Is: is("http"), W: 2}, {T: named("OAuth2"), Is: is("oauth2"), W: 2}, {T: named("OpenID"), Is: is("openIdConnect"), W: 1},
	}}
	n["OAuthFlows"] = obj("OAuthFlows", opt("implicit", named("ImplicitFlow")), opt("password", named("PasswordFlow")), opt("clientCredentials", named("ClientFlow")), opt("authorizationCode", named("CodeFlow")))
	n["ImplicitFlow"] = obj("ImplicitFlow", req("authorizationUrl", str), opt("refreshUrl", str), req("scopes", mapOf(str)))
	n["PasswordFlow"] = obj("PasswordFlow", req("tokenUrl", str), opt("refreshUrl", str), opt("scopes", mapOf(str)))
	n["ClientFlow"] = obj("ClientFlow", req("tokenUrl", str), opt("refreshUrl", str), opt("scopes", mapOf(str)))
	n["CodeFlow"] = obj("CodeFlow", req("authorizationUrl", str), req("tokenUrl", str), opt("refreshUrl", str), opt("scopes", mapOf(str)))

	n["Components"] = obj("Components",
		opt("schemas", compMap(sor)), opt("responses", compMap(orRef30("Response", "responses"))), opt("parameters", compMap(orRef30("Parameter", "parameters"))),
		opt("examples", compMap(orRef30("Example", "examples"))), opt("requestBodies", compMap(orRef30("RequestBody", "requestBodies"))), opt("headers", compMap(orRef30("Header", "headers"))),
		opt("securitySchemes", compMap(orRef30("SecurityScheme", "securitySchemes"))), opt("links", compMap(orRef30("Link", "links"))), opt("callbacks", compMap(orRef30("Callback", "callbacks"))))

	gr.Root = obj("Document", req("openapi", &Node{Kind: KStr, GenStr: func(g *Gen) string { return g.Pick("3.0.0", "3.0.1", "3.0.2", "3.0.3", "3.0.4-rc1") }, KeyRe: regexp.MustCompile(`^3\.0\.\d(-.+)?$`)}),
		req("info", named("Info")), opt("externalDocs", named("ExternalDocs")), opt("servers", arr(named("Server"))), opt("security", arr(named("SecurityRequirement"))), opt("tags", uarr(named("Tag"))), req("paths", named("Paths")), opt("components", named("Components")))

	return gr
}
