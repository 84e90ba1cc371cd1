package oas

import (
	"fmt"
	"regexp"
	"sort"
)

func sortStrings(s []string) { sort.Strings(s) }

func ref31(kind string) *Node {
	return &Node{Kind: KObj, Name: "Reference31", Fields: []Field{
		{"$ref", &Node{Kind: KStr, GenStr: func(g *Gen) string {
			if g.P(0.75) {
				return "#/components/" + kind + "/" + compKey(g)
			}

			return g.Pick("other.json", "https://example.com/a.json#/b/c", "./x.yaml#/d", "")
		}}, true},
		{"summary", str, false}, {"description", str, false},
	}}
}

func orRef31(name, kind string) *Node {
	return &Node{Kind: KAlt, Name: name + "OrRef", Alts: []Alt{
		{T: ref31(kind), Is: HasRef, W: 1, Name: name + ".ref"},
		{T: named(name), Is: notRef, W: 3},
	}}
}

func obj31(name string, fields ...Field) *Node {
	return &Node{Kind: KObj, Name: name, Fields: fields, Ext: true}
}

// Schema31 node.
var schema31 = &Node{Kind: KSchema31, Name: "Schema31"}

// V31 is the grammar of OpenAPI 3.1 documents, restricted to the members that the entity model of openapi31 has
// (members it lacks are known findings of C02).
func V31() *Grammar {
	n := map[string]*Node{}
	gr := &Grammar{Version: "3.1", Named: n}

	n["Schema"] = schema31
	n["Info"] = obj31("Info", req("title", str), opt("summary", str), opt("description", str), opt("termsOfService", str), opt("contact", named("Contact")), opt("license", named("License")), req("version", str))
	n["Contact"] = obj31("Contact", opt("name", str), opt("url", str), opt("email", str))
	n["License"] = obj31("License", req("name", str), opt("identifier", str), opt("url", str))
	n["License"].Fix = func(g *Gen, m map[string]interface{}) { exclusive(g, m, "identifier", "url") }
	n["Server"] = obj31("Server", req("url", str), opt("description", str), opt("variables", mapOf(named("ServerVariable"))))
	n["ServerVariable"] = obj31("ServerVariable", opt("enum", &Node{Kind: KArr, Elem: str, Min: 1}), req("default", str), opt("description", str))
	n["ExternalDocs"] = obj31("ExternalDocs", opt("description", str), req("url", str))
	n["Tag"] = obj31("Tag", req("name", str), opt("description", str), opt("externalDocs", named("ExternalDocs")))
	n["SecurityRequirement"] = mapOf(arr(str))

	exor := func(m map[string]interface{}) error { return notBoth(m, "example", "examples") }
	fexor := func(g *Gen, m map[string]interface{}) { exclusive(g, m, "example", "examples") }

	n["Response"] = obj31("Response", req("description", str), opt("headers", mapOf(orRef31("Header", "headers"))), opt("content", nonEmptyContent(named("MediaType"))), opt("links", mapOf(orRef31("Link", "links"))))
	n["MediaType"] = obj31("MediaType", opt("schema", schema31), opt("example", anyT), opt("examples", mapOf(orRef31("Example", "examples"))), opt("encoding", mapOf(named("Encoding"))))
	n["MediaType"].Fix, n["MediaType"].Check = fexor, exor
	n["Example"] = obj31("Example", opt("summary", str), opt("description", str), opt("value", anyT), opt("externalValue", str))
	n["Example"].Fix = func(g *Gen, m map[string]interface{}) { exclusive(g, m, "value", "externalValue") }
	n["Example"].Check = func(m map[string]interface{}) error { return notBoth(m, "value", "externalValue") }
	n["Header"] = obj31("Header", opt("description", str), opt("required", boolT), opt("deprecated", boolT), opt("explode", boolT), opt("style", enum("simple")), opt("schema", schema31), opt("content", nonEmptyContent(named("MediaType"))), opt("example", anyT), opt("examples", mapOf(orRef31("Example", "examples"))))
	n["Header"].Fix, n["Header"].Check = schemaXorContent, checkSchemaXorContent
	n["Encoding"] = obj31("Encoding", opt("contentType", str), opt("headers", mapOf(orRef31("Header", "headers"))), opt("style", enum("form", "spaceDelimited", "pipeDelimited", "deepObject")), opt("explode", boolT), opt("allowReserved", boolT))
	n["Parameter"] = obj31("Parameter", req("name", str), req("in", enum("path", "query", "header", "cookie")), opt("description", str), opt("required", boolT), opt("deprecated", boolT), opt("allowEmptyValue", boolT), opt("allowReserved", boolT),
		opt("style", str), opt("explode", boolT), opt("schema", schema31), opt("content", nonEmptyContent(named("MediaType"))), opt("example", anyT), opt("examples", mapOf(orRef31("Example", "examples"))))
	n["Parameter"].Fix, n["Parameter"].Check = fixParam, checkParam
	n["RequestBody"] = obj31("RequestBody", opt("description", str), req("content", nonEmptyContent(named("MediaType"))), opt("required", boolT))
	n["Link"] = obj31("Link", opt("operationId", str), opt("operationRef", str), opt("parameters", mapOf(str)), opt("requestBody", anyT), opt("description", str), opt("body", named("Server")), opt("server", named("Server")))
	n["Link"].Fix = func(g *Gen, m map[string]interface{}) {
		exclusive(g, m, "operationId", "operationRef")

		if m["operationId"] == nil && m["operationRef"] == nil {
			m["operationId"] = g.Str()
		}
	}
	n["Callback"] = &Node{Kind: KObj, Name: "Callback", Ext: true, Pats: []Pat{{GenKey: func(g *Gen) string {
		return g.Pick("{$request.body#/url}", "http://x/{$request.query.a}", "cb"+g.Word())
	}, Re: regexp.MustCompile(`.`), T: orRef31("PathItem", "pathItems"), Prob: 0.6}}}

	ops := []Field{opt("summary", str), opt("description", str), opt("servers", arr(named("Server"))), opt("parameters", uarr(orRef31("Parameter", "parameters")))}
	n["PathItem"] = obj31("PathItem", ops...)
	n["PathItem"].Pats = []Pat{methodPat(named("Operation"))}

	// An item of paths may refer to another one beside its own members, anywhere else $ref makes it a reference.
	n["PathItemRef"] = obj31("PathItem", append([]Field{opt("$ref", str)}, ops...)...)
	n["PathItemRef"].Pats = []Pat{methodPat(named("Operation"))}
	n["Operation"] = obj31("Operation", opt("tags", arr(str)), opt("summary", str), opt("description", str), opt("externalDocs", named("ExternalDocs")), opt("operationId", str), opt("parameters", uarr(orRef31("Parameter", "parameters"))),
		opt("requestBody", orRef31("RequestBody", "requestBodies")), opt("responses", named("Responses")), opt("callbacks", mapOf(orRef31("Callback", "callbacks"))), opt("deprecated", boolT), opt("security", arr(named("SecurityRequirement"))), opt("servers", arr(named("Server"))))
	n["Responses"] = obj31("Responses", opt("default", orRef31("Response", "responses")))
	n["Responses"].Pats = []Pat{{GenKey: statusKey, Re: statusRe, T: orRef31("Response", "responses"), Prob: 0.5, Min: 1}}
	n["Responses"].Check = func(m map[string]interface{}) error {
		if len(m) == 0 {
			return fmt.Errorf("no responses")
		}

		return nil
	}
	n["Paths"] = obj31("Paths")
	n["Paths"].Pats = []Pat{{GenKey: pathKey, Re: regexp.MustCompile(`^/`), T: named("PathItemRef"), Prob: 0.7}}

	is := func(t string) func(v interface{}) bool {
		return func(v interface{}) bool {
			m, ok := v.(map[string]interface{})

			return ok && m["type"] == t && !HasRef(v)
		}
	}
	n["APIKey"] = obj31("APIKey", req("type", enum("apiKey")), req("name", str), req("in", enum("header", "query", "cookie")), opt("description", str))
	n["HTTP"] = obj31("HTTP", req("type", enum("http")), req("scheme", str), opt("bearerFormat", str), opt("description", str))
	n["HTTP"].Fix = func(g *Gen, m map[string]interface{}) {
		if _, ok := m["bearerFormat"]; ok || g.P(0.3) {
			m["scheme"] = g.Pick("bearer", "Bearer", "BEARER")
		} else if g.P(0.7) {
			m["scheme"] = g.Pick("basic", "digest", "hoba", "mutual", "negotiate")
		}
	}
	n["OAuth2"] = obj31("OAuth2", req("type", enum("oauth2")), req("flows", named("OAuthFlows")), opt("description", str))
	n["OpenID"] = obj31("OpenID", req("type", enum("openIdConnect")), req("openIdConnectUrl", str), opt("description", str))
	n["MutualTLS"] = obj31("MutualTLS", req("type", enum("mutualTLS")), opt("description", str))
	n["SecurityScheme"] = &Node{Kind: KAlt, Name: "SecurityScheme", Alts: []Alt{
		{T: named("APIKey"), Is: is("apiKey"), W: 1}, {T: named("HTTP"), Is: is("http"), W: 2}, {T: named("OAuth2"), Is: is("oauth2"), W: 2}, {T: named("OpenID"), Is: is("openIdConnect"), W: 1}, {T: named("MutualTLS"), Is: is("mutualTLS"), W: 1},
	}}
	n["OAuthFlows"] = obj31("OAuthFlows", opt("implicit", named("ImplicitFlow")), opt("password", named("PasswordFlow")), opt("clientCredentials", named("ClientFlow")), opt("authorizationCode", named("CodeFlow")))
	n["ImplicitFlow"] = obj31("ImplicitFlow", req("authorizationUrl", str), opt("refreshUrl", str), req("scopes", mapOf(str)))
	n["PasswordFlow"] = obj31("PasswordFlow", req("tokenUrl", str), opt("refreshUrl", str), req("scopes", mapOf(str)))
	n["ClientFlow"] = obj31("ClientFlow", req("tokenUrl", str), opt("refreshUrl", str), req("scopes", mapOf(str)))
	n["CodeFlow"] = obj31("CodeFlow", req("authorizationUrl", str), req("tokenUrl", str), opt("refreshUrl", str), req("scopes", mapOf(str)))

	n["Components"] = obj31("Components",
		opt("schemas", compMap(schema31)), opt("responses", compMap(orRef31("Response", "responses"))), opt("parameters", compMap(orRef31("Parameter", "parameters"))),
		opt("examples", compMap(orRef31("Example", "examples"))), opt("requestBodies", compMap(orRef31("RequestBody", "requestBodies"))), opt("headers", compMap(orRef31("Header", "headers"))),
		opt("securitySchemes", compMap(orRef31("SecurityScheme", "securitySchemes"))), opt("links", compMap(orRef31("Link", "links"))), opt("callbacks", compMap(orRef31("Callback", "callbacks"))), opt("pathItems", compMap(orRef31("PathItem", "pathItems"))))

	gr.Root = obj31("Document", req("openapi", &Node{Kind: KStr, GenStr: func(g *Gen) string { return g.Pick("3.1.0", "3.1.1", "3.1.10", "3.1.0-rc1") }, KeyRe: regexp.MustCompile(`^3\.1\.\d+(-.+)?$`)}),
		req("info", named("Info")), opt("jsonSchemaDialect", str), opt("externalDocs", named("ExternalDocs")), opt("servers", arr(named("Server"))), opt("security", arr(named("SecurityRequirement"))), opt("tags", arr(named("Tag"))),
		opt("paths", named("Paths")), opt("webhooks", mapOf(orRef31("PathItem", "pathItems"))), opt("components", named("Components")))
	gr.Root.Fix = func(g *Gen, m map[string]interface{}) {
		if m["paths"] == nil && m["webhooks"] == nil && m["components"] == nil {
			m["paths"] = map[string]interface{}{}
		}
	}

	return gr
}
