package checks

import (
	"bytes"

	"verif/harness/mon"
	"verif/harness/oas"
)

func init() {
	register(&mon.Check{
		ID: "C01", Quick: 20000, Thorough: 250000,
		Rule:  "valid OpenAPI 3.0 documents drawn from a grammar of the format (each case forces one of its members), encoded with random member order and escapes; the monitor compares the decoded input with the re-encoded output value by value; distinct non-trivial = distinct documents of more than 400 bytes",
		Case:  func(c *mon.Ctx) { roundTrip(c, "3.0") },
		Fixed: func(c *mon.Ctx) { lossyDocs(c, "3.0", lossy30) },
	})
	register(&mon.Check{
		ID: "C02", Quick: 20000, Thorough: 250000,
		Rule:  "valid OpenAPI 3.1 documents within the entity model drawn from a grammar (each case forces one of its members), free-form schemas included; the monitor compares input and re-encoded output value by value; distinct non-trivial = distinct documents of more than 400 bytes",
		Case:  func(c *mon.Ctx) { roundTrip(c, "3.1") },
		Fixed: func(c *mon.Ctx) { lossyDocs(c, "3.1", lossy31) },
	})
}

func roundTrip(c *mon.Ctx, version string) {
	cov := map[string]int{}
	doc := genDoc(c.R, version, c.Idx, cov, false)
	text := oas.Encode(doc, c.R)

	in, dups, err := oas.Parse(text)
	if err != nil || len(dups) > 0 {
		panic("harness made bad JSON")
	}

	c.Eval(oas.Canon(in), len(text) > 400)

	s := newSpec(version)
	if err := s.UnmarshalJSON(text); err != nil {
		c.Violate("valid document refused: "+err.Error(), string(text))

		return
	}

	out, err := s.MarshalJSON()
	if err != nil {
		c.Violate("decoded document does not encode: "+err.Error(), string(text))

		return
	}

	got, dups, err := oas.Parse(out)
	if err != nil {
		c.Violate("encoder made invalid JSON: "+err.Error(), string(out))

		return
	}

	if len(dups) > 0 {
		c.Violate("duplicate members in output: "+dups[0], map[string]string{"in": string(text), "out": string(out)})
	}

	gr := grammar(version)
	if d := oas.Diff(gr.Reconcile(gr.Root, in, got)); d != "" {
		c.Violate("round trip changed "+d, map[string]string{"in": string(text), "out": string(out)})

		return
	}

	s2 := newSpec(version)
	if err := s2.UnmarshalJSON(out); err != nil {
		c.Violate("own output refused: "+err.Error(), string(out))

		return
	}

	out2, err := s2.MarshalJSON()
	if err != nil {
		c.Violate("own output does not encode: "+err.Error(), string(out))

		return
	}

	if got2, _, err := oas.Parse(out2); err != nil || oas.Diff(got, got2) != "" {
		c.Violate("second round trip changed "+oas.Diff(got, got2), map[string]string{"first": string(out), "second": string(out2)})

		return
	}

	s3 := newSpec(version)
	if err := s3.UnmarshalJSON(out2); err != nil {
		c.Violate("own output refused: "+err.Error(), string(out2))

		return
	}

	if out3, err := s3.MarshalJSON(); err != nil || !bytes.Equal(out3, out2) {
		c.Violate("encoding is not a fixed point", map[string]string{"second": string(out2), "third": string(out3)})

		return
	}

	countCov(c, "seen ", cov)
	c.Count("documents_round_tripped", 1)
	c.Count("bytes_compared", len(out))

	if c.WantSample() {
		c.Sample(map[string]string{"document": trim(string(text), 300)})
	}
}

// lossyDocs runs directed documents that are not in reach of the grammar.
func lossyDocs(c *mon.Ctx, version string, docs map[string]string) {
	for key, text := range docs {
		in, _, err := oas.Parse([]byte(text))
		if err != nil {
			panic(key + ": " + err.Error())
		}

		what := ""
		s := newSpec(version)

		if err := s.UnmarshalJSON([]byte(text)); err != nil {
			what = "refused: " + err.Error()
		} else if out, err := s.MarshalJSON(); err != nil {
			what = "does not encode: " + err.Error()
		} else if got, dups, err := oas.Parse(out); err != nil || len(dups) > 0 {
			what = "bad output " + string(out)
		} else {
			what = oas.Diff(in, got)
		}

		c.Eval(text, true)
		c.Count("directed_documents", 1)
		c.Known(key, what != "", what, text)
	}
}

const head31 = `{"openapi":"3.1.0","info":{"title":"a","version":"b"},`

var lossy31 = map[string]string{
	"parameter-allowEmptyValue": head31 + `"components":{"parameters":{"A":{"name":"a","in":"query","allowEmptyValue":true,"schema":{}}}}}`,
	"parameter-allowReserved":   head31 + `"components":{"parameters":{"A":{"name":"a","in":"query","allowReserved":true,"schema":{}}}}}`,
	"link-server":               head31 + `"components":{"links":{"A":{"operationId":"x","server":{"url":"/"}}}}}`,
	"link-parameters-any":       head31 + `"components":{"links":{"A":{"operationId":"x","parameters":{"n":1}}}}}`,
	"encoding-extension":        head31 + `"components":{"requestBodies":{"A":{"content":{"multipart/form-data":{"encoding":{"a":{"x-a":1}}}}}}}}`,
	"components-extension":      head31 + `"components":{"x-a":1}}`,
	"path-item-ref":             head31 + `"paths":{"/a":{"$ref":"#/components/pathItems/A"}}}`,
	"boolean-schema-component":  head31 + `"components":{"schemas":{"A":true}}}`,
	"boolean-schema-parameter":  head31 + `"components":{"parameters":{"A":{"name":"a","in":"query","schema":true}}}}`,
	"escaped-in":                head31 + `"components":{"securitySchemes":{"A":{"type":"ap\u0069Key","in":"header","name":"a"}}}}`,
	"http-bearer-case":          head31 + `"components":{"securitySchemes":{"A":{"type":"http","scheme":"Bearer","bearerFormat":"JWT"}}}}`,
	"header-style":              head31 + `"components":{"headers":{"A":{"style":"simple","schema":{}}}}}`,
	"param-simple":              head31 + `"components":{"parameters":{"A":{"name":"a","in":"path","required":true,"style":"simple","schema":{}}}}}`,
	"example-value":             head31 + `"components":{"examples":{"A":{"value":null,"summary":"s"}}}}`,
	"response-ref-siblings":     head31 + `"components":{"responses":{"A":{"$ref":"#/components/responses/B","description":"d","summary":"s"}}}}`,
	"empty-operation-security":  head31 + `"paths":{"/a":{"get":{"security":[],"responses":{"200":{"description":""}}}}}}`,
}

const head30 = `{"openapi":"3.0.3","info":{"title":"a","version":"b"},`

var lossy30 = map[string]string{
	"escaped-type":             head30 + `"paths":{},"components":{"securitySchemes":{"A":{"type":"ap\u0069Key","in":"header","name":"a"}}}}`,
	"escaped-in":               head30 + `"paths":{},"components":{"parameters":{"A":{"name":"a","in":"que\u0072y","schema":{}}}}}`,
	"http-bearer-case":         head30 + `"paths":{},"components":{"securitySchemes":{"A":{"type":"http","scheme":"Bearer","bearerFormat":"JWT"}}}}`,
	"empty-operation-security": head30 + `"paths":{"/a":{"get":{"security":[],"responses":{"200":{"description":""}}}}}}`,
	"empty-scopes":             head30 + `"paths":{},"components":{"securitySchemes":{"A":{"type":"oauth2","flows":{"password":{"tokenUrl":"/","scopes":{}}}}}}}`,
	"null-example":             head30 + `"paths":{},"components":{"schemas":{"A":{"example":null,"default":null,"enum":[null]}}}}`,
	"discriminator-extension":  head30 + `"paths":{},"components":{"schemas":{"A":{"discriminator":{"propertyName":"a"}}}}}`,
	"parameter-schema-ref":     head30 + `"paths":{},"components":{"parameters":{"A":{"name":"a","in":"query","schema":{"$ref":"#/components/schemas/A"}}}}}`,
}
