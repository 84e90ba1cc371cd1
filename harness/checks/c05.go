package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"verif/harness/mon"
	"verif/harness/oas"
)

var codecs = codecTypes()

func init() {
	register(&mon.Check{
		ID: "C05", Quick: 40000, Thorough: 600000,
		Rule:  "byte strings fed to the decoder of every entity type of both versions and to the YAML decoder of documents: random parts of valid documents with 0-5 structural mutations (null, wrong type, deleted, duplicated, foreign subtrees, odd keys), then 0-3 byte mutations (flips, cuts, splices), plus deep nesting; monitors: no panic, and what is accepted encodes to duplicate-free JSON that decodes again and is stable; distinct non-trivial = distinct accepted inputs",
		Case:  hostileBytes,
		Fixed: hostileDirected,
		Need:  map[string]int{"accepted": 2000, "refused": 2000, "entity types accepted": 80, "accepted YAML": 20, "refused YAML": 200},
	})
}

// pool of valid values by grammar node name.
func entityValue(r *rand.Rand, t reflect.Type) interface{} {
	version := "3.1"
	if isVersion30(t) {
		version = "3.0"
	}

	gr := grammar(version)
	g := &oas.Gen{R: r, Gr: gr, Cov: map[string]int{}, Density: 0.1 + r.Float64()*0.6, Budget: 40 + r.Intn(60)}

	if t.Name() == "Spec" {
		return g.Gen(gr.Root)
	}

	name := strings.TrimSuffix(strings.TrimSuffix(t.Name(), "OrReference"), "OrRef")

	switch name {
	case "ExternalDocumentation":
		name = "ExternalDocs"
	case "APIKeySecurityScheme", "HTTPSecurityScheme", "OAuth2SecurityScheme", "OpenIDConnectSecurityScheme", "SecuritySchemeAPIKey", "SecuritySchemeHTTP", "SecuritySchemeHTTPBearer", "SecuritySchemeMutualTLS", "SecuritySchemeOauth2", "SecuritySchemeOidc":
		name = "SecurityScheme"
	}

	if n, ok := gr.Named[name]; ok && r.Intn(6) != 0 {
		return g.Gen(n)
	}

	if strings.Contains(name, "Reference") && r.Intn(2) == 0 {
		m := map[string]interface{}{"$ref": "#/components/schemas/" + g.Word()}
		if r.Intn(3) == 0 {
			m["description"] = g.Str()
		}

		return m
	}

	// A random part of a document.
	var parts []interface{}

	var walk func(v interface{})

	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			parts = append(parts, v)

			for _, k := range sortedKeys(x) {
				walk(x[k])
			}
		case []interface{}:
			for _, e := range x {
				walk(e)
			}
		}
	}

	walk(g.Gen(gr.Root))

	return parts[r.Intn(len(parts))]
}

func sortedKeys(m map[string]interface{}) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	sortStrs(ks)

	return ks
}

var oddKeys = []string{"x-", "x", "X-A", "$ref", "", "200", "20", "2XX", "default", "get", "GET", "in", "type", "scheme", "enum", "schema", "content", "name", "example", "examples", "nullable", "allOf", "properties", "additionalProperties", "security", "/", "/a", "{$x}", "\u0000", "description", "flows", "style", "required", "parameters", "openapi", "info", "paths", "value"}

// mutateValue changes one random place.
func mutateValue(r *rand.Rand, v interface{}, donor func() interface{}) interface{} {
	type place struct {
		set func(interface{})
		del func()
		add func(string, interface{})
		cur interface{}
	}

	root := v
	places := []place{{set: func(n interface{}) { root = n }, cur: v}}

	var walk func(v interface{})

	walk = func(v interface{}) {
		switch x := v.(type) {
		case map[string]interface{}:
			for _, k := range sortedKeys(x) {
				k := k
				places = append(places, place{
					set: func(n interface{}) { x[k] = n }, del: func() { delete(x, k) },
					add: func(nk string, n interface{}) { x[nk] = n }, cur: x[k],
				})
				walk(x[k])
			}
		case []interface{}:
			for i := range x {
				i := i
				places = append(places, place{set: func(n interface{}) { x[i] = n }, cur: x[i]})
				walk(x[i])
			}
		}
	}

	walk(v)

	p := places[r.Intn(len(places))]
	if len(places) > 1 && r.Intn(10) > 0 {
		p = places[1+r.Intn(len(places)-1)]
	}

	switch r.Intn(8) {
	case 0:
		p.set(nil)
	case 1:
		p.set([]interface{}{true, "", json.Number("0"), []interface{}{}, map[string]interface{}{}, json.Number("-1"), json.Number("1e999"), "x", json.Number("1.5"), []interface{}{nil}, map[string]interface{}{"": nil}}[r.Intn(11)])
	case 2:
		if p.del != nil {
			p.del()
		}
	case 3:
		if p.add != nil {
			p.add(oddKeys[r.Intn(len(oddKeys))], []interface{}{nil, true, "a", map[string]interface{}{}, []interface{}{}, json.Number("3"), oas.Clone(p.cur)}[r.Intn(7)])
		}
	case 4:
		p.set(oas.Clone(donor()))
	case 5:
		p.set([]interface{}{p.cur})
	case 6:
		p.set(map[string]interface{}{oddKeys[r.Intn(len(oddKeys))]: p.cur})
	case 7:
		if m, ok := p.cur.(map[string]interface{}); ok {
			for k, e := range m {
				p.set(e)
				_ = k

				break
			}
		}
	}

	return root
}

func mutateBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return []byte{byte(r.Intn(256))}
	}

	i := r.Intn(len(b))

	switch r.Intn(8) {
	case 0:
		b[i] ^= 1 << uint(r.Intn(8))
	case 1:
		return b[:i]
	case 2:
		return b[i:]
	case 3:
		j := i + r.Intn(len(b)-i)

		return append(b[:i:i], b[j:]...)
	case 4:
		j := i + r.Intn(len(b)-i)

		return append(append(append([]byte(nil), b[:j]...), b[i:j]...), b[j:]...)
	case 5:
		tok := []string{"null", "{}", "[]", "\"\"", "{", "}", "[", "]", ",", ":", "\\", "\"", "-", "1e400", "0", "\xff", "\x00", "true", "{\"$ref\":\"\"}"}[r.Intn(19)]

		return append(append(append([]byte(nil), b[:i]...), tok...), b[i:]...)
	case 6:
		b[i] = byte(r.Intn(256))
	case 7:
		// Repeat a member.
		k := bytes.IndexByte(b, '{')
		if k >= 0 {
			ins := fmt.Sprintf("%q:%s,", oddKeys[r.Intn(len(oddKeys))], []string{"null", "1", "\"a\"", "{}", "[]"}[r.Intn(5)])

			return append(append(append([]byte(nil), b[:k+1]...), ins...), b[k+1:]...)
		}
	}

	return b
}

func hostileBytes(c *mon.Ctx) {
	t := codecs[c.Idx%len(codecs)]

	v := oas.Clone(entityValue(c.R, t))
	donor := func() interface{} { return entityValue(c.R, codecs[c.R.Intn(len(codecs))]) }

	for n := []int{0, 0, 1, 1, 1, 2, 3, 5}[c.R.Intn(8)]; n > 0; n-- {
		v = mutateValue(c.R, v, donor)
	}

	text := oas.Encode(v, c.R)

	for n := []int{0, 0, 0, 0, 1, 1, 2, 3}[c.R.Intn(8)]; n > 0; n-- {
		text = mutateBytes(c.R, text)
	}

	decodeHostile(c, t, text)

	if t.Name() == "Spec" || c.Idx%5 == 0 {
		for _, version := range []string{"3.0", "3.1"} {
			hostileYAML(c, version, v)
		}
	}
}

func hostileYAML(c *mon.Ctx, version string, v interface{}) {
	if c.R.Intn(2) == 0 {
		v = oas.Clone(genDoc(c.R, version, c.Idx, map[string]int{}, c.R.Intn(2) == 0))
		for n := c.R.Intn(3); n > 0; n-- {
			v = mutateValue(c.R, v, func() interface{} { return nil })
		}
	}

	text, err := oas.EncodeYAML(v, c.R)
	if err != nil {
		text = oas.Encode(v, c.R)
	}

	for n := []int{0, 0, 1, 1, 2, 4}[c.R.Intn(6)]; n > 0; n-- {
		if c.R.Intn(2) == 0 {
			text = mutateBytes(c.R, text)
		} else {
			tok := []string{"? ", "- ", ": ", "&a ", "*a", "!!int ", "!!binary ", "!!map ", "<<: *a\n", "<<: [*a]\n", "---\n", "...\n", "1: 2\n", "true: 1\n", "null: 1\n", "~: 1\n", "[1]: 1\n", "{a: b}: 1\n", "\t", "200: {}\n", "1.5: a\n", "2020-01-01: x\n", "!!timestamp 2020-01-01", ".inf", ".nan", "0x10", "%YAML 1.1\n"}
			i := c.R.Intn(len(text) + 1)
			text = append(append(append([]byte(nil), text[:i]...), tok[c.R.Intn(len(tok))]...), text[i:]...)
		}
	}

	decodeHostileYAML(c, version, text)
}

func decodeHostileYAML(c *mon.Ctx, version string, text []byte) {
	c.Guard("YAML decoding", string(text), func() {
		s := newSpec(version)
		if err := s.UnmarshalYAML(text); err != nil {
			c.Eval("", false)
			c.Count("refused YAML", 1)

			return
		}

		c.Eval("yaml"+string(text), true)
		c.Count("accepted YAML", 1)

		b1, err := s.MarshalJSON()
		if err != nil {
			c.Violate("accepted YAML document does not encode: "+err.Error(), string(text))

			return
		}

		stable(c, reflect.TypeOf(s).Elem(), text, b1)

		y1, err := s.MarshalYAML()
		if err != nil {
			c.Violate("accepted YAML document does not encode to YAML: "+err.Error(), string(text))

			return
		}

		if v, _, err := oas.Parse(b1); err == nil && oas.HasMergeKey(v) {
			c.Count("skipped merge key", 1)

			return // Known finding of C04.
		}

		s2 := newSpec(version)
		if err := s2.UnmarshalYAML(y1); err != nil {
			c.Violate("own YAML of an accepted document refused: "+err.Error(), map[string]string{"in": string(text), "yaml": string(y1)})
		}
	})
}

func decodeHostile(c *mon.Ctx, t reflect.Type, text []byte) {
	c.Guard("decoding "+t.String(), string(text), func() {
		e := reflect.New(t).Interface().(codec)

		if err := json.Unmarshal(text, e); err != nil {
			// The decoder itself too: json.Unmarshal refuses invalid JSON before.
			if e2 := reflect.New(t).Interface().(codec); e2.UnmarshalJSON(text) == nil && !json.Valid(text) && t.Name() == "Spec" {
				c.Violate("invalid JSON accepted by "+t.String(), string(text))
			}

			c.Eval("", false)
			c.Count("refused", 1)

			return
		}

		c.Eval(t.String()+string(text), true)
		c.Count("accepted", 1)
		c.Count("accepted "+t.String(), 1)

		b1, err := e.MarshalJSON()
		if err != nil {
			c.Violate(t.String()+": accepted input does not encode: "+err.Error(), string(text))

			return
		}

		stable(c, t, text, b1)

		if c.WantSample() && len(text) > 100 {
			c.Sample(map[string]string{"type": t.String(), "input": trim(string(text), 300)})
		}
	})
}

// stable checks that an encoding is well-formed, decodes again and reaches a fixed point.
func stable(c *mon.Ctx, t reflect.Type, text, b1 []byte) {
	_, dups, err := oas.Parse(b1)
	if err != nil || len(dups) > 0 {
		c.Violate(fmt.Sprintf("%s: bad encoding %v %v", t, err, dups), map[string]string{"in": string(text), "out": string(b1)})

		return
	}

	e2 := reflect.New(t).Interface().(codec)
	if err := e2.UnmarshalJSON(b1); err != nil {
		c.Violate(t.String()+": own encoding refused: "+err.Error(), map[string]string{"in": string(text), "out": string(b1)})

		return
	}

	b2, err := e2.MarshalJSON()
	if err != nil {
		c.Violate(t.String()+": own encoding does not encode again: "+err.Error(), map[string]string{"in": string(text), "out": string(b1)})

		return
	}

	e3 := reflect.New(t).Interface().(codec)
	if err := e3.UnmarshalJSON(b2); err != nil {
		c.Violate(t.String()+": second encoding refused: "+err.Error(), map[string]string{"in": string(text), "out": string(b2)})

		return
	}

	if b3, err := e3.MarshalJSON(); err != nil || !bytes.Equal(b3, b2) {
		c.Violate(t.String()+": encoding is not stable", map[string]string{"in": string(text), "second": string(b2), "third": string(b3)})
	}
}

func hostileDirected(c *mon.Ctx) {
	deep := func(open, close, in string, n int) string {
		return strings.Repeat(open, n) + in + strings.Repeat(close, n)
	}

	texts := []string{
		"", " ", "null", "true", "0", "\"\"", "[]", "{}", "[null]", "{\"\":null}", "{\"$ref\":\"\"}", "{\"$ref\":null}", "{\"$ref\":1}", "{\"x-\":null}", "{\"x-a\":1}",
		"\xff", "{\"a\xff\":1}", "{\"\\ud800\":1}", "nul", "{", "[", "\"", "{\"a\":1,}", "{} {}", "1e999", "\ufeff{}",
		deep("[", "]", "", 9000), deep("{\"x-a\":", "}", "1", 9000), deep("{\"not\":", "}", "{}", 900), deep("{\"schema\":", "}", "{}", 900), deep("{\"properties\":{\"a\":", "}}", "{}", 700),
		deep("[", "", "", 100000), deep("{\"a\":", "", "", 100000),
	}

	for _, key := range oddKeys {
		for _, val := range []string{"null", "{}", "[]", "\"\"", "1", "true"} {
			texts = append(texts, "{"+strconv.Quote(key)+":"+val+"}")
		}
	}

	acc := map[reflect.Type]bool{}

	for i, t := range codecs {
		for j, text := range texts {
			// The large texts take turns in the quick tier.
			if len(text) > 1000 && c.Tier == "quick" && (i+j)%8 != 0 && t.Name() != "Spec" && t.Name() != "Schema" {
				continue
			}

			decodeHostile(c, t, []byte(text))
		}

		for i := 0; i < 12 && !acc[t]; i++ {
			text := oas.Encode(entityValue(c.R, t), nil)
			if json.Unmarshal(text, reflect.New(t).Interface()) == nil {
				acc[t] = true
			}
		}
	}

	c.Count("entity types", len(codecs))
	c.Count("entity types accepted", len(acc))

	for _, version := range []string{"3.0", "3.1"} {
		head := "openapi: \"" + version + ".0\"\ninfo: {title: a, version: b}\npaths: {}\n"
		for _, text := range append(texts, "a: &a [*a]", "&a {a: *a}", head+"x-a: &a [1]\nx-b: *a", head+"1: a", head+"x-a: {1: a, true: b, null: c, 1.5: d, [1]: e}", head+"x-a: {? {a: b} : c}",
			head+"x-a: .nan", head+"x-a: .inf", head+"x-a: !!binary aGVsbG8=", head+"x-a: 2020-01-01", head+"x-a: !!timestamp 2020-01-01", head+"<<: {x-b: 1}", head+"? [a]\n: b", head+"x-a: {1: a, \"1\": b}",
			head+"x-a: !!set {a, b}", head+"x-a: !!omap [a: 1]", head+"x-a: !foo bar", "--- {}\n--- {}", strings.Repeat("[", 5000), strings.Repeat("- ", 5000), head+"x-a: "+deep("[", "]", "", 2000),
			"a: &a [1,1,1,1,1,1,1,1,1]\nb: &b [*a,*a,*a,*a,*a,*a,*a,*a,*a]\nc: &c [*b,*b,*b,*b,*b,*b,*b,*b,*b]\nd: &d [*c,*c,*c,*c,*c,*c,*c,*c,*c]\ne: [*d,*d,*d,*d,*d,*d,*d,*d,*d,*d,*d]",
		) {
			decodeHostileYAML(c, version, []byte(text))
		}
	}
}
