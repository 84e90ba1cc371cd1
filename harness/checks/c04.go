package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"verif/harness/mon"
	"verif/harness/oas"
)

func init() {
	register(&mon.Check{
		ID: "C04", Quick: 8000, Thorough: 90000,
		Rule: "grammar-generated documents of both versions, full of strings that look like other YAML types; the YAML encoding is read by two independent parsers and compared with the JSON encoding value by value and in top-level order, then decoded back; the document is also decoded from YAML written by another emitter in random styles (flow, quoted, literal, anchors); distinct non-trivial = distinct documents of more than 400 bytes",
		Case: func(c *mon.Ctx) {
			version := "3.0"
			if c.Idx%2 == 1 {
				version = "3.1"
			}

			yamlJSON(c, version)
		},
		Fixed: func(c *mon.Ctx) { yamlDirected(c) },
		Need:  map[string]int{"exotic strings seen": 1000, "decoded from foreign YAML": 500, "decoded from own YAML": 500, "big integers seen": 100},
	})
}

func yamlJSON(c *mon.Ctx, version string) {
	cov := map[string]int{}
	doc := genDoc(c.R, version, c.Idx/2, cov, false)

	if oas.HasMergeKey(doc) {
		c.Count("skipped merge key", 1)

		return
	}

	text := oas.Encode(doc, c.R)
	c.Eval(oas.Canon(doc), len(text) > 400)

	s := newSpec(version)
	if err := s.UnmarshalJSON(text); err != nil {
		return // C01 and C02.
	}

	js, err := s.MarshalJSON()
	if err != nil {
		return
	}

	if !compareYAML(c, version, s, js) {
		return
	}

	countCov(c, "", map[string]int{"exotic strings seen": cov["exotic-string"]})

	// YAML by another emitter.
	ft, err := oas.EncodeYAML(doc, c.R)
	if err != nil {
		panic(err)
	}

	// Both parsers have to read it as meant, or it is not fit for the test.
	v2, err2 := oas.ParseYAML2(ft)
	v3, _, err3 := oas.ParseYAML3(ft)

	if err2 != nil || err3 != nil || oas.Diff(doc, v2) != "" || oas.Diff(doc, v3) != "" {
		c.Count("foreign YAML not fit", 1)

		return
	}

	// The same in another text.
	way := "plain"

	if c.R.Intn(3) > 0 {
		w := oas.YAMLTexts[c.R.Intn(len(oas.YAMLTexts))]
		if c.R.Intn(2) == 0 {
			w = oas.YAMLTexts[c.R.Intn(2)]
		}

		t := w.Apply(ft, c.R)

		if bytes.Equal(t, ft) {
			t = nil
		} else if v, err := oas.ParseYAML2(t); err != nil || oas.Diff(doc, v) != "" {
			t = nil
		} else if v, _, err := oas.ParseYAML3(t); err != nil || oas.Diff(doc, v) != "" {
			t = nil
		}

		if t != nil {
			way, ft = w.Name, t
		}
	}

	s3 := newSpec(version)
	if err := s3.UnmarshalYAML(ft); err != nil {
		c.Violate("YAML of a valid document refused: "+err.Error(), string(ft))

		return
	}

	js3, err := s3.MarshalJSON()
	if err != nil || !bytes.Equal(js3, js) {
		c.Violate("decoding YAML gives another document than decoding JSON", map[string]string{"yaml": string(ft), "from_yaml": string(js3), "from_json": string(js)})

		return
	}

	c.Count("decoded from foreign YAML", 1)
	c.Count("foreign YAML: "+way, 1)

	if c.WantSample() {
		c.Sample(map[string]string{"yaml": trim(string(ft), 300)})
	}
}

// digits replaces integers by strings so that Diff compares all digits.
func digits(v interface{}, n *int) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, e := range x {
			m[k] = digits(e, n)
		}

		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, e := range x {
			a[i] = digits(e, n)
		}

		return a
	case json.Number:
		if !strings.ContainsAny(string(x), ".eE") {
			if len(x) > 15 {
				*n++
			}

			return "int " + string(x)
		}
	}

	return v
}

func compareYAML(c *mon.Ctx, version string, s spec, js []byte) bool {
	ym, err := s.MarshalYAML()
	if err != nil {
		c.Violate("document does not encode to YAML: "+err.Error(), string(js))

		return false
	}

	want, _, err := oas.Parse(js)
	if err != nil {
		return false
	}

	got3, keys, err := oas.ParseYAML3(ym)
	if err != nil {
		c.Violate("YAML encoding is not readable: "+err.Error(), string(ym))

		return false
	}

	n := 0
	if d := oas.Diff(digits(want, &n), digits(got3, new(int))); d != "" {
		c.Violate("YAML differs from JSON: "+d, map[string]string{"yaml": string(ym), "json": string(js)})

		return false
	}

	c.Count("big integers seen", n)

	if k := oas.TopKeys(js); fmt.Sprint(k) != fmt.Sprint(keys) {
		c.Violate(fmt.Sprintf("top-level order in YAML %q differs from JSON %q", keys, k), string(js))

		return false
	}

	if got2, err := oas.ParseYAML2(ym); err != nil || oas.Diff(want, got2) != "" {
		c.Violate("YAML read by yaml.v2 differs from JSON: "+oas.Diff(want, got2), map[string]string{"yaml": string(ym), "json": string(js)})

		return false
	}

	s2 := newSpec(version)
	if err := s2.UnmarshalYAML(ym); err != nil {
		c.Violate("own YAML refused: "+err.Error(), string(ym))

		return false
	}

	js2, err := s2.MarshalJSON()
	if err != nil || !bytes.Equal(js2, js) {
		s4 := newSpec(version)
		if err := s4.UnmarshalJSON(js); err != nil {
			return false
		}

		// The first encoding may not be the fixed point yet (see C01).
		js4, _ := s4.MarshalJSON()
		if !bytes.Equal(js2, js4) {
			c.Violate("YAML round trip changed the document", map[string]string{"yaml": string(ym), "from_yaml": string(js2), "from_json": string(js4)})

			return false
		}
	}

	c.Count("decoded from own YAML", 1)

	return true
}

func yamlDirected(c *mon.Ctx) {
	// Extension strings and keys that YAML could take for something else, one at a time.
	for _, version := range []string{"3.0", "3.1"} {
		for _, x := range oas.Exotic() {
			doc := map[string]interface{}{
				"openapi": version + ".0", "info": map[string]interface{}{"title": x, "version": x}, "paths": map[string]interface{}{},
				"x-value": x, "x-list": []interface{}{x, map[string]interface{}{x: x}},
				"x-nums": []interface{}{json.Number("9007199254740991"), json.Number("0.1"), json.Number("1e300"), json.Number("1000000"), json.Number("-1"), json.Number("123456789.5")},
			}

			if x == "<<" {
				continue
			}

			s := newSpec(version)
			if err := s.UnmarshalJSON(oas.Encode(doc, nil)); err != nil {
				continue
			}

			js, err := s.MarshalJSON()
			if err != nil {
				continue
			}

			c.Eval("directed "+version+x, true)
			compareYAML(c, version, s, js)
			c.Count("directed strings", 1)
		}

		s := newSpec(version)
		text := `{"openapi":"` + version + `.0","info":{"title":"a","version":"b"},"paths":{},"x-a":{"<<":{"a":1}}}`

		if err := s.UnmarshalJSON([]byte(text)); err == nil {
			ym, err := s.MarshalYAML()
			s2 := newSpec(version)

			if err == nil {
				err = s2.UnmarshalYAML(ym)
			}

			js, _ := s.MarshalJSON()
			js2, _ := s2.MarshalJSON()
			c.Known("merge-key-"+version, err != nil || !bytes.Equal(js, js2), "member named << is merged into its parent when read from YAML", string(js2))
		}
	}
}
