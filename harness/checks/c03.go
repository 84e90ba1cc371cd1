package checks

import (
	"strings"

	"verif/harness/mon"
	"verif/harness/oas"
)

func init() {
	register(&mon.Check{
		ID: "C03", Quick: 12000, Thorough: 120000,
		Rule: "single-place corruptions (required member removed, unknown member added, enumeration value replaced, wrong JSON type) of grammar-generated valid documents of both versions, up to 14 per document, decoded from JSON and YAML text; the monitor requires an error; distinct non-trivial = distinct (corruption kind, type and member, value) combinations",
		Case: func(c *mon.Ctx) {
			version := "3.0"
			if c.Idx%3 == 2 {
				version = "3.1"
			}

			rejects(c, version)
		},
		Need: map[string]int{"refused required": 500, "refused unknown": 500, "refused enum": 50, "refused type": 2000, "refused from YAML": 500},
	})
}

func rejects(c *mon.Ctx, version string) {
	cov := map[string]int{}
	doc := genDoc(c.R, version, c.Idx/3, cov, true)
	gr := grammar(version)
	ms := gr.Mutations(gr.Root, doc, version == "3.0")

	// One corruption of every class is picked by turns so that rare classes are not crowded out.
	byClass := map[string][]oas.Mutation{}
	byWhat := map[string][][]oas.Mutation{}
	index := map[string]int{}
	kind := func(m oas.Mutation) string { return strings.SplitN(m.What, " :=", 2)[0] }

	for _, m := range ms {
		byClass[m.Class] = append(byClass[m.Class], m)

		i, ok := index[m.Class+kind(m)]
		if !ok {
			i = len(byWhat[m.Class])
			index[m.Class+kind(m)] = i
			byWhat[m.Class] = append(byWhat[m.Class], nil)
		}

		byWhat[m.Class][i] = append(byWhat[m.Class][i], m)
	}

	for i := 0; i < 14; i++ {
		cl := []string{"required", "unknown", "enum", "type"}[i%4]
		if len(byClass[cl]) == 0 {
			continue
		}

		m := byClass[cl][c.R.Intn(len(byClass[cl]))]

		if i >= 4 {
			// Rare members are not crowded out either.
			same := byWhat[cl][c.R.Intn(len(byWhat[cl]))]
			m = same[c.R.Intn(len(same))]
		}

		m.Apply()
		text := oas.Encode(doc, c.R)
		m.Undo()

		c.Eval(version+m.What, true)

		s := newSpec(version)
		err := s.UnmarshalJSON(text)

		if err == nil {
			out, _ := s.MarshalJSON()
			c.Violate("invalid "+version+" document accepted: "+m.What+" at "+m.Path, map[string]string{"in": string(text), "decoded": string(out)})

			continue
		}

		c.Count("refused "+m.Class, 1)
		c.Count("refused "+version+" "+m.Class+" "+strings.SplitN(m.What, " :=", 2)[0], 1)

		if i%3 == 0 {
			// JSON text is YAML text too.
			if err := newSpec(version).UnmarshalYAML(text); err == nil {
				c.Violate("invalid "+version+" document accepted from YAML: "+m.What+" at "+m.Path, map[string]string{"in": string(text)})
			}

			c.Count("refused from YAML", 1)
		}

		if c.WantSample() {
			c.Sample(map[string]string{"corruption": m.What, "at": m.Path, "error": trim(err.Error(), 200)})
		}
	}
}
