// Command gencorpus writes the request and response types of the corpus.
package main

import (
	"bytes"
	"fmt"
	"go/format"
	"math/rand"
	"os"
	"strings"

	"verif/harness/corpus/desc"
)

func main() {
	g := &desc.Gen{R: rand.New(rand.NewSource(5))}

	var body bytes.Buffer

	var reqs, resps []string

	names := [][]string{nil, nil, {"id"}, {"id", "name"}}

	for i := 1; i <= 100; i++ {
		s := g.Request(desc.Kinds[i%len(desc.Kinds)], names[g.R.Intn(len(names))], true)
		s.Name = fmt.Sprintf("R%d", i)
		reqs = append(reqs, s.Name+"{}")
		body.WriteString(s.Source())
	}

	for i := 1; i <= 20; i++ {
		t := desc.JSONTypes[g.R.Intn(len(desc.JSONTypes))]
		s := desc.Struct{Name: fmt.Sprintf("L%d", i), Whole: []string{"[]", "[]*", "map[string]", "map[string][]"}[g.R.Intn(4)] + t.Src}
		reqs = append(reqs, s.Name+"{}")
		resps = append(resps, s.Name+"{}")
		body.WriteString(s.Source())
	}

	for i := 1; i <= 80; i++ {
		s := g.Response(true)
		s.Name = fmt.Sprintf("S%d", i)
		resps = append(resps, s.Name+"{}")
		body.WriteString(s.Source())
	}

	fmt.Fprintf(&body, "// Requests are samples.\nvar Requests = []interface{}{%s}\n\n// Responses are samples.\nvar Responses = []interface{}{%s}\n", strings.Join(reqs, ","), strings.Join(resps, ","))

	head := "// Package api has generated requests and responses.\n//\n// Code generated by cmd/gencorpus. DO NOT EDIT.\npackage api\n\nimport (\n"
	src := body.String()

	for _, im := range [][2]string{{"json.", `"encoding/json"`}, {"multipart.", `"mime/multipart"`}, {"time.", `"time"`}, {"", ""}, {"adto.", `adto "verif/harness/corpus/a/dto"`}, {"bdto.", `bdto "verif/harness/corpus/b/dto"`}, {"special.", `"verif/harness/corpus/special"`}} {
		if strings.Contains(src, im[0]) {
			head += "\t" + im[1] + "\n"
		}
	}

	out, err := format.Source([]byte(head + ")\n\n" + src))
	if err != nil {
		fmt.Println(head + src)
		panic(err)
	}

	if err := os.WriteFile(os.Args[1], out, 0o644); err != nil {
		panic(err)
	}
}
