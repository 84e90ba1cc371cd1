package oas

import (
	"bytes"
	"math/rand"
	"regexp"
	"strings"
	"unicode/utf16"
)

var escapedTab = regexp.MustCompile(`([^\\])\\t`)

// YAMLTexts are ways to write the same YAML in another text. Not all of them fit every text.
var YAMLTexts = []struct {
	Name  string
	Apply func(t []byte, r *rand.Rand) []byte
}{
	{"raw tabs", func(t []byte, r *rand.Rand) []byte { return escapedTab.ReplaceAll(t, []byte("$1\t")) }},
	{"raw spaces", func(t []byte, r *rand.Rand) []byte { return bytes.ReplaceAll(t, []byte(`\_`), []byte("\u00a0")) }},
	{"document start", func(t []byte, r *rand.Rand) []byte {
		return append([]byte([]string{"---\n", "%YAML 1.1\n---\n", "# comment\n---\n", "--- # comment\n", "\n\n", "# tab:\t\n"}[r.Intn(6)]), t...)
	}},
	{"document end", func(t []byte, r *rand.Rand) []byte {
		return append(append([]byte{}, t...), []string{"...\n", "\n\n", "# comment", "   \n", "...\n# comment\n"}[r.Intn(5)]...)
	}},
	{"CRLF", func(t []byte, r *rand.Rand) []byte { return bytes.ReplaceAll(t, []byte("\n"), []byte("\r\n")) }},
	{"CR", func(t []byte, r *rand.Rand) []byte { return bytes.ReplaceAll(t, []byte("\n"), []byte("\r")) }},
	{"byte order mark", func(t []byte, r *rand.Rand) []byte { return append([]byte("\ufeff"), t...) }},
	{"UTF-16", func(t []byte, r *rand.Rand) []byte {
		big := r.Intn(2) == 0
		res := []byte{}

		for _, u := range utf16.Encode([]rune("\ufeff" + string(t))) {
			if big {
				res = append(res, byte(u>>8), byte(u))
			} else {
				res = append(res, byte(u), byte(u>>8))
			}
		}

		return res
	}},
	{"indented", func(t []byte, r *rand.Rand) []byte {
		in := strings.Repeat(" ", 1+r.Intn(5))

		return []byte(in + strings.ReplaceAll(strings.TrimSuffix(string(t), "\n"), "\n", "\n"+in) + "\n")
	}},
	{"no line end", func(t []byte, r *rand.Rand) []byte { return bytes.TrimSuffix(t, []byte("\n")) }},
	{"comments", func(t []byte, r *rand.Rand) []byte {
		ls := strings.Split(string(t), "\n")
		for i, l := range ls {
			// Lines that end with a plain word or open a collection.
			if len(l) > 1 && l[len(l)-1] == ':' && !strings.ContainsAny(l, `'"`) && r.Intn(3) == 0 {
				ls[i] += " # a: 'comment"
			}
		}

		return []byte(strings.Join(ls, "\n"))
	}},
}
