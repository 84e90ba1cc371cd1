package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"regexp/syntax"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/mon"
)

var httpMethods = []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"}

// pathPattern is a generated pattern with what must become of it.
type pathPattern struct {
	raw, clean string
	params     []string
	regexps    int
	braces     bool
}

func randomCase(r *rand.Rand, s string) string {
	switch r.Intn(4) {
	case 0:
		return s
	case 1:
		return strings.ToUpper(s)
	}

	b := []byte(s)
	for i := range b {
		if r.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}

	return string(b)
}

var (
	litSegs = []string{"a", "users", "v1", "foo-bar", "x_y", "~tilde", "a.b", "%7B", "a:b", ":id", "*", "$1", "$0", "${1}x", "ü", "путь", "a b", "(x)", "[y]", "", "\\d", "@", "a,b;c=d", "'", "\"", "?q=1", "#f", "&", "^x$", "+"}
	phNames = []string{"id", "name", "user_id", "userId", "x-y", "a.b", "ID", "n1", "имя", "id", "*", "a b", "$1", "$", "path", "id2", "i", "d", "?", "[x]"}
	reAtoms = []string{`\d+`, `[0-9]+`, `[a-z]{2}`, `[a-z]{2,}`, `\d{3,5}`, `.*`, `.+`, `[^/]+`, `[[:alpha:]]+`, `(?:a|b)`, `(?P<x>a)`, `a|b`, `\w`, `^x$`, `[a:b]`, `:`, `\.`, `a?`, `/`, `foo/bar`, `$1`, `${1}`, `[a-fA-F0-9]{8}-[a-f0-9]{4}`, `(?i)x`, `\pL`, `\p{Greek}`, `\x{10FFFF}`, `id`, `name`, `x{0}`, ` `, `é`, `"`}
)

var textRunes = []rune("abcxyzABCXYZ0189 \t\n\r/\\|.,:;!?*+-_~@#$%^&()[]<>='\"`{}éüЖ日\u00a0\u2028\u0130ß\U0001F600")

// randomText makes a short text, sometimes a long one, without the characters of but.
func randomText(r *rand.Rand, but string) string {
	var b strings.Builder

	n := 1 + r.Intn(6)
	if r.Intn(30) == 0 {
		n = 300
	}

	for b.Len() < n {
		if c := textRunes[r.Intn(len(textRunes))]; !strings.ContainsRune(but, c) {
			b.WriteRune(c)
		}
	}

	return b.String()
}

func genPattern(r *rand.Rand, uniqueNames bool) pathPattern {
	var (
		p    pathPattern
		raw  strings.Builder
		out  strings.Builder
		used = map[string]bool{}
		prev [2]string
	)

	n := r.Intn(6)
	if r.Intn(20) == 0 {
		n = 40
	}

	for i := 0; i < n; i++ {
		if r.Intn(8) > 0 {
			raw.WriteString("/")
			out.WriteString("/")
		}

		parts := 1 + r.Intn(2)
		for j := 0; j < parts; j++ {
			if r.Intn(3) == 0 {
				s := litSegs[r.Intn(len(litSegs))]
				if r.Intn(4) == 0 {
					s = randomText(r, "{}")
				}

				s = strings.NewReplacer("{", "", "}", "").Replace(s)
				raw.WriteString(s)
				out.WriteString(s)

				continue
			}

			name := phNames[r.Intn(len(phNames))]
			if !uniqueNames && r.Intn(4) == 0 {
				name = randomText(r, "{}:")
			}

			if uniqueNames {
				if used[name] {
					continue
				}
			} else if prev[0] != "" && r.Intn(6) == 0 {
				// The very same placeholder again.
				name = prev[0]
				p.params = append(p.params, name)
				raw.WriteString(prev[1])
				out.WriteString("{" + name + "}")

				continue
			}

			used[name] = true
			re := ""

			if r.Intn(2) == 0 {
				for k := 1 + r.Intn(3); k > 0; k-- {
					re += reAtoms[r.Intn(len(reAtoms))]
				}

				if r.Intn(6) == 0 {
					re = randomText(r, "{}")
				}

				p.regexps++

				if strings.Contains(re, "{") {
					p.braces = true
				}

				re = ":" + re
			}

			p.params = append(p.params, name)
			prev = [2]string{name, "{" + name + re + "}"}
			raw.WriteString(prev[1])
			out.WriteString("{" + name + "}")
		}
	}

	p.raw, p.clean = raw.String(), out.String()

	return p
}

func c11Case(c *mon.Ctx) {
	r := c.R
	p := genPattern(r, false)
	m := httpMethods[r.Intn(len(httpMethods))]
	method := randomCase(r, m)

	c.Eval(method+" "+p.raw, len(p.params) > 0)
	c.Count("placeholders", len(p.params))
	c.Count("regexps", p.regexps)

	if p.braces {
		c.Count("brace_regexps", 1)
	}

	det := map[string]interface{}{"method": method, "pattern": p.raw, "expected": p.clean, "params": p.params}

	if c.WantSample() && p.regexps > 0 {
		c.Sample(det)
	}

	c.Guard("SanitizeMethodPath", det, func() {
		gm, gp, gps, err := openapi.SanitizeMethodPath(method, p.raw)

		switch {
		case err != nil:
			c.Violate("method refused: "+err.Error(), det)
		case gm != m:
			c.Violate("method not in lower case: "+gm, det)
		case gp != p.clean:
			c.Violate("path became "+gp, det)
		case !(len(gps) == 0 && len(p.params) == 0) && !reflect.DeepEqual(gps, p.params):
			c.Violate(fmt.Sprintf("placeholders %q", gps), det)
		}

		gm, gp, gps, err = openapi.SanitizeMethodPath(gm, gp)
		if err != nil || gm != m || gp != p.clean || !(len(gps) == 0 && len(p.params) == 0) && !reflect.DeepEqual(gps, p.params) {
			c.Violate(fmt.Sprintf("sanitizing again changes: %s %s %q %v", gm, gp, gps, err), det)
		}
	})

	// The same through the documents.
	type reg interface {
		NewOperationContext(method, pathPattern string) (openapi.OperationContext, error)
	}

	for _, re := range []reg{openapi3.NewReflector(), openapi31.NewReflector()} {
		oc, err := re.NewOperationContext(method, p.raw)
		if err != nil {
			c.Violate("NewOperationContext: "+err.Error(), det)
		} else if oc.Method() != m || oc.PathPattern() != p.clean {
			c.Violate("operation context of "+oc.Method()+" "+oc.PathPattern(), det)
		}
	}

	c11Setup(c, method, m, p, det)

	// Other methods are refused.
	bad := []string{"", "foo", "gets", "ge", "connect", "GET ", " get", "query", "*", "get\x00", "ſet", "head,get", "PROPFIND", "geт"}[r.Intn(14)]
	if r.Intn(2) == 0 {
		b := []byte(m)
		b[r.Intn(len(b))] = "abcdefghijklmnopqrstuvwxyz-_ "[r.Intn(29)]
		bad = randomCase(r, string(b))

		for _, ok := range httpMethods {
			if strings.EqualFold(ok, bad) {
				bad = "foo"
			}
		}
	}

	c.Guard("SanitizeMethodPath", bad, func() {
		if _, _, _, err := openapi.SanitizeMethodPath(bad, p.raw); err == nil {
			c.Violate("method accepted: "+bad, det)
		}

		for _, re := range []reg{openapi3.NewReflector(), openapi31.NewReflector()} {
			if _, err := re.NewOperationContext(bad, p.raw); err == nil {
				c.Violate("NewOperationContext accepts method "+bad, det)
			}
		}

		if err := (&openapi3.Spec{}).SetupOperation(bad, "/"); err == nil {
			c.Violate("3.0 SetupOperation accepts method "+bad, det)
		}

		if err := (&openapi31.Spec{}).SetupOperation(bad, "/"); err == nil {
			c.Violate("3.1 SetupOperation accepts method "+bad, det)
		}
	})

	c.Count("bad_methods", 1)

	// Any text at all: no panic, and sanitizing settles when the braces were regular.
	junk := make([]byte, r.Intn(20))
	for i := range junk {
		junk[i] = "{{}}:/a\\d$*"[r.Intn(11)]
	}

	c.Guard("SanitizeMethodPath", string(junk), func() {
		_, _, _, _ = openapi.SanitizeMethodPath("get", string(junk))
	})
}

// c11Setup sets up an operation with the path parameters of the pattern and looks where it lands.
func c11Setup(c *mon.Ctx, method, m string, p pathPattern, det interface{}) {
	seen := map[string]bool{}

	s3, s31 := &openapi3.Spec{Openapi: "3.0.3"}, &openapi31.Spec{Openapi: "3.1.0"}

	err := s3.SetupOperation(method, p.raw, func(o *openapi3.Operation) error {
		for _, n := range p.params {
			if !seen[n] {
				seen[n] = true
				pp := openapi3.Parameter{Name: n, In: openapi3.ParameterInPath}
				o.Parameters = append(o.Parameters, pp.WithRequired(true).ToParameterOrRef())
			}
		}

		return nil
	})
	if err != nil {
		c.Violate("3.0 SetupOperation: "+err.Error(), det)
	}

	err = s31.SetupOperation(method, p.raw, func(o *openapi31.Operation) error {
		for n := range seen {
			pp := openapi31.Parameter{Name: n, In: openapi31.ParameterInPath}
			o.Parameters = append(o.Parameters, pp.WithRequired(true).ToParameterOrRef())
		}

		return nil
	})
	if err != nil {
		c.Violate("3.1 SetupOperation: "+err.Error(), det)
	}

	for v, s := range map[string]interface{}{"3.0": s3.Paths, "3.1": s31.Paths} {
		b, err := json.Marshal(s)

		if !strings.HasPrefix(p.clean, "/") {
			continue // such a path can not be encoded
		}

		var mm map[string]map[string]interface{}
		if err != nil || json.Unmarshal(b, &mm) != nil || len(mm) != 1 || mm[p.clean][m] == nil {
			c.Violate(v+" SetupOperation filed the operation elsewhere: "+string(b), det)
		}

		c.Count("setups", 1)
	}

	// A placeholder without parameter, and a parameter without placeholder.
	extra := openapi3.Parameter{Name: "extra!", In: openapi3.ParameterInPath}
	if err := (&openapi3.Spec{}).SetupOperation(method, p.raw, func(o *openapi3.Operation) error {
		o.Parameters = append(o.Parameters, extra.WithRequired(true).ToParameterOrRef())

		return nil
	}); err == nil {
		c.Violate("3.0 accepts a path parameter without placeholder", det)
	}

	if len(p.params) > 0 {
		if err := (&openapi3.Spec{}).SetupOperation(method, p.raw); err == nil {
			c.Violate("3.0 accepts placeholders without parameters", det)
		}

		if err := (&openapi31.Spec{}).SetupOperation(method, p.raw); err == nil {
			c.Violate("3.1 accepts placeholders without parameters", det)
		}
	}
}

func init() {
	// The brace quantifiers of the alphabet are one level deep; make sure that they are proper regular expressions.
	for _, a := range reAtoms {
		if _, err := syntax.Parse(a, syntax.Perl); err != nil && a != `${1}` && a != `[[:alpha:]]+` {
			panic(err)
		}
	}

	register(&mon.Check{
		ID: "C11", Level: "exploration", Quick: 60000, Thorough: 600000,
		Rule: "path patterns made of literals and placeholders, with and without regexps (brace quantifiers, colons, slashes, classes, dollar signs), repeated placeholders, and methods in any letter case or misspelt; the expected path and names are recorded while the pattern is assembled; non-trivial when there is a placeholder",
		Need: map[string]int{"placeholders": 5000, "regexps": 2000, "brace_regexps": 500, "setups": 5000, "bad_methods": 5000},
		Case: c11Case,
	})
}
