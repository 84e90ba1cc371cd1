package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/swaggest/openapi-go"
	"github.com/swaggest/openapi-go/openapi3"
	"github.com/swaggest/openapi-go/openapi31"

	"verif/harness/mon"
	"verif/harness/oas"
)

var infoStrs = []string{"", "a", "Title", "multi\nline", "ünï", "null", "true", "1.0", "v1.2.3", "<b>&", "\"quoted\"", "x: y", "- a", "日本", "#", "  spaced  ", "1e3", "~", "a\tb", "{}", "'", "🎉", "very " + "long long long long long long long long long long long long long long text"}

func infoStr(r *rand.Rand) string {
	if r.Intn(4) == 0 {
		return fmt.Sprintf("s%d", r.Intn(1000))
	}

	return infoStrs[r.Intn(len(infoStrs))]
}

// opShadow is what an operation context must show.
type opShadow struct {
	tags                     []string
	deprecated               *bool
	summary, description, id *string
	security                 []interface{}
	method, path             string
	oc                       openapi.OperationContext
	webhook                  bool
}

func deref(s *string) string {
	if s == nil {
		return ""
	}

	return *s
}

func (o *opShadow) checkGetters(c *mon.Ctx, ver, after string) {
	if len(o.tags)+len(o.oc.Tags()) > 0 && !reflect.DeepEqual(o.tags, o.oc.Tags()) {
		c.Violate(fmt.Sprintf("%s: Tags() = %q, last set %q", ver, o.oc.Tags(), o.tags), after)
	}

	if (o.deprecated != nil && *o.deprecated) != o.oc.IsDeprecated() {
		c.Violate(fmt.Sprintf("%s: IsDeprecated() = %v", ver, o.oc.IsDeprecated()), after)
	}

	for _, x := range [][3]string{{"Summary", o.oc.Summary(), deref(o.summary)}, {"Description", o.oc.Description(), deref(o.description)}, {"ID", o.oc.ID(), deref(o.id)}} {
		if x[1] != x[2] {
			c.Violate(fmt.Sprintf("%s: %s() = %q, last set %q", ver, x[0], x[1], x[2]), after)
		}
	}

	if o.oc.Method() != o.method || o.oc.PathPattern() != o.path {
		c.Violate(fmt.Sprintf("%s: operation became %s %s", ver, o.oc.Method(), o.oc.PathPattern()), after)
	}

	c.Count("getter_checks", 1)
}

// members is what the encoded operation must show among the members of operation info.
func (o *opShadow) compare(c *mon.Ctx, ver string, got map[string]interface{}, det interface{}) {
	exp := map[string]interface{}{}

	str := func(k string, s *string) {
		if s != nil {
			exp[k] = *s
		}
	}

	str("summary", o.summary)
	str("description", o.description)
	str("operationId", o.id)

	if o.deprecated != nil {
		exp["deprecated"] = *o.deprecated
	}

	if len(o.tags) > 0 {
		l := []interface{}{}
		for _, t := range o.tags {
			l = append(l, t)
		}

		exp["tags"] = l
	}

	if len(o.security) > 0 {
		exp["security"] = o.security
	}

	for _, k := range []string{"summary", "description", "operationId", "deprecated", "tags", "security", "servers", "externalDocs", "callbacks"} {
		g, okG := got[k]
		e, okE := exp[k]

		if !okG && okE && (e == "" || e == false) {
			continue
		}

		if okG != okE || !reflect.DeepEqual(g, e) {
			c.Violate(fmt.Sprintf("%s: %s %s: encoded %s is %s, expected %s", ver, o.method, o.path, k, mon.JSON(g), mon.JSON(e)), det)
		}
	}

	for k := range got {
		if strings.HasPrefix(k, "x-") {
			c.Violate(ver+": unexpected member "+k, det)
		}
	}

	c.Count("encoded_operations", 1)
}

func sptr(s string) *string { return &s }

func c17Case(c *mon.Ctx) {
	r := c.R
	ver := []string{"3.0", "3.1"}[c.Idx%2]

	var (
		refl openapi.Reflector
		doc  spec
		add  func(o *opShadow) error
	)

	if ver == "3.0" {
		rr := openapi3.NewReflector()
		refl, doc = rr, rr.Spec
		add = func(o *opShadow) error { return rr.AddOperation(o.oc) }
	} else {
		rr := openapi31.NewReflector()
		refl, doc = rr, rr.Spec
		add = func(o *opShadow) error {
			if o.webhook {
				return rr.AddWebhook(o.oc)
			}

			return rr.AddOperation(o.oc)
		}
	}

	var (
		title, version string
		desc           *string
		schemes        = map[string]interface{}{}
		ops            []*opShadow
		added          = map[*opShadow]bool{}
		log            []string
		ss             = refl.SpecSchema()
	)

	tr := func(f string, a ...interface{}) { log = append(log, fmt.Sprintf(f, a...)) }
	secNames := []string{"basic", "api.key", "bearer-1", "tok_2", "A", "a"}

	// Slices given to setters are not changed by later calls.
	type given struct{ slice, copy []string }

	var slices []given

	give := func(l []string) []string {
		slices = append(slices, given{l, append([]string{}, l...)})

		return l
	}

	steps := 5 + r.Intn(40)
	for i := 0; i < steps; i++ {
		switch k := r.Intn(16); {
		case k == 0:
			title = infoStr(r)
			ss.SetTitle(title)
			tr("title %q", title)
		case k == 1:
			desc = sptr(infoStr(r))
			ss.SetDescription(*desc)
			tr("description %q", *desc)
		case k == 2:
			version = infoStr(r)
			ss.SetVersion(version)
			tr("version %q", version)
		case k <= 5:
			n, d := secNames[r.Intn(len(secNames))], infoStr(r)
			sc := map[string]interface{}{}

			switch k {
			case 3:
				ss.SetHTTPBasicSecurity(n, d)
				sc["type"], sc["scheme"] = "http", "basic"
			case 4:
				f := infoStr(r)
				ss.SetHTTPBearerTokenSecurity(n, f, d)
				sc["type"], sc["scheme"] = "http", "bearer"

				if f != "" {
					sc["bearerFormat"] = f
				}
			case 5:
				f, in := infoStr(r), []openapi.In{openapi.InHeader, openapi.InQuery, openapi.InCookie}[r.Intn(3)]
				ss.SetAPIKeySecurity(n, f, in, d)
				sc["type"], sc["name"], sc["in"] = "apiKey", f, string(in)
			}

			if d != "" {
				sc["description"] = d
			}

			schemes[n] = sc

			tr("security %s %v", n, sc)
			c.Count("schemes", 1)
		case k <= 7:
			o := &opShadow{method: httpMethods[r.Intn(len(httpMethods))], path: fmt.Sprintf("/op%d", i)}
			o.webhook = ver == "3.1" && r.Intn(4) == 0

			oc, err := refl.NewOperationContext(o.method, o.path)
			if err != nil {
				c.Violate("NewOperationContext: "+err.Error(), log)

				return
			}

			o.oc = oc
			ops = append(ops, o)
			tr("context %s %s webhook=%v", o.method, o.path, o.webhook)

			if r.Intn(3) == 0 {
				oc.AddReqStructure(new(struct {
					Q string `query:"q" description:"d"`
					F string `json:"f" title:"t"`
				}))
				oc.AddRespStructure(new(struct {
					Q string `header:"X-Q" description:"d"`
					F string `json:"f" title:"t"`
				}), func(cu *openapi.ContentUnit) { cu.Description = "unit" })
			}
		default:
			if len(ops) == 0 {
				continue
			}

			o := ops[r.Intn(len(ops))]
			if added[o] {
				continue
			}

			switch r.Intn(7) {
			case 0:
				n := r.Intn(4)
				o.tags = nil

				for j := 0; j < n; j++ {
					o.tags = append(o.tags, infoStr(r))
				}

				// The same slice may be given to several operations.
				if len(slices) > 0 && r.Intn(3) == 0 {
					l := slices[r.Intn(len(slices))]
					o.tags = append([]string(nil), l.copy...)
					o.oc.SetTags(l.slice...)
				} else {
					o.oc.SetTags(give(append([]string{}, o.tags...))...)
				}

				// Neither is what getters returned.
				give(o.oc.Tags())

				tr("%s tags %q", o.path, o.tags)
			case 1:
				b := r.Intn(2) == 0
				o.deprecated = &b
				o.oc.SetIsDeprecated(b)
				tr("%s deprecated %v", o.path, b)
			case 2:
				o.summary = sptr(infoStr(r))
				o.oc.SetSummary(*o.summary)
				tr("%s summary %q", o.path, *o.summary)
			case 3:
				o.description = sptr(infoStr(r))
				o.oc.SetDescription(*o.description)
				tr("%s description %q", o.path, *o.description)
			case 4:
				o.id = sptr(fmt.Sprintf("id%d_%s", i, infoStr(r)))
				o.oc.SetID(*o.id)
				tr("%s id %q", o.path, *o.id)
			case 5:
				n := secNames[r.Intn(len(secNames))]
				sc := []interface{}{}

				var args []string

				for j := r.Intn(3); j > 0; j-- {
					args = append(args, infoStr(r))
					sc = append(sc, args[len(args)-1])
				}

				o.oc.AddSecurity(n, give(args)...)
				o.security = append(o.security, map[string]interface{}{n: sc})
				tr("%s security %s %q", o.path, n, args)
				c.Count("requirements", 1)
			case 6:
				if err := add(o); err != nil {
					c.Violate("AddOperation: "+err.Error(), log)

					return
				}

				added[o] = true
				tr("add %s", o.path)
			}
		}

		after := log[maxInt(0, len(log)-12):]

		for _, g := range slices {
			if len(g.slice) > 0 && !reflect.DeepEqual(g.slice, g.copy) {
				c.Violate(fmt.Sprintf("%s: a later call changed tags or scopes given before: %q became %q", ver, g.copy, g.slice), strings.Join(after, "; "))

				return
			}
		}

		if ss.Title() != title || ss.Description() != deref(desc) || ss.Version() != version {
			c.Violate(fmt.Sprintf("%s: info is %q %q %q, last set %q %q %q", ver, ss.Title(), ss.Description(), ss.Version(), title, deref(desc), version), after)
		}

		for _, o := range ops {
			if !added[o] {
				o.checkGetters(c, ver, strings.Join(after, "; "))
			}
		}
	}

	for _, o := range ops {
		if !added[o] {
			if err := add(o); err != nil {
				c.Violate("AddOperation: "+err.Error(), log)

				return
			}
		}
	}

	c.Eval(strings.Join(log, ";"), len(ops) > 0)

	for pass, enc := range []func() ([]byte, error){doc.MarshalJSON, func() ([]byte, error) {
		y, err := doc.MarshalYAML()
		if err != nil {
			return nil, err
		}

		v, err := oas.ParseYAML2(y)
		if err != nil {
			return nil, err
		}

		return json.Marshal(v)
	}} {
		b, err := enc()
		if err != nil {
			c.Violate("encode: "+err.Error(), log)

			return
		}

		var d map[string]interface{}
		if err := json.Unmarshal(b, &d); err != nil {
			c.Violate("encoded: "+err.Error(), log)

			return
		}

		expInfo := map[string]interface{}{"title": title, "version": version}
		if desc != nil {
			expInfo["description"] = *desc
		}

		if gi, _ := d["info"].(map[string]interface{}); !reflect.DeepEqual(gi, expInfo) {
			if !(deref(desc) == "" && reflect.DeepEqual(gi, map[string]interface{}{"title": title, "version": version})) {
				c.Violate(fmt.Sprintf("%s: encoded info %s, expected %s", ver, mon.JSON(d["info"]), mon.JSON(expInfo)), log)
			}
		}

		gs := map[string]interface{}{}
		if comp, ok := d["components"].(map[string]interface{}); ok {
			if m, ok := comp["securitySchemes"].(map[string]interface{}); ok {
				gs = m
			}
		}

		for n, s := range gs {
			if m, ok := s.(map[string]interface{}); ok && m["description"] == "" {
				delete(m, "description")
			}

			if schemes[n] == nil {
				c.Violate(ver+": unexpected scheme "+n, log)
			}
		}

		for n, s := range schemes {
			if !reflect.DeepEqual(gs[n], s) {
				c.Violate(fmt.Sprintf("%s: scheme %s is %s, expected %s", ver, n, mon.JSON(gs[n]), mon.JSON(s)), log)
			}
		}

		for _, k := range []string{"tags", "security", "servers", "externalDocs"} {
			if _, ok := d[k]; ok {
				c.Violate(ver+": unexpected document member "+k, log)
			}
		}

		n := 0

		for _, o := range ops {
			where := "paths"
			if o.webhook {
				where = "webhooks"
			}

			m, _ := d[where].(map[string]interface{})
			pi, _ := m[o.path].(map[string]interface{})
			op, _ := pi[o.method].(map[string]interface{})

			if op == nil || len(pi) != 1 {
				c.Violate(fmt.Sprintf("%s: %s %s is encoded as %s", ver, o.method, o.path, mon.JSON(pi)), log)

				continue
			}

			n++
			o.compare(c, ver, op, log)
		}

		_ = pass
		_ = n
	}

	if c.WantSample() {
		c.Sample(log)
	}
}

func init() {
	register(&mon.Check{
		ID: "C17", Level: "exploration", Quick: 12000, Thorough: 150000,
		Rule: "random sequences of info, security-scheme and operation-info setters over one document and several operation contexts at once, through the version-independent interfaces (3.0 and 3.1 alternate); a shadow model is compared with every getter after every call and with the encoded JSON and YAML at the end; non-trivial when an operation exists",
		Need: map[string]int{"getter_checks": 10000, "encoded_operations": 3000, "schemes": 1000, "requirements": 1000},
		Case: c17Case,
	})
}
