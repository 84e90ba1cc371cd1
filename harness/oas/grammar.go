// Package oas models the OpenAPI 3.0 and 3.1 document formats, independently of the entities of openapi-go: a grammar
// written from the specifications that can generate valid documents, validate documents, and list the places where one
// change makes a document invalid.
package oas

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Kind of a grammar node.
type Kind int

// Kinds.
const (
	KObj Kind = iota
	KArr
	KMap
	KStr
	KBool
	KInt
	KNum
	KAny
	KAlt
	KSchema31
	KNamed
)

// Field of an object.
type Field struct {
	Name string
	T    *Node
	Req  bool
}

// Alt is an alternative with a discriminator.
type Alt struct {
	T    *Node
	Is   func(v interface{}) bool
	W    int // weight
	Name string
}

// Node of a grammar.
type Node struct {
	Kind   Kind
	Name   string
	Fields []Field
	Ext    bool
	Strict bool // unknown members are refused by the decoder
	Pats   []Pat
	Elem   *Node
	Min    int
	Unique bool
	Enum   []string
	NoNeg  bool
	Alts   []Alt
	GenKey func(g *Gen) string
	KeyRe  *regexp.Regexp
	GenStr func(g *Gen) string
	Fix    func(g *Gen, m map[string]interface{})
	Check  func(m map[string]interface{}) error
	NonNil bool
}

// Pat describes pattern members.
type Pat struct {
	GenKey func(g *Gen) string
	Re     *regexp.Regexp
	T      *Node
	Prob   float64
	Min    int
}

// Grammar is a set of named nodes.
type Grammar struct {
	Version string
	Named   map[string]*Node
	Root    *Node
}

// Get resolves a named node.
func (gr *Grammar) Get(n *Node) *Node {
	for n.Kind == KNamed {
		t, ok := gr.Named[n.Name]
		if !ok {
			panic("no node " + n.Name)
		}

		n = t
	}

	return n
}

// Gen generates documents.
type Gen struct {
	R   *rand.Rand
	Gr  *Grammar
	Cov map[string]int // (type.member) and event counters

	// Density of optional members.
	Density float64
	Budget  int

	// Plain avoids exotic strings.
	Plain bool

	// Force is a "Type.member" that must be included wherever the type occurs.
	Force string

	Depth int
}

func (g *Gen) cov(s string) {
	if g.Cov != nil {
		g.Cov[s]++
	}
}

// P is true with probability p.
func (g *Gen) P(p float64) bool { return g.R.Float64() < p }

// Pick chooses a string.
func (g *Gen) Pick(s ...string) string { return s[g.R.Intn(len(s))] }

// Word is an identifier-like string.
func (g *Gen) Word() string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

	n := 1 + g.R.Intn(8)
	b := make([]byte, n)

	for i := range b {
		b[i] = al[g.R.Intn(len(al))]
	}

	return string(b)
}

var exotic = []string{
	"", " ", "yes", "no", "true", "false", "null", "~", "1", "1.5", "1e3", "0x1F", "0o17", "017", "1_000", "+1", ".5", "-",
	"2020-01-01", "2020-01-01T10:00:00Z", "12:30:45", "a: b", "a #b", "# c", "- x", "? y", "! z", "& anchor", "* alias",
	"%d", "@at", "`tick`", "'quoted'", "\"dq\"", "back\\slash", "tab\tx", "line1\nline2", "line1\r\nline2\n", "trailing ",
	" leading", "\n", "multi\n\nblank\n  indented", "ünïcödé", "日本語", "emoji 😀", "\u0000nul", "\u2028sep", "\u007f", "\u0085nel",
	"</script>&amp;", "{curly}", "[square]", "a,b", "|", ">", ">-\n x", "---", "...", "<<", "=", ".inf", ".nan", "on", "off", "y", "n",
	"\ufeffbom", "%41", "~1", "~0", "$ref", "x-", "key: [1, 2]", "{\"json\": true}", "very long " + "word word word word word word word word word word word word word word word word word word word word word",
	"-1", "NULL", "True", "Yes", "1:30", "0b11", "1e", "190:20:30", "!!str x", "\\u0041", "\x1b[0m", "0", "00", "0.0", "1.", "9223372036854775808",
}

// Str is any string.
func (g *Gen) Str() string {
	if g.Plain || g.P(0.6) {
		return g.Word()
	}

	if g.P(0.7) {
		s := exotic[g.R.Intn(len(exotic))]
		if s == "\u0000nul" && g.P(0.5) {
			return "nul"
		}

		g.cov("exotic-string")

		return s
	}

	n := 1 + g.R.Intn(12)

	var sb strings.Builder

	for i := 0; i < n; i++ {
		switch g.R.Intn(8) {
		case 0:
			sb.WriteRune(rune(0x80 + g.R.Intn(0x700)))
		case 1:
			sb.WriteRune(rune(0x4e00 + g.R.Intn(0x1000)))
		case 2:
			sb.WriteString(g.Pick(":", " ", "#", "-", "\n", "\"", "'", "\\", "{", "}", "[", "]", ",", "&", "*", "!", "|", ">", "%", "@", "`", "?", "/", "~", "=", "<", "\t"))
		default:
			sb.WriteByte(byte('!' + g.R.Intn('~'-'!')))
		}
	}

	g.cov("exotic-string")

	return sb.String()
}

// Num is any JSON number.
func (g *Gen) Num() json.Number {
	switch g.R.Intn(9) {
	case 0:
		return json.Number(strconv.Itoa(g.R.Intn(100)))
	case 1:
		return json.Number(strconv.Itoa(-g.R.Intn(100000)))
	case 2:
		return json.Number(strconv.FormatFloat(g.R.NormFloat64()*1000, 'g', -1, 64))
	case 3:
		return json.Number(strconv.FormatFloat(float64(g.R.Intn(1000))/8, 'f', -1, 64))
	case 4:
		return json.Number(g.Pick("0", "1", "-1", "0.1", "1e3", "1E+2", "1.0", "-0.5", "1e-7", "1e21", "123456789012", "9007199254740991", "-9007199254740991", "1e100", "5e-324", "1.7976931348623157e308", "2147483648", "4294967296"))
	case 5:
		return json.Number(strconv.FormatInt(g.R.Int63n(1<<53), 10))
	default:
		return json.Number(strconv.Itoa(g.R.Intn(20)))
	}
}

// Int is a non-negative integer.
func (g *Gen) Int() json.Number {
	switch g.R.Intn(6) {
	case 0:
		return json.Number("0")
	case 1:
		return json.Number(strconv.FormatInt(g.R.Int63n(1<<40), 10))
	case 2:
		return json.Number(g.Pick("2147483647", "2147483648", "9007199254740991", "1"))
	default:
		return json.Number(strconv.Itoa(g.R.Intn(1000)))
	}
}

// Any is any JSON value.
func (g *Gen) Any(depth int) interface{} {
	n := 9
	if depth <= 0 {
		n = 6
	}

	switch g.R.Intn(n) {
	case 0:
		g.cov("null-value")

		return nil
	case 1:
		return g.P(0.5)
	case 2:
		return g.Num()
	case 3, 4, 5:
		return g.Str()
	case 6, 7:
		m := map[string]interface{}{}
		for i := g.R.Intn(4); i > 0; i-- {
			m[g.AnyKey()] = g.Any(depth - 1)
		}

		return m
	default:
		a := []interface{}{}
		for i := g.R.Intn(4); i > 0; i-- {
			a = append(a, g.Any(depth-1))
		}

		return a
	}
}

// depth of a free value.
func (g *Gen) depth() int {
	if g.P(0.2) {
		return 4
	}

	return 2
}

// AnyKey is any member name.
func (g *Gen) AnyKey() string {
	if g.P(0.8) {
		return g.Word()
	}

	s := g.Str()
	if s == "<<" { // Merge key of YAML, excluded: see DESIGN.md.
		return "<"
	}

	return s
}

// ExtKey is an extension key.
func (g *Gen) ExtKey() string {
	if g.P(0.1) {
		return "x-"
	}

	if g.P(0.2) {
		return "x-" + g.Str()
	}

	return "x-" + g.Word()
}

// Gen generates a value.
func (g *Gen) Gen(n *Node) interface{} {
	name := ""
	for n.Kind == KNamed {
		name = n.Name
		n = g.Gr.Get(n)
	}

	if n.Name != "" {
		name = n.Name
	}

	g.Budget--
	g.Depth++

	defer func() { g.Depth-- }()

	switch n.Kind {
	case KStr:
		if len(n.Enum) > 0 {
			return n.Enum[g.R.Intn(len(n.Enum))]
		}

		if n.GenStr != nil {
			return n.GenStr(g)
		}

		return g.Str()
	case KBool:
		return g.P(0.5)
	case KInt:
		return g.Int()
	case KNum:
		return g.Num()
	case KAny:
		return g.Any(g.depth())
	case KArr:
		l := n.Min
		if g.Budget > 0 && g.Depth < 16 {
			l += g.R.Intn(3)
		}

		a := make([]interface{}, 0, l)
		seen := map[string]bool{}

		for i := 0; i < l; i++ {
			v := g.Gen(n.Elem)

			if n.Unique {
				k := Canon(v)
				if seen[k] {
					continue
				}

				seen[k] = true
			}

			a = append(a, v)
		}

		if len(a) == 0 {
			g.cov("empty-array")
		}

		return a
	case KMap:
		m := map[string]interface{}{}

		l := n.Min
		if g.Budget > 0 && g.Depth < 16 {
			l += g.R.Intn(3)
		}

		for i := 0; i < l; i++ {
			k := ""
			if n.GenKey != nil {
				k = n.GenKey(g)
			} else {
				k = g.AnyKey()
			}

			m[k] = g.Gen(n.Elem)
		}

		if len(m) == 0 {
			g.cov("empty-map")
		}

		return m
	case KAlt:
		tot := 0
		for _, a := range n.Alts {
			tot += a.W
		}

		x := g.R.Intn(tot)
		for _, a := range n.Alts {
			if x -= a.W; x < 0 {
				if a.Name != "" {
					g.cov(a.Name)
				}

				return g.Gen(a.T)
			}
		}

		panic("alt")
	case KSchema31:
		return g.schema31(3)
	case KObj:
		m := map[string]interface{}{}

		d := g.Density
		if g.Budget <= 0 || g.Depth > 14 {
			d = 0.02
		}

		if g.Budget < -2000 || g.Depth > 24 {
			d = 0
		}

		for _, f := range n.Fields {
			if f.Req || g.P(d) || (g.Force != "" && g.Force == name+"."+f.Name && g.Depth < 20) {
				m[f.Name] = g.Gen(f.T)
			}
		}

		for _, p := range n.Pats {
			l := p.Min
			for g.P(p.Prob*(0.5+d)) && l < 4 && d > 0.02 {
				l++
			}

			for i := 0; i < l; i++ {
				m[p.GenKey(g)] = g.Gen(p.T)
			}
		}

		if n.Ext && g.P(d*0.7) {
			for i := 1 + g.R.Intn(2); i > 0; i-- {
				m[g.ExtKey()] = g.Any(g.depth())
				g.cov(name + ".x-")
			}
		}

		if n.Fix != nil {
			n.Fix(g, m)
		}

		for _, f := range n.Fields {
			if _, ok := m[f.Name]; ok {
				g.cov(name + "." + f.Name)
			}
		}

		return m
	}

	panic("kind")
}

// schema31 is a free-form JSON Schema object.
func (g *Gen) schema31(depth int) map[string]interface{} {
	m := map[string]interface{}{}

	if g.P(0.05) {
		g.cov("Schema31.empty")

		return m
	}

	sub := func() interface{} {
		if depth > 0 {
			if g.P(0.1) {
				return g.P(0.5)
			}

			return g.schema31(depth - 1)
		}

		return map[string]interface{}{"type": "string"}
	}

	if g.P(0.15) {
		m["$ref"] = g.Pick("#/components/schemas/A", "https://example.com/x.json#/a", "#/components/schemas/B.c-d_e")
		g.cov("Schema31.$ref")
	}

	for i := 1 + g.R.Intn(4); i > 0; i-- {
		switch g.R.Intn(16) {
		case 0:
			m["type"] = g.Pick("string", "object", "array", "integer", "number", "boolean", "null")
		case 1:
			m["type"] = []interface{}{"null", g.Pick("string", "object", "array")}
		case 2:
			m["properties"] = map[string]interface{}{g.AnyKey(): sub(), g.Word(): sub()}
		case 3:
			m[g.Pick("items", "not", "additionalProperties", "if", "then", "else", "contains", "propertyNames", "unevaluatedProperties")] = sub()
		case 4:
			m[g.Pick("allOf", "anyOf", "oneOf", "prefixItems")] = []interface{}{sub(), sub()}
		case 5:
			m[g.Pick("minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "multipleOf")] = g.Num()
		case 6:
			m[g.Pick("minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties", "minContains")] = g.Int()
		case 7:
			m["enum"] = []interface{}{g.Any(1), nil, g.Num()}
		case 8:
			m["const"] = g.Any(1)
		case 9:
			m[g.Pick("default", "example")] = g.Any(g.depth())
		case 10:
			m["examples"] = []interface{}{g.Any(1)}
		case 11:
			m[g.Pick("title", "description", "format", "pattern", "contentMediaType", "$comment", "$id", "$anchor")] = g.Str()
		case 12:
			m["required"] = []interface{}{g.Word()}
		case 13:
			m[g.Pick("readOnly", "writeOnly", "deprecated", "uniqueItems")] = g.P(0.5)
		case 14:
			m[g.ExtKey()] = g.Any(g.depth())
		case 15:
			m[g.Pick("$defs", "patternProperties", "dependentSchemas")] = map[string]interface{}{g.Word(): sub()}
		}
	}

	return m
}

// Canon is a canonical text of a value (numbers as float64).
func Canon(v interface{}) string {
	var sb strings.Builder

	canon(&sb, v)

	return sb.String()
}

func canon(sb *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}

		sort.Strings(ks)
		sb.WriteByte('{')

		for i, k := range ks {
			if i > 0 {
				sb.WriteByte(',')
			}

			sb.WriteString(strconv.Quote(k))
			sb.WriteByte(':')
			canon(sb, x[k])
		}

		sb.WriteByte('}')
	case []interface{}:
		sb.WriteByte('[')

		for i, e := range x {
			if i > 0 {
				sb.WriteByte(',')
			}

			canon(sb, e)
		}

		sb.WriteByte(']')
	case string:
		sb.WriteString(strconv.Quote(x))
	case json.Number:
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			sb.WriteString("NUM(" + string(x) + ")")
		} else {
			sb.WriteString(fnum(f))
		}
	case float64:
		sb.WriteString(fnum(x))
	case int:
		sb.WriteString(fnum(float64(x)))
	case int64:
		sb.WriteString(fnum(float64(x)))
	case uint64:
		sb.WriteString(fnum(float64(x)))
	case nil:
		sb.WriteString("null")
	case bool:
		sb.WriteString(strconv.FormatBool(x))
	default:
		sb.WriteString(fmt.Sprintf("?%T(%v)", v, v))
	}
}

func fnum(f float64) string {
	if f == 0 {
		return "0"
	}

	return strconv.FormatFloat(f, 'g', -1, 64)
}

// Exotic lists strings that are troublesome for encoders.
func Exotic() []string { return append([]string(nil), exotic...) }
