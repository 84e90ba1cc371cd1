package oas

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	yaml2 "gopkg.in/yaml.v2"
	yaml3 "gopkg.in/yaml.v3"
)

// ParseYAML3 reads YAML with the yaml.v3 parser into JSON values, with the order of top-level members.
func ParseYAML3(data []byte) (v interface{}, keys []string, err error) {
	var n yaml3.Node

	if err := yaml3.Unmarshal(data, &n); err != nil {
		return nil, nil, err
	}

	if n.Kind == yaml3.DocumentNode && len(n.Content) == 1 {
		n = *n.Content[0]
	}

	if n.Kind == yaml3.MappingNode {
		for i := 0; i < len(n.Content); i += 2 {
			keys = append(keys, n.Content[i].Value)
		}
	}

	v, err = fromNode(&n)

	return v, keys, err
}

func fromNode(n *yaml3.Node) (interface{}, error) {
	switch n.Kind {
	case yaml3.AliasNode:
		return fromNode(n.Alias)
	case yaml3.MappingNode:
		m := map[string]interface{}{}

		for i := 0; i < len(n.Content); i += 2 {
			k := n.Content[i]

			if k.Kind != yaml3.ScalarNode || k.ShortTag() != "!!str" {
				return nil, fmt.Errorf("key %q is not a string but %s", k.Value, k.ShortTag())
			}

			if _, dup := m[k.Value]; dup {
				return nil, fmt.Errorf("duplicate key %q", k.Value)
			}

			v, err := fromNode(n.Content[i+1])
			if err != nil {
				return nil, err
			}

			m[k.Value] = v
		}

		return m, nil
	case yaml3.SequenceNode:
		a := []interface{}{}

		for _, c := range n.Content {
			v, err := fromNode(c)
			if err != nil {
				return nil, err
			}

			a = append(a, v)
		}

		return a, nil
	case yaml3.ScalarNode:
		switch n.ShortTag() {
		case "!!str", "!!merge": // << is a merge only as a key.
			return n.Value, nil
		case "!!null":
			return nil, nil
		case "!!bool":
			var b bool
			err := n.Decode(&b)

			return b, err
		case "!!int":
			return json.Number(strings.ReplaceAll(n.Value, "_", "")), nil
		case "!!float":
			var f float64
			if err := n.Decode(&f); err != nil {
				return nil, err
			}

			return json.Number(strconv.FormatFloat(f, 'g', -1, 64)), nil
		}

		return nil, fmt.Errorf("unexpected scalar %q %s", n.Value, n.ShortTag())
	}

	return nil, fmt.Errorf("unexpected node kind %d", n.Kind)
}

// ParseYAML2 reads YAML with the yaml.v2 parser into JSON values.
func ParseYAML2(data []byte) (interface{}, error) {
	var v interface{}

	if err := yaml2.Unmarshal(data, &v); err != nil {
		return nil, err
	}

	return fromV2(v)
}

func fromV2(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := map[string]interface{}{}

		for k, e := range x {
			s, ok := k.(string)
			if !ok {
				return nil, fmt.Errorf("key %v is %T", k, k)
			}

			y, err := fromV2(e)
			if err != nil {
				return nil, err
			}

			m[s] = y
		}

		return m, nil
	case []interface{}:
		a := make([]interface{}, len(x))

		for i, e := range x {
			y, err := fromV2(e)
			if err != nil {
				return nil, err
			}

			a[i] = y
		}

		return a, nil
	case nil, bool, string:
		return x, nil
	case int:
		return json.Number(strconv.Itoa(x)), nil
	case int64:
		return json.Number(strconv.FormatInt(x, 10)), nil
	case uint64:
		return json.Number(strconv.FormatUint(x, 10)), nil
	case float64:
		return json.Number(strconv.FormatFloat(x, 'g', -1, 64)), nil
	}

	return nil, fmt.Errorf("unexpected %T", v)
}

// EncodeYAML writes a value as YAML in random styles: block and flow collections, plain, quoted and literal scalars,
// anchors with aliases, comments, in random member order.
func EncodeYAML(v interface{}, r *rand.Rand) ([]byte, error) {
	e := yenc{r: r, seen: map[string]*yaml3.Node{}}
	n := e.node(v, 0)

	return yaml3.Marshal(n)
}

type yenc struct {
	r     *rand.Rand
	seen  map[string]*yaml3.Node
	n     int
	depth int
}

func (e *yenc) str(s string) *yaml3.Node {
	n := &yaml3.Node{Kind: yaml3.ScalarNode, Tag: "!!str", Value: s}

	// A string is plain only when it cannot be taken for something else.
	if plainLetters(s) && e.r.Intn(3) > 0 {
		return n
	}

	n.Style = yaml3.DoubleQuotedStyle

	if printable(s) {
		switch e.r.Intn(3) {
		case 0:
			n.Style = yaml3.SingleQuotedStyle
		case 1:
			if strings.Contains(s, "\n") && !strings.HasPrefix(s, " ") && !strings.HasPrefix(s, "\n") && !strings.Contains(s, " \n") {
				n.Style = yaml3.LiteralStyle
			}
		}
	}

	return n
}

func printable(s string) bool {
	for _, c := range s {
		if c != '\n' && (c < 0x20 || c == 0x7f || c == 0x85 || c == 0xa0 || c == 0x2028 || c == 0x2029 || c == 0xfeff || c > 0xffff) {
			return false
		}
	}

	return s != "" && !strings.HasSuffix(s, " ") && !strings.HasPrefix(s, " ") && !strings.Contains(s, "\n ") && !strings.Contains(s, " \n") && !strings.Contains(s, "\t")
}

var yamlWords = map[string]bool{"y": true, "n": true, "yes": true, "no": true, "on": true, "off": true, "true": true, "false": true, "null": true}

func plainLetters(s string) bool {
	if s == "" || yamlWords[strings.ToLower(s)] {
		return false
	}

	for _, c := range s {
		if (c < 'a' || c > 'z') && (c < 'A' || c > 'Z') {
			return false
		}
	}

	return true
}

func (e *yenc) node(v interface{}, depth int) *yaml3.Node {
	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}

		sort.Strings(ks)
		e.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })

		n := &yaml3.Node{Kind: yaml3.MappingNode, Tag: "!!map"}
		if depth > 0 && e.r.Intn(4) == 0 {
			n.Style = yaml3.FlowStyle
		}

		for _, k := range ks {
			n.Content = append(n.Content, e.str(k), e.node(x[k], depth+1))
		}

		if len(ks) > 0 && depth > 1 {
			return e.alias(v, n)
		}

		return n
	case []interface{}:
		n := &yaml3.Node{Kind: yaml3.SequenceNode, Tag: "!!seq"}
		if e.r.Intn(3) == 0 {
			n.Style = yaml3.FlowStyle
		}

		for _, el := range x {
			n.Content = append(n.Content, e.node(el, depth+1))
		}

		return n
	case string:
		return e.str(x)
	case json.Number:
		tag := "!!int"
		if strings.ContainsAny(string(x), ".eE") {
			tag = "!!float"
		}

		return &yaml3.Node{Kind: yaml3.ScalarNode, Tag: tag, Value: string(x)}
	case nil:
		return &yaml3.Node{Kind: yaml3.ScalarNode, Tag: "!!null", Value: []string{"null", "~", "Null"}[e.r.Intn(3)]}
	case bool:
		s := strconv.FormatBool(x)
		if e.r.Intn(3) == 0 {
			s = strings.ToUpper(s[:1]) + s[1:]
		}

		return &yaml3.Node{Kind: yaml3.ScalarNode, Tag: "!!bool", Value: s}
	}

	panic(fmt.Sprintf("yaml %T", v))
}

// alias uses an anchor and alias for an equal collection.
func (e *yenc) alias(v interface{}, n *yaml3.Node) *yaml3.Node {
	k := Canon(v)

	if a, ok := e.seen[k]; ok {
		if a.Anchor == "" {
			e.n++
			a.Anchor = "a" + strconv.Itoa(e.n)
		}

		return &yaml3.Node{Kind: yaml3.AliasNode, Value: a.Anchor, Alias: a}
	}

	e.seen[k] = n

	return n
}

// HasMergeKey tells if any object has the member << which YAML 1.1 takes for a merge.
func HasMergeKey(v interface{}) bool {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			if k == "<<" || HasMergeKey(e) {
				return true
			}
		}
	case []interface{}:
		for _, e := range x {
			if HasMergeKey(e) {
				return true
			}
		}
	}

	return false
}
