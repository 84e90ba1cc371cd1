package oas

// keepEmpty lists optional collections for which empty differs from absent.
var keepEmpty = map[string]bool{
	"Operation.security": true, "PasswordFlow.scopes": true, "ClientFlow.scopes": true, "CodeFlow.scopes": true,
}

// Reconcile removes from copies of in and out the two differences a round trip may have: an empty optional collection
// of in (means the same as no member) may be missing in out, and the only permitted style of a header or cookie
// parameter or of a header (its default) may be spelled out in out.
func (gr *Grammar) Reconcile(n *Node, in, out interface{}) (interface{}, interface{}) {
	n = gr.Get(n)

	switch n.Kind {
	case KArr:
		a, ok1 := in.([]interface{})
		b, ok2 := out.([]interface{})

		if !ok1 || !ok2 || len(a) != len(b) {
			return in, out
		}

		x, y := make([]interface{}, len(a)), make([]interface{}, len(a))
		for i := range a {
			x[i], y[i] = gr.Reconcile(n.Elem, a[i], b[i])
		}

		return x, y
	case KMap:
		a, ok1 := in.(map[string]interface{})
		b, ok2 := out.(map[string]interface{})

		if !ok1 || !ok2 {
			return in, out
		}

		x, y := copyMap(a), copyMap(b)

		for k, v := range a {
			if w, ok := b[k]; ok {
				x[k], y[k] = gr.Reconcile(n.Elem, v, w)
			}
		}

		return x, y
	case KAlt:
		for _, a := range n.Alts {
			if a.Is(in) {
				return gr.Reconcile(a.T, in, out)
			}
		}
	case KObj:
		a, ok1 := in.(map[string]interface{})
		b, ok2 := out.(map[string]interface{})

		if !ok1 || !ok2 {
			return in, out
		}

		x, y := copyMap(a), copyMap(b)

	keys:
		for k, v := range a {
			for _, f := range n.Fields {
				if f.Name != k {
					continue
				}

				w, ok := b[k]
				if ok {
					x[k], y[k] = gr.Reconcile(f.T, v, w)
				} else if !f.Req && isEmptyCollection(v) && !keepEmpty[n.Name+"."+k] {
					if kind := gr.Get(f.T).Kind; kind == KArr || kind == KMap {
						delete(x, k)
					}
				}

				continue keys
			}

			if n.Ext && len(k) > 1 && k[:2] == "x-" {
				continue
			}

			for _, p := range n.Pats {
				if w, ok := b[k]; ok && p.Re.MatchString(k) {
					x[k], y[k] = gr.Reconcile(p.T, v, w)

					continue keys
				}
			}
		}

		if st, ok := b["style"]; ok && a["style"] == nil {
			if (n.Name == "Header" && st == "simple") ||
				(n.Name == "Parameter" && a["in"] == "header" && st == "simple") ||
				(n.Name == "Parameter" && a["in"] == "cookie" && st == "form") {
				delete(y, "style")
			}
		}

		return x, y
	}

	return in, out
}

func isEmptyCollection(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		return len(x) == 0
	case map[string]interface{}:
		return len(x) == 0
	}

	return false
}

func copyMap(m map[string]interface{}) map[string]interface{} {
	r := make(map[string]interface{}, len(m))
	for k, v := range m {
		r[k] = v
	}

	return r
}
