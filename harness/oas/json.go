package oas

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ErrDup is returned by Parse for duplicate member names.
var ErrDup = errors.New("duplicate member name")

// Parse decodes JSON text keeping numbers, and reports duplicate member names (value is still returned).
func Parse(data []byte) (v interface{}, dups []string, err error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()

	v, err = parseVal(d, "", &dups)
	if err != nil {
		return nil, dups, err
	}

	if _, err := d.Token(); err != io.EOF {
		return nil, dups, errors.New("trailing data")
	}

	return v, dups, nil
}

func parseVal(d *json.Decoder, path string, dups *[]string) (interface{}, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}

	switch x := t.(type) {
	case json.Delim:
		switch x {
		case '{':
			m := map[string]interface{}{}

			for d.More() {
				kt, err := d.Token()
				if err != nil {
					return nil, err
				}

				k, ok := kt.(string)
				if !ok {
					return nil, fmt.Errorf("key %v", kt)
				}

				v, err := parseVal(d, path+"/"+k, dups)
				if err != nil {
					return nil, err
				}

				if _, dup := m[k]; dup {
					*dups = append(*dups, path+"/"+k)
				}

				m[k] = v
			}

			_, err := d.Token()

			return m, err
		case '[':
			a := []interface{}{}

			for d.More() {
				v, err := parseVal(d, path+"/"+strconv.Itoa(len(a)), dups)
				if err != nil {
					return nil, err
				}

				a = append(a, v)
			}

			_, err := d.Token()

			return a, err
		}
	}

	return t, nil
}

// TopKeys lists top-level member names in order.
func TopKeys(data []byte) []string {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()

	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return nil
	}

	var keys []string

	var dups []string

	for d.More() {
		t, err := d.Token()
		if err != nil {
			return keys
		}

		keys = append(keys, fmt.Sprint(t))

		if _, err := parseVal(d, "", &dups); err != nil {
			return keys
		}
	}

	return keys
}

// Diff describes the first difference of two values, empty when equal (numbers compared as float64).
func Diff(a, b interface{}) string { return diff(a, b, "") }

func short(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}

	if len(b) > 160 {
		return string(b[:160]) + "..."
	}

	return string(b)
}

func diff(a, b interface{}, path string) string {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return fmt.Sprintf("%s: %s became %s", path, short(a), short(b))
		}

		ks := map[string]bool{}
		for k := range x {
			ks[k] = true
		}

		for k := range y {
			ks[k] = true
		}

		sorted := make([]string, 0, len(ks))
		for k := range ks {
			sorted = append(sorted, k)
		}

		sort.Strings(sorted)

		for _, k := range sorted {
			xv, xo := x[k]
			yv, yo := y[k]
			p := path + "/" + k

			if !xo {
				return fmt.Sprintf("%s: added %s", p, short(yv))
			}

			if !yo {
				return fmt.Sprintf("%s: lost %s", p, short(xv))
			}

			if d := diff(xv, yv, p); d != "" {
				return d
			}
		}

		return ""
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return fmt.Sprintf("%s: %s became %s", path, short(a), short(b))
		}

		for i := range x {
			if d := diff(x[i], y[i], path+"/"+strconv.Itoa(i)); d != "" {
				return d
			}
		}

		return ""
	default:
		if Canon(a) != Canon(b) {
			return fmt.Sprintf("%s: %s became %s", path, short(a), short(b))
		}

		return ""
	}
}

var plainWord = regexp.MustCompile(`^[a-zA-Z0-9$]+$`)

// Encode writes JSON with random member order, spacing and escapes when r is not nil.
func Encode(v interface{}, r *rand.Rand) []byte {
	var b bytes.Buffer

	encode(&b, v, r)

	return b.Bytes()
}

func sp(b *bytes.Buffer, r *rand.Rand) {
	if r != nil && r.Intn(12) == 0 {
		b.WriteString([]string{" ", "\n", "\t", "  "}[r.Intn(4)])
	}
}

func encStr(b *bytes.Buffer, s string, r *rand.Rand) {
	b.WriteByte('"')

	// Values of closed enumerations are not escaped: decoders compare some of them as raw text, a known finding.
	esc := !plainWord.MatchString(s)

	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])

		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c < 0x20:
			switch {
			case c == '\n':
				b.WriteString(`\n`)
			case c == '\t':
				b.WriteString(`\t`)
			default:
				fmt.Fprintf(b, `\u%04x`, c)
			}
		case r != nil && c < 0x10000 && (c >= 0x80 || esc) && r.Intn(40) == 0:
			fmt.Fprintf(b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}

		i += n
	}

	b.WriteByte('"')
}

func encode(b *bytes.Buffer, v interface{}, r *rand.Rand) {
	sp(b, r)

	switch x := v.(type) {
	case map[string]interface{}:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}

		sort.Strings(ks)

		if r != nil {
			r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		}

		b.WriteByte('{')

		for i, k := range ks {
			if i > 0 {
				b.WriteByte(',')
			}

			sp(b, r)
			encStr(b, k, r)
			sp(b, r)
			b.WriteByte(':')
			encode(b, x[k], r)
		}

		sp(b, r)
		b.WriteByte('}')
	case []interface{}:
		b.WriteByte('[')

		for i, e := range x {
			if i > 0 {
				b.WriteByte(',')
			}

			encode(b, e, r)
		}

		sp(b, r)
		b.WriteByte(']')
	case string:
		encStr(b, x, r)
	case json.Number:
		b.WriteString(string(x))
	case nil:
		b.WriteString("null")
	case bool:
		b.WriteString(strconv.FormatBool(x))
	default:
		j, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}

		b.Write(j)
	}

	sp(b, r)
}

// Clone deep-copies a value.
func Clone(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		m := make(map[string]interface{}, len(x))
		for k, e := range x {
			m[k] = Clone(e)
		}

		return m
	case []interface{}:
		a := make([]interface{}, len(x))
		for i, e := range x {
			a[i] = Clone(e)
		}

		return a
	}

	return v
}

// At resolves a path of keys.
func At(v interface{}, path ...string) interface{} {
	for _, p := range path {
		switch x := v.(type) {
		case map[string]interface{}:
			v = x[p]
		case []interface{}:
			i, err := strconv.Atoi(p)
			if err != nil || i >= len(x) {
				return nil
			}

			v = x[i]
		default:
			return nil
		}
	}

	return v
}

// Ptr decodes a JSON pointer segment.
func Ptr(s string) string {
	s = strings.ReplaceAll(s, "%25", "%")

	return strings.ReplaceAll(strings.ReplaceAll(s, "~1", "/"), "~0", "~")
}
