package special

import (
	"errors"
	"math"

	"github.com/swaggest/jsonschema-go"
)

// Types that fail to describe themselves.
type (
	// FailExposer can not expose its schema.
	FailExposer struct{ A int }
	// FailRaw exposes broken bytes.
	FailRaw struct{ A int }
	// FailRawErr can not expose bytes.
	FailRawErr string
	// FailPreparer can not finish its schema.
	FailPreparer struct {
		A int `json:"a" query:"a" header:"a" formData:"a"`
	}
	// FailString can not finish its schema.
	FailString string
)

// ErrDescribe is returned by all of them.
var ErrDescribe = errors.New("type fails to describe itself")

// JSONSchema fails.
func (FailExposer) JSONSchema() (jsonschema.Schema, error) { return jsonschema.Schema{}, ErrDescribe }

// JSONSchemaBytes is broken.
func (FailRaw) JSONSchemaBytes() ([]byte, error) { return []byte(`{"type":`), nil }

// JSONSchemaBytes fails.
func (FailRawErr) JSONSchemaBytes() ([]byte, error) { return nil, ErrDescribe }

// PrepareJSONSchema fails.
func (FailPreparer) PrepareJSONSchema(*jsonschema.Schema) error { return ErrDescribe }

// PrepareJSONSchema fails.
func (FailString) PrepareJSONSchema(*jsonschema.Schema) error { return ErrDescribe }

// Failing are samples of all of them.
var Failing = []interface{}{FailExposer{}, FailRaw{}, FailRawErr(""), FailPreparer{}, FailString("")}

// NotANumber describes itself with a value that JSON does not have.
type NotANumber struct {
	A int `json:"a"`
}

// PrepareJSONSchema sets such a value.
func (NotANumber) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithDefault(math.NaN())

	return nil
}
