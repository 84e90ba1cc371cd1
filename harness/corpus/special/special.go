// Package special has hand-written types that use every way of describing a schema in code.
package special

import (
	"errors"
	"fmt"

	"github.com/swaggest/jsonschema-go"
)

// Color is a string enumeration.
type Color string

// Enum lists colors.
func (Color) Enum() []interface{} { return []interface{}{"red", "green", "blue"} }

// Level is a named enumeration.
type Level int

// NamedEnum lists levels.
func (Level) NamedEnum() ([]interface{}, []string) {
	return []interface{}{1, 2, 3}, []string{"low", "mid", "high"}
}

// Plain is a named scalar without any rules.
type Plain string

// Count is a named 64 bit integer.
type Count int64

// Ratio is a named float.
type Ratio float32

// Token is text in documents.
type Token struct{ hi, lo uint64 }

// MarshalText encodes.
func (t Token) MarshalText() ([]byte, error) {
	return []byte(fmt.Sprintf("%d-%d", t.hi, t.lo)), nil
}

// UnmarshalText decodes.
func (t *Token) UnmarshalText(b []byte) error {
	if len(b) == 0 {
		return errors.New("empty token")
	}

	t.lo = uint64(len(b))

	return nil
}

// Money exposes its schema.
type Money struct {
	Units int64
}

// JSONSchema describes.
func (Money) JSONSchema() (jsonschema.Schema, error) {
	s := jsonschema.Schema{}
	s.AddType(jsonschema.String)
	s.WithPattern(`^\d+\.\d\d$`)
	s.WithDescription("An amount of money.")
	s.WithExamples("12.50")

	return s, nil
}

// Point exposes raw schema.
type Point struct {
	x, y int
}

// JSONSchemaBytes describes.
func (Point) JSONSchemaBytes() ([]byte, error) {
	return []byte(`{"type":"object","title":"Point","required":["x","y"],"properties":{"x":{"type":"number"},"y":{"type":"number"}},"additionalProperties":false}`), nil
}

// Limits prepares its schema.
type Limits struct {
	Low  int `json:"low" query:"low" form:"low"`
	High int `json:"high" query:"high" form:"high"`
}

// PrepareJSONSchema amends.
func (Limits) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithTitle("Limits")
	s.WithMinProperties(1)
	s.WithExtraPropertiesItem("x-prepared", true)

	return nil
}

// Note has title and description.
type Note struct {
	Text string `json:"text" minLength:"1"`
}

// Title of note.
func (Note) Title() string { return "Note" }

// Description of note.
func (Note) Description() string { return "A note with text." }

// Cat is an animal.
type Cat struct {
	Meow string `json:"meow" required:"true"`
}

// Dog is an animal.
type Dog struct {
	Bark int `json:"bark" required:"true" minimum:"1"`
}

// Animal is one of animals.
type Animal struct{}

// JSONSchemaOneOf lists animals.
func (Animal) JSONSchemaOneOf() []interface{} { return []interface{}{Cat{}, Dog{}} }

// Either is any of scalars.
type Either struct{}

// JSONSchemaAnyOf lists.
func (Either) JSONSchemaAnyOf() []interface{} { return []interface{}{Cat{}, "", 0} }

// Both is all of structs.
type Both struct{}

// JSONSchemaAllOf lists.
func (Both) JSONSchemaAllOf() []interface{} { return []interface{}{Cat{}, Dog{}} }

// NotCat is not a cat.
type NotCat struct {
	Name string `json:"name"`
}

// JSONSchemaNot excludes.
func (NotCat) JSONSchemaNot() interface{} { return Cat{} }

// Inlined has no component.
type Inlined struct {
	In string `json:"in"`
}

// InlineJSONSchema marks.
func (Inlined) InlineJSONSchema() {}

// Labels is a named map.
type Labels map[string]string

// Names is a named slice.
type Names []string

// Animals is a named slice of named things.
type Animals []Animal

// Registry is a named map of named things.
type Registry map[string]Note

// Tree is recursive by value slices.
type Tree struct {
	Value    int    `json:"value"`
	Children []Tree `json:"children"`
}

// List is recursive by pointer.
type List struct {
	Head string `json:"head"`
	Next *List  `json:"next,omitempty"`
}

// Dir and File are mutually recursive.
type Dir struct {
	Name  string          `json:"name" required:"true"`
	Files []File          `json:"files"`
	Dirs  map[string]*Dir `json:"dirs"`
}

// File is in a Dir.
type File struct {
	Name   string `json:"name"`
	Parent *Dir   `json:"parent"`
	Note   *Note  `json:"note"`
}

// Page is generic.
type Page[T any] struct {
	Items []T `json:"items"`
	Total int `json:"total" minimum:"0"`
	First *T  `json:"first,omitempty"`
}

// Pair is generic.
type Pair[K, V any] struct {
	Key   K `json:"key" required:"true"`
	Value V `json:"value"`
}

// Base is embedded.
type Base struct {
	ID      int64  `json:"id" required:"true" description:"Identifier."`
	Comment string `json:"comment,omitempty" maxLength:"500"`
}

// Referred is embedded by reference.
type Referred struct {
	Ref string `json:"ref"`
}

// ReferEmbedded marks.
func (Referred) ReferEmbedded() {}

// WithBase embeds.
type WithBase struct {
	Base
	Referred
	Own string `json:"own"`
}

// DeepBase embeds twice, once by pointer.
type DeepBase struct {
	*WithBase
	More []Base `json:"more"`
}

// Closed forbids additional properties.
type Closed struct {
	_ struct{} `additionalProperties:"false" title:"Closed" description:"Nothing else."`
	A string   `json:"a" example:"one"`
	B *int     `json:"b" default:"5" deprecated:"true"`
}

// EmbeddedList embeds a slice of itself named differently.
type EmbeddedList struct {
	Names
}

// FormDataNote has the name that the form schema of Note gets.
type FormDataNote struct {
	Other int `json:"other"`
}

// FormDataFilter has the name that the form schema of Filter gets.
type FormDataFilter struct {
	Other bool `json:"other"`
}

// Dual has other properties in forms than in JSON.
type Dual struct {
	A int    `json:"a" form:"fa"`
	B string `json:"b" form:"fb" minLength:"1"`
}

// DualData has other properties in forms than in JSON.
type DualData struct {
	A int    `json:"a" formData:"fa"`
	B []Dual `json:"b" formData:"fb"`
}

// DualBoth has one property for each tag.
type DualBoth struct {
	A int    `form:"fa"`
	B string `formData:"fb"`
	C bool   `json:"c"`
}

// Größe has letters outside ASCII in its name.
type Größe struct {
	Höhe  float64 `json:"höhe" required:"true"`
	Ärmel *Größe  `json:"ärmel,omitempty"`
}

// Clash are types with names that coincide with others in some way.
var Clash = []interface{}{
	FormDataNote{}, FormDataFilter{}, Note{}, Page[FormDataNote]{}, Page[Page[Note]]{}, PageNote{}, Page[PageNote]{},
	Pair[Note, FormDataNote]{}, Pair[FormDataNote, Note]{}, Pair[Page[Note], Note]{}, Page[Pair[Note, Note]]{}, Page[[]Note]{}, Page[map[string]Note]{},
	Page[string]{}, Page[[]string]{}, Page[Color]{}, Page[[2]string]{}, Page[map[string]string]{}, Page[interface{}]{},
	Dual{}, DualData{}, DualBoth{}, Größe{}, Page[Dual]{}, Page[Größe]{},
}

// PageNote has the name of an instance of Page.
type PageNote struct {
	Name string `json:"name"`
}

// JSON are samples for bodies and properties.
var JSON = []interface{}{
	Limits{}, Note{}, Cat{}, Dog{}, Animal{}, Both{}, NotCat{}, Inlined{}, Tree{}, List{}, Dir{}, File{},
	Page[Note]{}, Page[Tree]{}, Page[int]{}, Page[Page[Cat]]{}, Pair[string, Note]{}, Pair[Color, *Tree]{}, Pair[Level, []Dog]{},
	Base{}, WithBase{}, DeepBase{}, Closed{}, Labels{}, Names{}, Animals{}, Registry{}, Money{}, Point{}, Dual{}, DualData{}, DualBoth{}, Größe{},
	Kept{}, ItemID{}, ItemId{}, Itemid{},
}

// Scalars are samples for parameters.
var Scalars = []interface{}{Color(""), Level(0), Plain(""), Count(0), Ratio(0), Token{}, Money{}}

// Kept gives a schema whose parts it keeps.
type Kept struct {
	Has int
}

var kept = (&jsonschema.Schema{}).
	WithRequired("b", "a").
	WithEnum(map[string]interface{}{"b": 1, "a": "x"}, map[string]interface{}{"b": 2, "a": "y"}).
	WithExamples(map[string]interface{}{"b": 1, "a": "x"}).
	WithDescription("Kept text.").
	WithProperties(map[string]jsonschema.SchemaOrBool{
		"a": (&jsonschema.Schema{}).WithTitle("A").WithExtraPropertiesItem("x-a", []interface{}{"2", "1"}).ToSchemaOrBool(),
		"b": (&jsonschema.Schema{}).WithMinimum(1).WithMaximum(9).WithMinLength(1).WithMinItems(2).ToSchemaOrBool(),
	}).
	WithAllOf((&jsonschema.Schema{}).WithMinProperties(1).WithExtraPropertiesItem("x-all", true).ToSchemaOrBool()).
	WithExtraProperties(map[string]interface{}{"x-kept": map[string]interface{}{"k": []interface{}{3, 1, 2}}, "x-other": nil, "other": "o"})

// JSONSchema describes.
func (Kept) JSONSchema() (jsonschema.Schema, error) {
	s := *kept
	s.Type = nil
	s.AddType(jsonschema.Object) // Pointers to the type add null to it.

	return s, nil
}

// KeptState tells what is kept.
func KeptState() string {
	b, err := kept.MarshalJSON()
	if err != nil {
		return err.Error()
	}

	return string(b)
}

// Types with names that differ in case only.
type (
	// ItemID is one.
	ItemID struct {
		A int `json:"a"`
	}

	// ItemId is another.
	ItemId struct { //nolint
		B string `json:"b"`
	}

	// Itemid is the third.
	Itemid struct {
		C []bool `json:"c"`
	}
)
