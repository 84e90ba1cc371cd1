package special

import "github.com/swaggest/jsonschema-go"

import (
	"mime/multipart"
	"time"
)

// Filter is an object in parameters and forms, with the same names everywhere.
type Filter struct {
	From  *time.Time `query:"from" path:"from" header:"from" cookie:"from" form:"from" formData:"from"`
	Limit int        `query:"limit" path:"limit" header:"limit" cookie:"limit" form:"limit" formData:"limit" minimum:"1" maximum:"50" default:"10"`
	Tags  []string   `query:"tags" path:"tags" header:"tags" cookie:"tags" form:"tags" formData:"tags" maxItems:"4"`
	Skip  string
}

// Sort is an object in parameters and forms.
type Sort struct {
	By   Color    `query:"by" path:"by" header:"by" cookie:"by" form:"by" formData:"by" required:"true"`
	Desc bool     `query:"desc" path:"desc" header:"desc" cookie:"desc" form:"desc" formData:"desc"`
	_    struct{} `query:"_" path:"_" header:"_" cookie:"_" form:"_" formData:"_" description:"How to sort." additionalProperties:"false"`
}

// Nested is an object with objects in parameters and forms.
type Nested struct {
	Sort   Sort              `query:"sort" path:"sort" header:"sort" cookie:"sort" form:"sort" formData:"sort"`
	Then   []Sort            `query:"then" path:"then" header:"then" cookie:"then" form:"then" formData:"then"`
	Filter *Filter           `query:"filter" path:"filter" header:"filter" cookie:"filter" form:"filter" formData:"filter"`
	Extra  map[string]string `query:"extra" path:"extra" header:"extra" cookie:"extra" form:"extra" formData:"extra"`
}

// Cond is a recursive object in parameters, forms and JSON.
type Cond struct {
	Op  string          `query:"op" path:"op" header:"op" cookie:"op" form:"op" formData:"op" json:"op" required:"true"`
	And []Cond          `query:"and" path:"and" header:"and" cookie:"and" form:"and" formData:"and" json:"and"`
	Not *Cond           `query:"not" path:"not" header:"not" cookie:"not" form:"not" formData:"not" json:"not"`
	Ref map[string]Cond `query:"ref" path:"ref" header:"ref" cookie:"ref" form:"ref" formData:"ref" json:"ref"`
}

// Attachment is a form part with a file in it.
type Attachment struct {
	Name string         `formData:"name" form:"name" required:"true"`
	File multipart.File `formData:"file" form:"file"`
}

// Paging is embedded into requests.
type Paging struct {
	Offset int `query:"offset" minimum:"0" description:"Offset of page."`
	Size   int `query:"size" default:"20"`
}

// Auth is embedded into requests.
type Auth struct {
	Key     string `header:"X-Api-Key" required:"true"`
	Session string `cookie:"session" description:"Session."`
}

// Meta is embedded into responses.
type Meta struct {
	ETag  string `header:"ETag" description:"Entity tag."`
	Total int    `header:"X-Total" json:"-"`
}

// Marked is a string with an extension in its schema.
type Marked string

// PrepareJSONSchema adds an extension.
func (Marked) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithExtraPropertiesItem("x-marked", map[string]interface{}{"by": "hand"})

	return nil
}

// FormTree is a recursive form.
type FormTree struct {
	Name string     `formData:"name" required:"true"`
	Mark Marked     `formData:"mark"`
	Kids []FormTree `formData:"kids"`
}

// FormMarked is a form with extensions.
type FormMarked struct {
	Mark  Marked  `formData:"mark" minLength:"2" required:"true"`
	Count int     `form:"count"`
	Next  *Cond   `formData:"next"`
	Price float64 `formData:"price"`
}

// PrepareJSONSchema adds an extension.
func (FormMarked) PrepareJSONSchema(s *jsonschema.Schema) error {
	s.WithExtraPropertiesItem("x-form", true)

	return nil
}

// Forms are structures of urlencoded bodies.
var Forms = []interface{}{FormTree{}, FormMarked{}, new(FormTree), new(FormMarked)}

// HeaderTree is nested in itself in headers.
type HeaderTree struct {
	Name string       `header:"name" json:"name" minLength:"2"`
	Next *HeaderTree  `header:"X-Next" json:"next"`
	Kids []HeaderTree `header:"X-Kids" json:"kids"`
	Last Filter       `header:"X-Last" json:"last"`
}

// RecursiveHeaders are structures of responses with headers of recursive types.
var RecursiveHeaders = []interface{}{
	HeaderTree{},
	new(HeaderTree),
	struct {
		A HeaderTree `header:"X-A"`
		B HeaderTree `header:"X-B" json:"-"`
	}{},
	new(struct {
		A []HeaderTree          `header:"X-A"`
		B map[string]HeaderTree `header:"X-B"`
		C string                `json:"c"`
	}),
	Cond{},
}

// Virtual has fields that are known at run time only.
type Virtual struct {
	ID     int    `path:"id"`
	Limit  int    `query:"limit" minimum:"1"`
	Marker string `header:"X-Marker"`
	jsonschema.Struct
}

// VirtualNested has fields of its own and a nested virtual structure.
type VirtualNested struct {
	Own    string `json:"own" required:"true"`
	Marker int    `header:"X-Nested"`
	jsonschema.Struct
	Nested jsonschema.Struct `json:"nested"`
}
