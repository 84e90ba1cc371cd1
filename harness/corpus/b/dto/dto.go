// Package dto has generated types.
//
// Code generated by tools/gencorpus.py. DO NOT EDIT.
package dto

import (
	"encoding/json"
	"time"

	"github.com/swaggest/jsonschema-go"
	"verif/harness/corpus/special"
)

// J1 is generated.
type J1 struct {
	Name  special.Pair[string, *special.Tree] `json:"name" description:"Ünïcode – text"`
	Total map[string]uint32                   `json:"total"`
	Data  map[string]int16                    `json:"data,omitempty" minProperties:"1"`
	First []int                               `json:"first,omitempty" uniqueItems:"true"`
	Last  bool                                `description:"untagged"`
	Page  uint8                               `json:"page" description:"With \"quotes\""`
}

// J2 is generated.
type J2 struct {
	_     struct{}  `additionalProperties:"false" deprecated:"true"`
	Group int8      `json:"group,omitempty" example:"6" enum:"2,4,6"`
	State []float64 `json:"state,omitempty"`
}

// J3 is generated.
type J3 struct {
	Total  bool                   `json:"total" required:"false" description:"Some text."`
	Child  *int8                  `json:"child" exclusiveMaximum:"5000" example:"6" required:"true"`
	Flag   *jsonschema.Date       `json:"flag" title:"The title"`
	Date   int8                   `json:"date" default:"4" deprecated:"false"`
	Parent map[string]interface{} `json:"parent,omitempty" description:"With \"quotes\""`
}

// J4 is generated.
type J4 struct {
	Unit  float32   `json:"unit" maximum:"100.5" default:"1.5" description:"Multi word description" deprecated:"true" nullable:"true"`
	Info  []string  `json:"info"`
	State []float64 `json:"state" maxItems:"5" required:"true"`
}

// J5 is generated.
type J5 struct {
	Scope int             `json:"scope" exclusiveMinimum:"-100" required:"true" description:"With \"quotes\"" title:"The title" nullable:"false" readOnly:"true"`
	Kind  *special.Limits `json:"kind" required:"true"`
}

// J6 is generated.
type J6 struct {
	_     struct{}  `title:"J title" description:"J text." deprecated:"true"`
	Next  string    `json:"next" enum:"one,two" description:"Multi word description" readOnly:"true"`
	Info  []int16   `json:"info" title:"The title"`
	Level uint32    `json:"level" required:"true"`
	Unit  []float64 `json:"-"`
	Color uint32    `json:"color,omitempty" required:"false" description:"Multi word description"`
}

// J7 is generated.
type J7 struct {
	*J22
	Name special.Closed `json:"name" description:"With \"quotes\""`
	Page special.File   `json:"page"`
	Data uint32         `json:"data" description:"Ünïcode – text" title:"The title"`
}

// J8 is generated.
type J8 struct {
	Group float32         `json:"group" enum:"2,4,6" writeOnly:"true"`
	Data  map[string]*J21 `json:"data" deprecated:"true"`
	Unit  string          `json:"unit,omitempty" format:"email" description:"Some text."`
	Level map[string]*J6  `json:"level,omitempty" minProperties:"1"`
}

// J9 is generated.
type J9 struct {
	Total *uint32           `json:"total" default:"4" deprecated:"false"`
	Prev  special.Page[J10] `json:"prev,omitempty"`
	Next  []uint32          `description:"untagged"`
	First []int8            `description:"untagged"`
	Inl   struct {
		X int      `json:"x" minimum:"1"`
		Y []string `json:"y"`
	} `json:"inl"`
}

// J10 is generated.
type J10 struct {
	Total [][]string `json:"total" nullable:"false"`
}

// J11 is generated.
type J11 struct {
	_     struct{}               `title:"J title" description:"J text." additionalProperties:"false" deprecated:"true"`
	Body  *J20                   `json:"body" nullable:"false"`
	Group map[string]J20         `json:"group,omitempty" deprecated:"true" nullable:"true"`
	Next  map[string]interface{} `json:"next"`
}

// J12 is generated.
type J12 struct {
	Body []interface{} `json:"body" deprecated:"false"`
	Meta []float64     `json:"meta" maxItems:"6" required:"false" description:"Some text."`
	Next *time.Time    `json:"next" nullable:"false"`
	Text []float32     `json:"text" required:"true" description:"With \"quotes\"" nullable:"false"`
}

// J13 is generated.
type J13 struct {
	First special.Plain     `json:"first" deprecated:"false"`
	Value special.Page[int] `json:"value"`
}

// J14 is generated.
type J14 struct {
	_      struct{}        `description:"J text." additionalProperties:"false" deprecated:"true"`
	First  map[string]*J21 `json:"first" minProperties:"1" nullable:"true"`
	Child  uint8           `json:"-"`
	hidden string          `json:"hidden"`
}

// J15 is generated.
type J15 struct {
	Level  []*J6  `json:"level"`
	hidden string `json:"hidden"`
}

// J16 is generated.
type J16 struct {
	_     struct{}                 `title:"J title" description:"J text." additionalProperties:"false" deprecated:"true"`
	Body  []*J25                   `json:"body"`
	Note  map[string]special.Level `json:"note,omitempty" description:"Ünïcode – text"`
	Level uint64                   `json:"level,omitempty" maximum:"1000" description:"With \"quotes\""`
	Color string                   `json:"color" maxLength:"76"`
	Meta  json.RawMessage          `json:"meta" description:"Some text."`
	Text  uint32                   `json:"text" required:"true" description:"Some text."`
	Price bool                     `json:"price" example:"true" writeOnly:"true"`
}

// J17 is generated.
type J17 struct {
	Kind  *J13           `json:"kind" description:"With \"quotes\""`
	Text  [3]int         `json:"text" required:"true"`
	Owner []uint         `json:"owner,omitempty" maxItems:"7"`
	Data  map[string]*J7 `json:"data" description:"Ünïcode – text"`
}

// J18 is generated.
type J18 struct {
	_ struct{} `title:"J title" description:"J text."`
	J27
	Scope  *uint64 `json:"scope" maximum:"100" description:"Multi word description"`
	Value  int     `json:"value" minimum:"1" example:"6" description:"With \"quotes\"" title:"Title"`
	Level  uint16  `json:"level" exclusiveMaximum:"5000" example:"6" description:"With \"quotes\""`
	hidden string  `json:"hidden"`
}

// J19 is generated.
type J19 struct {
	_    struct{}      `description:"J text." deprecated:"true"`
	Note []interface{} `json:"note,omitempty" required:"false" deprecated:"true"`
	List *int64        `json:"list" maximum:"1000" default:"4" required:"false" description:"Some text."`
	Unit interface{}   `json:"unit"`
	Key  string        `json:"key,omitempty" maxLength:"38" enum:"a,b,c" deprecated:"true"`
	Body int8          `json:"body" multipleOf:"2"`
	Text int16         `json:"text" minimum:"-10" exclusiveMinimum:"-100" exclusiveMaximum:"5000"`
	Meta special.Tree  `json:"meta"`
}

// J20 is generated.
type J20 struct {
	Scope uint8 `json:"scope" multipleOf:"2" default:"4" title:"The title" deprecated:"false"`
}

// J21 is generated.
type J21 struct {
	Path  map[string]*J24         `json:"path"`
	Last  map[string]special.File `json:"last"`
	Size  uint8                   `json:"size,omitempty" description:"With \"quotes\"" writeOnly:"true"`
	Count special.Page[int]       `json:"count" description:"With \"quotes\""`
}

// J22 is generated.
type J22 struct {
	Scope  int16   `json:"scope" example:"6" deprecated:"false"`
	Parent float32 `json:"parent" minimum:"2.25" description:"Multi word description"`
}

// J23 is generated.
type J23 struct {
	_      struct{} `description:"J text." additionalProperties:"false" deprecated:"true"`
	J29    `refer:"true"`
	Parent int64  `json:"parent,omitempty" exclusiveMaximum:"5000"`
	Key    *uint  `description:"untagged"`
	Level  int64  `json:"level,omitempty" exclusiveMaximum:"5000" enum:"2,4,6"`
	Child  uint16 `json:"child" minimum:"0"`
}

// J24 is generated.
type J24 struct {
	_      struct{}            `description:"J text." deprecated:"true"`
	Parent special.Dog         `json:"parent" required:"true"`
	Token  []map[string]string `json:"token" required:"true" description:"Ünïcode – text" writeOnly:"true"`
	Total  uint                `json:"total" maximum:"100" description:"Ünïcode – text"`
	Next   *int8               `json:"next" default:"4" description:"With \"quotes\""`
	Color  []byte              `json:"color" required:"true" description:"With \"quotes\""`
	Inl    struct {
		X int      `json:"x" minimum:"1"`
		Y []string `json:"y"`
	} `json:"inl"`
}

// J25 is generated.
type J25 struct {
	Total  special.Page[int] `json:"total" required:"true" description:"With \"quotes\""`
	Size   *special.Dog      `json:"size"`
	Info   []*special.Dog    `json:"info"`
	hidden string            `json:"hidden"`
}

// J26 is generated.
type J26 struct {
	Date  []bool  `json:"date,omitempty" required:"false" deprecated:"true"`
	Value float32 `json:"-"`
	Last  *J11    `json:"last,omitempty"`
	Data  uint16  `json:"data" title:"The title"`
	Note  *string `json:"note" default:"abc" nullable:"true"`
}

// J27 is generated.
type J27 struct {
	Group int16 `json:"group" minimum:"0" example:"6"`
	Path  *J4   `json:"path,omitempty" description:"With \"quotes\""`
}

// J28 is generated.
type J28 struct {
	*J29  `refer:"true"`
	First uint64  `description:"untagged"`
	Kind  *uint64 `json:"kind" minimum:"1"`
	Info  *uint64 `json:"info" maximum:"1000" exclusiveMinimum:"-100" description:"Ünïcode – text" deprecated:"true"`
	Price []int64 `json:"price,omitempty" deprecated:"true"`
	Total int64   `json:"total" description:"With \"quotes\""`
}

// J29 is generated.
type J29 struct {
	Size  [][]string    `json:"size" title:"The title"`
	Next  special.Level `json:"next" description:"Multi word description"`
	Unit  string        `json:"unit" default:"a b" example:"abc"`
	List  []interface{} `json:"list" deprecated:"false"`
	Scope string        `json:"scope" pattern:"^[a-z0-9]*$" description:"Ünïcode – text"`
}

// J30 is generated.
type J30 struct {
	Group []*special.Dir `json:"group" description:"Ünïcode – text"`
	Name  string         `json:"name" maxLength:"18"`
	Inl   struct {
		X int      `json:"x" minimum:"1"`
		Y []string `json:"y"`
	} `json:"inl"`
}

// JSON are samples.
var JSON = []interface{}{J1{}, J2{}, J3{}, J4{}, J5{}, J6{}, J7{}, J8{}, J9{}, J10{}, J11{}, J12{}, J13{}, J14{}, J15{}, J16{}, J17{}, J18{}, J19{}, J20{}, J21{}, J22{}, J23{}, J24{}, J25{}, J26{}, J27{}, J28{}, J29{}, J30{}}
