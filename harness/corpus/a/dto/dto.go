// Package dto has generated types.
//
// Code generated by tools/gencorpus.py. DO NOT EDIT.
package dto

import (
	"encoding/json"
	"time"

	"verif/harness/corpus/special"
)

// J1 is generated.
type J1 struct {
	Parent int `json:"parent,omitempty" required:"true" title:"The title"`
}

// J2 is generated.
type J2 struct {
	Token float32         `json:"token,omitempty" nullable:"true"`
	Count int32           `json:"count" exclusiveMaximum:"5000" example:"6" required:"true"`
	Child json.RawMessage `json:"child" description:"Multi word description" deprecated:"false"`
	Size  *J3             `json:"size"`
	Inl   struct {
		X int      `json:"x" minimum:"1"`
		Y []string `json:"y"`
	} `json:"inl"`
}

// J3 is generated.
type J3 struct {
	Last []byte `json:"last" writeOnly:"true"`
}

// J4 is generated.
type J4 struct {
	Label interface{}        `json:"label"`
	Meta  uint8              `json:"meta,omitempty" description:"Ünïcode – text"`
	Owner *bool              `json:"owner" default:"false" description:"Some text."`
	Child float64            `json:"child" multipleOf:"0.5" default:"1.5" example:"2.5"`
	State special.Page[int]  `json:"state" nullable:"true"`
	Token map[string]float64 `json:"token" required:"false" description:"With \"quotes\""`
}

// J5 is generated.
type J5 struct {
	J9    `refer:"true"`
	Price int32          `json:"price" minimum:"-10" title:"The title"`
	Body  map[string]int `json:"body" maxProperties:"10"`
	Total uint64         `json:"total,omitempty" maximum:"100"`
	Token uint32         `json:"token,omitempty" minimum:"0" maximum:"1000"`
	State []int          `json:"state" required:"true"`
	Next  []byte         `json:"-"`
	Key   int64          `json:"key" nullable:"true"`
}

// J6 is generated.
type J6 struct {
	Level int8   `json:"level" maximum:"1000" exclusiveMinimum:"-100"`
	Owner []uint `json:"owner" maxItems:"8" description:"Some text."`
}

// J7 is generated.
type J7 struct {
	Id   *special.Animal `description:"untagged"`
	Page int64           `json:"page,omitempty" enum:"2,4,6" readOnly:"true"`
	Unit int64           `json:"unit" minimum:"0" exclusiveMinimum:"-100" description:"Multi word description"`
}

// J8 is generated.
type J8 struct {
	Data  *uint             `json:"data,omitempty" required:"true"`
	List  interface{}       `json:"list,omitempty"`
	Meta  *uint64           `json:"meta" minimum:"1" nullable:"false"`
	Size  json.RawMessage   `json:"size,omitempty" description:"Ünïcode – text"`
	State uint8             `json:"state,omitempty" minimum:"0" required:"false" title:"Title" deprecated:"false" readOnly:"true"`
	Path  []special.Either  `json:"path" deprecated:"false"`
	Prev  special.Page[int] `json:"prev" nullable:"false"`
	Inl   struct {
		X int      `json:"x" minimum:"1"`
		Y []string `json:"y"`
	} `json:"inl"`
}

// J9 is generated.
type J9 struct {
	_     struct{}          `title:"J title" description:"J text." additionalProperties:"false" deprecated:"true"`
	Group map[string]uint32 `json:"group" maxProperties:"10" required:"false" description:"With \"quotes\""`
	Page  []uint64          `json:"page" description:"Multi word description"`
}

// J10 is generated.
type J10 struct {
	Unit  map[string]uint8 `json:"unit,omitempty" minProperties:"1" description:"Ünïcode – text" nullable:"true"`
	Key   float64          `json:"key" maximum:"100.5"`
	Data  map[string]J7    `json:"data"`
	First string           `json:"first,omitempty" minLength:"0" required:"true"`
	Label *uint32          `json:"-"`
}

// J11 is generated.
type J11 struct {
	Label int16 `json:"label" minimum:"0"`
}

// J12 is generated.
type J12 struct {
	Group float32       `json:"group" exclusiveMaximum:"5000" title:"Title"`
	Unit  int64         `json:"unit"`
	Body  []byte        `json:"body" required:"true" deprecated:"false"`
	Token string        `json:"token" maxLength:"34" format:"email" const:"fixed" title:"The title"`
	Prev  map[string]J7 `json:"prev,omitempty" description:"Multi word description"`
	Scope []float32     `json:"scope" required:"false"`
}

// J13 is generated.
type J13 struct {
	Info uint8 `json:"info" minimum:"1" default:"4"`
}

// J14 is generated.
type J14 struct {
	Next  []int  `json:"next" required:"true"`
	Price *J29   `json:"price" title:"Title"`
	Value []byte `description:"untagged"`
}

// J15 is generated.
type J15 struct {
	_     struct{}        `title:"J title" description:"J text." additionalProperties:"false" deprecated:"true"`
	First *time.Time      `json:"first" description:"Multi word description"`
	Name  map[string]J19  `json:"name"`
	Color map[string]uint `json:"color,omitempty" required:"false"`
	Date  *J8             `json:"date,omitempty" required:"true"`
	Flag  J29             `json:"flag"`
	Token float64         `json:"token" minimum:"2.25" default:"1.5"`
	Page  float64         `json:"page,omitempty" exclusiveMaximum:"5000" required:"false"`
}

// J16 is generated.
type J16 struct {
	Data  int   `json:"data" readOnly:"true"`
	Count uint8 `json:"count,omitempty" default:"4"`
	First bool  `json:"first" required:"false"`
}

// J17 is generated.
type J17 struct {
	_     struct{} `title:"J title" description:"J text."`
	State uint     `json:"state,omitempty" minimum:"0" example:"6" enum:"2,4,6" required:"false" writeOnly:"true"`
	Text  uint32   `json:"text" maximum:"100" title:"Title"`
	List  bool     `json:"list,omitempty" default:"true" required:"false"`
	Path  uint     `json:"path" default:"4"`
}

// J18 is generated.
type J18 struct {
	First  []*special.Level `json:"first"`
	Page   bool             `json:"page" nullable:"true"`
	hidden string           `json:"hidden"`
}

// J19 is generated.
type J19 struct {
	Path  int    `json:"path"`
	Body  *int16 `json:"body" required:"false" description:"Multi word description"`
	Key   int    `json:"key" multipleOf:"2" required:"false"`
	Scope uint32 `json:"scope"`
	Data  *int8  `json:"data" exclusiveMaximum:"5000" example:"6" description:"Some text." deprecated:"false" readOnly:"true"`
	Owner int16  `json:"owner,omitempty"`
	Inl   struct {
		X int      `json:"x" minimum:"1"`
		Y []string `json:"y"`
	} `json:"inl"`
}

// J20 is generated.
type J20 struct {
	_ struct{} `title:"J title"`
	J21
	Level string `json:"level" minLength:"2" maxLength:"15" description:"Some text."`
	Group *int8  `json:"-"`
}

// J21 is generated.
type J21 struct {
	Total *string        `json:"total" maxLength:"37" title:"Title"`
	Last  []byte         `json:"last,omitempty"`
	Name  special.Note   `json:"name"`
	Text  *uint32        `json:"text" minimum:"-10"`
	Path  map[string]int `json:"path"`
	Kind  *J24           `json:"kind"`
}

// J22 is generated.
type J22 struct {
	_ struct{} `description:"J text." additionalProperties:"false"`
	J24
	Parent bool               `json:"parent,omitempty" required:"false" title:"Title"`
	Note   *uint64            `json:"note" multipleOf:"2" required:"true"`
	Key    uint8              `json:"key,omitempty" exclusiveMinimum:"-100" readOnly:"true"`
	List   []special.Registry `json:"list"`
	Data   []*J29             `json:"data" nullable:"false"`
	Info   *J2                `json:"info"`
}

// J23 is generated.
type J23 struct {
	_    struct{} `description:"J text." additionalProperties:"false" deprecated:"true"`
	Unit int64    `json:"unit" maximum:"100" enum:"2,4,6"`
}

// J24 is generated.
type J24 struct {
	Color  uint8     `json:"color" description:"Some text."`
	Last   J28       `json:"-"`
	Token  float64   `json:"token" minimum:"0"`
	State  uint16    `json:"state" description:"Some text." nullable:"true"`
	Next   []float64 `json:"next" minItems:"2"`
	hidden string    `json:"hidden"`
}

// J25 is generated.
type J25 struct {
	Date int8              `json:"date" description:"With \"quotes\""`
	Prev special.Page[J28] `json:"prev"`
	Flag float64           `json:"flag" maximum:"100.5" required:"true" description:"With \"quotes\"" writeOnly:"true"`
}

// J26 is generated.
type J26 struct {
	State map[string]special.NotCat `json:"state" title:"Title"`
	Meta  []special.Names           `json:"meta,omitempty" writeOnly:"true"`
	Owner []special.Tree            `json:"owner"`
}

// J27 is generated.
type J27 struct {
	Meta []*J1 `json:"meta" nullable:"false"`
}

// J28 is generated.
type J28 struct {
	Label int16  `json:"label" required:"true" description:"With \"quotes\""`
	Path  uint16 `json:"path" exclusiveMinimum:"-100" example:"6"`
	Inl   struct {
		X int      `json:"x" minimum:"1"`
		Y []string `json:"y"`
	} `json:"inl"`
}

// J29 is generated.
type J29 struct {
	_ struct{} `additionalProperties:"false" deprecated:"true"`
	J30
	Flag *special.Cat `json:"flag,omitempty" required:"true" description:"Multi word description" title:"The title"`
}

// J30 is generated.
type J30 struct {
	_    struct{}         `title:"J title" deprecated:"true"`
	Info float64          `description:"untagged"`
	Data uint64           `json:"data" exclusiveMinimum:"-100" enum:"2,4,6" description:"Some text." writeOnly:"true"`
	List []float64        `json:"list,omitempty" deprecated:"false"`
	Date []*special.Token `json:"date" description:"Multi word description" writeOnly:"true"`
}

// JSON are samples.
var JSON = []interface{}{J1{}, J2{}, J3{}, J4{}, J5{}, J6{}, J7{}, J8{}, J9{}, J10{}, J11{}, J12{}, J13{}, J14{}, J15{}, J16{}, J17{}, J18{}, J19{}, J20{}, J21{}, J22{}, J23{}, J24{}, J25{}, J26{}, J27{}, J28{}, J29{}, J30{}}
