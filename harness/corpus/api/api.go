// Package api has generated requests and responses.
//
// Code generated by cmd/gencorpus. DO NOT EDIT.
package api

import (
	"encoding/json"
	"mime/multipart"
	"time"

	adto "verif/harness/corpus/a/dto"
	bdto "verif/harness/corpus/b/dto"
	"verif/harness/corpus/special"
)

// R1 is generated.
type R1 struct {
	F2 time.Time `header:"token"`
	F1 *uint     `path:"id" enum:"2,4,6" description:"Ünïcode – text"`
	F3 *adto.J5  `json:"key1" nullable:"true"`
	_  struct{}  `cookie:"_" additionalProperties:"false"`
}

// R2 is generated.
type R2 struct {
	F6 *string       `query:"filter[a]"`
	F4 int           `path:"id" enum:"2,4,6" required:"false" description:"Some text."`
	F7 time.Time     `formData:"value"`
	F8 int32         `json:"label" minimum:"-5" maximum:"1000" required:"true"`
	F5 special.Token `path:"name"`
}

// R3 is generated.
type R3 struct {
	F10 string          `path:"name" required:"true" title:"The title"`
	F11 *int            `formData:"info" description:"With \"quotes\" and \\"`
	F13 string          `formData:"first" minLength:"0"`
	F12 string          `formData:"owner" minLength:"1" format:"uuid" required:"false"`
	F9  *string         `path:"id" default:"12"`
	F14 *multipart.File `formData:"count" required:"true" description:"Ünïcode – text"`
}

// R4 is generated.
type R4 struct {
	F20 string        `form:"page"`
	F16 string        `query:"-" description:"junk"`
	F18 special.Level `form:"date"`
	F17 float32       `header:"child"`
	F15 []int         `path:"id" uniqueItems:"false"`
	F19 string        `form:"group"`
}

// ForceRequestBody marks.
func (R4) ForceRequestBody() {}

// R5 is generated.
type R5 struct {
	F26 []*bdto.J6 `json:"key" minItems:"2" description:"Some text."`
	F23 time.Time  `formData:"filter[a]" description:"Other text" title:"The title"`
	F24 bool       `json:"value" default:"true" example:"true" title:"The title"`
	F27 string     `json:"group" default:"12" title:"The title"`
	F22 int        `path:"name" minimum:"3"`
	F25 time.Time  `json:"level"`
	F21 int64      `path:"id" description:"Some text." title:"The title"`
}

// ForceJSONRequestBody marks.
func (R5) ForceJSONRequestBody() {}

// R6 is generated.
type R6 struct {
	F32 int8   `json:"state" default:"4" title:"The title"`
	F33 *int   `json:"color" minimum:"3" description:"With \"quotes\" and \\"`
	F28 string `path:"id" minLength:"0" pattern:"^[a-z]*$" required:"true" deprecated:"false"`
	F31 uint8  `json:"kind" minimum:"3" description:"Ünïcode – text"`
	F29 []byte `contentType:"text/csv"`
	F30 string `contentType:"text/plain"`
}

// ForceRequestBody marks.
func (R6) ForceRequestBody() {}

// R7 is generated.
type R7 struct {
	f34 string `header:"hidden"`
}

// R8 is generated.
type R8 struct {
	F36 []int8          `json:"count,omitempty" maxItems:"10" title:"The title"`
	F37 *multipart.File `formData:"note"`
	F35 uint8           `json:"meta" enum:"2,4,6"`
}

// R9 is generated.
type R9 struct {
	special.Paging ``
	*special.Auth  ``
}

// R10 is generated.
type R10 struct {
}

// R11 is generated.
type R11 struct {
	F39 *special.Color  `header:"list"`
	F41 uint8           `json:"data" maximum:"100" required:"true"`
	F38 *special.Filter `query:"meta"`
	F40 *int64          `cookie:"token" minimum:"0" maximum:"100" example:"6" enum:"2,4,6"`
}

// ForceRequestBody marks.
func (R11) ForceRequestBody() {}

// R12 is generated.
type R12 struct {
	F43 string  `path:"name" required:"true" description:"With \"quotes\" and \\"`
	F42 int     `path:"id" minimum:"3"`
	F44 float64 `formData:"data" example:"2.5" required:"false" nullable:"false"`
}

// R13 is generated.
type R13 struct {
	_   struct{}                `path:"_" additionalProperties:"false"`
	F48 []*multipart.FileHeader `formData:"kind3" deprecated:"false"`
	F47 string                  `formData:"page"`
	F46 []float32               `header:"state" title:"The title"`
	F45 uint32                  `header:"data" multipleOf:"5"`
}

// R14 is generated.
type R14 struct {
	F51 uint          `form:"scope" exclusiveMaximum:"777"`
	F49 *uint8        `cookie:"X-Trace"`
	F50 special.Color `header:"kind1" deprecated:"true"`
	F54 special.Level `form:"unit" deprecated:"false"`
	F55 []bool        `formData:"data" minItems:"2" maxItems:"10"`
	F53 bool          `form:"color"`
	F52 int64         `form:"price" required:"false" description:"Some text."`
}

// R15 is generated.
type R15 struct {
	F56 string   `path:"id" minLength:"1" maxLength:"9" format:"email" example:"abc" description:"With \"quotes\" and \\" title:"The title"`
	F58 bool     `cookie:"owner"`
	F60 int32    `json:"child"`
	F59 *float64 `formData:"x_y" multipleOf:"0.25" title:"The title"`
	F57 float32  `query:"note" description:"Other text" deprecated:"false"`
}

// ForceJSONRequestBody marks.
func (R15) ForceJSONRequestBody() {}

// R16 is generated.
type R16 struct {
	F64 string    `contentType:"text/csv"`
	F61 string    `path:"id" maxLength:"100" required:"false"`
	F67 string    `json:"key" pattern:"^[a-z]*$" enum:"x,y,z" required:"true" nullable:"true"`
	F62 time.Time `path:"name" required:"false"`
	F65 float64   `json:"list"`
	F66 string    `json:"last,omitempty" default:"null" deprecated:"false"`
	F63 []int32   `cookie:"meta" required:"true"`
}

// R17 is generated.
type R17 struct {
	f69 uint8  `query:"hidden"`
	F68 []uint `path:"id" minItems:"0"`
}

// ForceRequestBody marks.
func (R17) ForceRequestBody() {}

// R18 is generated.
type R18 struct {
	F70 time.Time     `path:"id" required:"true" description:"With \"quotes\" and \\"`
	F73 special.Token `query:"x_y" description:"Ünïcode – text"`
	F72 int           `formData:"-" description:"junk"`
	F71 int32         `path:"name" minimum:"0" required:"true"`
	F74 special.Count `header:"kind"`
}

// R19 is generated.
type R19 struct {
	special.Auth   ``
	special.Paging ``
	F75            int8 `path:"id" exclusiveMaximum:"777" description:"With \"quotes\" and \\"`
}

// R20 is generated.
type R20 struct {
	F76 []float64 `cookie:"owner5" description:"Some text."`
}

// R21 is generated.
type R21 struct {
	F79 json.RawMessage `json:"kind" description:"Other text"`
	F80 adto.J4         `json:"label"`
	F78 bool            `cookie:"count" default:"true" example:"true" required:"false" title:"The title"`
	F82 special.Ratio   `json:"flag"`
	F81 int64           `json:"unit,omitempty"`
	F77 []float32       `cookie:"x_y" description:"Some text."`
}

// R22 is generated.
type R22 struct {
	F83 bool      `path:"id"`
	F85 []float32 `formData:"scope"`
	F84 uint8     `formData:"meta" minimum:"-5" default:"4" example:"6"`
	F86 time.Time `json:"info"`
}

// R23 is generated.
type R23 struct {
	F92 interface{}      `json:"owner" nullable:"true"`
	F91 special.Plain    `json:"meta" description:"With \"quotes\" and \\"`
	F87 *time.Time       `path:"id" required:"false"`
	F88 []string         `path:"name" description:"Other text"`
	F89 uint8            `query:"-" description:"junk"`
	F90 []multipart.File `formData:"meta" maxItems:"10" required:"true"`
}

// ForceRequestBody marks.
func (R23) ForceRequestBody() {}

// R24 is generated.
type R24 struct {
	F96 float64 `formData:"X-Trace" default:"1.5" required:"false" title:"The title"`
	F93 int32   `query:"state" collectionFormat:"json"`
	F94 float32 `form:"text" maximum:"1e6" default:"2" description:"Some text."`
	F95 string  `form:"last" examples:"[\"p\",\"q\"]" description:"Ünïcode – text"`
}

// ForceRequestBody marks.
func (R24) ForceRequestBody() {}

// R25 is generated.
type R25 struct {
	F103 []int            `json:"page,omitempty"`
	F100 []multipart.File `formData:"count6"`
	F102 []bdto.J16       `json:"name" maxItems:"5" required:"false" deprecated:"false" nullable:"false"`
	F99  string           `formData:"-" description:"junk"`
	F97  float32          `path:"id" exclusiveMaximum:"777.5"`
	F98  float64          `path:"name" exclusiveMinimum:"-3.5" default:"2" required:"true"`
	F101 *uint8           `json:"X-Trace" minimum:"3" example:"6" required:"true" description:"With \"quotes\" and \\"`
}

// ForceJSONRequestBody marks.
func (R25) ForceJSONRequestBody() {}

// R26 is generated.
type R26 struct {
	F105 string   `contentType:"text/csv"`
	F104 int64    `path:"id" required:"true" title:"The title" deprecated:"true"`
	_    struct{} `path:"_" additionalProperties:"false"`
	F106 string   `contentType:"text/plain"`
}

// R27 is generated.
type R27 struct {
	F109 int8    `query:"-" description:"junk"`
	f108 string  `json:"hidden"`
	F107 float64 `json:"-" description:"junk"`
}

// R28 is generated.
type R28 struct {
	F110 uint8         `header:"x_y" minimum:"-5" enum:"2,4,6"`
	F113 bool          `query:"name" example:"true"`
	F111 int           `header:"page" minimum:"0" required:"false"`
	F112 *special.Cond `query:"page" title:"The title" deprecated:"true"`
}

// R29 is generated.
type R29 struct {
	F114         uint8         `path:"id" required:"false"`
	F115         special.Count `path:"name" required:"true" description:"Other text"`
	F116         *int32        `query:"next" description:"With \"quotes\" and \\"`
	special.Auth ``
}

// R30 is generated.
type R30 struct {
	F117 int    `header:"last" enum:"2,4,6"`
	F118 []int8 `query:"token" required:"true" collectionFormat:"json"`
}

// R31 is generated.
type R31 struct {
	F121 int64       `json:"value6"`
	F119 int         `path:"id" example:"6" deprecated:"false"`
	F120 *string     `cookie:"price1" pattern:"\\d+" title:"The title" deprecated:"false"`
	F122 interface{} `json:"text" nullable:"true"`
	F123 time.Time   `json:"name" description:"Ünïcode – text"`
}

// R32 is generated.
type R32 struct {
	F128 map[string]float32 `formData:"value0" description:"Ünïcode – text"`
	F127 special.Plain      `formData:"text" deprecated:"true"`
	F125 float32            `header:"first" required:"true"`
	F124 float64            `cookie:"list6" description:"Other text"`
	F126 special.Money      `formData:"level"`
}

// R33 is generated.
type R33 struct {
	F133 multipart.File `formData:"value" nullable:"false"`
	F134 special.Money  `json:"date"`
	F130 int32          `query:"meta1" exclusiveMaximum:"777" example:"6" enum:"2,4,6"`
	F131 time.Time      `formData:"count"`
	F129 []string       `path:"id" description:"With \"quotes\" and \\"`
	F132 string         `formData:"flag4" default:"abc" example:"12" deprecated:"true"`
}

// R34 is generated.
type R34 struct {
	F135 []int8  `query:"X-Trace" minItems:"2" collectionFormat:"multi"`
	F136 float32 `form:"first" example:"2.5"`
}

// R35 is generated.
type R35 struct {
	F137 uint32          `query:"-" description:"junk"`
	F140 uint8           `json:"key" default:"4" example:"6" enum:"2,4,6" required:"true" description:"Ünïcode – text"`
	F138 uint            `formData:"total" minimum:"-5"`
	F139 json.RawMessage `json:"prev"`
}

// ForceRequestBody marks.
func (R35) ForceRequestBody() {}

// ForceJSONRequestBody marks.
func (R35) ForceJSONRequestBody() {}

// R36 is generated.
type R36 struct {
	F147 *bdto.J13          `json:"meta"`
	F144 float64            `cookie:"x_y" required:"false"`
	F143 string             `header:"data7" minLength:"1" format:"email"`
	F141 float32            `path:"id" required:"true"`
	F146 map[string]float64 `json:"X-Trace,omitempty" maxProperties:"7" deprecated:"true"`
	F145 []byte             `contentType:"text/csv"`
	F142 *time.Time         `path:"name" required:"true"`
}

// R37 is generated.
type R37 struct {
	f150 float64 `header:"hidden"`
	F149 int32   ``
	f148 int64   `header:"hidden"`
	f151 uint    `header:"hidden"`
}

// ForceRequestBody marks.
func (R37) ForceRequestBody() {}

// R38 is generated.
type R38 struct {
	F152 special.Closed `query:"next" required:"true" collectionFormat:"json"`
	F153 *uint8         `query:"parent" enum:"2,4,6" description:"Other text"`
	F154 string         `cookie:"date" example:"12" required:"false"`
}

// R39 is generated.
type R39 struct {
	special.Auth   ``
	F155           []string `path:"id" description:"Other text" collectionFormat:"csv"`
	special.Paging ``
}

// R40 is generated.
type R40 struct {
	F158 int32      `query:"color6" example:"6" required:"true"`
	_    struct{}   `path:"_" additionalProperties:"true"`
	F156 string     `path:"id" deprecated:"false"`
	F157 string     `path:"name" pattern:"^[a-z]*$" description:"Some text."`
	F159 *time.Time `header:"color" description:"Ünïcode – text"`
}

// R41 is generated.
type R41 struct {
	F160 []special.Ratio `path:"id" maxItems:"10" collectionFormat:"csv"`
	F161 int64           `query:"user-id" maximum:"100" multipleOf:"5" description:"Other text"`
	F163 float32         `json:"X-Trace"`
	F162 json.RawMessage `json:"flag"`
}

// R42 is generated.
type R42 struct {
	F166 special.Animals `json:"count,omitempty" required:"false"`
	_    struct{}        `header:"_" additionalProperties:"false"`
	F164 uint32          `formData:"meta" title:"The title"`
	F167 *string         `json:"key" description:"Other text"`
	F165 []int           `formData:"filter[a]" required:"true" description:"Other text"`
}

// R43 is generated.
type R43 struct {
	F169 bool             `formData:"price"`
	F171 *int64           `json:"x_y" exclusiveMinimum:"-3" required:"false" description:"Ünïcode – text"`
	F170 []*adto.J14      `json:"note,omitempty"`
	F168 []multipart.File `formData:"filter[a]" description:"Some text."`
}

// R44 is generated.
type R44 struct {
	F173 int8           `form:"level" maximum:"100" default:"4"`
	F172 map[string]int `form:"group" required:"true"`
}

// R45 is generated.
type R45 struct {
	F177 uint               `json:"flag" exclusiveMaximum:"777"`
	F174 uint32             `formData:"price" required:"true" description:"With \"quotes\" and \\"`
	F178 special.Registry   `json:"scope" description:"Some text."`
	_    struct{}           `path:"_" additionalProperties:"false"`
	F175 []special.Registry `json:"kind" required:"false" description:"Some text."`
	F176 []adto.J22         `json:"price1"`
}

// ForceJSONRequestBody marks.
func (R45) ForceJSONRequestBody() {}

// R46 is generated.
type R46 struct {
	F179 []byte `contentType:"text/csv"`
}

// R47 is generated.
type R47 struct {
	F180 int     `path:"id" maximum:"100" multipleOf:"5" required:"true" description:"Other text"`
	F181 *uint64 `path:"name" description:"With \"quotes\" and \\"`
	f182 string  `json:"hidden"`
	F184 bool    ``
	F183 float64 ``
}

// R48 is generated.
type R48 struct {
	F188 *uint64                     `query:"name" description:"With \"quotes\" and \\"`
	F190 []*adto.J7                  `json:"text,omitempty" description:"Some text."`
	F186 uint32                      `query:"unit" multipleOf:"2" exclusiveMaximum:"777" default:"4"`
	F185 int32                       `path:"id" enum:"2,4,6"`
	F189 special.Ratio               `json:"prev" description:"Ünïcode – text" title:"The title"`
	F191 *special.Page[special.Tree] `json:"key1" description:"With \"quotes\" and \\"`
	F187 *uint32                     `query:"value" minimum:"-5"`
}

// R49 is generated.
type R49 struct {
	*special.Auth  ``
	F192           uint8 `path:"id"`
	special.Paging ``
}

// R50 is generated.
type R50 struct {
}

// R51 is generated.
type R51 struct {
	F196 int32         `json:"state" deprecated:"false"`
	F195 special.Level `cookie:"meta"`
	F193 int64         `cookie:"key"`
	F194 []float32     `query:"level" uniqueItems:"true"`
}

// R52 is generated.
type R52 struct {
	F201 []int      `formData:"parent" nullable:"true"`
	F197 float32    `path:"id" minimum:"-1.5"`
	F199 float32    `query:"group5" required:"true"`
	F198 *time.Time `path:"name" description:"Ünïcode – text"`
	F200 string     `header:"filter[a]" required:"true"`
}

// R53 is generated.
type R53 struct {
	F207 multipart.File `formData:"group" description:"Ünïcode – text" title:"The title"`
	F202 string         `path:"id" minLength:"0" maxLength:"100" example:"12"`
	F203 []int          `path:"name" collectionFormat:"csv"`
	F209 adto.J19       `json:"value"`
	F208 int64          `json:"first" required:"true"`
	_    struct{}       `cookie:"_" additionalProperties:"false"`
	F204 int8           `header:"X-Trace" maximum:"100"`
	F205 *string        `query:"unit"`
	F206 float32        `header:"prev" title:"The title"`
}

// ForceRequestBody marks.
func (R53) ForceRequestBody() {}

// R54 is generated.
type R54 struct {
	_    struct{}        `query:"_" additionalProperties:"true"`
	F212 bool            `form:"meta" example:"true" required:"true" description:"With \"quotes\" and \\"`
	F210 int             `path:"id" example:"6"`
	F211 []special.Count `path:"name"`
	F213 int             `form:"label" required:"true"`
}

// R55 is generated.
type R55 struct {
	F214 string         `path:"id" title:"The title"`
	F216 []special.Sort `formData:"first" required:"true"`
	F217 float32        `json:"state" maximum:"1e6" multipleOf:"0.25" title:"The title"`
	F218 adto.J10       `json:"meta2" description:"Ünïcode – text"`
	F215 string         `path:"name" required:"true"`
}

// ForceRequestBody marks.
func (R55) ForceRequestBody() {}

// ForceJSONRequestBody marks.
func (R55) ForceJSONRequestBody() {}

// R56 is generated.
type R56 struct {
	F219 string  `contentType:"text/csv"`
	F220 adto.J2 `json:"date2" description:"Some text." deprecated:"true"`
}

// R57 is generated.
type R57 struct {
	f224 uint8  `query:"hidden"`
	f225 int64  `json:"hidden"`
	F221 []uint `path:"id" description:"Some text."`
	F223 string ``
	F222 int    ``
}

// R58 is generated.
type R58 struct {
	F226 time.Time `path:"id" deprecated:"false"`
	F228 int32     `header:"page4" maximum:"1000" default:"4"`
	F230 int64     `json:"total,omitempty" maximum:"100" description:"Other text"`
	F227 string    ``
	F229 int64     `cookie:"level" description:"Some text."`
}

// R59 is generated.
type R59 struct {
	special.Auth   ``
	special.Paging ``
	special.Base   ``
	F231           *special.Cond `query:"last" description:"Other text"`
}

// ForceRequestBody marks.
func (R59) ForceRequestBody() {}

// R60 is generated.
type R60 struct {
	F237 float32  `cookie:"first" required:"true"`
	F234 bool     `header:"level0" required:"true" description:"With \"quotes\" and \\" deprecated:"false"`
	F238 []uint32 `query:"X-Trace" minItems:"2" required:"true" description:"Other text"`
	F233 []int    `path:"name" required:"true" collectionFormat:"csv"`
	F232 string   `path:"id" required:"true"`
	F236 float64  `cookie:"kind" minimum:"0"`
	F239 *string  `query:"token" examples:"[\"p\",\"q\"]" required:"false" deprecated:"false"`
	F235 []string `header:"level" deprecated:"false"`
}

// ForceRequestBody marks.
func (R60) ForceRequestBody() {}

// R61 is generated.
type R61 struct {
	F247 []special.Page[special.Note]            `json:"next"`
	F240 []uint                                  `path:"id" maxItems:"10" uniqueItems:"true"`
	F244 *int                                    `json:"value,omitempty" exclusiveMinimum:"-3"`
	F241 special.Cond                            `query:"meta"`
	F245 special.Page[special.Page[special.Cat]] `json:"prev" title:"The title"`
	F246 int8                                    `json:"parent" exclusiveMinimum:"-3" example:"6" required:"true"`
	F243 *special.Money                          `json:"info" description:"Some text."`
	F242 string                                  `cookie:"filter[a]" deprecated:"false"`
}

// R62 is generated.
type R62 struct {
	F248 []int8          `query:"color" description:"Ünïcode – text" collectionFormat:"pipes"`
	F250 map[string]int8 `json:"child" required:"false" description:"Some text."`
	F249 special.Money   `formData:"text" required:"false"`
	F251 *uint8          `json:"kind"`
}

// R63 is generated.
type R63 struct {
	F256 string         `formData:"key"`
	F253 uint8          `cookie:"note" example:"6" enum:"2,4,6"`
	F258 multipart.File `formData:"parent"`
	F252 special.Sort   `query:"unit"`
	F255 string         `formData:"x_y" enum:"a,b" default:"12"`
	F254 string         `query:"label7" deprecated:"true"`
	F257 int            `formData:"owner"`
}

// R64 is generated.
type R64 struct {
	F259 []int64  `path:"id" required:"false"`
	F262 int64    `form:"info1"`
	F261 int8     `form:"first" minimum:"-5" maximum:"100"`
	F260 *int64   `path:"name"`
	_    struct{} `path:"_" additionalProperties:"false"`
}

// R65 is generated.
type R65 struct {
	F263 time.Time        `query:"key"`
	F264 int              `header:"owner" example:"6" enum:"2,4,6" required:"false"`
	F267 []byte           `json:"price" uniqueItems:"false"`
	F266 special.NotCat   `json:"meta"`
	F265 []multipart.File `formData:"child"`
}

// ForceJSONRequestBody marks.
func (R65) ForceJSONRequestBody() {}

// R66 is generated.
type R66 struct {
	F268 string `contentType:"text/csv"`
	F269 string `contentType:"text/plain"`
}

// R67 is generated.
type R67 struct {
	F271 float64 `path:"name"`
	F274 uint    `formData:"-" description:"junk"`
	F273 int64   `json:"-" description:"junk"`
	F270 string  `path:"id" pattern:"^[a-z]*$" enum:"x,y,z" description:"Some text."`
	F272 uint64  `json:"-" description:"junk"`
}

// R68 is generated.
type R68 struct {
	F276 json.RawMessage `json:"next,omitempty"`
	F275 []int32         `json:"prev"`
}

// R69 is generated.
type R69 struct {
	special.Base   ``
	special.Paging ``
	special.Auth   ``
}

// R70 is generated.
type R70 struct {
	_    struct{}       `cookie:"_" additionalProperties:"false"`
	F278 special.Closed `query:"state" required:"true" description:"Some text."`
	F277 uint32         `header:"data1" enum:"2,4,6"`
	F279 *uint32        `query:"total" required:"true" title:"The title"`
}

// R71 is generated.
type R71 struct {
	F280 float32          `path:"id"`
	F284 time.Time        `json:"flag" description:"Ünïcode – text" deprecated:"true" nullable:"false"`
	F286 adto.J20         `json:"total" required:"true"`
	F282 time.Time        `query:"count" required:"true"`
	F285 special.Money    `json:"label,omitempty" description:"Ünïcode – text"`
	F287 map[string]uint8 `json:"value" maxProperties:"7" nullable:"true"`
	F283 uint8            `query:"x_y6" exclusiveMinimum:"-3" description:"Other text"`
	F281 uint8            `cookie:"meta" maximum:"1000" required:"true" description:"With \"quotes\" and \\"`
}

// R72 is generated.
type R72 struct {
	F292 int           `formData:"user-id" required:"false"`
	F288 uint8         `path:"id"`
	F293 uint          `formData:"flag" deprecated:"true"`
	F290 special.Level `cookie:"date"`
	F291 int64         `query:"x_y" multipleOf:"5" enum:"2,4,6" title:"The title" deprecated:"true"`
	F289 string        `query:"color" minLength:"3"`
}

// R73 is generated.
type R73 struct {
	F294 []uint32        `query:"prev" collectionFormat:"multi"`
	F295 *multipart.File `formData:"info"`
}

// R74 is generated.
type R74 struct {
	F298 uint8   `form:"owner" required:"true"`
	F299 int64   `formData:"price" example:"6" required:"true" description:"Ünïcode – text" title:"The title"`
	F296 float32 `path:"id" exclusiveMinimum:"-3.5" required:"false"`
	F297 uint8   `form:"parent" description:"Ünïcode – text"`
}

// ForceRequestBody marks.
func (R74) ForceRequestBody() {}

// R75 is generated.
type R75 struct {
	F305 []bdto.J6      `json:"user-id"`
	F302 []uint32       `cookie:"prev" description:"Some text."`
	F304 adto.J13       `json:"X-Trace"`
	F300 *special.Ratio `path:"id" description:"Ünïcode – text" title:"The title"`
	F301 string         `path:"name" format:"uuid"`
	F303 uint8          `formData:"next" required:"true"`
}

// ForceJSONRequestBody marks.
func (R75) ForceJSONRequestBody() {}

// R76 is generated.
type R76 struct {
	F307 []string `header:"kind" title:"The title" collectionFormat:"csv"`
	F308 string   `contentType:"text/csv"`
	F309 string   `contentType:"text/plain"`
	f306 uint64   `header:"hidden"`
}

// R77 is generated.
type R77 struct {
	F310 []int64 `path:"id" uniqueItems:"true" collectionFormat:"csv"`
	F313 float64 `json:"-" description:"junk"`
	F311 *int8   `path:"name" exclusiveMinimum:"-3" required:"false" description:"Other text" deprecated:"false"`
	F312 string  ``
	f314 uint    `json:"hidden"`
}

// R78 is generated.
type R78 struct {
	F315 map[string]adto.J6 `json:"value"`
	F316 uint64             `json:"next8" multipleOf:"2" exclusiveMinimum:"-3" deprecated:"true"`
	F317 special.Cat        `json:"X-Trace,omitempty" required:"true"`
}

// ForceRequestBody marks.
func (R78) ForceRequestBody() {}

// R79 is generated.
type R79 struct {
	special.Base   ``
	F318           string `cookie:"first" default:"abc"`
	special.Auth   ``
	special.Paging ``
}

// ForceRequestBody marks.
func (R79) ForceRequestBody() {}

// R80 is generated.
type R80 struct {
	F319 string `header:"kind" required:"true"`
}

// R81 is generated.
type R81 struct {
	F320 int       ``
	F321 time.Time `json:"kind"`
	F325 int       `json:"total1"`
	F324 []float32 `json:"page"`
	F323 bdto.J10  `json:"total" required:"false"`
	F322 []bool    `json:"key" uniqueItems:"false"`
}

// R82 is generated.
type R82 struct {
	F329 int            `formData:"level" exclusiveMaximum:"777"`
	F330 bool           `formData:"text" required:"true" description:"Some text."`
	F332 int            `formData:"group" maximum:"1000" example:"6" description:"With \"quotes\" and \\" deprecated:"true" nullable:"false"`
	F328 *string        `query:"token"`
	F327 uint8          `path:"name" example:"6"`
	F333 []*special.Cat `json:"meta" description:"Ünïcode – text"`
	F326 special.Token  `path:"id"`
	F331 string         `formData:"name" default:"12" example:"abc" title:"The title"`
}

// R83 is generated.
type R83 struct {
	F334 bool            `path:"id"`
	F337 uint64          `query:"date" exclusiveMinimum:"-3"`
	F338 *multipart.File `formData:"parent" description:"Other text"`
	F339 json.RawMessage `json:"note" required:"true"`
	F336 int32           `header:"page" multipleOf:"2" enum:"2,4,6" required:"true" description:"Some text."`
	F335 *time.Time      `cookie:"value"`
}

// R84 is generated.
type R84 struct {
	F342 uint32  `form:"note" multipleOf:"2" description:"Some text." title:"The title"`
	F341 float32 `form:"user-id" exclusiveMaximum:"777.5"`
	F340 *string `query:"prev"`
	F343 *int8   `form:"filter[a]3" minimum:"3" maximum:"100" description:"Other text"`
}

// R85 is generated.
type R85 struct {
	F347 []int         `json:"state"`
	F345 special.Money `formData:"total4"`
	F344 []int64       `query:"unit" description:"Some text." collectionFormat:"pipes"`
	F346 int32         `json:"level" default:"4" description:"Ünïcode – text"`
	_    struct{}      `query:"_" additionalProperties:"true"`
}

// ForceRequestBody marks.
func (R85) ForceRequestBody() {}

// ForceJSONRequestBody marks.
func (R85) ForceJSONRequestBody() {}

// R86 is generated.
type R86 struct {
	F352 []byte `contentType:"text/csv"`
	F351 uint64 `query:"scope" required:"true"`
	F348 int64  `path:"id" default:"4" description:"Ünïcode – text"`
	F349 uint8  `path:"name" maximum:"100" example:"6" required:"false"`
	F353 string `contentType:"text/plain"`
	F350 *bool  `query:"label"`
}

// ForceRequestBody marks.
func (R86) ForceRequestBody() {}

// R87 is generated.
type R87 struct {
	f355 uint8   `header:"hidden"`
	F354 float64 ``
}

// ForceRequestBody marks.
func (R87) ForceRequestBody() {}

// R88 is generated.
type R88 struct {
	F357 string   `query:"owner" description:"Other text"`
	F356 *int     `query:"child"`
	F358 adto.J19 `json:"count0"`
}

// R89 is generated.
type R89 struct {
	*special.Auth  ``
	special.Paging ``
	special.Base   ``
	F361           uint8 `header:"level4" multipleOf:"2" default:"4" enum:"2,4,6" description:"With \"quotes\" and \\" deprecated:"false"`
	F359           int64 `path:"id" exclusiveMaximum:"777"`
	F360           int   `query:"parent"`
}

// R90 is generated.
type R90 struct {
	F365 special.Token `cookie:"data3" description:"Ünïcode – text"`
	F364 time.Time     `query:"x_y" required:"true"`
	F362 uint32        `path:"id" required:"false" title:"The title"`
	F366 []int         `query:"level" collectionFormat:"csv"`
	F367 *time.Time    `query:"count" deprecated:"false"`
	F368 string        `header:"color" default:"null" deprecated:"false"`
	F363 float32       `cookie:"state" description:"Some text."`
}

// R91 is generated.
type R91 struct {
	F370 int64           `header:"unit" minimum:"3" maximum:"1000"`
	F371 float32         `query:"count"`
	F374 []int8          `json:"user-id"`
	F373 *string         `json:"group"`
	F372 []special.Money `query:"x_y" title:"The title"`
	F369 float64         `path:"id" example:"2.5"`
}

// R92 is generated.
type R92 struct {
	F378 special.Sort `formData:"token"`
	F379 []string     `formData:"X-Trace" required:"false"`
	F377 uint32       `formData:"total" maximum:"100" default:"4" deprecated:"false"`
	F376 float32      `formData:"unit" description:"Some text."`
	F375 int32        `path:"id" description:"Some text."`
}

// R93 is generated.
type R93 struct {
	F383 *multipart.File `formData:"first"`
	F381 []int           `query:"value" maxItems:"5" description:"Some text." collectionFormat:"multi"`
	F382 []string        `formData:"x_y9" items.minLength:"2" deprecated:"false"`
	F380 bool            `formData:"-" description:"junk"`
	F384 int64           `formData:"label" required:"true"`
}

// R94 is generated.
type R94 struct {
	F388 uint8  `formData:"next"`
	F386 uint8  `form:"text" default:"4" enum:"2,4,6"`
	F385 int    `form:"page"`
	F387 uint32 `form:"list" maximum:"1000" multipleOf:"5"`
}

// R95 is generated.
type R95 struct {
	F389 float64         `path:"id" minimum:"-1.5" deprecated:"false"`
	F391 *float32        `formData:"scope" exclusiveMaximum:"777.5" title:"The title"`
	F392 int8            `json:"scope" description:"Some text."`
	F390 uint64          `path:"name" minimum:"-5" multipleOf:"5"`
	F394 []float64       `json:"info" uniqueItems:"true" required:"true" deprecated:"false" nullable:"true"`
	F395 json.RawMessage `json:"state" title:"The title"`
	F393 int             `json:"unit" required:"false"`
}

// ForceRequestBody marks.
func (R95) ForceRequestBody() {}

// ForceJSONRequestBody marks.
func (R95) ForceJSONRequestBody() {}

// R96 is generated.
type R96 struct {
	F399 special.Token `json:"total"`
	F397 []byte        `contentType:"text/csv"`
	F396 *int          `query:"unit"`
	F398 special.Token `json:"X-Trace" required:"true"`
}

// R97 is generated.
type R97 struct {
	f402 float32       `header:"hidden"`
	F400 special.Count `path:"id" required:"true"`
	F403 int           ``
	F401 []string      `path:"name" title:"The title"`
	f404 string        `header:"hidden"`
}

// ForceRequestBody marks.
func (R97) ForceRequestBody() {}

// R98 is generated.
type R98 struct {
	F407 time.Time     `cookie:"color" required:"true"`
	F408 special.Plain `query:"total" collectionFormat:"json"`
	F405 int8          `path:"id" exclusiveMinimum:"-3" exclusiveMaximum:"777" description:"With \"quotes\" and \\" deprecated:"true"`
	F406 bool          ``
}

// R99 is generated.
type R99 struct {
	F409           float32 `path:"id" exclusiveMinimum:"-3.5" required:"true" description:"Other text"`
	special.Paging ``
	F410           *special.Token `query:"label"`
	special.Base   ``
}

// R100 is generated.
type R100 struct {
	F412 uint          `query:"total" enum:"2,4,6" required:"false" description:"Some text."`
	F414 []string      `query:"token" minItems:"0" items.minLength:"2" collectionFormat:"pipes"`
	F411 int           `path:"id" required:"true" description:"Ünïcode – text" title:"The title"`
	F413 special.Money `cookie:"count"`
}

// ForceRequestBody marks.
func (R100) ForceRequestBody() {}

// L1 is generated.
type L1 map[string]adto.J30

// L2 is generated.
type L2 []adto.J28

// L3 is generated.
type L3 []special.Closed

// L4 is generated.
type L4 map[string][]special.Closed

// L5 is generated.
type L5 map[string]bdto.J25

// L6 is generated.
type L6 []bdto.J8

// L7 is generated.
type L7 []adto.J26

// L8 is generated.
type L8 []*bdto.J18

// L9 is generated.
type L9 map[string]bdto.J17

// L10 is generated.
type L10 map[string][]bdto.J6

// L11 is generated.
type L11 map[string][]bdto.J28

// L12 is generated.
type L12 []special.Cat

// L13 is generated.
type L13 map[string]special.Page[special.Note]

// L14 is generated.
type L14 map[string][]adto.J19

// L15 is generated.
type L15 []adto.J19

// L16 is generated.
type L16 []bdto.J7

// L17 is generated.
type L17 []special.Animals

// L18 is generated.
type L18 map[string]special.Page[special.Tree]

// L19 is generated.
type L19 map[string]bdto.J25

// L20 is generated.
type L20 []*bdto.J17

// S1 is generated.
type S1 struct {
	F417         bool `header:"count9" example:"true" required:"true" title:"The title" deprecated:"false"`
	special.Base ``
	F416         special.Plain `header:"text"`
	F415         *int          `header:"next" exclusiveMinimum:"-3"`
}

// S2 is generated.
type S2 struct {
}

// S3 is generated.
type S3 struct {
	F418 special.Dog `json:"prev"`
	F420 time.Time   `header:"note8"`
	F419 int32       `header:"page" minimum:"3"`
}

// S4 is generated.
type S4 struct {
	F422 float64 `header:"next" minimum:"-1.5" default:"1.5" description:"Ünïcode – text"`
	F421 string  `header:"page"`
}

// S5 is generated.
type S5 struct {
	F423 int64 `header:"group" title:"The title"`
}

// S6 is generated.
type S6 struct {
	f425 float32 `header:"hidden"`
	F424 uint32  `header:"filter[a]" maximum:"100"`
}

// S7 is generated.
type S7 struct {
	F426 string `contentType:"text/csv"`
}

// S8 is generated.
type S8 struct {
	F427 string `json:"next,omitempty" minLength:"0" maxLength:"100" enum:"[\"p\",\"q r\"]" default:"null" title:"The title"`
	F429 *bool  `json:"key1" default:"true" nullable:"false"`
	F428 uint32 `json:"key,omitempty" deprecated:"true"`
	F430 string `contentType:"text/csv"`
}

// S9 is generated.
type S9 struct {
	F431 []int  `json:"page" minItems:"0" uniqueItems:"true"`
	F433 string `header:"note" required:"true"`
	F432 string `header:"total" description:"With \"quotes\" and \\"`
}

// S10 is generated.
type S10 struct {
	F434         uint ``
	special.Base ``
}

// S11 is generated.
type S11 struct {
	F437 interface{} `json:"data" description:"Ünïcode – text" title:"The title" deprecated:"true"`
	F436 []uint8     `json:"label" required:"true"`
	F435 bool        `json:"list" default:"true"`
}

// S12 is generated.
type S12 struct {
	special.Base ``
	F438         float64           `json:"data" required:"true"`
	_            struct{}          `description:"Described structure." title:"T"`
	F439         map[string]uint64 `json:"child" required:"true"`
}

// S13 is generated.
type S13 struct {
	F441 bool        `header:"X-Trace2" required:"true" description:"Other text"`
	F442 string      `contentType:"text/csv"`
	F440 interface{} `json:"meta" description:"Ünïcode – text"`
}

// S14 is generated.
type S14 struct {
	F443 float64 ``
}

// S15 is generated.
type S15 struct {
	F445 int64   `header:"token" title:"The title"`
	F444 uint64  `header:"scope" enum:"2,4,6" required:"true" description:"Some text."`
	f446 float32 `query:"hidden"`
}

// S16 is generated.
type S16 struct {
	F448 time.Time `header:"state" description:"Some text." deprecated:"true"`
	F449 time.Time `header:"group" description:"Other text"`
	F447 adto.J11  `json:"total,omitempty"`
}

// S17 is generated.
type S17 struct {
	F452 []byte    `json:"value" maxItems:"10" description:"Ünïcode – text" title:"The title"`
	_    struct{}  `description:"A response." title:"T"`
	F453 uint      `json:"meta" example:"6"`
	F451 time.Time `json:"flag" description:"With \"quotes\" and \\"`
	F450 *int32    `json:"child" enum:"2,4,6" nullable:"true"`
}

// S18 is generated.
type S18 struct {
	F454 string `header:"owner" description:"Other text"`
	F455 int    `formData:"-" description:"junk"`
}

// S19 is generated.
type S19 struct {
	special.Meta ``
	F457         *int                `json:"first5" multipleOf:"5" required:"true" description:"Ünïcode – text"`
	F458         uint32              `json:"name,omitempty" multipleOf:"5" default:"4" description:"Other text"`
	F459         []uint32            `json:"total6"`
	F456         map[string]bdto.J13 `json:"state" minProperties:"1" required:"true"`
}

// S20 is generated.
type S20 struct {
}

// S21 is generated.
type S21 struct {
	F463 *string                                            `header:"X-Trace" required:"false"`
	f464 int32                                              `query:"hidden"`
	F460 float64                                            `json:"state,omitempty" maximum:"100.25" exclusiveMaximum:"777.5" default:"1.5" description:"Some text."`
	F462 special.Money                                      `json:"list" required:"true"`
	F461 map[string]special.Page[special.Page[special.Cat]] `json:"parent,omitempty" description:"Ünïcode – text"`
}

// S22 is generated.
type S22 struct {
	F465         bool  `json:"unit,omitempty" required:"true" deprecated:"false"`
	F467         uint8 `json:"first" multipleOf:"2" title:"The title"`
	special.Meta ``
	F466         int64 `json:"label,omitempty" example:"6" enum:"2,4,6"`
}

// S23 is generated.
type S23 struct {
	F471 special.Level    `json:"value,omitempty" description:"With \"quotes\" and \\"`
	F470 *float64         `json:"child" exclusiveMaximum:"777.5" description:"Ünïcode – text" nullable:"false"`
	F472 uint8            `header:"flag2" enum:"2,4,6"`
	F473 string           `header:"name" format:"my-format"`
	F468 interface{}      `json:"user-id,omitempty" description:"With \"quotes\" and \\" nullable:"false"`
	F469 []*special.Point `json:"group" required:"true"`
}

// S24 is generated.
type S24 struct {
	F474 []uint32    `json:"name1" uniqueItems:"false"`
	F476 []bdto.J29  `json:"label,omitempty"`
	F475 []*bdto.J11 `json:"name"`
}

// S25 is generated.
type S25 struct {
	F477 json.RawMessage `json:"parent" description:"Some text."`
	F478 float32         `header:"scope" maximum:"100.25" exclusiveMaximum:"777.5" default:"1.5" example:"2.5"`
	F480 float32         `header:"unit" default:"1.5"`
	F479 special.Plain   `header:"state" required:"true" description:"Other text"`
}

// S26 is generated.
type S26 struct {
	F481         adto.J29 `json:"first2" required:"true"`
	F482         int      `json:"name0" minimum:"0" required:"true" deprecated:"false"`
	special.Base ``
	f483         int64 `json:"hidden"`
}

// S27 is generated.
type S27 struct {
	_ struct{} `description:"A response." title:"T"`
}

// S28 is generated.
type S28 struct {
	F484         special.Level `json:"prev" description:"Ünïcode – text"`
	special.Base ``
}

// S29 is generated.
type S29 struct {
	special.Meta ``
}

// S30 is generated.
type S30 struct {
	F485 map[string]float32 `json:"scope" description:"With \"quotes\" and \\"`
}

// S31 is generated.
type S31 struct {
	special.Meta ``
}

// S32 is generated.
type S32 struct {
	F486 int32    `json:"flag" minimum:"0" deprecated:"true"`
	F488 int      `json:"unit7" multipleOf:"2"`
	F487 *float32 `json:"list6"`
}

// S33 is generated.
type S33 struct {
	F489 map[string]uint8 `json:"level" minProperties:"1" required:"true" description:"Some text."`
	F490 int64            `json:"total,omitempty" nullable:"false"`
}

// S34 is generated.
type S34 struct {
	F491 map[string]special.Cat `json:"parent,omitempty" maxProperties:"7" required:"false"`
	F492 string                 `json:"owner" minLength:"0" pattern:"\\d+" nullable:"false"`
}

// S35 is generated.
type S35 struct {
	F494 int64         `header:"date" minimum:"3" required:"false"`
	F493 *special.Note `json:"color"`
	F495 int64         `formData:"-" description:"junk"`
}

// S36 is generated.
type S36 struct {
	F500         []uint                                     `header:"data" required:"false"`
	F496         uint8                                      `json:"list" maximum:"100" example:"6" description:"Other text"`
	F498         interface{}                                `json:"parent" title:"The title"`
	F497         special.Pair[special.Color, *special.Tree] `json:"x_y8"`
	F499         adto.J11                                   `json:"owner,omitempty"`
	F501         *int8                                      `header:"level" default:"4"`
	special.Meta ``
}

// S37 is generated.
type S37 struct {
	F503         special.Plain `header:"note"`
	special.Meta ``
	F502         string   `header:"color"`
	F504         *float32 `header:"text" exclusiveMaximum:"777.5" required:"true" description:"With \"quotes\" and \\"`
}

// S38 is generated.
type S38 struct {
	F505 []special.Page[special.Note] `json:"next" maxItems:"10" required:"true" description:"Other text"`
	F506 []*bdto.J4                   `json:"key"`
}

// S39 is generated.
type S39 struct {
	F509 string   `json:"user-id0" enum:"a,b" required:"true"`
	F508 []string `json:"next,omitempty" uniqueItems:"false" items.minLength:"2" required:"false"`
	F510 []uint32 `json:"list"`
	F507 *string  `json:"info" minLength:"0" pattern:"^[a-z]*$" format:"email"`
}

// S40 is generated.
type S40 struct {
	F511 uint `header:"X-Trace"`
}

// S41 is generated.
type S41 struct {
	F512 int             `json:"last" exclusiveMinimum:"-3"`
	F514 special.Animals `json:"key"`
	F515 *float64        `json:"color" title:"The title"`
	F513 []*adto.J4      `json:"label8" minItems:"0"`
	f516 uint32          `query:"hidden"`
}

// S42 is generated.
type S42 struct {
	F520 bdto.J27 `json:"last,omitempty"`
	F517 bdto.J12 `json:"X-Trace"`
	F518 *adto.J2 `json:"label"`
	F519 int      `json:"token" default:"4"`
}

// S43 is generated.
type S43 struct {
	F521 int8 `header:"value"`
}

// S44 is generated.
type S44 struct {
	F523 int   `header:"date0" default:"4"`
	F522 int64 `header:"list"`
}

// S45 is generated.
type S45 struct {
	F524 adto.J19  `json:"flag" required:"true" description:"Other text"`
	F525 []adto.J4 `json:"group" maxItems:"10"`
	F527 string    `contentType:"text/html"`
	F526 *uint64   `json:"unit" title:"The title"`
}

// S46 is generated.
type S46 struct {
	F529         string `json:"last" maxLength:"100" description:"Other text"`
	special.Base ``
	F530         json.RawMessage `json:"child" required:"true"`
	F528         time.Time       `json:"flag0" description:"Some text."`
}

// S47 is generated.
type S47 struct {
	F536 time.Time `header:"date2" description:"With \"quotes\" and \\"`
	F534 *uint32   `json:"last" enum:"2,4,6" nullable:"false"`
	F532 []uint8   `json:"X-Trace" required:"true" description:"Some text."`
	_    struct{}  `description:"A response." title:"T"`
	F537 string    `header:"total" maxLength:"100"`
	F538 string    `contentType:"text/html"`
	F535 []uint    `header:"count" description:"Other text"`
	F533 int       `json:"info" exclusiveMinimum:"-3"`
	F531 []int     `json:"page"`
}

// S48 is generated.
type S48 struct {
	f540 float32 `query:"hidden"`
	F539 string  `contentType:"text/csv"`
}

// S49 is generated.
type S49 struct {
	F543 special.Animals `json:"state,omitempty" required:"true"`
	F541 uint8           `json:"parent" minimum:"0" maximum:"1000" description:"Some text."`
	F545 int8            `query:"-" description:"junk"`
	F544 *uint64         `header:"unit9"`
	F542 *bdto.J25       `json:"group4,omitempty" required:"true" description:"With \"quotes\" and \\" nullable:"true"`
}

// S50 is generated.
type S50 struct {
	F546 int32 `header:"x_y" required:"false"`
}

// S51 is generated.
type S51 struct {
	F547 special.Color `json:"note" required:"false"`
}

// S52 is generated.
type S52 struct {
	F551 uint32  `header:"owner"`
	F549 *bool   `json:"token"`
	F550 float32 `json:"next" example:"2.5" required:"false" deprecated:"true"`
	F548 uint    `json:"data" minimum:"0" required:"true" description:"Other text"`
	f552 string  `query:"hidden"`
}

// S53 is generated.
type S53 struct {
	F553 *int64    `json:"date,omitempty" minimum:"3" exclusiveMaximum:"777"`
	F554 time.Time `json:"text"`
}

// S54 is generated.
type S54 struct {
	F555 []special.File   `json:"prev"`
	F556 special.DeepBase `json:"child"`
	F558 int8             `json:"last1" exclusiveMaximum:"777" enum:"2,4,6" description:"Ünïcode – text"`
	F557 int              `json:"unit" exclusiveMaximum:"777"`
}

// S55 is generated.
type S55 struct {
	F559         bool `header:"unit4"`
	special.Base ``
	F560         uint32 `header:"date1"`
	F561         int32  ``
}

// S56 is generated.
type S56 struct {
	F562 map[string]int32 `json:"X-Trace" minProperties:"1" required:"false"`
}

// S57 is generated.
type S57 struct {
	F566 string         `header:"group" format:"my-format"`
	F564 map[string]int `json:"count"`
	F565 string         `json:"flag,omitempty" format:"my-format"`
	F563 special.Ratio  `json:"user-id" description:"Other text"`
}

// S58 is generated.
type S58 struct {
	F573 string        `contentType:"text/html"`
	F572 float32       `header:"token6" maximum:"1e6"`
	F570 int           `header:"state4" exclusiveMinimum:"-3" required:"true"`
	F571 int32         `header:"info" default:"4" required:"true" description:"Some text."`
	F568 []uint64      `json:"owner"`
	F567 uint64        `json:"x_y" minimum:"-5" exclusiveMaximum:"777" required:"true" description:"Some text."`
	F569 special.Money `json:"data" description:"With \"quotes\" and \\" title:"The title"`
}

// S59 is generated.
type S59 struct {
	F577 string    `contentType:"application/json"`
	F574 int32     `header:"text6" exclusiveMinimum:"-3" example:"6" required:"true"`
	F575 time.Time `header:"info" deprecated:"true"`
	F576 string    `header:"X-Trace" default:"12" example:"abc" examples:"[\"p\",\"q\"]"`
}

// S60 is generated.
type S60 struct {
	F578         string `header:"name"`
	special.Base ``
	F580         special.Level `header:"value"`
	_            struct{}      `description:"Described structure." title:"T"`
	F579         int32         `header:"data" maximum:"1000" description:"Other text"`
}

// S61 is generated.
type S61 struct {
	F587 []int64           `header:"state" required:"false" description:"Some text."`
	F583 []int             `json:"first,omitempty"`
	F586 int32             `header:"note" example:"6" required:"false"`
	F584 *int64            `json:"note" deprecated:"true"`
	F582 int32             `json:"price" enum:"2,4,6" description:"Ünïcode – text"`
	F581 map[string]string `json:"flag" minProperties:"1" maxProperties:"7" required:"true" deprecated:"false"`
	F585 special.Level     `header:"page" description:"Some text."`
}

// S62 is generated.
type S62 struct {
	F588 float64 `header:"owner1" minimum:"0"`
}

// S63 is generated.
type S63 struct {
	_            struct{} `description:"A response." title:"T"`
	F589         int      `header:"kind5" maximum:"100" enum:"2,4,6"`
	special.Meta ``
	F590         int `path:"-" description:"junk"`
}

// S64 is generated.
type S64 struct {
	F593 time.Time `json:"color4" description:"Other text" nullable:"false"`
	F592 uint32    `json:"name" maximum:"1000" enum:"2,4,6"`
	F591 uint8     `json:"kind5"`
}

// S65 is generated.
type S65 struct {
	F594 float64       `header:"meta" maximum:"1e6"`
	F595 special.Ratio `header:"count"`
}

// S66 is generated.
type S66 struct {
	F596 []adto.J29 `json:"last" minItems:"0" maxItems:"10"`
	F597 []bdto.J11 `json:"text"`
}

// S67 is generated.
type S67 struct {
	F599 []special.DeepBase `json:"group" minItems:"2" description:"Ünïcode – text"`
	F601 uint64             `header:"next8" maximum:"100" required:"false" description:"Other text"`
	F598 float32            `json:"total"`
	F602 int                ``
	F600 []*bdto.J12        `json:"key" title:"The title"`
}

// S68 is generated.
type S68 struct {
}

// S69 is generated.
type S69 struct {
	F604 bool   `json:"state" default:"false"`
	F603 *int32 `json:"data,omitempty" required:"false"`
}

// S70 is generated.
type S70 struct {
	special.Base ``
}

// S71 is generated.
type S71 struct {
	F607         string `contentType:"text/html"`
	special.Base ``
	F605         int8 `header:"group4" example:"6" required:"true"`
	F606         int  `header:"date" exclusiveMaximum:"777" enum:"2,4,6" required:"true"`
}

// S72 is generated.
type S72 struct {
	special.Meta ``
}

// S73 is generated.
type S73 struct {
}

// S74 is generated.
type S74 struct {
	F608 uint32  `header:"list" minimum:"0" description:"With \"quotes\" and \\"`
	F610 int8    `header:"filter[a]" exclusiveMinimum:"-3" default:"4"`
	F609 float32 `header:"info"`
}

// S75 is generated.
type S75 struct {
	F612 adto.J14 `json:"last"`
	F611 adto.J25 `json:"page,omitempty"`
}

// S76 is generated.
type S76 struct {
	special.Meta ``
	F614         *int64 `header:"page5" description:"Other text" deprecated:"true"`
	F613         int64  `json:"price" maximum:"100" description:"Some text."`
	F616         string `contentType:"text/csv"`
	special.Base ``
	F615         float32 `header:"info" exclusiveMinimum:"-3.5"`
}

// S77 is generated.
type S77 struct {
	F617 []int8                      `json:"first5"`
	F621 uint8                       `query:"-" description:"junk"`
	F619 *special.Page[special.Tree] `json:"last"`
	F618 uint                        `json:"user-id,omitempty" deprecated:"true"`
	F620 uint8                       `header:"next" example:"6" description:"Ünïcode – text"`
}

// S78 is generated.
type S78 struct {
	f622 uint `json:"hidden"`
}

// S79 is generated.
type S79 struct {
	F623 special.Count `json:"total" required:"false" description:"Ünïcode – text" deprecated:"false"`
	F625 bool          `header:"child5"`
	F624 uint          `header:"state4" deprecated:"false"`
}

// S80 is generated.
type S80 struct {
	F629 *string            `header:"color" pattern:"^[a-z]*$" enum:"a,b"`
	F628 uint               `header:"note" maximum:"100"`
	F627 uint               `header:"label" minimum:"3" enum:"2,4,6"`
	_    struct{}           `description:"Described structure." title:"T"`
	F626 map[string]bdto.J8 `json:"last,omitempty" description:"Ünïcode – text"`
}

// Requests are samples.
var Requests = []interface{}{R1{}, R2{}, R3{}, R4{}, R5{}, R6{}, R7{}, R8{}, R9{}, R10{}, R11{}, R12{}, R13{}, R14{}, R15{}, R16{}, R17{}, R18{}, R19{}, R20{}, R21{}, R22{}, R23{}, R24{}, R25{}, R26{}, R27{}, R28{}, R29{}, R30{}, R31{}, R32{}, R33{}, R34{}, R35{}, R36{}, R37{}, R38{}, R39{}, R40{}, R41{}, R42{}, R43{}, R44{}, R45{}, R46{}, R47{}, R48{}, R49{}, R50{}, R51{}, R52{}, R53{}, R54{}, R55{}, R56{}, R57{}, R58{}, R59{}, R60{}, R61{}, R62{}, R63{}, R64{}, R65{}, R66{}, R67{}, R68{}, R69{}, R70{}, R71{}, R72{}, R73{}, R74{}, R75{}, R76{}, R77{}, R78{}, R79{}, R80{}, R81{}, R82{}, R83{}, R84{}, R85{}, R86{}, R87{}, R88{}, R89{}, R90{}, R91{}, R92{}, R93{}, R94{}, R95{}, R96{}, R97{}, R98{}, R99{}, R100{}, L1{}, L2{}, L3{}, L4{}, L5{}, L6{}, L7{}, L8{}, L9{}, L10{}, L11{}, L12{}, L13{}, L14{}, L15{}, L16{}, L17{}, L18{}, L19{}, L20{}}

// Responses are samples.
var Responses = []interface{}{L1{}, L2{}, L3{}, L4{}, L5{}, L6{}, L7{}, L8{}, L9{}, L10{}, L11{}, L12{}, L13{}, L14{}, L15{}, L16{}, L17{}, L18{}, L19{}, L20{}, S1{}, S2{}, S3{}, S4{}, S5{}, S6{}, S7{}, S8{}, S9{}, S10{}, S11{}, S12{}, S13{}, S14{}, S15{}, S16{}, S17{}, S18{}, S19{}, S20{}, S21{}, S22{}, S23{}, S24{}, S25{}, S26{}, S27{}, S28{}, S29{}, S30{}, S31{}, S32{}, S33{}, S34{}, S35{}, S36{}, S37{}, S38{}, S39{}, S40{}, S41{}, S42{}, S43{}, S44{}, S45{}, S46{}, S47{}, S48{}, S49{}, S50{}, S51{}, S52{}, S53{}, S54{}, S55{}, S56{}, S57{}, S58{}, S59{}, S60{}, S61{}, S62{}, S63{}, S64{}, S65{}, S66{}, S67{}, S68{}, S69{}, S70{}, S71{}, S72{}, S73{}, S74{}, S75{}, S76{}, S77{}, S78{}, S79{}, S80{}}
