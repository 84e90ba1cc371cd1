From 54cc0b3a5e33780681ee6994b5b5ba9bc2437977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:42 +0000
Subject: [PATCH 01/44] fix: encode every member of an object once in OpenAPI
 3.0 unions

Decoded Parameter and HTTPSecurityScheme kept the same members both in their
own fields and in the validated oneOf variants, so that encoding produced
duplicate (and stale) object members.
---
 openapi3/entities.go | 70 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 356433a..5f94d38 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -8526,6 +8526,7 @@ func (i *APIKeySecuritySchemeIn) UnmarshalJSON(data []byte) error {
 func marshalUnion(maps ...interface{}) ([]byte, error) {
 	result := []byte("{")
 	isObject := true
+	seen := make(map[string]struct{})
 
 	for _, m := range maps {
 		j, err := json.Marshal(m)
@@ -8556,6 +8557,15 @@ func marshalUnion(maps ...interface{}) ([]byte, error) {
 			return nil, errors.New("failed to union " + string(result) + " and " + string(j))
 		}
 
+		j, err = dropSeenKeys(j, seen)
+		if err != nil {
+			return nil, err
+		}
+
+		if string(j) == "{}" {
+			continue
+		}
+
 		if len(result) > 1 {
 			result[len(result)-1] = ','
 		}
@@ -8571,6 +8581,66 @@ func marshalUnion(maps ...interface{}) ([]byte, error) {
 	return result, nil
 }
 
+// dropSeenKeys removes members that were already encoded from JSON object and adds the others to the seen ones.
+func dropSeenKeys(j []byte, seen map[string]struct{}) ([]byte, error) {
+	keys, err := objectKeys(j)
+	if err != nil {
+		return nil, err
+	}
+
+	isUnique := true
+
+	for _, key := range keys {
+		if _, found := seen[key]; found {
+			isUnique = false
+
+			break
+		}
+	}
+
+	if isUnique {
+		for _, key := range keys {
+			seen[key] = struct{}{}
+		}
+
+		return j, nil
+	}
+
+	var values map[string]json.RawMessage
+
+	if err := json.Unmarshal(j, &values); err != nil {
+		return nil, err
+	}
+
+	result := []byte("{")
+
+	for _, key := range keys {
+		if _, found := seen[key]; found {
+			continue
+		}
+
+		seen[key] = struct{}{}
+
+		k, err := json.Marshal(key)
+		if err != nil {
+			return nil, err
+		}
+
+		result = append(result, k...)
+		result = append(result, ':')
+		result = append(result, values[key]...)
+		result = append(result, ',')
+	}
+
+	if len(result) == 1 {
+		return []byte("{}"), nil
+	}
+
+	result[len(result)-1] = '}'
+
+	return result, nil
+}
+
 // Regular expressions for pattern properties.
 var (
 	regexX                                     = regexp.MustCompile("^x-")
-- 
2.43.0


From 97733c222b4114ab0bca420dae860bbefbb2627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 02/44] fix: decode OpenAPI 3.1 Example objects

The "not" constraint (value and externalValue are exclusive) was generated as
an unconditional failure, so no Example could be decoded.
---
 openapi31/entities.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e84efa5..e792ff5 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1884,12 +1884,6 @@ var knownKeysExample = []string{
 func (e *Example) UnmarshalJSON(data []byte) error {
 	var err error
 
-	var not interface{}
-
-	if json.Unmarshal(data, &not) == nil {
-		return errors.New("not constraint failed for Example")
-	}
-
 	me := marshalExample(*e)
 
 	err = json.Unmarshal(data, &me)
@@ -1904,6 +1898,12 @@ func (e *Example) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
+	if _, found := rawMap["value"]; found {
+		if _, found := rawMap["externalValue"]; found {
+			return errors.New("not constraint failed for Example")
+		}
+	}
+
 	if me.Value == nil {
 		if _, ok := rawMap["value"]; ok {
 			var v interface{}
-- 
2.43.0


From 20ccb356d491e1e10e6659855409f66a34ff2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:43 +0000
Subject: [PATCH 03/44] fix: decode OpenAPI 3.1 objects with $ref as references

Members next to $ref made Response, PathItem, Link, Header and other unions
match both variants, and documents with them were refused.
---
 openapi31/entities.go | 76 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 76 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e792ff5..74aef49 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1993,6 +1993,13 @@ func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		e.Example = nil
+
+		return json.Unmarshal(data, &e.Reference)
+	}
+
 	err = json.Unmarshal(data, &e.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -2064,6 +2071,13 @@ func (h *HeaderOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		h.Header = nil
+
+		return json.Unmarshal(data, &h.Reference)
+	}
+
 	err = json.Unmarshal(data, &h.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -2230,6 +2244,13 @@ func (p *ParameterOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		p.Parameter = nil
+
+		return json.Unmarshal(data, &p.Reference)
+	}
+
 	err = json.Unmarshal(data, &p.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -2760,6 +2781,13 @@ func (r *RequestBodyOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		r.RequestBody = nil
+
+		return json.Unmarshal(data, &r.Reference)
+	}
+
 	err = json.Unmarshal(data, &r.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -3285,6 +3313,13 @@ func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		l.Link = nil
+
+		return json.Unmarshal(data, &l.Reference)
+	}
+
 	err = json.Unmarshal(data, &l.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -3356,6 +3391,13 @@ func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		r.Response = nil
+
+		return json.Unmarshal(data, &r.Reference)
+	}
+
 	err = json.Unmarshal(data, &r.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -3526,6 +3568,13 @@ func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		p.PathItem = nil
+
+		return json.Unmarshal(data, &p.Reference)
+	}
+
 	err = json.Unmarshal(data, &p.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -3597,6 +3646,13 @@ func (c *CallbacksOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		c.Callbacks = nil
+
+		return json.Unmarshal(data, &c.Reference)
+	}
+
 	err = json.Unmarshal(data, &c.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -5262,6 +5318,13 @@ func (s *SecuritySchemeOrReference) UnmarshalJSON(data []byte) error {
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
+	// An object with "$ref" is a reference, other members do not make it ambiguous.
+	if hasRef(data) {
+		s.SecurityScheme = nil
+
+		return json.Unmarshal(data, &s.Reference)
+	}
+
 	err = json.Unmarshal(data, &s.Reference)
 	if err != nil {
 		oneOfErrors["Reference"] = err
@@ -5670,6 +5733,19 @@ func marshalUnion(maps ...interface{}) ([]byte, error) {
 	return result, nil
 }
 
+// hasRef checks if JSON object has "$ref" member.
+func hasRef(data []byte) bool {
+	var rawMap map[string]json.RawMessage
+
+	if err := json.Unmarshal(data, &rawMap); err != nil {
+		return false
+	}
+
+	_, found := rawMap["$ref"]
+
+	return found
+}
+
 // Regular expressions for pattern properties.
 var (
 	regexX       = regexp.MustCompile("^x-")
-- 
2.43.0


From a049080cb1ca81c498275cea9f82080afe296989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:03 +0000
Subject: [PATCH 04/44] fix: keep empty security of an operation

Empty list means that operation has no security requirements, it was lost in
encoding so that requirements of the document applied.
---
 openapi3/entities.go  | 5 +++++
 openapi31/entities.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 5f94d38..31726ef 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -4121,6 +4121,11 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
+	if o.Security != nil && len(o.Security) == 0 {
+		// Empty list removes security requirements of the document, it is different from no list.
+		return marshalUnion(marshalOperation(o), json.RawMessage(`{"security":[]}`), o.MapOfAnything)
+	}
+
 	return marshalUnion(marshalOperation(o), o.MapOfAnything)
 }
 
diff --git a/openapi31/entities.go b/openapi31/entities.go
index 74aef49..5784da4 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -2494,6 +2494,11 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
+	if o.Security != nil && len(o.Security) == 0 {
+		// Empty list removes security requirements of the document, it is different from no list.
+		return marshalUnion(marshalOperation(o), json.RawMessage(`{"security":[]}`), o.MapOfAnything)
+	}
+
 	return marshalUnion(marshalOperation(o), o.MapOfAnything)
 }
 
-- 
2.43.0


From 7e883388bb648783ba4cb9850a5886799b2c1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 05/44] fix: keep empty scopes of OpenAPI 3.0 OAuth flows

The member is required by the specification and may be empty, it was lost in
encoding.
---
 openapi3/entities.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 31726ef..7ae6a14 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -7399,7 +7399,7 @@ func (p *PasswordOAuthFlow) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (p PasswordOAuthFlow) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalPasswordOAuthFlow(p), p.MapOfAnything)
+	return marshalUnion(marshalPasswordOAuthFlow(p), emptyScopes(p.Scopes), p.MapOfAnything)
 }
 
 // ClientCredentialsFlow structure is generated from "#/definitions/ClientCredentialsFlow".
@@ -7540,7 +7540,7 @@ func (c *ClientCredentialsFlow) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (c ClientCredentialsFlow) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalClientCredentialsFlow(c), c.MapOfAnything)
+	return marshalUnion(marshalClientCredentialsFlow(c), emptyScopes(c.Scopes), c.MapOfAnything)
 }
 
 // AuthorizationCodeOAuthFlow structure is generated from "#/definitions/AuthorizationCodeOAuthFlow".
@@ -7692,7 +7692,7 @@ func (a *AuthorizationCodeOAuthFlow) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (a AuthorizationCodeOAuthFlow) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalAuthorizationCodeOAuthFlow(a), a.MapOfAnything)
+	return marshalUnion(marshalAuthorizationCodeOAuthFlow(a), emptyScopes(a.Scopes), a.MapOfAnything)
 }
 
 // OpenIDConnectSecurityScheme structure is generated from "#/definitions/OpenIdConnectSecurityScheme".
@@ -8586,6 +8586,15 @@ func marshalUnion(maps ...interface{}) ([]byte, error) {
 	return result, nil
 }
 
+// emptyScopes provides scopes that are defined, but empty. They are required by OAuth flows.
+func emptyScopes(scopes map[string]string) json.RawMessage {
+	if scopes == nil || len(scopes) > 0 {
+		return json.RawMessage("null")
+	}
+
+	return json.RawMessage(`{"scopes":{}}`)
+}
+
 // dropSeenKeys removes members that were already encoded from JSON object and adds the others to the seen ones.
 func dropSeenKeys(j []byte, seen map[string]struct{}) ([]byte, error) {
 	keys, err := objectKeys(j)
-- 
2.43.0


From b26721c2a80328dd4cc458cd7c645d4737e11616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 06/44] fix: accept matrix, label and simple styles of OpenAPI
 3.1 parameters

Styles of path and header parameters were missing in the enumeration, so that
valid documents were refused and styles could not be encoded.
---
 openapi31/entities.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 5784da4..580128e 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -5594,6 +5594,9 @@ type ParameterStyle string
 
 // ParameterStyle values enumeration.
 const (
+	ParameterStyleMatrix         = ParameterStyle("matrix")
+	ParameterStyleLabel          = ParameterStyle("label")
+	ParameterStyleSimple         = ParameterStyle("simple")
 	ParameterStyleForm           = ParameterStyle("form")
 	ParameterStyleSpaceDelimited = ParameterStyle("spaceDelimited")
 	ParameterStylePipeDelimited  = ParameterStyle("pipeDelimited")
@@ -5603,6 +5606,9 @@ const (
 // MarshalJSON encodes JSON.
 func (i ParameterStyle) MarshalJSON() ([]byte, error) {
 	switch i {
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
+	case ParameterStyleSimple:
 	case ParameterStyleForm:
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
@@ -5627,6 +5633,9 @@ func (i *ParameterStyle) UnmarshalJSON(data []byte) error {
 	v := ParameterStyle(ii)
 
 	switch v {
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
+	case ParameterStyleSimple:
 	case ParameterStyleForm:
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
-- 
2.43.0


From dc048ced54a65aa6939235d2bea2ddc93500170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:23 +0000
Subject: [PATCH 07/44] fix: accept bearer scheme of OpenAPI 3.0 in any letter
 case

Names of HTTP authentication schemes are case-insensitive (RFC 7235), Bearer
with bearerFormat was refused.
---
 openapi3/entities.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 7ae6a14..d11e47c 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -9,6 +9,7 @@ import (
 	"fmt"
 	"reflect"
 	"regexp"
+	"strings"
 )
 
 // Spec structure is generated from "#".
@@ -6770,7 +6771,7 @@ func (b *Bearer) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
-	if v, exists := rawMap["scheme"]; exists && string(v) != `"bearer"` {
+	if v, exists := rawMap["scheme"]; exists && !strings.EqualFold(string(v), `"bearer"`) {
 		return fmt.Errorf(`bad const value for "scheme" ("bearer" expected, %s received)`, v)
 	}
 
@@ -6807,7 +6808,7 @@ func (b *NonBearer) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
-	if v, exists := rawMap["scheme"]; exists && string(v) == `"bearer"` {
+	if v, exists := rawMap["scheme"]; exists && strings.EqualFold(string(v), `"bearer"`) {
 		return fmt.Errorf(`bad const value for "scheme" (not "bearer" expected, %s received)`, v)
 	}
 
-- 
2.43.0


From ef3d1742edc1c4fc1f595148713b476b4d815b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:13 +0000
Subject: [PATCH 08/44] fix: keep empty schema of OpenAPI 3.1 parameters,
 headers and media types

Empty schema accepts any value, it is required in a parameter or header that
has no content, and it was lost in encoding.
---
 openapi31/entities.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 580128e..516d8a8 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1406,7 +1406,7 @@ func (p *Parameter) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (p Parameter) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalParameter(p), p.MapOfAnything)
+	return marshalUnion(marshalParameter(p), emptySchema(p.Schema), p.MapOfAnything)
 }
 
 // MediaType structure is generated from "#/$defs/media-type".
@@ -1562,7 +1562,7 @@ func (m *MediaType) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (m MediaType) MarshalJSON() ([]byte, error) {
-	return marshalUnion(marshalMediaType(m), m.MapOfAnything)
+	return marshalUnion(marshalMediaType(m), emptySchema(m.Schema), m.MapOfAnything)
 }
 
 // Encoding structure is generated from "#/$defs/encoding".
@@ -1818,7 +1818,7 @@ var constHeader = json.RawMessage(`{"style":"simple"}`)
 
 // MarshalJSON encodes JSON.
 func (h Header) MarshalJSON() ([]byte, error) {
-	return marshalUnion(constHeader, marshalHeader(h), h.MapOfAnything)
+	return marshalUnion(constHeader, marshalHeader(h), emptySchema(h.Schema), h.MapOfAnything)
 }
 
 // Example structure is generated from "#/$defs/example".
@@ -5747,6 +5747,15 @@ func marshalUnion(maps ...interface{}) ([]byte, error) {
 	return result, nil
 }
 
+// emptySchema provides schema that is defined, but empty. It accepts any value and can be required.
+func emptySchema(schema map[string]interface{}) json.RawMessage {
+	if schema == nil || len(schema) > 0 {
+		return json.RawMessage("null")
+	}
+
+	return json.RawMessage(`{"schema":{}}`)
+}
+
 // hasRef checks if JSON object has "$ref" member.
 func hasRef(data []byte) bool {
 	var rawMap map[string]json.RawMessage
-- 
2.43.0


From ff07d4561ca18bae780c8585442b900121464c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 09/44] fix: refuse paths, callbacks and component maps that
 are not objects

Decoders of objects with only pattern members ignored any value of another
type, so that invalid documents were accepted as empty.
---
 openapi3/entities.go  | 22 +++++++++++-----------
 openapi31/entities.go |  4 ++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index d11e47c..741504e 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -5477,7 +5477,7 @@ func (c *Callback) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -5647,7 +5647,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -5987,7 +5987,7 @@ func (c *ComponentsSchemas) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6053,7 +6053,7 @@ func (c *ComponentsResponses) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6119,7 +6119,7 @@ func (c *ComponentsParameters) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6185,7 +6185,7 @@ func (c *ComponentsExamples) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6251,7 +6251,7 @@ func (c *ComponentsRequestBodies) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6317,7 +6317,7 @@ func (c *ComponentsHeaders) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8049,7 +8049,7 @@ func (c *ComponentsSecuritySchemes) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8115,7 +8115,7 @@ func (c *ComponentsLinks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8181,7 +8181,7 @@ func (c *ComponentsCallbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
diff --git a/openapi31/entities.go b/openapi31/entities.go
index 516d8a8..1fbe3f1 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3479,7 +3479,7 @@ func (c *Callbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -3734,7 +3734,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
-- 
2.43.0


From bcc0b5451a343bf67273f1d25755c01294807b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 10/44] fix: keep digits of big integers in YAML

YAML was made of float64 values, integers above 2^53 lost precision and others
were written in exponent form.
---
 openapi3/yaml.go  | 6 +++++-
 openapi31/yaml.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index 458e378..dd8083b 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as they are, big integers would lose digits in float64.
+	d := json.NewDecoder(bytes.NewReader(data))
+	d.UseNumber()
+
+	err := d.Decode(&mapData)
 	if err != nil {
 		return err
 	}
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index 4e9bb9e..44b9e81 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -50,7 +50,11 @@ type orderedMap []yaml.MapItem
 func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	var mapData map[string]interface{}
 
-	err := json.Unmarshal(data, &mapData)
+	// Numbers are kept as they are, big integers would lose digits in float64.
+	d := json.NewDecoder(bytes.NewReader(data))
+	d.UseNumber()
+
+	err := d.Decode(&mapData)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From c0dc182f5ea3328d2f8c95e859d83cff4e7f14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:59 +0000
Subject: [PATCH 11/44] fix: keep exclusive bounds in OpenAPI 3.0 schemas

---
 openapi3/jsonschema.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 1cf4b82..55c6e05 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -260,16 +260,16 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 		os.Items.FromJSONSchema(*js.Items.SchemaOrBool)
 	}
 
-	if js.ExclusiveMaximum != nil {
+	if js.ExclusiveMaximum != nil && (js.Maximum == nil || *js.ExclusiveMaximum <= *js.Maximum) {
 		os.WithExclusiveMaximum(true)
-		os.Maximum = js.Maximum
+		os.Maximum = js.ExclusiveMaximum
 	} else if js.Maximum != nil {
 		os.Maximum = js.Maximum
 	}
 
-	if js.ExclusiveMinimum != nil {
+	if js.ExclusiveMinimum != nil && (js.Minimum == nil || *js.ExclusiveMinimum >= *js.Minimum) {
 		os.WithExclusiveMinimum(true)
-		os.Minimum = js.Minimum
+		os.Minimum = js.ExclusiveMinimum
 	} else if js.Minimum != nil {
 		os.Minimum = js.Minimum
 	}
-- 
2.43.0


From e89304ed88cc18b01f963d4003db60c75cef82f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:01 +0000
Subject: [PATCH 12/44] fix: walk default, referenced and schemaless content

---
 openapi3/walk_schema.go  | 15 ++++++++++++++-
 openapi31/walk_schema.go | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 877a252..c55c2c5 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response can be replaced with a reference.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
@@ -59,7 +68,7 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
@@ -119,6 +128,10 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	}
 
 	for ct, content := range op.RequestBody.RequestBody.Content {
+		if content.Schema == nil {
+			continue
+		}
+
 		schema := content.Schema.ToJSONSchema(r.Spec)
 
 		if ct == mimeJSON {
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 55aa781..e835fad 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response can be replaced with a reference.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
@@ -59,7 +68,7 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
@@ -119,6 +128,10 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	}
 
 	for ct, content := range op.RequestBody.RequestBody.Content {
+		if content.Schema == nil {
+			continue
+		}
+
 		schema := ToJSONSchema(content.Schema, r.Spec)
 
 		if ct == mimeJSON {
-- 
2.43.0


From ee9c9a9dfd2ffdc4322e8d08ed2905edf3896da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:03 +0000
Subject: [PATCH 13/44] fix: refuse operation that exists under another
 spelling of the path

---
 openapi3/helper.go  | 6 +++++-
 openapi31/helper.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b215205..092c31c 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -98,7 +98,11 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
 	pathItem := s.Paths.MapOfPathItemValues[path]
 
 	if _, found := pathItem.MapOfOperationValues[method]; found {
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 533a613..cedc608 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -153,7 +153,10 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
 
 	pathItem := s.PathsEns().MapOfPathItemValues[path]
 
-- 
2.43.0


From 7aa2d83d5bf4f7c4616cb9c787cac4cb10ba22a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:05 +0000
Subject: [PATCH 14/44] fix: sanitize path parameters that have braces in
 regexp

---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 74b6d4c..d92da29 100644
--- a/operation.go
+++ b/operation.go
@@ -176,7 +176,7 @@ func OperationCtx(rc *jsonschema.ReflectContext) (OperationContext, bool) {
 	return nil, false
 }
 
-var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:[^}]+)?(?:})`)
+var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:(?:[^{}]|{[^{}]*})+)?(?:})`)
 
 // SanitizeMethodPath validates method and parses path element names.
 func SanitizeMethodPath(method, pathPattern string) (cleanMethod string, cleanPath string, pathParams []string, err error) {
-- 
2.43.0


From 2744bf04f3f82e82896c620b08462d6e60cc02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:07 +0000
Subject: [PATCH 15/44] fix: keep headers of earlier units of the same response

---
 openapi3/reflect.go  | 4 +++-
 openapi31/reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8f9d147..bcf87a8 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -638,7 +638,9 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	for name, header := range res {
+		resp.WithHeadersItem(name, header)
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4be25f9..1ea182f 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -608,7 +608,9 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	for name, header := range res {
+		resp.WithHeadersItem(name, header)
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
-- 
2.43.0


From cd328cdec688a398f1dd8d0d61bdb6aeb1a47f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:08 +0000
Subject: [PATCH 16/44] fix: do not change existing operation when setup fails

---
 openapi31/helper.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/openapi31/helper.go b/openapi31/helper.go
index cedc608..c10e451 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -78,13 +78,14 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 
 	pathItem := s.PathsEns().MapOfPathItemValues[path]
 
-	operation, err := pathItem.Operation(method)
+	existing, err := pathItem.Operation(method)
 	if err != nil {
 		return err
 	}
 
-	if operation == nil {
-		operation = &Operation{}
+	operation := &Operation{}
+	if existing != nil {
+		*operation = *existing
 	}
 
 	for _, f := range setup {
-- 
2.43.0


From a4f67104e5cd288f430e9cecae6080ae96426dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:10 +0000
Subject: [PATCH 17/44] fix: do not panic on references without components

---
 openapi3/jsonschema.go  | 16 +++++++++++++++-
 openapi31/jsonschema.go |  5 ++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 55c6e05..2d48ca7 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -12,6 +12,14 @@ type toJSONSchemaContext struct {
 	spec          *Spec
 }
 
+func (ctx toJSONSchemaContext) component(name string) SchemaOrRef {
+	if ctx.spec == nil || ctx.spec.Components == nil || ctx.spec.Components.Schemas == nil {
+		return SchemaOrRef{}
+	}
+
+	return ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[name]
+}
+
 // ToJSONSchema converts OpenAPI Schema to JSON Schema.
 //
 // Local references are resolved against `#/components/schemas` in spec.
@@ -55,7 +63,7 @@ func (s *SchemaOrRef) toJSONSchema(ctx toJSONSchemaContext) jsonschema.SchemaOrB
 			if _, alreadyProcessed := ctx.refsProcessed[dstName]; !alreadyProcessed {
 				ctx.refsProcessed[dstName] = jsonschema.SchemaOrBool{}
 
-				dst := ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[dstName]
+				dst := ctx.component(dstName)
 				ctx.refsProcessed[dstName] = dst.toJSONSchema(ctx)
 			}
 
@@ -187,6 +195,12 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 	}
 
 	js := schema.TypeObject
+	if js == nil { // Empty schema.
+		s.fromBool(true)
+
+		return
+	}
+
 	if js.Ref != nil {
 		if js.Deprecated != nil && *js.Deprecated {
 			s.Schema = (&Schema{}).WithAllOf(
diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 62429f7..93644e4 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -71,7 +71,10 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 			if _, alreadyProcessed := ctx.refsProcessed[dstName]; !alreadyProcessed {
 				ctx.refsProcessed[dstName] = jsonschema.SchemaOrBool{}
 
-				dst := ctx.spec.Components.Schemas[dstName]
+				var dst map[string]interface{}
+				if ctx.spec != nil && ctx.spec.Components != nil {
+					dst = ctx.spec.Components.Schemas[dstName]
+				}
 
 				js := jsonschema.SchemaOrBool{}
 				if err := js.FromSimpleMap(dst); err != nil {
-- 
2.43.0


From 167cd8dfc9653632f156c7b8296f43ee5c41c6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:11 +0000
Subject: [PATCH 18/44] fix: find references at every keyword of OpenAPI 3.1
 schemas

---
 openapi31/jsonschema.go | 57 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 93644e4..48db658 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -39,7 +39,7 @@ func ToJSONSchema(s map[string]interface{}, spec *Spec) jsonschema.SchemaOrBool
 	findReferences(js, ctx)
 
 	// Inline root reference without recursions.
-	if js.TypeObjectEns().Ref != nil {
+	if js.TypeObjectEns().Ref != nil && len(s) == 1 {
 		dstName := strings.TrimPrefix(*js.TypeObjectEns().Ref, componentsSchemas)
 		if ctx.refsCount[dstName] == 1 {
 			js = ctx.refsProcessed[dstName]
@@ -87,8 +87,6 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 
 			ctx.refsCount[dstName]++
 		}
-
-		return
 	}
 
 	if jso.Not != nil {
@@ -121,7 +119,56 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		findReferences(propSchema, ctx)
 	}
 
-	if jso.AdditionalProperties != nil {
-		findReferences(*jso.AdditionalProperties, ctx)
+	for _, sub := range []*jsonschema.SchemaOrBool{
+		jso.AdditionalProperties, jso.AdditionalItems, jso.Contains, jso.PropertyNames, jso.If, jso.Then, jso.Else,
+	} {
+		if sub != nil {
+			findReferences(*sub, ctx)
+		}
+	}
+
+	for _, sub := range jso.Definitions {
+		findReferences(sub, ctx)
+	}
+
+	for _, sub := range jso.PatternProperties {
+		findReferences(sub, ctx)
+	}
+
+	for _, sub := range jso.Dependencies {
+		if sub.SchemaOrBool != nil {
+			findReferences(*sub.SchemaOrBool, ctx)
+		}
+	}
+
+	// Keywords of JSON Schema 2020-12.
+	for _, keyword := range []string{"unevaluatedProperties", "unevaluatedItems", "contentSchema"} {
+		findExtraReferences(jso.ExtraProperties[keyword], ctx)
+	}
+
+	if items, ok := jso.ExtraProperties["prefixItems"].([]interface{}); ok {
+		for _, item := range items {
+			findExtraReferences(item, ctx)
+		}
+	}
+
+	for _, keyword := range []string{"$defs", "dependentSchemas"} {
+		if schemas, ok := jso.ExtraProperties[keyword].(map[string]interface{}); ok {
+			for _, sub := range schemas {
+				findExtraReferences(sub, ctx)
+			}
+		}
+	}
+}
+
+func findExtraReferences(v interface{}, ctx toJSONSchemaContext) {
+	sm, ok := v.(map[string]interface{})
+	if !ok {
+		return
+	}
+
+	js := jsonschema.SchemaOrBool{}
+	if err := js.FromSimpleMap(sm); err == nil {
+		findReferences(js, ctx)
 	}
 }
-- 
2.43.0


From 2847629032dda9b616239607a5ac11755be14c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 19/44] fix: refuse OpenAPI 3.1 headers with null schema or
 empty content

---
 openapi31/entities.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 1fbe3f1..19bd682 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1762,7 +1762,7 @@ func (h *Header) UnmarshalJSON(data []byte) error {
 	_, contentExists := rawMap["content"]
 	if schemaExists && contentExists {
 		return fmt.Errorf("both schema and content are set, only one of them is allowed")
-	} else if !schemaExists && !contentExists {
+	} else if mh.Schema == nil && len(mh.Content) == 0 {
 		return fmt.Errorf("schema or content are expected")
 	}
 
-- 
2.43.0


From fe0175008cfcb3af6576d2c416c20e50d0b2b33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 20/44] fix: do not set up operation again when it is already
 added

---
 openapi3/reflect.go  |  5 +++++
 openapi31/reflect.go | 24 +++++++++++++++++++++---
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index bcf87a8..cdc6d3a 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -270,6 +270,11 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 		return fmt.Errorf("wrong operation context %T received, %T expected", oc, operationContext{})
 	}
 
+	// Operation that is already added may share content with the context, it must not be set up again.
+	if _, found := r.SpecEns().Paths.MapOfPathItemValues[oc.PathPattern()].MapOfOperationValues[oc.Method()]; found {
+		return fmt.Errorf("operation already exists: %s %s", oc.Method(), oc.PathPattern())
+	}
+
 	if err := r.setupRequest(c.op, oc); err != nil {
 		return fmt.Errorf("setup request %s %s: %w", oc.Method(), oc.PathPattern(), err)
 	}
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 1ea182f..5f7043b 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -212,7 +212,14 @@ func (o operationContext) Operation() *Operation {
 
 // AddOperation configures operation request and response schema.
 func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
-	c, err := r.setupOC(oc)
+	c, err := r.setupOC(oc, func() error {
+		op, err := r.SpecEns().PathsEns().MapOfPathItemValues[oc.PathPattern()].Operation(oc.Method())
+		if err == nil && op != nil {
+			return fmt.Errorf("operation already exists: %s %s", oc.Method(), oc.PathPattern())
+		}
+
+		return err
+	})
 	if err != nil {
 		return err
 	}
@@ -222,7 +229,13 @@ func (r *Reflector) AddOperation(oc openapi.OperationContext) error {
 
 // AddWebhook configures webhook request and response schema.
 func (r *Reflector) AddWebhook(oc openapi.OperationContext) error {
-	c, err := r.setupOC(oc)
+	c, err := r.setupOC(oc, func() error {
+		if _, found := r.SpecEns().Webhooks[oc.PathPattern()]; found {
+			return fmt.Errorf("duplicate webhook name: %s", oc.PathPattern())
+		}
+
+		return nil
+	})
 	if err != nil {
 		return err
 	}
@@ -230,12 +243,17 @@ func (r *Reflector) AddWebhook(oc openapi.OperationContext) error {
 	return r.SpecEns().AddWebhook(oc.Method(), c.PathPattern(), *c.op)
 }
 
-func (r *Reflector) setupOC(oc openapi.OperationContext) (operationContext, error) {
+func (r *Reflector) setupOC(oc openapi.OperationContext, checkExists func() error) (operationContext, error) {
 	c, ok := oc.(operationContext)
 	if !ok {
 		return c, fmt.Errorf("wrong operation context %T received, %T expected", oc, operationContext{})
 	}
 
+	// Operation that is already added may share content with the context, it must not be set up again.
+	if err := checkExists(); err != nil {
+		return c, err
+	}
+
 	if err := r.setupRequest(c.op, oc); err != nil {
 		return c, fmt.Errorf("setup request %s %s: %w", oc.Method(), oc.PathPattern(), err)
 	}
-- 
2.43.0


From b50650cabbec9f1919be088b0b0d64e3190aefef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:28 +0000
Subject: [PATCH 21/44] fix: do not replace JSON component of a type that is
 also used in a form

---
 internal/json_schema.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index f19d55f..fe8e11e 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -111,6 +111,11 @@ func ReflectRequestBody(
 	reflOptions = append(reflOptions,
 		jsonschema.InterceptDefName(func(t reflect.Type, defaultDefName string) string {
 			if tag != tagJSON {
+				// Schema of a named collection follows schema of its items.
+				if t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t.Kind() == reflect.Map {
+					t = t.Elem()
+				}
+
 				v := reflect.New(t).Interface()
 
 				if refl.HasTaggedFields(v, tag) {
@@ -122,6 +127,11 @@ func ReflectRequestBody(
 						return definitionPrefix + defaultDefName
 					}
 				}
+
+				// JSON schema of the same type has other properties, it must not be replaced.
+				if refl.HasTaggedFields(v, tagJSON) {
+					return definitionPrefix + defaultDefName
+				}
 			}
 
 			return defaultDefName
-- 
2.43.0


From 88eb428925deddaff0dc646a13ebf20e5793c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:38 +0000
Subject: [PATCH 22/44] fix: do not replace JSON component of a composed type
 that is also used in a form

---
 internal/json_schema.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index fe8e11e..c34e07f 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -129,7 +129,7 @@ func ReflectRequestBody(
 				}
 
 				// JSON schema of the same type has other properties, it must not be replaced.
-				if refl.HasTaggedFields(v, tagJSON) {
+				if refl.HasTaggedFields(v, tagJSON) || isComposed(v) {
 					return definitionPrefix + defaultDefName
 				}
 			}
@@ -200,6 +200,16 @@ func ReflectRequestBody(
 	return &sch, hasFileUpload, nil
 }
 
+// isComposed tells if schema is made of schemas of other types.
+func isComposed(v interface{}) bool {
+	switch v.(type) {
+	case jsonschema.OneOfExposer, jsonschema.AnyOfExposer, jsonschema.AllOfExposer, jsonschema.NotExposer:
+		return true
+	default:
+		return false
+	}
+}
+
 // ReflectJSONResponse reflects JSON schema of response.
 func ReflectJSONResponse(
 	r *jsonschema.Reflector,
-- 
2.43.0


From 8807967b36f2ea32d92d24546d85c4d94be73f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:39 +0000
Subject: [PATCH 23/44] fix: apply style tag to OpenAPI 3.1 parameters

---
 openapi31/reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 5f7043b..9b33a19 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -519,6 +519,10 @@ func (r *Reflector) parseParametersIn(
 				return err
 			}
 
+			if style, ok := field.Tag.Lookup("style"); ok {
+				p.WithStyle(ParameterStyle(style))
+			}
+
 			if in == openapi.InPath {
 				p.WithRequired(true)
 			}
-- 
2.43.0


From debc36b247065474fe25dac8c59dc1df7cbfe54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:48 +0000
Subject: [PATCH 24/44] fix: use permitted style for comma separated values in
 path and header

---
 openapi3/reflect.go  | 6 +++++-
 openapi31/reflect.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index cdc6d3a..76baec3 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -491,7 +491,11 @@ func (r *Reflector) parseParametersIn(
 
 			switch collectionFormat {
 			case "csv":
-				p.WithStyle(string(QueryParameterStyleForm)).WithExplode(false)
+				if in == openapi.InPath || in == openapi.InHeader {
+					p.WithStyle(string(PathParameterStyleSimple)).WithExplode(false)
+				} else {
+					p.WithStyle(string(QueryParameterStyleForm)).WithExplode(false)
+				}
 			case "ssv":
 				p.WithStyle(string(QueryParameterStyleSpaceDelimited)).WithExplode(false)
 			case "pipes":
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 9b33a19..3a01e26 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -468,7 +468,11 @@ func (r *Reflector) parseParametersIn(
 
 			switch collectionFormat {
 			case "csv":
-				p.WithStyle(ParameterStyleForm).WithExplode(false)
+				if in == openapi.InPath || in == openapi.InHeader {
+					p.WithStyle(ParameterStyleSimple).WithExplode(false)
+				} else {
+					p.WithStyle(ParameterStyleForm).WithExplode(false)
+				}
 			case "ssv":
 				p.WithStyle(ParameterStyleSpaceDelimited).WithExplode(false)
 			case "pipes":
-- 
2.43.0


From 14314948e82fcfabe0fbd7ecb003b58c2e5d2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:35 +0000
Subject: [PATCH 25/44] fix: use deepObject style only in query

---
 openapi3/reflect.go  | 3 ++-
 openapi31/reflect.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 76baec3..4658108 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -535,7 +535,8 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				// Only query supports this style.
+				if in == openapi.InQuery && ps.HasType(jsonschema.Object) {
 					p.WithStyle(string(QueryParameterStyleDeepObject)).WithExplode(true)
 				}
 			}
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 3a01e26..f4d7890 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -513,7 +513,8 @@ func (r *Reflector) parseParametersIn(
 					return err
 				}
 
-				if ps.HasType(jsonschema.Object) {
+				// Only query supports this style.
+				if in == openapi.InQuery && ps.HasType(jsonschema.Object) {
 					p.WithStyle(ParameterStyleDeepObject).WithExplode(true)
 				}
 			}
-- 
2.43.0


From 59c6976664628dc422f0611f99b3acdf95a2bc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 26/44] fix: do not overflow stack on recursive objects in
 parameters

---
 openapi3/reflect.go  | 1 -
 openapi31/reflect.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 4658108..374d97f 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -528,7 +528,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index f4d7890..c5f8b1b 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -506,7 +506,6 @@ func (r *Reflector) parseParametersIn(
 			} else {
 				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
 					openapi.WithOperationCtx(oc, false, in),
-					jsonschema.InlineRefs,
 					sanitizeDefName,
 				)
 				if err != nil {
-- 
2.43.0


From 86af12b404aab315567356fb93d4f18190f13af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:32 +0000
Subject: [PATCH 27/44] fix: walk fields of recursive forms and keep extensions
 of their schemas

---
 openapi3/walk_schema.go  | 38 ++++++++++++++++++++++++++++++++++----
 openapi31/walk_schema.go | 38 ++++++++++++++++++++++++++++++++++----
 2 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index c55c2c5..b39e276 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -3,6 +3,7 @@ package openapi3
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -152,18 +153,25 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	root, components := formDataRoot(schema)
+
+	for name, propertySchema := range root.Properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if propertySchema.TypeObject != nil && components != nil {
 			cp := *propertySchema.TypeObject
+			cp.ExtraProperties = map[string]interface{}{"components": components}
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties {
+				cp.ExtraProperties[k] = v
+			}
+
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
 		}
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range root.Required {
 			if req == name {
 				isRequired = true
 
@@ -180,6 +188,28 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 	return nil
 }
 
+// formDataRoot finds object schema of a form, it can be a reference, and components it uses.
+func formDataRoot(schema jsonschema.SchemaOrBool) (*jsonschema.Schema, interface{}) {
+	root := schema.TypeObjectEns()
+
+	components, found := root.ExtraProperties["components"]
+	if !found {
+		return root, nil
+	}
+
+	if root.Ref != nil {
+		if m, ok := components.(map[string]interface{}); ok {
+			if schemas, ok := m["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+				if s, ok := schemas[strings.TrimPrefix(*root.Ref, componentsSchemas)]; ok {
+					root = s.TypeObjectEns()
+				}
+			}
+		}
+	}
+
+	return root, components
+}
+
 func (r *Reflector) provideParametersJSONSchemas(op *Operation, cb openapi.JSONSchemaCallback) error {
 	for _, p := range op.Parameters {
 		pp := p.Parameter
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index e835fad..52af79d 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -3,6 +3,7 @@ package openapi31
 import (
 	"fmt"
 	"net/http"
+	"strings"
 
 	"github.com/swaggest/jsonschema-go"
 	"github.com/swaggest/openapi-go"
@@ -152,18 +153,25 @@ func (r *Reflector) WalkRequestJSONSchemas(
 }
 
 func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
-	for name, propertySchema := range schema.TypeObject.Properties {
+	root, components := formDataRoot(schema)
+
+	for name, propertySchema := range root.Properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if propertySchema.TypeObject != nil && components != nil {
 			cp := *propertySchema.TypeObject
+			cp.ExtraProperties = map[string]interface{}{"components": components}
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties {
+				cp.ExtraProperties[k] = v
+			}
+
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
 		}
 
 		isRequired := false
 
-		for _, req := range schema.TypeObject.Required {
+		for _, req := range root.Required {
 			if req == name {
 				isRequired = true
 
@@ -180,6 +188,28 @@ func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchem
 	return nil
 }
 
+// formDataRoot finds object schema of a form, it can be a reference, and components it uses.
+func formDataRoot(schema jsonschema.SchemaOrBool) (*jsonschema.Schema, interface{}) {
+	root := schema.TypeObjectEns()
+
+	components, found := root.ExtraProperties["components"]
+	if !found {
+		return root, nil
+	}
+
+	if root.Ref != nil {
+		if m, ok := components.(map[string]interface{}); ok {
+			if schemas, ok := m["schemas"].(map[string]jsonschema.SchemaOrBool); ok {
+				if s, ok := schemas[strings.TrimPrefix(*root.Ref, componentsSchemas)]; ok {
+					root = s.TypeObjectEns()
+				}
+			}
+		}
+	}
+
+	return root, components
+}
+
 func (r *Reflector) provideParametersJSONSchemas(op *Operation, cb openapi.JSONSchemaCallback) error {
 	for _, p := range op.Parameters {
 		pp := p.Parameter
-- 
2.43.0


From 4677e894278bf36048c858bd379a91509e89a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:18 +0000
Subject: [PATCH 28/44] fix: keep JSON schema of OpenAPI 3.1 response with
 contentType field of same type

---
 openapi31/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index c5f8b1b..9f668ee 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -651,7 +651,7 @@ func (r *Reflector) parseRawResponseBody(resp *Response, cu openapi.ContentUnit)
 	}
 
 	refl.WalkTaggedFields(reflect.ValueOf(cu.Structure), func(_ reflect.Value, _ reflect.StructField, tag string) {
-		resp.WithContentItem(tag, mediaType(""))
+		r.ensureResponseContentType(resp, tag, "")
 	}, tagContentType)
 }
 
-- 
2.43.0


From 1c50819b7d5e90eface484dc86fa9ae727dcd240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 29/44] fix: do not overflow stack on recursive objects in
 response headers

---
 internal/json_schema.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index c34e07f..91f68a7 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -264,6 +264,45 @@ func hasJSONBody(r *jsonschema.Reflector, output interface{}) (bool, error) {
 	return false, nil
 }
 
+// cutRecursion makes a plain object of a structure that is nested in itself, such schemas can not be inlined.
+func cutRecursion() func(rc *jsonschema.ReflectContext) {
+	type frame struct {
+		t     reflect.Type
+		depth int
+	}
+
+	var stack []frame
+
+	return jsonschema.InterceptSchema(func(params jsonschema.InterceptSchemaParams) (stop bool, err error) {
+		if params.Processed || !params.Value.IsValid() {
+			return false, nil
+		}
+
+		t := refl.DeepIndirect(params.Value.Type())
+		if t.Kind() != reflect.Struct || t == reflect.TypeOf(jsonschema.Struct{}) {
+			return false, nil
+		}
+
+		depth := len(params.Context.Path)
+
+		for len(stack) > 0 && stack[len(stack)-1].depth >= depth {
+			stack = stack[:len(stack)-1]
+		}
+
+		for _, f := range stack {
+			if f.t == t {
+				params.Schema.AddType(jsonschema.Object)
+
+				return true, nil
+			}
+		}
+
+		stack = append(stack, frame{t: t, depth: depth})
+
+		return false, nil
+	})
+}
+
 // ReflectResponseHeader reflects response headers from content unit.
 func ReflectResponseHeader(
 	r *jsonschema.Reflector,
@@ -284,6 +323,7 @@ func ReflectResponseHeader(
 		},
 		openapi.WithOperationCtx(oc, true, openapi.InHeader),
 		jsonschema.InlineRefs,
+		cutRecursion(),
 		jsonschema.PropertyNameMapping(mapping),
 		jsonschema.PropertyNameTag(tagHeader),
 		sanitizeDefName,
-- 
2.43.0


From 47221fff4c00bcc24cdf0cb4bf57d834488d9299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:40 +0000
Subject: [PATCH 30/44] fix: provide operation in deprecated context

---
 openapi3/reflect.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 374d97f..db7f63a 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -237,6 +237,10 @@ func fromOpCtx(oc openapi.OperationContext) OperationContext {
 
 	c.HTTPMethod = oc.Method()
 
+	if e, ok := oc.(OperationExposer); ok {
+		c.Operation = e.Operation()
+	}
+
 	if req := oc.Request(); len(req) > 0 {
 		cu := req[0]
 
-- 
2.43.0


From d38f0ae7ab75dceb1745ce34bb5be9aeacf5c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:24 +0000
Subject: [PATCH 31/44] fix: keep operation context for interceptors while
 probing for a body

---
 internal/json_schema.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index 91f68a7..18e9658 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -89,9 +89,9 @@ func ReflectRequestBody(
 	// Checking for default options that allow tag-less JSON.
 	isProcessWithoutTags := false
 
-	_, err = r.Reflect("", func(rc *jsonschema.ReflectContext) {
+	_, err = r.Reflect("", probeOptions(reflOptions, func(rc *jsonschema.ReflectContext) {
 		isProcessWithoutTags = rc.ProcessWithoutTags
-	})
+	})...)
 	if err != nil {
 		return nil, false, fmt.Errorf("BUG: %w", err)
 	}
@@ -221,7 +221,7 @@ func ReflectJSONResponse(
 	}
 
 	// Check if output structure exposes meaningful schema.
-	if hasJSONBody, err := hasJSONBody(r, output); err == nil && !hasJSONBody {
+	if hasJSONBody, err := hasJSONBody(r, output, reflOptions); err == nil && !hasJSONBody {
 		return nil, nil
 	}
 
@@ -238,8 +238,25 @@ func ReflectJSONResponse(
 	return &sch, nil
 }
 
-func hasJSONBody(r *jsonschema.Reflector, output interface{}) (bool, error) {
-	schema, err := r.Reflect(output, sanitizeDefName)
+// probeOptions keeps operation context for interceptors, but does not let a probe register components.
+func probeOptions(
+	reflOptions []func(rc *jsonschema.ReflectContext),
+	options ...func(rc *jsonschema.ReflectContext),
+) []func(rc *jsonschema.ReflectContext) {
+	res := append([]func(rc *jsonschema.ReflectContext){}, reflOptions...)
+	res = append(res, func(rc *jsonschema.ReflectContext) {
+		rc.CollectDefinitions = nil
+	})
+
+	return append(res, options...)
+}
+
+func hasJSONBody(
+	r *jsonschema.Reflector,
+	output interface{},
+	reflOptions []func(rc *jsonschema.ReflectContext),
+) (bool, error) {
+	schema, err := r.Reflect(output, probeOptions(reflOptions, sanitizeDefName)...)
 	if err != nil {
 		return false, err
 	}
-- 
2.43.0


From 19da4391a222045c184454db94ca7b118b1b69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:29 +0000
Subject: [PATCH 32/44] fix: reflect value of a parameter that is a pointer

A pointer to nil pointer was reflected, jsonschema-go does not ask such values for their schema:
a JSON parameter registered an incomplete component, and a string had style deepObject.
---
 openapi3/reflect.go  | 4 ++--
 openapi31/reflect.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index db7f63a..65b0fba 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -509,7 +509,7 @@ func (r *Reflector) parseParametersIn(
 			}
 
 			// Check if parameter is an JSON encoded object.
-			property := reflect.New(field.Type).Interface()
+			property := reflect.New(refl.DeepIndirect(field.Type)).Interface()
 
 			if collectionFormat == "json" ||
 				(refl.HasTaggedFields(property, tagJSON) && !refl.HasTaggedFields(property, string(in))) {
@@ -530,7 +530,7 @@ func (r *Reflector) parseParametersIn(
 				p.Schema = nil
 				p.WithContentItem("application/json", MediaType{Schema: &openapiSchema})
 			} else {
-				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
+				ps, err := r.Reflect(property,
 					openapi.WithOperationCtx(oc, false, in),
 					sanitizeDefName,
 				)
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 9f668ee..94fe11d 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -482,7 +482,7 @@ func (r *Reflector) parseParametersIn(
 			}
 
 			// Check if parameter is an JSON encoded object.
-			property := reflect.New(field.Type).Interface()
+			property := reflect.New(refl.DeepIndirect(field.Type)).Interface()
 			if collectionFormat == "json" || //nolint:nestif
 				(refl.HasTaggedFields(property, tagJSON) && !refl.HasTaggedFields(property, string(in))) {
 				propertySchema, err := r.Reflect(property,
@@ -504,7 +504,7 @@ func (r *Reflector) parseParametersIn(
 				p.Schema = nil
 				p.WithContentItem("application/json", MediaType{Schema: sm})
 			} else {
-				ps, err := r.Reflect(reflect.New(field.Type).Interface(),
+				ps, err := r.Reflect(property,
 					openapi.WithOperationCtx(oc, false, in),
 					sanitizeDefName,
 				)
-- 
2.43.0


From ac4c27549ef0ef2fce823a6aecaac0d6daf20555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:37 +0000
Subject: [PATCH 33/44] fix: encode YAML documents with keys in a stable order

Order of keys in yaml.v2 is not transitive, e.g. for responses 100, 200 and 2XX, the same document was encoded
differently from time to time.
---
 internal/yaml.go  | 103 ++++++++++++++++++++++++++++++++++++++++++++++
 openapi3/yaml.go  |   3 +-
 openapi31/yaml.go |   3 +-
 3 files changed, 107 insertions(+), 2 deletions(-)
 create mode 100644 internal/yaml.go

diff --git a/internal/yaml.go b/internal/yaml.go
new file mode 100644
index 0000000..2db969b
--- /dev/null
+++ b/internal/yaml.go
@@ -0,0 +1,103 @@
+package internal
+
+import (
+	"sort"
+	"strings"
+	"unicode"
+
+	"gopkg.in/yaml.v2"
+)
+
+// SortYAML replaces maps with sorted slices.
+//
+// Order of map keys in yaml.v2 is not transitive ("100" < "200" < "2XX" < "100"), so that the result of sorting depends
+// on random order of map iteration.
+func SortYAML(v interface{}) interface{} {
+	switch v := v.(type) {
+	case map[string]interface{}:
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+
+		sort.Slice(keys, func(i, j int) bool {
+			return keyLess(keys[i], keys[j])
+		})
+
+		res := make(yaml.MapSlice, 0, len(v))
+		for _, k := range keys {
+			res = append(res, yaml.MapItem{Key: k, Value: SortYAML(v[k])})
+		}
+
+		return res
+	case []interface{}:
+		for i, e := range v {
+			v[i] = SortYAML(e)
+		}
+	}
+
+	return v
+}
+
+// keyLess has natural order of yaml.v2: punctuation, then numbers, then letters.
+func keyLess(a, b string) bool {
+	ar, br := []rune(a), []rune(b)
+
+	for len(ar) > 0 && len(br) > 0 {
+		an, bn := digits(ar), digits(br)
+
+		switch {
+		case an > 0 && bn > 0:
+			if c := compareDigits(ar[:an], br[:bn]); c != 0 {
+				return c < 0
+			}
+
+			ar, br = ar[an:], br[bn:]
+		case ar[0] == br[0]:
+			ar, br = ar[1:], br[1:]
+		default:
+			if ac, bc := keyClass(ar[0]), keyClass(br[0]); ac != bc {
+				return ac < bc
+			}
+
+			return ar[0] < br[0]
+		}
+	}
+
+	return len(ar) < len(br)
+}
+
+func keyClass(r rune) int {
+	switch {
+	case unicode.IsLetter(r):
+		return 2
+	case r >= '0' && r <= '9':
+		return 1
+	default:
+		return 0
+	}
+}
+
+// digits counts leading digits.
+func digits(r []rune) int {
+	n := 0
+	for n < len(r) && keyClass(r[n]) == 1 {
+		n++
+	}
+
+	return n
+}
+
+// compareDigits compares values of numbers, and then number of leading zeroes.
+func compareDigits(a, b []rune) int {
+	av, bv := strings.TrimLeft(string(a), "0"), strings.TrimLeft(string(b), "0")
+
+	switch {
+	case len(av) != len(bv):
+		return len(av) - len(bv)
+	case av != bv:
+		return strings.Compare(av, bv)
+	default:
+		return len(a) - len(b)
+	}
+}
diff --git a/openapi3/yaml.go b/openapi3/yaml.go
index dd8083b..593b8c8 100644
--- a/openapi3/yaml.go
+++ b/openapi3/yaml.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 
+	"github.com/swaggest/openapi-go/internal"
 	"gopkg.in/yaml.v2"
 )
 
@@ -67,7 +68,7 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: internal.SortYAML(mapData[key]),
 		})
 	}
 
diff --git a/openapi31/yaml.go b/openapi31/yaml.go
index 44b9e81..21639a5 100644
--- a/openapi31/yaml.go
+++ b/openapi31/yaml.go
@@ -6,6 +6,7 @@ import (
 	"errors"
 	"fmt"
 
+	"github.com/swaggest/openapi-go/internal"
 	"gopkg.in/yaml.v2"
 )
 
@@ -67,7 +68,7 @@ func (om *orderedMap) UnmarshalJSON(data []byte) error {
 	for _, key := range keys {
 		*om = append(*om, yaml.MapItem{
 			Key:   key,
-			Value: mapData[key],
+			Value: internal.SortYAML(mapData[key]),
 		})
 	}
 
-- 
2.43.0


From c22ad639503c601a6aadf428168479e7ca4a0992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:41 +0000
Subject: [PATCH 34/44] fix: document JSON body of a virtual structure

---
 internal/json_schema.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index 18e9658..b5c9fd6 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -68,6 +68,11 @@ func ReflectRequestBody(
 
 	hasJSONSchemaStruct := false
 
+	switch input.(type) {
+	case jsonschema.Struct, *jsonschema.Struct:
+		hasJSONSchemaStruct = true
+	}
+
 	refl.WalkFieldsRecursively(reflect.ValueOf(input), func(v reflect.Value, _ reflect.StructField, _ []reflect.StructField) {
 		if v.Type() == reflect.TypeOf(jsonschema.Struct{}) {
 			hasJSONSchemaStruct = true
-- 
2.43.0


From 25b7bdaf5cae4f3aa8970703c22454d42853bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:56 +0000
Subject: [PATCH 35/44] fix: return error for a definition that can not be
 encoded

---
 openapi31/reflect.go | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 94fe11d..4b6568f 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -440,8 +440,10 @@ func (r *Reflector) parseParametersIn(
 		return nil
 	}
 
+	var defErr error
+
 	s, err := internal.ReflectParametersIn(
-		r.JSONSchemaReflector(), oc, c, in, r.collectDefinition(), func(params jsonschema.InterceptPropParams) error {
+		r.JSONSchemaReflector(), oc, c, in, r.collectDefinition(&defErr), func(params jsonschema.InterceptPropParams) error {
 			if !params.Processed || len(params.Path) > 1 {
 				return nil
 			}
@@ -488,7 +490,7 @@ func (r *Reflector) parseParametersIn(
 				propertySchema, err := r.Reflect(property,
 					openapi.WithOperationCtx(oc, false, in),
 					jsonschema.DefinitionsPrefix(componentsSchemas),
-					jsonschema.CollectDefinitions(r.collectDefinition()),
+					jsonschema.CollectDefinitions(r.collectDefinition(&defErr)),
 					jsonschema.RootRef,
 					sanitizeDefName,
 				)
@@ -550,6 +552,10 @@ func (r *Reflector) parseParametersIn(
 			return nil
 		}, additionalTags...,
 	)
+	if err == nil {
+		err = defErr
+	}
+
 	if err != nil {
 		return err
 	}
@@ -571,7 +577,8 @@ func sanitizeDefName(rc *jsonschema.ReflectContext) {
 	})(rc)
 }
 
-func (r *Reflector) collectDefinition() func(name string, schema jsonschema.Schema) {
+// collectDefinition adds definitions to components, failure is set for a definition that can not be added.
+func (r *Reflector) collectDefinition(failure *error) func(name string, schema jsonschema.Schema) {
 	return func(name string, schema jsonschema.Schema) {
 		if _, exists := r.SpecEns().ComponentsEns().Schemas[name]; exists {
 			return
@@ -579,7 +586,9 @@ func (r *Reflector) collectDefinition() func(name string, schema jsonschema.Sche
 
 		sm, err := schema.ToSchemaOrBool().ToSimpleMap()
 		if err != nil {
-			panic("BUG:" + err.Error())
+			*failure = fmt.Errorf("definition %s: %w", name, err)
+
+			return
 		}
 
 		r.SpecEns().ComponentsEns().WithSchemasItem(name, sm)
@@ -739,13 +748,18 @@ func (r *Reflector) ensureResponseContentType(resp *Response, contentType string
 }
 
 func (r *Reflector) parseJSONResponse(resp *Response, oc openapi.OperationContext, cu openapi.ContentUnit) error {
+	var defErr error
+
 	sch, err := internal.ReflectJSONResponse(
 		r.JSONSchemaReflector(),
 		cu.Structure,
 		openapi.WithOperationCtx(oc, true, openapi.InBody),
 		jsonschema.DefinitionsPrefix(componentsSchemas),
-		jsonschema.CollectDefinitions(r.collectDefinition()),
+		jsonschema.CollectDefinitions(r.collectDefinition(&defErr)),
 	)
+	if err == nil {
+		err = defErr
+	}
 
 	if err != nil || sch == nil {
 		return err
-- 
2.43.0


From 34aec54d25b2b7f6bd65ca70edba8e0f53568ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:01 +0000
Subject: [PATCH 36/44] fix: refuse components with invalid names instead of
 dropping them (3.0)

---
 openapi3/entities.go | 90 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 90 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 741504e..3ce11e1 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -6015,6 +6015,16 @@ func (c *ComponentsSchemas) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsSchemas: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6081,6 +6091,16 @@ func (c *ComponentsResponses) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsResponses: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6147,6 +6167,16 @@ func (c *ComponentsParameters) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsParameters: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6213,6 +6243,16 @@ func (c *ComponentsExamples) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsExamples: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6279,6 +6319,16 @@ func (c *ComponentsRequestBodies) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsRequestBodies: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -6345,6 +6395,16 @@ func (c *ComponentsHeaders) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsHeaders: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -8077,6 +8137,16 @@ func (c *ComponentsSecuritySchemes) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsSecuritySchemes: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -8143,6 +8213,16 @@ func (c *ComponentsLinks) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsLinks: %v", offendingKeys)
+	}
+
 	return nil
 }
 
@@ -8209,6 +8289,16 @@ func (c *ComponentsCallbacks) UnmarshalJSON(data []byte) error {
 		}
 	}
 
+	if len(rawMap) != 0 {
+		offendingKeys := make([]string, 0, len(rawMap))
+
+		for key := range rawMap {
+			offendingKeys = append(offendingKeys, key)
+		}
+
+		return fmt.Errorf("additional properties not allowed in ComponentsCallbacks: %v", offendingKeys)
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 275feaba9100977b14b5df1d8fcf5e5a248a6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:17 +0000
Subject: [PATCH 37/44] fix: strip space before parameters of a response
 content type

---
 openapi3/reflect.go  | 1 +
 openapi31/reflect.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 65b0fba..163624c 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -679,6 +679,7 @@ func (r *Reflector) setupResponse(o *Operation, oc openapi.OperationContext) err
 		}
 
 		cu.ContentType = strings.Split(cu.ContentType, ";")[0]
+		cu.ContentType = strings.TrimSpace(cu.ContentType)
 
 		httpStatus := strconv.Itoa(cu.HTTPStatus)
 		resp := o.Responses.MapOfResponseOrRefValues[httpStatus].Response
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4b6568f..12c837d 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -671,6 +671,7 @@ func (r *Reflector) setupResponse(o *Operation, oc openapi.OperationContext) err
 		}
 
 		cu.ContentType = strings.Split(cu.ContentType, ";")[0]
+		cu.ContentType = strings.TrimSpace(cu.ContentType)
 
 		httpStatus := strconv.Itoa(cu.HTTPStatus)
 		resp := o.ResponsesEns().MapOfResponseOrReferenceValues[httpStatus].Response
-- 
2.43.0


From da03e87b1273a252532300bcf1f9964701667c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:19 +0000
Subject: [PATCH 38/44] fix: keep const of JSON Schema in OpenAPI 3.0 (as an
 enum of one value)

---
 openapi3/jsonschema.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 2d48ca7..ce8122f 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -242,6 +242,15 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 	os.Default = js.Default
 	os.Enum = js.Enum
 
+	// There is no const in OpenAPI 3.0, it is an enum of a single value.
+	if js.Const != nil {
+		if len(os.Enum) == 0 {
+			os.Enum = []interface{}{*js.Const}
+		} else {
+			os.AllOf = append(os.AllOf, SchemaOrRef{Schema: (&Schema{}).WithEnum(*js.Const)})
+		}
+	}
+
 	if len(js.Examples) > 0 {
 		os.Example = &js.Examples[0]
 	}
-- 
2.43.0


From 177d4220415ad83a572c65adf8e8dd59338599ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:35 +0000
Subject: [PATCH 39/44] fix: keep allowEmptyValue and allowReserved of an
 OpenAPI 3.1 parameter

---
 openapi31/entities.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 19bd682..68e3fb7 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1188,18 +1188,20 @@ func (r *Reference) UnmarshalJSON(data []byte) error {
 
 // Parameter structure is generated from "#/$defs/parameter".
 type Parameter struct {
-	Name          string                        `json:"name"` // Required.
-	In            ParameterIn                   `json:"in"`   // Required.
-	Description   *string                       `json:"description,omitempty"`
-	Required      *bool                         `json:"required,omitempty"`
-	Deprecated    *bool                         `json:"deprecated,omitempty"`
-	Schema        map[string]interface{}        `json:"schema,omitempty"`
-	Content       map[string]MediaType          `json:"content,omitempty"`
-	Style         *ParameterStyle               `json:"style,omitempty"`
-	Explode       *bool                         `json:"explode,omitempty"`
-	Example       *interface{}                  `json:"example,omitempty"`
-	Examples      map[string]ExampleOrReference `json:"examples,omitempty"`
-	MapOfAnything map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
+	Name            string                        `json:"name"` // Required.
+	In              ParameterIn                   `json:"in"`   // Required.
+	Description     *string                       `json:"description,omitempty"`
+	Required        *bool                         `json:"required,omitempty"`
+	Deprecated      *bool                         `json:"deprecated,omitempty"`
+	AllowEmptyValue *bool                         `json:"allowEmptyValue,omitempty"`
+	AllowReserved   *bool                         `json:"allowReserved,omitempty"`
+	Schema          map[string]interface{}        `json:"schema,omitempty"`
+	Content         map[string]MediaType          `json:"content,omitempty"`
+	Style           *ParameterStyle               `json:"style,omitempty"`
+	Explode         *bool                         `json:"explode,omitempty"`
+	Example         *interface{}                  `json:"example,omitempty"`
+	Examples        map[string]ExampleOrReference `json:"examples,omitempty"`
+	MapOfAnything   map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithName sets Name value.
@@ -1232,6 +1234,18 @@ func (p *Parameter) WithDeprecated(val bool) *Parameter {
 	return p
 }
 
+// WithAllowEmptyValue sets AllowEmptyValue value.
+func (p *Parameter) WithAllowEmptyValue(val bool) *Parameter {
+	p.AllowEmptyValue = &val
+	return p
+}
+
+// WithAllowReserved sets AllowReserved value.
+func (p *Parameter) WithAllowReserved(val bool) *Parameter {
+	p.AllowReserved = &val
+	return p
+}
+
 // WithSchema sets Schema value.
 func (p *Parameter) WithSchema(val map[string]interface{}) *Parameter {
 	p.Schema = val
@@ -1326,6 +1340,8 @@ var knownKeysParameter = []string{
 	"description",
 	"required",
 	"deprecated",
+	"allowEmptyValue",
+	"allowReserved",
 	"schema",
 	"content",
 	"style",
-- 
2.43.0


From ac3c99945890061be06ace1445ffacb95829c06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:58 +0000
Subject: [PATCH 40/44] fix: keep server of an OpenAPI 3.1 link

---
 openapi31/entities.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 68e3fb7..4f8e556 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3140,6 +3140,7 @@ type Link struct {
 	RequestBody   *interface{}           `json:"requestBody,omitempty"`
 	Description   *string                `json:"description,omitempty"`
 	Body          *Server                `json:"body,omitempty"`
+	Server        *Server                `json:"server,omitempty"`
 	MapOfAnything map[string]interface{} `json:"-"` // Key must match pattern: `^x-`.
 }
 
@@ -3199,6 +3200,21 @@ func (l *Link) BodyEns() *Server {
 	return l.Body
 }
 
+// WithServer sets Server value.
+func (l *Link) WithServer(val Server) *Link {
+	l.Server = &val
+	return l
+}
+
+// ServerEns ensures returned Server is not nil.
+func (l *Link) ServerEns() *Server {
+	if l.Server == nil {
+		l.Server = new(Server)
+	}
+
+	return l.Server
+}
+
 // WithMapOfAnything sets MapOfAnything value.
 func (l *Link) WithMapOfAnything(val map[string]interface{}) *Link {
 	l.MapOfAnything = val
@@ -3225,6 +3241,7 @@ var knownKeysLink = []string{
 	"requestBody",
 	"description",
 	"body",
+	"server",
 }
 
 // UnmarshalJSON decodes JSON.
-- 
2.43.0


From b76dd892fe08d98bba78fbb9e28a86cd35c5bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:59 +0000
Subject: [PATCH 41/44] fix: keep extensions of OpenAPI 3.1 encodings

---
 openapi31/entities.go | 65 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 4f8e556..dfc2573 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1588,6 +1588,7 @@ type Encoding struct {
 	Style         *EncodingStyle               `json:"style,omitempty"`
 	Explode       *bool                        `json:"explode,omitempty"`
 	AllowReserved *bool                        `json:"allowReserved,omitempty"`
+	MapOfAnything map[string]interface{}       `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithContentType sets ContentType value.
@@ -1631,6 +1632,70 @@ func (e *Encoding) WithAllowReserved(val bool) *Encoding {
 	return e
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (e *Encoding) WithMapOfAnything(val map[string]interface{}) *Encoding {
+	e.MapOfAnything = val
+	return e
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (e *Encoding) WithMapOfAnythingItem(key string, val interface{}) *Encoding {
+	if e.MapOfAnything == nil {
+		e.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	e.MapOfAnything[key] = val
+
+	return e
+}
+
+type marshalEncoding Encoding
+
+// UnmarshalJSON decodes JSON.
+func (e *Encoding) UnmarshalJSON(data []byte) error {
+	var err error
+
+	me := marshalEncoding(*e)
+
+	err = json.Unmarshal(data, &me)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for key, rawValue := range rawMap {
+		if regexX.MatchString(key) {
+			if me.MapOfAnything == nil {
+				me.MapOfAnything = make(map[string]interface{}, 1)
+			}
+
+			var val interface{}
+
+			err = json.Unmarshal(rawValue, &val)
+			if err != nil {
+				return err
+			}
+
+			me.MapOfAnything[key] = val
+		}
+	}
+
+	*e = Encoding(me)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (e Encoding) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalEncoding(e), e.MapOfAnything)
+}
+
 // Header structure is generated from "#/$defs/header".
 type Header struct {
 	Description   *string                       `json:"description,omitempty"`
-- 
2.43.0


From dbade59aa053948d5101fedc58abc2e79319ec0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:00 +0000
Subject: [PATCH 42/44] fix: keep extensions of OpenAPI 3.1 components

---
 openapi31/entities.go | 65 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 65 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index dfc2573..92da700 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3897,6 +3897,7 @@ type Components struct {
 	Links           map[string]LinkOrReference           `json:"links,omitempty"`
 	Callbacks       map[string]CallbacksOrReference      `json:"callbacks,omitempty"`
 	PathItems       map[string]PathItemOrReference       `json:"pathItems,omitempty"`
+	MapOfAnything   map[string]interface{}               `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithSchemas sets Schemas value.
@@ -4069,6 +4070,70 @@ func (c *Components) WithPathItemsItem(key string, val PathItemOrReference) *Com
 	return c
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (c *Components) WithMapOfAnything(val map[string]interface{}) *Components {
+	c.MapOfAnything = val
+	return c
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (c *Components) WithMapOfAnythingItem(key string, val interface{}) *Components {
+	if c.MapOfAnything == nil {
+		c.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	c.MapOfAnything[key] = val
+
+	return c
+}
+
+type marshalComponents Components
+
+// UnmarshalJSON decodes JSON.
+func (c *Components) UnmarshalJSON(data []byte) error {
+	var err error
+
+	mc := marshalComponents(*c)
+
+	err = json.Unmarshal(data, &mc)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for key, rawValue := range rawMap {
+		if regexX.MatchString(key) {
+			if mc.MapOfAnything == nil {
+				mc.MapOfAnything = make(map[string]interface{}, 1)
+			}
+
+			var val interface{}
+
+			err = json.Unmarshal(rawValue, &val)
+			if err != nil {
+				return err
+			}
+
+			mc.MapOfAnything[key] = val
+		}
+	}
+
+	*c = Components(mc)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (c Components) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalComponents(c), c.MapOfAnything)
+}
+
 // SecurityScheme structure is generated from "#/$defs/security-scheme".
 type SecurityScheme struct {
 	Description   *string                   `json:"description,omitempty"`
-- 
2.43.0


From 8469e743e4b6bbc9a000d45b6181ddfe1249cc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:27 +0000
Subject: [PATCH 43/44] fix: keep reference of an OpenAPI 3.1 path item

---
 openapi31/entities.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 92da700..83e4489 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -874,6 +874,7 @@ func (s ServerVariable) MarshalJSON() ([]byte, error) {
 
 // PathItem structure is generated from "#/$defs/path-item".
 type PathItem struct {
+	Ref           *string                `json:"$ref,omitempty"` // Format: uri-reference.
 	Summary       *string                `json:"summary,omitempty"`
 	Description   *string                `json:"description,omitempty"`
 	Servers       []Server               `json:"servers,omitempty"`
@@ -889,6 +890,12 @@ type PathItem struct {
 	MapOfAnything map[string]interface{} `json:"-"` // Key must match pattern: `^x-`.
 }
 
+// WithRef sets Ref value.
+func (p *PathItem) WithRef(val string) *PathItem {
+	p.Ref = &val
+	return p
+}
+
 // WithSummary sets Summary value.
 func (p *PathItem) WithSummary(val string) *PathItem {
 	p.Summary = &val
@@ -1053,6 +1060,7 @@ func (p *PathItem) WithMapOfAnythingItem(key string, val interface{}) *PathItem
 type marshalPathItem PathItem
 
 var knownKeysPathItem = []string{
+	"$ref",
 	"summary",
 	"description",
 	"servers",
-- 
2.43.0


From a16aa8fae1d5721b82191c5b4cd681e3dde8e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:44 +0000
Subject: [PATCH 44/44] fix: do not panic on an OpenAPI 3.0 response header
 with a reference schema

---
 openapi3/reflect.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 163624c..7a04276 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -627,7 +627,6 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 
 			header := Header{
 				Description:   propertySchema.Description,
-				Deprecated:    s.Schema.Deprecated,
 				Schema:        &s,
 				Content:       nil,
 				Example:       nil,
@@ -635,6 +634,11 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 				MapOfAnything: nil,
 			}
 
+			// Schema can be a reference.
+			if s.Schema != nil {
+				header.Deprecated = s.Schema.Deprecated
+			}
+
 			err := refl.PopulateFieldsFromTags(&header, field.Tag)
 			if err != nil {
 				return err
-- 
2.43.0

