module verif/harness

go 1.18

require (
	github.com/swaggest/jsonschema-go v0.3.78
	github.com/swaggest/openapi-go v0.0.0
	github.com/swaggest/refl v1.4.0
	gopkg.in/yaml.v2 v2.4.0
	gopkg.in/yaml.v3 v3.0.1
)

replace github.com/swaggest/openapi-go => /repo
