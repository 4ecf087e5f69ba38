module verif

go 1.24

require (
	github.com/boynton/data v0.0.1
	github.com/boynton/sadl v0.0.0
	github.com/boynton/scanner v1.0.0
	github.com/boynton/smithy v0.4.8
	github.com/ghodss/yaml v1.0.0
	github.com/graphql-go/graphql v0.8.0
)

require gopkg.in/yaml.v2 v2.4.0 // indirect

replace github.com/boynton/sadl => /repo

replace github.com/boynton/scanner => ../shim/scanner

replace github.com/boynton/smithy => ../shim/smithy
