// Package imp imports random documents of the formats SADL reads.
package imp

import (
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"
	"github.com/boynton/sadl/openapi"
	"github.com/boynton/sadl/smithy"

	"verif/gen"
	"verif/gql"
	"verif/mon"
	"verif/oas"
	"verif/smi"
)

var Kinds = []string{"openapi", "swagger", "graphql", "smithy"}

// Import makes a random document of a kind, in dir, and imports it.
func Import(rnd *mon.Rand, dir, kind string, plain bool, conf *sadl.Data) (m *sadl.Model, text string, err error) {
	name := "spec.json"
	switch kind {
	case "openapi", "swagger":
		d := &oas.DocGen{Rand: rnd, V2: kind == "swagger", Plain: plain}
		doc, _ := d.Doc("spec")
		text = mon.JSON(doc)
	case "graphql":
		name = "spec.graphql"
		for text == "" {
			text = strings.Join(gql.Build(gen.New(rnd, gen.Opts{})).Parts, "\n")
		}
	case "smithy":
		d := &smi.DocGen{Rand: rnd}
		d.Doc()
		text = d.Text(d.Shapes, true)
	default:
		mon.Bug("no documents of kind %s", kind)
	}
	f := filepath.Join(dir, name)
	if err := os.WriteFile(f, []byte(text), 0644); err != nil {
		mon.Bug("%v", err)
	}
	switch kind {
	case "openapi":
		m, err = openapi.Import([]string{f}, conf)
	case "swagger":
		m, err = openapi.ImportSwagger([]string{f}, conf)
	case "graphql":
		m, err = graphql.Import([]string{f}, conf)
	default:
		m, err = smithy.Import([]string{f}, conf)
	}
	return m, text, err
}
