// Package smithy is a stand-in for github.com/boynton/smithy (not available offline): the JSON AST of the Smithy
// specification with ordered shapes and members, assembled from files. The text form (IDL, Parse) is a header line
// followed by the AST: the syntax of the Smithy language is the business of the original, not of sadl.
package smithy

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"

	"github.com/boynton/data"
)

type AST struct {
	Smithy   string       `json:"smithy"`
	Metadata *data.Object `json:"metadata,omitempty"`
	Shapes   *Shapes      `json:"shapes,omitempty"`
}

type ShapeRef struct {
	Target string `json:"target"`
}

type Member struct {
	Target string       `json:"target"`
	Traits *data.Object `json:"traits,omitempty"`
}

type Shape struct {
	Type   string       `json:"type"`
	Traits *data.Object `json:"traits,omitempty"`

	Member *Member `json:"member,omitempty"` // list, set

	Key   *Member `json:"key,omitempty"` // map
	Value *Member `json:"value,omitempty"`

	Members *Members    `json:"members,omitempty"` // structure, union, enum
	Mixins  []*ShapeRef `json:"mixins,omitempty"`

	Identifiers          map[string]*ShapeRef `json:"identifiers,omitempty"` // resource
	Create               *ShapeRef            `json:"create,omitempty"`
	Put                  *ShapeRef            `json:"put,omitempty"`
	Read                 *ShapeRef            `json:"read,omitempty"`
	Update               *ShapeRef            `json:"update,omitempty"`
	Delete               *ShapeRef            `json:"delete,omitempty"`
	List                 *ShapeRef            `json:"list,omitempty"`
	CollectionOperations []*ShapeRef          `json:"collectionOperations,omitempty"`

	Version    string      `json:"version,omitempty"` // service
	Operations []*ShapeRef `json:"operations,omitempty"`
	Resources  []*ShapeRef `json:"resources,omitempty"`

	Input  *ShapeRef   `json:"input,omitempty"` // operation
	Output *ShapeRef   `json:"output,omitempty"`
	Errors []*ShapeRef `json:"errors,omitempty"`
}

// an ordered map
type omap[T any] struct {
	keys     []string
	bindings map[string]*T
}

func (m *omap[T]) Put(key string, v *T) {
	if m.bindings == nil {
		m.bindings = map[string]*T{}
	}
	if _, ok := m.bindings[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.bindings[key] = v
}

func (m *omap[T]) Get(key string) *T {
	if m == nil {
		return nil
	}
	return m.bindings[key]
}

func (m *omap[T]) Keys() []string {
	if m == nil {
		return nil
	}
	return m.keys
}

func (m *omap[T]) Length() int {
	if m == nil {
		return 0
	}
	return len(m.keys)
}

func (m *omap[T]) UnmarshalJSON(b []byte) error {
	if string(bytes.TrimSpace(b)) == "null" {
		return nil
	}
	keys, err := data.JsonKeysInOrder(b)
	if err != nil {
		return err
	}
	var v map[string]*T
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	for _, k := range keys {
		m.Put(k, v[k])
	}
	return nil
}

func (m omap[T]) MarshalJSON() ([]byte, error) {
	var b bytes.Buffer
	b.WriteString("{")
	for i, k := range m.keys {
		if i > 0 {
			b.WriteString(",")
		}
		kb, err := json.Marshal(k)
		if err != nil {
			return nil, err
		}
		vb, err := json.Marshal(m.bindings[k])
		if err != nil {
			return nil, err
		}
		b.Write(kb)
		b.WriteString(":")
		b.Write(vb)
	}
	b.WriteString("}")
	return b.Bytes(), nil
}

type Shapes struct{ omap[Shape] }
type Members struct{ omap[Member] }

func NewShapes() *Shapes   { return &Shapes{} }
func NewMembers() *Members { return &Members{} }

func (s *Shapes) Get(key string) *Shape {
	if s == nil {
		return nil
	}
	return s.omap.Get(key)
}

func (s *Shapes) Keys() []string {
	if s == nil {
		return nil
	}
	return s.omap.Keys()
}

func (s *Shapes) Length() int {
	if s == nil {
		return 0
	}
	return s.omap.Length()
}

func (m *Members) Get(key string) *Member {
	if m == nil {
		return nil
	}
	return m.omap.Get(key)
}

func (m *Members) Keys() []string {
	if m == nil {
		return nil
	}
	return m.omap.Keys()
}

func (m *Members) Length() int {
	if m == nil {
		return 0
	}
	return m.omap.Length()
}

func (ast *AST) GetShape(id string) *Shape { return ast.Shapes.Get(id) }

func (ast *AST) PutShape(id string, s *Shape) {
	if ast.Shapes == nil {
		ast.Shapes = NewShapes()
	}
	ast.Shapes.Put(id, s)
}

func decode(b []byte) (*AST, error) {
	var ast *AST
	if err := json.Unmarshal(b, &ast); err != nil {
		return nil, fmt.Errorf("Cannot parse Smithy AST file: %v", err)
	}
	if ast == nil || ast.Smithy == "" {
		return nil, fmt.Errorf("Cannot parse Smithy AST file: no version")
	}
	return ast, nil
}

func LoadAST(path string) (*AST, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, fmt.Errorf("Cannot read smithy AST file: %v", err)
	}
	return decode(b)
}

const header = "//smithy stand-in, namespace "

func (ast *AST) IDL(ns string) string {
	b, err := json.MarshalIndent(ast, "", "  ")
	if err != nil {
		return "//error: " + err.Error() + "\n"
	}
	return header + ns + "\n" + string(b) + "\n"
}

func Parse(path string) (*AST, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	s := string(b)
	n := strings.Index(s, "\n")
	if !strings.HasPrefix(s, header) || n < 0 {
		return nil, fmt.Errorf("%s:1: syntax error", path)
	}
	ast, err := decode([]byte(s[n+1:]))
	if err != nil {
		return nil, err
	}
	ast.Metadata = idlObject(ast.Metadata)
	for _, k := range ast.Shapes.Keys() {
		shape := ast.Shapes.Get(k)
		if shape == nil {
			continue
		}
		shape.Traits = idlObject(shape.Traits)
		members := []*Member{shape.Member, shape.Key, shape.Value}
		for _, n := range shape.Members.Keys() {
			members = append(members, shape.Members.Get(n))
		}
		for _, m := range members {
			if m != nil {
				m.Traits = idlObject(m.Traits)
			}
		}
	}
	return ast, nil
}

// the values of traits in the text form: ordered objects and decimal numbers
func idlObject(o *data.Object) *data.Object {
	for _, k := range o.Keys() {
		o.Put(k, idlValue(o.Get(k)))
	}
	return o
}

func idlValue(v interface{}) interface{} {
	switch t := v.(type) {
	case float64:
		if d, err := data.ParseDecimal(strconv.FormatFloat(t, 'g', -1, 64)); err == nil {
			return d
		}
	case map[string]interface{}:
		return idlObject(data.ObjectFromMap(t))
	case []interface{}:
		for i := range t {
			t[i] = idlValue(t[i])
		}
	}
	return v
}

func major(v string) string { return strings.SplitN(v, ".", 2)[0] }

func (ast *AST) Merge(src *AST) error {
	if major(ast.Smithy) != major(src.Smithy) {
		return fmt.Errorf("Smithy version mismatch. Expected %s, got %s", ast.Smithy, src.Smithy)
	}
	for _, k := range src.Metadata.Keys() {
		if ast.Metadata == nil {
			ast.Metadata = data.NewObject()
		}
		v := src.Metadata.Get(k)
		if ast.Metadata.Has(k) && data.ToString(ast.Metadata.Get(k)) != data.ToString(v) {
			return fmt.Errorf("Conflict when merging metadata in models: %s", k)
		}
		ast.Metadata.Put(k, v)
	}
	for _, k := range src.Shapes.Keys() {
		if ast.GetShape(k) != nil {
			return fmt.Errorf("Duplicate shape in assembly: %s", k)
		}
		ast.PutShape(k, src.GetShape(k))
	}
	return nil
}

func (ast *AST) Filter(tags []string) {}

// Validate does not look into the shapes: what is wrong in them is for the importer to notice.
func (ast *AST) Validate() error { return nil }
