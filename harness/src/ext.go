package src

import (
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

// Ext is a statement of an extension of the language.
type Ext struct {
	Keyword string                 `json:"keyword"`
	Id      string                 `json:"id"`
	Text    string                 `json:"text,omitempty"`
	Name    string                 `json:"name,omitempty"`
	Header  string                 `json:"header,omitempty"`
	Min     *sadl.Decimal          `json:"min,omitempty"`
	Annos   map[string]string      `json:"annotations,omitempty"`
	Entries []*sadl.StructFieldDef `json:"entries,omitempty"`
	Words   []string               `json:"words,omitempty"`
	Block   bool                   `json:"block,omitempty"`
	Comment string                 `json:"comment,omitempty"`
}

// RandExt makes a statement; entries are fields of the given types.
func RandExt(g *mon.Rand, keyword string, fields []*sadl.StructFieldDef) *Ext {
	e := &Ext{Keyword: keyword}
	if g.P(40) {
		e.Comment = g.Pick("a widget", "what it is for", "one two three four five six", "été (x) { }")
	}
	if keyword == "rule" { // a line of tokens
		e.Words = append(e.Words, "first")
		for i, n := 0, g.Intn(5); i < n; i++ {
			e.Words = append(e.Words, g.Pick("a", "type", "12", "http", "x_y", "Struct"))
		}
		return e
	}
	e.Id = g.Pick("Box", "a.b", "one.two.three", "type", "x1")
	if g.P(50) {
		e.Text = g.Pick("some text", "a // b", "{", "x = y; z")
	}
	if g.P(30) {
		e.Name = g.Pick("theName", "n1", "two words")
	}
	if g.P(30) {
		e.Header = g.Pick("X-Thing", "a, b")
	}
	if g.P(30) {
		d, _ := sadl.ParseDecimal(g.Pick("1", "-2.5", "1000000"))
		e.Min = d
	}
	e.Annos = annos(g, 30)
	if e.Block = g.P(70); e.Block {
		e.Entries = fields
	}
	return e
}

// Extension writes the statement.
func (w *W) Extension(e *Ext) string {
	lead, trail := w.comment(e.Comment, "", false)
	t := lead + e.Keyword
	if e.Words != nil {
		for _, x := range e.Words {
			t += w.sp() + x
		}
		return t + trail + "\n"
	}
	t += w.sp() + strings.ReplaceAll(e.Id, ".", w.Pick(".", ".", " . "))
	if e.Text != "" {
		t += w.sp() + str(e.Text)
	}
	var o []string
	if e.Name != "" {
		o = append(o, w.eq("name", w.name(e.Name)))
	}
	if e.Header != "" {
		o = append(o, w.eq("header", str(e.Header)))
	}
	if e.Min != nil {
		o = append(o, w.eq("min", e.Min.String()))
	}
	t += w.opts(append(o, w.annos(e.Annos)...))
	if e.Block {
		t += w.sp() + "{\n"
		for _, f := range e.Entries {
			l, tr := w.comment(f.Comment, "  ", false)
			t += l + "  " + w.field(f, "  ") + w.semi() + tr + "\n"
			if w.alt(10, "blank line in body") {
				t += "\n"
			}
		}
		t += "}"
	}
	return t + w.semi() + trail + "\n"
}

// Part writes one file: the head of s, then the items in order.
func Part(w *W, s *sadl.Schema, items []string) string {
	h := sadl.Schema{Sadl: s.Sadl, Name: s.Name, Namespace: s.Namespace, Version: s.Version, Base: s.Base, Annotations: s.Annotations, Comment: s.Comment}
	w.b.Reset()
	w.write(&h)
	t := w.b.String()
	for _, x := range items {
		t += x
		if w.P(30) {
			t += "\n"
		}
	}
	return t
}

// Definition writes one definition of s.
func (w *W) Definition(s *sadl.Schema, kind, i int) string {
	switch kind {
	case 0:
		return w.typedef(s.Types[i])
	case 1:
		return w.operation(s.Operations[i])
	case 2:
		return w.http(s.Http[i], Derived(s.Http[i]))
	}
	return w.example(s.Examples[i])
}

// NewW is a writer.
func NewW(r *mon.Rand, plain bool) *W { return &W{Rand: r, Plain: plain, Used: map[string]int{}} }

// Comment writes a comment and what follows.
func (w *W) Commented(comment, text string) string {
	lead, trail := w.comment(comment, "", false)
	return lead + text + w.semi() + trail + "\n"
}
