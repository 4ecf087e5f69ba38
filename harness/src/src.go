// Package src writes SADL source for a schema, in many layouts.  It is the inverse of the
// language's grammar as documented by the README and the examples; it shares no code with sadl's
// own source generator.
package src

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

var ident = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z_0-9]*$`)

// W writes one source text; every layout decision comes from the PRNG.
type W struct {
	*mon.Rand
	b strings.Builder
	// Plain writes the most common layout only
	Plain bool
	// Tokens counts the layout alternatives that were used
	Used map[string]int
	open string // a comment to write after the next opening brace
}

func (w *W) use(k string) { w.Used[k]++ }

func (w *W) alt(pct int, k string) bool {
	if w.Plain || !w.P(pct) {
		return false
	}
	w.use(k)
	return true
}

// sp is blank space between two tokens of a line.
func (w *W) sp() string {
	if w.alt(4, "block comment") {
		return w.Pick(" /* note */ ", " /*\n type Fake String\n*/ ", "/**/", " /* a // b */ ", " /* } */ ", " /* \" */ ")
	}
	if w.alt(10, "blanks") {
		return w.Pick("  ", "\t", " \t ", "    ")
	}
	return " "
}

// osp is optional blank space.
func (w *W) osp() string {
	if w.alt(15, "optional blank") {
		return w.sp()
	}
	return ""
}

func lines(w *W, words []string, indent string) string {
	var b strings.Builder
	for len(words) > 0 {
		n := w.Range(1, len(words))
		if w.Plain {
			n = len(words)
		}
		b.WriteString(indent + "//" + w.Pick("", " ", "  ") + strings.Join(words[:n], " "))
		if w.alt(5, "trailing blank in comment") {
			b.WriteString("  ")
		}
		b.WriteString("\n")
		words = words[n:]
		if w.alt(10, "empty comment line") {
			b.WriteString(indent + w.Pick("//", "// ", "//\t") + "\n")
		}
		if w.alt(5, "blank line in comment") {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// comment splits the text over the lines before the statement and the end of its line.
func (w *W) comment(text, indent string, noTrail bool) (lead, trail string) {
	words := strings.Fields(text)
	if len(words) == 0 {
		return "", ""
	}
	k := len(words)
	if !noTrail {
		switch w.Intn(3) {
		case 0:
			k = 0
		case 1:
			k = w.Intn(len(words) + 1)
		}
	}
	lead = lines(w, words[:k], indent)
	if k == 0 && !noTrail {
		w.use("trailing comment")
	}
	if k < len(words) {
		trail = w.Pick(" ", "", "\t") + "//" + w.Pick("", " ") + strings.Join(words[k:], " ")
	}
	return
}

func (w *W) semi() string {
	if w.alt(15, "semicolon") {
		return w.Pick(";", " ;", ";;")
	}
	return ""
}

func (w *W) optName(s string) string {
	if w.alt(20, "option case") {
		switch w.Intn(3) {
		case 0:
			return strings.ToUpper(s)
		case 1:
			return strings.ToUpper(s[:1]) + s[1:]
		}
		if s == "minsize" || s == "maxsize" {
			return s[:3] + "Size"
		}
	}
	return s
}

func str(s string) string { return `"` + s + `"` }

func (w *W) annos(m map[string]string) []string {
	var out []string
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if m[k] == "" && !w.alt(40, "empty annotation value") {
			out = append(out, k)
		} else {
			out = append(out, k+w.osp()+"="+w.osp()+str(m[k]))
		}
	}
	return out
}

// name writes a name, in quotes where it has to be.
func (w *W) name(n string) string {
	if !ident.MatchString(n) || w.alt(10, "quoted name") {
		return str(n)
	}
	return n
}

func (w *W) eq(k, v string) string { return w.optName(k) + w.osp() + "=" + w.osp() + v }

func (w *W) constraints(ts *sadl.TypeSpec) []string {
	var o []string
	if ts.Pattern != "" {
		o = append(o, w.eq("pattern", str(ts.Pattern)))
	}
	if ts.Values != nil {
		var q []string
		for _, v := range ts.Values {
			q = append(q, str(v))
		}
		sep := ", "
		if w.alt(20, "multi-line values") {
			sep = w.Pick(",\n    ", "\n", " ")
		}
		o = append(o, w.eq("values", "["+w.Pick("", " ")+strings.Join(q, sep)+"]"))
	}
	if ts.MinSize != nil {
		o = append(o, w.eq("minsize", fmt.Sprint(*ts.MinSize)))
	}
	if ts.MaxSize != nil {
		o = append(o, w.eq("maxsize", fmt.Sprint(*ts.MaxSize)))
	}
	if ts.Min != nil {
		o = append(o, w.eq("min", ts.Min.String()))
	}
	if ts.Max != nil {
		o = append(o, w.eq("max", ts.Max.String()))
	}
	if ts.Reference != "" {
		o = append(o, w.eq("reference", ts.Reference))
	}
	return o
}

func (w *W) opts(o []string) string {
	if len(o) == 0 {
		if w.alt(3, "empty options") {
			return " ()"
		}
		return ""
	}
	p := w.Perm(len(o))
	var q []string
	for _, i := range p {
		if w.Plain {
			i = len(q)
		}
		q = append(q, o[i])
	}
	sep := ", "
	if w.alt(20, "option separator") {
		sep = w.Pick(",", " ", " , ", ",,")
	}
	return w.osp() + " (" + w.osp() + strings.Join(q, sep) + w.osp() + ")"
}

// literal writes a JSON value; multi allows line breaks.
func (w *W) literal(v interface{}, multi bool) string {
	b, err := json.Marshal(v)
	if err != nil {
		mon.Bug("src: %v", err)
	}
	var x interface{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if err := d.Decode(&x); err != nil {
		mon.Bug("src: %v", err)
	}
	return w.lit(x, multi)
}

func (w *W) lit(x interface{}, multi bool) string {
	nl := func() string {
		if multi && w.P(30) {
			w.use("multi-line literal")
			return w.Pick("\n", "\n  ", " \n")
		}
		return w.Pick("", " ")
	}
	switch v := x.(type) {
	case nil:
		return "null"
	case []interface{}:
		var q []string
		for _, i := range v {
			q = append(q, w.lit(i, multi))
		}
		s := "[" + nl()
		for i, e := range q {
			if i > 0 {
				s += "," + nl()
			}
			s += e
		}
		return s + nl() + "]"
	case map[string]interface{}:
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s := "{" + nl()
		for i, k := range keys {
			if i > 0 {
				s += "," + nl()
			}
			kb, _ := json.Marshal(k)
			s += string(kb) + w.Pick("", " ") + ":" + w.Pick("", " ") + w.lit(v[k], multi)
		}
		return s + nl() + "}"
	default:
		b, _ := json.Marshal(v)
		return string(b)
	}
}

// spec writes a type spec followed by its options.
func (w *W) spec(ts *sadl.TypeSpec, extra []string, annos map[string]string, indent string) string {
	o := append(w.constraints(ts), extra...)
	switch ts.Type {
	case "Array":
		name := w.Pick("Array", "List")
		o = append(o, w.annos(annos)...)
		if ts.Items == "Any" && w.alt(50, "bare Array") {
			return name + w.opts(o)
		}
		return name + w.osp() + "<" + w.osp() + ts.Items + w.osp() + ">" + w.opts(o)
	case "Map":
		o = append(o, w.annos(annos)...)
		if ts.Keys == "String" && ts.Items == "Any" && w.alt(50, "bare Map") {
			return "Map" + w.opts(o)
		}
		return "Map" + w.osp() + "<" + w.osp() + ts.Keys + w.Pick(",", ", ", " , ") + ts.Items + w.osp() + ">" + w.opts(o)
	case "UnitValue":
		o = append(o, w.annos(annos)...)
		if ts.Value == "Decimal" && ts.Unit == "String" && w.alt(50, "bare UnitValue") {
			return "UnitValue" + w.opts(o)
		}
		return "UnitValue<" + ts.Value + w.Pick(",", ", ") + ts.Unit + ">" + w.opts(o)
	case "Struct", "Enum", "Union":
		pre := ""
		if ts.Type == "Union" && w.Bool() {
			simple := true
			for _, v := range ts.Variants {
				if v.Name != v.Type || v.Comment != "" || v.Annotations != nil {
					simple = false
				}
			}
			if simple {
				w.use("Union<>")
				var q []string
				for _, v := range ts.Variants {
					q = append(q, v.Type)
				}
				return "Union<" + strings.Join(q, w.Pick(",", ", ")) + ">" + w.opts(append(o, w.annos(annos)...))
			}
		}
		if annos != nil && w.Bool() && !w.Plain {
			w.use("annotations before body")
			pre = w.opts(w.annos(annos))
		} else {
			o = append(o, w.annos(annos)...)
		}
		if ts.Type == "Struct" && len(ts.Fields) == 0 && len(o) == 0 && w.alt(50, "bare Struct") {
			return "Struct" + pre
		}
		return ts.Type + pre + w.sp() + w.body(ts, indent) + w.opts(o)
	}
	return ts.Type + w.opts(append(o, w.annos(annos)...))
}

func (w *W) field(f *sadl.StructFieldDef, indent string) string {
	return f.Name + w.sp() + w.spec(&f.TypeSpec, w.fieldOpts(f), f.Annotations, indent)
}

func (w *W) fieldOpts(f *sadl.StructFieldDef) []string {
	var o []string
	if f.Required {
		o = append(o, w.optName("required"))
	}
	if f.Default != nil {
		o = append(o, w.eq("default", w.literal(f.Default, false)))
	}
	return o
}

type stmt struct {
	comment, text string
}

func (w *W) body(ts *sadl.TypeSpec, indent string) string {
	in := indent + w.Pick("    ", "\t", "  ", "")
	open := w.open
	w.open = ""
	var st []stmt
	for _, f := range ts.Fields {
		st = append(st, stmt{f.Comment, w.field(f, in)})
	}
	for _, v := range ts.Variants {
		st = append(st, stmt{v.Comment, v.Name + w.sp() + w.spec(&v.TypeSpec, nil, v.Annotations, in)})
	}
	enum := ts.Type == "Enum"
	for _, e := range ts.Elements {
		st = append(st, stmt{e.Comment, e.Symbol + w.opts(w.annos(e.Annotations))})
	}
	plain := true
	for _, s := range st {
		if s.comment != "" {
			plain = false
		}
	}
	if plain && len(st) > 0 && open == "" && w.alt(20, "one-line body") {
		var q []string
		for _, s := range st {
			q = append(q, s.text)
		}
		if enum {
			return "{" + w.Pick("", " ") + strings.Join(q, w.Pick(", ", " ", ",", "; ")) + w.Pick("", " ") + "}"
		}
		return "{" + w.Pick("", " ") + strings.Join(q, w.Pick("; ", ";", " ; ")) + w.Pick("", " ", "; ") + "}"
	}
	s := "{" + open + "\n"
	for _, x := range st {
		lead, trail := w.comment(x.comment, in, false)
		end := ""
		if enum {
			if w.alt(25, "enum comma") {
				end = w.Pick(",", ";", " ,")
			}
		} else {
			end = w.semi()
		}
		s += lead + in + x.text + end + trail + "\n"
		if w.alt(10, "blank line in body") {
			s += w.Pick("\n", "\n\n", "   \n")
		}
	}
	return s + indent + "}"
}

func (w *W) typedef(td *sadl.TypeDef) string {
	lead, trail := w.comment(td.Comment, "", false)
	if (td.Type == "Struct" || td.Type == "Enum" || td.Type == "Union") && trail != "" && w.Bool() {
		w.open, trail = trail, ""
	}
	text := lead + "type" + w.sp() + td.Name + w.sp() + w.spec(&td.TypeSpec, nil, td.Annotations, "") + w.semi()
	if w.open != "" {
		trail, w.open = w.open, ""
	} else if trail == "" {
		w.use("comment after brace of type")
	}
	return text + trail + "\n"
}

func (w *W) param(p *sadl.HttpParamSpec, indent string, auto bool) string {
	f := p.StructFieldDef
	if auto && f.Required && !w.Plain && w.Bool() { // path parameters and bodies are required anyway
		w.use("implied required")
		f.Required = false
	}
	o := w.fieldOpts(&f)
	if p.Header != "" {
		o = append(o, w.eq("header", str(p.Header)))
	}
	lead, trail := w.comment(p.Comment, indent, false)
	return lead + indent + p.Name + w.sp() + w.spec(&p.TypeSpec, o, p.Annotations, indent) + w.semi() + trail + "\n"
}

func (w *W) http(h *sadl.HttpDef, derived bool) string {
	var o []string
	if !derived {
		if h.Resource == "" || h.Name != strings.ToLower(h.Method)+strings.ToUpper(h.Resource[:1])+h.Resource[1:] || !w.alt(50, "action named by its resource") {
			o = append(o, w.eq(w.Pick("action", "operation"), h.Name))
		}
		if h.Resource != "" {
			o = append(o, w.eq("resource", h.Resource))
		}
	}
	o = append(o, w.annos(h.Annotations)...)
	lead, trail := w.comment(h.Comment, "", false)
	m := h.Method
	if w.alt(20, "method case") {
		m = strings.ToLower(m)
	}
	open := ""
	if trail != "" && w.Bool() {
		w.use("comment after brace")
		open, trail = trail, ""
	}
	s := lead + "http" + w.sp() + m + w.sp() + str(h.Path) + w.opts(o) + w.sp() + "{" + open + "\n"
	in := w.Pick("    ", "\t", "")
	var parts []string
	for _, p := range h.Inputs {
		parts = append(parts, w.param(p, in, p.Query == "" && p.Header == ""))
	}
	if h.Expected != nil {
		e := h.Expected
		l, t := w.comment(e.Comment, in, false)
		x := l + in + "expect" + w.sp() + fmt.Sprint(e.Status) + w.opts(w.annos(e.Annotations))
		if len(e.Outputs) == 0 && w.Bool() {
			w.use("expect without body")
			x += w.semi() + t + "\n"
		} else if simple(e) && w.Bool() {
			w.use("expect with type")
			x += w.sp() + e.Outputs[0].Type + w.semi() + t + "\n"
		} else {
			ot := ""
			if t != "" && w.Bool() {
				ot, t = t, ""
			}
			x += w.sp() + "{" + ot + "\n"
			for _, p := range e.Outputs {
				x += w.param(p, in+in, p.Header == "" && e.Status != 204 && e.Status != 304)
			}
			x += in + "}" + w.semi() + t + "\n"
		}
		parts = append(parts, x)
	}
	for _, e := range h.Exceptions {
		l, t := w.comment(e.Comment, in, false)
		st := ""
		if e.Status != 0 {
			st = fmt.Sprint(e.Status) + w.sp()
		}
		parts = append(parts, l+in+"except"+w.sp()+st+e.Type+w.opts(w.annos(e.Annotations))+w.semi()+t+"\n")
	}
	for _, p := range parts {
		s += p
		if w.alt(15, "blank line in action") {
			s += "\n"
		}
	}
	return s + "}" + w.semi() + trail + "\n"
}

func simple(e *sadl.HttpExpectedSpec) bool {
	if len(e.Outputs) != 1 {
		return false
	}
	p := e.Outputs[0]
	return p.Name == "entity" && p.Header == "" && p.Comment == "" && p.Annotations == nil && p.Required && p.Items == "" && p.Pattern == "" && p.Values == nil &&
		p.MinSize == nil && p.MaxSize == nil && p.Min == nil && p.Max == nil && p.Default == nil
}

func (w *W) operation(op *sadl.OperationDef) string {
	lead, trail := w.comment(op.Comment, "", false)
	s := lead + "operation" + w.sp() + op.Name + w.opts(w.annos(op.Annotations)) + w.sp() + "{\n"
	in := w.Pick("    ", "\t")
	blk := func(kw string, st []stmt) {
		if len(st) == 0 && !w.alt(10, "empty operation block") {
			return
		}
		s += in + kw + w.sp() + "{\n"
		for _, x := range st {
			l, t := w.comment(x.comment, in+in, false)
			s += l + in + in + x.text + t + "\n"
		}
		s += in + "}\n"
	}
	var ins, outs, excs []stmt
	for _, p := range op.Inputs {
		ins = append(ins, stmt{p.Comment, p.Name + w.sp() + p.Type + w.opts(append(w.fieldOpts(&p.StructFieldDef), w.annos(p.Annotations)...))})
	}
	for _, p := range op.Outputs {
		outs = append(outs, stmt{p.Comment, p.Name + w.sp() + p.Type + w.opts(w.annos(p.Annotations))})
	}
	for _, e := range op.Exceptions {
		excs = append(excs, stmt{"", e})
	}
	blk("inputs", ins)
	blk("outputs", outs)
	blk("exceptions", excs)
	return s + "}" + w.semi() + trail + "\n"
}

func (w *W) example(e *sadl.ExampleDef) string {
	var o []string
	if e.Name != "" {
		o = append(o, w.eq("name", w.name(e.Name)))
	}
	o = append(o, w.annos(e.Annotations)...)
	lead, trail := w.comment(e.Comment, "", false)
	return lead + "example" + w.sp() + e.Target + w.opts(o) + w.sp() + w.literal(e.Example, true) + w.semi() + trail + "\n"
}

// Derived tells whether the name of an action is the one the language derives from its path.
func Derived(h *sadl.HttpDef) bool {
	r := Resource(h.Path)
	return r != "" && h.Resource == r && h.Name == strings.ToLower(h.Method)+strings.ToUpper(r[:1])+r[1:]
}

// Resource is the last constant element of a path.
func Resource(path string) string {
	if i := strings.IndexByte(path, '?'); i >= 0 {
		path = path[:i]
	}
	r := ""
	for _, e := range strings.Split(path, "/") {
		if e != "" && !strings.Contains(e, "{") {
			r = e
		}
	}
	return r
}

// Write gives source text for the schema.
func Write(r *mon.Rand, s *sadl.Schema, plain bool) (string, map[string]int) {
	w := &W{Rand: r, Plain: plain, Used: map[string]int{}}
	w.write(s)
	out := w.b.String()
	if w.alt(30, "no newline at the end") {
		out = strings.TrimRight(out, "\n")
	}
	return out, w.Used
}

func (w *W) write(s *sadl.Schema) {
	plain := w.Plain
	var head []string
	name := s.Name
	if w.alt(20, "quoted name") {
		name = str(name)
	}
	head = append(head, "name"+w.sp()+name)
	if s.Namespace != "" {
		head = append(head, "namespace"+w.sp()+s.Namespace)
	}
	if s.Version != "" {
		v := s.Version
		if w.Bool() {
			v = str(v)
		}
		head = append(head, "version"+w.sp()+v)
	}
	if s.Base != "" {
		head = append(head, "base"+w.sp()+str(s.Base))
	}
	var ak []string
	for k := range s.Annotations {
		ak = append(ak, k)
	}
	sort.Strings(ak)
	anno := map[string]bool{}
	for _, k := range ak {
		t := k
		if s.Annotations[k] != "" || w.Bool() {
			t += w.Pick(" ", "=", " = ") + str(s.Annotations[k])
		}
		anno[t] = true
		head = append(head, t)
	}
	p := w.Perm(len(head))
	if plain {
		for i := range p {
			p[i] = i
		}
	}
	words := strings.Fields(s.Comment)
	for i, k := range p {
		n := len(words)
		if i < len(p)-1 {
			n = w.Intn(len(words) + 1)
		}
		lead, trail := w.comment(strings.Join(words[:n], " "), "", false)
		words = words[n:]
		end := ""
		if !anno[head[k]] {
			end = w.semi()
		}
		w.b.WriteString(lead + head[k] + end + trail + "\n")
		if w.Bool() {
			w.b.WriteString("\n")
		}
	}
	var q [4][]string
	for _, td := range s.Types {
		q[0] = append(q[0], w.typedef(td))
	}
	for _, op := range s.Operations {
		q[1] = append(q[1], w.operation(op))
	}
	for _, h := range s.Http {
		q[2] = append(q[2], w.http(h, Derived(h)))
	}
	for _, e := range s.Examples {
		q[3] = append(q[3], w.example(e))
	}
	mixed := w.alt(40, "interleaved definitions")
	for {
		var avail []int
		for i := range q {
			if len(q[i]) > 0 {
				avail = append(avail, i)
			}
		}
		if len(avail) == 0 {
			break
		}
		i := avail[0]
		if mixed {
			i = avail[w.Intn(len(avail))]
		}
		w.b.WriteString(q[i][0])
		q[i] = q[i][1:]
		if w.Bool() {
			w.b.WriteString("\n")
		}
		if w.alt(3, "block comment line") {
			w.b.WriteString("/* type Ghost Struct {\n } */\n")
		}
	}
}
