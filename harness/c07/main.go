// C07: text helpers keep all text, and comments stay comments.
package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/boynton/sadl"

	"verif/mon"
)

func main() {
	mon.Main(mon.Spec{Prop: "C07",
		Rule:      "random comments (words, long words, repeated spaces, newlines, comment markers, unicode) formatted with random indent, prefix, width and padding and read back; random identifiers, paths, annotation maps and values through the naming, path, annotation and JSON text helpers, compared with a direct specification; non-trivial = distinct input",
		MinEvents: map[string]int{"comment": 1000, "wrapped": 500, "multiline": 300, "name": 1000, "path": 1000, "annotation": 1000, "json text": 1000}},
		func(r *mon.Run) {
			n := r.Scale(20000, 300000)
			r.Cases("comment", n, func(i int, g *mon.Rand) { comment(r, g) })
			r.Cases("name", n, func(i int, g *mon.Rand) { name(r, g) })
			r.Cases("path", n/2, func(i int, g *mon.Rand) { path(r, g) })
			r.Cases("annotation", n/2, func(i int, g *mon.Rand) { annotation(r, g) })
			r.Cases("json", n/2, func(i int, g *mon.Rand) { jsonText(r, g) })
		})
}

var words = []string{"a", "the", "value", "//", "*/", "/*", "#", "e.g.", "100%", "identifier", "internationalization", "ünïcödé", "\"quoted\"", "back\\slash", "{{x}}", "x=y;", strings.Repeat("w", 60), strings.Repeat("Long", 40), "<b>&amp;</b>", "%d"}

func text(g *mon.Rand) string {
	n := g.Range(1, 30)
	if g.P(20) {
		n = g.Range(1, 3)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			if g.P(4) {
				b.WriteString("  ")
			} else {
				b.WriteString(" ")
			}
		}
		b.WriteString(g.PickS(words))
	}
	return b.String()
}

func comment(r *mon.Run, g *mon.Rand) {
	c := text(g)
	multi := g.P(30)
	if multi {
		for i, n := 0, g.Range(1, 4); i < n; i++ {
			c += "\n"
			if g.P(80) {
				c += text(g)
			}
		}
	}
	indent := strings.Repeat(" ", g.Pick0(0, 0, 1, 3, 4, 8))
	prefix := g.Pick("// ", "// ", "//", "# ", " * ")
	maxcol := g.Pick0(0, 1, 10, 40, 72, 80, 100, 100, 1000)
	pad := g.Bool()
	var out string
	if prefix == "// " && g.Bool() {
		gn := &sadl.Generator{}
		out = gn.FormatComment(indent, c, maxcol, pad)
	} else {
		out = sadl.FormatComment(indent, prefix, c, maxcol, pad)
	}
	r.Observe(fmt.Sprint(indent, prefix, maxcol, pad, c), true)
	r.Event("comment")
	if multi {
		r.Event("multiline")
	}
	bad := func(why string) {
		r.Failf("comment-"+why, "comment %q (indent %d, prefix %q, width %d, pad %v) formatted as\n%s", c, len(indent), prefix, maxcol, pad, out)
	}
	if !strings.HasSuffix(out, "\n") {
		bad("unterminated")
		return
	}
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	var body []string
	mark := strings.TrimRight(prefix, " ")
	for _, l := range lines {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if !strings.HasPrefix(l, indent) {
			bad("indent")
			return
		}
		rest := l[len(indent):]
		if strings.TrimSpace(rest) == strings.TrimSpace(mark) {
			body = append(body, "")
			continue
		}
		if !strings.HasPrefix(rest, prefix) {
			bad("leaked")
			return
		}
		t := rest[len(prefix):]
		body = append(body, t)
		if !multi && maxcol > len(indent) && len(l) > maxcol && len(strings.Fields(t)) > 1 {
			bad("width")
			return
		}
	}
	if len(body) > 1 && !multi {
		r.Event("wrapped")
	}
	if got, want := strings.Join(strings.Fields(strings.Join(body, " ")), " "), strings.Join(strings.Fields(c), " "); got != want {
		bad("text")
	}
	if multi { // line structure is kept
		want := strings.Split(c, "\n")
		if len(body) != len(want) {
			bad("lines")
			return
		}
		for i := range want {
			if strings.TrimSpace(want[i]) != strings.TrimSpace(body[i]) {
				bad("lines")
				return
			}
		}
	}
}

var symRe = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]*$`)

func ident(g *mon.Rand) string {
	n := g.Range(0, 6)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(g.Pick("a", "Z", "0", "9", "_", "m", "Q", "b", "-", ".", " ", "@", "[", "`", "{", "/", ":"))
	}
	s := b.String()
	if g.P(60) {
		s = regexp.MustCompile(`[^A-Za-z0-9_]`).ReplaceAllString(s, "")
	}
	return s
}

func name(r *mon.Run, g *mon.Rand) {
	s := ident(g)
	r.Observe("n"+s, len(s) > 1)
	r.Event("name")
	if got := sadl.IsSymbol(s); got != symRe.MatchString(s) {
		r.Failf("symbol", "IsSymbol(%q) = %v", s, got)
	}
	up, down := s, s
	if s != "" {
		if s[0] >= 'a' && s[0] <= 'z' {
			up = string(s[0]-32) + s[1:]
		}
		if s[0] >= 'A' && s[0] <= 'Z' {
			down = string(s[0]+32) + s[1:]
		}
	}
	if g.P(15) { // letters beyond ASCII
		p := g.Pick("\u00e9\u00c9", "\u0436\u0416", "\u00f1\u00d1", "\u65e5\u65e5", "\u03bb\u039b")
		n := len(p) / 2
		rest := s
		s, up, down = p[:n]+rest, p[n:]+rest, p[:n]+rest
		if g.Bool() {
			s = up
		}
	}
	if sadl.Capitalize(s) != up || sadl.Uncapitalize(s) != down {
		r.Failf("capitalize", "Capitalize(%q) = %q, Uncapitalize = %q", s, sadl.Capitalize(s), sadl.Uncapitalize(s))
	}
	if s != "" {
		gn := &sadl.Generator{}
		if gn.Capitalize(s) != up || gn.Uncapitalize(s) != down {
			r.Failf("capitalize-gen", "Generator.Capitalize(%q) = %q, Uncapitalize = %q", s, gn.Capitalize(s), gn.Uncapitalize(s))
		}
	}
	for _, c := range s + string(rune(g.Intn(0x250))) + g.Pick("a", "z", "A", "Z", "0", "9", "`", "{", "@", "[", "/", ":") {
		if c == '\t' || c == '\n' {
			continue
		}
		l := c >= 'a' && c <= 'z'
		u := c >= 'A' && c <= 'Z'
		d := c >= '0' && c <= '9'
		if sadl.IsLetter(c) != (l || u) || sadl.IsUppercaseLetter(c) != u || sadl.IsLowercaseLetter(c) != l || sadl.IsDigit(c) != d ||
			sadl.IsSymbolChar(c, true) != (l || u) || sadl.IsSymbolChar(c, false) != (l || u || d || c == '_') || sadl.IsWhitespace(c) != (c == ' ') {
			r.Failf("chars", "character class of %q", c)
		}
	}
	for _, c := range "\t\n" {
		if !sadl.IsWhitespace(c) {
			r.Failf("chars", "%q is not whitespace", c)
		}
	}
	ts := &sadl.TypeSpec{Type: g.Pick("Bool", "Int8", "Int16", "Int32", "Int64", "Float32", "Float64", "Decimal", "Bytes", "String", "Timestamp", "UUID", "Array", "Map", "Struct", "Enum", "Union", "Any", "Foo")}
	var m sadl.Model
	num := strings.HasPrefix(ts.Type, "Int") || strings.HasPrefix(ts.Type, "Float") || ts.Type == "Decimal"
	if m.IsNumericType(ts) != num {
		r.Failf("numeric", "IsNumericType(%s) = %v", ts.Type, !num)
	}
}

func path(r *mon.Run, g *mon.Rand) {
	base := g.Pick("model", "my.model", ".hidden", "x", "a b", "v1.2.3")
	ext := g.Pick("", ".sadl", ".json", ".yaml", ".d")
	dir := g.Pick("", "/", "a/b/", "../x.y/", "./", "/tmp/dir.d/")
	p := dir + base + ext
	f := filepath.Base(p)
	want := f
	if k := strings.LastIndex(f, "."); k > 0 {
		want = f[:k]
	}
	r.Observe("p"+p, true)
	r.Event("path")
	if got := sadl.BaseFileName(p); got != want {
		r.Failf("basename", "BaseFileName(%q) = %q, want %q", p, got, want)
	}
}

func annotation(r *mon.Run, g *mon.Rand) {
	m := map[string]string{}
	for i, n := 0, g.Intn(6); i < n; i++ {
		m["x_"+g.Pick("a", "b", "c", "d", "tag", "B")] = g.Pick("", "1", "true", "with space", "q\"uote", "back\\slash", "a, b", "x)", "ü", "line\nbreak")
	}
	if len(m) == 0 && g.Bool() {
		m = nil
	}
	b, _ := json.Marshal(m)
	r.Observe("a"+string(b), len(m) > 0)
	r.Event("annotation")
	for k, v := range m {
		want := v
		if v == "" {
			want = "true"
		}
		if got := sadl.GetAnnotation(m, k); got != want {
			r.Failf("annotation", "GetAnnotation(%q) = %q, want %q", k, got, want)
		}
	}
	if got := sadl.GetAnnotation(m, "x_nosuch"); got != "" {
		r.Failf("annotation", "an absent annotation is %q", got)
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	got := sadl.AnnotationsAsString(m)
	if len(m) == 0 {
		if got != "" {
			r.Failf("annotations-text", "no annotations printed as %q", got)
		}
		return
	}
	// read it back: " (k="v", ...)"
	rest := strings.TrimSuffix(strings.TrimPrefix(got, " ("), ")")
	back := map[string]string{}
	order := []string{}
	for rest != "" {
		k := strings.Index(rest, "=\"")
		if k < 0 {
			break
		}
		key := rest[:k]
		j := k + 2
		for j < len(rest) && rest[j] != '"' {
			if rest[j] == '\\' {
				j++
			}
			j++
		}
		var val string
		if json.Unmarshal([]byte(rest[k+1:j+1]), &val) != nil {
			break
		}
		back[key] = val
		order = append(order, key)
		rest = strings.TrimPrefix(rest[j+1:], ", ")
	}
	for k, v := range m {
		for _, c := range v { // printable characters stand for themselves
			if strconv.IsPrint(c) && c != '"' && c != '\\' && !strings.ContainsRune(got, c) {
				r.Failf("annotations-escape", "annotation %s=%s is printed without its character %q: %s", k, v, c, got)
			}
		}
	}
	if !reflect.DeepEqual(back, m) || !strings.HasPrefix(got, " (") || !strings.HasSuffix(got, ")") || len(order) != len(m) {
		r.Failf("annotations-text", "annotations %s printed as %s (read back %v)", b, got, back)
	}
	for i := 0; i < 3; i++ {
		if again := sadl.AnnotationsAsString(m); again != got {
			r.Failf("annotations-order", "annotations printed as %s and then %s", got, again)
		}
	}
}

func val(g *mon.Rand, d int) interface{} {
	switch k := g.Intn(7); {
	case k == 0:
		return g.Bool()
	case k == 1:
		return float64(g.Range(-1000, 1000)) / 8
	case k == 2 || d > 2:
		return g.PickS(words) + g.Pick("", "<>&", "\u2028", "\t")
	case k == 3:
		return nil
	case k == 4:
		a := []interface{}{}
		for i, n := 0, g.Intn(3); i < n; i++ {
			a = append(a, val(g, d+1))
		}
		return a
	}
	m := map[string]interface{}{}
	for i, n := 0, g.Intn(4); i < n; i++ {
		m[g.PickS(words)] = val(g, d+1)
	}
	return m
}

func jsonText(r *mon.Run, g *mon.Rand) {
	v := val(g, 0)
	b, _ := json.Marshal(v)
	r.Observe("j"+string(b), len(b) > 6)
	r.Event("json text")
	for k, s := range map[string]string{"Pretty": sadl.Pretty(v), "ToString": sadl.ToString(v), "Data.String": sadl.AsData(v).String()} {
		var back interface{}
		if err := json.Unmarshal([]byte(s), &back); err != nil || !reflect.DeepEqual(back, v) {
			r.Failf("json-"+k, "%s of %s gave %s", k, b, s)
		}
		if strings.Contains(s, "\\u003c") || strings.Contains(s, "\\u0026") {
			r.Failf("json-escape", "%s of %s gave %s", k, b, s)
		}
	}
	if s := sadl.ToString(v); strings.Contains(s, "\n") {
		r.Failf("tostring", "ToString spans lines: %s", s)
	}
	var c interface{}
	json.Unmarshal(b, &c)
	if !sadl.Equivalent(v, c) {
		r.Failf("equivalent", "a copy of %s is not equivalent", b)
	}
	w := val(g, 0)
	wb, _ := json.Marshal(w)
	if sadl.Equivalent(v, w) != (string(wb) == string(b)) {
		r.Failf("equivalent", "Equivalent(%s, %s) = %v", b, wb, sadl.Equivalent(v, w))
	}
}
