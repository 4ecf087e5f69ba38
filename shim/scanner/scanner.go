// Package scanner is a stand-in for github.com/boynton/scanner v1.0.0, which is not
// available offline.  It implements the tokenizer interface that sadl's parser.go uses:
// the lexical rules are those that sadl's parser, unparser and examples presuppose.
// It is written for the verification harness and shares no code with the original.
package scanner

import (
	"bufio"
	"fmt"
	"io"
	"strings"
)

type TokenType int

const (
	UNDEFINED TokenType = iota
	EOF
	LINE_COMMENT
	BLOCK_COMMENT
	SYMBOL
	NUMBER
	STRING
	COLON
	SEMICOLON
	COMMA
	QUOTE
	DOT
	EQUALS
	DOLLAR
	OPEN_BRACE
	CLOSE_BRACE
	OPEN_BRACKET
	CLOSE_BRACKET
	OPEN_PAREN
	CLOSE_PAREN
	OPEN_ANGLE
	CLOSE_ANGLE
	SLASH
	BACKQUOTE
	HASH
	AMPERSAND
	STAR
	BAR
	AT
	DASH
	PLUS
	QUESTION
	BANG
	TILDE
	PERCENT
	CARET
	NEWLINE
)

var names = map[TokenType]string{UNDEFINED: "UNDEFINED", EOF: "EOF", LINE_COMMENT: "LINE_COMMENT", BLOCK_COMMENT: "BLOCK_COMMENT",
	SYMBOL: "SYMBOL", NUMBER: "NUMBER", STRING: "STRING", COLON: "COLON", SEMICOLON: "SEMICOLON", COMMA: "COMMA", QUOTE: "QUOTE",
	DOT: "DOT", EQUALS: "EQUALS", DOLLAR: "DOLLAR", OPEN_BRACE: "OPEN_BRACE", CLOSE_BRACE: "CLOSE_BRACE", OPEN_BRACKET: "OPEN_BRACKET",
	CLOSE_BRACKET: "CLOSE_BRACKET", OPEN_PAREN: "OPEN_PAREN", CLOSE_PAREN: "CLOSE_PAREN", OPEN_ANGLE: "OPEN_ANGLE", CLOSE_ANGLE: "CLOSE_ANGLE",
	SLASH: "SLASH", BACKQUOTE: "BACKQUOTE", HASH: "HASH", AMPERSAND: "AMPERSAND", STAR: "STAR", BAR: "BAR", AT: "AT", DASH: "DASH",
	PLUS: "PLUS", QUESTION: "QUESTION", BANG: "BANG", TILDE: "TILDE", PERCENT: "PERCENT", CARET: "CARET", NEWLINE: "NEWLINE"}

func (t TokenType) String() string { return names[t] }

type Token struct {
	Type  TokenType
	Text  string
	Line  int
	Start int
}

func (tok Token) String() string {
	return fmt.Sprintf("<%v %q %d:%d>", tok.Type, tok.Text, tok.Line, tok.Start)
}
func (tok Token) Is(t TokenType) bool { return tok.Type == t }
func (tok Token) IsText() bool        { return tok.Type == SYMBOL || tok.Type == STRING }
func (tok Token) IsNumeric() bool     { return tok.Type == NUMBER }

type Scanner struct {
	r    *bufio.Reader
	line int
	col  int
	back []rune
	done bool
}

func NewScanner(r io.Reader) *Scanner { return &Scanner{r: bufio.NewReader(r), line: 1} }

const eof = rune(-1)

func (s *Scanner) read() rune {
	if n := len(s.back); n > 0 {
		c := s.back[n-1]
		s.back = s.back[:n-1]
		s.col++
		return c
	}
	if s.done {
		return eof
	}
	c, _, err := s.r.ReadRune()
	if err != nil {
		s.done = true
		return eof
	}
	s.col++
	return c
}

func (s *Scanner) unread(c rune) {
	if c != eof {
		s.back = append(s.back, c)
		s.col--
	}
}

func isLetter(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
func isDigit(c rune) bool  { return c >= '0' && c <= '9' }

var punct = map[rune]TokenType{':': COLON, ';': SEMICOLON, ',': COMMA, '\'': QUOTE, '.': DOT, '=': EQUALS, '$': DOLLAR,
	'{': OPEN_BRACE, '}': CLOSE_BRACE, '[': OPEN_BRACKET, ']': CLOSE_BRACKET, '(': OPEN_PAREN, ')': CLOSE_PAREN,
	'<': OPEN_ANGLE, '>': CLOSE_ANGLE, '/': SLASH, '`': BACKQUOTE, '#': HASH, '&': AMPERSAND, '*': STAR, '|': BAR, '@': AT,
	'-': DASH, '+': PLUS, '?': QUESTION, '!': BANG, '~': TILDE, '%': PERCENT, '^': CARET}

func (s *Scanner) Scan() Token {
	for {
		c := s.read()
		tok := Token{Line: s.line, Start: s.col}
		switch {
		case c == eof:
			tok.Type = EOF
			return tok
		case c == ' ' || c == '\t' || c == '\r':
			continue
		case c == '\n':
			tok.Type, tok.Text = NEWLINE, "\n"
			s.line++
			s.col = 0
			return tok
		case isLetter(c):
			return s.symbol(tok, c)
		case isDigit(c):
			return s.number(tok, c, "")
		case c == '-':
			d := s.read()
			if isDigit(d) {
				return s.number(tok, d, "-")
			}
			s.unread(d)
			tok.Type, tok.Text = DASH, "-"
			return tok
		case c == '"':
			return s.str(tok)
		case c == '/':
			d := s.read()
			if d == '/' {
				return s.lineComment(tok)
			}
			if d == '*' {
				return s.blockComment(tok)
			}
			s.unread(d)
			tok.Type, tok.Text = SLASH, "/"
			return tok
		default:
			if t, ok := punct[c]; ok {
				tok.Type, tok.Text = t, string(c)
				return tok
			}
			tok.Type, tok.Text = UNDEFINED, string(c)
			return tok
		}
	}
}

func (s *Scanner) symbol(tok Token, c rune) Token {
	var b strings.Builder
	for isLetter(c) || isDigit(c) {
		b.WriteRune(c)
		c = s.read()
	}
	s.unread(c)
	tok.Type, tok.Text = SYMBOL, b.String()
	return tok
}

func (s *Scanner) number(tok Token, c rune, prefix string) Token {
	var b strings.Builder
	b.WriteString(prefix)
	for isDigit(c) {
		b.WriteRune(c)
		c = s.read()
	}
	if c == '.' {
		d := s.read()
		if isDigit(d) {
			b.WriteRune('.')
			for isDigit(d) {
				b.WriteRune(d)
				d = s.read()
			}
			c = d
		} else {
			s.unread(d)
		}
	}
	if c == 'e' || c == 'E' {
		d := s.read()
		sign := ""
		if d == '+' || d == '-' {
			sign = string(d)
			f := s.read()
			if isDigit(f) {
				b.WriteRune(c)
				b.WriteString(sign)
				for isDigit(f) {
					b.WriteRune(f)
					f = s.read()
				}
				s.unread(f)
				tok.Type, tok.Text = NUMBER, b.String()
				return tok
			}
			s.unread(f)
			s.unread(d)
		} else if isDigit(d) {
			b.WriteRune(c)
			for isDigit(d) {
				b.WriteRune(d)
				d = s.read()
			}
			s.unread(d)
			tok.Type, tok.Text = NUMBER, b.String()
			return tok
		} else {
			s.unread(d)
		}
	}
	s.unread(c)
	tok.Type, tok.Text = NUMBER, b.String()
	return tok
}

// The text of a string token is the characters between the quotes, escapes included.
func (s *Scanner) str(tok Token) Token {
	var b strings.Builder
	for {
		c := s.read()
		switch c {
		case eof, '\n':
			tok.Type, tok.Text = UNDEFINED, "unterminated string"
			s.unread(c)
			return tok
		case '\\':
			b.WriteRune(c)
			d := s.read()
			if d == eof {
				tok.Type, tok.Text = UNDEFINED, "unterminated string"
				return tok
			}
			b.WriteRune(d)
		case '"':
			tok.Type, tok.Text = STRING, b.String()
			return tok
		default:
			b.WriteRune(c)
		}
	}
}

func (s *Scanner) lineComment(tok Token) Token {
	var b strings.Builder
	for {
		c := s.read()
		if c == eof || c == '\n' {
			s.unread(c)
			tok.Type, tok.Text = LINE_COMMENT, b.String()
			return tok
		}
		b.WriteRune(c)
	}
}

func (s *Scanner) blockComment(tok Token) Token {
	var b strings.Builder
	prev := rune(0)
	for {
		c := s.read()
		if c == eof {
			tok.Type, tok.Text = UNDEFINED, "unterminated comment"
			return tok
		}
		if c == '\n' {
			s.line++
			s.col = 0
		}
		if prev == '*' && c == '/' {
			t := b.String()
			tok.Type, tok.Text = BLOCK_COMMENT, t[:len(t)-1]
			return tok
		}
		b.WriteRune(c)
		prev = c
	}
}

const (
	BLACK  = "\033[0;0m"
	RED    = "\033[0;31m"
	GREEN  = "\033[0;32m"
	YELLOW = "\033[0;33m"
	BLUE   = "\033[0;34m"
)

func FormattedAnnotation(filename string, source string, prefix string, msg string, tok *Token, color string, contextSize int) string {
	line := 0
	if tok != nil {
		line = tok.Line
	}
	if filename != "" {
		return fmt.Sprintf("%s%s:%d: %s", prefix, filename, line, msg)
	}
	return fmt.Sprintf("%sline %d: %s", prefix, line, msg)
}
