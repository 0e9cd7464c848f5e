// Package spec is the reference for the front end: what the tokens of a Clara source text are and
// which token sequences are programs. It is laid over the tree under test (so that it is executed
// symbolically side by side with the real lexer and parser) and used natively for replay.
package spec

import (
	"unicode"
	"unicode/utf8"
)

// Kinds of tokens: single characters stand for themselves.
const (
	EOF = iota + 1000
	Bad // from here on the text is not lexically well formed
	Space
	EOL
	Comment
	Ident
	Str
	Int
	Das    // :=
	Eq     // ==
	Gte    // >=
	Lte    // <=
	Shl    // <<
	Shr    // >>
	DotDot // ..
	LGmet
	RGmet
	KwFn
	KwReturn
	KwIf
	KwElseIf
	KwElse
	KwTrue
	KwFalse
	KwNot
	KwAnd
	KwOr
	KwStruct
	KwWhile
	KwFor
	KwIn
	KwEnum
	KwMatch
	KwCase
	KwType
)

// Token covers src[Start:End]. Loose marks an identifier or keyword that is not followed by one of
// the characters that must follow one.
type Token struct {
	Kind       int
	Start, End int
	Line       int
	Loose      bool
}

func keyword(w string) int {
	switch w {
	case "fn":
		return KwFn
	case "return":
		return KwReturn
	case "if":
		return KwIf
	case "elseif":
		return KwElseIf
	case "else":
		return KwElse
	case "true":
		return KwTrue
	case "false":
		return KwFalse
	case "not":
		return KwNot
	case "and":
		return KwAnd
	case "or":
		return KwOr
	case "struct":
		return KwStruct
	case "while":
		return KwWhile
	case "for":
		return KwFor
	case "in":
		return KwIn
	case "enum":
		return KwEnum
	case "match":
		return KwMatch
	case "case":
		return KwCase
	case "type":
		return KwType
	}
	return Ident
}

func letter(r rune) bool { return r == '_' || unicode.IsLetter(r) }

func hexDigit(r rune) bool {
	return unicode.IsDigit(r) || ('a' <= r && r <= 'f') || ('A' <= r && r <= 'F')
}

// Scan returns the token that starts at src[i:]. line is the line number there.
func Scan(src string, i, line int) Token {
	t := Token{Start: i, Line: line}
	if i >= len(src) {
		t.Kind, t.End = EOF, i
		return t
	}
	at := func(j int) byte {
		if j < len(src) {
			return src[j]
		}
		return 0
	}
	one := func(k int) Token { t.Kind, t.End = k, i+1; return t }
	two := func(k int) Token { t.Kind, t.End = k, i+2; return t }
	c := src[i]
	switch c {
	case ' ':
		j := i + 1
		for j < len(src) && src[j] == ' ' {
			j++
		}
		t.Kind, t.End = Space, j
		return t
	case '\r', '\n':
		return one(EOL)
	case '(', ')', '{', '}', '[', ']', '#', '?', ',', '+', '-', '*', '~', '^', '|', '&':
		return one(int(c))
	case ':':
		if at(i+1) == '=' {
			return two(Das)
		}
		return one(':')
	case '=':
		if at(i+1) == '=' {
			return two(Eq)
		}
		return one('=')
	case '.':
		if at(i+1) == '.' {
			return two(DotDot)
		}
		return one('.')
	case '>':
		if at(i+1) == '>' {
			return two(Shr)
		}
		if at(i+1) == '=' {
			return two(Gte)
		}
		return one('>')
	case '<':
		if at(i+1) == '<' {
			return two(Shl)
		}
		if at(i+1) == '=' {
			return two(Lte)
		}
		return one('<')
	case '/':
		if at(i+1) != '/' {
			return one('/')
		}
		j := i + 2
		for j < len(src) && src[j] != '\n' && src[j] != '\r' {
			j++
		}
		t.Kind, t.End = Comment, j
		return t
	case '"':
		j := i + 1
		for j < len(src) && src[j] != '"' {
			if src[j] == '\n' {
				t.Kind = Bad
				return t
			}
			if src[j] == '\\' {
				e := at(j + 1)
				if e != 'n' && e != 'r' && e != '\\' && e != '"' {
					t.Kind = Bad
					return t
				}
				j += 2
				continue
			}
			r, w := utf8.DecodeRuneInString(src[j:])
			if r == utf8.RuneError && w == 1 {
				t.Kind = Bad
				return t
			}
			j += w
		}
		if j >= len(src) {
			t.Kind = Bad
			return t
		}
		t.Kind, t.End = Str, j+1
		return t
	}
	if '0' <= c && c <= '9' {
		j := i + 1
		hex := c == '0' && at(j) == 'x'
		if hex {
			j++
		}
		n := 0
		for j < len(src) {
			r, w := utf8.DecodeRuneInString(src[j:])
			if hex && !hexDigit(r) || !hex && !unicode.IsDigit(r) {
				break
			}
			j += w
			n++
		}
		if hex && n == 0 {
			t.Kind = Bad
			return t
		}
		t.Kind, t.End = Int, j
		return t
	}
	r, w := utf8.DecodeRuneInString(src[i:])
	switch {
	case r == '«':
		t.Kind, t.End = LGmet, i+w
		return t
	case r == '»':
		t.Kind, t.End = RGmet, i+w
		return t
	case letter(r):
		j := i + w
		for j < len(src) {
			r, w := utf8.DecodeRuneInString(src[j:])
			if !letter(r) && !unicode.IsDigit(r) {
				break
			}
			j += w
		}
		t.Kind, t.End = keyword(src[i:j]), j
		t.Loose = !ends(src, j)
		return t
	}
	t.Kind = Bad
	return t
}

// ends tells whether a word may end before src[j:].
func ends(src string, j int) bool {
	if j >= len(src) {
		return true
	}
	switch src[j] {
	case '(', ' ', ':', ',', ')', '\r', '\n', '.', '+', '-', '*', '/', '>', '<', '[', ']':
		return true
	}
	r, _ := utf8.DecodeRuneInString(src[j:])
	return r == '«' || r == '»'
}

// Lines advances a line number over src[i:j].
func Lines(src string, i, j, line int) int {
	for ; i < j; i++ {
		if src[i] == '\n' {
			line++
		}
	}
	return line
}

// Tokens returns the significant tokens of a text, ending in EOF or Bad. loose reports whether
// some word is not properly ended.
func Tokens(src string) (ks []int, loose bool) {
	for i := 0; ; {
		t := Scan(src, i, 0)
		switch t.Kind {
		case Space, EOL, Comment:
		default:
			ks = append(ks, t.Kind)
			if t.Loose {
				loose = true
			}
		}
		if t.Kind == EOF || t.Kind == Bad {
			return ks, loose
		}
		i = t.End
	}
}

// ---- grammar ----

type parser struct {
	k []int
	i int
}

type reject struct{}

func (p *parser) kind() int { return p.k[p.i] }
func (p *parser) next()     { p.i++ }

func (p *parser) fail() { panic(reject{}) }

func (p *parser) need(k int) {
	if p.k[p.i] != k {
		p.fail()
	}
	p.i++
}

func (p *parser) is(k int) bool { return p.k[p.i] == k }

func (p *parser) take(k int) bool {
	if p.k[p.i] == k {
		p.i++
		return true
	}
	return false
}

// Parses tells whether a token sequence is a program.
func Parses(ks []int) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	p := &parser{k: ks}
	for !p.is(EOF) {
		if p.take('#') {
			p.need('[')
			for more := true; more; more = p.take(',') {
				p.need(Ident)
			}
			p.need(']')
		}
		switch p.kind() {
		case KwFn:
			p.next()
			p.need(Ident)
			p.fn(false)
		case KwStruct:
			p.next()
			p.need(Ident)
			p.typeList()
			p.need('{')
			for !p.take('}') {
				p.param()
			}
		case KwEnum:
			p.next()
			p.need(Ident)
			p.typeList()
			p.need('{')
			for !p.take('}') {
				p.need(Ident)
				p.params()
			}
		default:
			p.fail()
		}
	}
	return true
}

func (p *parser) typeList() {
	if !p.take(LGmet) {
		return
	}
	if p.take(RGmet) {
		return
	}
	for more := true; more; more = p.take(',') {
		p.typ()
	}
	p.need(RGmet)
}

func (p *parser) param() {
	p.need(Ident)
	p.need(':')
	p.typ()
}

func (p *parser) params() {
	p.need('(')
	if p.take(')') {
		return
	}
	for more := true; more; more = p.take(',') {
		p.param()
	}
	p.need(')')
}

func (p *parser) typeStart() bool { return p.is(KwFn) || p.is('[') || p.is(Ident) }

func (p *parser) typ() {
	switch p.kind() {
	case KwFn:
		p.next()
		p.need('(')
		if !p.take(')') {
			for more := true; more; more = p.take(',') {
				p.typ()
			}
			p.need(')')
		}
		if p.typeStart() {
			p.typ()
		}
	case '[':
		p.next()
		p.need(']')
		p.typ()
	case Ident:
		p.next()
		p.typeList()
	default:
		p.fail()
	}
}

// fn parses what follows the name of a function.
func (p *parser) fn(anon bool) {
	p.typeList()
	p.params()
	if p.typeStart() {
		p.typ()
	}
	switch p.kind() {
	case '{':
		p.block()
	case '=':
		p.next()
		p.expr()
	default:
		if anon {
			p.fail()
		}
	}
}

func (p *parser) block() {
	p.need('{')
	for !p.take('}') {
		p.stmt()
	}
}

func (p *parser) exprStart() bool {
	switch p.kind() {
	case Int, Str, Ident, KwTrue, KwFalse, KwNot, '(', KwFn, '-', '[', '~', KwType:
		return true
	}
	return false
}

func (p *parser) stmt() {
	switch p.kind() {
	case KwReturn:
		p.next()
		if p.exprStart() {
			p.expr()
		}
	case KwWhile:
		p.next()
		p.expr()
		p.block()
	case KwFor:
		p.next()
		p.need(Ident)
		p.need(KwIn)
		p.expr()
		if p.take(DotDot) {
			p.expr()
		}
		p.block()
	case KwIf:
		p.next()
		p.expr()
		p.block()
		for p.take(KwElseIf) {
			p.expr()
			p.block()
		}
		if p.take(KwElse) {
			p.block()
		}
	case KwMatch:
		p.next()
		p.expr()
		p.need('{')
		for !p.take('}') {
			p.need(KwCase)
			p.need(Ident)
			p.need('(')
			if !p.take(')') {
				for more := true; more; more = p.take(',') {
					p.need(Ident)
				}
				p.need(')')
			}
			p.need(':')
			for !p.is(KwCase) && !p.is('}') {
				p.stmt()
			}
		}
	default:
		p.expr()
		if p.take('=') || p.take(Das) {
			p.expr()
		}
	}
}

func (p *parser) list(end int) {
	if p.take(end) {
		return
	}
	for more := true; more; more = p.take(',') {
		p.expr()
	}
	p.need(end)
}

// expr parses an expression; precedence does not matter for what is accepted.
func (p *parser) expr() {
	switch p.kind() {
	case Ident, Int, Str, KwTrue, KwFalse:
		p.next()
	case '(':
		p.next()
		p.expr()
		p.need(')')
	case KwFn:
		p.next()
		p.fn(true)
	case KwType:
		p.next()
		p.need('(')
		p.typ()
		p.need(')')
	case '[':
		p.next()
		p.list(']')
	case KwNot, '~', '-':
		p.next()
		p.expr()
		return
	default:
		p.fail()
	}
	for {
		switch p.kind() {
		case '(':
			p.next()
			p.list(')')
		case LGmet:
			p.next()
			if !p.is(RGmet) {
				for more := true; more; more = p.take(',') {
					p.typ()
				}
			}
			p.need(RGmet)
			p.need('(')
			p.list(')')
		case '[':
			p.next()
			p.expr()
			p.need(']')
		case '?':
			p.next()
			p.expr()
			p.need(':')
			p.expr()
			return
		case '.', '+', '-', '*', '/', Shl, Shr, '&', '|', '^', '>', Gte, '<', Lte, Eq, KwOr, KwAnd:
			p.next()
			p.expr()
			return
		default:
			return
		}
	}
}
