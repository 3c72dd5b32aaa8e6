// Package parser stands in for vimagination.zapto.org/parser, which is not in
// the sandbox: the parts of it that limage uses, as its documentation says.
package parser

import (
	"errors"
	"io"
	"strings"
	"unicode/utf8"
)

// TokenType represents the type of token being read. Negative values are reserved.
type TokenType int

// Constants TokenError (-2) and TokenDone (-1).
const (
	TokenDone TokenType = -1 - iota
	TokenError
)

// Token represents data parsed from the stream.
type Token struct {
	Type TokenType
	Data string
}

// TokenFunc is the type that the worker funcs implement.
type TokenFunc func(*Tokeniser) (Token, TokenFunc)

// Tokeniser is a state machine to generate tokens from an input.
type Tokeniser struct {
	data  []byte
	pos   int
	Err   error
	state TokenFunc
}

// NewByteTokeniser returns a Tokeniser which uses a byte slice.
func NewByteTokeniser(data []byte) Tokeniser {
	return Tokeniser{data: data}
}

func (t *Tokeniser) next() (rune, int) {
	if t.pos >= len(t.data) {
		return -1, 0
	}

	return utf8.DecodeRune(t.data[t.pos:])
}

// Peek returns the next rune without advancing.
func (t *Tokeniser) Peek() rune {
	r, _ := t.next()

	return r
}

// Accept advances if the next rune is one of the given.
func (t *Tokeniser) Accept(chars string) bool {
	r, n := t.next()
	if r < 0 || !strings.ContainsRune(chars, r) {
		return false
	}

	t.pos += n

	return true
}

// AcceptRun advances over runes that are in the string and returns the next.
func (t *Tokeniser) AcceptRun(chars string) rune {
	for t.Accept(chars) {
	}

	return t.Peek()
}

// ExceptRun advances over runes that are not in the string and returns the next.
func (t *Tokeniser) ExceptRun(chars string) rune {
	for {
		r, n := t.next()
		if r < 0 || strings.ContainsRune(chars, r) {
			return r
		}

		t.pos += n
	}
}

// Get returns what was passed over.
func (t *Tokeniser) Get() string {
	s := string(t.data[:t.pos])
	t.data = t.data[t.pos:]
	t.pos = 0

	return s
}

// Done finishes.
func (t *Tokeniser) Done() (Token, TokenFunc) {
	t.Err = io.EOF

	return Token{Type: TokenDone}, (*Tokeniser).Done
}

// Error stops with the error.
func (t *Tokeniser) Error() (Token, TokenFunc) {
	if t.Err == nil {
		t.Err = ErrUnknown
	}

	return Token{Type: TokenError, Data: t.Err.Error()}, (*Tokeniser).Error
}

// TokeniserState sets the state.
func (t *Tokeniser) TokeniserState(f TokenFunc) { t.state = f }

func (t *Tokeniser) getToken() Token {
	if t.state == nil {
		t.Err = ErrUnknown
		t.state = (*Tokeniser).Error
	}

	var tk Token

	tk, t.state = t.state(t)

	return tk
}

// Parser reads tokens.
type Parser struct {
	Tokeniser
	tokens []Token
	peeked bool
}

// New creates a parser.
func New(t Tokeniser) Parser { return Parser{Tokeniser: t} }

func (p *Parser) peek() TokenType {
	if !p.peeked {
		p.tokens = append(p.tokens, p.getToken())
		p.peeked = true
	}

	return p.tokens[len(p.tokens)-1].Type
}

// Accept advances if the next token is of one of the types.
func (p *Parser) Accept(types ...TokenType) bool {
	k := p.peek()

	for _, t := range types {
		if t == k {
			p.peeked = false

			return true
		}
	}

	return false
}

// AcceptRun advances over tokens of the types and returns the next.
func (p *Parser) AcceptRun(types ...TokenType) TokenType {
	for p.Accept(types...) {
	}

	return p.peek()
}

// Get returns the tokens passed over.
func (p *Parser) Get() []Token {
	n := len(p.tokens)
	if p.peeked {
		n--
	}

	t := p.tokens[:n:n]
	p.tokens = p.tokens[n:]

	return t
}

// ErrUnknown is returned when no state is left.
var ErrUnknown = errors.New("unknown error")
