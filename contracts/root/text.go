//go:build verif

package limage

import (
	"bytes"
	"strings"

	"vimagination.zapto.org/limage/internal/vspec"
)

//@ assume strings.Builder and bytes.Buffer keep what is written to them

// joined is the text of the first n pieces.
//
// @ opaque
func joined(t TextData, n int) string {
	if n <= 0 {
		return ""
	}
	return joined(t, n-1) + t[n-1].Data
}

// builder is the text in a strings.Builder.
type builder struct{ text string }

// @ model (*strings.Builder).WriteString
// @ shadow strings.Builder builder
func model_Builder_WriteString(b *builder, s string) (int, error) {
	b.text += s
	return len(s), nil
}

// @ model (*strings.Builder).Write
func model_Builder_Write(b *builder, s []byte) (int, error) {
	b.text += string(s)
	return len(s), nil
}

// @ model (*strings.Builder).WriteByte
func model_Builder_WriteByte(b *builder, c byte) error {
	b.text += string([]byte{c})
	return nil
}

// @ model (*strings.Builder).WriteRune
func model_Builder_WriteRune(b *builder, r rune) (int, error) {
	s := string(r)
	b.text += s
	return len(s), nil
}

// @ model (*strings.Builder).String
func model_Builder_String(b *builder) string { return b.text }

// @ model (*strings.Builder).Len
func model_Builder_Len(b *builder) int { return len(b.text) }

// @ model (*strings.Builder).Grow
func model_Builder_Grow(b *builder, n int) {
	vspec.Assert("Grow by a number that is not negative", n >= 0)
}

// @ model (*strings.Builder).Reset
func model_Builder_Reset(b *builder) { b.text = "" }

type buffer struct{ text string }

// @ model (*bytes.Buffer).WriteString
// @ shadow bytes.Buffer buffer
func model_Buffer_WriteString(b *buffer, s string) (int, error) {
	b.text += s
	return len(s), nil
}

// @ model (*bytes.Buffer).String
func model_Buffer_String(b *buffer) string {
	if b == nil {
		return "<nil>"
	}
	return b.text
}

// @ model (*bytes.Buffer).Grow
func model_Buffer_Grow(b *buffer, n int) {
	vspec.Assert("Grow by a number that is not negative", n >= 0)
}

//@ assume the length of a text that is put together fits in an int

// @ model strings.Join
//@ for C13
func model_strings_Join(elems []string, sep string) string {
	s := ""
	for i := 0; i < len(elems); i++ {
		if i > 0 {
			s += sep
		}
		s += elems[i]
	}
	return s
}

// @ contract C13 (TextData).String
func contract_TextData_String(t TextData) {
	vspec.Candidate(func(b *strings.Builder, i int) bool { return b.String() == joined(t, i) })
	vspec.Candidate(func(b *strings.Builder, i int) bool { return b.String() == joined(t, i+1) })
	vspec.Candidate(func(b *bytes.Buffer, i int) bool { return b.String() == joined(t, i) })
	vspec.Candidate(func(b *bytes.Buffer, i int) bool { return b.String() == joined(t, i+1) })
	vspec.Candidate(func(s string, i int) bool { return s == joined(t, i) })
	vspec.Candidate(func(s string, i int) bool { return s == joined(t, i+1) })
	vspec.Candidate(func(n, i int) bool { return n >= 0 && n == len(joined(t, i)) })
	vspec.Candidate(func(n, i int) bool { return n >= 0 && n == len(joined(t, i+1)) })
	vspec.Candidate(func(p []string, i int) bool {
		return vspec.Forall(0, i, func(k int) bool { return p[k] == t[k].Data })
	})
	vspec.Candidate(func(p []string, i int) bool {
		return vspec.Forall(0, i+1, func(k int) bool { return p[k] == t[k].Data })
	})
	got := t.String()
	vspec.EndCandidates()
	vspec.Ensures("the pieces one after the other", got == joined(t, len(t)))
}
