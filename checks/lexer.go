package checks

import (
	"fmt"

	"verif/engine/gosym"
)

// C07: the lexer against the reference scanner (engine/gosym/spec), both executed symbolically on
// the same bytes.
func init() {
	register(&Check{
		ID: "C07",
		Bounds: []string{
			"every byte string of up to 3 bytes; thorough: up to 4 bytes",
			"in context: string bodies of up to 4 free bytes, comments of up to 3, numbers of up to 5, words of up to 9 letters (every keyword and every word at one changed, missing or added letter from it), operator runs of up to 4, line counting over up to 5 line ends in all positions",
		},
		Assumptions: []string{"unicode tables are used as Go's library gives them (letters and digits above U+00FF are taken from a table evaluated natively)"},
		NoTwins:     true,
		Extra:       func(r *Runner) error { return r.runFront(lexProbes()) },
	})
}

func in(set string) func(byte) bool {
	return func(b byte) bool {
		for i := 0; i < len(set); i++ {
			if set[i] == b {
				return true
			}
		}
		return false
	}
}

func lexProbes() []*gprobe {
	var ps []*gprobe
	add := func(name string, b func(s *gosym.Src), th bool) {
		ps = append(ps, &gprobe{name: name, fn: "lex", build: b, thorough: th})
	}
	for i := 0; i < 4; i++ {
		i := i
		q := func(b byte) bool { return int(b>>6) == i }
		add(fmt.Sprintf("bytes-3-%d", i), func(s *gosym.Src) { s.Bytes("a", 1, q).Bytes("b", 2, nil) }, false)
		add(fmt.Sprintf("string-4-%d", i), func(s *gosym.Src) { s.Lit("a \"").Bytes("a", 1, q).Bytes("b", 3, nil).Lit("\" + c") }, false)
	}
	for n := 0; n <= 2; n++ {
		n := n
		add(fmt.Sprintf("bytes-%d", n), func(s *gosym.Src) { s.Bytes("b", n, nil) }, false)
	}
	sig := in(" \n\r\"\\/=<>.:-+*&|^~()[]{},#?0x9afn_\t\xc2\xab\xbb\x80\x00\xff")
	add("significant-3", func(s *gosym.Src) { s.Bytes("b", 3, sig) }, false)
	add("significant-4", func(s *gosym.Src) { s.Bytes("b", 4, sig) }, true)
	for i := 0; i < 16; i++ {
		i := i
		add(fmt.Sprintf("bytes-4-%x", i), func(s *gosym.Src) {
			s.Bytes("a", 1, func(b byte) bool { return int(b>>4) == i }).Bytes("b", 3, nil)
		}, true)
	}
	for n := 0; n <= 3; n++ {
		n := n
		add(fmt.Sprintf("string-%d", n), func(s *gosym.Src) { s.Lit("a \"").Bytes("b", n, nil).Lit("\" + c") }, false)
	}
	add("string-escapes", func(s *gosym.Src) { s.Lit("\"").Bytes("b", 5, in("\\\"nrtx")).Lit("\"") }, false)
	add("string-open", func(s *gosym.Src) { s.Lit("\"").Bytes("b", 3, in("\\\"nr\nx")) }, false)
	add("string-utf8", func(s *gosym.Src) {
		s.Lit("\"").Bytes("b", 4, in("\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80\xff\"a")).Lit("\"")
	}, false)
	for n := 0; n <= 3; n++ {
		n := n
		add(fmt.Sprintf("comment-%d", n), func(s *gosym.Src) { s.Lit("a //").Bytes("b", n, nil).Lit("\nb") }, false)
	}
	add("comment-lines", func(s *gosym.Src) { s.Lit("//").Bytes("b", 4, in("/\n\r a\"")).Lit("z\n") }, false)
	add("decimal", func(s *gosym.Src) { s.Lit("a = 1").Bytes("b", 4, in("0123456789xXabefgz_. -")).Lit(" ") }, false)
	add("hex", func(s *gosym.Src) {
		s.Lit("0").Bytes("p", 1, in("xX0a ")).Bytes("b", 3, in("0159afAFgGxz_. ")).Lit(" ")
	}, false)
	add("digits-any", func(s *gosym.Src) { s.Bytes("d", 1, in("0123456789")).Bytes("b", 2, nil) }, false)
	ops := in("=<>.:-+*/&|^~? ")
	add("operators", func(s *gosym.Src) { s.Bytes("b", 4, ops) }, false)
	add("operators-3", func(s *gosym.Src) { s.Lit("a").Bytes("b", 3, ops).Lit("b") }, false)
	add("generics", func(s *gosym.Src) { s.Lit("f").Bytes("b", 4, in("\xc2\xab\xbb\xaa(,)a ")).Lit(")") }, false)
	for _, k := range []string{"fn", "return", "if", "elseif", "else", "true", "false", "not", "and", "or", "struct", "while", "for", "in", "enum", "match", "case", "type"} {
		k := k
		add("word-"+k, func(s *gosym.Src) {
			// the keyword with one letter changed, dropped, or something before or after it
			alts := []string{k, k + "x", k + "_", k + "1", "x" + k, "_" + k, k[1:] + " ", k[:len(k)-1] + " "}
			for i := range k {
				alts = append(alts, k[:i]+"q"+k[i+1:])
			}
			alts = append(alts, string(k[0]-32)+k[1:])
			s.Choice("k", alts...).Bytes("b", 1, nil).Lit("y")
		}, false)
		add("keyword-"+k, func(s *gosym.Src) {
			s.Lit(" ").Lit(k).Bytes("b", 2, nil)
		}, false)
	}
	for n := 1; n <= 3; n++ {
		n := n
		add(fmt.Sprintf("word-any-%d", n), func(s *gosym.Src) {
			s.Bytes("b", n, func(b byte) bool { return b >= 'a' && b <= 'z' || b == '_' || b >= '0' && b <= '9' || b == ' ' }).Lit(" ")
		}, false)
	}
	add("word-utf8", func(s *gosym.Src) { s.Lit("x").Bytes("b", 3, in("\xc3\xa9\xe2\x82\xac\xce\xb1\xd9\xa3a1_ ")).Lit(" ") }, false)
	add("lines", func(s *gosym.Src) {
		s.Bytes("a", 2, in("\n\rx ")).Lit("a").Bytes("b", 2, in("\n\r  ")).Lit("\"x\" //c").Bytes("c", 2, in("\n\r /")).Lit("(z")
	}, false)
	add("lines-many", func(s *gosym.Src) { s.Bytes("a", 5, in("\nx")).Lit(" y").Bytes("b", 5, in("\n ")).Lit("z") }, false)
	return ps
}
