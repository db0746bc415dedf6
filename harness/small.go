package main

import (
	"os"
	"strings"
)

// The third enumeration: all short sequences of tokens in each kind of context.

type smallCtx struct {
	pre, post string
	toks      []string
}

var smallCtxs = []smallCtx{
	{"", "", []string{"input", "filter", "output", "{", "}", "{}", "#", "# c\n", "\n", "\r", "a", "aa{}", "if", "1", "\ufeff", "\"", "if 1{}", "\x00"}},
	{"input {", "}", []string{"aa", "1", "-", "\"s\"", "''", "\"", "{", "}", "=>", "if", "else", "[a]", "# c\n", "#", "\n", "bb{}", "if 1{}", "else{}", "else if 1{}", "_", "é"}},
	{"input { pp {", "} }", []string{"aa", "b", "=>", "1", "\"s\"", "'", "{", "}", "[", "]", ",", "# c\n", "\n", "-", "aa=>1", "cc{}", "=", ">", "if"}},
	{"input { pp { aa =>", "} }", []string{"a", "bb", "1", "0", "-", ".", "e", "\"", "'", "\\", "\"s\"", "[", "]", "{", "}", ",", "=>", "# c\n", "#", "/", "\n", "cc=>2", "é"}},
	{"input { pp { aa => [", "] } }", []string{"a", "bb", "1", "-2.5", "\"s\"", "'", "[", "]", "{", "}", ",", "=>", "# c\n", "\n", "cc{}", "[]", "{}", "1=>2"}},
	{"input { pp { aa => {", "} } }", []string{"bb", "1", "-2.5", "\"s\"", "'s'", "'12'", "=>", "{", "}", "[", "]", ",", "# c\n", "\n", "cc=>1", "\"k\"=>[]", "dd{}"}},
	{"filter { if", "{ } }", []string{"[a]", "[", "]", "(", ")", "!", "==", "=~", "<", "=", "in", "not in", "not", "and", "nand", "1", "\"s\"", "/r/", "/", ",", "# c\n", "a", "{", "}", "xor"}},
	{"filter { if 1 { }", "}", []string{"else", "if", "elseif", "else if", "1", "[a]", "{", "}", "{}", "# c\n", "\n", "aa", "bb{}", "else{}", "if 1{}", "else if 1{}", "=>"}},
	{"filter { if [a] in [", "] { } }", []string{"1", "a", "bb", "\"s\"", "[", "]", ",", "(", ")", "# c\n", "\n", "[c]", "{", "}", "/r/", "and", "]{}if[b"}},
	{"filter { if (", ") { } }", []string{"[a]", "(", ")", "!", "!(", "==", "!~", ">=", "not in", "and", "or", "1", "'s'", "/r/", "# c\n", "in", "[1,2]", "\n"}},
}

// smallTexts enumerates the sequences of up to n tokens (one more in the
// thorough tier), joined directly and with blanks; every k-th of them. If
// accepted is set, texts the reference parser rejects are left out.
func smallTexts(every, n int, accepted bool) optFn {
	return enum(func(yield func(textCase)) {
		depth := n
		if os.Getenv("VERIF_TIER") == "thorough" {
			depth++
		}
		y := strided(every, func(s string) {
			if !accepted || refParse(s, refOpts{}).ok {
				yield(textCase{Txt(s)})
			}
		})
		for _, c := range smallCtxs {
			var seq []string
			var rec func()
			rec = func() {
				y(c.pre + strings.Join(seq, "") + c.post)
				if len(seq) > 0 {
					y(c.pre + " " + strings.Join(seq, " ") + " " + c.post)
				}
				if len(seq) == depth {
					return
				}
				for _, t := range c.toks {
					seq = append(seq, t)
					rec()
					seq = seq[:len(seq)-1]
				}
			}
			rec()
		}
	})
}

var damageBase = []string{
	"", "\ufeff", "input {}", "\ufeffinput {}", "# é\ninput { stdin { a => \"é\" b => [1, 'x'] } }\n# end", "filter { if [a] == \"b\" and !([c] =~ /é/) { m { \"k\" => { 'x' => -1.5 } } } else if [d] in [1, 2] { } else { } }\r\n", "output { p { codec => json { } a => b_c # c\n } }",
}

// damagedTexts puts each of some bytes at each place of some texts, in front of
// and in place of what is there, and cuts the texts at each place.
func damagedTexts(yield func(string)) {
	bad := []string{"\xff", "\x80", "\xc3", "\xed\xa0\x80", "\xef\xbb", "\xf4\x90\x80\x80", "\x00", "\r", "\ufffd", "\ufeff", "\xff\xfe", "\\", "\u0085"}
	for _, s := range damageBase {
		for i := 0; i <= len(s); i++ {
			yield(s[:i])
			yield(s[i:])
			for _, b := range bad {
				yield(s[:i] + b + s[i:])
				if i < len(s) {
					yield(s[:i] + b + s[i+1:])
				}
			}
		}
	}
}
