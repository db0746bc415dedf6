package main

import (
	"os"
	"strconv"
	"strings"
	"unicode"
)

// Systematic enumeration: small texts that together contain every place of the
// grammar (the generated parser has a copy of each inlined rule per place), and
// in each of their gaps and tokens, one at a time, everything that could be
// special there. "·" is a gap that may be empty, "~" one that may not, "|"
// only separates tokens.
var skeletons = []string{
	"·input·{·}·",
	"·input·{·}·filter·{·}·output·{·}·input·{·}·",
	"input·{·stdin·{·}·'q n'·{·}·\"d q\"·{·}·}",
	"input·{·p1·{·aa·=>·bb~cc·=>·\"x\"~'d'·=>·'y'~\"e\"·=>·1~ff·=>·-1.5·}·}",
	"output·{·p1·{·a1·=>·[·]~b1·=>·[·1·]~c1·=>·[·\"x\"·,·'y'·,·zz·,·[·1·,·xy·]·,·{·}·,·-2·]·}·}",
	"output·{·p1·{·a1·=>·{·}~b1·=>·{·k1·=>·v1~\"k2\"·=>·\"v\"~'k3'·=>·'v'~4·=>·[·1·]~k5·=>·{·k6·=>·-1·}·}·}·}",
	"input·{·p1·{·codec·=>·json·{·ch·=>·\"x\"·}~c2·=>·'j'·{·}~c3·=>·\"j\"·{·}·}·}",
	"filter·{·if·[a]·{·p1·{·}·}·else·if·[b]·{·p2·{·}·}·else·if·[c]·{·}·else·{·p3·{·}·}·p4·{·}·}",
	"filter·{·if·[a]·{·if·[b]·{·}·p1·{·}·}·else·if·[c]·{·if·[d]·{·}·p2·{·}·}·else·{·if·[e]·{·}·p3·{·}·}·if·[f]·{·}·else·{·}·}",
	"filter·{·if·[a]·==·1·and·\"x\"·!=·'y'·or·2·<=·[b]·xor·[c]·>=·3·nand·[d]·<·4·and·[e]·>·5·{·}·}",
	"filter·{·if·[a]·=~·/x/·and·[b]·!~·\"re\"·or·\"s\"·=~·'r'·{·}·}",
	"filter·{·if·[a]·in·[b]·and·\"x\"·in·[·1·,·\"y\"·]·or·1·not |·in·[c]·and·'x'·not |·in·\"y\"·{·}·}",
	"filter·{·if·!·[a]·and·!·(·[b]·or·1·)·and·(·[c]·)·{·}·}",
	"filter·{·if·(·(·[a]·)·and·!·[b][c]·)·{·}·}",
	"filter·{·if·1·or·\"x\"·or·'x'·or·/re/·or·[·1·,·2·]·or·[a][b c]·{·}·}",
	"filter·{·if·/x/·==·/y/·and·[·1·,·xx·]·==·[·{·}·]·and·'a'·<·\"b\"·{·}·}",
	"filter·{·if·/x/·in·[a]·and·[·1·,·2·]·not |·in·/y/·{·}·}",
	"filter·{·if·1·{·}·else·if·1·==·2·and·!·[a]·or·(·1·in·[b]·)·{·}·else·if·\"x\"·=~·/y/·{·}·}",
}

// special characters for names, strings, selectors and regexps.
var siteChars = func() []string {
	var r []string
	for c := 0; c < 128; c++ {
		r = append(r, string(rune(c)))
	}
	return append(r, "é", "\u00a0", "\u00aa", "\u0130", "\u017f", "\u212a", "\u2028", "日", "😀", "\ufeff", "\ufffd", "\xff", "٣", `\"`, `\'`, `\/`, `\\`, `\n`, "''", `""`, "//", "]]", "[[")
}()

// fillings of gaps.
var siteGaps = []string{"", "\n", "\r", "\t", "\r\n", "\n\n", "  ", "#\n", "#x\n", "#x\r\n", " # x \n ", "\n#x\n", "\n\n#x\n\n", "#x\n#y\n", "#x\n\n#y\n", "#x\n\n \n#y\r\n\r\n", "#é\x00#\n", "#}\"'{\n", "\n \n#x", " \n\n# x\n",
	"#", "#x", "#x\r", "#x\ry\n", "#x\r\r\n", "\v", "\f", "\u00a0", "\u2028", "\ufeff", "\x00", "//\n", "\\\n", ",", ";"}

var siteWords = []string{"and", "or", "xor", "nand", "not", "not in", "in", "if", "else", "else if", "elseif", "==", "!=", "<=", ">=", "<", ">", "=~", "!~", "=", "=>", "!", ",", "{", "}", "[", "]", "(", ")", "[]", "{}", "()", "{ }", "[ ]",
	"1", "-1", "1.", "01", "1.5", "-", ".5", "+1", "1e3", "1x", "0x1", "x", "xx", "_x", "x_", "9x", "x9", "-x", "x-y", "if1", "else1", "\"s\"", "'s'", "\"\"", "''", "[a]", "[a][b]", "[a] [b]", "[1]", "[1,2]", "[1, 2]", "[,]", "[a,b]", "[aa]", "[\"s\"]", "/r/", "//", "xx {}", "xx { }", "'x' {}", "1 {}", "{ xx => 1 }", "(1)", "!1", "![a]", "!(1)", "! ( 1 )", "input", "filter {}", "input {}", "true", "nil"}

var siteNumbers = []string{"0", "9", "10", "90", "-0", "-9", "1.0", "1.9", "9.", "0.0", "-1.", "1..2", "1.2.3", "--1", "- 1", "1.5e3", "-.5", "123456789012345678901234567890", "1.-5", "1 .5", "1. 5", "٣", "1_0"}

func splitSkeleton(s string) (toks []string, gaps []rune) {
	var b strings.Builder
	for _, r := range s {
		if r == '·' || r == '~' || r == '|' {
			toks, gaps = append(toks, b.String()), append(gaps, r)
			b.Reset()
			continue
		}
		b.WriteRune(r)
	}
	return append(toks, b.String()), gaps
}

// joinSkeleton joins the tokens with blanks, only necessary blanks, or comments.
func joinSkeleton(toks []string, gaps []rune, base int, at int, fill string) string {
	var b strings.Builder
	for i, t := range toks {
		b.WriteString(t)
		if i >= len(gaps) {
			break
		}
		switch {
		case i == at:
			b.WriteString(fill)
		case gaps[i] == '|':
		case base == 2:
			b.WriteString(" #k\n")
		case base == 0 || gaps[i] == '~':
			b.WriteString(" ")
		}
	}
	return b.String()
}

// sites calls yield for all texts; gaps and tokens select what is varied.
func sites(gaps, tokens bool, yield func(s string)) {
	for _, sk := range skeletons {
		toks, gs := splitSkeleton(sk)
		for base := 0; base < 3; base++ {
			yield(joinSkeleton(toks, gs, base, -1, ""))
			for i := range gs {
				if !gaps || gs[i] == '|' {
					continue
				}
				for _, f := range siteGaps {
					yield(joinSkeleton(toks, gs, base, i, f))
				}
			}
		}
		if !tokens {
			continue
		}
		for i, t := range toks {
			if t == "" {
				continue
			}
			put := func(base int, n string) {
				c := append([]string(nil), toks...)
				c[i] = n
				yield(joinSkeleton(c, gs, base, -1, ""))
			}
			put(0, "")
			put(0, t+t)
			put(0, t+" "+t)
			for _, w := range siteWords {
				put(0, w)
				put(1, w)
			}
			put(1, strings.ToUpper(t))
			for k := range t {
				put(1, t[:k]+t[k+1:])
				put(1, t[:k]+t[k:k+1]+t[k:])
				for _, in := range []string{" ", "\n", "#x\n", "_", "\\", "é", "-", "x", "1", "\""} {
					put(1, t[:k]+in+t[k:])
				}
				r := rune(t[k])
				if unicode.IsUpper(r) {
					put(1, t[:k]+strings.ToLower(t[k:k+1])+t[k+1:])
				} else if unicode.IsLower(r) {
					put(1, t[:k]+strings.ToUpper(t[k:k+1])+t[k+1:])
				}
				if r == 's' {
					put(1, t[:k]+"\u017f"+t[k+1:])
				}
			}
			switch c := t[0]; {
			case c == '"' || c == '\'' || c == '/':
				for _, x := range siteChars {
					put(1, string(c)+x+string(c))
					put(1, string(c)+"a\\"+x+string(c))
				}
			case c == '[' && len(t) > 1:
				for _, x := range siteChars {
					put(1, "["+x+"]")
					put(1, t+"[b"+x+"c]")
				}
			case c >= '0' && c <= '9' || c == '-':
				for _, n := range siteNumbers {
					put(1, n)
					put(0, n)
				}
			case unicode.IsLetter(rune(c)):
				for _, x := range siteChars {
					put(1, x+"a")
					put(1, "a"+x)
					if x >= "!" {
						put(1, x)
					}
				}
			}
		}
	}
}

// strided passes on every n-th case, beginning at one that depends on the seed.
func strided[C any](n int, yield func(C)) func(C) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_TIER") == "thorough" {
		n = 1
	}
	k := seed % n
	return func(c C) {
		if k++; k%n == 0 {
			yield(c)
		}
	}
}

// siteTexts makes the enumeration available to checks of texts; every n-th
// text with another gap and with another token.
func siteTexts(gaps, tokens int) optFn {
	return enum(func(yield func(textCase)) {
		y := func(s string) { yield(textCase{Txt(s)}) }
		if gaps > 0 {
			sites(true, false, strided(gaps, y))
		}
		if tokens > 0 {
			sites(false, true, strided(tokens, y))
		}
	})
}
