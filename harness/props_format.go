package main

import (
	"strings"

	"pgregory.net/rapid"
)

// gapSpec is a gap whose comments and blank lines are fixed.
type gapSpec struct {
	G     string   `json:"g,omitempty"`
	T     string   `json:"t,omitempty"`
	Cs    []string `json:"cs,omitempty"`    // trimmed comment texts
	Blank []bool   `json:"blank,omitempty"` // blank line before comment i (i>0)
	Tail  bool     `json:"tail,omitempty"`  // white space after the last comment
}

type layoutCase struct {
	A, B Txt
}

func genLayouts(t *rapid.T) layoutCase {
	ps := genDoc(t, 14)
	st := genStyle(t)
	var specs []gapSpec
	for _, p := range ps {
		if p.G == "" {
			specs = append(specs, gapSpec{T: p.T})
			continue
		}
		g := gapSpec{G: p.G}
		pct := st.kept
		if p.G == "x" || p.G == "c" {
			pct = st.lossy
		}
		if pct > 0 && intn(t, 100, "cmt?") < pct {
			n := 1 + small(t, "cmts")
			for i := 0; i < n; i++ {
				c := strings.Trim(genCommentText(t), " ")
				if p.G == "c" {
					c = strings.Map(func(r rune) rune {
						if r == '[' || r == ']' || r == ',' {
							return '.'
						}
						return r
					}, c)
				}
				g.Cs = append(g.Cs, c)
				g.Blank = append(g.Blank, rapid.Bool().Draw(t, "blank"))
			}
			g.Tail = rapid.Bool().Draw(t, "tail")
		}
		specs = append(specs, g)
	}
	return layoutCase{Txt(layout(t, specs)), Txt(layout(t, specs))}
}

// inline white space: no line break
func inlineWS(t *rapid.T) string {
	return pick(t, "inline", "", " ", "  ", "\t", "      ", " \t")
}

func layout(t *rapid.T, specs []gapSpec) string {
	var b strings.Builder
	for _, g := range specs {
		if g.G == "" {
			b.WriteString(g.T)
			continue
		}
		ws := genWS(t, g.G == "K")
		if g.G == "s" && len(g.Cs) > 0 && b.Len() == 0 {
			ws = pick(t, "lead", "", "\n", " ", "\n\n", "\r\n", " \n\n")
		}
		b.WriteString(ws)
		for i, c := range g.Cs {
			if i > 0 {
				if g.Blank[i] {
					b.WriteString(inlineWS(t) + pick(t, "blankEOL", "\n", "\r\n", "\n\n", "\n \n", "\r\n\t\n\n") + inlineWS(t))
				} else {
					b.WriteString(inlineWS(t))
				}
			}
			b.WriteString("#" + strings.Repeat(" ", intn(t, 4, "cpre")) + c + strings.Repeat(" ", intn(t, 3, "cpost")) + pick(t, "eol", "\n", "\r\n"))
		}
		if len(g.Cs) > 0 && g.Tail {
			b.WriteString(genWS(t, true))
		}
	}
	return b.String()
}

// indentProblem checks the indentation of formatted text, given the literals
// that may span lines and the comments (found by the reference parser).
func indentProblem(out string, r refResult) string {
	type span struct{ a, b int }
	mask := make([]byte, len(out))
	for _, s := range r.lspans {
		for i := s[0]; i < s[1]; i++ {
			mask[i] = 'L'
		}
	}
	for _, s := range r.cspans {
		for i := s[0]; i < s[1]; i++ {
			mask[i] = 'C'
		}
	}
	depth := 0
	start := 0
	n := 0
	for start < len(out) {
		n++
		end := strings.IndexByte(out[start:], '\n')
		if end < 0 {
			end = len(out)
		} else {
			end += start
		}
		line := out[start:end]
		// a line that starts inside a literal is a continuation line
		cont := start > 0 && mask[start-1] == 'L' && (start >= len(out) || mask[start] == 'L') && out[start-1] == '\n'
		if !cont && len(line) > 0 {
			ind := len(line) - len(strings.TrimLeft(line, " \t"))
			want := depth
			if ind < len(line) && mask[start+ind] == 0 && (line[ind] == '}' || line[ind] == ']') {
				want--
			}
			if ind != 2*want || strings.Contains(line[:ind], "\t") {
				return "line " + q(line) + " is indented by " + itoa(ind) + " instead of " + itoa(2*want)
			}
			if ind == len(line) {
				return "line with nothing but white space"
			}
		}
		for i := start; i < end; i++ {
			if mask[i] != 0 {
				continue
			}
			switch out[i] {
			case '{', '[':
				depth++
			case '}', ']':
				depth--
			}
		}
		start = end + 1
	}
	return ""
}

// elseTrap tells whether a plugin named else follows a branch whose else block
// has no content and is therefore not printed.
func elseTrap(c *Conf) bool {
	trap := false
	seq := func(ns []*N) {
		for i := 1; i < len(ns); i++ {
			if a, b := ns[i-1], ns[i]; b.K == "plugin" && b.Name == "else" && a.K == "branch" {
				if l := a.Kids[len(a.Kids)-1]; l.K == "else" && len(l.Kids) == 0 && len(l.C) == 0 && len(l.F) == 0 {
					trap = true
				}
			}
		}
	}
	c.walk(func(n *N) { seq(n.Kids) })
	return trap
}

const elseSig = "plugin-named-else-after-empty-else-block"

// orElse turns a violation into the known finding about plugins named else if
// the configuration contains the trap.
func orElse(c *Conf, err error) error {
	if elseTrap(c) {
		return finding{elseSig, err}
	}
	return err
}

func itoa(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	if i < 10 {
		return string(rune('0' + i))
	}
	return itoa(i/10) + string(rune('0'+i%10))
}

func init() {
	regress := []textCase{
		{"input { if [a] { } else { } else { } }"},
		{"filter { if [a] =~ /it's/ { b { c => d } } }"}, {"filter { if [a] =~ /it's/ { b { c => \"x\ny\" } } if [a] =~ /\"/ { } }"},
		{"filter { if [a'b] == 1 { if [c\"d] { } } }"}, {"filter { if [x] { if [a] =~ /a\nb/ { } } }"}, {"filter { if [x] { if [a\nb] { } } }"},
		{"filter { if [x] { if [\n\"] { } } }"}, {"# a\ninput {}\n# b\ninput {}\n"}, {"output { }\n# x\n\ninput {}"}, {"# o\n\noutput { }\n# i\n\ninput {}"},
		{"input { \n\n# c\n a {} }"}, {"input { a { b => 0.00000000001 } }"}, {"input { a { b => 1.00000000000000000001e } }"},
		{"input { a { b => [ # x\n 1 # lost\n, 2, # y\n 3 # z\n ] } }"}, {"input { if [a] { } else { } if [b] { } else { # x\n } }"},
		{"input { \"a\nb\" { 'c\n d' => \"\n\" } }"}, {"filter { if [\"a\", 'b\n c', /x/] == 1 { } }"}, {"filter { if [ 1, [2, \"]\" ] ] == [] { if [a] in [ \"'\", '\"' ] { } } }"},
		{"input { a { b => '#' c => \"#\" } } # \"\n# '"}, {"filter { if [a] =~ /#'/ { a { } } }"},
	}
	genFmt := func(t *rapid.T) textCase {
		if intn(t, 8, "mut") == 0 {
			return textCase{Txt(genAnyText(t, 18))}
		}
		return textCase{Txt(genText(t, 22))}
	}
	reg("C08", textRule+", some edited; rejected texts and texts without a section are excluded; non-trivial: at least three nodes",
		genFmt, func(x *Ctx, c textCase) error {
			s := c.Text.s()
			v, err := parse(s)
			if err != nil {
				return x.Exclude("rejected text")
			}
			a := fromAST(v)
			if a.sections() == 0 {
				return x.Exclude("no section")
			}
			if r := refParse(s, refOpts{}); r.condLost && riskyCond(s, r) {
				return x.Exclude("a comment lost inside a condition decides between selector and array")
			}
			x.Interesting(size(a) >= 3)
			x.shape(a)
			out := v.String()
			w, err := parse(out)
			if err != nil {
				return orElse(a, viol("text %q\nformats to %q\nwhich is rejected: %v", s, out, err))
			}
			b := fromAST(w)
			trap := elseTrap(a)
			a.dropEmptyElse()
			b.dropEmptyElse()
			if d := confDiff(a, b, cmpOpt{comments: true}); d != "" {
				err := viol("text %q\nformats to %q\noriginal versus formatted tree: %s", s, out, d)
				if trap {
					return finding{elseSig, err}
				}
				return err
			}
			return nil
		}, cases(38000, 2500000), corpus(regress...), siteTexts(5, 7), sizeTexts(1), smallTexts(2, 3, true), farTexts(2, false))

	reg("C09", textRule+", some edited; rejected texts are excluded; non-trivial: the formatted text has at least three lines",
		genFmt, func(x *Ctx, c textCase) error {
			s := c.Text.s()
			v, err := parse(s)
			if err != nil {
				return x.Exclude("rejected text")
			}
			if r := refParse(s, refOpts{}); r.condLost && riskyCond(s, r) {
				return x.Exclude("a comment lost inside a condition decides between selector and array")
			}
			one := v.String()
			x.Interesting(strings.Count(one, "\n") >= 3)
			x.shape(fromAST(v))
			w, err := parse(one)
			if err != nil {
				return orElse(fromAST(v), viol("text %q\nformats to %q\nwhich cannot be formatted again: %v", s, one, err))
			}
			if two := w.String(); two != one {
				return orElse(fromAST(v), viol("text %q\nformats to     %q\nand then again %q", s, one, two))
			}
			return nil
		}, cases(38000, 2500000), corpus(regress...), siteTexts(7, 11), sizeTexts(1), smallTexts(2, 3, true), farTexts(2, false))

	reg("C10", "pairs of texts with the same tokens, comments and blank lines between comments, and independently generated white space everywhere else; non-trivial: the two texts differ and format to at least three lines",
		genLayouts, func(x *Ctx, c layoutCase) error {
			ra, rb := refParse(c.A.s(), refOpts{}), refParse(c.B.s(), refOpts{})
			if !ra.ok || !rb.ok {
				return x.Exclude("rejected text")
			}
			if d := confDiff(ra.conf, rb.conf, cmpOpt{comments: true, spacing: true}); d != "" {
				return x.Exclude("layouts not equivalent: comment blocks")
			}
			va, e1 := parse(c.A.s())
			vb, e2 := parse(c.B.s())
			if e1 != nil || e2 != nil {
				return x.Exclude("parser rejects (acceptance is C01)")
			}
			oa, ob := va.String(), vb.String()
			x.Interesting(c.A != c.B && strings.Count(oa, "\n") >= 3)
			x.Label("comments", len(allComments(ra.conf)) > 0)
			x.Label("CRLF in only one", has(c.A.s(), "\r\n") != has(c.B.s(), "\r\n"))
			if oa != ob {
				return viol("layouts %q\nand %q\nformat differently: %q\nand %q", c.A, c.B, oa, ob)
			}
			if ro := refParse(oa, refOpts{}); ro.ok {
				x.Label("indentation checked")
				x.Label("indentation with multi-line literal", hasMultiline(oa, ro))
				if p := indentProblem(oa, ro); p != "" {
					return viol("text %q\nformats to %q\n%s", c.A, oa, p)
				}
			}
			return nil
		}, cases(45000, 2000000), enum(farLayouts), corpus(layoutCase{"input { \n\n # c\n a {} }", "input {\n\n # c\n a {} }"}, layoutCase{"# c\n\ninput { \n\n # c\n a {} }", " \n\n# c\r\n\r\ninput {\n\n # c\n a {} }"}))
}

func hasMultiline(s string, r refResult) bool {
	for _, sp := range r.lspans {
		if strings.Contains(s[sp[0]:sp[1]], "\n") {
			return true
		}
	}
	return false
}

// riskyCond tells whether some comment contains a character that could decide
// between a selector and an array.
func riskyCond(s string, r refResult) bool {
	for _, sp := range r.cspans {
		if strings.ContainsAny(s[sp[0]:sp[1]], "[],") {
			return true
		}
	}
	return false
}
