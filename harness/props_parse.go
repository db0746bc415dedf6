package main

import (
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"pgregory.net/rapid"
)

// parse runs the parser under test.
func parse(s string, opts ...config.Option) (ast.Config, error) {
	v, err := config.Parse("test.conf", []byte(s), opts...)
	if err != nil {
		return ast.Config{}, err
	}
	c, ok := v.(ast.Config)
	if !ok {
		return ast.Config{}, viol("Parse succeeded with a %T instead of a configuration", v)
	}
	return c, nil
}

type textCase struct {
	Text Txt
}

func genAny(fuel int) func(t *rapid.T) textCase {
	return func(t *rapid.T) textCase { return textCase{Txt(genAnyText(t, fuel))} }
}

func genValid(fuel int) func(t *rapid.T) textCase {
	return func(t *rapid.T) textCase { return textCase{Txt(genText(t, fuel))} }
}

// validOr excludes texts that are not accepted.
func (x *Ctx) accepted(s string, o refOpts) (refResult, bool) {
	r := refParse(s, o)
	if !r.ok {
		x.Exclude("rejected text")
		return r, false
	}
	return r, true
}

// shape labels what a configuration contains.
func (x *Ctx) shape(c *Conf) {
	seen := map[string]bool{}
	d := 0
	for _, g := range c.Groups {
		if len(g) > 1 {
			seen["repeated section kind"] = true
		}
		for _, s := range g {
			if k := s.depth(); k > d {
				d = k
			}
		}
	}
	c.walk(func(n *N) {
		seen["has "+n.K] = true
		if len(n.C) > 0 {
			seen["comment on "+n.K] = true
		}
		if len(n.F) > 0 {
			seen["footer comment in "+n.K] = true
		}
		if n.Bool != "" {
			seen["operator "+n.Bool] = true
		}
		if n.K == "op" {
			seen["operator "+n.Val] = true
		}
		if strings.Contains(n.Val, "\n") {
			seen["multi-line "+n.K] = true
		}
	})
	if d >= 6 {
		seen["depth>=6"] = true
	}
	for k := range seen {
		x.Label(k)
	}
}

func size(c *Conf) int {
	n := 0
	c.walk(func(*N) { n++ })
	return n
}

const textRule = "texts are produced from a grammar of the configuration language (every construct, literal spelling and gap, with generated white space and comments)"

func init() {
	mutRule := textRule + "; about half are then edited on token or byte level, some are token sequences without structure"
	regress := []textCase{
		{`input { a { b => [ foo {} ] } }`}, {`input { a { b => [ 1, foo {} ] } }`}, {`input { a { b => { "x" => foo {} } } }`},
		{"input {}\n#"}, {"input {} # a\r"}, {"input {} # a\rb\n"}, {"# c"}, {""}, {" \n"}, {"input { if1 {} }"}, {"input { if1 { a => b } }"}, {"input{a{b=>1c=>2}}"},
		{`filter { if [a] not  in ["x"] {} }`}, {`filter { if [a]not in[b]and"x"in[c]{}elseif[d]{}else{} }`}, {Txt("input { a { b => " + strings.Repeat("9", 400) + " } }")},
		{"input { a { b => c } }"}, {"input { a { b => cc } }"}, {"input { a { b => 1.5.2 } }"}, {`input { a { b => "\\" } }`}, {`input { a { b => "\\\" } }`},
	}
	reg("C01", mutRule+"; non-trivial: the text contains at least one opening brace (so more than the top-level rule is exercised)",
		genAny(14), func(x *Ctx, c textCase) error {
			s := c.Text.s()
			r := refParse(s, refOpts{})
			_, err := parse(s)
			x.Interesting(strings.Contains(s, "{"))
			x.Label("accepted", r.ok)
			x.Label("rejected: "+r.why, !r.ok)
			if r.ok && err != nil {
				return viol("the grammar derives %q but the parser rejects it: %v", s, err)
			}
			if !r.ok && err == nil {
				return viol("the grammar does not derive %q (%s) but the parser accepts it", s, r.why)
			}
			if len(s)%4 != 0 {
				return nil
			}
			if _, err := config.ParseReader("test.conf", strings.NewReader(s)); r.ok != (err == nil) {
				return viol("the text %q (in the grammar: %v) read from a reader: error %v", s, r.ok, err)
			}
			return nil
		}, cases(60000, 3000000), corpus(regress...), siteTexts(1, 1), sizeTexts(1), smallTexts(1, 3, false), farTexts(1, true), enum(func(yield func(textCase)) {
			damagedTexts(func(s string) { yield(textCase{Txt(s)}) })
		}))

	reg("C02", mutRule+"; rejected texts are excluded; non-trivial: at least three nodes",
		func(t *rapid.T) textCase {
			if intn(t, 4, "mut") == 0 {
				return textCase{Txt(genAnyText(t, 20))}
			}
			return textCase{Txt(genText(t, 25))}
		}, func(x *Ctx, c textCase) error {
			s := c.Text.s()
			r, ok := x.accepted(s, refOpts{})
			if !ok {
				return nil
			}
			v, err := parse(s)
			if err != nil {
				return x.Exclude("parser rejects (acceptance is C01)")
			}
			x.Interesting(size(r.conf) >= 3)
			x.shape(r.conf)
			if d := confDiff(r.conf, fromAST(v), cmpOpt{}); d != "" {
				return viol("text %q\nexpected versus parsed tree: %s", s, d)
			}
			return nil
		}, cases(60000, 2500000), siteTexts(4, 2), sizeTexts(1), smallTexts(1, 3, true), farTexts(2, false))

	reg("C04", mutRule+"; rejected texts are excluded; non-trivial: at least three nodes",
		genValid(20), func(x *Ctx, c textCase) error {
			s := c.Text.s()
			r, ok := x.accepted(s, refOpts{})
			if !ok {
				return nil
			}
			v, err := parse(s)
			if err != nil {
				return x.Exclude("parser rejects (acceptance is C01)")
			}
			x.Interesting(size(r.conf) >= 3)
			x.Label("multi-byte characters", has(s, "é", "日"))
			x.Label("carriage returns", has(s, "\r"))
			got := fromAST(v)
			if d := confDiff(r.conf, got, cmpOpt{}); d != "" {
				return x.Exclude("tree differs (content is C02)")
			}
			if d := confDiff(r.conf, got, cmpOpt{pos: true}); d != "" {
				return viol("text %q\nexpected versus parsed tree: %s", s, d)
			}
			if p := v.Pos(); p.Line != 1 || p.Column != 1 || p.Offset != 0 {
				return viol("configuration at %v", p)
			}
			return nil
		}, cases(55000, 2500000), siteTexts(2, 5), sizeTexts(1), smallTexts(2, 3, true), farTexts(1, false))

	reg("C05", textRule+"; non-trivial: at least one kept comment",
		func(t *rapid.T) textCase {
			st := genStyle(t)
			if st.kept == 0 {
				st.kept = 50
			}
			return textCase{Txt(render(t, genDoc(t, 16), st))}
		}, checkC05, cases(50000, 2000000), siteTexts(1, 0), sizeTexts(1), smallTexts(2, 3, true), farTexts(2, false), corpus(
			textCase{"# a\ninput {}\n# b\ninput {}\n"}, textCase{"# a\n\ninput {}\n# b\n\nfilter {}\n"}, textCase{"input { \n\n # c\n a {} }"},
			textCase{"output {}\n # x\n\ninput {}\n#f"}))
}
