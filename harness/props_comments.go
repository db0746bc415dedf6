package main

import (
	"strings"

	config "github.com/breml/logstash-config"
	"pgregory.net/rapid"
)

func allComments(c *Conf) []string {
	var r []string
	c.walk(func(n *N) {
		r = append(r, cmtTexts(n.C)...)
		r = append(r, cmtTexts(n.F)...)
	})
	return append(r, cmtTexts(c.F)...)
}

func checkC05(x *Ctx, c textCase) error {
	s := c.Text.s()
	r, ok := x.accepted(s, refOpts{})
	if !ok {
		return nil
	}
	if r.conf.sections() == 0 {
		return x.Exclude("no section")
	}
	v, err := parse(s)
	if err != nil {
		return x.Exclude("parser rejects (acceptance is C01)")
	}
	got := fromAST(v)
	if confDiff(r.conf, got, cmpOpt{}) != "" {
		return x.Exclude("tree differs (content is C02)")
	}
	cs := allComments(r.conf)
	x.Interesting(len(cs) > 0)
	x.Label("carriage returns", strings.Contains(s, "\r"))
	r.conf.walk(func(n *N) {
		if len(n.C) > 0 {
			x.Label("comment on " + n.K)
		}
		if len(n.F) > 0 {
			x.Label("footer comment in " + n.K)
		}
		for _, k := range n.C {
			x.Label("blank line before comment", k.Before)
			x.Label("blank line after comment", k.After)
		}
	})
	x.Label("footer comment of file", len(r.conf.F) > 0)
	if d := confDiff(r.conf, got, cmpOpt{comments: true, spacing: true}); d != "" {
		return viol("text %q\nexpected versus parsed comments: %s", s, d)
	}
	// each kept comment stands on a line of its own in the output
	out := v.String()
	lines := map[string]int{}
	for _, l := range strings.Split(out, "\n") {
		lines[strings.TrimLeft(l, " ")]++
	}
	for _, k := range cs {
		l := "# " + k
		if lines[l] == 0 {
			return viol("text %q\ncomment %q has no line of its own in the output %q", s, k, out)
		}
		lines[l]--
	}
	return nil
}

func deleteSpans(s string, spans [][2]int) string {
	var b strings.Builder
	at := 0
	for _, sp := range spans {
		if sp[0] < at {
			continue
		}
		b.WriteString(s[at:sp[0]])
		at = sp[1]
	}
	b.WriteString(s[at:])
	return b.String()
}

func init() {
	lossyText := func(t *rapid.T) textCase {
		st := triviaStyle{kept: []int{0, 20}[intn(t, 2, "keptComments")], lossy: []int{15, 50, 100}[intn(t, 3, "lostComments")]}
		return textCase{Txt(render(t, genDoc(t, 14), st))}
	}
	reg("C06", textRule+", with many comments in places where they are lost; non-trivial: at least one such comment",
		lossyText, func(x *Ctx, c textCase) error {
			s := c.Text.s()
			r, ok := x.accepted(s, refOpts{warn: true})
			if !ok {
				return nil
			}
			on, err1 := parse(s, config.ExceptionalCommentsWarning(true))
			off, err2 := parse(s)
			dis, err3 := parse(s, config.ExceptionalCommentsWarning(false))
			if (err1 == nil) != (err2 == nil) || (err2 == nil) != (err3 == nil) {
				return viol("text %q: warnings change the verdict: %v / %v / %v", s, err1, err2, err3)
			}
			if err1 != nil {
				return x.Exclude("parser rejects (acceptance is C01)")
			}
			x.Interesting(r.lost > 0)
			x.Label("several warnings", len(r.conf.Warnings) > 1)
			x.Label("lost comment in a condition", r.condLost)
			x.Label("kept comments too", len(allComments(r.conf)) > 0)
			if len(off.Warnings) != 0 || len(dis.Warnings) != 0 {
				return viol("text %q: warnings without the option: %q %q", s, off.Warnings, dis.Warnings)
			}
			if a, b := strings.Join(r.conf.Warnings, "\n"), strings.Join(on.Warnings, "\n"); a != b {
				return viol("text %q\nexpected warnings %q\ngot               %q", s, r.conf.Warnings, on.Warnings)
			}
			o := cmpOpt{pos: true, comments: true, spacing: true}
			if d := confDiff(fromAST(off), fromAST(on), o); d != "" {
				return viol("text %q: the option changes the tree: %s", s, d)
			}
			if d := confDiff(fromAST(off), fromAST(dis), o); d != "" {
				return viol("text %q: the disabled option changes the tree: %s", s, d)
			}
			ig, err := parse(s, config.ExceptionalCommentsWarning(true), config.IgnoreComments(true))
			if err != nil || strings.Join(ig.Warnings, "\n") != strings.Join(on.Warnings, "\n") {
				return viol("text %q: warnings change when regular comments are ignored: %q (%v) instead of %q", s, ig.Warnings, err, on.Warnings)
			}
			return nil
		}, cases(16000, 1500000), siteTexts(2, 0), sizeTexts(5), smallTexts(2, 3, true), farTexts(2, false), enum(func(yield func(textCase)) {
			for i, n := range []int{510, 511, 512, 513, 1022, 1023, 1024, 1025, 2049, 4097, 16385, 33000} {
				kinds := []string{"input # c%d\n{ }\n", "filter { if # c%d\n[a] { } }", "input { a # c%d\n{ } }"}
				yield(textCase{Txt(rep(n, "", fm(kinds[i%3])))})
			}
		}))

	reg("C07", textRule+"; rejected texts only serve to compare verdicts; non-trivial: at least one comment in the text",
		func(t *rapid.T) textCase {
			if intn(t, 8, "mut") == 0 {
				return textCase{Txt(genAnyText(t, 14))}
			}
			st := genStyle(t)
			if st.kept == 0 {
				st.kept = 40
			}
			return textCase{Txt(render(t, genDoc(t, 14), st))}
		}, func(x *Ctx, c textCase) error {
			s := c.Text.s()
			ign, err1 := parse(s, config.IgnoreComments(true))
			norm, err2 := parse(s)
			off, err4 := parse(s, config.IgnoreComments(false))
			if (err1 == nil) != (err2 == nil) || (err2 == nil) != (err4 == nil) {
				return viol("text %q: ignoring comments changes the verdict: %v / %v", s, err1, err2)
			}
			if err1 != nil {
				x.Label("rejected either way")
				x.Interesting(false)
				return nil
			}
			o := cmpOpt{pos: true, comments: true, spacing: true}
			if d := confDiff(fromAST(norm).stripComments(), fromAST(ign), o); d != "" {
				return viol("text %q\ntree without its comments versus tree parsed with comments ignored: %s", s, d)
			}
			if d := confDiff(fromAST(norm), fromAST(off), o); d != "" {
				return viol("text %q\nIgnoreComments(false) changes the tree: %s", s, d)
			}
			r := refParse(s, refOpts{})
			if !r.ok {
				return x.Exclude("parser accepts what the grammar does not (C01)")
			}
			x.Interesting(len(r.cspans) > 0)
			x.Label("comments in lossy places", r.lost > 0)
			bare := deleteSpans(s, r.cspans)
			rb := refParse(bare, refOpts{})
			if !rb.ok || confDiff(r.conf, rb.conf, cmpOpt{}) != "" {
				x.Label("deleting comments changes the grammatical structure")
				return nil
			}
			b, err3 := parse(bare)
			if err3 != nil {
				return viol("text %q is accepted, but not without its comments, %q: %v", s, bare, err3)
			}
			if d := confDiff(fromAST(b), fromAST(ign), cmpOpt{comments: true, spacing: true}); d != "" {
				return viol("text %q: tree of the text without comments versus tree with comments ignored: %s", s, d)
			}
			if b.String() != ign.String() {
				return viol("text %q: output %q without comments, %q with ignored comments", s, b.String(), ign.String())
			}
			return nil
		}, cases(16000, 1500000), siteTexts(2, 0), sizeTexts(5), smallTexts(2, 3, true), farTexts(2, false))
}
