package main

import (
	"fmt"
	"strings"
)

// Systematic enumeration of sizes: texts with exactly n items of one kind, for
// every small n and around the larger round numbers.
func sizes(upTo int, large ...int) []int {
	var r []int
	for n := 0; n <= upTo; n++ {
		r = append(r, n)
	}
	for _, l := range large {
		if l > upTo {
			r = append(r, l)
		}
	}
	return r
}

var largeSizes = []int{200, 201, 255, 256, 257, 500, 501, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2048, 2049, 4096, 4097}

// rep joins f(0) ... f(n-1).
func rep(n int, sep string, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(f(i))
	}
	return b.String()
}

func fm(f string) func(int) string {
	k := strings.Count(f, "%d")
	return func(i int) string {
		a := make([]any, k)
		for j := range a {
			a[j] = i
		}
		return fmt.Sprintf(f, a...)
	}
}

// letters gives the number i a spelling without digits.
func letters(i int) string {
	s := ""
	for ; ; i /= 26 {
		s = string(rune('a'+i%26)) + s
		if i < 26 {
			return "q" + s
		}
	}
}

// value makes the i-th of a list of different values of all types.
func sizedValue(i int) string {
	switch i % 7 {
	case 0:
		return fmt.Sprint(i)
	case 1:
		return fmt.Sprintf("\"s%d\"", i)
	case 2:
		return fmt.Sprintf("'t%d'", i)
	case 3:
		return letters(i)
	case 4:
		return fmt.Sprintf("[ %d, x%d ]", i, i)
	case 5:
		return fmt.Sprintf("{ k%d => %d }", i, i)
	}
	return fmt.Sprintf("-%d.25", i)
}

type sizedKind struct {
	f    func(n int) string
	most int // larger sizes are left out
}

var sizedKinds = []sizedKind{
	{func(n int) string { return rep(n, "\n", fm("input { p%d {} }")) }, 4097},
	{func(n int) string {
		return rep(n, " ", func(i int) string {
			return []string{"input", "filter", "output"}[i%3] + fmt.Sprintf(" { p%d {} }", i)
		})
	}, 2049},
	{func(n int) string {
		return rep(n, "\n", func(i int) string { return fmt.Sprintf("# c%d\n%s {}", i, []string{"output", "filter", "input"}[i%3]) })
	}, 1026},
	{func(n int) string { return "filter {" + rep(n, " ", fm("p%d {}")) + "}" }, 4097},
	{func(n int) string { return "filter {" + rep(n, " ", fm("'p%d' { \"a\" => '%d' }")) + "}" }, 1026},
	{func(n int) string { return "filter { if [a] {" + rep(n, "\n", fm("p%d {}")) + "} }" }, 1026},
	{func(n int) string { return "filter { if [a] {} else if [b] {" + rep(n, "\n", fm("p%d {}")) + "} }" }, 1026},
	{func(n int) string { return "filter { if [a] {} else {" + rep(n, "\n", fm("p%d {}")) + "} }" }, 1026},
	{func(n int) string { return "filter {" + rep(n, " ", fm("if [a%d] { p%d {} }")) + "}" }, 1026},
	{func(n int) string { return "filter {" + rep(n, " ", fm("if [a%d] {} else { p%d {} }")) + "}" }, 514},
	{func(n int) string {
		return "filter { if [a] { p {} }" + rep(n, " ", fm("else if [a%d] { p%d {} }")) + "}"
	}, 1026},
	{func(n int) string {
		return "filter { if [a] { p {} }" + rep(n, " ", fm("else if [a%d] { p%d {} }")) + " else { q {} } }"
	}, 514},
	{func(n int) string { return "input { p {" + rep(n, " ", fm("a%d => %d")) + "} }" }, 4097},
	{func(n int) string {
		return "input { p {" + rep(n, " ", func(i int) string { return fmt.Sprintf("a%d => %s", i, sizedValue(i)) }) + "} }"
	}, 2049},
	{func(n int) string { return "input { p {" + rep(n, " ", fm("codec => j%d { a => %d }")) + "} }" }, 514},
	{func(n int) string { return "input { p {" + rep(n, "", fm("# c%d\na%d => %d\n")) + "} }" }, 1026},
	{func(n int) string { return "input { p { a => [" + rep(n, ",", fm("%d")) + "] } }" }, 4097},
	{func(n int) string { return "input { p { a => [ " + rep(n, ", ", sizedValue) + " ] } }" }, 2049},
	{func(n int) string { return "input { p { a => [" + rep(n, ",\n", fm("# c%d\n%d")) + "] } }" }, 1026},
	{func(n int) string { return "input { p { a => [" + rep(n, ",", fm("\"e%d\"")) + "] } }" }, 1026},
	{func(n int) string { return "input { p { a => {" + rep(n, " ", fm("k%d => %d")) + "} } }" }, 4097},
	{func(n int) string {
		return "input { p { a => {" + rep(n, " ", func(i int) string {
			k := []string{fmt.Sprint(i), fmt.Sprintf("\"k%d\"", i), fmt.Sprintf("'k%d'", i), "k" + letters(i)}[i%4]
			return k + " => " + sizedValue(i+i/4)
		}) + "} } }"
	}, 2049},
	{func(n int) string { return "input { p { a => {" + rep(n, "", fm("# c%d\nk%d => %d\n")) + "} } }" }, 1026},
	{func(n int) string { return "filter { if [f] and " + rep(n+1, " and ", fm("[a%d]")) + " {} }" }, 2049},
	{func(n int) string {
		return "filter { if [f] " + rep(n, " ", func(i int) string {
			return []string{"and", "or", "xor", "nand"}[i/2%4] + " " + fm([]string{"[a] == %d", "%d in [b]", "\"x%d\" not in [c]", "[d] =~ /%d/", "! [e%d]", "! ([f%d])", "([g%d] or 1)"}[i%7])(i)
		}) + " {} }"
	}, 1026},
	{func(n int) string { return "filter { if 1 in [ 0" + rep(n, "", fm(", %d")) + " ] {} }" }, 2049},
	{func(n int) string { return "filter { if [a] == [ 0" + rep(n, "", fm(", \"%d\"")) + " ] {} }" }, 1026},
	{func(n int) string { return "filter { if [a]" + rep(n, "", fm("[b%d]")) + " {} }" }, 4097},
	{func(n int) string { return "filter { if 1 in [a]" + rep(n, "", fm("[b%d]")) + " {} }" }, 514},
	// comments and blank lines
	{func(n int) string { return rep(n, "", fm("# c%d\n")) + "input {}" }, 2049},
	{func(n int) string { return "input {" + rep(n, "", fm("# c%d\n")) + "}" }, 1026},
	{func(n int) string { return "input {}" + rep(n, "\n", fm("# c%d\n")) }, 1026},
	{func(n int) string { return "input {" + rep(n, "\n\n", fm("# c%d\n")) + "p {} }" }, 514},
	{func(n int) string { return "input { p {" + rep(n, "\n", fm("# c%d\n")) + "a => 1 } }" }, 514},
	{func(n int) string { return "input { p { a => [" + rep(n, "\n", fm("# c%d\n")) + "1 ] } }" }, 514},
	{func(n int) string { return "filter { if [a] {} " + rep(n, "\n", fm("# c%d\n")) + "else {} }" }, 514},
	{func(n int) string { return "filter { if [a] {} else if [b] {" + rep(n, "\n", fm("# c%d\n")) + "} }" }, 514},
	{func(n int) string { return "input { p { a " + rep(n, "\n", fm("# c%d\n")) + "=> 1 } }" }, 1026},
	{func(n int) string { return "input { p {" + rep(n, " ", fm("a%d # c%d\n=> 1")) + "} }" }, 513},
	{func(n int) string { return "filter { if [a] " + rep(n, " ", fm("and # c%d\n[b%d]")) + " {} }" }, 513},
	{func(n int) string { return "input { p { a => [ 0" + rep(n, " ", fm("# c%d\n, %d")) + " ] } }" }, 513},
	{func(n int) string { return "input {" + strings.Repeat("\n", n) + "p {} }" }, 4097},
	{func(n int) string { return "input {" + strings.Repeat("\r\n", n) + "p {} }" }, 4097},
	{func(n int) string { return "input {" + strings.Repeat(" ", n) + "p {} }" }, 4097},
	{func(n int) string { return strings.Repeat("\t", n) + "input { p {} }" }, 4097},
	{func(n int) string { return "input { p {} }" + strings.Repeat(" \n", n) }, 2049},
	{func(n int) string { return "# a\n" + strings.Repeat("\n", n) + "# b\ninput {}" }, 1026},
	{func(n int) string { return "input { # a\n" + strings.Repeat(" \n", n) + "# b\n p {} }" }, 514},
	{func(n int) string { return "input { p { a => 1" + strings.Repeat("\n", n) + "# b\n} }" }, 514},
	{func(n int) string {
		return "filter { if" + strings.Repeat(" ", n+1) + "[a] and" + strings.Repeat("\n", n+1) + "[b] {} }"
	}, 514},
	// nesting
	{func(n int) string {
		return "filter {" + rep(n, "", fm("if [a%d] {")) + "p {}" + strings.Repeat("}", n) + "}"
	}, 140},
	{func(n int) string {
		return "filter {" + rep(n, "", fm("if [a%d] { p%d {} } else {")) + "p {}" + strings.Repeat("}", n) + "}"
	}, 140},
	{func(n int) string {
		return "filter {" + rep(n, "", fm("if [a] {} else if [a%d] { p%d {} ")) + "p {}" + strings.Repeat("} else { q {} }", n) + "}"
	}, 100},
	{func(n int) string {
		return "input { p { a => " + rep(n, "", fm("[ %d, ")) + "1" + strings.Repeat("]", n) + "} }"
	}, 140},
	{func(n int) string {
		return "input { p { a => " + rep(n, "", fm("{ k%d => ")) + "\"x\ny\"" + strings.Repeat("}", n) + "} }"
	}, 140},
	{func(n int) string {
		return "input { p { a => " + rep(n, "", fm("[ { k%d => ")) + "{ # c\n }" + strings.Repeat("} ]", n) + "} }"
	}, 140},
	{func(n int) string {
		return "input { p {" + rep(n, "", fm("c => p%d { a => %d ")) + "b => 1" + strings.Repeat("}", n) + "} }"
	}, 140},
	{func(n int) string {
		return "filter { if " + strings.Repeat("(", n) + "[a] == 1" + strings.Repeat(")", n) + " {} }"
	}, 140},
	{func(n int) string {
		return "filter { if " + rep(n, "", fm("([a%d] and ")) + "1 in [b]" + strings.Repeat(" or 2)", n) + " {} }"
	}, 140},
	{func(n int) string {
		return "filter { if " + strings.Repeat("!(", n) + "[a]" + strings.Repeat(")", n) + " {} }"
	}, 140},
	{func(n int) string {
		return "filter { if [a] == " + rep(n, "", fm("[ %d, ")) + "\"x\"" + strings.Repeat("]", n) + " {} }"
	}, 140},
	// lengths of literals and names
	{func(n int) string { return "input { p { a => \"" + ramp(n) + "\" } }" }, 4097},
	{func(n int) string { return "input { p { a => '" + ramp(n) + "' } }" }, 4097},
	{func(n int) string { return "input { p { a => \"" + strings.Repeat("é", n) + "\" b => 1 } }" }, 4097},
	{func(n int) string { return "input { p { a => \"" + strings.Repeat("\\\"", n) + "\" b => 1 } }" }, 4097},
	{func(n int) string { return "input { p { a => \"" + strings.Repeat("x\n", n) + "\" b => 1 } }" }, 2049},
	{func(n int) string { return "input { p { a => \"" + strings.Repeat("x\\", n) + "\\y'\" b => 1 } }" }, 1026},
	{func(n int) string { return "input { p { a => zz" + ramp(n) + " } }" }, 4097},
	{func(n int) string { return "input { p" + ramp(n) + " { } }" }, 4097},
	{func(n int) string { return "input { \"" + ramp(n) + "\" { } }" }, 1026},
	{func(n int) string { return "input { p { a" + ramp(n) + " => 1 } }" }, 4097},
	{func(n int) string { return "input { p { \"" + ramp(n) + "\" => 1 } }" }, 1026},
	{func(n int) string { return "input { p { h => { k" + ramp(n) + " => 1 } } }" }, 4097},
	{func(n int) string { return "filter { if [a" + ramp(n) + "][b] {} }" }, 4097},
	{func(n int) string { return "filter { if \"x\" in [a" + ramp(n) + "] {} }" }, 514},
	{func(n int) string { return "filter { if [a] =~ /" + ramp(n) + "/ {} }" }, 4097},
	{func(n int) string { return "filter { if [a] !~ \"" + ramp(n) + "\" {} }" }, 1026},
	{func(n int) string { return "filter { if \"" + ramp(n) + "\" not in 'x" + ramp(n) + "' {} }" }, 1026},
	{func(n int) string { return "#" + ramp(n) + "\ninput {}" }, 4097},
	{func(n int) string { return "input {}\n#" + strings.Repeat("é", n) }, 2049},
	{func(n int) string { return "input { p { a => 1" + strings.Repeat("0", n) + " } }" }, 300},
	{func(n int) string { return "input { p { a => -0." + strings.Repeat("0", n) + "1 } }" }, 300},
	{func(n int) string { return "input { p { a => 1." + strings.Repeat("3", n) + " } }" }, 1026},
	{func(n int) string { return "input { p { a => " + strings.Repeat("0", n) + "7 } }" }, 1026},
	// one construct far behind the beginning
	{func(n int) string { return "# " + strings.Repeat("x", n*16) + "\ninput { p { a => [ 1, {} ] } }" }, 4097},
	{func(n int) string {
		return "input { p { x => \"" + strings.Repeat("y", n*16) + "\" } } filter { if [a] not in [b] {} else if ! [c] { # c\n } else { q { c => j { } } } }"
	}, 4097},
}

// ramp gives n bytes whose place can be told from their value.
func ramp(n int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		fmt.Fprintf(&b, "%d_", i)
	}
	return b.String()[:n]
}

// sizeTexts makes the sizes available to checks of texts, every n-th in the
// quick tier.
func sizeTexts(n int) optFn {
	return enum(func(yield func(textCase)) {
		y := strided(n, func(s string) { yield(textCase{Txt(s)}) })
		for _, k := range sizedKinds {
			for _, n := range sizes(140, largeSizes...) {
				if n <= k.most {
					y(k.f(n))
				}
			}
		}
		for i, k := range sizedKinds {
			if k.most >= 4097 || i%9 == 4 && k.most >= 1026 {
				y(k.f(65537))
			}
		}
	})
}

// sizedConfs gives trees with exactly n items of one kind.
func sizedConfs(upTo int, large []int, yield func(kind, n int, c *Conf)) {
	for i, k := range sizedKinds {
		for _, n := range sizes(upTo, large...) {
			if n > k.most {
				continue
			}
			if r := refParse(k.f(n), refOpts{}); r.ok {
				yield(i, n, r.conf)
			}
		}
	}
}

func sizedTrees(yield func(treeCase)) {
	sizedConfs(72, []int{100, 127, 128, 129, 255, 256, 257, 513, 1025}, func(kind, n int, c *Conf) { yield(treeCase{c}) })
}

func sizedReads(yield func(readCase)) {
	y := strided(2, yield)
	all := []string{"print", "sections", "nodes", "ids", "positions", "traverse", "comments", "format verbs"}
	sizedConfs(34, []int{64, 65, 129, 257}, func(kind, n int, c *Conf) {
		if c.depth() < 40 {
			y(readCase{Conf: c, Ops: append(append([]string(nil), all[n%len(all):]...), all...), Turn: n % 4})
		}
	})
}

func (c *Conf) depth() int {
	d := 0
	for _, g := range c.Groups {
		for _, s := range g {
			d = max(d, s.depth())
		}
	}
	return d
}

// sizedWalks edits at many visits, at the last one, and at single ones.
func sizedWalks(yield func(walkCase)) {
	sizedConfs(140, []int{255, 256, 257, 513, 1025}, func(kind, n int, c *Conf) {
		number(c)
		visits := 0
		countVisits(c, &visits)
		if visits < 2 && n > 1 {
			return
		}
		fresh := 0
		p := func() *N {
			fresh++
			return &N{K: "plugin", Name: "new" + itoa(fresh)}
		}
		for how := 0; how < 4; how++ {
			s := make([][]edit, visits)
			for i := range s {
				switch how {
				case 0:
					if i == visits-1 || i == n {
						s[i] = []edit{{"B", p()}, {"A", p()}, {"R", p()}}
					}
				case 1:
					s[i] = []edit{{"D", nil}}
				case 2:
					s[i] = []edit{{"A", p()}, {"A", p()}, {"B", p()}, {"B", p()}}
				case 3:
					s[i] = []edit{{"R", p()}}
					if i == 0 || i == visits-1 {
						for k := 0; k < n; k++ {
							s[i] = append(s[i], edit{[]string{"A", "B"}[k/2%2], p()})
						}
						s[i] = append(s[i][1:], edit{"D", nil})
					}
				}
			}
			yield(walkCase{c, s})
		}
	})
}

// sizedIDs has plugins with many attributes and one that may be the id.
func sizedIDs(yield func(idCase)) {
	for _, n := range sizes(140, largeSizes...) {
		if n > 1025 {
			break
		}
		for _, id := range []*N{{K: "string", Name: "id", Val: `"v"`}, {K: "string", Name: `'id'`, Val: `bare`}, {K: "number", Name: "id", Num: 1}, {K: "string", Name: "ids", Val: `"v"`}, {K: "string", Name: "id", Val: `"` + ramp(n) + `"`}, {K: "string", Name: "id" + ramp(n), Val: `"v"`}} {
			for _, at := range []int{0, n / 2, n} {
				p := &N{K: "plugin", Name: "pp"}
				for i := 0; i <= n; i++ {
					if i == at {
						p.Kids = append(p.Kids, id)
					}
					if i < n {
						p.Kids = append(p.Kids, &N{K: "number", Name: "a" + itoa(i), Num: float64(i)})
					}
				}
				yield(idCase{p})
			}
		}
	}
}

// sizedErrs has many layers around an error, and many errors joined.
func sizedErrs(yield func(errSpec)) {
	ops := []string{"%w", "%w%w", "join", "multi", "wrap", "pkgWrap", "pkgMessage", "pkgStack", "notfound", "opaque", "%v"}
	for _, n := range sizes(140, 255, 256, 257, 513) {
		for _, leaf := range []string{"plain", "own", "notfoundf", "plugin", "almost"} {
			for i, op := range ops {
				if op == "pkgStack" && n > 140 {
					continue
				}
				s := errSpec{Leaf: leaf, Msg: "m"}
				mixed := errSpec{Leaf: leaf, Msg: "m"}
				for k := 0; k < n; k++ {
					s.Steps = append(s.Steps, errStep{Op: op, Msg: "c"})
					mixed.Steps = append(mixed.Steps, errStep{Op: ops[:8][(i+k)%8], Msg: "c"})
				}
				yield(s)
				if i < 8 && n <= 140 {
					yield(mixed)
				}
				if op == "join" || op == "multi" {
					for _, at := range []int{0, n / 2, n} {
						j := errStep{Op: op, At: at}
						for k := 0; k < n; k++ {
							j.With = append(j.With, errSpec{Leaf: "plain", Msg: "x"})
						}
						yield(errSpec{Leaf: leaf, Msg: "m", Steps: []errStep{j}})
					}
				}
			}
		}
	}
}

// sizedStrs has something special behind, before and between many characters.
func sizedStrs(upTo int, large []int, styles []string, atoms []string) func(yield func(strCase)) {
	return func(yield func(strCase)) {
		for _, n := range sizes(upTo, large...) {
			for i, a := range atoms {
				q := styles[(i+n)%len(styles)]
				yield(strCase{Txt(strings.Repeat("x", n) + a), q})
				yield(strCase{Txt(strings.Repeat("x", n) + a + "y"), styles[(i+n+1)%len(styles)]})
				if n > 0 && n < 600 {
					yield(strCase{Txt(a + strings.Repeat("x", n)), q})
					yield(strCase{Txt(strings.Repeat(a, n)), q})
					yield(strCase{Txt(strings.Repeat("x"+a, n)), q})
				}
			}
		}
	}
}

func sizedTexts(every, upTo int, large []int, yield func(string)) {
	y := strided(every, yield)
	for _, k := range sizedKinds {
		for _, n := range sizes(upTo, large...) {
			if n <= k.most {
				y(k.f(n))
			}
		}
	}
}

// sizedErrors has an error behind, or in the middle of, many items.
func sizedErrors(yield func(errCase)) {
	i := 0
	sizedTexts(2, 140, []int{255, 256, 257, 1025}, func(s string) {
		i++
		if s == "" {
			return
		}
		yield(errCase{Text: Txt(s[:len(s)-1]), Open: -1})
		yield(errCase{Text: Txt(s + []string{"}", "\xff", " x", "\n#", "{"}[i%5]), Open: -1})
		h := len(s) / 2
		yield(errCase{Text: Txt(s[:h] + []string{"\n}", "é", "=", "\xc3", "\x00"}[i%5] + s[h:]), Open: -1})
	})
}

// manyFiles is a command line with n paths.
func manyFiles(n, how int) cliCase {
	c := cliCase{Write: how%2 == 1, Op: []string{"check", "lint", "format"}[how%3]}
	for i := 0; i < n; i++ {
		f := cliFile{Name: fmt.Sprintf("f%d.conf", i), Kind: "file", Text: Txt(fmt.Sprintf("input { p%d { id=>i%d } }", i, i))}
		switch {
		case how == 2, how == 3 && i == n-1, how == 4 && i%3 == 1:
			f.Text = Txt(fmt.Sprintf("input {} filter { if [a%d] { x { } } }%c", i, "}\n"[i%2]))
		case how == 5 && i%2 == 0:
			f.Kind = []string{"missing", "dir", "link", "loop"}[i/2%4]
		}
		c.Files = append(c.Files, f)
		c.Args = append(c.Args, cliArg{i, []string{"", "./", ""}[(i+n)%3]})
	}
	return c
}

// sizedLint gives files whose ids have long common beginnings, and files with
// many or deeply nested plugins.
func sizedLint() []cliCase {
	var b strings.Builder
	b.WriteString("input {\n")
	for _, n := range sizes(300, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 70000) {
		p := fmt.Sprintf("%d_%s", n, strings.Repeat("x", n))
		fmt.Fprintf(&b, "a { id => \"%s1\" } b { id => \"%s2\" }", p, p)
		if n%5 == 0 {
			fmt.Fprintf(&b, " c { id => '%s1' }", p)
		}
		if n%7 == 0 {
			fmt.Fprintf(&b, " d%s { }", strings.Repeat("y", n))
		}
		b.WriteString("\n")
	}
	b.WriteString("}\n")
	return []cliCase{{Files: []cliFile{{Name: "ids.conf", Kind: "file", Text: Txt(b.String())}}, Args: []cliArg{{0, ""}}}}
}

func sizedCLI(most int, lint bool) optFn {
	return enum(func(yield func(cliCase)) {
		for _, n := range []int{7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1025} {
			for how := 0; how < 6 && n <= most; how++ {
				if n < 60 || (n+how)%2 == 0 {
					yield(manyFiles(n, how))
				}
			}
		}
		if lint {
			for _, c := range sizedLint() {
				yield(c)
			}
		}
		// texts with many items
		for _, n := range []int{2, 12, 33, 65, 129} {
			for at := 0; at < len(sizedKinds); at += 12 {
				c := cliCase{Write: n%3 == 0, Op: []string{"check", "lint", "format"}[at/12%3]}
				for i := at; i < min(at+12, len(sizedKinds)); i++ {
					if s := sizedKinds[i].f(n); n <= sizedKinds[i].most && refParse(s, refOpts{}).ok {
						c.Files = append(c.Files, cliFile{Name: fmt.Sprintf("k%d.conf", i), Kind: "file", Text: Txt(s)})
						c.Args = append(c.Args, cliArg{len(c.Files) - 1, ""})
					}
				}
				yield(c)
			}
		}
	})
}
