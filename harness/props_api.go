package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"os/exec"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	perrors "github.com/pkg/errors"
	"pgregory.net/rapid"
)

// ---- C11: constructed trees ----

type treeCase struct{ Conf *Conf }

func checkC11(x *Ctx, c treeCase) error {
	tree := toAST(c.Conf)
	out := tree.String()
	x.Interesting(size(c.Conf) >= 3)
	x.shape(c.Conf)
	want := copyConf(c.Conf)
	want.dropNil()
	want.dropEmptyElse()
	v, err := parse(out)
	if err != nil {
		return viol("constructed configuration prints to %q\nwhich is rejected: %v", out, err)
	}
	got := fromAST(v)
	got.dropEmptyElse()
	if d := confDiff(want, got, cmpOpt{comments: true}); d != "" {
		return viol("constructed configuration prints to %q\nconstructed versus parsed tree: %s", out, d)
	}
	// the same without the absent entries, and twice
	if again := tree.String(); again != out {
		return viol("printing twice gives %q\nand %q", out, again)
	}
	absentElse := false
	c.Conf.walk(func(n *N) {
		if n.K == "else" && len(n.Kids) > 0 {
			all := true
			for _, k := range n.Kids {
				all = all && k.K == "nil"
			}
			absentElse = absentElse || all
		}
	})
	// (an else block is printed if it has entries, even if they are all absent)
	if p := toAST(want).String(); p != out && !absentElse {
		return viol("absent entries change the text: %q\nwithout them: %q", out, p)
	}
	return nil
}

// ---- C12: numbers ----

var numberRe = regexp.MustCompile(`^-?[0-9]+(\.[0-9]*)?$`)

type numberCase struct {
	Bits uint64 `json:"bits,omitempty"` // the number
	Lit  string `json:"lit,omitempty"`  // or its literal
}

func genNumberCase(t *rapid.T) numberCase {
	switch intn(t, 6, "numCase") {
	case 0:
		return numberCase{Lit: genNumber(t)}
	case 1:
		return numberCase{Lit: rapid.StringMatching(`-?[0-9]{1,40}(\.[0-9]{0,40})?`).Draw(t, "long")}
	case 2:
		return numberCase{Lit: rapid.StringMatching(`-?0{0,3}\.?0{0,330}`).Draw(t, "zeros") + rapid.StringMatching(`[0-9]{1,20}`).Draw(t, "digits")}
	case 3:
		// a number of any binary exponent
		m := rapid.Uint64Range(0, 1<<52-1).Draw(t, "mantissa")
		e := rapid.Uint64Range(0, 2046).Draw(t, "exponent")
		s := rapid.Uint64Range(0, 1).Draw(t, "sign")
		return numberCase{Bits: s<<63 | e<<52 | m}
	case 4:
		// a decimal fraction: the nearest number to it
		f, _ := strconv.ParseFloat(fmt.Sprintf("%de%d", rapid.IntRange(-99999, 99999).Draw(t, "dec"), rapid.IntRange(-320, 300).Draw(t, "exp10")), 64)
		return numberCase{Bits: math.Float64bits(f)}
	}
	return numberCase{Bits: math.Float64bits(genFloat(t))}
}

func checkC12(x *Ctx, c numberCase) error {
	f := math.Float64frombits(c.Bits)
	lit := c.Lit
	if lit == "" {
		if !finite(f) {
			return x.Exclude("not finite")
		}
		n := ast.NewNumberAttribute("", f)
		lit = n.ValueString()
		if !numberRe.MatchString(lit) {
			return viol("number %v (bits %#x) has the textual form %q", f, c.Bits, lit)
		}
		if got := ast.NewNumberAttribute("n", f).String(); got != "n => "+lit {
			return viol("attribute n with number %v prints as %q, its value as %q", f, got, lit)
		}
	}
	want, err := strconv.ParseFloat(lit, 64)
	if !numberRe.MatchString(lit) || err != nil {
		return x.Exclude("not a number literal in the range of 64-bit floats")
	}
	if c.Lit == "" && want != f {
		return viol("number %v (bits %#x) has the textual form %q, which denotes %v", f, c.Bits, lit, want)
	}
	a := math.Abs(want)
	x.Label("integral", want == math.Trunc(want))
	x.Label("exponent notation in %g", a != 0 && (a < 1e-4 || a >= 1e21))
	x.Label("more than 10 decimals", a != 0 && len(strconv.FormatFloat(a-math.Trunc(a), 'f', -1, 64)) > 12)
	x.Label("denormal", a != 0 && a < 2.3e-308)
	x.Interesting(want != math.Trunc(want) || a > 1e6)
	s := "input { p { a => " + lit + " b => [ " + lit + ", " + lit + " ] c => { " + lit + " => " + lit + " } } } filter { if [x] == " + lit + " or " + lit + " in [ 1, " + lit + " ] { } }"
	for step := 0; step < 4; step++ {
		v, err := parse(s)
		if err != nil {
			return viol("after %d format steps the text %q is rejected: %v", step, s, err)
		}
		n := 0
		var bad error
		fromAST(v).walk(func(k *N) {
			if k.K != "number" {
				return
			}
			n++
			if k.Num != want && !(n == 7+1 && k.Num == 1) {
				bad = viol("after %d format steps number literal %q (%v) has become %v in %q", step, lit, want, k.Num, s)
			}
		})
		if bad != nil {
			return bad
		}
		if n != 9 {
			return viol("after %d format steps %d of 9 numbers are left in %q", step, n, s)
		}
		s = v.String()
	}
	return nil
}

// ---- C13: escape ----

type strCase struct {
	S Txt
	Q string `json:"q,omitempty"` // quote style: " or ' or empty (bareword)
}

var escAtoms = []string{`\`, `\`, `\\`, `"`, `'`, "\n", "\r", "\t", "n", "r", "t", "a", " ", "é", "日", "😀", "\xff", "\xc3", "\x00", "/", "x", "\u2028", "0", "\v", "\u0085", "\ufffd", `\n`, `\"`, "\x7f", "_", "Z", "9", "-", "\u0301"}

func genEsc(t *rapid.T) string {
	if intn(t, 6, "escKind") == 0 {
		return string(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes"))
	}
	n := intn(t, 9, "escLen")
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(escAtoms[intn(t, len(escAtoms), "escAtom")])
	}
	return b.String()
}

func genQuoteCase(t *rapid.T) strCase {
	s := genEsc(t)
	if k := intn(t, 6, "words"); k == 0 {
		s = genBareword(t)
	} else if k == 1 {
		s = rapid.StringMatching(`[A-Za-z0-9_é-]{0,5}`).Draw(t, "barish")
	} else if k == 2 {
		s = genStrBody(t, '"', 4)
	}
	return strCase{Txt(s), pick(t, "style", `"`, `'`, ``)}
}

// refUnescape follows the escape table from left to right.
func refUnescape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' || i+1 == len(s) {
			b.WriteByte(s[i])
			continue
		}
		switch s[i+1] {
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case '\\', '"', '\'':
			b.WriteByte(s[i+1])
		default:
			b.WriteByte('\\')
			b.WriteByte(s[i+1])
		}
		i++
	}
	return b.String()
}

func checkC13(x *Ctx, c strCase) error {
	s := c.S.s()
	e := astutil.Escape(s)
	x.Interesting(e != s)
	x.Label("invalid UTF-8", !utf8.ValidString(s))
	x.Label("trailing backslash", strings.HasSuffix(s, `\`))
	if u := astutil.Unescape(e); u != s {
		return viol("%q escapes to %q, which unescapes to %q", s, e, u)
	}
	bs := 0
	for i := 0; i < len(e); i++ {
		switch e[i] {
		case '\\':
			bs++
			continue
		case '\n', '\r', '\t':
			return viol("%q escapes to %q, which contains a bare %q", s, e, e[i])
		case '"', '\'':
			if bs%2 == 0 {
				return viol("%q escapes to %q, which contains a bare quote", s, e)
			}
		}
		bs = 0
	}
	if bs%2 == 1 {
		return viol("%q escapes to %q, which ends within an escape sequence", s, e)
	}
	if u, w := astutil.Unescape(s), refUnescape(s); u != w {
		return viol("%q unescapes to %q instead of %q", s, u, w)
	}
	x.Label("unescape changes something", refUnescape(s) != s)
	return nil
}

// ---- C14, C15: quoting ----

var barewordRe = regexp.MustCompile(`\A[A-Za-z_][A-Za-z0-9_]+\z`)

func style(q string) ast.StringAttributeType {
	switch q {
	case `"`:
		return ast.DoubleQuoted
	case `'`:
		return ast.SingleQuoted
	}
	return ast.Bareword
}

// readBack parses a literal as attribute value.
func readBack(lit string) (val string, st ast.StringAttributeType, err error) {
	v, err := parse("input { p { a => " + lit + " z => 1 } }")
	if err != nil {
		return "", 0, err
	}
	if len(v.Input) == 1 && len(v.Input[0].BranchOrPlugins) == 1 {
		if p, ok := v.Input[0].BranchOrPlugins[0].(ast.Plugin); ok && len(p.Attributes) == 2 && p.Attributes[0].Name() == "a" && p.Attributes[1].Name() == "z" {
			if s, ok := p.Attributes[0].(ast.StringAttribute); ok {
				return s.Value(), s.StringAttributeType(), nil
			}
		}
	}
	return "", 0, fmt.Errorf("it is read as something else than one string: %s", v)
}

func checkC14(x *Ctx, c strCase) error {
	s := c.S.s()
	if !utf8.ValidString(s) {
		return x.Exclude("not valid UTF-8")
	}
	lit, err := astutil.Quote(s, style(c.Q))
	exists := barewordRe.MatchString(s)
	if c.Q != "" {
		exists = validBody(s, c.Q[0])
	}
	x.Label("style "+c.Q+" literal exists", exists)
	x.Label("style "+c.Q+" no literal", !exists)
	x.Interesting(len(s) >= 2)
	if err != nil {
		if exists {
			return viol("quoting %q with %q reports %v, although a literal exists", s, c.Q, err)
		}
		return nil
	}
	v, st, err := readBack(lit)
	if err != nil {
		return viol("quoting %q with %q gives %q without error: %v", s, c.Q, lit, err)
	}
	if v != s || st != style(c.Q) {
		return viol("quoting %q with %q gives %q, which is read as %q with style %q", s, c.Q, lit, v, st.String())
	}
	return nil
}

func checkC15(x *Ctx, c strCase) error {
	s := c.S.s()
	if !utf8.ValidString(s) {
		return x.Exclude("not valid UTF-8")
	}
	got := astutil.QuoteWithEscape(s, style(c.Q))
	x.Label("style " + c.Q)
	if c.Q == "" {
		var b strings.Builder
		for i, r := range s {
			ok := r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || i > 0 && r >= '0' && r <= '9'
			if ok {
				b.WriteRune(r)
			} else {
				b.WriteByte('_')
			}
		}
		x.Interesting(b.String() != s)
		if got != b.String() {
			return viol("quoting %q as bareword with escaping gives %q instead of %q", s, got, b.String())
		}
		if utf8.RuneCountInString(s) < 2 {
			return nil
		}
		v, st, err := readBack(got)
		if err != nil || v != got || st != ast.Bareword {
			return viol("quoting %q as bareword with escaping gives %q, which is read as %q with style %q, error %v", s, got, v, st.String(), err)
		}
		return nil
	}
	if strings.HasSuffix(s, `\`) {
		return x.Exclude("ends in a backslash")
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == c.Q[0] && (i == 0 || s[i-1] != '\\') {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	want := b.String()
	x.Interesting(want != s)
	x.Label("already escaped quote", strings.Contains(s, `\`+c.Q))
	if got != c.Q+want+c.Q {
		return viol("quoting %q with %q and escaping gives %q instead of %q", s, c.Q, got, c.Q+want+c.Q)
	}
	v, st, err := readBack(got)
	if err != nil {
		return viol("quoting %q with %q and escaping gives %q: %v", s, c.Q, got, err)
	}
	if v != want || st != style(c.Q) {
		return viol("quoting %q with %q and escaping gives %q, which is read as %q with style %q", s, c.Q, got, v, st.String())
	}
	return nil
}

// ---- C16: traversal ----

type edit struct {
	Op string `json:"op"`          // B insert before, A insert after, R replace, D delete
	N  *N     `json:"n,omitempty"` // what is inserted
}

type walkCase struct {
	Conf    *Conf
	Scripts [][]edit
}

func number(c *Conf) int {
	k := 0
	c.walk(func(n *N) {
		if n.K == "plugin" {
			n.Name = "p" + strconv.Itoa(k)
			k++
		}
	})
	return k
}

func genWalk(t *rapid.T) walkCase {
	c := walkCase{Conf: genConf(t, 5, 18, true)}
	number(c.Conf)
	visits := 0
	countVisits(c.Conf, &visits)
	fresh := 0
	payload := func() *N {
		fresh++
		name := "new" + strconv.Itoa(fresh)
		switch intn(t, 5, "payload") {
		case 0:
			return &N{K: "nil"}
		case 1:
			b := &N{K: "branch", Kids: []*N{{K: "if", Kids: []*N{{K: "condition", Kids: []*N{{K: "rvalue", Kids: []*N{{K: "number", Num: 1}}}}}, {K: "plugin", Name: name}, {K: "nil"}}}}}
			if intn(t, 2, "payloadElse") == 0 {
				b.Kids = append(b.Kids, &N{K: "else", Kids: []*N{{K: "plugin", Name: name + "else"}}})
			}
			return b
		}
		return &N{K: "plugin", Name: name}
	}
	busy := []int{0, 30, 80}[intn(t, 3, "busy")]
	for i := 0; i < visits; i++ {
		var s []edit
		if intn(t, 100, "edits?") < busy {
			for k := small(t, "inserts"); k > 0; k-- {
				s = append(s, edit{pick(t, "ins", "A", "B"), payload()})
			}
			switch intn(t, 4, "last") {
			case 0:
				s = append(s, edit{"D", nil})
			case 1:
				s = append(s, edit{"R", payload()})
			}
		}
		c.Scripts = append(c.Scripts, s)
	}
	return c
}

// modelWalk applies the scripts to a list, in document order.
func modelWalk(list []*N, next *int, scripts [][]edit, visited *[]*N) []*N {
	var out []*N
	for _, n := range list {
		if n.K == "branch" {
			for _, k := range n.Kids {
				if k.K == "else" {
					k.Kids = modelWalk(k.Kids, next, scripts, visited)
				} else {
					k.Kids = append([]*N{k.Kids[0]}, modelWalk(k.Kids[1:], next, scripts, visited)...)
				}
			}
			out = append(out, n)
			continue
		}
		*visited = append(*visited, n)
		var s []edit
		if *next < len(scripts) {
			s = scripts[*next]
		}
		*next++
		var before, after []*N
		cur := []*N{n}
		for _, e := range s {
			switch e.Op {
			case "B":
				before = append(before, e.N.copy())
			case "A":
				after = append([]*N{e.N.copy()}, after...)
			case "R":
				cur = []*N{e.N.copy()}
			case "D":
				cur = nil
			}
		}
		out = append(out, before...)
		out = append(out, cur...)
		out = append(out, after...)
	}
	return out
}

func countVisits(c *Conf, k *int) {
	cp := copyConf(c)
	var vis []*N
	for g := range cp.Groups {
		for _, s := range cp.Groups[g] {
			modelWalk(s.Kids, k, nil, &vis)
		}
	}
}

func checkC16(x *Ctx, c walkCase) error {
	tree := toAST(c.Conf)
	model := copyConf(c.Conf)
	var visited []*N
	k := 0
	edits := 0
	for _, s := range c.Scripts {
		edits += len(s)
	}
	for g := range model.Groups {
		for _, s := range model.Groups[g] {
			s.Kids = modelWalk(s.Kids, &k, c.Scripts, &visited)
		}
	}
	x.Interesting(edits > 0 && len(visited) > 1)
	x.Label("nothing to visit", len(visited) == 0)
	x.Label("edits", edits > 0)
	x.Label(">=5 edits", edits >= 5)

	at := 0
	var bad error
	fail := func(format string, a ...any) {
		if bad == nil {
			bad = viol("visit %d: "+format, append([]any{at}, a...)...)
		}
	}
	callback := func(cur *astutil.Cursor) {
		if bad != nil {
			return
		}
		if at >= len(visited) {
			fail("one visit too many")
			return
		}
		want := visited[at]
		describe := func(when string) {
			p := cur.Plugin()
			i, par := cur.Index(), cur.Parent()
			if want.K == "nil" {
				if p != nil {
					fail("%s: expected an absent plugin, cursor is at %q", when, p.Name())
				}
			} else if p == nil || p.Name() != want.Name {
				fail("%s: expected plugin %q, cursor is at %v", when, want.Name, p)
			}
			if i < 0 || i >= len(par) {
				fail("%s: index %d of %d", when, i, len(par))
			} else if want.K == "nil" {
				if par[i] != nil {
					fail("%s: parent's element %d is %v instead of nil", when, i, par[i])
				}
			} else if pp, ok := par[i].(ast.Plugin); !ok || pp.Name() != want.Name {
				fail("%s: parent's element %d is %v instead of %q", when, i, par[i], want.Name)
			}
		}
		describe("at start")
		if at < len(c.Scripts) {
			for j, e := range c.Scripts[at] {
				if bad != nil {
					return
				}
				switch e.Op {
				case "B":
					cur.InsertBefore(bbop(e.N))
					describe(fmt.Sprintf("after edit %d (insert before)", j))
				case "A":
					cur.InsertAfter(bbop(e.N))
					describe(fmt.Sprintf("after edit %d (insert after)", j))
				case "R":
					cur.Replace(bbop(e.N))
				case "D":
					cur.Delete()
				}
			}
		}
		at++
	}
	for _, ss := range [][]ast.PluginSection{tree.Input, tree.Filter, tree.Output} {
		for i := range ss {
			ss[i].BranchOrPlugins = astutil.ApplyPlugins(ss[i].BranchOrPlugins, callback)
		}
	}
	if bad != nil {
		return bad
	}
	if at != len(visited) {
		return viol("%d visits instead of %d", at, len(visited))
	}
	want, got := fromAST(toAST(model)), fromAST(tree)
	if d := confDiff(want, got, cmpOpt{comments: true, spacing: true, pos: true}); d != "" {
		return viol("expected versus resulting tree: %s", d)
	}
	return nil
}

// ---- C17: ids ----

type idCase struct{ Plugin *N }

func genIDCase(t *rapid.T) idCase {
	g := &treeGen{t: t, fuel: 12, comments: 20, nils: true}
	p := g.plugin(0)
	for i := small(t, "ids"); i > 0; i-- {
		a := g.value(3, true)
		a.Name = pick(t, "idName", "id", "id", `"id"`, `'id'`, "Id", "ids", `"i"`, `"'id'"`, "_id", `" id"`, `"ID"`, `""id""`, "'id\"", "i", `""`)
		if !strings.ContainsAny(a.Name[:1], `"'`) || len(a.Name) > 2 && validBody(a.Name[1:len(a.Name)-1], a.Name[0]) && a.Name[0] == a.Name[len(a.Name)-1] {
			at := intn(t, len(p.Kids)+1, "idAt")
			p.Kids = append(p.Kids[:at:at], append([]*N{a}, p.Kids[at:]...)...)
		}
	}
	return idCase{p}
}

// refID finds the id of a plugin.
func refID(p *N) (id string, found, isString bool) {
	for _, a := range p.Kids {
		if a.K == "nil" {
			continue
		}
		if a.Name == "id" || a.Name == `"id"` || a.Name == `'id'` {
			if a.K != "string" {
				return "", true, false
			}
			v := a.Val
			if len(v) > 1 && (v[0] == '"' || v[0] == '\'') {
				v = v[1 : len(v)-1]
			}
			return v, true, true
		}
	}
	return "", false, false
}

func checkC17(x *Ctx, c idCase) error {
	id, found, isStr := refID(c.Plugin)
	p := bplugin(c.Plugin)
	if found && isStr {
		x.Label("string id")
	} else if found {
		x.Label("other id")
	} else {
		x.Label("no id")
	}
	x.Interesting(len(c.Plugin.Kids) >= 2)
	test := func(p ast.Plugin, what string) error {
		got, err := p.ID()
		switch {
		case found && isStr:
			if err != nil || got != id {
				return viol("%s: id is %q, error %v instead of %q: %s", what, got, err, id, p)
			}
		case found:
			if err == nil || ast.IsNotFoundError(err) {
				return viol("%s: first id attribute is not a string, but ID gives %q, error %v (not found: %v): %s", what, got, err, err != nil, p)
			}
		default:
			if err == nil || !ast.IsNotFoundError(err) || !strings.Contains(err.Error(), p.Name()) {
				return viol("%s: no id attribute, but ID gives %q, error %v: %s", what, got, err, p)
			}
		}
		return nil
	}
	if err := test(p, "constructed plugin"); err != nil {
		return err
	}
	// the same plugin read from text
	cp := c.Plugin.copy()
	var kids []*N
	for _, k := range cp.Kids {
		if k.K != "nil" {
			kids = append(kids, k)
		}
	}
	cp.Kids = kids
	v, err := parse("input {\n" + bplugin(cp).String() + "}\n")
	if err != nil || len(v.Input) != 1 || len(v.Input[0].BranchOrPlugins) != 1 {
		return nil // C11
	}
	q, ok := v.Input[0].BranchOrPlugins[0].(ast.Plugin)
	if !ok {
		return nil
	}
	x.Label("also parsed")
	return test(q, "parsed plugin")
}

// ---- C18: not-found errors ----

// errStep is one layer around an error.
type errStep struct {
	Op   string    `json:"op"`
	Msg  string    `json:"msg,omitempty"`
	With []errSpec `json:"with,omitempty"` // further errors joined
	At   int       `json:"at,omitempty"`   // position among them
}

// errSpec describes an error: a leaf and the layers around it, innermost first.
type errSpec struct {
	Leaf  string    `json:"leaf"`
	Msg   string    `json:"msg,omitempty"`
	Steps []errStep `json:"steps,omitempty"`
}

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

type wrapErr struct{ inner error }

func (e wrapErr) Error() string { return "wrap: " + e.inner.Error() }
func (e wrapErr) Unwrap() error { return e.inner }

type multiErr struct{ es []error }

func (e *multiErr) Error() string   { return fmt.Sprint("multi: ", e.es) }
func (e *multiErr) Unwrap() []error { return e.es }

type opaqueErr struct{ inner error }

func (e opaqueErr) Error() string { return "opaque: " + e.inner.Error() }

type ownNotFound struct{ s string }

func (e ownNotFound) Error() string { return e.s }
func (e ownNotFound) NotFound()     {}

type almostNotFound struct{ s string }

func (e almostNotFound) Error() string  { return e.s }
func (e almostNotFound) NotFound() bool { return true }

// build makes the error and tells whether a not-found error is in its chain.
func (s errSpec) build() (err error, notFound bool) {
	switch s.Leaf {
	case "nil":
	case "plain":
		err = &plainErr{s.Msg}
	case "errors.New":
		err = errors.New(s.Msg)
	case "notfoundf":
		err, notFound = ast.NotFoundErrorf("%s", s.Msg), true
	case "notfoundf-wrapping":
		err, notFound = ast.NotFoundErrorf("%w", errors.New(s.Msg)), true
	case "own":
		err, notFound = ownNotFound{s.Msg}, true
	case "almost":
		err = almostNotFound{s.Msg}
	case "notExist":
		err = os.ErrNotExist
	case "open":
		_, err = os.Open("/nonexistent/x")
	case "eof":
		err = io.EOF
	case "canceled":
		err = context.Canceled
	case "deadline":
		err = context.DeadlineExceeded
	case "noent":
		err = syscall.ENOENT
	case "lookpath":
		err = exec.ErrNotFound
	case "dns":
		err = &net.DNSError{Err: "no such host", Name: "x", IsNotFound: true}
	case "parse":
		_, err = parse("input {" + s.Msg)
	case "number":
		_, err = strconv.Atoi("x" + s.Msg)
	case "plugin":
		_, err = ast.NewPlugin("x" + s.Msg).ID()
		notFound = true
	case "pluginNotString":
		_, err = ast.NewPlugin("x"+s.Msg, ast.NewNumberAttribute("id", 1)).ID()
	}
	for _, st := range s.Steps {
		if st.Op == "notfound" {
			if err == nil {
				err = ast.NewNotFoundError(nil)
				continue
			}
			err, notFound = ast.NewNotFoundError(err), true
			continue
		}
		if err == nil {
			continue
		}
		all, nf := []error{}, notFound
		for _, w := range st.With {
			if e, n := w.build(); e != nil {
				all = append(all, e)
				nf = nf || n
			}
		}
		at := st.At % (len(all) + 1)
		all = append(all[:at:at], append([]error{err}, all[at:]...)...)
		switch st.Op {
		case "%w":
			err = fmt.Errorf(strings.ReplaceAll(st.Msg, "%", "%%")+": %w", err)
		case "%w%w":
			if len(all) > 1 {
				// only the first two
				var n0, n1 bool
				n0, n1 = isNF(all[0]), isNF(all[1])
				err, notFound = fmt.Errorf("%w and %w", all[0], all[1]), n0 || n1
			} else {
				err = fmt.Errorf("%w", err)
			}
		case "%v":
			err, notFound = fmt.Errorf("%v", err), false
		case "join":
			err, notFound = errors.Join(all...), nf
		case "multi":
			err, notFound = &multiErr{all}, nf
		case "wrap":
			err = wrapErr{err}
		case "opaque":
			err, notFound = opaqueErr{err}, false
		case "pkgWrap":
			err = perrors.Wrap(err, st.Msg)
		case "pkgMessage":
			err = perrors.WithMessage(err, st.Msg)
		case "pkgStack":
			err = perrors.WithStack(err)
		}
	}
	return err, notFound
}

// isNF is the oracle on built errors: it walks the chain.
func isNF(err error) bool {
	if err == nil {
		return false
	}
	if _, ok := err.(interface {
		Error() string
		NotFound()
	}); ok {
		return true
	}
	switch u := err.(type) {
	case interface{ Unwrap() error }:
		return isNF(u.Unwrap())
	case interface{ Unwrap() []error }:
		for _, e := range u.Unwrap() {
			if isNF(e) {
				return true
			}
		}
	}
	return false
}

func genErr(t *rapid.T, depth int) errSpec {
	s := errSpec{
		Leaf: pick(t, "leaf", "plain", "plain", "errors.New", "notfoundf", "notfoundf-wrapping", "own", "almost", "plugin", "pluginNotString", "nil",
			"notExist", "open", "eof", "canceled", "deadline", "noent", "lookpath", "dns", "parse", "number"),
		Msg: pick(t, "msg", "", "x", "not found: y", "100%", "%w", "é\n", `"q"`, "%!s"),
	}
	for i := intn(t, 4-depth, "layers"); i > 0; i-- {
		st := errStep{Op: pick(t, "layer", "%w", "%w%w", "%v", "join", "multi", "wrap", "wrap", "opaque", "pkgWrap", "pkgMessage", "pkgStack", "notfound"), Msg: pick(t, "msg", "", "ctx", "not found", "50%")}
		if depth < 2 && (st.Op == "join" || st.Op == "multi" || st.Op == "%w%w") {
			for k := intn(t, 3, "with"); k > 0; k-- {
				st.With = append(st.With, genErr(t, depth+1))
			}
			st.At = intn(t, 3, "at")
		}
		s.Steps = append(s.Steps, st)
	}
	return s
}

func checkC18(x *Ctx, c errSpec) error {
	err, nf := c.build()
	if err == nil {
		x.Label("nil")
		if e := ast.NewNotFoundError(nil); e != nil {
			return viol("a not-found error made from nil is %#v", e)
		}
		if ast.IsNotFoundError(nil) {
			return viol("nil is classified as not-found error")
		}
		if len(c.Steps) > 0 {
			for _, s := range c.Steps {
				if s.Op == "notfound" && err != nil {
					return viol("a not-found error made from nil is %#v", err)
				}
			}
		}
		return nil
	}
	x.Label("not-found in chain", nf)
	x.Label("not-found hidden or absent", !nf)
	x.Interesting(len(c.Steps) > 0)
	if nf != isNF(err) {
		// also an implementation of Unwrap by the not-found error itself may
		// matter, but it cannot change the class of the chain
		return viol("%#v: recipe says %v, its chain of wrapped errors says %v", err, nf, isNF(err))
	}
	if got := ast.IsNotFoundError(err); got != nf {
		return viol("error %q (%s): classified as not-found: %v, not-found error in its chain: %v", err, spec(c), got, nf)
	}
	w := ast.NewNotFoundError(err)
	if !ast.IsNotFoundError(w) {
		return viol("not-found error made from %q is not classified as not-found", err)
	}
	m := err.Error()
	for verb, want := range map[string]string{"%v": m, "%s": m, "%+v": fmt.Sprintf("%+v", err), "%q": inner(m)} {
		if got := fmt.Sprintf(verb, w); !strings.Contains(got, want) {
			return viol("not-found error made from %q (%s) formats with %s to %q, which does not contain %q", err, spec(c), verb, got, want)
		}
	}
	if !strings.Contains(w.Error(), m) {
		return viol("not-found error made from %q has the message %q", m, w.Error())
	}
	if got := ast.NotFoundErrorf("a %s b %d", c.Msg, 7); !strings.Contains(got.Error(), "a "+c.Msg+" b 7") || !ast.IsNotFoundError(got) {
		return viol("NotFoundErrorf gives %q", got)
	}
	return nil
}

func inner(s string) string {
	q := strconv.Quote(s)
	return q[1 : len(q)-1]
}

func spec(c errSpec) string {
	s := c.Leaf
	for _, st := range c.Steps {
		s += " <- " + st.Op
	}
	return s
}

// ---- C29: read-only operations ----

type readCase struct {
	Text Txt      `json:"text,omitempty"`
	Conf *Conf    `json:"conf,omitempty"`
	Turn int      `json:"turn,omitempty"` // lists are reordered in advance
	Ops  []string `json:"ops"`
}

// turn reorders the lists of a tree in place.
func turn(c ast.Config, how int) {
	visitNodes(c, func(n any) {
		switch t := n.(type) {
		case ast.Config:
			reorder(t.Input, how)
			reorder(t.Filter, how)
			reorder(t.Output, how)
		case ast.PluginSection:
			reorder(t.BranchOrPlugins, how)
		case ast.Plugin:
			reorder(t.Attributes, how)
		case ast.ArrayAttribute:
			reorder(t.Attributes, how)
		case ast.HashAttribute:
			reorder(t.Entries, how)
		case ast.Branch:
			reorder(t.ElseIfBlock, how)
			reorder(t.IfBlock.Block, how)
			reorder(t.ElseBlock.Block, how)
		case ast.ElseIfBlock:
			reorder(t.Block, how)
		}
	})
}

func reorder[T any](s []T, how int) {
	if how&1 != 0 {
		slices.Reverse(s)
	}
	if how&2 != 0 && len(s) > 1 {
		s[0], s[1] = s[1], s[0]
	}
}

func genRead(t *rapid.T) readCase {
	var c readCase
	if intn(t, 2, "constructed") == 0 {
		c.Conf = genConf(t, 0, 16, true)
	} else {
		c.Text = Txt(genText(t, 16))
	}
	c.Turn = []int{0, 0, 1, 1, 2, 3}[intn(t, 6, "turn")]
	for i := 1 + intn(t, 6, "ops"); i > 0; i-- {
		c.Ops = append(c.Ops, pick(t, "op", "print", "sections", "nodes", "ids", "positions", "traverse", "comments", "format verbs"))
	}
	return c
}

// visitNodes calls f for every node of a tree.
func visitNodes(c ast.Config, f func(any)) {
	f(c)
	for _, ss := range [][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range ss {
			f(s)
			visitBops(s.BranchOrPlugins, f)
		}
	}
}

func visitBops(bs []ast.BranchOrPlugin, f func(any)) {
	for _, b := range bs {
		switch t := b.(type) {
		case ast.Plugin:
			visitPlugin(t, f)
		case ast.Branch:
			f(t)
			f(t.IfBlock)
			visitCond(t.IfBlock.Condition, f)
			visitBops(t.IfBlock.Block, f)
			for _, e := range t.ElseIfBlock {
				f(e)
				visitCond(e.Condition, f)
				visitBops(e.Block, f)
			}
			f(t.ElseBlock)
			visitBops(t.ElseBlock.Block, f)
		}
	}
}

func visitPlugin(p ast.Plugin, f func(any)) {
	f(p)
	for _, a := range p.Attributes {
		visitAttr(a, f)
	}
}

func visitAttr(a ast.Attribute, f func(any)) {
	if a == nil {
		return
	}
	f(a)
	switch t := a.(type) {
	case ast.ArrayAttribute:
		for _, e := range t.Attributes {
			visitAttr(e, f)
		}
	case ast.HashAttribute:
		for _, e := range t.Entries {
			f(e)
			if k, ok := e.Key.(ast.Attribute); ok {
				visitAttr(k, f)
			}
			visitAttr(e.Value, f)
		}
	case ast.PluginAttribute:
		visitPlugin(t.Value(), f)
	}
}

func visitCond(c ast.Condition, f func(any)) {
	f(c)
	for _, e := range c.Expression {
		if e == nil {
			continue
		}
		f(e)
		switch t := e.(type) {
		case ast.ConditionExpression:
			visitCond(t.Condition, f)
		case ast.NegativeConditionExpression:
			visitCond(t.Condition, f)
		case ast.InExpression:
			f(t.LValue)
			f(t.RValue)
		case ast.NotInExpression:
			f(t.LValue)
			f(t.RValue)
		case ast.NegativeSelectorExpression:
			f(t.Selector)
		case ast.RvalueExpression:
			f(t.RValue)
		case ast.CompareExpression:
			f(t.LValue)
			f(t.CompareOperator)
			f(t.RValue)
		case ast.RegexpExpression:
			f(t.LValue)
			f(t.RegexpOperator)
			f(t.RValue)
		}
	}
}

func (c readCase) tree() (ast.Config, error) {
	if c.Conf != nil {
		return toAST(c.Conf), nil
	}
	return parse(c.Text.s())
}

// observe runs one read-only operation and returns what it saw.
func observe(tree ast.Config, op string) string {
	var b strings.Builder
	switch op {
	case "print":
		b.WriteString(tree.String())
	case "sections":
		for _, ss := range [][]ast.PluginSection{tree.Output, tree.Filter, tree.Input} {
			for _, s := range ss {
				b.WriteString(s.String())
			}
		}
	case "nodes":
		visitNodes(tree, func(n any) {
			if s, ok := n.(fmt.Stringer); ok {
				b.WriteString(s.String() + "\x00")
			}
			if a, ok := n.(ast.Attribute); ok {
				b.WriteString(a.Name() + a.ValueString() + "\x00")
			}
		})
	case "ids":
		visitNodes(tree, func(n any) {
			if p, ok := n.(ast.Plugin); ok {
				id, err := p.ID()
				fmt.Fprintln(&b, id, err)
			}
		})
	case "positions":
		visitNodes(tree, func(n any) {
			if p, ok := n.(ast.Node); ok {
				fmt.Fprintln(&b, p.Pos())
			}
		})
	case "comments":
		visitNodes(tree, func(n any) {
			if a, ok := n.(ast.Attribute); ok {
				b.WriteString(a.CommentBlock())
			}
		})
	case "traverse":
		for _, ss := range [][]ast.PluginSection{tree.Input, tree.Filter, tree.Output} {
			for _, s := range ss {
				r := astutil.ApplyPlugins(s.BranchOrPlugins, func(c *astutil.Cursor) {
					fmt.Fprintln(&b, c.Index(), len(c.Parent()))
					if p := c.Plugin(); p != nil {
						fmt.Fprintln(&b, p.Name(), p.Pos())
					}
				})
				fmt.Fprintln(&b, len(r))
				s.BranchOrPlugins = r
				b.WriteString(s.String())
			}
		}
	case "format verbs":
		fmt.Fprintf(&b, "%v %s %q", tree, tree, tree)
	}
	return b.String()
}

func checkC29(x *Ctx, c readCase) error {
	a, err := c.tree()
	b, err2 := c.tree()
	if err != nil || err2 != nil {
		return x.Exclude("parser rejects (acceptance is C01)")
	}
	turn(a, c.Turn)
	turn(b, c.Turn)
	x.Label("lists reordered", c.Turn != 0)
	full := cmpOpt{pos: true, comments: true, spacing: true, warnings: true}
	before := fromAST(b)
	text := b.String()
	x.Interesting(size(before) >= 3)
	x.Label("constructed", c.Conf != nil)
	if d := confDiff(fromAST(a), before, full); d != "" {
		return viol("the same input gives different trees, or printing changes one: %s", d)
	}
	seen := map[string]string{}
	for i, op := range c.Ops {
		x.Label("op " + op)
		o := observe(a, op)
		if p, ok := seen[op]; ok && p != o {
			return viol("operation %q gave %q and later %q", op, p, o)
		}
		seen[op] = o
		if d := confDiff(fromAST(a), before, full); d != "" {
			return viol("after operations %v the tree has changed: %s", c.Ops[:i+1], d)
		}
	}
	if p := a.String(); p != text {
		return viol("after operations %v the tree prints as %q instead of %q", c.Ops, p, text)
	}
	for op, o := range seen {
		if p := observe(b, op); p != o {
			return viol("operation %q on an equal tree gives %q instead of %q", op, p, o)
		}
	}
	return nil
}

// sizedQuotes has something special behind up to a thousand characters.
func sizedQuotes(yield func(strCase)) {
	small := sizedStrs(300, nil, []string{`"`, `'`, ``}, []string{`"`, `'`, `\\`, `\"`, `\'`, "\n", "é", "9", "-", "_", "日", "", " "})
	large := sizedStrs(-1, sizes(1100, 2047, 2048, 2049, 4095, 4096, 4097)[301:], []string{`"`, `'`, ``}, []string{`"`, `'`, `\"`, "é", "", " "})
	small(yield)
	large(yield)
}

func init() {
	reg("C11", "configurations assembled with the public constructors: every node type, any nesting the grammar admits, valid names and literals, comments, absent (nil) entries in blocks, attribute lists, arrays and conditions; non-trivial: at least three nodes",
		func(t *rapid.T) treeCase { return treeCase{genConf(t, 0, 22, true)} }, checkC11, cases(70000, 2500000), enum(sizedTrees))
	reg("C12", "finite 64-bit floats over all binary exponents, decimal fractions over all decimal exponents, edge values, and number literals of up to 350 digits, each placed as attribute, array element, hash key, hash value and condition operand and formatted four times; non-trivial: not integral or above 1e6",
		genNumberCase, checkC12, cases(30000, 1500000), corpus(numberCase{Lit: "0.00000000001"}, numberCase{Bits: math.Float64bits(5e-324)}, numberCase{Bits: math.Float64bits(-1.7976931348623157e308)}))
	reg("C13", "strings over backslashes, quotes, control characters, escape letters, multi-byte characters and invalid bytes, and arbitrary bytes; non-trivial: escaping changes the string",
		func(t *rapid.T) strCase { return strCase{S: Txt(genEsc(t))} }, checkC13, cases(1500000, 20000000), enum(sizedStrs(1100, []int{2047, 2048, 2049, 4095, 4096, 4097, 8192, 16384, 65535, 65536}, []string{""}, escAtoms)), corpus(strCase{S: `\`}, strCase{S: `\\n`}, strCase{S: "\\\n"}, strCase{S: `\é`}))
	reg("C14", "values over quotes, backslashes, control, multi-byte and ordinary characters, barewords and near-barewords, with each quote style; non-trivial: at least two bytes",
		genQuoteCase, checkC14, cases(500000, 6000000), enum(sizedQuotes), corpus(strCase{`"`, `"`}, strCase{`a"`, `"`}, strCase{`'b`, `'`}, strCase{`a\`, `'`}, strCase{`a\\`, `"`}, strCase{"a\n", ``}, strCase{"a", ``}, strCase{"", `"`}))
	reg("C15", "values over quotes, backslashes, control, multi-byte and ordinary characters, barewords and near-barewords, with each quote style; values ending in a backslash are excluded for quoted styles; non-trivial: something has to be escaped",
		genQuoteCase, checkC15, cases(500000, 6000000), enum(sizedQuotes), corpus(strCase{`""`, `"`}, strCase{`a""`, `"`}, strCase{`'b`, `'`}, strCase{`"\"`, `"`}, strCase{"9é", ``}, strCase{"é9", ``}, strCase{"__", ``}))
	reg("C16", "trees of plugins, branches and absent entries with one script of inserts and a final replace or delete per visit, whose payloads are plugins, branches or nil; non-trivial: at least two visits and one edit",
		genWalk, checkC16, cases(400000, 6000000), enum(sizedWalks))
	reg("C17", "plugins with arbitrary attributes and up to three attributes whose names are, or resemble, id, of every type and at any position; checked as constructed and after printing and parsing; non-trivial: at least two attributes",
		genIDCase, checkC17, cases(200000, 4000000), enum(sizedIDs))
	reg("C18", "recipes of wrapped errors: leaves (plain, not-found made in every way, foreign not-found types, look-alikes, nil) under up to four layers each of fmt %w, multiple %w, errors.Join, custom Unwrap (one or many), pkg/errors, NewNotFoundError, or opaque layers; non-trivial: at least one layer",
		func(t *rapid.T) errSpec { return genErr(t, 0) }, checkC18, cases(1000000, 20000000), enum(sizedErrs))
	reg("C29", "parsed and constructed trees, in part with reordered lists, under sequences of up to six read-only operations; non-trivial: at least three nodes",
		genRead, checkC29, cases(50000, 1500000), enum(sizedReads))
}
