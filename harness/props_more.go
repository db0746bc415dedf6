package main

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"pgregory.net/rapid"
)

// ---- C35: lists of options ----

// setting is one option in a list.
type setting struct {
	K string
	V int `json:",omitempty"`
}

type optsCase struct {
	Text, Other Txt
	List        []setting
	Reader      bool `json:",omitempty"`
}

var limitChoices = []uint64{0, 1, 2, 30, 200, 1000, 5000, 20000, math.MaxUint64}

func (s setting) option(st *config.Stats) config.Option {
	switch s.K {
	case "warn":
		return config.ExceptionalCommentsWarning(s.V == 1)
	case "ignore":
		return config.IgnoreComments(s.V == 1)
	case "memo":
		return config.Memoize(s.V == 1)
	case "bytes":
		return config.AllowInvalidUTF8(s.V == 1)
	case "recover":
		return config.Recover(s.V == 1)
	case "debug":
		return config.Debug(s.V == 1)
	case "limit":
		return config.MaxExpressions(limitChoices[s.V])
	case "entry":
		return config.Entrypoint([]string{"", "no such rule", "Config"}[s.V])
	case "store":
		return config.GlobalStore(fmt.Sprintf("key %d", s.V), s.V)
	case "state":
		return config.InitState(fmt.Sprintf("key %d", s.V), s.V)
	case "stats":
		return config.Statistics(st, fmt.Sprintf("no match %d", s.V))
	}
	harness("unknown option %s", s.K)
	return nil
}

// optionKinds are the kinds with the number of their values, in a fixed order,
// with the value that stands for the default.
var optionKinds = []struct {
	k      string
	n, def int
}{{"warn", 2, 0}, {"ignore", 2, 0}, {"memo", 2, 0}, {"bytes", 2, 0}, {"limit", len(limitChoices), 0}, {"entry", 3, 0}, {"recover", 2, 1}, {"store", 3, -1}, {"state", 3, -1}, {"stats", 2, -1}}

func genOpts(t *rapid.T) optsCase {
	c := optsCase{Text: Txt(genAnyText(t, 8)), Reader: intn(t, 4, "reader") == 0}
	if intn(t, 5, "invalid") == 0 {
		s := c.Text.s()
		k := intn(t, len(s)+1, "invalidAt")
		c.Text = Txt(s[:k] + "\xff" + s[k:])
	}
	if intn(t, 3, "other") == 0 {
		c.Other = Txt(genAnyText(t, 4))
	}
	rec := 1
	focus := optionKinds[intn(t, len(optionKinds), "focus")]
	for n := 1 + intn(t, 12, "options"); n > 0; n-- {
		o := optionKinds[intn(t, len(optionKinds), "kind")]
		if intn(t, 3, "focused") == 0 {
			o = focus
		}
		v := intn(t, o.n, "value")
		if o.k == "entry" && intn(t, 3, "entryDefault") > 0 {
			v = 0
		}
		if o.k == "recover" {
			rec = v
		}
		c.List = append(c.List, setting{o.k, v})
	}
	if rec == 0 { // otherwise errors are raised as panics, as documented
		c.List = append(c.List, setting{"recover", 1})
	}
	return c
}

func checkC35(x *Ctx, c optsCase) error {
	s := c.Text.s()
	parseWith := func(s string, o []config.Option) parsed {
		var v any
		var err error
		if c.Reader {
			v, err = config.ParseReader("test.conf", strings.NewReader(s), o...)
		} else {
			v, err = config.Parse("test.conf", []byte(s), o...)
		}
		return outcomeOf(v, err)
	}
	last := map[string]int{}
	var list []config.Option
	stats := make([]config.Stats, len(c.List))
	lastStats := -1
	repeated := false
	for i, o := range c.List {
		if _, ok := last[o.K]; ok {
			repeated = true
		}
		last[o.K] = o.V
		list = append(list, o.option(&stats[i]))
		if o.K == "stats" {
			lastStats = i
		}
	}
	var plain []config.Option
	var names []string
	for _, k := range optionKinds {
		v, ok := last[k.k]
		if ok && k.def >= 0 && v != k.def {
			plain = append(plain, setting{k.k, v}.option(nil))
			names = append(names, fmt.Sprintf("%s=%d", k.k, v))
		}
	}
	x.Interesting(len(c.List) > 1)
	x.Label("an option is repeated", repeated)
	x.Label("all effective options are defaults", len(plain) == 0)
	want := parseWith(s, plain)
	x.Label("accepted", want.Tree != nil)
	if e, ok := last["entry"]; ok && e != 0 {
		x.Label("unknown entry point")
		if want.Tree != nil || want.Err == "" {
			return viol("text %q with an unknown entry point is accepted", s)
		}
	}
	got := parseWith(s, list)
	if d := want.diff(got); d != "" {
		return viol("text %q: the options %v give another result than the effective ones (%s): %s", s, c.List, strings.Join(names, " "), d)
	}
	if lastStats >= 0 {
		for i := range stats {
			if i != lastStats && stats[i].ExprCnt != 0 {
				return viol("text %q: of the options %v, statistics of option %d are counted, although option %d replaces them", s, c.List, i, lastStats)
			}
		}
		var st config.Stats
		ref := parseWith(s, append(append([]config.Option{}, plain...), config.Statistics(&st, "no match")))
		if d := want.diff(ref); d != "" {
			return viol("text %q: the options %v with statistics: %s", s, names, d)
		}
		if st.ExprCnt != stats[lastStats].ExprCnt {
			return viol("text %q: statistics count %d expressions with the options %v, %d with the effective ones", s, stats[lastStats].ExprCnt, c.List, st.ExprCnt)
		}
		return nil // the counters make a second use of the options different
	}
	// the values may be used again, also after another text
	if c.Other.s() != "" {
		x.Label("used for several texts")
		a, b := parseWith(c.Other.s(), list), parseWith(c.Other.s(), plain)
		if d := b.diff(a); d != "" {
			return viol("text %q: the options %v, used for the second time, give another result than the effective ones (%s): %s", c.Other.s(), c.List, strings.Join(names, " "), d)
		}
	}
	again := parseWith(s, list)
	if d := want.diff(again); d != "" {
		return viol("text %q: the options %v, used again, give another result: %s", s, c.List, d)
	}
	// the default is in effect in a parse without options
	if d := parseWith(s, nil).diff(parseWith(s, []config.Option{config.IgnoreComments(false), config.ExceptionalCommentsWarning(false)})); d != "" {
		return viol("text %q: explicit defaults differ from no options: %s", s, d)
	}
	return nil
}

// ---- C36: trees assembled from parts of parsed texts ----

// graft replaces an element of a list by one of another tree.
type graft struct{ At, El, From int }

type graftCase struct {
	A, B   Txt
	Script [][]pedit `json:",omitempty"` // edits per visit of a plugin
	Grafts []graft   `json:",omitempty"`
	Swaps  []graft   `json:",omitempty"` // exchange elements El and From of list At
	Fields []graft   `json:",omitempty"` // replace a field of a statement
	Append []graft   `json:",omitempty"` // sections: At is the group
}

// pedit is an edit with a statement of the other tree.
type pedit struct {
	Op string
	N  int `json:",omitempty"`
}

// slot is a list in a tree; only elements of lists of the same kind (and both
// first or both not first, if first matters) are exchanged.
type slot struct {
	v    reflect.Value
	kind string
}

func slotsOf(v reflect.Value, inCond bool, out *[]slot) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			slotsOf(v.Elem(), inCond, out)
		}
	case reflect.Struct:
		if p, ok := v.Interface().(ast.PluginAttribute); ok {
			slotsOf(reflect.ValueOf(p.Value()), inCond, out)
		}
		if _, ok := v.Interface().(ast.Condition); ok {
			inCond = true
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() && f.Name != "BoolExpression" && f.Name != "Warnings" {
				slotsOf(v.Field(i), inCond, out)
			}
		}
	case reflect.Slice:
		kind := v.Type().String()
		usable := v.Len() > 0
		if inCond && v.Type() != reflect.TypeFor[[]ast.Expression]() && v.Type() != reflect.TypeFor[[]ast.SelectorElement]() {
			// an array in a condition may read as a selector, depending on its contents
			usable = false
		}
		switch e := v.Interface().(type) {
		case []ast.Attribute:
			if usable && e[0] != nil && e[0].Name() == "" {
				kind += " elements"
			}
		case []ast.PluginSection:
			if usable {
				kind += e[0].PluginType.String()
			}
		}
		if usable {
			*out = append(*out, slot{reflect.ValueOf(v.Interface()), kind}) // not the field, which may be replaced
		}
		for i := 0; i < v.Len(); i++ {
			slotsOf(v.Index(i), inCond, out)
		}
	}
}

func statementsOf(bs []ast.BranchOrPlugin, out *[]ast.BranchOrPlugin) {
	for _, b := range bs {
		*out = append(*out, b)
		if t, ok := b.(ast.Branch); ok {
			statementsOf(t.IfBlock.Block, out)
			for _, e := range t.ElseIfBlock {
				statementsOf(e.Block, out)
			}
			statementsOf(t.ElseBlock.Block, out)
		}
	}
}

func genGraft(t *rapid.T) graftCase {
	text := func() Txt { // comments that are lost are not of interest here
		st := genStyle(t)
		st.lossy = 0
		return Txt(render(t, genDoc(t, 16), st))
	}
	c := graftCase{A: text(), B: text()}
	if intn(t, 5, "same") == 0 {
		c.B = c.A
	}
	g := func() graft {
		return graft{intn(t, 200, "at"), intn(t, 20, "el"), intn(t, 200, "from")}
	}
	if intn(t, 2, "script?") == 0 {
		for n := 1 + intn(t, 8, "visits"); n > 0; n-- {
			var s []pedit
			if intn(t, 3, "edits?") > 0 {
				for k := small(t, "inserts"); k > 0; k-- {
					s = append(s, pedit{pick(t, "ins", "A", "B"), intn(t, 30, "n")})
				}
				switch intn(t, 3, "last") {
				case 0:
					s = append(s, pedit{Op: "D"})
				case 1:
					s = append(s, pedit{"R", intn(t, 30, "n")})
				}
			}
			c.Script = append(c.Script, s)
		}
	}
	for n := intn(t, 6, "grafts"); n > 0; n-- {
		c.Grafts = append(c.Grafts, g())
	}
	for n := intn(t, 4, "swaps"); n > 0; n-- {
		c.Swaps = append(c.Swaps, g())
	}
	for n := intn(t, 4, "fields"); n > 0; n-- {
		c.Fields = append(c.Fields, g())
	}
	for n := small(t, "appends"); n > 0; n-- {
		c.Append = append(c.Append, g())
	}
	return c
}

// mixed returns a statement with a field taken from another one of its kind.
func mixed(a, b ast.BranchOrPlugin, which int) ast.BranchOrPlugin {
	switch t := a.(type) {
	case ast.Plugin:
		o, ok := b.(ast.Plugin)
		if !ok {
			return nil
		}
		switch which % 4 {
		case 0:
			t.Attributes = o.Attributes
		case 1:
			t.Comment = o.Comment
		case 2:
			t.FooterComment = o.FooterComment
		case 3:
			t.Attributes = append(append([]ast.Attribute{}, t.Attributes...), o.Attributes...)
		}
		return t
	case ast.Branch:
		o, ok := b.(ast.Branch)
		if !ok {
			return nil
		}
		switch which % 7 {
		case 0:
			t.IfBlock = o.IfBlock
		case 1:
			t.ElseBlock = o.ElseBlock
		case 2:
			t.IfBlock.Condition = o.IfBlock.Condition
		case 3:
			t.IfBlock.Block = o.IfBlock.Block
		case 4:
			t.IfBlock.Comment = o.IfBlock.Comment
		case 5:
			t.ElseIfBlock = o.ElseIfBlock
		case 6:
			t.ElseBlock.Block = append(append([]ast.BranchOrPlugin{}, t.ElseBlock.Block...), o.IfBlock.Block...)
		}
		return t
	}
	return nil
}

// special tells whether an element of an expression list is the first one, which
// has no operator.
func special(s slot, i int) bool {
	_, ok := s.v.Interface().([]ast.Expression)
	return ok && i == 0
}

func checkC36(x *Ctx, c graftCase) error {
	var trees [2]ast.Config
	for i, s := range []string{c.A.s(), c.B.s()} {
		v, err := parse(s)
		if err != nil {
			return x.Exclude("rejected text")
		}
		if r := refParse(s, refOpts{}); r.condLost && riskyCond(s, r) {
			return x.Exclude("a comment lost inside a condition decides between selector and array")
		}
		trees[i] = v
		named := false
		fromAST(v).walk(func(n *N) { named = named || n.K == "plugin" && strings.HasPrefix(n.Name, "else") })
		if named {
			return x.Exclude("a plugin is named else, which has another meaning behind a branch")
		}
	}
	a, b := trees[0], trees[1]
	kb := dump(b)
	// edits through the cursor, in step with a model
	var pool []ast.BranchOrPlugin
	for _, ss := range [][]ast.PluginSection{b.Input, b.Filter, b.Output} {
		for _, s := range ss {
			statementsOf(s.BranchOrPlugins, &pool)
		}
	}
	edits := 0
	if len(pool) > 0 && len(c.Script) > 0 {
		model := fromAST(a)
		var scripts [][]edit
		for _, s := range c.Script {
			var es []edit
			for _, e := range s {
				edits++
				es = append(es, edit{Op: e.Op, N: cbop(pool[e.N%len(pool)])})
			}
			scripts = append(scripts, es)
		}
		next := 0
		var visited []*N
		for g := range model.Groups {
			for _, s := range model.Groups[g] {
				s.Kids = modelWalk(s.Kids, &next, scripts, &visited)
			}
		}
		at := 0
		for _, ss := range [][]ast.PluginSection{a.Input, a.Filter, a.Output} {
			for i := range ss {
				ss[i].BranchOrPlugins = astutil.ApplyPlugins(ss[i].BranchOrPlugins, func(cur *astutil.Cursor) {
					if at < len(c.Script) {
						for _, e := range c.Script[at] {
							n := pool[e.N%len(pool)]
							switch e.Op {
							case "B":
								cur.InsertBefore(n)
							case "A":
								cur.InsertAfter(n)
							case "R":
								cur.Replace(n)
							case "D":
								cur.Delete()
							}
						}
					}
					at++
				})
			}
		}
		if d := confDiff(model, fromAST(a), cmpOpt{pos: true, comments: true, spacing: true}); d != "" {
			return viol("edits %v of text %q with statements of text %q: model versus tree: %s", c.Script, c.A, c.B, d)
		}
	}
	// elements of lists
	var as, bs []slot
	slotsOf(reflect.ValueOf(a), false, &as)
	var fresh []ast.BranchOrPlugin
	if v, err := parse(c.B.s()); err == nil { // fresh, as the statements inserted above are part of a
		slotsOf(reflect.ValueOf(v), false, &bs)
		for _, ss := range [][]ast.PluginSection{v.Input, v.Filter, v.Output} {
			for _, s := range ss {
				statementsOf(s.BranchOrPlugins, &fresh)
			}
		}
	}
	grafts := 0
	for _, g := range c.Grafts {
		if len(as) == 0 {
			break
		}
		s := as[g.At%len(as)]
		i := g.El % s.v.Len()
		var fit []reflect.Value
		for _, o := range bs {
			if o.kind == s.kind {
				for j := 0; j < o.v.Len(); j++ {
					if special(s, i) == special(o, j) {
						fit = append(fit, o.v.Index(j))
					}
				}
			}
		}
		if len(fit) > 0 {
			s.v.Index(i).Set(fit[g.From%len(fit)])
			x.Label("graft of " + s.kind)
			grafts++
		}
	}
	for _, g := range c.Swaps {
		if len(as) == 0 {
			break
		}
		s := as[g.At%len(as)]
		i, j := g.El%s.v.Len(), g.From%s.v.Len()
		if i != j && special(s, i) == special(s, j) {
			reflect.Swapper(s.v.Interface())(i, j)
			x.Label("exchange of " + s.kind)
			grafts++
		}
	}
	var sts []slot // lists of statements
	for _, s := range as {
		if _, ok := s.v.Interface().([]ast.BranchOrPlugin); ok {
			sts = append(sts, s)
		}
	}
	for _, g := range c.Fields {
		if len(sts) == 0 || len(fresh) == 0 {
			break
		}
		list := sts[g.At%len(sts)].v.Interface().([]ast.BranchOrPlugin)
		i := g.El % len(list)
		from := fresh[g.From%len(fresh)]
		if n := mixed(list[i], from, g.At); n != nil {
			list[i] = n
			x.Label(fmt.Sprintf("field of %T", n))
			grafts++
		}
	}
	for _, g := range c.Append {
		switch g.At % 3 {
		case 0:
			a.Input = append(a.Input, b.Input...)
		case 1:
			a.Filter = append(append([]ast.PluginSection{}, b.Filter...), a.Filter...)
		case 2:
			a.Output = append(a.Output, b.Output...)
		}
		grafts++
	}
	want := fromAST(a)
	if want.sections() == 0 {
		return x.Exclude("no section")
	}
	x.Interesting(edits+grafts > 0 && size(want) >= 3)
	x.Label("edits through the cursor", edits > 0)
	out := a.String()
	v, err := parse(out)
	if err != nil {
		return viol("parts of %q\nand %q\nare assembled into a tree that prints to %q\nwhich is rejected: %v", c.A, c.B, out, err)
	}
	got := fromAST(v)
	want.dropEmptyElse()
	got.dropEmptyElse()
	if d := confDiff(want, got, cmpOpt{comments: true}); d != "" {
		return viol("parts of %q\nand %q\nare assembled into a tree that prints to %q\nassembled versus parsed tree: %s", c.A, c.B, out, d)
	}
	if len(c.Script) == 0 {
		if d := dump(b); d != kb {
			return viol("taking parts of %q changes that tree: %s\n%s", c.B, kb, d)
		}
	}
	var w bytes.Buffer
	fmt.Fprint(&w, a)
	if w.String() != out {
		return viol("the assembled tree prints to %q and to %q", out, w.String())
	}
	return nil
}

func init() {
	reg("C35", "structured and mutated texts, some with invalid UTF-8, parsed under lists of up to twelve options with arbitrary values and repetitions, compared with the shortest list that has the same effect; the list is used again, also after another text; non-trivial: at least two options",
		genOpts, checkC35, cases(40000, 2000000))
	reg("C36", "pairs of texts; statements of the second are inserted into the first through the cursor, elements of lists (statements, attributes, array elements, hash entries, comments, expressions, selector elements, else-if blocks, sections) are replaced by ones of the second or exchanged, fields of statements (blocks, conditions, attributes, comments) are taken over, and sections are appended; non-trivial: at least one edit and three nodes",
		genGraft, checkC36, cases(30000, 1500000))
}
