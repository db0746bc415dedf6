package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/breml/logstash-config/ast"
	"pgregory.net/rapid"
)

// ---- C31: editing one place of a tree ----

type editCase struct {
	Text  Txt
	Built *Conf `json:",omitempty"` // the tree is built through the API instead
	At    int   // which of the slices and operators are edited
	O     popts
}

const markName = "MARKEDBYTHECHECK"

// markers are the elements that edits put into the tree, with the number of
// times their name is seen in the dump of the tree.
var markers = map[reflect.Type]any{
	reflect.TypeFor[ast.BranchOrPlugin]():  ast.NewPlugin(markName),
	reflect.TypeFor[ast.Attribute]():       ast.NewStringAttribute("zz", markName, ast.DoubleQuoted),
	reflect.TypeFor[ast.HashEntry]():       ast.NewHashEntry(ast.NewStringAttribute("", markName, ast.DoubleQuoted), ast.NewNumberAttribute("", 1)),
	reflect.TypeFor[ast.Comment]():         ast.NewComment(markName, false),
	reflect.TypeFor[ast.Expression]():      ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.And}, ast.NewStringAttribute("", markName, ast.DoubleQuoted)),
	reflect.TypeFor[ast.SelectorElement](): ast.NewSelectorElement(markName),
	reflect.TypeFor[ast.ElseIfBlock]():     ast.NewElseIfBlock(ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{}, ast.NewStringAttribute("", markName, ast.DoubleQuoted)))),
	reflect.TypeFor[ast.PluginSection]():   ast.NewPluginSection(ast.Filter, ast.NewPlugin(markName)),
	reflect.TypeFor[string]():              markName,
}

// nthMarker is an element that differs from the ones for other numbers.
func nthMarker(t reflect.Type, i int) any {
	n := fmt.Sprintf("%s%d", markName, i)
	switch markers[t].(type) {
	case ast.Plugin:
		return ast.NewPlugin(n)
	case ast.StringAttribute:
		return ast.NewStringAttribute("zz", n, ast.DoubleQuoted)
	case ast.HashEntry:
		return ast.NewHashEntry(ast.NewStringAttribute("", n, ast.DoubleQuoted), ast.NewNumberAttribute("", 1))
	case ast.Comment:
		return ast.NewComment(n, false)
	case ast.RvalueExpression:
		return ast.NewRvalueExpression(ast.BooleanOperator{Op: ast.And}, ast.NewStringAttribute("", n, ast.DoubleQuoted))
	case ast.SelectorElement:
		return ast.NewSelectorElement(n)
	case ast.ElseIfBlock:
		return ast.NewElseIfBlock(ast.NewCondition(ast.NewRvalueExpression(ast.BooleanOperator{}, ast.NewStringAttribute("", n, ast.DoubleQuoted))))
	case ast.PluginSection:
		return ast.NewPluginSection(ast.Filter, ast.NewPlugin(n))
	case string:
		return n
	}
	harness("no marker for %s", t)
	return nil
}

// treeParts collects the slices and the expressions of a tree.
func treeParts(v reflect.Value, slices *[]reflect.Value, exprs *[]ast.Expression) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return
		}
		if e, ok := v.Interface().(ast.Expression); ok {
			*exprs = append(*exprs, e)
		}
		treeParts(v.Elem(), slices, exprs)
	case reflect.Struct:
		if p, ok := v.Interface().(ast.PluginAttribute); ok {
			treeParts(reflect.ValueOf(p.Value()), slices, exprs)
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() && f.Name != "BoolExpression" {
				treeParts(v.Field(i), slices, exprs)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		*slices = append(*slices, v)
		for i := 0; i < v.Len(); i++ {
			treeParts(v.Index(i), slices, exprs)
		}
	}
}

func dump(c ast.Config) string {
	b, err := json.Marshal(fromAST(c))
	if err != nil {
		harness("dump: %v", err)
	}
	return string(b)
}

func checkC31(x *Ctx, c editCase) error {
	s := c.Text.s()
	mk := func() (ast.Config, bool) {
		if c.Built != nil {
			return toAST(c.Built), true
		}
		v, err := parse(s, c.O.list()...)
		return v, err == nil
	}
	a, ok := mk()
	if !ok {
		return x.Exclude("rejected text")
	}
	b, _ := mk()
	if c.Built != nil {
		s = "built through the API: " + a.String()
	}
	da, db := dump(a), dump(b)
	if da != db {
		return viol("text %q: two parses give different trees", s)
	}
	var slices []reflect.Value
	var exprs []ast.Expression
	treeParts(reflect.ValueOf(a), &slices, &exprs)
	x.Interesting(len(slices) > 3)
	x.Label("expressions", len(exprs) > 0)
	x.Label("at least two expressions", len(exprs) > 1)
	intact := func(what string, args ...any) error {
		if d := dump(a); d != da {
			return viol("text %q\n%s also changes the tree elsewhere:\n%s\n%s", s, fmt.Sprintf(what, args...), da, d)
		}
		if d := dump(b); d != db {
			return viol("text %q\n%s changes a tree returned by another parse:\n%s\n%s", s, fmt.Sprintf(what, args...), db, d)
		}
		return nil
	}
	// appending to several slices at the same time
	type grown struct {
		from, to reflect.Value
		m        any
	}
	var gs []grown
	own := len(slices)
	var others []ast.Expression
	if v, ok := mk(); ok {
		treeParts(reflect.ValueOf(v), &slices, &others)
	}
	for i, sl := range slices {
		if sl.Cap() == sl.Len() || len(gs) > 200 {
			continue
		}
		m := nthMarker(sl.Type().Elem(), i)
		gs = append(gs, grown{sl, reflect.Append(sl, reflect.ValueOf(m)), m})
	}
	x.Label("several slices with room", len(gs) > 1)
	for _, g := range gs {
		if got := g.to.Index(g.from.Len()).Interface(); !reflect.DeepEqual(got, g.m) {
			return viol("text %q\nwhat is appended to a %s of length %d is overwritten by what is appended to another slice of this tree or another parse: %v instead of %v", s, g.from.Type(), g.from.Len(), got, g.m)
		}
	}
	slices = slices[:own]
	n := len(slices)
	for j := 0; j < n && j < 10; j++ {
		sl := slices[(c.At+j*7)%n]
		if n <= 10 {
			sl = slices[j]
		}
		m, ok := markers[sl.Type().Elem()]
		if !ok {
			harness("no marker for %s", sl.Type())
		}
		mv := reflect.ValueOf(m)
		// appending to a slice of the tree
		if sl.Cap() > sl.Len() {
			x.Label("slice with room")
			reflect.Append(sl, mv)
			if err := intact("appending to a %s of length %d", sl.Type(), sl.Len()); err != nil {
				return err
			}
		}
		// replacing an element
		if sl.Len() == 0 {
			continue
		}
		i := c.At % sl.Len()
		old := reflect.New(sl.Type().Elem()).Elem()
		old.Set(sl.Index(i))
		sl.Index(i).Set(mv)
		d := dump(a)
		if k := strings.Count(d, markName); k != 1 {
			return viol("text %q\nreplacing element %d of a %s shows in %d places of the tree: %s", s, i, sl.Type(), k, d)
		}
		if sl.Type().Elem().Kind() != reflect.String && !strings.Contains(a.String(), markName) {
			return viol("text %q\nreplacing element %d of a %s does not show in the printed tree %q", s, i, sl.Type(), a.String())
		}
		if d := dump(b); d != db {
			return viol("text %q\nreplacing element %d of a %s changes a tree returned by another parse", s, i, sl.Type())
		}
		if f, _ := mk(); dump(f) != db {
			return viol("text %q\nreplacing element %d of a %s changes the result of the next parse: %s", s, i, sl.Type(), dump(f))
		}
		sl.Index(i).Set(old)
		if err := intact("replacing and restoring element %d of a %s", i, sl.Type()); err != nil {
			return err
		}
	}
	// changing a boolean operator
	ops := func() []ast.BooleanOperator {
		var r []ast.BooleanOperator
		for _, e := range exprs {
			r = append(r, e.BoolOperator())
		}
		return r
	}
	var bexprs []ast.Expression
	var dummy []reflect.Value
	treeParts(reflect.ValueOf(b), &dummy, &bexprs)
	for j := 0; j < len(exprs) && j < 4; j++ {
		k := (c.At + j*5) % len(exprs)
		e := exprs[k]
		was := e.BoolOperator()
		before := ops()
		now := ast.BooleanOperator{Op: ast.Nand, Start: ast.Pos{Line: 7, Column: 7, Offset: 77}}
		if was.Op == ast.Nand {
			now.Op = ast.Or
		}
		e.SetBoolOperator(now)
		after := ops()
		for i := range before {
			want := before[i]
			if i == k {
				want = now
			}
			if after[i] != want {
				return viol("text %q\nsetting the boolean operator of expression %d to %v: expression %d has %v instead of %v", s, k, now, i, after[i], want)
			}
		}
		if d := dump(b); d != db {
			return viol("text %q\nsetting the boolean operator of expression %d changes a tree returned by another parse", s, k)
		}
		if f, _ := mk(); dump(f) != db {
			return viol("text %q\nsetting the boolean operator of expression %d changes the result of the next parse: %s", s, k, dump(f))
		}
		e.SetBoolOperator(was)
		if d := dump(a); d != da {
			return viol("text %q\nsetting and restoring the boolean operator of expression %d changes the tree:\n%s\n%s", s, k, da, d)
		}
	}
	return nil
}

// ---- C32: printing parts of a tree ----

// partChecker prints every part of a tree and parses it in a minimal context.
type partChecker struct {
	x     *Ctx
	err   error
	count map[string]int
}

// want compares the expected node with what get finds in the parsed text.
func (p *partChecker) want(kind, printed, pre, post string, exp []*N, get func(*Conf) []*N) {
	if p.err != nil {
		return
	}
	p.count[kind]++
	s := pre + printed + post
	v, err := parse(s)
	if err != nil {
		p.err = viol("a %s prints to %q, which is rejected in the context %q: %v", kind, printed, pre+"..."+post, err)
		return
	}
	got := get(fromAST(v))
	norm := func(ns []*N) *N {
		c := &Conf{}
		c.Groups[0] = []*N{{K: "section", Kids: ns}}
		c.dropEmptyElse()
		return c.Groups[0][0]
	}
	if d := nDiff(kind, norm(exp), norm(got), cmpOpt{comments: true}); d != "" {
		p.err = viol("a %s prints to %q, which is parsed differently (in the context %q): original versus parsed: %s", kind, printed, pre+"..."+post, d)
	}
}

func kidsOf(ns []*N, path ...int) []*N {
	for _, i := range path {
		if i >= len(ns) {
			return nil
		}
		ns = ns[i].Kids
	}
	return ns
}

func (p *partChecker) config(c ast.Config) {
	for g, ss := range [3][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range ss {
			n := &N{Kids: cbops(s.BranchOrPlugins)}
			if !elseTrap(&Conf{Groups: [3][]*N{{n}}}) {
				p.want("section", s.String(), s.PluginType.String()+" {\n", "}", n.Kids, func(c *Conf) []*N { return kidsOf(c.Groups[g], 0) })
			}
			p.comments(s.CommentBlock, "comment block")
			p.comments(s.FooterComment, "comment block")
			p.block(s.BranchOrPlugins)
		}
	}
	p.comments(c.FooterComment, "comment block")
}

func (p *partChecker) comments(cb ast.CommentBlock, kind string) {
	if len(cb) == 0 {
		return
	}
	p.want(kind, cb.String(), "", "input {}", []*N{{C: ccmts(cb)}}, func(c *Conf) []*N { return []*N{{C: c.Groups[0][0].C}} })
	p.want(kind, cb.String(), "input {\n", "}", []*N{{C: ccmts(cb)}}, func(c *Conf) []*N { return []*N{{C: c.Groups[0][0].F}} })
	for _, c := range cb {
		p.want("comment", c.String(), "", "input {}", []*N{{C: ccmts(ast.CommentBlock{c})}}, func(c *Conf) []*N { return []*N{{C: c.Groups[0][0].C}} })
	}
}

func first(c *Conf) []*N { return kidsOf(c.Groups[1], 0) }

func (p *partChecker) block(bs []ast.BranchOrPlugin) {
	for _, b := range bs {
		switch t := b.(type) {
		case ast.Plugin:
			p.plugin(t, "filter {\n", "\n}", first)
		case ast.Branch:
			p.branch(t)
		}
	}
}

func (p *partChecker) plugin(t ast.Plugin, pre, post string, get func(*Conf) []*N) {
	p.want("plugin", t.String(), pre, post, []*N{cplugin(t)}, get)
	for _, a := range t.Attributes {
		p.attr(a, true)
	}
	p.comments(t.Comment, "comment block")
}

func (p *partChecker) branch(t ast.Branch) {
	n := cbranch(t)
	if elseTrap(&Conf{Groups: [3][]*N{{n}}}) {
		return
	}
	p.want("branch", t.String(), "filter {\n", "\n}", []*N{n}, first)
	p.want("if block", t.IfBlock.String(), "filter {\n", "\n}", n.Kids[:1], func(c *Conf) []*N { return kidsOf(c.Groups[1], 0, 0) })
	p.cond(t.IfBlock.Condition)
	p.block(t.IfBlock.Block)
	for i, e := range t.ElseIfBlock {
		p.want("else-if block", e.String(), "filter {\nif 1 { }", "\n}", n.Kids[1+i:2+i], func(c *Conf) []*N {
			if ks := kidsOf(c.Groups[1], 0, 0); len(ks) == 2 {
				return ks[1:]
			}
			return nil
		})
		p.cond(e.Condition)
		p.block(e.Block)
	}
	if l := n.Kids[len(n.Kids)-1]; l.K == "else" {
		exp := []*N{l}
		if t.ElseBlock.String() == "" {
			exp = nil
			if len(l.Kids)+len(l.C)+len(l.F) > 0 {
				p.err = viol("an else block with content prints to nothing: %+v", l)
			}
		}
		p.want("else block", t.ElseBlock.String(), "filter {\nif 1 { }", "\n}", exp, func(c *Conf) []*N {
			if ks := kidsOf(c.Groups[1], 0, 0); len(ks) == 2 {
				return ks[1:]
			}
			return nil
		})
		p.block(t.ElseBlock.Block)
	}
}

// attr checks an attribute, or an array element or hash value.
func (p *partChecker) attr(a ast.Attribute, named bool) {
	n := cattr(a)
	if named {
		p.want("attribute", a.CommentBlock()+a.String(), "filter { a {\n", "\n} }", []*N{n}, func(c *Conf) []*N { return kidsOf(c.Groups[1], 0, 0) })
	}
	val := *n
	val.Name, val.C = "xx", nil
	p.want("value of an attribute", a.ValueString(), "filter { a { xx => ", "\n} }", []*N{&val}, func(c *Conf) []*N { return kidsOf(c.Groups[1], 0, 0) })
	switch t := a.(type) {
	case ast.ArrayAttribute:
		for _, e := range t.Value() {
			p.attr(e, false)
		}
	case ast.HashAttribute:
		for i, e := range t.Value() {
			p.want("hash entry", e.String(), "filter { a { b => {\n", "\n} } }", n.Kids[i:i+1], func(c *Conf) []*N { return kidsOf(c.Groups[1], 0, 0, 0) })
			if e.Name() != e.Key.ValueString() || e.ValueString() != e.Value.ValueString() {
				p.err = viol("hash entry %q: name %q, value %q", e.String(), e.Name(), e.ValueString())
			}
			p.attr(e.Value, false)
		}
	case ast.PluginAttribute:
		p.plugin(t.Value(), "filter { a { b => ", "\n} }", func(c *Conf) []*N { return kidsOf(c.Groups[1], 0, 0, 0) })
	}
}

func (p *partChecker) cond(c ast.Condition) {
	p.want("condition", c.String(), "filter { if ", " { } }", []*N{ccond(c)}, func(c *Conf) []*N {
		if ks := kidsOf(c.Groups[1], 0, 0, 0); len(ks) == 1 {
			return ks
		}
		return nil
	})
	for i, e := range c.Expression {
		pre := "filter { if 1"
		if i == 0 {
			pre = "filter { if "
		}
		p.want("expression", fmt.Sprint(e), pre, " { } }", []*N{cexpr(e)}, func(c *Conf) []*N {
			ks := kidsOf(c.Groups[1], 0, 0, 0, 0)
			if i > 0 && len(ks) == 2 {
				return ks[1:]
			}
			if i == 0 {
				return ks
			}
			return nil
		})
		switch t := e.(type) {
		case ast.ConditionExpression:
			p.cond(t.Condition)
		case ast.NegativeConditionExpression:
			p.cond(t.Condition)
		case ast.NegativeSelectorExpression:
			p.rvalue(t.Selector)
		case ast.InExpression:
			p.rvalue(t.LValue)
			p.rvalue(t.RValue)
		case ast.NotInExpression:
			p.rvalue(t.LValue)
			p.rvalue(t.RValue)
		case ast.RvalueExpression:
			p.rvalue(t.RValue)
		case ast.CompareExpression:
			p.rvalue(t.LValue)
			p.rvalue(t.RValue)
		case ast.RegexpExpression:
			p.rvalue(t.LValue)
			if r, ok := t.RValue.(ast.Rvalue); ok {
				p.rvalue(r)
			}
		}
	}
}

func (p *partChecker) rvalue(r ast.Rvalue) {
	get := func(c *Conf) []*N { return kidsOf(c.Groups[1], 0, 0, 0, 0, 0) }
	p.want("operand", r.ValueString(), "filter { if ", " { } }", []*N{crvalue(r)}, get)
	switch t := r.(type) {
	case ast.Selector:
		if t.String() != t.ValueString() {
			p.err = viol("selector %q has value %q", t.String(), t.ValueString())
		}
		for _, e := range t.Elements {
			p.want("selector element", e.String(), "filter { if ", " { } }", []*N{crvalue(ast.NewSelector([]ast.SelectorElement{e}))}, get)
		}
	case ast.Regexp:
		p.want("regexp", t.String(), "filter { if ", " { } }", []*N{crvalue(r)}, get)
	}
}

type partCase struct {
	Text  Txt
	Built *Conf `json:",omitempty"`
}

func checkC32(x *Ctx, c partCase) error {
	var v ast.Config
	if c.Built != nil {
		v = toAST(c.Built)
		x.Label("built through the API")
	} else {
		s := c.Text.s()
		var err error
		if v, err = parse(s); err != nil {
			return x.Exclude("rejected text")
		}
		if r := refParse(s, refOpts{}); r.condLost && riskyCond(s, r) {
			return x.Exclude("a comment lost inside a condition decides between selector and array")
		}
	}
	p := &partChecker{x: x, count: map[string]int{}}
	p.config(v)
	n := 0
	for k, c := range p.count {
		x.Label(k)
		n += c
	}
	x.Interesting(n >= 3)
	if p.err != nil && c.Built == nil {
		return viol("text %q: %v", c.Text, p.err)
	}
	return p.err
}

func init() {
	reg("C31", textRule+", and trees assembled through the constructors; up to ten slices (statements, attributes, elements, entries, comments, expressions, selector elements, else-if blocks, sections, warnings) are appended to, and get an element replaced, and up to four expressions get another boolean operator; non-trivial: the tree has at least four slices",
		func(t *rapid.T) editCase {
			c := editCase{At: intn(t, 1000, "at")}
			if intn(t, 5, "built") == 0 {
				c.Built = genConf(t, 3, 20, false)
				return c
			}
			c.Text, c.O = Txt(genText(t, 14)), genPopts(t, false)
			c.O.Memo = false
			return c
		}, checkC31, cases(16000, 900000), enum(func(yield func(editCase)) {
			k := 0
			sizedTexts(2, 40, []int{64, 65, 128, 129}, func(s string) { k++; yield(editCase{Text: Txt(s), At: k % 1000}) })
		}))
	reg("C32", textRule+", and trees assembled through the constructors; every part of the tree is printed on its own and parsed in a minimal context; non-trivial: at least three parts",
		func(t *rapid.T) partCase {
			if intn(t, 4, "built") == 0 {
				return partCase{Built: genConf(t, 2, 20, false)}
			}
			return partCase{Text: Txt(genText(t, 14))}
		}, checkC32, cases(16000, 900000), enum(func(yield func(partCase)) {
			sizedConfs(34, []int{64, 65, 129}, func(kind, n int, c *Conf) {
				if c.depth() < 40 {
					yield(partCase{Built: c})
				}
			})
		}))
}
