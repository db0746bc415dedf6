package main

import (
	"math"
	"regexp"
	"strings"

	"github.com/breml/logstash-config/ast"
	"pgregory.net/rapid"
)

// ---- constructing trees through the public API ----

func bcmts(cs []Cmt) ast.CommentBlock {
	var r []ast.Comment
	for _, c := range cs {
		k := ast.NewComment(c.T, c.Before)
		k.SpaceAfter = c.After
		r = append(r, k)
	}
	if r == nil {
		return nil
	}
	return ast.NewCommentBlock(r...)
}

func bpos(p P) ast.Pos { return ast.Pos{Line: p.L, Column: p.C, Offset: p.O} }

// toAST builds a configuration from its neutral form.
func toAST(c *Conf) ast.Config {
	var gs [3][]ast.PluginSection
	for g, ss := range c.Groups {
		for _, s := range ss {
			pt := []ast.PluginType{ast.Input, ast.Filter, ast.Output}[g]
			var ps ast.PluginSection
			if len(gs[g])%2 == 0 { // both constructors are used
				pss := ast.NewPluginSections(pt, bbops(s.Kids, s.Empty)...)
				if len(pss) != 1 {
					return ast.NewConfig(pss, pss, pss) // differs from every tree with the given sections
				}
				ps = pss[0]
			} else {
				ps = ast.NewPluginSection(pt, bbops(s.Kids, s.Empty)...)
			}
			ps.CommentBlock, ps.FooterComment, ps.Start = bcmts(s.C), bcmts(s.F), bpos(s.Pos)
			gs[g] = append(gs[g], ps)
		}
	}
	r := ast.NewConfig(gs[0], gs[1], gs[2])
	r.FooterComment = bcmts(c.F)
	return r
}

func bbops(ns []*N, empty bool) []ast.BranchOrPlugin {
	var r []ast.BranchOrPlugin
	if empty {
		r = []ast.BranchOrPlugin{}
	}
	for _, n := range ns {
		r = append(r, bbop(n))
	}
	return r
}

func bbop(n *N) ast.BranchOrPlugin {
	switch n.K {
	case "nil":
		return nil
	case "plugin":
		return bplugin(n)
	case "branch":
		var ib ast.IfBlock
		var ei []ast.ElseIfBlock
		var eb ast.ElseBlock
		for _, k := range n.Kids {
			switch k.K {
			case "if":
				ib = ast.NewIfBlock(bcond(k.Kids[0]), bbops(k.Kids[1:], k.Empty)...)
				ib.Comment, ib.FooterComment, ib.Start = bcmts(k.C), bcmts(k.F), bpos(k.Pos)
			case "elseif":
				e := ast.NewElseIfBlock(bcond(k.Kids[0]), bbops(k.Kids[1:], k.Empty)...)
				e.Comment, e.FooterComment, e.Start = bcmts(k.C), bcmts(k.F), bpos(k.Pos)
				ei = append(ei, e)
			case "else":
				eb = ast.NewElseBlock(bbops(k.Kids, k.Empty)...)
				eb.Comment, eb.FooterComment, eb.Start = bcmts(k.C), bcmts(k.F), bpos(k.Pos)
			}
		}
		return ast.NewBranch(ib, eb, ei...)
	}
	harness("cannot build %s", n.K)
	return nil
}

func bplugin(n *N) ast.Plugin {
	var as []ast.Attribute
	if n.Empty {
		as = []ast.Attribute{}
	}
	for _, k := range n.Kids {
		as = append(as, battr(k))
	}
	p := ast.NewPlugin(n.Name, as...)
	p.Comment, p.FooterComment, p.Start = bcmts(n.C), bcmts(n.F), bpos(n.Pos)
	return p
}

func bstring(n *N) ast.StringAttribute {
	v, sat := n.Val, ast.StringAttributeType(ast.Bareword)
	if strings.HasPrefix(v, `"`) {
		v, sat = v[1:len(v)-1], ast.DoubleQuoted
	} else if strings.HasPrefix(v, `'`) {
		v, sat = v[1:len(v)-1], ast.SingleQuoted
	}
	a := ast.NewStringAttribute(n.Name, v, sat)
	a.Comment, a.Start = bcmts(n.C), bpos(n.Pos)
	return a
}

func bnumber(n *N) ast.NumberAttribute {
	a := ast.NewNumberAttribute(n.Name, n.Num)
	a.Comment, a.Start = bcmts(n.C), bpos(n.Pos)
	return a
}

func barray(n *N) ast.ArrayAttribute {
	var as []ast.Attribute
	if n.Empty {
		as = []ast.Attribute{}
	}
	for _, k := range n.Kids {
		as = append(as, battr(k))
	}
	a := ast.NewArrayAttribute(n.Name, as...)
	a.Comment, a.FooterComment, a.Start = bcmts(n.C), bcmts(n.F), bpos(n.Pos)
	return a
}

func battr(n *N) ast.Attribute {
	switch n.K {
	case "nil":
		return nil
	case "string":
		return bstring(n)
	case "number":
		return bnumber(n)
	case "array":
		return barray(n)
	case "hash":
		var es []ast.HashEntry
		if n.Empty {
			es = []ast.HashEntry{}
		}
		for _, k := range n.Kids {
			var key ast.HashEntryKey
			if k.Kids[0].K == "number" {
				key = bnumber(k.Kids[0])
			} else {
				key = bstring(k.Kids[0])
			}
			e := ast.NewHashEntry(key, battr(k.Kids[1]))
			e.Comment, e.Start = bcmts(k.C), bpos(k.Pos)
			es = append(es, e)
		}
		a := ast.NewHashAttribute(n.Name, es...)
		a.Comment, a.FooterComment, a.Start = bcmts(n.C), bcmts(n.F), bpos(n.Pos)
		return a
	case "pluginvalue":
		a := ast.NewPluginAttribute(n.Name, bplugin(n.Kids[0]))
		a.Comment, a.Start = bcmts(n.C), bpos(n.Pos)
		return a
	}
	harness("cannot build attribute %s", n.K)
	return nil
}

func bcond(n *N) ast.Condition {
	var es []ast.Expression
	for _, k := range n.Kids {
		es = append(es, bexpr(k))
	}
	return ast.NewCondition(es...)
}

func bexpr(n *N) ast.Expression {
	bo := ast.BooleanOperator{Op: map[string]int{"": ast.NoOperator, "and": ast.And, "or": ast.Or, "xor": ast.Xor, "nand": ast.Nand}[n.Bool], Start: bpos(n.BoolP)}
	switch n.K {
	case "nil":
		return nil
	case "paren":
		return ast.NewConditionExpression(bo, bcond(n.Kids[0]))
	case "negcond":
		return ast.NewNegativeConditionExpression(bo, bcond(n.Kids[0]))
	case "negsel":
		return ast.NewNegativeSelectorExpression(bo, bselector(n.Kids[0]))
	case "in":
		return ast.NewInExpression(bo, brvalue(n.Kids[0]), brvalue(n.Kids[1]))
	case "notin":
		return ast.NewNotInExpression(bo, brvalue(n.Kids[0]), brvalue(n.Kids[1]))
	case "rvalue":
		return ast.NewRvalueExpression(bo, brvalue(n.Kids[0]))
	case "compare":
		op := map[string]int{"==": ast.Equal, "!=": ast.NotEqual, "<=": ast.LessOrEqual, ">=": ast.GreaterOrEqual, "<": ast.LessThan, ">": ast.GreaterThan}[n.Kids[1].Val]
		return ast.NewCompareExpression(bo, brvalue(n.Kids[0]), ast.CompareOperator{Op: op}, brvalue(n.Kids[2]))
	case "match":
		op := map[string]int{"=~": ast.RegexpMatch, "!~": ast.RegexpNotMatch}[n.Kids[1].Val]
		return ast.NewRegexpExpression(bo, brvalue(n.Kids[0]), ast.RegexpOperator{Op: op}, brvalue(n.Kids[2]).(ast.StringOrRegexp))
	}
	harness("cannot build expression %s", n.K)
	return nil
}

func bselector(n *N) ast.Selector {
	var names []string
	for _, k := range n.Kids {
		names = append(names, k.Val)
	}
	if len(names)%2 == 0 {
		var es []ast.SelectorElement
		for _, k := range names {
			es = append(es, ast.NewSelectorElement(k))
		}
		return ast.NewSelector(es)
	}
	return ast.NewSelectorFromNames(names...)
}

func brvalue(n *N) ast.Rvalue {
	switch n.K {
	case "string":
		return bstring(n)
	case "number":
		return bnumber(n)
	case "array":
		return barray(n)
	case "regexp":
		return ast.NewRegexp(n.Val)
	case "selector":
		return bselector(n)
	}
	harness("cannot build rvalue %s", n.K)
	return nil
}

// ---- generating trees ----

type treeGen struct {
	t        *rapid.T
	fuel     int
	comments int // percent
	nils     bool
}

func (g *treeGen) cmts() []Cmt {
	if g.comments == 0 || intn(g.t, 100, "cmt?") >= g.comments {
		return nil
	}
	var r []Cmt
	for i := 1 + small(g.t, "cmts"); i > 0; i-- {
		c := Cmt{T: strings.Trim(genCommentText(g.t), " ")}
		if intn(g.t, 3, "space") == 0 {
			c.Before = true
		}
		if intn(g.t, 4, "spaceAfter") == 0 {
			c.After = true
		}
		r = append(r, c)
	}
	return r
}

func (g *treeGen) isNil() bool { return g.nils && intn(g.t, 8, "nil") == 0 }

func genConf(t *rapid.T, min, fuel int, nils bool) *Conf {
	g := &treeGen{t: t, fuel: rapid.IntRange(min, fuel).Draw(t, "fuel"), comments: []int{0, 25, 60}[intn(t, 3, "comments")], nils: nils}
	c := &Conf{}
	for i := 1 + small(t, "sections"); i > 0; i-- {
		k := intn(t, 3, "sectionType")
		c.Groups[k] = append(c.Groups[k], &N{K: "section", Name: []string{"input", "filter", "output"}[k], C: g.cmts(), F: g.cmts(), Kids: g.block(0)})
	}
	c.F = g.cmts()
	if mode := intn(t, 3, "emptyLists"); mode > 0 {
		c.walk(func(n *N) { n.Empty = mode == 1 || intn(t, 2, "emptyList") == 0 })
	}
	return c
}

func (g *treeGen) block(depth int) []*N {
	var r []*N
	n := small(g.t, "stmts")
	if depth == 0 && n == 0 {
		n = 1
	}
	for i := 0; i < n && g.fuel > 0; i++ {
		g.fuel--
		if g.isNil() {
			r = append(r, &N{K: "nil"})
		} else if depth < 5 && intn(g.t, 3, "isBranch") == 0 {
			r = append(r, g.branch(depth))
		} else {
			p := g.plugin(depth)
			for i := len(r) - 1; i >= 0; i-- {
				if r[i].K == "nil" {
					continue
				}
				if r[i].K == "branch" && p.Name == "else" {
					p.Name = "elsewhere"
				}
				break
			}
			r = append(r, p)
		}
	}
	return r
}

func (g *treeGen) branch(depth int) *N {
	b := &N{K: "branch"}
	b.Kids = append(b.Kids, &N{K: "if", C: g.cmts(), F: g.cmts(), Kids: append([]*N{g.condition(0)}, g.block(depth+1)...)})
	for i := small(g.t, "elseIfs"); i > 1; i-- {
		b.Kids = append(b.Kids, &N{K: "elseif", C: g.cmts(), F: g.cmts(), Kids: append([]*N{g.condition(0)}, g.block(depth+1)...)})
	}
	if intn(g.t, 2, "hasElse") == 0 {
		b.Kids = append(b.Kids, &N{K: "else", C: g.cmts(), F: g.cmts(), Kids: g.block(depth + 1)})
	}
	return b
}

func (g *treeGen) condition(depth int) *N {
	c := &N{K: "condition"}
	for i := 1 + small(g.t, "exprs"); i > 0; i-- {
		if len(c.Kids) > 0 && g.isNil() {
			c.Kids = append(c.Kids, &N{K: "nil"})
			continue
		}
		e := g.expression(depth)
		if len(c.Kids) > 0 {
			e.Bool = pick(g.t, "boolOp", "and", "or", "xor", "nand")
		}
		c.Kids = append(c.Kids, e)
		if g.fuel <= 0 {
			break
		}
		g.fuel--
	}
	return c
}

func (g *treeGen) expression(depth int) *N {
	t := g.t
	k := intn(t, 8, "exprKind")
	if depth > 3 && k < 2 {
		k = 7
	}
	switch k {
	case 0:
		return &N{K: "paren", Kids: []*N{g.condition(depth + 1)}}
	case 1:
		return &N{K: "negcond", Kids: []*N{g.condition(depth + 1)}}
	case 2:
		return &N{K: "negsel", Kids: []*N{g.selector()}}
	case 3:
		return &N{K: "in", Kids: []*N{g.rvalue(), g.rvalue()}}
	case 4:
		return &N{K: "notin", Kids: []*N{g.rvalue(), g.rvalue()}}
	case 5:
		return &N{K: "compare", Kids: []*N{g.rvalue(), {K: "op", Val: pick(t, "cmpOp", "==", "!=", "<=", ">=", "<", ">")}, g.rvalue()}}
	case 6:
		var rv *N
		if intn(t, 3, "reStr") == 0 {
			rv = &N{K: "string", Val: genString(t)}
		} else {
			rv = g.regexp()
		}
		return &N{K: "match", Kids: []*N{g.rvalue(), {K: "op", Val: pick(t, "reOp", "=~", "!~")}, rv}}
	}
	return &N{K: "rvalue", Kids: []*N{g.rvalue()}}
}

func (g *treeGen) regexp() *N {
	r := genRegexp(g.t)
	return &N{K: "regexp", Val: r[1 : len(r)-1]}
}

func (g *treeGen) selector() *N {
	n := &N{K: "selector"}
	for i := 1 + small(g.t, "selN"); i > 0; i-- {
		n.Kids = append(n.Kids, &N{K: "element", Val: genSelElem(g.t)})
	}
	return n
}

func (g *treeGen) rvalue() *N {
	t := g.t
	switch intn(t, 8, "rvKind") {
	case 0, 1:
		return &N{K: "string", Val: genString(t)}
	case 2:
		return &N{K: "number", Num: genFloat(t)}
	case 3:
		return g.condArray()
	case 4:
		return g.regexp()
	}
	return g.selector()
}

// condArray makes an array that is not a selector when printed: none or at least two
// elements, no square bracket before the first comma.
func (g *treeGen) condArray() *N {
	n := &N{K: "array"}
	if intn(g.t, 4, "emptyArray") == 0 {
		return n
	}
	first := &N{K: "number", Num: genFloat(g.t)}
	if intn(g.t, 2, "firstString") == 0 {
		first = &N{K: "string", Val: strings.Map(func(r rune) rune {
			if r == '[' || r == ']' {
				return '.'
			}
			return r
		}, genString(g.t))}
	}
	n.Kids = append(n.Kids, first)
	for i := 1 + small(g.t, "elems"); i > 0; i-- {
		v := g.value(4, false)
		v.C = g.cmts()
		n.Kids = append(n.Kids, v)
	}
	n.F = g.cmts()
	return n
}

// ifNumber matches plugin names that a text cannot express: without attributes
// they read as a branch ("if 1 {}").
var ifNumber = regexp.MustCompile(`^(else)?if-?[0-9]`)

func (g *treeGen) plugin(depth int) *N {
	n := &N{K: "plugin", Name: genName(g.t), C: g.cmts()}
	if ifNumber.MatchString(n.Name) {
		n.Name = "iffy"
	}
	for i := small(g.t, "attrs"); i > 0 && g.fuel > 0; i-- {
		g.fuel--
		if g.isNil() {
			n.Kids = append(n.Kids, &N{K: "nil"})
			continue
		}
		a := g.value(depth, true)
		a.Name = genName(g.t)
		if intn(g.t, 4, "idAttr") == 0 {
			a.Name = "id"
		}
		a.C = g.cmts()
		n.Kids = append(n.Kids, a)
	}
	n.F = g.cmts()
	return n
}

func (g *treeGen) value(depth int, plugins bool) *N {
	t := g.t
	k := intn(t, 10, "valKind")
	if (depth > 5 || g.fuel <= 0) && k >= 6 {
		k -= 6
	}
	switch k {
	case 3:
		return &N{K: "string", Val: genBareword(t)}
	case 4, 5:
		return &N{K: "number", Num: genFloat(t)}
	case 6, 7:
		n := &N{K: "array", F: g.cmts()}
		for i := small(t, "elems"); i > 0; i-- {
			g.fuel--
			if g.isNil() {
				n.Kids = append(n.Kids, &N{K: "nil"})
				continue
			}
			v := g.value(depth+1, false)
			v.C = g.cmts()
			n.Kids = append(n.Kids, v)
		}
		return n
	case 8:
		n := &N{K: "hash", F: g.cmts()}
		for i := small(t, "entries"); i > 0; i-- {
			g.fuel--
			key := &N{K: "string", Val: genString(t)}
			switch intn(t, 4, "keyKind") {
			case 0:
				key = &N{K: "number", Num: genFloat(t)}
			case 1:
				key.Val = genBareword(t)
			}
			n.Kids = append(n.Kids, &N{K: "entry", C: g.cmts(), Kids: []*N{key, g.value(depth+1, false)}})
		}
		return n
	case 9:
		if plugins {
			p := g.plugin(depth + 1)
			p.C = nil
			return &N{K: "pluginvalue", Kids: []*N{p}}
		}
	}
	return &N{K: "string", Val: genString(t)}
}

// dropNil removes absent entries.
func (c *Conf) dropNil() {
	c.walk(func(n *N) {
		var kids []*N
		for _, k := range n.Kids {
			if k.K != "nil" {
				kids = append(kids, k)
			}
		}
		n.Kids = kids
	})
}

// copyConf is a deep copy.
func copyConf(c *Conf) *Conf {
	r := &Conf{F: append([]Cmt(nil), c.F...), Warnings: c.Warnings}
	for g := range c.Groups {
		for _, s := range c.Groups[g] {
			r.Groups[g] = append(r.Groups[g], s.copy())
		}
	}
	return r
}

func (n *N) copy() *N {
	if n == nil {
		return nil
	}
	c := *n
	c.C = append([]Cmt(nil), n.C...)
	c.F = append([]Cmt(nil), n.F...)
	c.Kids = nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.copy())
	}
	return &c
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }
