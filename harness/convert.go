package main

import (
	"fmt"
	"strings"

	"github.com/breml/logstash-config/ast"
)

func cpos(p ast.Pos) P { return P{p.Line, p.Column, p.Offset} }

func ccmts(cb ast.CommentBlock) []Cmt {
	var r []Cmt
	for _, c := range cb {
		b := c
		b.SpaceBefore, b.SpaceAfter = false, false
		t := b.String()
		if !strings.HasPrefix(t, "# ") || !strings.HasSuffix(t, "\n") {
			t = "UNPRINTABLE COMMENT " + t
		} else {
			t = t[2 : len(t)-1]
		}
		r = append(r, Cmt{T: t, Before: c.SpaceBefore, After: c.SpaceAfter})
	}
	return r
}

// fromAST converts a tree of the code under test into the neutral form.
func fromAST(c ast.Config) *Conf {
	r := &Conf{F: ccmts(c.FooterComment), Warnings: c.Warnings}
	for g, ss := range [3][]ast.PluginSection{c.Input, c.Filter, c.Output} {
		for _, s := range ss {
			name := s.PluginType.String()
			r.Groups[g] = append(r.Groups[g], &N{K: "section", Name: name, Pos: cpos(s.Pos()), hasPos: true,
				C: ccmts(s.CommentBlock), F: ccmts(s.FooterComment), Kids: cbops(s.BranchOrPlugins)})
		}
	}
	return r
}

func cbops(bs []ast.BranchOrPlugin) []*N {
	var r []*N
	for _, b := range bs {
		r = append(r, cbop(b))
	}
	return r
}

func cbop(b ast.BranchOrPlugin) *N {
	switch t := b.(type) {
	case nil:
		return &N{K: "nil"}
	case ast.Plugin:
		return cplugin(t)
	case *ast.Plugin:
		return cplugin(*t)
	case ast.Branch:
		return cbranch(t)
	case *ast.Branch:
		return cbranch(*t)
	}
	return &N{K: fmt.Sprintf("unknown %T", b)}
}

func cplugin(p ast.Plugin) *N {
	n := &N{K: "plugin", Name: p.Name(), Pos: cpos(p.Pos()), hasPos: true, C: ccmts(p.Comment), F: ccmts(p.FooterComment)}
	for _, a := range p.Attributes {
		n.Kids = append(n.Kids, cattr(a))
	}
	return n
}

func cattr(a ast.Attribute) *N {
	switch t := a.(type) {
	case nil:
		return &N{K: "nil"}
	case ast.StringAttribute:
		q := "?"
		switch t.StringAttributeType() {
		case ast.DoubleQuoted:
			q = `"`
		case ast.SingleQuoted:
			q = `'`
		case ast.Bareword:
			q = ``
		}
		return &N{K: "string", Name: t.Name(), Val: q + t.Value() + q, Pos: cpos(t.Pos()), hasPos: true, C: ccmts(t.Comment)}
	case ast.NumberAttribute:
		return &N{K: "number", Name: t.Name(), Num: t.Value(), Pos: cpos(t.Pos()), hasPos: true, C: ccmts(t.Comment)}
	case ast.ArrayAttribute:
		n := &N{K: "array", Name: t.Name(), Pos: cpos(t.Pos()), hasPos: true, C: ccmts(t.Comment), F: ccmts(t.FooterComment)}
		for _, e := range t.Attributes {
			n.Kids = append(n.Kids, cattr(e))
		}
		return n
	case ast.HashAttribute:
		n := &N{K: "hash", Name: t.Name(), Pos: cpos(t.Pos()), hasPos: true, C: ccmts(t.Comment), F: ccmts(t.FooterComment)}
		for _, e := range t.Entries {
			en := &N{K: "entry", Pos: cpos(e.Pos()), hasPos: true, C: ccmts(e.Comment)}
			ka, ok := e.Key.(ast.Attribute)
			if !ok {
				en.Kids = append(en.Kids, &N{K: fmt.Sprintf("key %T", e.Key)})
			} else {
				en.Kids = append(en.Kids, cattr(ka))
			}
			en.Kids = append(en.Kids, cattr(e.Value))
			n.Kids = append(n.Kids, en)
		}
		return n
	case ast.PluginAttribute:
		return &N{K: "pluginvalue", Name: t.Name(), Pos: cpos(t.Pos()), hasPos: true, C: ccmts(t.Comment), Kids: []*N{cplugin(t.Value())}}
	}
	return &N{K: fmt.Sprintf("unknown %T", a)}
}

func cbranch(b ast.Branch) *N {
	n := &N{K: "branch", Pos: cpos(b.Pos()), hasPos: true}
	ib := b.IfBlock
	n.Kids = append(n.Kids, &N{K: "if", Pos: cpos(ib.Pos()), hasPos: true, C: ccmts(ib.Comment), F: ccmts(ib.FooterComment),
		Kids: append([]*N{ccond(ib.Condition)}, cbops(ib.Block)...)})
	for _, e := range b.ElseIfBlock {
		n.Kids = append(n.Kids, &N{K: "elseif", Pos: cpos(e.Pos()), hasPos: true, C: ccmts(e.Comment), F: ccmts(e.FooterComment),
			Kids: append([]*N{ccond(e.Condition)}, cbops(e.Block)...)})
	}
	eb := b.ElseBlock
	if eb.Start != (ast.Pos{}) || len(eb.Block) > 0 || len(eb.Comment) > 0 || len(eb.FooterComment) > 0 {
		n.Kids = append(n.Kids, &N{K: "else", Pos: cpos(eb.Pos()), hasPos: true, C: ccmts(eb.Comment), F: ccmts(eb.FooterComment), Kids: cbops(eb.Block)})
	}
	return n
}

func ccond(c ast.Condition) *N {
	n := &N{K: "condition", Pos: cpos(c.Pos()), hasPos: true}
	for _, e := range c.Expression {
		n.Kids = append(n.Kids, cexpr(e))
	}
	return n
}

func cbool(n *N, b *ast.BoolExpression) *N {
	if b == nil {
		n.Bool = "NIL"
		return n
	}
	bo := b.BoolOperator()
	switch bo.Op {
	case ast.NoOperator:
	case ast.And:
		n.Bool = "and"
	case ast.Or:
		n.Bool = "or"
	case ast.Xor:
		n.Bool = "xor"
	case ast.Nand:
		n.Bool = "nand"
	default:
		n.Bool = fmt.Sprintf("operator %d", bo.Op)
	}
	n.BoolP = cpos(bo.Start)
	if n.Bool != "" && bo.Start != b.Start {
		n.BoolP = P{-1, -1, -1}
	}
	return n
}

func cexpr(e ast.Expression) *N {
	switch t := e.(type) {
	case nil:
		return &N{K: "nil"}
	case ast.ConditionExpression:
		return cbool(&N{K: "paren", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{ccond(t.Condition)}}, t.BoolExpression)
	case ast.NegativeConditionExpression:
		return cbool(&N{K: "negcond", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{ccond(t.Condition)}}, t.BoolExpression)
	case ast.NegativeSelectorExpression:
		return cbool(&N{K: "negsel", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{crvalue(t.Selector)}}, t.BoolExpression)
	case ast.InExpression:
		return cbool(&N{K: "in", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{crvalue(t.LValue), crvalue(t.RValue)}}, t.BoolExpression)
	case ast.NotInExpression:
		return cbool(&N{K: "notin", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{crvalue(t.LValue), crvalue(t.RValue)}}, t.BoolExpression)
	case ast.RvalueExpression:
		return cbool(&N{K: "rvalue", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{crvalue(t.RValue)}}, t.BoolExpression)
	case ast.CompareExpression:
		op := map[int]string{ast.Equal: "==", ast.NotEqual: "!=", ast.LessOrEqual: "<=", ast.GreaterOrEqual: ">=", ast.LessThan: "<", ast.GreaterThan: ">"}[t.CompareOperator.Op]
		return cbool(&N{K: "compare", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{crvalue(t.LValue), {K: "op", Val: op, Pos: cpos(t.CompareOperator.Pos()), hasPos: true}, crvalue(t.RValue)}}, t.BoolExpression)
	case ast.RegexpExpression:
		op := map[int]string{ast.RegexpMatch: "=~", ast.RegexpNotMatch: "!~"}[t.RegexpOperator.Op]
		return cbool(&N{K: "match", Pos: cpos(t.Pos()), hasPos: true, Kids: []*N{crvalue(t.LValue), {K: "op", Val: op, Pos: cpos(t.RegexpOperator.Pos()), hasPos: true}, crvalue(t.RValue)}}, t.BoolExpression)
	}
	return &N{K: fmt.Sprintf("unknown %T", e)}
}

func crvalue(v interface{}) *N {
	switch t := v.(type) {
	case ast.StringAttribute:
		return cattr(t)
	case ast.NumberAttribute:
		return cattr(t)
	case ast.ArrayAttribute:
		return cattr(t)
	case ast.Regexp:
		return &N{K: "regexp", Val: t.Regexp, Pos: cpos(t.Pos()), hasPos: true}
	case ast.Selector:
		n := &N{K: "selector", Pos: cpos(t.Pos()), hasPos: true}
		for _, e := range t.Elements {
			s := e.String()
			if len(s) >= 2 && s[0] == '[' && s[len(s)-1] == ']' {
				s = s[1 : len(s)-1]
			} else {
				s = "UNPRINTABLE " + s
			}
			n.Kids = append(n.Kids, &N{K: "element", Val: s, Pos: cpos(e.Pos()), hasPos: true})
		}
		return n
	}
	return &N{K: fmt.Sprintf("unknown %T", v)}
}
