package main

import (
	"fmt"
	"strings"
)

// P is a source position.
type P struct{ L, C, O int }

func (p P) String() string { return fmt.Sprintf("%d:%d [%d]", p.L, p.C, p.O) }

// Cmt is one comment line.
type Cmt struct {
	T      string `json:",omitempty"` // text, trimmed
	Before bool   `json:",omitempty"` // blank line before
	After  bool   `json:",omitempty"` // blank line after
}

// N is a neutral tree node: the common form of the reference parser's result
// and of the tree returned by the code under test.
type N struct {
	K      string  `json:",omitempty"` // kind
	Name   string  `json:",omitempty"` // plugin or attribute name, raw (quotes included)
	Val    string  `json:",omitempty"` // literal contents, operator
	Num    float64 `json:",omitempty"` // numbers
	Pos    P       `json:",omitzero"`
	C      []Cmt   `json:",omitempty"` // comments before
	F      []Cmt   `json:",omitempty"` // footer comments
	Bool   string  `json:",omitempty"`
	BoolP  P       `json:",omitzero"`
	Kids   []*N    `json:",omitempty"`
	Empty  bool    `json:",omitempty"` // lists without entries are empty, not absent, in the tree built
	hasPos bool
}

// Conf is a neutral configuration: the three groups of sections.
type Conf struct {
	Groups   [3][]*N
	F        []Cmt    `json:",omitempty"`
	Warnings []string `json:",omitempty"`
}

// cmpOpt selects what a comparison looks at.
type cmpOpt struct {
	pos      bool // positions
	comments bool // comment texts and attachment
	spacing  bool // blank line flags
	warnings bool
}

func cmtDiff(path string, a, b []Cmt, o cmpOpt) string {
	if !o.comments {
		return ""
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%s: comments %q vs %q", path, cmtTexts(a), cmtTexts(b))
	}
	for i := range a {
		if a[i].T != b[i].T {
			return fmt.Sprintf("%s: comment %d is %q vs %q", path, i, a[i].T, b[i].T)
		}
		if o.spacing && (a[i].Before != b[i].Before || a[i].After != b[i].After) {
			return fmt.Sprintf("%s: blank lines around comment %d %q: before/after %v/%v vs %v/%v", path, i, a[i].T, a[i].Before, a[i].After, b[i].Before, b[i].After)
		}
	}
	return ""
}

func cmtTexts(a []Cmt) []string {
	var r []string
	for _, c := range a {
		r = append(r, c.T)
	}
	return r
}

func nDiff(path string, a, b *N, o cmpOpt) string {
	if a == nil || b == nil {
		if a == b {
			return ""
		}
		return fmt.Sprintf("%s: present %v vs %v", path, a != nil, b != nil)
	}
	path += "/" + a.K
	if a.K != b.K {
		return fmt.Sprintf("%s: kind %s vs %s", path, a.K, b.K)
	}
	if a.Name != b.Name {
		return fmt.Sprintf("%s: name %q vs %q", path, a.Name, b.Name)
	}
	path += "(" + a.Name + ")"
	if a.Val != b.Val {
		return fmt.Sprintf("%s: value %q vs %q", path, a.Val, b.Val)
	}
	if a.Num != b.Num {
		return fmt.Sprintf("%s: number %v vs %v", path, a.Num, b.Num)
	}
	if a.Bool != b.Bool {
		return fmt.Sprintf("%s: boolean operator %q vs %q", path, a.Bool, b.Bool)
	}
	if o.pos && a.hasPos && b.hasPos && a.Pos != b.Pos {
		return fmt.Sprintf("%s: position %v vs %v", path, a.Pos, b.Pos)
	}
	if o.pos && a.Bool != "" && a.BoolP != b.BoolP {
		return fmt.Sprintf("%s: boolean operator position %v vs %v", path, a.BoolP, b.BoolP)
	}
	if d := cmtDiff(path+"[comment]", a.C, b.C, o); d != "" {
		return d
	}
	if d := cmtDiff(path+"[footer]", a.F, b.F, o); d != "" {
		return d
	}
	if len(a.Kids) != len(b.Kids) {
		return fmt.Sprintf("%s: %d children %v vs %d children %v", path, len(a.Kids), kinds(a.Kids), len(b.Kids), kinds(b.Kids))
	}
	for i := range a.Kids {
		if d := nDiff(fmt.Sprintf("%s[%d]", path, i), a.Kids[i], b.Kids[i], o); d != "" {
			return d
		}
	}
	return ""
}

func kinds(ns []*N) []string {
	var r []string
	for _, n := range ns {
		if n == nil {
			r = append(r, "nil")
			continue
		}
		r = append(r, n.K+"("+n.Name+")")
	}
	return r
}

// confDiff describes the first difference of two configurations, or "".
func confDiff(a, b *Conf, o cmpOpt) string {
	names := [3]string{"input", "filter", "output"}
	for g := 0; g < 3; g++ {
		if len(a.Groups[g]) != len(b.Groups[g]) {
			return fmt.Sprintf("%d vs %d %s sections", len(a.Groups[g]), len(b.Groups[g]), names[g])
		}
		for i := range a.Groups[g] {
			if d := nDiff(fmt.Sprintf("%s[%d]", names[g], i), a.Groups[g][i], b.Groups[g][i], o); d != "" {
				return d
			}
		}
	}
	if d := cmtDiff("config[footer]", a.F, b.F, o); d != "" {
		return d
	}
	if o.warnings {
		if strings.Join(a.Warnings, "\n") != strings.Join(b.Warnings, "\n") {
			return fmt.Sprintf("warnings %q vs %q", a.Warnings, b.Warnings)
		}
	}
	return ""
}

func (c *Conf) sections() int {
	return len(c.Groups[0]) + len(c.Groups[1]) + len(c.Groups[2])
}

// walk visits every node, parents first.
func (n *N) walk(f func(*N)) {
	if n == nil {
		return
	}
	f(n)
	for _, k := range n.Kids {
		k.walk(f)
	}
}

func (c *Conf) walk(f func(*N)) {
	for _, g := range c.Groups {
		for _, s := range g {
			s.walk(f)
		}
	}
}

func (n *N) depth() int {
	d := 0
	for _, k := range n.Kids {
		if k == nil {
			continue
		}
		if kd := k.depth(); kd > d {
			d = kd
		}
	}
	return d + 1
}

// stripComments returns a copy without comments.
func (c *Conf) stripComments() *Conf {
	r := &Conf{Warnings: c.Warnings}
	for g := range c.Groups {
		for _, s := range c.Groups[g] {
			r.Groups[g] = append(r.Groups[g], s.strip())
		}
	}
	return r
}

func (n *N) strip() *N {
	if n == nil {
		return nil
	}
	c := *n
	c.C, c.F, c.Kids = nil, nil, nil
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.strip())
	}
	return &c
}

// dropEmptyElse removes else blocks without content: they are not printed.
func (c *Conf) dropEmptyElse() {
	c.walk(func(n *N) {
		if n.K != "branch" {
			return
		}
		var kids []*N
		for _, k := range n.Kids {
			if k.K == "else" && len(k.Kids) == 0 && len(k.C) == 0 && len(k.F) == 0 {
				continue
			}
			kids = append(kids, k)
		}
		n.Kids = kids
	})
}
