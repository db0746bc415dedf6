package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Reference parser: a hand-written recursive descent reading of the documented
// grammar (logstash_config.peg: ordered choice, `_` gaps that keep comments,
// `__` gaps that lose them, commit points on unclosed constructs). It shares
// no code with the parser under test.

type reject struct{ why string }

type refOpts struct {
	warn           bool
	ignoreComments bool
	bytes          bool // invalid UTF-8 is permitted
}

type rparser struct {
	s     string
	i     int
	o     refOpts
	warns []P
	// sticky records an error that makes the parse fail even if the parser
	// continues behind it.
	sticky string
	// lost counts comments in exceptional places.
	lost            int
	inCond, inList  int
	listWarns       map[P]bool
	condLost        bool
	lineStart       []int
	charsAt         []int // see chars
	maxDepth, depth int
	// cspans are the comments (without line break), lspans the literals that
	// may contain line breaks.
	cspans, lspans [][2]int
}

type refResult struct {
	conf     *Conf
	ok       bool
	why      string
	lost     int
	condLost bool // a lost comment inside a condition (prints differently)
	// listWarns are the warnings for comments inside an array or hash that is
	// an operand of a condition.
	listWarns map[string]bool
	cspans    [][2]int
	lspans    [][2]int
}

func refParse(s string, o refOpts) (res refResult) {
	p := &rparser{s: s, o: o, listWarns: map[P]bool{}}
	defer func() {
		if r := recover(); r != nil {
			if rj, ok := r.(reject); ok {
				res = refResult{ok: false, why: rj.why}
				return
			}
			panic(r)
		}
	}()
	if !o.bytes && !utf8.ValidString(s) {
		return refResult{why: "invalid UTF-8"}
	}
	for k := 0; k < len(s); k++ {
		if s[k] == '\n' {
			p.lineStart = append(p.lineStart, k+1)
		}
	}
	c, ok := p.config()
	if ok && p.sticky != "" {
		return refResult{why: p.sticky}
	}
	if !ok {
		return refResult{why: "no match"}
	}
	lw := map[string]bool{}
	for _, w := range p.warns {
		m := fmt.Sprintf("exceptional comment at %v", w)
		c.Warnings = append(c.Warnings, m)
		if p.listWarns[w] {
			lw[m] = true
		}
	}
	return refResult{listWarns: lw, conf: c, ok: true, lost: p.lost, condLost: p.condLost, cspans: p.cspans, lspans: p.lspans}
}

func (p *rparser) fatal(why string) { panic(reject{why}) }

// posAt computes line, column and offset of a byte offset.
func (p *rparser) posAt(off int) P {
	lo, hi := 0, len(p.lineStart)
	for lo < hi {
		m := (lo + hi) / 2
		if p.lineStart[m] <= off {
			lo = m + 1
		} else {
			hi = m
		}
	}
	start := 0
	if lo > 0 {
		start = p.lineStart[lo-1]
	}
	return P{L: lo + 1, C: 1 + p.chars(start, off), O: off}
}

const charStep = 512

// chars counts the characters between two offsets. For long lines of valid
// texts it uses the number of characters in front of every 512th byte.
func (p *rparser) chars(a, b int) int {
	if b-a < 4*charStep || b < len(p.s) && !utf8.RuneStart(p.s[b]) {
		return utf8.RuneCountInString(p.s[a:b])
	}
	if p.charsAt == nil {
		p.charsAt = []int{-1}
		if utf8.ValidString(p.s) {
			p.charsAt = make([]int, 0, len(p.s)/charStep+1)
			n := 0
			for i := 0; i < len(p.s); i++ {
				if i%charStep == 0 {
					p.charsAt = append(p.charsAt, n)
				}
				if utf8.RuneStart(p.s[i]) {
					n++
				}
			}
		}
	}
	if p.charsAt[0] < 0 {
		return utf8.RuneCountInString(p.s[a:b])
	}
	upTo := func(i int) int {
		k := min(i/charStep, len(p.charsAt)-1)
		n := p.charsAt[k]
		for j := k * charStep; j < i; j++ {
			if utf8.RuneStart(p.s[j]) {
				n++
			}
		}
		return n
	}
	return upTo(b) - upTo(a)
}

// gapPos is the position of a gap. The parser under test counts a line break as
// column 0 of the line it starts, and so does this.
func (p *rparser) gapPos(off int) P {
	r := p.posAt(off)
	if off < len(p.s) && p.s[off] == '\n' {
		r.L, r.C = r.L+1, 0
	}
	return r
}

func (p *rparser) lit(l string) bool {
	if strings.HasPrefix(p.s[p.i:], l) {
		p.i += len(l)
		return true
	}
	return false
}

func (p *rparser) peek() int {
	if p.i < len(p.s) {
		return int(p.s[p.i])
	}
	return -1
}

func isWS(c int) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

// gap is the result of matching `(comment / whitespace)*`.
type gap struct {
	start, end int
	cmts       []Cmt
	wsAfter    bool // white space follows the last comment
}

func (p *rparser) gapAt() gap {
	g := gap{start: p.i}
	blank := false
	for {
		// optional white space, then a comment?
		j := p.i
		nl := 0
		for j < len(p.s) && isWS(int(p.s[j])) {
			if p.s[j] == '\n' {
				nl++
			}
			j++
		}
		if j < len(p.s) && p.s[j] == '#' {
			k := j
			for k < len(p.s) && p.s[k] != '\n' && p.s[k] != '\r' {
				k++
			}
			e := k
			if e < len(p.s) && p.s[e] == '\r' {
				e++
			}
			if e == len(p.s) || p.s[e] == '\n' {
				// the line break of the previous comment is already consumed,
				// so one more line break here is a blank line
				blank = len(g.cmts) > 0 && nl > 0
				p.cspans = append(p.cspans, [2]int{j, k})
				g.cmts = append(g.cmts, Cmt{T: strings.Trim(p.s[j+1:k], " "), Before: blank})
				if e < len(p.s) {
					e++
				}
				p.i = e
				continue
			}
			// not a comment (a lone carriage return inside): the gap ends
			// before the '#'
		}
		if j > p.i {
			if len(g.cmts) > 0 {
				g.wsAfter = true
			}
			p.i = j
			continue
		}
		break
	}
	g.end = p.i
	return g
}

// kept is a `_` gap. The flags tell how blank lines around are recorded.
func (p *rparser) kept() gap { return p.gapAt() }

func (g gap) block(p *rparser, before, after bool) []Cmt {
	if p.o.ignoreComments || len(g.cmts) == 0 {
		return nil
	}
	r := append([]Cmt(nil), g.cmts...)
	if before {
		r[0].Before = true
	}
	if after && g.wsAfter {
		r[len(r)-1].After = true
	}
	return r
}

// lostGap is a `__` gap.
func (p *rparser) lostGap() {
	g := p.gapAt()
	if len(g.cmts) > 0 {
		p.lost++
		if p.inCond > 0 {
			p.condLost = true
		}
		if p.o.warn {
			w := p.gapPos(g.start)
			p.warns = append(p.warns, w)
			if p.inCond > 0 && p.inList > 0 {
				p.listWarns[w] = true
			}
		}
	}
}

type mark struct {
	i, w, lost int
	condLost   bool
	cs, ls     int
}

func (p *rparser) mark() mark {
	return mark{p.i, len(p.warns), p.lost, p.condLost, len(p.cspans), len(p.lspans)}
}
func (p *rparser) back(m mark) {
	p.i = m.i
	p.warns = p.warns[:m.w]
	p.lost = m.lost
	p.condLost = m.condLost
	p.cspans = p.cspans[:m.cs]
	p.lspans = p.lspans[:m.ls]
}

func (p *rparser) config() (*Conf, bool) {
	c := &Conf{}
	first := true
	m := p.mark()
	for {
		m = p.mark()
		g := p.kept()
		s := p.section()
		if s == nil {
			p.back(m)
			break
		}
		_ = first
		s.C = g.block(p, false, true)
		first = false
		idx := map[string]int{"input": 0, "filter": 1, "output": 2}[s.Name]
		c.Groups[idx] = append(c.Groups[idx], s)
	}
	g := p.kept()
	if p.i != len(p.s) {
		return nil, false
	}
	if c.sections() > 0 {
		c.F = g.block(p, true, false)
	} else {
		// comment-only file: documented to become an empty configuration
		c.F = nil
		p.warns = nil
	}
	return c, true
}

func (p *rparser) section() *N {
	start := p.i
	var t string
	for _, k := range []string{"input", "filter", "output"} {
		if p.lit(k) {
			t = k
			break
		}
	}
	if t == "" {
		return nil
	}
	p.lostGap()
	if !p.lit("{") {
		return nil
	}
	n := &N{K: "section", Name: t, Pos: p.posAt(start), hasPos: true}
	for {
		b := p.branchOrPlugin()
		if b == nil {
			break
		}
		n.Kids = append(n.Kids, b)
	}
	n.F = p.kept().block(p, false, false)
	if !p.lit("}") {
		return nil
	}
	return n
}

// branchOrPlugin includes the leading gap.
func (p *rparser) branchOrPlugin() *N {
	m := p.mark()
	if b := p.branch(); b != nil {
		return b
	}
	p.back(m)
	if pl := p.plugin(); pl != nil {
		return pl
	}
	p.back(m)
	return nil
}

func (p *rparser) branch() *N {
	g := p.kept()
	pos := p.posAt(p.i)
	if !p.lit("if") {
		return nil
	}
	ib := p.condBlock("if", pos)
	if ib == nil {
		return nil
	}
	ib.C = g.block(p, false, false)
	b := &N{K: "branch", Pos: pos, hasPos: true, Kids: []*N{ib}}
	for {
		m := p.mark()
		g := p.kept()
		pos := p.posAt(p.i)
		if p.lit("else") {
			p.lostGap()
			if p.lit("if") {
				if eb := p.condBlock("elseif", pos); eb != nil {
					eb.C = g.block(p, false, false)
					b.Kids = append(b.Kids, eb)
					continue
				}
			}
		}
		p.back(m)
		break
	}
	m := p.mark()
	g = p.kept()
	pos = p.posAt(p.i)
	if p.lit("else") {
		p.lostGap()
		if p.lit("{") {
			eb := &N{K: "else", Pos: pos, hasPos: true}
			p.block(eb)
			eb.C = g.block(p, false, false)
			b.Kids = append(b.Kids, eb)
			return b
		}
	}
	p.back(m)
	return b
}

// condBlock parses what follows the keyword of an if or else-if block.
func (p *rparser) condBlock(kind string, pos P) *N {
	p.inCond++
	p.lostGap()
	c := p.condition()
	if c == nil {
		p.inCond--
		return nil
	}
	p.lostGap()
	p.inCond--
	if !p.lit("{") {
		return nil
	}
	n := &N{K: kind, Pos: pos, hasPos: true, Kids: []*N{c}}
	p.block(n)
	return n
}

// block parses statements up to and including the closing brace.
func (p *rparser) block(n *N) {
	save := p.inCond
	p.inCond = 0
	for {
		b := p.branchOrPlugin()
		if b == nil {
			break
		}
		n.Kids = append(n.Kids, b)
	}
	p.inCond = save
	n.F = p.kept().block(p, false, false)
	if !p.lit("}") {
		p.fatal("unclosed block")
	}
}

func isNameByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

func isWordByte(c byte) bool { return isNameByte(c) && c != '-' }

// name returns a raw name, quotes included.
func (p *rparser) name() (string, P, bool) {
	pos := p.posAt(p.i)
	j := p.i
	for j < len(p.s) && isNameByte(p.s[j]) {
		j++
	}
	if j > p.i {
		r := p.s[p.i:j]
		p.i = j
		return r, pos, true
	}
	if q, v, ok := p.str(); ok {
		return q + v + q, pos, true
	}
	return "", pos, false
}

// enclosed matches open, then anything with `\close` as an escape, then close.
func (p *rparser) enclosed(q byte, what string) (string, bool) {
	if p.peek() != int(q) {
		return "", false
	}
	j := p.i + 1
	for j < len(p.s) {
		if p.s[j] == '\\' && j+1 < len(p.s) && p.s[j+1] == q {
			j += 2
			continue
		}
		if p.s[j] == q {
			v := p.s[p.i+1 : j]
			p.lspans = append(p.lspans, [2]int{p.i, j + 1})
			p.i = j + 1
			return v, true
		}
		j++
	}
	p.fatal("unclosed " + what)
	return "", false
}

func (p *rparser) str() (q, v string, ok bool) {
	if v, ok := p.enclosed('"', "string"); ok {
		return `"`, v, true
	}
	if v, ok := p.enclosed('\'', "string"); ok {
		return `'`, v, true
	}
	return "", "", false
}

func (p *rparser) plugin() *N {
	g := p.kept()
	name, pos, ok := p.name()
	if !ok {
		return nil
	}
	p.lostGap()
	if !p.lit("{") {
		return nil
	}
	n := &N{K: "plugin", Name: name, Pos: pos, hasPos: true}
	n.C = g.block(p, false, false)
	save := p.inCond
	p.inCond = 0
	for {
		m := p.mark()
		if len(n.Kids) > 0 {
			if !isWS(p.peek()) {
				break
			}
			for isWS(p.peek()) {
				p.i++
			}
		}
		g := p.kept()
		a := p.attribute()
		if a == nil {
			p.back(m)
			break
		}
		a.C = g.block(p, len(n.Kids) > 0, false)
		n.Kids = append(n.Kids, a)
	}
	p.inCond = save
	n.F = p.kept().block(p, false, false)
	if !p.lit("}") {
		p.fatal("unclosed plugin")
	}
	return n
}

func (p *rparser) attribute() *N {
	name, pos, ok := p.name()
	if !ok {
		return nil
	}
	p.lostGap()
	if !p.lit("=>") {
		return nil
	}
	p.lostGap()
	v := p.value()
	if v == nil {
		return nil
	}
	if v.K == "plugin" {
		v = &N{K: "pluginvalue", Kids: []*N{v}}
	}
	v.Name = name
	v.Pos = pos
	v.hasPos = true
	return v
}

// value parses an attribute, array element or hash entry value.
func (p *rparser) value() *N {
	m := p.mark()
	if pl := p.plugin(); pl != nil {
		return pl
	}
	p.back(m)
	pos := p.posAt(p.i)
	if w := p.bareword(); w != "" {
		return &N{K: "string", Val: w, Pos: pos, hasPos: true}
	}
	if q, v, ok := p.str(); ok {
		return &N{K: "string", Val: q + v + q, Pos: pos, hasPos: true}
	}
	if n := p.number(); n != nil {
		return n
	}
	if n := p.array(); n != nil {
		return n
	}
	return p.hash()
}

func (p *rparser) bareword() string {
	j := p.i
	if j < len(p.s) && isWordByte(p.s[j]) && !(p.s[j] >= '0' && p.s[j] <= '9') {
		j++
		for j < len(p.s) && isWordByte(p.s[j]) {
			j++
		}
		if j-p.i >= 2 {
			w := p.s[p.i:j]
			p.i = j
			return w
		}
	}
	return ""
}

func isDigit(c int) bool { return c >= '0' && c <= '9' }

func (p *rparser) number() *N {
	start := p.i
	j := p.i
	at := func(k int) int {
		if k < len(p.s) {
			return int(p.s[k])
		}
		return -1
	}
	if at(j) == '-' {
		j++
	}
	if !isDigit(at(j)) {
		return nil
	}
	for isDigit(at(j)) {
		j++
	}
	if at(j) == '.' {
		j++
		for isDigit(at(j)) {
			j++
		}
	}
	p.i = j
	f, err := strconv.ParseFloat(p.s[start:j], 64)
	if err != nil {
		p.sticky = "number out of range"
	}
	return &N{K: "number", Num: f, Pos: p.posAt(start), hasPos: true}
}

func (p *rparser) array() *N {
	pos := p.posAt(p.i)
	if !p.lit("[") {
		return nil
	}
	n := &N{K: "array", Pos: pos, hasPos: true}
	p.inList++
	for {
		m := p.mark()
		if len(n.Kids) > 0 {
			p.lostGap()
			if !p.lit(",") {
				p.back(m)
				break
			}
		}
		g := p.kept()
		v := p.value()
		if v == nil {
			p.back(m)
			break
		}
		if v.K == "plugin" {
			p.sticky = "plugin as array element"
		}
		v.C = g.block(p, len(n.Kids) > 0, false)
		n.Kids = append(n.Kids, v)
	}
	n.F = p.kept().block(p, false, false)
	if !p.lit("]") {
		p.fatal("unclosed array")
	}
	p.inList--
	return n
}

func (p *rparser) hash() *N {
	pos := p.posAt(p.i)
	if !p.lit("{") {
		return nil
	}
	n := &N{K: "hash", Pos: pos, hasPos: true}
	p.inList++
	for {
		m := p.mark()
		if len(n.Kids) > 0 {
			if !isWS(p.peek()) {
				break
			}
			for isWS(p.peek()) {
				p.i++
			}
		}
		g := p.kept()
		e := p.hashEntry()
		if e == nil {
			p.back(m)
			break
		}
		e.C = g.block(p, len(n.Kids) > 0, false)
		n.Kids = append(n.Kids, e)
	}
	n.F = p.kept().block(p, false, false)
	if !p.lit("}") {
		p.fatal("unclosed hash")
	}
	p.inList--
	return n
}

func (p *rparser) hashEntry() *N {
	pos := p.posAt(p.i)
	var key *N
	if key = p.number(); key == nil {
		if w := p.bareword(); w != "" {
			key = &N{K: "string", Val: w, Pos: pos, hasPos: true}
		} else if q, v, ok := p.str(); ok {
			key = &N{K: "string", Val: q + v + q, Pos: pos, hasPos: true}
		} else {
			return nil
		}
	}
	p.lostGap()
	if !p.lit("=>") {
		return nil
	}
	p.lostGap()
	v := p.value()
	if v == nil {
		return nil
	}
	if v.K == "plugin" {
		p.fatal("plugin as hash value")
	}
	return &N{K: "entry", Pos: pos, hasPos: true, Kids: []*N{key, v}}
}

func (p *rparser) condition() *N {
	e := p.expression()
	if e == nil {
		return nil
	}
	c := &N{K: "condition", Pos: e.Pos, hasPos: true, Kids: []*N{e}}
	for {
		m := p.mark()
		p.lostGap()
		pos := p.posAt(p.i)
		op := ""
		for _, k := range []string{"and", "or", "xor", "nand"} {
			if p.lit(k) {
				op = k
				break
			}
		}
		if op == "" {
			p.back(m)
			return c
		}
		p.lostGap()
		e := p.expression()
		if e == nil {
			p.back(m)
			return c
		}
		e.Bool = op
		e.BoolP = pos
		c.Kids = append(c.Kids, e)
	}
}

func (p *rparser) expression() *N {
	m := p.mark()
	pos := p.posAt(p.i)
	if p.lit("(") {
		p.lostGap()
		if c := p.condition(); c != nil {
			p.lostGap()
			if p.lit(")") {
				return &N{K: "paren", Pos: pos, hasPos: true, Kids: []*N{c}}
			}
		}
		p.back(m)
		return nil
	}
	if p.lit("!") {
		p.lostGap()
		m2 := p.mark()
		if p.lit("(") {
			p.lostGap()
			if c := p.condition(); c != nil {
				p.lostGap()
				if !p.lit(")") {
					p.fatal("unclosed parenthesis")
				}
				return &N{K: "negcond", Pos: pos, hasPos: true, Kids: []*N{c}}
			}
		}
		p.back(m2)
		if s := p.selector(); s != nil {
			return &N{K: "negsel", Pos: pos, hasPos: true, Kids: []*N{s}}
		}
		p.back(m)
		return nil
	}
	lv := p.rvalue()
	if lv == nil {
		p.back(m)
		return nil
	}
	ml := p.mark()
	two := func(kind string, ops []string, regexp bool) *N {
		p.back(ml)
		p.lostGap()
		opPos := p.posAt(p.i)
		op := ""
		for _, k := range ops {
			if k == "not in" {
				if p.lit("not ") {
					p.lostGap()
					if p.lit("in") {
						op = k
					}
				}
				continue
			}
			if p.lit(k) {
				op = k
				break
			}
		}
		if op == "" {
			return nil
		}
		p.lostGap()
		var rv *N
		if regexp {
			rv = p.strOrRegexp()
		} else {
			rv = p.rvalue()
		}
		if rv == nil {
			return nil
		}
		n := &N{K: kind, Pos: pos, hasPos: true, Kids: []*N{lv}}
		if kind == "compare" || kind == "match" {
			n.Kids = append(n.Kids, &N{K: "op", Val: op, Pos: opPos, hasPos: true})
		}
		n.Kids = append(n.Kids, rv)
		return n
	}
	if n := two("in", []string{"in"}, false); n != nil {
		return n
	}
	if n := two("notin", []string{"not in"}, false); n != nil {
		return n
	}
	if n := two("compare", []string{"==", "!=", "<=", ">=", "<", ">"}, false); n != nil {
		return n
	}
	if n := two("match", []string{"=~", "!~"}, true); n != nil {
		return n
	}
	p.back(ml)
	return &N{K: "rvalue", Pos: pos, hasPos: true, Kids: []*N{lv}}
}

func (p *rparser) strOrRegexp() *N {
	pos := p.posAt(p.i)
	if q, v, ok := p.str(); ok {
		return &N{K: "string", Val: q + v + q, Pos: pos, hasPos: true}
	}
	if v, ok := p.enclosed('/', "regexp"); ok {
		return &N{K: "regexp", Val: v, Pos: pos, hasPos: true}
	}
	return nil
}

func (p *rparser) rvalue() *N {
	pos := p.posAt(p.i)
	if q, v, ok := p.str(); ok {
		return &N{K: "string", Val: q + v + q, Pos: pos, hasPos: true}
	}
	if n := p.number(); n != nil {
		return n
	}
	if s := p.selector(); s != nil {
		return s
	}
	if n := p.array(); n != nil {
		return n
	}
	if v, ok := p.enclosed('/', "regexp"); ok {
		return &N{K: "regexp", Val: v, Pos: pos, hasPos: true}
	}
	return nil
}

func (p *rparser) selector() *N {
	pos := p.posAt(p.i)
	n := &N{K: "selector", Pos: pos, hasPos: true}
	for p.peek() == '[' {
		j := p.i + 1
		for j < len(p.s) && p.s[j] != ']' && p.s[j] != '[' && p.s[j] != ',' {
			j++
		}
		if j == p.i+1 || j >= len(p.s) || p.s[j] != ']' {
			break
		}
		n.Kids = append(n.Kids, &N{K: "element", Val: p.s[p.i+1 : j], Pos: p.posAt(p.i), hasPos: true})
		p.lspans = append(p.lspans, [2]int{p.i, j + 1})
		p.i = j + 1
	}
	if len(n.Kids) == 0 {
		return nil
	}
	return n
}
