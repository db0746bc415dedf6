package main

import (
	"fmt"
	"runtime"
	"strings"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"github.com/breml/logstash-config/ast/astutil"
	"pgregory.net/rapid"
)

// ---- C34: memory in proportion to the input ----

// memCase is a text with Unit repeated, or (Value) a value to be quoted.
type memCase struct {
	W     workCase
	Value bool `json:",omitempty"`
}

// memRepeats are texts in which one construct is repeated side by side.
var memRepeats = []workCase{
	{Pre: "filter { if [a] in [", Unit: "\"x\" #c\n,", Post: "1] {}}", O: popts{Warn: true}}, {Pre: "input { a { ", Unit: "b #c\n => 1 ", Post: "} }", O: popts{Warn: true}},
	{Pre: "filter { ", Unit: "if #x\n [a] { } # y\n", Post: "}", O: popts{Warn: true}}, {Pre: "output { ", Unit: "# c\n\n p { # d\n a => [1, # e\n 2] # f\n } # g\n", Post: " }"},
	{Pre: "output { p { h => { ", Unit: "\"k\" => 'v' # d\n 'l' => 1.5 ", Post: " } } }"}, {Pre: "filter { if ", Unit: "!([a][b] == \"x\") or [c] not in [1, 2] nand ", Post: "[b] =~ /x/ { } }"},
	{Pre: "filter { if [a] { } ", Unit: "# c\n else if [b] in \"x\" { p { } } ", Post: " else { } }"}, {Unit: "input { a { } } # c\n filter { }\n", Post: ""}, {Pre: "input { a { b => 'x", Unit: "line\n\\'", Post: "' } }"},
	{Pre: "input { ", Unit: "a { c => d { e => 1 } } ", Post: " }"}, {Pre: "input { a { b => 1 ", Unit: "c => ", Post: " } }"}, {Pre: "input { ", Unit: "if [a] { ", Post: "} }"},
}

func genMem(t *rapid.T) memCase {
	n := []int{256, 256, 512, 512, 1024}[intn(t, 5, "n")]
	if intn(t, 6, "value") == 0 {
		u := Txt("")
		for i := 1 + intn(t, 4, "unitN"); i > 0; i-- {
			u += Txt(pick(t, "part", "a", "\"", "'", "\\", "\\\"", "\\n", "\n", " ", "é", "\xff", "_", "-", "/", "{", "\x00"))
		}
		return memCase{W: workCase{Unit: u, N: 16 * n}, Value: true}
	}
	var c workCase
	if intn(t, 2, "list") == 0 {
		c = memRepeats[intn(t, len(memRepeats), "memRepeat")]
		o := genPopts(t, false)
		o.Warn = o.Warn || c.O.Warn
		c.O = o
	} else {
		for c.N == 0 {
			c = genWork(t)
		}
	}
	c.N = n
	c.O.Misc, c.O.Stats, c.O.Limit = 0, false, 0
	return memCase{W: c}
}

// allocated returns the bytes allocated by f.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func checkC34(x *Ctx, c memCase) error {
	var names []string
	var use [2][]uint64
	accepted := false
	for i, n := range []int{2 * c.W.N, 4 * c.W.N} {
		names = names[:0]
		step := func(name string, f func()) {
			names = append(names, name)
			use[i] = append(use[i], allocated(f))
		}
		if c.Value {
			s := strings.Repeat(string(c.W.Unit), n)
			for _, typ := range []ast.StringAttributeType{ast.DoubleQuoted, ast.SingleQuoted, ast.Bareword} {
				step("Quote", func() { astutil.Quote(s, typ) })
				step("QuoteWithEscape", func() { astutil.QuoteWithEscape(s, typ) })
			}
			step("Escape", func() { astutil.Escape(s) })
			step("Unescape", func() { astutil.Unescape(s) })
			continue
		}
		text := c.W.text(n)
		var v any
		var err error
		step("parsing", func() { v, err = config.Parse("test.conf", []byte(text), c.W.O.list()...) })
		step("the farthest failure", func() { config.GetFarthestFailure() })
		conf, ok := v.(ast.Config)
		accepted = err == nil && ok
		if !accepted || c.W.Close != "" {
			continue
		}
		step("printing", func() { _ = fmt.Sprint(conf) })
		step("visiting the plugins", func() {
			for k := range conf.Input {
				conf.Input[k].BranchOrPlugins = astutil.ApplyPlugins(conf.Input[k].BranchOrPlugins, func(c *astutil.Cursor) {})
			}
			for k := range conf.Filter {
				conf.Filter[k].BranchOrPlugins = astutil.ApplyPlugins(conf.Filter[k].BranchOrPlugins, func(c *astutil.Cursor) {})
			}
			for k := range conf.Output {
				conf.Output[k].BranchOrPlugins = astutil.ApplyPlugins(conf.Output[k].BranchOrPlugins, func(c *astutil.Cursor) {})
			}
		})
	}
	x.Label("value", c.Value)
	x.Label("accepted text", accepted)
	x.Label("rejected text", !accepted && !c.Value)
	x.Label("warnings", c.W.O.Warn)
	if len(use[0]) != len(use[1]) {
		use[0], use[1] = use[0][:min(len(use[0]), len(use[1]))], use[1][:min(len(use[0]), len(use[1]))]
	}
	grows := false
	for i := range use[0] {
		grows = grows || use[1][i] > use[0][i]+uint64(c.W.N)
		if use[1][i] > 2*use[0][i]+use[0][i]/2+400000 {
			return viol("%s takes %d bytes of memory for %d repetitions and %d bytes for %d repetitions of %q in %q...%q%q: it grows faster than the input", names[i], use[0][i], 2*c.W.N, use[1][i], 4*c.W.N, c.W.Unit, c.W.Pre, c.W.Post, c.W.Close)
		}
	}
	x.Interesting(grows)
	return nil
}

func init() {
	var fixed []memCase
	for _, w := range append(append([]workCase{}, memRepeats...), repeats...) {
		w.N = 512
		fixed = append(fixed, memCase{W: w})
	}
	reg("C34", "texts with one construct (known or assembled from random tokens) repeated side by side or nested 2N and 4N times (N up to 1024) under option combinations, and values of up to a megabyte; memory is what the runtime counts as allocated; non-trivial: the memory grows with the repetitions",
		genMem, checkC34, cases(300, 20000), corpus(fixed...), assume("Memory is counted by the Go runtime (MemStats.TotalAlloc)."))
}
