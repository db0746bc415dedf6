package main

import (
	"bytes"
	"context"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	config "github.com/breml/logstash-config"
	"github.com/breml/logstash-config/ast"
	"pgregory.net/rapid"
)

// popts are parser options in a form that can be saved.
type popts struct {
	Warn   bool `json:"warn,omitempty"`
	Ignore bool `json:"ignore,omitempty"`
	Memo   bool `json:"memo,omitempty"`
	Stats  bool `json:"stats,omitempty"`
	Bytes  bool `json:"bytes,omitempty"` // allow invalid UTF-8
	Limit  int  `json:"limit,omitempty"`
	Off    bool `json:"off,omitempty"`  // set options explicitly to their defaults first
	Misc   int  `json:"misc,omitempty"` // further options, which must not change the result
}

func (o popts) list() []config.Option {
	var r []config.Option
	if o.Off {
		r = append(r, config.ExceptionalCommentsWarning(false), config.IgnoreComments(false), config.Memoize(false), config.AllowInvalidUTF8(false), config.MaxExpressions(0))
	}
	if o.Misc&1 != 0 {
		r = append(r, config.GlobalStore("user key", 1), config.GlobalStore("user key", nil))
	}
	if o.Misc&2 != 0 {
		r = append(r, config.InitState("user key", "value"))
	}
	if o.Misc&4 != 0 {
		r = append(r, config.Recover(true))
	}
	if o.Misc&8 != 0 {
		r = append(r, config.Entrypoint(""))
	}
	if o.Warn {
		r = append(r, config.ExceptionalCommentsWarning(true))
	}
	if o.Ignore {
		r = append(r, config.IgnoreComments(true))
	}
	if o.Memo {
		r = append(r, config.Memoize(true))
	}
	if o.Stats {
		r = append(r, config.Statistics(&config.Stats{}, "no match"))
	}
	if o.Bytes {
		r = append(r, config.AllowInvalidUTF8(true))
	}
	if o.Limit > 0 {
		r = append(r, config.MaxExpressions(uint64(o.Limit)))
	}
	return r
}

func genPopts(t *rapid.T, limits bool) popts {
	b := func(l string) bool { return intn(t, 3, l) == 0 }
	o := popts{Warn: b("warn"), Ignore: b("ignore"), Memo: intn(t, 6, "memo") == 0, Stats: b("stats"), Bytes: intn(t, 6, "bytes") == 0, Off: b("off")}
	if limits && intn(t, 6, "limited") == 0 {
		o.Limit = rapid.IntRange(1, 2000).Draw(t, "limit")
	}
	if intn(t, 4, "misc?") == 0 {
		o.Misc = intn(t, 16, "misc")
	}
	return o
}

// outcome of a parse in a comparable form.
type parsed struct {
	Err     string `json:"err,omitempty"`
	Tree    *Conf  `json:"tree,omitempty"`
	Text    Txt    `json:"text,omitempty"`
	Failure Txt    `json:"failure,omitempty"`
	HasFail bool   `json:"has_failure,omitempty"`
	Buffer  string `json:"buffer,omitempty"` // wrong treatment of the input's memory
}

func outcomeOf(v any, err error) parsed {
	var r parsed
	if err != nil {
		r.Err = fmt.Sprintf("%T %s", err, err)
	}
	if c, ok := v.(ast.Config); ok {
		r.Tree, r.Text = fromAST(c), Txt(c.String())
	} else if v != nil {
		r.Err += fmt.Sprintf(" VALUE %T", v)
	}
	return r
}

func (p parsed) diff(o parsed) string {
	if p.Err != o.Err {
		return fmt.Sprintf("error %q vs %q", p.Err, o.Err)
	}
	if (p.Tree == nil) != (o.Tree == nil) {
		return fmt.Sprintf("tree present: %v vs %v", p.Tree != nil, o.Tree != nil)
	}
	if p.Tree != nil {
		if d := confDiff(p.Tree, o.Tree, cmpOpt{pos: true, comments: true, spacing: true, warnings: true}); d != "" {
			return d
		}
	}
	if p.Text != o.Text {
		return fmt.Sprintf("formatted text %q vs %q", p.Text, o.Text)
	}
	if p.HasFail != o.HasFail || p.Failure != o.Failure {
		return fmt.Sprintf("farthest failure %v %q vs %v %q", p.HasFail, p.Failure, o.HasFail, o.Failure)
	}
	return ""
}

// ---- C03: every input, bounded work ----

type workCase struct {
	Text  Txt  `json:"text,omitempty"`
	Pre   Txt  `json:"pre,omitempty"` // or Pre Unit^N Post Close^N
	Unit  Txt  `json:"unit,omitempty"`
	Post  Txt  `json:"post,omitempty"`
	Close Txt  `json:"close,omitempty"`
	N     int  `json:"n,omitempty"`
	Alone bool `json:"alone,omitempty"` // parsed in a process of its own, once
	O     popts
}

var repeats = []workCase{
	{Pre: "input { a { ", Unit: "b => 1 ", Post: "} }"}, {Pre: "input { a { b => [", Unit: " 1 ,", Post: " 1 ] } }"}, {Pre: "filter { if ", Unit: "[a] == 1 and ", Post: "[b] { } }"},
	{Pre: "filter { if [a] { } ", Unit: "else if [b] { } ", Post: " else { } }"}, {Unit: "input { } "}, {Unit: "# c\n", Post: "input {}"}, {Pre: "input { ", Unit: "a { } ", Post: "}"},
	{Pre: "input { a { b => { ", Unit: "a => 1 ", Post: "} } }"}, {Pre: "filter { if ", Unit: "[a]", Post: " { } }"}, {Pre: "filter { if [1,", Unit: "1,", Post: "2] == 2 { } }"}, {Pre: "filter { if [a] { ", Unit: "# x\n", Post: " } }"},
	{Pre: "input { a { b => \"", Unit: "x", Post: "\" } }"}, {Pre: "input { a { b => \"", Unit: "\\\"", Post: "\" } }"}, {Pre: "input { a { b => ", Unit: "1", Post: " } }"}, {Pre: "input { a { b => xx", Unit: "x", Post: " } }"}, {Pre: "filter { if [a] =~ /", Unit: "\\/", Post: "/ { } }"},
	{Pre: "filter { if ", Unit: "(", Post: "[a]", Close: ")"}, {Pre: "filter { if ", Unit: "!(", Post: "[a]", Close: ")"}, {Pre: "filter { ", Unit: "if [a] { ", Close: "} "}, {Pre: "input { a { b => ", Unit: "[", Close: "]"}, {Pre: "input { a { b => ", Unit: "{ cc => ", Post: "1", Close: "}"},
	{Pre: "input { a { b => ", Unit: "c { d => ", Post: "1", Close: "}"}, {Pre: "filter { if ", Unit: "[", Post: "1,2", Close: "]"}, {Pre: "filter { if ", Unit: "[1,", Post: "1", Close: "]"}, {Pre: "filter { if ", Unit: "([a] and ", Post: "[b]", Close: ")"}, {Pre: "filter { if ", Unit: "!([a] xor ", Post: "[b]", Close: ")"},
	{Pre: "filter { if [a] in [", Unit: "\"x\" #c\n,", Post: "1] {}}"}, {Pre: "filter { if [", Unit: "#c\n", Post: "1] {}}"}, {Pre: "input { a { b =>", Unit: "\n", Post: "1 } }"}, {Pre: "filter { if [a] { } ", Unit: "# c\n\n", Post: "else { } }"}, {Unit: "\n# c"}, {Pre: "input { if [a]", Unit: "# c\n", Post: "{ } }"},
	{Pre: "filter { if [a] not", Unit: " ", Post: "in [b] { } }"}, {Pre: "input { ", Unit: "if {} ", Post: "}"}, {Pre: "input { ", Unit: "else {} ", Post: "}"}, {Pre: "input { a { ", Unit: "\"k\" => 'v' # c\n", Post: "} }"},
}

func genWork(t *rapid.T) workCase {
	o := genPopts(t, false)
	o.Stats = false
	switch intn(t, 10, "workKind") {
	case 0:
		return workCase{Text: Txt(rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "bytes")), O: o}
	case 1, 2, 3:
		s := genAnyText(t, 16)
		if intn(t, 4, "garble") == 0 {
			k := intn(t, len(s)+1, "garbleAt")
			s = s[:k] + string(rapid.SliceOfN(rapid.Byte(), 1, 4).Draw(t, "garbage")) + s[k:]
		}
		return workCase{Text: Txt(s), O: o}
	}
	var c workCase
	if intn(t, 2, "known") == 0 {
		c = repeats[intn(t, len(repeats), "repeat")]
	} else {
		c.Pre = Txt(pick(t, "pre", "", "input {", "filter { if ", "output { p { a => ", "input { p { a => [", "filter { if [a] ", "filter { if [a] { } ", "input { p { a => { ", "input { p { ", "filter { if [x] in ["))
		for i := 1 + intn(t, 3, "unitN"); i > 0; i-- {
			c.Unit += Txt(mutTokens[intn(t, len(mutTokens), "unitTok")] + pick(t, "sep", "", " ", " "))
		}
		if intn(t, 2, "closers") == 0 {
			for i := len(c.Unit) - 1; i >= 0; i-- {
				c.Close += map[byte]Txt{'{': "}", '[': "]", '(': ")"}[c.Unit[i]]
			}
		}
		c.Post = Txt(pick(t, "post", "", " ", "1", "}", "} }", "] } }", " [a] { } }", "\"", "/ {}"))
	}
	if intn(t, 8, "cut") == 0 {
		c.Close = ""
	}
	c.N = []int{16, 16, 32, 32, 32, 64, 256}[intn(t, 7, "n")]
	if intn(t, 30, "big") == 0 {
		c.N = 1024
	}
	o.Memo = false
	c.O = o
	return c
}

func (c workCase) text(n int) string {
	return string(c.Pre) + strings.Repeat(string(c.Unit), n) + string(c.Post) + strings.Repeat(string(c.Close), n)
}

// work parses and returns the number of evaluated expressions.
func work(s string, o popts) (uint64, error) {
	st := config.Stats{}
	limit := uint64(2000*len(s) + 50000)
	opts := append(o.list(), config.Statistics(&st, "no match"), config.MaxExpressions(limit))
	v, err := config.Parse("test.conf", []byte(s), opts...)
	_, isConf := v.(ast.Config)
	if err == nil && !isConf {
		return 0, viol("parsing %s returns a %T and no error", brief(s), v)
	}
	if err != nil && st.ExprCnt >= limit {
		return 0, viol("parsing %d bytes %s takes more than %d evaluated expressions", len(s), brief(s), limit)
	}
	if err == nil && err2str(err) != "" {
		return 0, viol("nil error with text")
	}
	return st.ExprCnt, nil
}

func err2str(e error) string {
	if e == nil {
		return ""
	}
	return e.Error()
}

func brief(s string) string {
	if len(s) > 300 {
		return q(s[:200]) + "..." + q(s[len(s)-80:])
	}
	return q(s)
}

// internalPanic parses without recovery and tells whether the parser hit a
// runtime error.
func internalPanic(s string, o popts) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if re, ok := r.(runtime.Error); ok {
				err = viol("parsing %s: runtime error: %v", brief(s), re)
			}
		}
	}()
	config.Parse("test.conf", []byte(s), append(o.list(), config.Recover(false))...)
	return nil
}

func checkC03(x *Ctx, c workCase) error {
	if c.N == 0 {
		s := c.Text.s()
		x.Label("single text")
		x.Interesting(len(s) > 3)
		if _, err := work(s, c.O); err != nil {
			return err
		}
		return internalPanic(s, c.O)
	}
	if c.Alone {
		x.Label("in a process of its own")
		x.Interesting(true)
		return aloneC03(c)
	}
	x.Label("repetition of " + strconv.Itoa(c.N))
	x.Label("nesting", c.Close != "")
	var w [3]uint64
	for i, n := range []int{c.N, 2 * c.N, 4 * c.N} {
		k, err := work(c.text(n), c.O)
		if err != nil {
			return err
		}
		w[i] = k
	}
	if err := internalPanic(c.text(c.N), c.O); err != nil {
		return err
	}
	grows := w[1] > w[0]+uint64(c.N)
	x.Interesting(grows)
	x.Label("work grows", grows)
	x.Label("work does not grow", !grows)
	// linear work: doubling the repetitions at most doubles the work
	if w[2] > 2*w[1]+w[1]/5+3000 {
		return viol("%d, %d and %d repetitions of %q in %q...%q%q: %d, %d and %d evaluated expressions: the work grows faster than the input", c.N, 2*c.N, 4*c.N, c.Unit, c.Pre, c.Post, c.Close, w[0], w[1], w[2])
	}
	return nil
}

// stackLevels is a depth of nesting from which on the recursion of the generated
// parser may need more stack than a Go program can have.
const stackLevels = 50000

const stackSig = "stack-exhausted-by-nesting-deeper-than-50000"

// aloneC03 parses in a process of its own, as the exhaustion of the stack ends a
// Go program.
func aloneC03(c workCase) error {
	self, err := os.Executable()
	if err != nil {
		harness("%v", err)
	}
	in, _ := json.Marshal(c)
	ctx, cancel := context.WithTimeout(context.Background(), 80*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "alone", "x")
	cmd.Stdin = bytes.NewReader(in)
	var ob bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &ob
	err = cmd.Run()
	out := ob.String()
	switch {
	case err == nil:
		return nil
	case ctx.Err() != nil:
		return viol("%d nested %q: the parse does not end", c.N, c.Unit)
	case strings.Contains(out, "goroutine stack exceeds"):
		err := viol("%d nested %q: the process dies, as the stack is exhausted: %s", c.N, c.Unit, out[:min(len(out), 200)])
		if c.N >= stackLevels {
			return finding{stackSig, err}
		}
		return err
	case cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1:
		return viol("%d nested %q: %s", c.N, c.Unit, tail(out, 1000))
	case strings.Contains(out, "goroutine ") && !strings.Contains(out, "out of memory"):
		return viol("%d nested %q: the process dies: %s", c.N, c.Unit, tail(out, 1000))
	}
	harness("cannot parse in a process of its own: %v %s", err, tail(out, 500))
	return nil
}

func aloneMain() {
	var c workCase
	if err := json.NewDecoder(os.Stdin).Decode(&c); err != nil {
		fatalf("%v", err)
	}
	v, err := config.Parse("test.conf", []byte(c.text(c.N)), c.O.list()...)
	if _, ok := v.(ast.Config); err == nil && !ok {
		fmt.Printf("returns a %T and no error\n", v)
		os.Exit(1)
	}
}

// deepWork nests every construct that can be nested.
func deepWork(yield func(workCase)) {
	yield(workCase{Pre: "input { a { b => ", Unit: "[", Close: "]", Post: " } }", N: 100000, Alone: true})
	for _, c := range repeats {
		if c.Close == "" {
			continue
		}
		c.N = 1500
		yield(c)
		open := c
		open.Close = ""
		yield(open)
		if os.Getenv("VH_TIER") == "thorough" {
			c.N = 4000
			yield(c)
			for _, n := range []int{20000, 100000, 300000} {
				c.N, c.Alone = n, true
				yield(c)
				c.Close = ""
				yield(c)
			}
		}
	}
}

// ---- C24: parses do not influence each other ----

type histOp struct {
	Text Txt
	O    popts
	Op   string `json:"op,omitempty"` // what happens after the parse
}

type histCase struct{ Ops []histOp }

func genHist(t *rapid.T) histCase {
	var c histCase
	for i := 1 + intn(t, 4, "history"); i >= 0; i-- {
		fuel := 8
		if len(c.Ops) == 0 && intn(t, 6, "long") == 0 {
			fuel = 40
		}
		o := histOp{Text: Txt(genAnyText(t, fuel)), O: genPopts(t, true), Op: pick(t, "then", "", "", "print", "failure", "reader", "file")}
		if len(c.Ops) > 0 && intn(t, 4, "again") == 0 {
			o.Text = c.Ops[intn(t, len(c.Ops), "which")].Text
		}
		if len(c.Ops) > 0 && intn(t, 3, "almost") == 0 {
			// the same but for one byte, and mostly with the same options
			p := c.Ops[intn(t, len(c.Ops), "which")]
			o.Text = Txt(nearText(t, p.Text.s()))
			if intn(t, 4, "sameOptions") > 0 {
				o.O = p.O
			}
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// nearText changes one letter or digit, or one other byte, of a text.
func nearText(t *rapid.T, s string) string {
	if s == "" {
		return s
	}
	b := []byte(s)
	at := intn(t, len(b), "near")
	for k := 0; k < 40 && at+k < len(b); k++ {
		if c := b[at+k]; c >= '0' && c <= '9' || c >= 'a' && c <= 'z' {
			at += k
			break
		}
	}
	switch c := b[at]; {
	case c >= '0' && c <= '9':
		b[at] = '0' + (c-'0'+1+byte(intn(t, 9, "digit")))%10
	case c >= 'a' && c <= 'z':
		b[at] = 'a' + (c-'a'+1+byte(intn(t, 25, "letter")))%26
	default:
		b[at] = pick(t, "byte", "x", " ", "\n", "#", "}", "1")[0]
	}
	return string(b)
}

func runOp(o histOp) (parsed, any) {
	var v any
	var err error
	var buf []byte
	switch o.Op {
	case "reader":
		v, err = config.ParseReader("test.conf", strings.NewReader(o.Text.s()), o.O.list()...)
	default:
		buf = []byte(o.Text.s())
		v, err = config.Parse("test.conf", buf, o.O.list()...)
	}
	r := outcomeOf(v, err)
	f, ok := config.GetFarthestFailure()
	r.Failure, r.HasFail = Txt(f), ok
	if string(buf) != o.Text.s() && buf != nil {
		r.Buffer = "the parse changes its input"
	}
	// the caller uses the memory of the input again
	for i := range buf {
		buf[i] = '~'
	}
	after := outcomeOf(v, err)
	after.Failure, after.HasFail = r.Failure, r.HasFail
	if d := r.diff(after); d != "" {
		r.Buffer = "the result changes when the memory of the input is used again: " + d
	}
	return r, v
}

// fresh runs the operation in a new process.
func fresh(o histOp) parsed {
	self, err := os.Executable()
	if err != nil {
		harness("%v", err)
	}
	in, _ := json.Marshal(o)
	cmd := exec.Command(self, "fresh", "x")
	cmd.Stdin = bytes.NewReader(in)
	var ob, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &ob, &eb
	if err := cmd.Run(); err != nil {
		if strings.Contains(eb.String(), "goroutine ") {
			return parsed{Err: "crash: " + tail(eb.String(), 500)}
		}
		harness("fresh process: %v: %s", err, eb.String())
	}
	var r parsed
	if err := gob.NewDecoder(&ob).Decode(&r); err != nil {
		harness("fresh process: %v: %s", err, tail(ob.String(), 300))
	}
	return r
}

func freshMain() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatalf("%v", err)
	}
	var o histOp
	if err := json.Unmarshal(b, &o); err != nil {
		fatalf("%v", err)
	}
	r, _ := runOp(o)
	if err := gob.NewEncoder(os.Stdout).Encode(r); err != nil {
		fatalf("%v", err)
	}
}

const limitSig = "farthest-failure-of-previous-parse-if-the-expression-limit-is-hit-before-the-parse-starts"

func checkC24(x *Ctx, c histCase) error {
	type kept struct {
		v    ast.Config
		snap parsed
	}
	var trees []kept
	var last parsed
	for i, o := range c.Ops {
		r, v := runOp(o)
		if r.Buffer != "" {
			return viol("parse %d: %s", i, r.Buffer)
		}
		if o.Op == "print" {
			_ = fmt.Sprint(v)
		}
		if o.Op == "file" {
			config.ParseFile(filepath.Join(x.scratchDir(), "does-not-exist"))
		}
		if o.Op == "failure" {
			config.GetFarthestFailure()
		}
		if t, ok := v.(ast.Config); ok && i < len(c.Ops)-1 {
			snap := r
			trees = append(trees, kept{t, snap})
		}
		last = r
	}
	want := fresh(c.Ops[len(c.Ops)-1])
	x.Interesting(len(c.Ops) >= 2)
	x.Label("last parse rejected", last.Err != "")
	x.Label("last parse accepted", last.Err == "")
	x.Label("limited", c.Ops[len(c.Ops)-1].O.Limit > 0)
	x.Label("earlier trees", len(trees) > 0)
	for i, k := range trees {
		now := outcomeOf(k.v, nil)
		now.Err, now.Failure, now.HasFail = k.snap.Err, k.snap.Failure, k.snap.HasFail
		if d := k.snap.diff(now); d != "" {
			return viol("tree %d of the history has changed: %s", i, d)
		}
	}
	if d := want.diff(last); d != "" {
		err := viol("the last parse gives, in a new process versus after the history: %s", d)
		if n := c.Ops[len(c.Ops)-1].O.Limit; n > 0 && n <= 3 {
			a, b := want, last
			a.Failure, a.HasFail, b.Failure, b.HasFail = "", false, "", false
			if a.diff(b) == "" {
				return finding{limitSig, err}
			}
		}
		return err
	}
	return nil
}

// scratchDir is a directory of this worker.
func (x *Ctx) scratchDir() string {
	if err := os.MkdirAll(x.scratch, 0o755); err != nil {
		harness("%v", err)
	}
	return x.scratch
}

// ---- C25: concurrency ----

type concCase struct {
	Texts  []histOp
	Rounds int
	Fresh  bool // names that the process has not seen before are added to the texts
}

func genConc(t *rapid.T) concCase {
	c := concCase{Rounds: 1 + intn(t, 3, "rounds"), Fresh: rapid.Bool().Draw(t, "fresh")}
	for i := 2 + intn(t, 7, "parallel"); i > 0; i-- {
		o := histOp{Text: Txt(genAnyText(t, 10)), O: genPopts(t, true)}
		if len(c.Texts) > 0 && intn(t, 4, "same") == 0 {
			o.Text = c.Texts[0].Text
		}
		c.Texts = append(c.Texts, o)
	}
	return c
}

var freshNames atomic.Int64

// freshText returns sections with names and literals that are new to the process.
func freshText() string {
	n := freshNames.Add(1)
	return strings.ReplaceAll(`# cN
input { pN { aN => vN "bN" => "wN" 'cN' => 'xN' h => { kN => N "lN" => [N, yN, "zN"] } codec => coN { } } 'qN' { } "rN" { id => idN } }
filter { if [fN][gN] == "sN" and ([hN] =~ /xN/ or "tN" in [uN]) and N != N.5 and ![jN] { pN { } } else if 'eN' not in ["dN", N] { } # last N
}
`, "N", strconv.FormatInt(n, 10)+"")
}

func checkC25(x *Ctx, c concCase) error {
	var texts []string
	for _, o := range c.Texts {
		s := o.Text.s()
		if c.Fresh {
			s = freshText() + s
		}
		texts = append(texts, s)
	}
	parse1 := func(i int) (any, error) {
		return config.Parse("test.conf", []byte(texts[i]), c.Texts[i].O.list()...)
	}
	all := func(f func(k int) error) error {
		n := len(texts) * c.Rounds
		errs := make([]error, n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[k] = viol("panic: %v", p)
					}
				}()
				<-start
				errs[k] = f(k)
			}()
		}
		close(start)
		wg.Wait()
		for _, e := range errs {
			if e != nil {
				return e
			}
		}
		return nil
	}
	use := func(t ast.Config) string {
		visitNodes(t, func(n any) {
			if p, is := n.(ast.Plugin); is {
				p.ID()
			}
		})
		return t.String()
	}
	// a tree that is printed while other texts are parsed
	sv, err := config.Parse("test.conf", []byte(freshText()))
	if err != nil {
		harness("the text with fresh names is rejected: %v", err)
	}
	// nothing is parsed or printed alone before, such that anything that is set
	// up on first use is set up in parallel
	vals := make([]any, len(texts)*c.Rounds)
	perr := make([]error, len(texts)*c.Rounds)
	if err := all(func(k int) error {
		vals[k], perr[k] = parse1(k % len(texts))
		_ = use(sv.(ast.Config))
		return nil
	}); err != nil {
		return err
	}
	// the same trees are printed by several goroutines
	printed := make([][]string, len(vals))
	if err := all(func(k int) error {
		for j := range vals {
			if t, is := vals[(k+j)%len(vals)].(ast.Config); is && j < 3 {
				printed[k] = append(printed[k], use(t))
			}
		}
		return nil
	}); err != nil {
		return err
	}
	ok, rejected := 0, 0
	var want []parsed
	for i := range texts {
		v, err := parse1(i)
		if err == nil {
			ok++
		} else {
			rejected++
		}
		want = append(want, outcomeOf(v, err))
	}
	x.Interesting(len(c.Texts) >= 3)
	x.Label("accepted and rejected mixed", ok > 0 && rejected > 0)
	x.Label("trees printed", ok > 0)
	x.Label("new names", c.Fresh)
	for k := range vals {
		i := k % len(texts)
		if d := want[i].diff(outcomeOf(vals[k], perr[k])); d != "" {
			return viol("text %q parsed alone versus in parallel: %s", texts[i], d)
		}
		n := 0
		for j := range vals {
			m := (k + j) % len(vals)
			if t, is := vals[m].(ast.Config); is && j < 3 {
				if p := printed[k][n]; p != t.String() {
					return viol("text %q printed alone versus in parallel: %q versus %q", texts[m%len(texts)], t.String(), p)
				}
				n++
			}
		}
	}
	return nil
}

// ---- C26: entry points ----

type entryCase struct {
	Text   Txt
	O      popts
	Name   string
	Chunks []int
	FailAt int  `json:"fail_at"`        // -1: never
	Rel    bool `json:"rel,omitempty"`  // the file is in the working directory
	EOF    bool `json:"eof"`            // last bytes come together with the end (or the failure)
	Pipe   bool `json:"pipe,omitempty"` // also read from a named pipe
	Old    *Txt `json:"old,omitempty"`  // earlier contents of the same file, with the same size and time
}

var errRead = errors.New("the reader broke")

type chunkReader struct {
	data   string
	chunks []int
	i      int
	err    error
	joint  bool
	ended  bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.data == "" {
		return 0, r.err
	}
	n := 1
	if len(r.chunks) > 0 {
		n = r.chunks[r.i%len(r.chunks)]
		r.i++
	}
	if n == 0 && r.i > 100000 {
		n = 1
	}
	n = min(n, len(p), len(r.data))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.joint && r.data == "" {
		return n, r.err
	}
	return n, nil
}

func genEntry(t *rapid.T) entryCase {
	c := entryCase{Text: Txt(genAnyText(t, 12)), O: genPopts(t, true), Name: pick(t, "name", "test.conf", "a b.conf", "é.conf", "x%d%s.conf", "sub/dir.conf", "n", "-", ".hidden", "a:b.conf", "quo'te.conf", "$HOME", "~", "a.gz", "[x].conf", " lead", "trail ", "%41", "x?y"), Rel: rapid.Bool().Draw(t, "relative"), FailAt: -1, EOF: rapid.Bool().Draw(t, "eof"), Pipe: intn(t, 40, "pipe") == 20}
	for i := intn(t, 5, "chunkN"); i > 0; i-- {
		c.Chunks = append(c.Chunks, []int{0, 1, 1, 2, 3, 7, 64, 511, 512, 513}[intn(t, 10, "chunk")])
	}
	ok := false
	for _, k := range c.Chunks {
		ok = ok || k > 0
	}
	if !ok {
		c.Chunks = append(c.Chunks, 5)
	}
	if intn(t, 20, "big") == 0 {
		c.Text = Txt(strings.Repeat("# padding padding padding\n", 20+intn(t, 400, "pad"))) + c.Text
	}
	if rarely(t, "huge") {
		c.Text = Txt("output { a"+strings.Repeat("z", 1000*rapid.IntRange(1, []int{70, 140, 140, 300, 900}[intn(t, 5, "most")]).Draw(t, "kB"))+" { } } ") + c.Text
		c.Chunks = append(c.Chunks, 4097)
	}
	if intn(t, 3, "rewritten") == 0 {
		o := Txt(nearText(t, c.Text.s()))
		c.Old = &o
	}
	if intn(t, 4, "fails") == 0 {
		c.FailAt = intn(t, len(c.Text)+1, "failAt")
	}
	return c
}

func checkC26(x *Ctx, c entryCase) error {
	s := c.Text.s()
	opts := func() []config.Option { return c.O.list() }
	dir := filepath.Join(x.scratchDir(), "entry")
	file := filepath.Join(dir, c.Name)
	if err := os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		harness("%v", err)
	}
	defer os.RemoveAll(dir)
	if c.Rel {
		wd, err := os.Getwd()
		cliMust(err)
		cliMust(os.Chdir(dir))
		defer func() { cliMust(os.Chdir(wd)) }()
		file = c.Name
		x.Label("relative path")
	}
	if err := os.WriteFile(file, []byte(s), 0o644); err != nil {
		harness("%v", err)
	}
	if c.Old != nil {
		x.Label("file rewritten")
		cliMust(os.WriteFile(file, []byte(c.Old.s()), 0o644))
		st, err := os.Stat(file)
		cliMust(err)
		config.ParseFile(file, opts()...)
		cliMust(os.WriteFile(file, []byte(s), 0o644))
		cliMust(os.Chtimes(file, st.ModTime(), st.ModTime()))
	}
	v, err := config.Parse(file, []byte(s), opts()...)
	want := outcomeOf(v, err)
	x.Interesting(len(s) > 10)
	x.Label("rejected", err != nil)
	x.Label("accepted", err == nil)
	if err != nil && !strings.Contains(err.Error(), file) {
		return viol("error for file %q does not name it: %v", file, err)
	}
	v, err = config.ParseReader(file, &chunkReader{data: s, chunks: c.Chunks, err: io.EOF, joint: c.EOF}, opts()...)
	if d := want.diff(outcomeOf(v, err)); d != "" {
		return viol("text %s parsed from bytes versus from a reader in chunks of %v: %s", brief(s), c.Chunks, d)
	}
	v, err = config.ParseFile(file, opts()...)
	if d := want.diff(outcomeOf(v, err)); d != "" {
		return viol("text %s parsed from bytes versus from a file: %s", brief(s), d)
	}
	if c.Pipe {
		// a file that does not know its size
		x.Label("named pipe")
		cliMust(os.Remove(file))
		cliMust(syscall.Mkfifo(file, 0o644))
		fed := make(chan struct{})
		go func() {
			defer close(fed)
			f, err := os.OpenFile(file, os.O_WRONLY, 0)
			if err != nil {
				return
			}
			defer f.Close()
			for rest := s; rest != ""; {
				n := min(len(rest), 1+len(s)/3)
				if _, err := f.WriteString(rest[:n]); err != nil {
					return
				}
				rest = rest[n:]
			}
		}()
		v, err = config.ParseFile(file, opts()...)
		if f, err := os.OpenFile(file, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			f.Close() // if nobody has read, the writer gets an error now
		}
		if d := want.diff(outcomeOf(v, err)); d != "" {
			return viol("text %s parsed from bytes versus from a named pipe: %s", brief(s), d)
		}
		select {
		case <-fed:
		case <-time.After(20 * time.Second):
		}
	}
	if c.FailAt >= 0 {
		x.Label("failing reader")
		v, err = config.ParseReader(file, &chunkReader{data: s[:c.FailAt], chunks: c.Chunks, err: errRead, joint: c.EOF}, opts()...)
		if err == nil || !errors.Is(err, errRead) {
			return viol("a reader that fails after %d of %d bytes of %s gives error %v", c.FailAt, len(s), brief(s), err)
		}
		if v != nil {
			return viol("a reader that fails after %d of %d bytes gives the value %v", c.FailAt, len(s), v)
		}
		v, err = config.ParseFile(file+".missing", opts()...)
		if err == nil || !errors.Is(err, os.ErrNotExist) || v != nil || !strings.Contains(err.Error(), file+".missing") {
			return viol("missing file gives value %v and error %v", v, err)
		}
		v, err = config.ParseFile(dir, opts()...)
		if err == nil || v != nil {
			return viol("a directory gives value %v and error %v", v, err)
		}
	}
	return nil
}

// ---- C27: tuning options ----

type tuneCase struct {
	Text  Txt
	O     popts // memo and stats on top of warn and ignore
	Limit int   // 1..1000 thousandths of the work, or above
	Debug bool  `json:",omitempty"`
}

const memoSig = "memoize-drops-warnings-about-comments-in-array-or-hash-operands"

func genTune(t *rapid.T) tuneCase {
	s := genAnyText(t, 12)
	if intn(t, 4, "invalid") == 0 && len(s) > 0 {
		for i := 1 + intn(t, 2, "invalidN"); i > 0; i-- {
			k := intn(t, len(s)+1, "invalidAt")
			s = s[:k] + pick(t, "invalidByte", "\xff", "\xc3", "\xe2\x82", "\x80", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80") + s[k:]
		}
	}
	o := genPopts(t, false)
	o.Memo, o.Bytes = rapid.Bool().Draw(t, "memo"), false
	return tuneCase{Txt(s), o, rapid.IntRange(1, 1400).Draw(t, "limit"), len(s) < 120 && intn(t, 8, "debug") == 0}
}

// quietly runs f while standard output is discarded.
func quietly(f func() (any, error)) (any, error) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		harness("%v", err)
	}
	old := os.Stdout
	os.Stdout = null
	defer func() { os.Stdout = old; null.Close() }()
	return f()
}

// leftOut returns the elements of b that a lacks, if a is b with some elements
// left out.
func leftOut(a, b []string) (missing []string, ok bool) {
	for _, s := range b {
		if len(a) > 0 && a[0] == s {
			a = a[1:]
		} else {
			missing = append(missing, s)
		}
	}
	return missing, len(a) == 0
}

// onlyListWarnings tells whether all of the warnings are about comments inside
// an array or hash that is an operand of a condition of the text.
func onlyListWarnings(s string, warnings []string) bool {
	ref := refParse(s, refOpts{warn: true, bytes: true})
	for _, w := range warnings {
		if !ref.listWarns[w] {
			return false
		}
	}
	return len(warnings) > 0
}

func checkC27(x *Ctx, c tuneCase) error {
	s := c.Text.s()
	base := popts{Warn: c.O.Warn, Ignore: c.O.Ignore}
	v, err := config.Parse("test.conf", []byte(s), base.list()...)
	want := outcomeOf(v, err)
	x.Interesting(len(s) > 10)
	x.Label("memoized", c.O.Memo)
	x.Label("accepted", err == nil)
	x.Label("rejected", err != nil)
	var known error
	same := func(v any, err error, what string) error {
		got := outcomeOf(v, err)
		if d := want.diff(got); d != "" {
			if c.O.Memo && want.Tree != nil && got.Tree != nil && want.Err == got.Err {
				missing, ok := leftOut(got.Tree.Warnings, want.Tree.Warnings)
				if !ok || !onlyListWarnings(s, missing) {
					return viol("text %q without and with %s: %s", s, what, d)
				}
				g := got
				t := *got.Tree
				t.Warnings = want.Tree.Warnings
				g.Tree = &t
				if want.diff(g) == "" {
					known = finding{memoSig, viol("text %q: with memoisation warnings about comments inside an array or hash that is an operand of a condition are missing: %s", s, d)}
					return nil
				}
			}
			return viol("text %q without and with %s: %s", s, what, d)
		}
		return nil
	}
	// memoisation and statistics
	st := config.Stats{}
	opts := append(c.O.list(), config.Statistics(&st, "no match"))
	v, err = config.Parse("test.conf", []byte(s), opts...)
	if e := same(v, err, fmt.Sprintf("options %+v and statistics", c.O)); e != nil {
		return e
	}
	if c.Debug {
		x.Label("debug output")
		v, err = quietly(func() (any, error) {
			return config.Parse("test.conf", []byte(s), append(c.O.list(), config.Debug(true))...)
		})
		if e := same(v, err, fmt.Sprintf("options %+v and debug output", c.O)); e != nil {
			return e
		}
	}
	if want.Tree != nil { // otherwise errors are raised as panics, as documented
		v, err = config.Parse("test.conf", []byte(s), append(c.O.list(), config.Recover(false))...)
		if e := same(v, err, fmt.Sprintf("options %+v and without recovery", c.O)); e != nil {
			return e
		}
	}
	// an expression limit
	n := st.ExprCnt
	if n < 2 {
		return viol("statistics count %d expressions for %q", n, s)
	}
	limit := n * uint64(c.Limit) / 1000
	if limit == 0 {
		limit = 1
	}
	v, err = config.Parse("test.conf", []byte(s), append(c.O.list(), config.MaxExpressions(limit))...)
	switch {
	case limit > n:
		x.Label("limit not reached")
		if e := same(v, err, fmt.Sprintf("a limit of %d expressions (%d needed)", limit, n)); e != nil {
			return e
		}
	case limit < n:
		x.Label("limit reached")
		if _, ok := v.(ast.Config); err == nil || ok {
			return viol("text %q with a limit of %d of %d expressions gives %v, error %v", s, limit, n, v, err)
		}
	}
	// invalid bytes
	o := c.O
	o.Bytes, o.Memo = true, false
	v, err = config.Parse("test.conf", []byte(s), o.list()...)
	r := refParse(s, refOpts{warn: c.O.Warn, ignoreComments: c.O.Ignore, bytes: true})
	valid := refParse(s, refOpts{}).why != "invalid UTF-8"
	if valid {
		o2 := c.O.Memo
		c.O.Memo = false
		e := same(v, err, "invalid UTF-8 permitted")
		c.O.Memo = o2
		if e != nil {
			return e
		}
	} else {
		x.Label("invalid UTF-8")
		x.Label("invalid UTF-8 accepted", r.ok)
		if r.ok != (err == nil) {
			return viol("text %q with invalid UTF-8 permitted: expected acceptance %v (%s), error %v", s, r.ok, r.why, err)
		}
		if r.ok {
			got, ok := v.(ast.Config)
			if !ok {
				return viol("text %q with invalid UTF-8 permitted gives %T", s, v)
			}
			if d := confDiff(r.conf, fromAST(got), cmpOpt{pos: true, comments: true, warnings: true}); d != "" {
				return viol("text %q with invalid UTF-8 permitted: expected versus parsed tree: %s", s, d)
			}
		}
	}
	return known
}

// ---- C28: error positions ----

type errCase struct {
	Text  Txt
	Valid Txt `json:"valid,omitempty"` // the text before a closing token was removed
	Open  int `json:"open"`            // offset of the construct left open, -1: none
	Block int `json:"block"`           // offset of the innermost block containing it
}

// closers finds the closing characters of a document and the offsets of what
// they close, and of the innermost block around that; ps must be rendered into parts.
func closers(ps []Piece, parts []string) (at, open, block []int) {
	off := 0
	var stack []int
	var text []byte
	inner := func() int {
		for k := len(stack) - 1; k >= 0; k-- {
			if text[stack[k]] == '{' {
				return stack[k]
			}
		}
		return 0
	}
	// A string without its closing quote may end at the opening quote of a later
	// one, and a hash in a list of a condition may then be complete: it is not
	// what the error has to be in.
	outer := func() int {
		r := 0
		for _, k := range stack {
			if text[k] != '{' {
				break
			}
			r = k
		}
		return r
	}
	for i, p := range ps {
		s := parts[i]
		text = append(text, s...)
		if p.G == "" && s != "" {
			switch c := s[0]; {
			case (c == '"' || c == '\'' || c == '/') && len(s) > 1 && s[len(s)-1] == c:
				at, open, block = append(at, off+len(s)-1), append(open, off), append(block, outer())
			default:
				for j := 0; j < len(s); j++ {
					switch s[j] {
					case '{', '[', '(':
						stack = append(stack, off+j)
					case '}', ']', ')':
						if len(stack) > 0 {
							at, open = append(at, off+j), append(open, stack[len(stack)-1])
							stack = stack[:len(stack)-1]
							block = append(block, inner())
						}
					}
				}
			}
		}
		off += len(s)
	}
	return at, open, block
}

func genErrCase(t *rapid.T) errCase {
	if intn(t, 5, "any") < 2 {
		s := genAnyText(t, 14)
		if intn(t, 8, "invalid") == 0 {
			k := intn(t, len(s)+1, "invalidAt")
			s = s[:k] + pick(t, "invalidByte", "\xff", "\xc3", "\xe2\x82") + s[k:]
		}
		return errCase{Text: Txt(s), Open: -1}
	}
	ps, st := genDoc(t, 14), genStyle(t)
	var parts []string
	for _, p := range ps {
		if p.G == "" {
			parts = append(parts, p.T)
		} else {
			parts = append(parts, renderGap(t, p.G, st, true))
		}
	}
	s := strings.Join(parts, "")
	at, open, block := closers(ps, parts)
	if len(at) == 0 {
		return errCase{Text: Txt(s), Open: -1}
	}
	k := intn(t, len(at), "closer")
	return errCase{Text: Txt(s[:at[k]] + s[at[k]+1:]), Valid: Txt(s), Open: open[k], Block: block[k]}
}

var (
	posRe  = regexp.MustCompile(`test\.conf:(\d+):(\d+) \((\d+)\)`)
	failRe = regexp.MustCompile(`Parsing error at pos (\d+):(\d+) \[(\d+)\] and \[(\d+)\] \(after: '`)
)

// positions checks all positions in a report and returns the farthest offset.
func positions(s, report string) (far, n int, err error) {
	far = -1
	p := &rparser{s: s}
	for k := 0; k < len(s); k++ {
		if s[k] == '\n' {
			p.lineStart = append(p.lineStart, k+1)
		}
	}
	num := func(x string) int { v, _ := strconv.Atoi(x); return v }
	at := func(l, c, o int) error {
		if l == 0 && c == 0 && o == 0 {
			l, c = 1, 1 // the start of the input, nothing was consumed yet
			if len(s) > 0 && s[0] == '\n' {
				l, c = 2, 0
			}
		}
		if o < 0 || o > len(s) {
			return viol("position %d:%d [%d] lies outside the input of %d bytes", l, c, o, len(s))
		}
		if w := p.gapPos(o); w.L != l || w.C != c {
			return viol("position %d:%d [%d]: offset %d is line %d, column %d", l, c, o, o, w.L, w.C)
		}
		n++
		if o > far {
			far = o
		}
		return nil
	}
	for _, m := range posRe.FindAllStringSubmatch(report, -1) {
		if err := at(num(m[1]), num(m[2]), num(m[3])); err != nil {
			return far, n, err
		}
	}
	for _, m := range failRe.FindAllStringSubmatchIndex(report, -1) {
		g := func(i int) int { return num(report[m[2*i]:m[2*i+1]]) }
		if err := at(g(1), g(2), g(3)); err != nil {
			return far, n, err
		}
		a, b := g(3), g(4)
		if b < a || b > len(s) {
			return far, n, viol("end offset %d outside of %d..%d", b, a, len(s))
		}
		if b > far {
			far = b
		}
		want := strings.ReplaceAll(s[a:b], "\n", `\n`) + "'):\n"
		if !strings.HasPrefix(report[m[1]:], want) {
			return far, n, viol("the quoted text of %q is not the input between %d and %d: %q", report, a, b, s[a:b])
		}
	}
	return far, n, nil
}

func checkC28(x *Ctx, c errCase) error {
	s := c.Text.s()
	_, err := config.Parse("test.conf", []byte(s))
	f, ok := config.GetFarthestFailure()
	if err == nil {
		return x.Exclude("accepted text")
	}
	x.Interesting(len(s) > 8)
	x.Label("fatal error", strings.Contains(err.Error(), "Parsing error at pos"))
	x.Label("no match", strings.Contains(err.Error(), "no match found"))
	x.Label("farthest failure", ok)
	far, n, e := positions(s, err.Error())
	if e != nil {
		return viol("text %q\nerror %q\n%v", s, err, e)
	}
	if n == 0 {
		return viol("text %q: error %q carries no position", s, err)
	}
	if ok {
		f2, n2, e := positions(s, f)
		if e != nil {
			return viol("text %q\nfarthest failure %q\n%v", s, f, e)
		}
		if n2 == 0 {
			return viol("text %q: farthest failure %q carries no position", s, f)
		}
		far = max(far, f2)
	}
	if c.Open >= 0 && refParse(c.Valid.s(), refOpts{}).ok {
		x.Label("closing character removed")
		if far < c.Block {
			return viol("text %q has lost the closing character of %q at offset %d in the block at %d, but the farthest position reported is %d: %q, farthest failure %q", s, c.Valid.s()[c.Open:c.Open+1], c.Open, c.Block, far, err, f)
		}
	}
	return nil
}

func init() {
	_ = time.Now
	reg("C03", "arbitrary bytes, structured and mutated texts, and texts with one construct (known or assembled from random tokens) repeated or nested N, 2N and 4N times (N up to 1024), under option combinations; every nestable construct 1500, 3000 and 6000 levels deep, and 100000 levels in a process of its own; work is counted in evaluated grammar expressions; non-trivial: more than three bytes, or repetitions on which the work grows",
		genWork, checkC03, cases(2500, 120000), enum(deepWork), enum(func(yield func(workCase)) {
			damagedTexts(func(s string) {
				yield(workCase{Text: Txt(s)})
				yield(workCase{Text: Txt(s), O: popts{Warn: true, Bytes: true}})
			})
		}), assume("work is observed through the parser's own expression counter"))
	reg("C24", "histories of two to five parses of structured and mutated texts with arbitrary options (also expression limits), the last one compared with a new process; non-trivial: at least two parses",
		genHist, checkC24, cases(16000, 300000), corpus(histCase{[]histOp{{Text: "input {"}, {Text: "", O: popts{Limit: 1}}}}, histCase{[]histOp{{Text: "filter { if [a] == { } }"}, {Text: ""}}}, histCase{[]histOp{{Text: "input { a { b => [ } }"}, {Text: "input {}"}}}))
	reg("C25", "two to eight texts with arbitrary options, parsed up to three times each at the same time from as many goroutines, which also print the accepted trees; built with the race detector; non-trivial: at least three texts",
		genConc, checkC25, cases(650, 40000), withShards(2), withoutConfirm())
	reg("C26", "texts with arbitrary options and file names, read from bytes, from readers delivering chunks of arbitrary sizes (also empty ones), from readers failing at an arbitrary byte, and from files; non-trivial: more than ten bytes",
		genEntry, checkC26, cases(20000, 900000), corpus(bigEntry(1500, 65536, -1), bigEntry(4500, 4095, -1), bigEntry(300, 1000, 250000)))
	reg("C27", "texts, a quarter with invalid UTF-8 inserted, under memoisation, statistics, expression limits from a thousandth to 1.4 times the needed work, and permitted invalid UTF-8; non-trivial: more than ten bytes",
		genTune, checkC27, cases(30000, 700000), corpus(tuneCase{"filter { if !( #x\n [a]) and 1 { } }", popts{Warn: true, Memo: true}, 1200, true}, tuneCase{"input{if#\n!\n[1,1]!=/x/ {}}", popts{Warn: true, Memo: true}, 1200, true}), enum(func(yield func(tuneCase)) {
			sites(false, true, func(s string) {
				if strings.Contains(s, "\xff") {
					yield(tuneCase{Text: Txt(s), Limit: 1200})
				}
			})
			damagedTexts(func(s string) {
				if !utf8.ValidString(s) {
					yield(tuneCase{Text: Txt(s), Limit: 1200})
				}
			})
			sites(true, true, strided(30, func(s string) { yield(tuneCase{Text: Txt(s), O: popts{Memo: true}, Limit: 900}) }))
			sizedTexts(7, 140, []int{256, 257}, func(s string) {
				yield(tuneCase{Text: Txt(s), O: popts{Memo: len(s)%2 == 0, Warn: len(s)%3 == 0}, Limit: 900 + len(s)%200})
			})
		}))
	reg("C28", "structured texts edited on token or byte level, texts with invalid bytes, and valid texts with one closing brace, bracket, parenthesis, quote or slash removed; accepted texts are excluded; non-trivial: more than eight bytes",
		genErrCase, checkC28, cases(70000, 2500000), enum(func(yield func(errCase)) {
			sites(true, true, strided(3, func(s string) { yield(errCase{Text: Txt(s), Open: -1}) }))
		}), enum(sizedErrors), enum(farErrors))
}

// bigEntry is a text with a name of many kilobytes.
func bigEntry(kb, chunk, failAt int) entryCase {
	return entryCase{Text: Txt("output { a" + strings.Repeat("z", 1000*kb) + " { } }"), Name: "big.conf", Chunks: []int{chunk}, FailAt: failAt}
}
