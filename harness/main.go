// Command vh decides the properties of /verif/properties.jsonl by generated
// inputs against explicit oracles.
//
//	vh check ID     run the check of a property (parent, spawns workers)
//	vh worker ID    one shard (internal)
//	vh replay ID F  re-run one saved case: exit 1 if it violates the property
package main

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---- registry ----

type property struct {
	id          string
	rule        string
	gen         func(t *rapid.T) any
	decode      func([]byte) (any, error)
	check       func(x *Ctx, c any) error
	corpus      []any
	quick       int // cases in total
	thorough    int
	shards      int
	level       string
	assumptions []string
	noConfirm   bool
	enum        func(yield func(c any)) // enumerated cases, divided among the workers
}

var registry = map[string]*property{}

type optFn func(*property)

func cases(quick, thorough int) optFn {
	return func(p *property) { p.quick, p.thorough = quick, thorough }
}
func assume(a ...string) optFn {
	return func(p *property) { p.assumptions = append(p.assumptions, a...) }
}
func withShards(n int) optFn   { return func(p *property) { p.shards = n } }
func withLevel(l string) optFn { return func(p *property) { p.level = l } }
func withoutConfirm() optFn    { return func(p *property) { p.noConfirm = true } }
func enum[C any](f func(yield func(C))) optFn {
	return func(p *property) {
		before := p.enum
		p.enum = func(yield func(any)) {
			if before != nil {
				before(yield)
			}
			f(func(c C) { yield(c) })
		}
	}
}
func corpus[C any](cs ...C) optFn {
	return func(p *property) {
		for _, c := range cs {
			p.corpus = append(p.corpus, c)
		}
	}
}

func reg[C any](id, rule string, gen func(t *rapid.T) C, check func(x *Ctx, c C) error, opts ...optFn) {
	p := &property{
		id: id, rule: rule, level: "exploration",
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		check: func(x *Ctx, c any) error { return check(x, c.(C)) },
		quick: 8000, thorough: 400000, shards: 6,
	}
	for _, o := range opts {
		o(p)
	}
	registry[id] = p
}

// ---- context of one case ----

// Ctx collects what a case exercised.
type Ctx struct {
	nontrivial bool
	excluded   string
	labels     map[string]int
	known      map[string]string // signatures of known findings, with description
	knownSeen  map[string]string
	scratch    string
	cli        string
	seq        int
}

// Interesting marks the case as non-trivial if ok.
func (x *Ctx) Interesting(ok bool) {
	if ok {
		x.nontrivial = true
	}
}

// Label counts a class of cases.
func (x *Ctx) Label(l string, ok ...bool) {
	if len(ok) > 0 && !ok[0] {
		return
	}
	x.labels[l]++
}

func (x *Ctx) isKnown(sig string) bool {
	_, ok := x.known[sig]
	return ok
}

// Exclude marks a case as outside the property's domain.
func (x *Ctx) Exclude(why string) error {
	x.excluded = why
	return nil
}

// finding is a violation with a signature, which the known-findings file may list.
type finding struct {
	sig string
	err error
}

func (f finding) Error() string { return f.err.Error() }

func viol(format string, a ...any) error { return fmt.Errorf(format, a...) }

func guarded(p *property, x *Ctx, c any) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(harnessError); ok {
				panic(r)
			}
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.check(x, c)
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	if len(ls) > 30 {
		ls = ls[:30]
	}
	return strings.Join(ls, "\n")
}

// harnessError is a failure of the machinery, never a violation.
type harnessError struct{ msg string }

func harness(format string, a ...any) { panic(harnessError{fmt.Sprintf(format, a...)}) }

// ---- worker ----

type result struct {
	Evaluations int               `json:"evaluations"`
	Excluded    map[string]int    `json:"excluded"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Known       map[string]string `json:"known"`
	Failing     json.RawMessage   `json:"failing,omitempty"`
	FirstFail   json.RawMessage   `json:"first_failing,omitempty"`
	Message     string            `json:"message,omitempty"`
	Truncated   bool              `json:"truncated"`
	Corpus      int               `json:"corpus"`
	Enumerated  int               `json:"enumerated"`
	Harness     string            `json:"harness,omitempty"`
}

type fakeTB struct{ failed bool }

func (f *fakeTB) Helper()              {}
func (f *fakeTB) Name() string         { return "vh" }
func (f *fakeTB) Logf(string, ...any)  {}
func (f *fakeTB) Log(...any)           {}
func (f *fakeTB) Skipf(string, ...any) { panic("skip") }
func (f *fakeTB) Skip(...any)          { panic("skip") }
func (f *fakeTB) SkipNow()             { panic("skip") }
func (f *fakeTB) Errorf(s string, a ...any) {
	f.failed = true
	f.Log(fmt.Sprintf(s, a...))
}
func (f *fakeTB) Error(...any)          { f.failed = true }
func (f *fakeTB) Fatalf(string, ...any) { f.failed = true; panic(tbFatal{}) }
func (f *fakeTB) Fatal(...any)          { f.failed = true; panic(tbFatal{}) }
func (f *fakeTB) FailNow()              { f.failed = true; panic(tbFatal{}) }
func (f *fakeTB) Fail()                 { f.failed = true }
func (f *fakeTB) Failed() bool          { return f.failed }

type tbFatal struct{}

type worker struct {
	p       *property
	res     result
	hashes  map[uint64]struct{}
	caseF   *os.File
	started time.Time
	budget  time.Duration
	x       Ctx
	history *bufio.Writer // all cases, when a failure has to be repeated with what came before it
	mu      sync.Mutex
	curAt   time.Time
}

func (w *worker) one(c any, shrinking bool) error {
	b, err := json.Marshal(c)
	if err != nil {
		harness("case not encodable: %v", err)
	}
	if w.caseF != nil {
		w.caseF.Truncate(0)
		w.caseF.WriteAt(b, 0)
	}
	if w.history != nil && !shrinking {
		w.history.Write(append(b, '\n'))
	}
	w.mu.Lock()
	w.curAt = time.Now()
	w.mu.Unlock()
	w.x.nontrivial, w.x.excluded = false, ""
	if shrinking {
		w.x.labels = map[string]int{}
	}
	err = guarded(w.p, &w.x, c)
	if f, ok := err.(finding); ok && w.x.isKnown(f.sig) {
		w.x.knownSeen[f.sig] = w.x.known[f.sig]
		err = nil
	}
	if shrinking {
		return err
	}
	w.res.Evaluations++
	if w.x.excluded != "" {
		w.res.Excluded[w.x.excluded]++
	} else if w.x.nontrivial {
		h := fnv.New64a()
		h.Write(b)
		k := h.Sum64()
		if _, ok := w.hashes[k]; !ok {
			w.hashes[k] = struct{}{}
			if len(w.res.Samples) < 4 && len(b) < 1500 && (len(w.hashes)%37 == 3 || len(w.res.Samples) == 0) {
				w.res.Samples = append(w.res.Samples, json.RawMessage(b))
			}
		}
	}
	return err
}

func runWorker(p *property, out string, shard int) {
	tier := os.Getenv("VH_TIER")
	seed, _ := strconv.ParseUint(os.Getenv("VH_SEED"), 10, 64)
	n, _ := strconv.Atoi(os.Getenv("VH_CASES"))
	budget, _ := strconv.Atoi(os.Getenv("VH_BUDGET"))
	w := &worker{p: p, hashes: map[uint64]struct{}{}, started: time.Now(), budget: time.Duration(budget) * time.Second}
	w.res.Excluded, w.res.Known = map[string]int{}, map[string]string{}
	w.x = newCtx(shard)
	w.x.known = loadKnown(p.id)
	_ = tier
	var err error
	w.caseF, err = os.Create(out + ".case")
	if err != nil {
		fatalf("%v", err)
	}
	if h := os.Getenv("VH_HISTORY"); h != "" {
		f, err := os.Create(h)
		if err != nil {
			fatalf("%v", err)
		}
		w.history = bufio.NewWriter(f)
	}
	finish := func() {
		if w.history != nil {
			w.history.Flush()
		}
		w.res.Labels = w.x.labels
		w.res.Known = w.x.knownSeen
		b, _ := json.Marshal(w.res)
		if err := os.WriteFile(out, b, 0o644); err != nil {
			fatalf("%v", err)
		}
		hb := make([]byte, 0, 8*len(w.hashes))
		for k := range w.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, k)
		}
		os.WriteFile(out+".hash", hb, 0o644)
	}
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				w.res.Harness = h.msg
				finish()
				os.Exit(0)
			}
			panic(r)
		}
	}()
	if shard == 0 {
		for _, c := range p.corpus {
			w.res.Corpus++
			if err := w.one(c, false); err != nil {
				b, _ := json.Marshal(c)
				w.res.Failing, w.res.Message = b, err.Error()
				finish()
				return
			}
		}
	}
	go func() { // watchdog: a case that does not end
		for {
			time.Sleep(time.Second)
			w.mu.Lock()
			d := time.Since(w.curAt)
			at := w.curAt
			w.mu.Unlock()
			if !at.IsZero() && d > 90*time.Second {
				fmt.Fprintln(os.Stderr, "case does not end")
				os.Exit(97)
			}
		}
	}()
	if p.enum != nil {
		shards, _ := strconv.Atoi(os.Getenv("VH_SHARDS"))
		k, bad := 0, false
		p.enum(func(c any) {
			k++
			if bad || k%max(shards, 1) != shard {
				return
			}
			if time.Since(w.started) > w.budget {
				w.res.Truncated = true
				return
			}
			w.res.Enumerated++
			if err := w.one(c, false); err != nil {
				b, _ := json.Marshal(c)
				w.res.Failing, w.res.Message = b, err.Error()
				bad = true
			}
		})
		if bad {
			finish()
			return
		}
	}
	var failed bool
	var harnessMsg string
	tb := &fakeTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbFatal); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if harnessMsg != "" || (!failed && time.Since(w.started) > w.budget) {
				w.res.Truncated = w.res.Truncated || harnessMsg == ""
				return
			}
			c := p.gen(t)
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						h, ok := r.(harnessError)
						if !ok {
							panic(r)
						}
						harnessMsg = h.msg
					}
				}()
				err = w.one(c, failed)
			}()
			if err != nil {
				b, _ := json.Marshal(c)
				if !failed {
					w.res.FirstFail = b
				}
				failed = true
				w.res.Failing, w.res.Message = b, err.Error()
				if w.history != nil { // no shrinking
					finish()
					os.Exit(0)
				}
				t.Fatalf("violation")
			}
		})
	}()
	if harnessMsg != "" {
		w.res.Harness = harnessMsg
	} else if tb.failed && !failed {
		w.res.Harness = "generator failed"
	}
	_ = n
	_ = seed
	finish()
}

func newCtx(shard int) Ctx {
	return Ctx{labels: map[string]int{}, knownSeen: map[string]string{}, known: map[string]string{},
		scratch: filepath.Join(os.Getenv("VH_WORK"), fmt.Sprintf("scratch%d", shard)), cli: os.Getenv("VH_CLI")}
}

func fatalf(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "vh: "+f+"\n", a...)
	os.Exit(2)
}

// ---- parent ----

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads the signatures of the known findings of a property.
func loadKnown(id string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "finding:" && f[1] == "property="+id && strings.HasPrefix(f[2], "sig=") {
			r[f[2][4:]] = strings.Join(f[3:], " ")
		}
	}
	return r
}

func runParent(id string) int {
	p := registry[id]
	if p == nil {
		fatalf("no property %s", id)
	}
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed64, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed64 = 1
	}
	work := os.Getenv("VH_WORK")
	if work == "" {
		fatalf("VH_WORK not set")
	}
	total, budget := p.quick, 100
	if tier == "thorough" {
		total, budget = p.thorough, 780
	}
	if v, err := strconv.Atoi(os.Getenv("VH_TOTAL")); err == nil {
		total = v
	}
	shards := p.shards
	if tier == "thorough" && shards > 1 {
		shards = 8
	}
	per := (total + shards - 1) / shards
	self, _ := os.Executable()
	workerCmd := func(i int, out string, env ...string) *exec.Cmd {
		s := uint64(seed64)*0x9E3779B97F4A7C15 + uint64(i+1)*0x632BE59BD9B4E019
		if s == 0 {
			s = 1
		}
		cmd := exec.Command(self, "worker", id, out, strconv.Itoa(i))
		cmd.Env = append(os.Environ(), "VH_TIER="+tier, "VH_SEED="+strconv.FormatUint(s, 10),
			"VH_CASES="+strconv.Itoa(per), "VH_SHARDS="+strconv.Itoa(shards), "VH_BUDGET="+strconv.Itoa(budget), "GOTRACEBACK=single")
		if runtime.NumCPU() >= 4 {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=2")
		}
		if p.noConfirm {
			cmd.Env = append(cmd.Env, "GOMAXPROCS=4")
		}
		cmd.Env = append(cmd.Env, env...)
		return cmd
	}
	type outcome struct {
		res     result
		err     error
		stderr  string
		out     string
		exit    int
		hashes  []uint64
		crashed bool
	}
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := &outs[i]
			o.out = filepath.Join(work, fmt.Sprintf("out%d.json", i))
			cmd := workerCmd(i, o.out)
			var se bytes.Buffer
			cmd.Stderr = &se
			cmd.Stdout = &se
			o.err = cmd.Run()
			o.stderr = se.String()
			o.exit = cmd.ProcessState.ExitCode()
			if b, err := os.ReadFile(o.out); err == nil {
				if json.Unmarshal(b, &o.res) != nil {
					o.crashed = true
				}
			} else {
				o.crashed = true
			}
			if hb, err := os.ReadFile(o.out + ".hash"); err == nil {
				for k := 0; k+8 <= len(hb); k += 8 {
					o.hashes = append(o.hashes, binary.LittleEndian.Uint64(hb[k:]))
				}
			}
		}(i)
	}
	wg.Wait()

	// merge
	ev, nt := 0, map[uint64]struct{}{}
	labels, excl, known := map[string]int{}, map[string]int{}, map[string]string{}
	var samples []json.RawMessage
	var failing, firstFail json.RawMessage
	var message, problem string
	truncated, corpusN, enumN, failShard := false, 0, 0, 0
	for i := range outs {
		o := &outs[i]
		ev += o.res.Evaluations
		corpusN += o.res.Corpus
		enumN += o.res.Enumerated
		for _, h := range o.hashes {
			nt[h] = struct{}{}
		}
		for k, v := range o.res.Labels {
			labels[k] += v
		}
		for k, v := range o.res.Excluded {
			excl[k] += v
		}
		for k, v := range o.res.Known {
			known[k] = v
		}
		if len(samples) < 6 {
			for _, s := range o.res.Samples {
				if len(samples) < 6 {
					samples = append(samples, s)
				}
			}
		}
		truncated = truncated || o.res.Truncated
		if o.res.Failing != nil && (failing == nil || len(o.res.Failing) < len(failing)) {
			failing, firstFail, message, failShard = o.res.Failing, o.res.FirstFail, o.res.Message, i
		}
		if o.res.Harness != "" {
			problem = o.res.Harness
		}
	}
	if failing == nil {
		for i := range outs {
			o := &outs[i]
			raced := strings.Contains(o.stderr, "WARNING: DATA RACE")
			if o.crashed || raced {
				b, _ := os.ReadFile(o.out + ".case")
				msg := tail(o.stderr, 3000)
				// only a crash of the code under test is a violation; being
				// killed from outside is not
				if len(b) > 0 && (raced || o.exit == 97 || strings.Contains(o.stderr, "fatal error:") || strings.Contains(o.stderr, "goroutine ")) && !strings.Contains(o.stderr, "out of memory") {
					failing, message = b, msg
				} else {
					problem = fmt.Sprintf("worker %d died (exit %d): %s", i, o.exit, msg)
				}
			}
		}
	}
	rc := 0
	violations := 0
	if failing != nil {
		dir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, id+".json")
		save := func(c json.RawMessage, history ...json.RawMessage) {
			r := map[string]any{"property": id, "case": c, "message": message, "seed": seed64, "tier": tier}
			if len(history) > 0 {
				r["history"] = history // cases run first, in the same process
			}
			b, _ := json.MarshalIndent(r, "", " ")
			if err := os.WriteFile(path, b, 0o644); err != nil {
				fatalf("%v", err)
			}
		}
		confirm := func(c json.RawMessage, history ...json.RawMessage) bool {
			save(c, history...)
			cmd := exec.Command(self, "replay", id, path)
			var ob bytes.Buffer
			cmd.Stdout, cmd.Stderr = &ob, &ob
			cmd.Run()
			ec := cmd.ProcessState.ExitCode()
			o := ob.String()
			return ec == 1 || ec == 97 || (ec != 0 && !strings.Contains(o, "out of memory") && (strings.Contains(o, "fatal error:") || strings.Contains(o, "WARNING: DATA RACE")))
		}
		ok := confirm(failing)
		if !ok && firstFail != nil {
			ok = confirm(firstFail)
		}
		for n := 0; !ok && !p.noConfirm && n < 3; n++ { // does it fail now and then?
			ok = confirm(failing)
		}
		if !ok && !p.noConfirm {
			// it may need the cases before it: repeat the worker, and take as
			// few of its cases as fail again
			hist := filepath.Join(work, "history")
			cmd := workerCmd(failShard, filepath.Join(work, "again.json"), "VH_HISTORY="+hist)
			cmd.Run()
			var again result
			if b, err := os.ReadFile(filepath.Join(work, "again.json")); err == nil && json.Unmarshal(b, &again) == nil && again.Failing != nil {
				hb, _ := os.ReadFile(hist)
				var cs []json.RawMessage
				for _, l := range bytes.Split(bytes.TrimSpace(hb), []byte("\n")) {
					cs = append(cs, json.RawMessage(l))
				}
				message = again.Message
				if len(cs) > 0 {
					ok = shortestHistory(cs[:len(cs)-1], func(h []json.RawMessage) bool { return confirm(cs[len(cs)-1], h...) })
				}
			}
		}
		if !ok && p.noConfirm {
			save(failing)
			ok = true
		}
		if ok {
			rc, violations = 1, 1
			fmt.Printf("%s\n", indent(message))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		} else {
			problem = "failure did not reproduce from its saved case: " + message
		}
	}
	var ks []string
	for k := range known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k, oneLine(known[k]))
	}
	if rc == 0 && problem == "" && len(nt) == 0 {
		problem = "no non-trivial case was generated"
	}
	evd := map[string]any{
		"property": id, "tier": tier, "seed": seed64, "level": p.level,
		"coverage": map[string]any{
			"evaluations": ev, "distinct_nontrivial": len(nt), "rule": p.rule, "samples": samplesOr(samples),
			"classes": labels, "excluded": excl, "regression_cases_replayed": corpusN, "enumerated_cases": enumN, "workers": shards, "stopped_by_time_budget": truncated,
		},
		"assumptions": append([]string{}, p.assumptions...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(evd, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fatalf("%v", err)
	}
	if rc == 0 && problem != "" {
		fmt.Fprintf(os.Stderr, "ERROR property=%s %s\n", id, problem)
		return 2
	}
	if rc == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n", id, tier, seed64, ev, len(nt), time.Since(start).Seconds())
	}
	return rc
}

// shortestHistory looks for a short list of cases of h with which fails(list)
// holds; the last call of fails that held had the list it found.
func shortestHistory(h []json.RawMessage, fails func([]json.RawMessage) bool) bool {
	var cur []json.RawMessage
	found := false
	for k := 1; ; k *= 4 {
		cur = h[max(0, len(h)-k):]
		if found = fails(cur); found || k >= len(h) {
			break
		}
	}
	if !found {
		return false
	}
	until := time.Now().Add(40 * time.Second)
	for size := len(cur) / 2; size > 0; {
		removed := false
		for i := 0; i+size <= len(cur) && time.Now().Before(until); {
			less := append(append([]json.RawMessage{}, cur[:i]...), cur[i+size:]...)
			if fails(less) {
				cur, removed = less, true
			} else {
				i += size
			}
		}
		if time.Now().After(until) {
			break
		}
		if !removed || size > len(cur) {
			size = min(size/2, len(cur))
		}
	}
	return fails(cur)
}

func samplesOr(s []json.RawMessage) []json.RawMessage {
	if s == nil {
		return []json.RawMessage{}
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func indent(s string) string {
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return "  " + strings.ReplaceAll(s, "\n", "\n  ")
}

func runReplay(id, path string) int {
	p := registry[id]
	if p == nil {
		fatalf("no property %s", id)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	var r struct {
		Case    json.RawMessage   `json:"case"`
		History []json.RawMessage `json:"history"`
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatalf("%v", err)
	}
	cs := make([]any, 0, 1+len(r.History))
	for _, b := range append(r.History, r.Case) {
		c, err := p.decode(b)
		if err != nil {
			fatalf("%v", err)
		}
		cs = append(cs, c)
	}
	x := newCtx(99)
	x.known = loadKnown(id)
	done := make(chan error, 1)
	go func() {
		var err error
		for _, c := range cs {
			x.nontrivial, x.excluded = false, ""
			err = guarded(p, &x, c)
			var f finding
			if err != nil && !(errors.As(err, &f) && x.isKnown(f.sig)) {
				break
			}
		}
		done <- err
	}()
	select {
	case err = <-done:
	case <-time.After(time.Duration(150+len(r.History)/100) * time.Second):
		fmt.Println("case does not end")
		return 97
	}
	var f finding
	if errors.As(err, &f) && x.isKnown(f.sig) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.sig, oneLine(f.Error()))
		return 0
	}
	if err != nil {
		fmt.Println(indent(err.Error()))
		return 1
	}
	fmt.Println("holds")
	return 0
}

func main() {
	testing.Init()
	flag.CommandLine.Parse(nil)
	args := os.Args[1:]
	if len(args) < 2 {
		fatalf("usage: vh check|worker|replay ID ...")
	}
	switch args[0] {
	case "check":
		os.Exit(runParent(args[1]))
	case "worker":
		p := registry[args[1]]
		if p == nil {
			fatalf("no property")
		}
		set := func(k, v string) {
			if err := flag.Set(k, v); err != nil {
				fatalf("%v", err)
			}
		}
		set("rapid.seed", os.Getenv("VH_SEED"))
		set("rapid.checks", os.Getenv("VH_CASES"))
		set("rapid.nofailfile", "true")
		set("rapid.shrinktime", "12s")
		shard, _ := strconv.Atoi(args[3])
		runWorker(p, args[2], shard)
	case "limit":
		limitMain(args[1:])
	case "fresh":
		freshMain()
	case "alone":
		aloneMain()
	case "replay":
		if len(args) < 3 {
			fatalf("usage: vh replay ID FILE")
		}
		os.Exit(runReplay(args[1], args[2]))
	}
}
