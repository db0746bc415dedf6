package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	config "github.com/breml/logstash-config"
	"pgregory.net/rapid"
)

// ---- scratch trees and runs of the command line tool ----

// cliFile is one path of the scratch directory.
type cliFile struct {
	Name string
	Kind string // file, link, dir, linkdir, missing, dangling, loop, notdir, socket, stdin (a pipe)
	Text Txt    `json:",omitempty"`
	Mode uint32 `json:",omitempty"`
	Own  int    `json:",omitempty"` // user and group the file belongs to
	Hard bool   `json:",omitempty"` // the file has a second name
	Big  int    `json:",omitempty"` // so many plugins, or bytes of a line, are added to the text
	Of   string `json:",omitempty"` // what is added: plugin, string, comment or array
}

// text is the content of the file.
func (f cliFile) text() string {
	if f.Big == 0 {
		return f.Text.s()
	}
	var b strings.Builder
	b.WriteString(f.Text.s())
	b.WriteString("\noutput {\n")
	switch f.Of {
	case "plugin":
		for i := 0; i < f.Big; i++ {
			fmt.Fprintf(&b, "  p%d { id => \"big-%d\" a => [1, %d] }\n", i%7, i, i)
		}
	case "missing":
		for i := 0; i < f.Big; i++ {
			fmt.Fprintf(&b, "  if [a] == %d { p%d { b => cc } }\n", i, i%7)
		}
	case "comment":
		b.WriteString("#" + strings.Repeat("y", f.Big) + "\n  p { id => \"big\" }\n")
	case "array":
		b.WriteString("p { id => \"big\" a => [" + strings.Repeat("1, ", f.Big) + "2] }\n")
	case "name":
		b.WriteString("p" + strings.Repeat("z", f.Big) + " { id => \"big\" }\n")
	default:
		b.WriteString("p { id => \"big\" a => '" + strings.Repeat("z", f.Big) + "' }\n")
	}
	b.WriteString("}\n")
	return b.String()
}

// bigCase is one large file.
func bigCase(n int, of string) cliCase {
	return cliCase{Files: []cliFile{{Name: "big", Kind: "file", Text: "input { a { id => xx } }", Big: n, Of: of}, {Name: "s", Kind: "file", Text: "input { }"}}, Args: []cliArg{{0, ""}, {1, ""}}, Write: n%2 == 0}
}

func (f cliFile) isFile() bool { return f.Kind == "file" || f.Kind == "link" || f.Kind == "stdin" }
func (f cliFile) isDir() bool  { return f.Kind == "dir" || f.Kind == "linkdir" }

// cliArg names a file on the command line.
type cliArg struct {
	File  int
	Style string `json:",omitempty"` // "", "./" or "abs"
}

type cliCase struct {
	Files []cliFile
	Args  []cliArg
	Write bool   `json:",omitempty"`
	Perm  []int  `json:",omitempty"` // permutation of Args (C30)
	Fault *fault `json:",omitempty"`
	Op    string `json:",omitempty"`
}

func (f cliFile) target() string   { return filepath.Join(".real", f.Name) }
func (f cliFile) hardName() string { return filepath.Join(".hard", f.Name) }

// expect notes in a snapshot that the file has a new content.
func (f cliFile) expect(snap map[string]string, text string) {
	k := f.Name
	if f.Kind == "link" {
		k = f.target()
	}
	mode, _, _ := strings.Cut(snap[k], " ")
	snap[k] = mode + " " + text
	if f.Hard {
		snap[f.hardName()] = mode + " " + text
	}
}

func cliMust(err error) {
	if err != nil {
		harness("scratch tree: %v", err)
	}
}

// setup creates the tree in a new directory and returns it.
func (x *Ctx) setup(c cliCase) string {
	x.seq++
	dir := filepath.Join(x.scratchDir(), "c"+strconv.Itoa(x.seq))
	cliMust(os.RemoveAll(dir))
	cliMust(os.MkdirAll(filepath.Join(dir, "w"), 0o755))
	cliMust(os.MkdirAll(filepath.Join(dir, "home"), 0o755))
	w := filepath.Join(dir, "w")
	write := func(p string, f cliFile) {
		cliMust(os.MkdirAll(filepath.Dir(p), 0o755))
		cliMust(os.WriteFile(p, []byte(f.text()), 0o644))
		m := f.Mode
		if m == 0 {
			m = 0o644
		}
		if f.Own != 0 {
			if err := os.Chown(p, f.Own, f.Own); err != nil && !errors.Is(err, syscall.EPERM) {
				harness("scratch tree: %v", err)
			}
		}
		cliMust(syscall.Chmod(p, m))
		if f.Hard {
			l := filepath.Join(w, f.hardName())
			cliMust(os.MkdirAll(filepath.Dir(l), 0o755))
			cliMust(os.Link(p, l))
		}
	}
	for _, f := range c.Files {
		p := filepath.Join(w, f.Name)
		cliMust(os.MkdirAll(filepath.Dir(p), 0o755))
		switch f.Kind {
		case "file":
			write(p, f)
		case "link":
			t := filepath.Join(w, f.target())
			write(t, f)
			rel, err := filepath.Rel(filepath.Dir(p), t)
			cliMust(err)
			cliMust(os.Symlink(rel, p))
		case "dir":
			write(filepath.Join(p, "inner.conf"), f)
		case "linkdir":
			t := filepath.Join(w, f.target())
			write(filepath.Join(t, "inner.conf"), f)
			cliMust(os.Symlink(t, p))
		case "dangling":
			cliMust(os.Symlink("nowhere", p))
		case "loop":
			cliMust(os.Symlink(filepath.Base(p), p))
		case "socket":
			cliMust(syscall.Mknod(p, syscall.S_IFSOCK|0o644, 0))
		case "notdir":
			write(filepath.Join(w, ".plain"), cliFile{Text: "input {}"})
		}
	}
	return dir
}

func (x *Ctx) discard(dir string) {
	if !strings.HasPrefix(dir, x.scratch) || x.scratch == "" {
		harness("refusing to remove %q", dir)
	}
	cliMust(os.RemoveAll(dir))
}

func (c cliCase) path(dir string, a cliArg) string {
	f := c.Files[a.File]
	n := f.Name
	if f.Kind == "stdin" {
		return "/dev/stdin"
	}
	if f.Kind == "notdir" {
		n = ".plain/" + filepath.Base(n)
	}
	switch a.Style {
	case "./":
		return "./" + n
	case "abs":
		return filepath.Join(dir, "w", n)
	}
	return n
}

func (c cliCase) paths(dir string, as []cliArg) []string {
	var r []string
	for _, a := range as {
		r = append(r, c.path(dir, a))
	}
	return r
}

// content reads the file behind a path of the tree.
func (c cliCase) content(dir string, i int) string {
	b, err := os.ReadFile(filepath.Join(dir, "w", c.Files[i].Name))
	cliMust(err)
	return string(b)
}

// snapshot describes everything in the working directory.
func snapshot(dir string) map[string]string {
	r := map[string]string{}
	w := filepath.Join(dir, "w")
	cliMust(filepath.WalkDir(w, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		i, err := d.Info()
		if err != nil {
			return err
		}
		s := i.Mode().String()
		if st, ok := i.Sys().(*syscall.Stat_t); ok && !i.IsDir() {
			s += fmt.Sprintf(":%d:%d:%d", st.Uid, st.Gid, st.Nlink)
		}
		switch {
		case i.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			s += " " + string(b)
		case i.Mode()&fs.ModeSymlink != 0:
			t, err := os.Readlink(p)
			if err != nil {
				return err
			}
			s += " -> " + t
		}
		rel, _ := filepath.Rel(w, p)
		r[rel] = s
		return nil
	}))
	return r
}

func snapDiff(a, b map[string]string) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("%s is gone", q(k))
		}
		if v != w {
			return fmt.Sprintf("%s was %q and is now %q", q(k), v, w)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%s has been created", q(k))
		}
	}
	return ""
}

type cliRun struct {
	args     []string
	out, err string
	code     int // -1: killed by a signal
}

func (r cliRun) String() string {
	return fmt.Sprintf("mustache %q: exit %d, stdout %q, stderr %q", r.args, r.code, tail(r.out, 1500), tail(r.err, 1500))
}

// start runs a prepared command line in the tree.
func (x *Ctx) start(dir string, wrap, args []string, prep func(*exec.Cmd)) (cliRun, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 80*time.Second)
	defer cancel()
	if x.cli == "" {
		harness("no mustache binary")
	}
	all := append(append(append([]string{}, wrap...), x.cli), args...)
	cmd := exec.CommandContext(ctx, all[0], all[1:]...)
	cmd.Dir = filepath.Join(dir, "w")
	h := filepath.Join(dir, "home")
	cmd.Env = []string{"HOME=" + h, "XDG_CONFIG_HOME=" + h, "PATH=" + os.Getenv("PATH"), "TMPDIR=" + h, "GOMAXPROCS=2"}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if prep != nil {
		prep(cmd)
	}
	err := cmd.Run()
	r := cliRun{args: args, out: o.String(), err: e.String()}
	if ctx.Err() != nil {
		return r, viol("mustache %q does not end", args)
	}
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			return r, startError{err}
		}
		r.code = ee.ExitCode()
	}
	if strings.Contains(r.err, "goroutine ") && (strings.HasPrefix(r.err, "panic:") || strings.Contains(r.err, "\npanic: ") || strings.Contains(r.err, "fatal error:") || strings.Contains(r.err, "[signal ")) && r.code == 2 {
		return r, viol("the command crashes: %s", r)
	}
	return r, nil
}

type startError struct{ err error }

func (s startError) Error() string { return s.err.Error() }

// feed gives the file of kind stdin to the command, through a pipe.
func (c cliCase) feed(cmd *exec.Cmd) {
	for _, f := range c.Files {
		if f.Kind == "stdin" {
			cmd.Stdin = strings.NewReader(f.text())
		}
	}
}

func (x *Ctx) run(dir string, args ...string) (cliRun, error) {
	return x.runFed(dir, nil, args...)
}

func (x *Ctx) runFed(dir string, feed func(*exec.Cmd), args ...string) (cliRun, error) {
	r, err := x.start(dir, nil, args, feed)
	var se startError
	if errors.As(err, &se) {
		harness("cannot run the tool: %v", err)
	}
	if err == nil && r.code != 0 && r.code != 1 {
		return r, viol("unexpected exit status: %s", r)
	}
	return r, err
}

var headerRe = regexp.MustCompile(`^error: (\d+) errors? occurred:$`)

// entries takes a report on stderr apart.
func entries(r cliRun) ([]string, error) {
	if r.err == "" {
		return nil, nil
	}
	ls := strings.Split(r.err, "\n")
	m := headerRe.FindStringSubmatch(ls[0])
	if m == nil {
		return nil, viol("no list of errors: %s", r)
	}
	var es []string
	for _, l := range ls[1:] {
		switch {
		case strings.HasPrefix(l, "\t* "):
			es = append(es, l[3:])
		case strings.HasPrefix(l, "\t  ") && len(es) > 0:
			es[len(es)-1] += "\n" + l[3:]
		case l == "":
		default:
			return nil, viol("unexpected line %q in the list of errors: %s", l, r)
		}
	}
	if n, _ := strconv.Atoi(m[1]); n != len(es) || n == 0 {
		return nil, viol("%s errors announced, %d listed: %s", m[1], len(es), r)
	}
	return es, nil
}

// want is an expected entry.
type want struct {
	exact    string
	prefix   string
	contains string
}

func (w want) matches(e string) bool {
	if w.exact != "" {
		return strings.TrimRight(w.exact, "\n") == e
	}
	return strings.HasPrefix(e, w.prefix) && strings.Contains(e, w.contains)
}

func (w want) String() string {
	if w.exact != "" {
		return fmt.Sprintf("%q", w.exact)
	}
	return fmt.Sprintf("%q with %q", w.prefix, w.contains)
}

// compare checks status and report of check or lint against the expectation.
func compareEntries(r cliRun, ws []want) error {
	es, err := entries(r)
	if err != nil {
		return err
	}
	if r.out != "" {
		return viol("output on stdout: %s", r)
	}
	for i := 0; i < len(es) || i < len(ws); i++ {
		switch {
		case i >= len(ws):
			return viol("unexpected entry %q: %s", es[i], r)
		case i >= len(es):
			return viol("entry %s is missing: %s", ws[i], r)
		case !ws[i].matches(es[i]):
			return viol("entry %d is %q instead of %s: %s", i+1, es[i], ws[i], r)
		}
	}
	if (r.code == 0) != (len(ws) == 0) {
		return viol("exit status %d with %d findings: %s", r.code, len(ws), r)
	}
	return nil
}

func parseVerdict(name, text string) (ok bool, w want) {
	_, err := config.Parse(name, []byte(text))
	if err == nil {
		return true, want{}
	}
	first, _, _ := strings.Cut(err.Error(), "\n")
	return false, want{prefix: name + ": ", contains: first}
}

// ---- generators ----

var cliNames = []string{"a.conf", "b.conf", "c", "sp ace.conf", "ünï.conf", "d%d%s.conf", "sub/e.conf", "sub/deep/f.conf", "it's.conf", "q\"q.conf", "star*.conf", "$HOME.conf", "a.conf.bak", "x:1:2", "sub/a.conf", "back\\slash.conf", "-", ".hidden.conf", "A.conf", "a,b.conf", "error: 1", "日本語.conf",
	"trail.conf ", " lead.conf", "[ab].conf", "b?.conf", "~", "a.conf~", "{a,b}.conf", "#a.conf#", "@a.conf", "k=v", "a.gz", "%41.conf", "a.json", "+a", "sub/..conf", "C.CONF"}

type cliGen struct {
	maxFiles int
	kinds    []string
	text     func(t *rapid.T) string
	repeat   bool // arguments may repeat
	stdin    bool // one argument may be a pipe
}

func (g cliGen) draw(t *rapid.T) cliCase {
	var c cliCase
	n := 1 + intn(t, g.maxFiles, "files")
	off := intn(t, len(cliNames), "nameAt")
	step := []int{1, 3, 7}[intn(t, 3, "nameStep")]
	for i := 0; i < n; i++ {
		f := cliFile{Name: cliNames[(off+i*step)%len(cliNames)], Kind: g.kinds[intn(t, len(g.kinds), "kind")]}
		if f.isFile() || f.isDir() {
			f.Text = Txt(g.text(t))
			if rarely(t, "big") {
				f.Of = pick(t, "bigOf", "plugin", "missing", "string", "comment", "array")
				f.Big = rapid.IntRange(1, 1000).Draw(t, "bigN")
				if f.Of == "string" || f.Of == "comment" {
					f.Big *= 150
				}
			}
		}
		if f.Kind == "file" && intn(t, 4, "mode?") == 0 {
			f.Mode = []uint32{0o600, 0o640, 0o755, 0o444, 0o666, 0o400, 0o777, 0o1644}[intn(t, 8, "mode")]
		}
		if f.isFile() && intn(t, 8, "own?") == 5 {
			f.Own = 4321
		}
		f.Hard = f.isFile() && intn(t, 8, "hard") == 5
		c.Files = append(c.Files, f)
	}
	for i := range c.Files {
		c.Args = append(c.Args, cliArg{i, pick(t, "style", "", "", "", "./", "abs")})
	}
	if intn(t, 3, "shuffle") == 0 {
		c.Args = rapid.Permutation(c.Args).Draw(t, "order")
	}
	if g.repeat && intn(t, 4, "repeat") == 0 {
		c.Args = append(c.Args, cliArg{intn(t, n, "again"), pick(t, "againStyle", "", "./", "abs")})
	}
	if intn(t, 6, "subset") == 0 {
		c.Args = c.Args[:intn(t, len(c.Args)+1, "argN")]
	}
	if g.stdin && intn(t, 8, "stdin?") == 0 {
		c.pipe(intn(t, n, "stdin"))
	}
	return c
}

// pipe makes a file the standard input, which can be read only once.
func (c *cliCase) pipe(i int) {
	k := 0
	for _, a := range c.Args {
		if a.File == i {
			k++
		}
	}
	if f := c.Files[i]; k == 1 && f.Kind == "file" {
		c.Files[i] = cliFile{Name: f.Name, Kind: "stdin", Text: f.Text, Big: f.Big, Of: f.Of}
	}
}

var allKinds = []string{"file", "file", "file", "file", "file", "file", "file", "file", "file", "link", "dir", "linkdir", "missing", "missing", "dangling", "loop", "notdir", "socket"}

func cliText(t *rapid.T) string {
	switch intn(t, 8, "cliText") {
	case 0:
		return ""
	case 1, 2:
		return genAnyText(t, 8)
	case 3:
		return pick(t, "broken", "input {", "filter { if [a { } }", "output { a { b => \"x } }", "x", "input { a { b => [1,2 } }", "filter { a { } } }", "input { a { b => 1 c => } }", "\xff", "# only a comment", "input {} #\xc3")
	}
	return genText(t, 10)
}

// ---- C19: check ----

func cliClean(x *Ctx, c cliCase) {
	bad, good := false, false
	for _, a := range c.Args {
		f := c.Files[a.File]
		x.Label("argument kind " + f.Kind)
		if f.isFile() {
			if ok, _ := parseVerdict("x", f.text()); ok {
				good = true
			} else {
				bad = true
			}
		} else if !f.isDir() {
			bad = true
		}
	}
	x.Label("good and bad arguments", bad && good)
	x.Label("all good", good && !bad)
	x.Label("no arguments", len(c.Args) == 0)
}

func checkWants(c cliCase, dir string) []want {
	var ws []want
	for _, a := range c.Args {
		f, name := c.Files[a.File], c.path(dir, a)
		switch {
		case f.isFile():
			if ok, w := parseVerdict(name, f.text()); !ok {
				ws = append(ws, w)
			}
		case !f.isDir():
			ws = append(ws, want{prefix: name + ": "})
		}
	}
	return ws
}

func checkC19(x *Ctx, c cliCase) error {
	dir := x.setup(c)
	defer x.discard(dir)
	before := snapshot(dir)
	r, err := x.runFed(dir, c.feed, append([]string{"check"}, c.paths(dir, c.Args)...)...)
	if err != nil {
		return err
	}
	cliClean(x, c)
	x.Interesting(len(c.Args) > 0)
	if err := compareEntries(r, checkWants(c, dir)); err != nil {
		return err
	}
	if d := snapDiff(before, snapshot(dir)); d != "" {
		return viol("check modifies files: %s: %s", d, r)
	}
	return nil
}

// ---- C20: format ----

func formatted(s string) (string, bool) {
	v, err := parse(s)
	if err != nil {
		return "", false
	}
	return v.String(), true
}

func checkC20(x *Ctx, c cliCase) error {
	dir := x.setup(c)
	defer x.discard(dir)
	before := snapshot(dir)
	args := []string{"format"}
	if c.Write {
		args = append(args, pick2(len(c.Args)%2 == 0, "-w", "--write-to-source"))
	}
	r, err := x.runFed(dir, c.feed, append(args, c.paths(dir, c.Args)...)...)
	if err != nil {
		return err
	}
	cliClean(x, c)
	x.Label("write option", c.Write)
	x.Interesting(len(c.Args) > 0)
	// two admissible ways: stop at the first bad file, or go on
	type state struct {
		out  string
		text map[int]string
	}
	run := func(stop bool) (state, string) {
		s := state{text: map[int]string{}}
		bad := ""
		for _, a := range c.Args {
			f := c.Files[a.File]
			if f.isDir() {
				continue
			}
			cur, has := s.text[a.File]
			if !has {
				cur = f.text()
			}
			o, ok := "", false
			if f.isFile() {
				o, ok = formatted(cur)
			}
			if !ok {
				if bad == "" {
					bad = c.path(dir, a)
				}
				if stop {
					return s, bad
				}
				continue
			}
			if c.Write {
				s.text[a.File] = o
			} else {
				s.out += o
			}
		}
		return s, bad
	}
	s1, bad := run(true)
	s2, _ := run(false)
	if bad == "" {
		if r.code != 0 || r.err != "" {
			return viol("formatting valid files fails: %s", r)
		}
	} else if r.code == 0 || !strings.Contains(r.err, bad) {
		return viol("%q cannot be formatted: %s", bad, r)
	}
	after := snapshot(dir)
	var why string
	for _, s := range []state{s1, s2} {
		why = ""
		if r.out != s.out {
			why = fmt.Sprintf("stdout should be %q", s.out)
			continue
		}
		exp := map[string]string{}
		for k, v := range before {
			exp[k] = v
		}
		for i, txt := range s.text {
			c.Files[i].expect(exp, txt)
		}
		if d := snapDiff(exp, after); d != "" {
			why = "expected versus actual files: " + d
			continue
		}
		break
	}
	if why != "" {
		return viol("%s: %s", r, why)
	}
	return nil
}

func pick2(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// ---- C21, C22: lint ----

// blockPlugins visits the plugins of all blocks in the order input, filter, output.
func blockPlugins(c *Conf, f func(*N)) {
	var rec func(ns []*N)
	rec = func(ns []*N) {
		for _, n := range ns {
			switch n.K {
			case "plugin":
				f(n)
			case "branch":
				for _, b := range n.Kids {
					rec(b.Kids)
				}
			}
		}
	}
	for _, g := range c.Groups {
		for _, s := range g {
			rec(s.Kids)
		}
	}
}

type lintFacts struct {
	plugins, missing, nonString, dup int
	warnings                         int
}

// lintWants lists what lint has to report about one file.
func lintWants(name, text string, fix bool) (ws []want, fx lintFacts, err error) {
	ok, w := parseVerdict(name, text)
	ref := refParse(text, refOpts{warn: true})
	if ok != ref.ok {
		return nil, fx, errSkip
	}
	if !ok {
		return []want{w}, fx, nil
	}
	for _, s := range ref.conf.Warnings {
		ws = append(ws, want{exact: s})
	}
	fx.warnings = len(ref.conf.Warnings)
	noIDs, dups := name+": no IDs found for:\n", name+": duplicate IDs found in:\n"
	nNo, nDup := 0, 0
	seen := map[string]bool{}
	blockPlugins(ref.conf, func(n *N) {
		fx.plugins++
		id, found, isStr := refID(n)
		line := n.Pos.String() + ": " + n.Name + "\n"
		switch {
		case !found || !isStr:
			if !found {
				fx.missing++
			} else {
				fx.nonString++
			}
			if !found && fix {
				return
			}
			noIDs += line
			nNo++
		case seen[id]:
			dups += line
			nDup++
		default:
			seen[id] = true
		}
	})
	fx.dup = nDup
	if nNo > 0 {
		ws = append(ws, want{exact: noIDs})
	}
	if nDup > 0 {
		ws = append(ws, want{exact: dups})
	}
	return ws, fx, nil
}

var errSkip = errors.New("parser and reference disagree")

func (x *Ctx) lintLabels(fx lintFacts) {
	x.Label("file with missing ids", fx.missing > 0)
	x.Label("file with ids that are no strings", fx.nonString > 0)
	x.Label("file with duplicate ids", fx.dup > 0)
	x.Label("file with lost comments", fx.warnings > 0)
	x.Label("file with plugins and nothing to fix", fx.plugins > 0 && fx.missing == 0)
}

func checkC21(x *Ctx, c cliCase) error {
	dir := x.setup(c)
	defer x.discard(dir)
	var ws []want
	clean, plugins := true, 0
	for _, a := range c.Args {
		f, name := c.Files[a.File], c.path(dir, a)
		switch {
		case f.isFile():
			w, fx, err := lintWants(name, f.text(), false)
			if err != nil {
				return x.Exclude("parser and reference disagree (C01)")
			}
			x.lintLabels(fx)
			plugins += fx.plugins
			ws = append(ws, w...)
		case !f.isDir():
			ws = append(ws, want{prefix: name + ": "})
			clean = false
		}
	}
	before := snapshot(dir)
	r, err := x.runFed(dir, c.feed, append([]string{"lint"}, c.paths(dir, c.Args)...)...)
	if err != nil {
		return err
	}
	x.Interesting(plugins > 0)
	x.Label("nothing to report", len(ws) == 0)
	x.Label("unreadable files", !clean)
	if err := compareEntries(r, ws); err != nil {
		return err
	}
	if d := snapDiff(before, snapshot(dir)); d != "" {
		return viol("lint modifies files: %s: %s", d, r)
	}
	return nil
}

// genLintText writes a configuration with many plugins and ids from a small pool.
func genLintText(t *rapid.T) string {
	if intn(t, 12, "invalid") == 11 {
		return cliText(t)
	}
	st := genStyle(t)
	if intn(t, 2, "plain") == 0 {
		st = triviaStyle{}
	}
	d := newDoc(t, 3, 22)
	d.lint = 40
	if d.wide || intn(t, 4, "allIDs") == 3 {
		d.lint = 90
	}
	if intn(t, 4, "allIDs") == 3 {
		d.lint = 100
	}
	d.document()
	return render(t, d.ps, st)
}

// withoutAdded removes from got the ids that were appended to plugins that have
// none in want.
func withoutAdded(want, got *Conf) (added []string, problem string) {
	var a, b []*N
	blockPlugins(want, func(n *N) { a = append(a, n) })
	blockPlugins(got, func(n *N) { b = append(b, n) })
	if len(a) != len(b) {
		return nil, fmt.Sprintf("%d plugins instead of %d", len(b), len(a))
	}
	for i, n := range a {
		if _, found, _ := refID(n); found {
			continue
		}
		m := b[i]
		if len(m.Kids) == 0 {
			return nil, fmt.Sprintf("plugin %s at %s got no id", n.Name, n.Pos)
		}
		l := m.Kids[len(m.Kids)-1]
		id, found, str := refID(&N{Kids: []*N{l}})
		if !found || !str {
			return nil, fmt.Sprintf("plugin %s at %s: the last attribute is not an id", n.Name, n.Pos)
		}
		added = append(added, id)
		m.Kids = m.Kids[:len(m.Kids)-1]
	}
	return added, ""
}

func checkC22(x *Ctx, c cliCase) error {
	dir := x.setup(c)
	defer x.discard(dir)
	cmd := append([]string{"lint", "--auto-fix-id"}, c.paths(dir, c.Args)...)
	type todo struct {
		i    int
		name string
		fx   lintFacts
	}
	var ws []want
	var fixes []todo
	given := map[int]bool{}
	for _, a := range c.Args {
		f, name := c.Files[a.File], c.path(dir, a)
		given[a.File] = true
		switch {
		case f.isFile():
			w, fx, err := lintWants(name, f.text(), true)
			if err != nil {
				return x.Exclude("parser and reference disagree (C01)")
			}
			x.lintLabels(fx)
			ws = append(ws, w...)
			fixes = append(fixes, todo{a.File, name, fx})
			if ref := refParse(f.text(), refOpts{}); ref.ok {
				if elseTrap(ref.conf) {
					return x.Exclude("plugin named else after an empty else block (known finding of C08)")
				}
				if ref.condLost && riskyCond(f.text(), ref) {
					return x.Exclude("a comment lost inside a condition decides between selector and array")
				}
			}
		case !f.isDir():
			ws = append(ws, want{prefix: name + ": "})
		}
	}
	before := snapshot(dir)
	r, err := x.run(dir, cmd...)
	if err != nil {
		return err
	}
	if err := compareEntries(r, ws); err != nil {
		return err
	}
	after := snapshot(dir)
	exp := map[string]string{}
	for k, v := range before {
		exp[k] = v
	}
	var ws2 []want
	for _, a := range c.Args {
		if f := c.Files[a.File]; !f.isFile() && !f.isDir() {
			ws2 = append(ws2, want{prefix: c.path(dir, a) + ": "})
			continue
		} else if f.isDir() {
			continue
		}
		var td todo
		for _, t := range fixes {
			if t.i == a.File {
				td = t
			}
		}
		f := c.Files[td.i]
		now := c.content(dir, td.i)
		if td.fx.missing > 0 {
			x.Interesting(true)
			x.Label("fixed file")
			x.Label("several ids added", td.fx.missing > 1)
			f.expect(exp, now)
			where := fmt.Sprintf("file %q\nfixed to %q\n", f.Text, now)
			v0, err := parse(f.text())
			if err != nil {
				return viol("%sparse of original: %v", where, err)
			}
			vf, err := parse(v0.String())
			if err != nil {
				return viol("%sthe formatted original does not parse: %v", where, err)
			}
			v1, err := parse(now)
			if err != nil {
				return viol("%sthe fixed file is not valid: %v", where, err)
			}
			tf, t1 := fromAST(vf), fromAST(v1)
			added, problem := withoutAdded(tf, t1)
			if problem != "" {
				return viol("%s%s", where, problem)
			}
			if len(added) != td.fx.missing {
				return viol("%s%d ids added instead of %d", where, len(added), td.fx.missing)
			}
			if d := confDiff(tf, t1, cmpOpt{comments: true, spacing: true}); d != "" {
				return viol("%sformatted original versus fixed file without the added ids: %s", where, d)
			}
			if again := v1.String(); again != now {
				return viol("%sthe fixed file is not in its formatted form %q", where, again)
			}
			used := map[string]bool{}
			blockPlugins(tf, func(n *N) {
				if id, _, str := refID(n); str {
					used[id] = true
				}
			})
			for _, id := range added {
				if used[id] {
					return viol("%sthe added id %q is not unique", where, id)
				}
				used[id] = true
			}
		}
		w, _, err := lintWants(td.name, now, false)
		if err != nil {
			return x.Exclude("parser and reference disagree (C01)")
		}
		ws2 = append(ws2, w...)
	}
	if d := snapDiff(exp, after); d != "" {
		return viol("files that should not change: %s: %s", d, r)
	}
	// again: nothing left to fix
	r2, err := x.run(dir, cmd...)
	if err != nil {
		return err
	}
	if d := snapDiff(after, snapshot(dir)); d != "" {
		return viol("a second run changes %s: %s", d, r2)
	}
	r3, err := x.run(dir, append([]string{"lint"}, c.paths(dir, c.Args)...)...)
	if err != nil {
		return err
	}
	if r3.err != r2.err || r3.code != r2.code {
		return viol("the second run reports %s\nlint without fixing %s", r2, r3)
	}
	return compareEntries(r3, ws2)
}

// ---- C30: files do not influence each other ----

func checkC30(x *Ctx, c cliCase) error {
	dir := x.setup(c)
	defer x.discard(dir)
	cmd := []string{c.Op}
	if c.Op == "format" {
		var keep []cliArg
		for _, a := range c.Args {
			if f := c.Files[a.File]; f.isDir() {
				keep = append(keep, a)
			} else if f.isFile() {
				if ok, _ := parseVerdict("x", f.text()); ok {
					keep = append(keep, a)
				}
			}
		}
		c.Args = keep
	}
	if len(c.Args) < 2 {
		return x.Exclude("fewer than two files")
	}
	type single struct {
		es   []string
		code int
		out  string
	}
	var alone []single
	for _, a := range c.Args {
		r, err := x.runFed(dir, c.feed, append(cmd, c.path(dir, a))...)
		if err != nil {
			return err
		}
		s := single{code: r.code, out: r.out}
		if c.Op != "format" {
			if s.es, err = entries(r); err != nil {
				return err
			}
		} else if r.code != 0 {
			return viol("a valid file cannot be formatted: %s", r)
		}
		alone = append(alone, s)
	}
	cliClean(x, c)
	x.Label("command " + c.Op)
	x.Interesting(true)
	perm := make([]int, len(c.Args))
	for i := range perm {
		perm[i] = i
	}
	orders := [][]int{perm}
	p2 := append([]int{}, perm...)
	for i := range p2 { // a second order from the drawn numbers
		if i < len(c.Perm) {
			j := c.Perm[i] % len(p2)
			if j < 0 {
				j = -j
			}
			p2[i], p2[j] = p2[j], p2[i]
		}
	}
	orders = append(orders, p2)
	for _, o := range orders {
		var as []cliArg
		var exp []string
		code, out := 0, ""
		for _, i := range o {
			as = append(as, c.Args[i])
			exp = append(exp, alone[i].es...)
			out += alone[i].out
			if alone[i].code != 0 {
				code = 1
			}
		}
		r, err := x.runFed(dir, c.feed, append(cmd, c.paths(dir, as)...)...)
		if err != nil {
			return err
		}
		if r.code != code {
			return viol("alone: %+v\ntogether: %s", alone, r)
		}
		if r.out != out {
			return viol("stdout should be %q: %s", out, r)
		}
		if c.Op == "format" {
			continue
		}
		es, err := entries(r)
		if err != nil {
			return err
		}
		for i := 0; i < len(es) || i < len(exp); i++ {
			if i >= len(es) || i >= len(exp) || es[i] != exp[i] {
				return viol("findings alone: %q\ntogether: %q\n%s", exp, es, r)
			}
		}
	}
	return nil
}

func init() {
	gc := func(kinds []string, max int, text func(*rapid.T) string, repeat bool) cliGen {
		return cliGen{maxFiles: max, kinds: kinds, text: text, repeat: repeat}
	}
	reg("C19", "argument lists of up to five paths (plain files, symbolic links, directories, links to directories, missing paths, dangling and looping links, paths below a file, sockets, a pipe; odd names; relative, dotted and absolute; repeated) with generated valid and invalid contents; non-trivial: at least one argument",
		func(t *rapid.T) cliCase { g := gc(allKinds, 5, cliText, true); g.stdin = true; return g.draw(t) }, checkC19,
		cases(2400, 300000), sizedCLI(1025, false), corpus(bigCase(2200000, "name"), bigCase(12000, "plugin"), bigCase(3000, "missing"), bigCase(400000, "string"), bigCase(100001, "comment"), bigCase(60000, "array"), cliCase{Files: []cliFile{{Name: "gone", Kind: "missing"}, {Name: "a", Kind: "file", Text: "input {}"}}, Args: []cliArg{{0, ""}, {1, ""}}}, cliCase{Files: []cliFile{{Name: "bad", Kind: "file", Text: "input {"}, {Name: "s", Kind: "socket"}}, Args: []cliArg{{0, ""}, {1, ""}}}))
	mostlyGood := []string{"file", "file", "file", "file", "file", "file", "file", "file", "file", "file", "link", "link", "dir", "linkdir", "missing", "socket"}
	reg("C20", "argument lists of up to four paths as for C19, mostly with valid contents, formatted to standard output or in place; non-trivial: at least one argument",
		func(t *rapid.T) cliCase {
			g := gc(mostlyGood, 4, func(t *rapid.T) string {
				if intn(t, 8, "any") == 0 {
					return cliText(t)
				}
				return genText(t, 14)
			}, true)
			write := rapid.Bool().Draw(t, "write")
			g.stdin = !write
			c := g.draw(t)
			c.Write = write
			return c
		}, checkC20, cases(2400, 300000), sizedCLI(1025, false), corpus(bigCase(2200000, "name"), bigCase(6000, "plugin"), bigCase(6001, "plugin"), bigCase(200000, "string"), bigCase(100001, "comment"), bigCase(30000, "array")))
	reg("C21", "argument lists of up to four paths with plugins in arbitrary nesting, ids of all types and spellings from a small pool, comments anywhere; non-trivial: at least one plugin",
		func(t *rapid.T) cliCase { g := gc(mostlyGood, 4, genLintText, true); g.stdin = true; return g.draw(t) }, checkC21, cases(2400, 300000), sizedCLI(1025, true),
		corpus(bigCase(2200000, "name"), bigCase(6000, "plugin"), bigCase(3000, "missing"), bigCase(200000, "string"), bigCase(100001, "comment"), bigCase(30000, "array")))
	reg("C22", "as for C21 (no repeated paths), linted twice with automatic fixing and once without; non-trivial: at least one file needs a fix",
		func(t *rapid.T) cliCase { return gc(mostlyGood, 3, genLintText, false).draw(t) }, checkC22, cases(2400, 150000), sizedCLI(257, true),
		corpus(bigCase(2200000, "name"), bigCase(3000, "plugin"), bigCase(500, "missing"), bigCase(200000, "string"), bigCase(100001, "comment"), bigCase(20000, "array"), cliCase{Files: []cliFile{{Name: "a", Kind: "file", Text: "input { \"a\\\"b\" { } a { id => 'a-1' } a {} a { id => \"a-3\" } 'x\ny' {} b { id => 1 } }"}}, Args: []cliArg{{0, ""}}}))
	reg("C30", "lists of two to five paths of all kinds, with valid and invalid contents, given to check, lint or format one by one, together, and together in a second order; non-trivial: at least two arguments",
		func(t *rapid.T) cliCase {
			k := allKinds
			g := gc(k, 5, func(t *rapid.T) string {
				if rapid.Bool().Draw(t, "lintText") {
					return genLintText(t)
				}
				return cliText(t)
			}, true)
			g.stdin = true
			c := g.draw(t)
			c.Op = pick(t, "command", "check", "check", "lint", "lint", "format")
			for range c.Args {
				c.Perm = append(c.Perm, intn(t, 8, "swap"))
			}
			return c
		}, checkC30, cases(2000, 90000), sizedCLI(33, false),
		corpus(cliCase{Op: "check", Files: []cliFile{{Name: "bad", Kind: "file", Text: "input {"}, {Name: "s", Kind: "socket"}, {Name: "x", Kind: "file", Text: "x"}}, Args: []cliArg{{0, ""}, {1, ""}, {2, ""}}, Perm: []int{2, 0, 1}}))
}
