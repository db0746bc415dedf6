package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"

	"pgregory.net/rapid"
)

// ---- C23: output that cannot be written ----

// fault is what goes wrong while a command writes.
type fault struct {
	Kind string // none, limit, devfull, rdonly, broken pipe, unprivileged, syscall
	// limit: the maximal size of a file, as a distance to a reference size
	Ref   string `json:",omitempty"` // zero, new, old: of which size
	Delta int    `json:",omitempty"`
	File  int    `json:",omitempty"` // whose size
	// syscall: which call on the file fails
	Call  string `json:",omitempty"`
	When  int    `json:",omitempty"`
	Errno string `json:",omitempty"`
}

var faultCalls = []string{"write", "write", "ftruncate", "openat", "read", "close", "close", "lseek", "pwrite64", "pread64", "fsync"}

func genFaultCase(t *rapid.T) cliCase {
	g := cliGen{maxFiles: 3, kinds: []string{"file", "file", "file", "file", "file", "link"}, text: genLintText}
	c := g.draw(t)
	c.Op = pick(t, "op", "format", "format -w", "format -w", "lint", "lint")
	f := &fault{Kind: "limit"}
	switch k := intn(t, 12, "fault"); {
	case k == 0:
		f.Kind = "none"
	case k < 3 && c.Op == "format":
		f.Kind = pick(t, "sink", "devfull", "rdonly", "broken pipe")
	case k < 4 && c.Op != "format":
		f.Kind = "unprivileged"
		for i := range c.Files {
			if c.Files[i].Mode == 0 {
				c.Files[i].Mode = []uint32{0o444, 0o644, 0o666}[intn(t, 3, "unprivMode")]
			}
			if c.Files[i].Mode&0o004 == 0 {
				c.Files[i].Mode |= 0o044
			}
		}
	case k < 8:
		f.Kind = "syscall"
		f.Call = faultCalls[intn(t, len(faultCalls), "call")]
		f.When = 1
		if f.Call == "openat" || f.Call == "read" || f.Call == "close" {
			f.When += []int{1, 1, 0, 1, 2, 3}[intn(t, 6, "when")]
		}
		f.Errno = pick(t, "errno", "ENOSPC", "EIO", "EDQUOT", "EROFS", "EACCES")
		f.File = intn(t, len(c.Files), "faultFile")
	default:
		f.Ref = pick(t, "ref", "new", "new", "new", "old", "zero")
		f.Delta = []int{-1, 0, 1, -2, -7, 5, 64}[intn(t, 7, "delta")]
		if intn(t, 3, "any") == 0 {
			f.Delta = rapid.IntRange(-200, 200).Draw(t, "anyDelta")
		}
		f.File = intn(t, len(c.Files), "limitFile")
	}
	c.Fault = f
	return c
}

func (c cliCase) command() []string {
	switch c.Op {
	case "format":
		return []string{"format"}
	case "format -w":
		return []string{"format", "-w"}
	}
	return []string{"lint", "--auto-fix-id"}
}

func checkC23(x *Ctx, c cliCase) error {
	if len(c.Args) == 0 {
		return x.Exclude("no arguments")
	}
	// without a fault
	ok := x.setup(c)
	defer x.discard(ok)
	rok, err := x.run(ok, append(c.command(), c.paths(ok, c.Args)...)...)
	if err != nil {
		return err
	}
	f := *c.Fault
	if f.File >= len(c.Files) {
		f.File = 0
	}
	limit := 0
	switch f.Ref {
	case "old":
		limit = len(c.Files[f.File].text())
	case "new":
		limit = len(c.content(ok, f.File))
		if c.Op == "format" {
			limit = len(rok.out)
		}
	}
	limit = max(0, limit+f.Delta)

	dir := x.setup(c)
	defer x.discard(dir)
	args := append(c.command(), c.paths(dir, c.Args)...)
	sinkPath := filepath.Join(dir, "home", "sink")
	var wrap []string
	var files []*os.File
	open := func(name string, flag int) *os.File {
		h, err := os.OpenFile(name, flag, 0o644)
		cliMust(err)
		files = append(files, h)
		return h
	}
	defer func() {
		for _, h := range files {
			h.Close()
		}
	}()
	self, err := os.Executable()
	cliMust(err)
	observed := true // the sink can be read back
	prep := func(cmd *exec.Cmd) {
		if c.Op == "format" {
			cmd.Stdout = open(sinkPath, os.O_CREATE|os.O_TRUNC|os.O_WRONLY)
		}
		switch f.Kind {
		case "devfull":
			cmd.Stdout, observed = open("/dev/full", os.O_WRONLY), false
		case "rdonly":
			cmd.Stdout = open(sinkPath, os.O_RDONLY)
		case "broken pipe":
			r, w, err := os.Pipe()
			cliMust(err)
			r.Close()
			files = append(files, w)
			cmd.Stdout, observed = w, false
		case "unprivileged":
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
		}
	}
	switch f.Kind {
	case "limit":
		wrap = []string{self, "limit", strconv.Itoa(limit)}
	case "syscall":
		strace, err := exec.LookPath("strace")
		if err != nil {
			return x.Exclude("strace is not available")
		}
		path := filepath.Join(dir, "w", c.Files[f.File].Name)
		if c.Files[f.File].Kind == "link" {
			path = filepath.Join(dir, "w", c.Files[f.File].target())
		}
		if c.Op == "format" && f.Call == "write" {
			path = sinkPath
		}
		log := filepath.Join(dir, "home", "strace.log")
		wrap = []string{strace, "-f", "-qq", "-o", log, "-e", "signal=none", "-P", path, "-e", fmt.Sprintf("inject=%s:error=%s:when=%d", f.Call, f.Errno, f.When)}
	}
	r, err := x.start(dir, wrap, args, prep)
	var se startError
	if errors.As(err, &se) {
		if f.Kind == "unprivileged" && errors.Is(se.err, syscall.EPERM) {
			return x.Exclude("cannot run as another user here")
		}
		harness("cannot run the tool: %v", err)
	}
	if err != nil {
		return err
	}
	injected, lost := false, false
	if f.Kind == "syscall" {
		log, _ := os.ReadFile(filepath.Join(dir, "home", "strace.log"))
		if len(log) == 0 && r.code != 0 && strings.Contains(r.err, "strace:") {
			return x.Exclude("strace does not work here")
		}
		injected = strings.Contains(string(log), "(INJECTED)")
		x.Label("a failing "+f.Call, injected)
		lost = f.Call == "close" && closeLost(string(log))
		x.Label("a failing close after writing", lost)
		var keep []string
		for _, l := range strings.SplitAfter(r.err, "\n") {
			if !strings.HasPrefix(l, "strace: ") {
				keep = append(keep, l)
			}
		}
		r.err = strings.Join(keep, "")
	}
	x.Label("command " + c.Op)
	x.Label("fault " + f.Kind)
	where := func(s string, a ...any) error {
		return viol("fault %+v (file size limit %d)\n%s\nwithout the fault: %s\n%s", f, limit, r, rok, fmt.Sprintf(s, a...))
	}
	if r.code != 0 && r.code != 1 && !(r.code == -1 && f.Kind == "broken pipe") {
		return where("unexpected exit status")
	}
	if r.code == 1 && r.err == "" {
		return where("failure without a message")
	}
	complete := true
	if c.Op == "format" {
		if observed {
			b, err := os.ReadFile(sinkPath)
			cliMust(err)
			complete = string(b) == rok.out
			if !strings.HasPrefix(rok.out, string(b)) {
				return where("stdout received %q", b)
			}
		} else {
			complete = rok.out == ""
		}
		x.Interesting(rok.out != "")
	}
	changed := false
	for i, cf := range c.Files {
		was, full, now := cf.text(), c.content(ok, i), c.content(dir, i)
		if was != full {
			changed = true
		}
		if now != was && now != full {
			return where("file %q contains neither its previous content %q nor the new one %q, but %q", cf.Name, was, full, now)
		}
		if now != full {
			complete = false
		}
	}
	if c.Op != "format" {
		x.Interesting(changed)
	}
	x.Label("incomplete output", !complete)
	if !complete && r.code == 0 {
		return where("output is incomplete, but the command succeeds")
	}
	if rok.code == 1 && r.code == 0 {
		return where("the fault hides a failure")
	}
	if lost && r.code == 0 {
		return where("closing the written file failed, but the command succeeds")
	}
	if f.Kind == "none" || (f.Kind == "syscall" && !injected) {
		if r.code != rok.code || !complete {
			return where("two runs without a fault differ")
		}
	}
	if !complete && rok.code == 1 && c.Op != "format" {
		// the report must mention more than without the fault
		if r.err == strings.ReplaceAll(rok.err, ok, dir) {
			return where("the incomplete output is not reported")
		}
	}
	return nil
}

var straceLine = regexp.MustCompile(`^(?:\d+ +)?(\w+)\((.*)\) += (-?\d+|\?)(.*)$`)

// closeLost tells whether the close of a descriptor failed, to which has been
// written without being synchronized afterwards: this is when the failure of a
// delayed write is reported.
func closeLost(log string) bool {
	written := map[string]bool{}
	for _, l := range strings.Split(log, "\n") {
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		fd, _, _ := strings.Cut(m[2], ",")
		fd, _, _ = strings.Cut(fd, "<")
		ok := !strings.HasPrefix(m[3], "-")
		switch m[1] {
		case "openat", "open", "creat":
			if ok {
				delete(written, m[3])
			}
		case "write", "pwrite64", "writev", "ftruncate":
			if ok {
				written[fd] = true
			}
		case "fsync", "fdatasync":
			if ok {
				delete(written, fd)
			}
		case "close":
			if strings.Contains(m[4], "(INJECTED)") && written[fd] {
				return true
			}
			delete(written, fd)
		}
	}
	return false
}

// limitMain sets a file size limit and becomes another program.
func limitMain(args []string) {
	k, err := strconv.ParseUint(args[0], 10, 64)
	if err != nil {
		fatalf("%v", err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: k, Max: k}); err != nil {
		fatalf("%v", err)
	}
	if err := syscall.Exec(args[1], args[1:], os.Environ()); err != nil {
		fatalf("%v", err)
	}
}

func init() {
	reg("C23", "format to standard output or in place and automatic id fixing of up to three files, while writing fails: a file size limit at an arbitrary byte count (concentrated around the old and new sizes), a full device, a read-only descriptor or a pipe nobody reads as standard output, read-only files under another user, or one failing system call (open, read, write, seek, truncate, close) on the file, injected with strace; compared with a run without the fault; non-trivial: the command has output to write or a file to change",
		genFaultCase, checkC23, cases(4000, 200000))
}
