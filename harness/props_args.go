package main

import (
	"os"
	"path/filepath"
	"strings"

	"pgregory.net/rapid"
)

// ---- C33: command lines ----

// spelling is one way to write a command line.
type spelling struct {
	Flag string // spelling of the option of the command, if any
	At   int    // place of the option among the paths
	Dup  bool   `json:",omitempty"` // the option is given a second time
	Dash bool   `json:",omitempty"` // "--" goes before the paths
	Conf string `json:",omitempty"` // name of a configuration file
	Home bool   `json:",omitempty"` // the configuration file is in the home directory
	Text string `json:",omitempty"` // its content
}

type argsCase struct {
	C     cliCase
	On    bool // the option of the command (lint, format) is set
	Ways  []spelling
	Wrong wrongArg
	Help  wrongArg
}

// wrongArg is a word put into a command line.
type wrongArg struct {
	Word string
	At   int
}

var optionNames = map[string][2]string{"lint": {"--auto-fix-id", ""}, "format": {"--write-to-source", "-w"}}

var onSpellings = []string{"LONG", "LONG=true", "LONG=1", "LONG=t", "LONG=TRUE", "SHORT", "SHORT=true", "SHORT=1"}
var offSpellings = []string{"", "LONG=false", "LONG=0", "SHORT=false", "LONG=F"}

func insertAt(ws []string, at int, w string) []string {
	at %= len(ws) + 1
	r := append([]string{}, ws[:at]...)
	return append(append(r, w), ws[at:]...)
}

// words returns the command line of a spelling.
func (c argsCase) words(dir string, s spelling) []string {
	ps := c.C.paths(dir, c.C.Args)
	n := optionNames[c.C.Op]
	fl := strings.ReplaceAll(s.Flag, "LONG", n[0])
	if strings.Contains(fl, "SHORT") {
		if n[1] == "" {
			n[1] = n[0]
		}
		fl = strings.ReplaceAll(fl, "SHORT", n[1])
	}
	if n[0] == "" {
		fl = ""
	}
	dash := s.Dash
	for _, p := range ps {
		dash = dash || strings.HasPrefix(p, "-")
	}
	var ws []string
	switch {
	case dash:
		ws = append([]string{"--"}, ps...)
		s.At = 0
	default:
		ws = ps
	}
	if fl != "" {
		ws = insertAt(ws, s.At, fl)
		if s.Dup {
			ws = insertAt(ws, 0, fl)
		}
	}
	return append([]string{c.C.Op}, ws...)
}

type argsResult struct {
	cliRun
	snap map[string]string
}

// once runs one command line in a new tree.
func (c argsCase) once(x *Ctx, s spelling, words func(dir string) []string) (argsResult, map[string]string, error) {
	dir := x.setup(c.C)
	defer x.discard(dir)
	if s.Conf != "" {
		d := filepath.Join(dir, "w")
		if s.Home {
			d = filepath.Join(dir, "home", "mustache")
		}
		cliMust(os.MkdirAll(d, 0o755))
		cliMust(os.WriteFile(filepath.Join(d, s.Conf), []byte(s.Text), 0o644))
	}
	before := snapshot(dir)
	r, err := x.run(dir, words(dir)...)
	return argsResult{r, snapshot(dir)}, before, err
}

func checkC33(x *Ctx, c argsCase) error {
	opt := optionNames[c.C.Op][0] != ""
	on := c.On && opt
	ref := spelling{}
	if on {
		ref.Flag = "LONG"
	}
	want, _, err := c.once(x, ref, func(d string) []string { return c.words(d, ref) })
	if err != nil {
		return err
	}
	cliClean(x, c.C)
	x.Label("command " + c.C.Op)
	x.Label("option set", on)
	x.Interesting(len(c.C.Args) > 0)
	for _, s := range c.Ways {
		got, _, err := c.once(x, s, func(d string) []string { return c.words(d, s) })
		if err != nil {
			return err
		}
		if s.Conf != "" && !s.Home {
			delete(got.snap, s.Conf)
		}
		x.Label("configuration file", s.Conf != "")
		if got.code != want.code || got.out != want.out || got.err != want.err {
			return viol("two spellings (configuration file %q %q) of a command line give different results:\n%s\n%s", s.Conf, s.Text, want.cliRun, got.cliRun)
		}
		if d := snapDiff(want.snap, got.snap); d != "" {
			return viol("two spellings of a command line leave different files: %s:\n%s\n%s", d, want.cliRun, got.cliRun)
		}
	}
	// a wrong command line
	dashed := false
	place := func(d string, w wrongArg) []string {
		ws := c.words(d, ref)
		end := len(ws)
		for i, s := range ws {
			if s == "--" {
				end, dashed = i, true
				break
			}
		}
		head := ws[:end]
		at := 1 + w.At%len(head)
		return append(insertAt(head, at, w.Word), ws[end:]...)
	}
	wrong := func(d string) []string {
		switch w := c.Wrong; {
		case strings.HasPrefix(w.Word, "cmd:"):
			ws := c.words(d, spelling{})
			ws[0] = w.Word[4:]
			return ws
		case w.Word == "foreign":
			w.Word = map[string]string{"check": "-w", "lint": "--write-to-source", "format": "--auto-fix-id"}[c.C.Op]
			return place(d, w)
		case strings.HasPrefix(w.Word, "="):
			if !opt {
				return append([]string{c.C.Op, "--no-such-option"}, c.words(d, spelling{})[1:]...)
			}
			w.Word = optionNames[c.C.Op][0] + w.Word
			return place(d, w)
		default:
			return place(d, w)
		}
	}
	s := spelling{}
	if c.Wrong.Word == "conf" {
		s = spelling{Conf: "mustache.yaml", Home: c.Wrong.At%2 == 0, Text: []string{"a: [", "{", "a: b: c", "\tx"}[c.Wrong.At/2%4]}
		wrong = func(d string) []string { return c.words(d, ref) }
	}
	got, before, err := c.once(x, s, wrong)
	if err != nil {
		return err
	}
	x.Label("wrong: " + c.Wrong.Word)
	if got.code != 1 || got.err == "" || got.out != "" {
		return viol("a wrong command line or configuration file (%q %q) has to give exit status 1, a message on stderr and nothing on stdout: %s", s.Conf, s.Text, got.cliRun)
	}
	if d := snapDiff(before, got.snap); d != "" {
		return viol("a wrong command line or configuration file (%q %q) changes files: %s: %s", s.Conf, s.Text, d, got.cliRun)
	}
	// help and version
	got, before, err = c.once(x, spelling{}, func(d string) []string {
		switch c.Help.Word {
		case "none":
			return nil
		case "help":
			return []string{"help", c.C.Op}
		case "--version":
			return []string{"--version"}
		}
		return place(d, c.Help)
	})
	if err != nil {
		return err
	}
	x.Label("help: " + c.Help.Word)
	x.Label("paths that look like options", dashed)
	if got.code != 0 || got.err != "" || got.out == "" {
		return viol("a request for help has to give exit status 0, a text on stdout and nothing on stderr: %s", got.cliRun)
	}
	if d := snapDiff(before, got.snap); d != "" {
		return viol("a request for help changes files: %s: %s", d, got.cliRun)
	}
	return nil
}

func genArgs(t *rapid.T) argsCase {
	kinds := []string{"file", "file", "file", "file", "file", "file", "link", "dir", "missing"}
	c := argsCase{C: cliGen{maxFiles: 3, kinds: kinds, text: func(t *rapid.T) string {
		if intn(t, 5, "any") == 0 {
			return cliText(t)
		}
		return genLintText(t)
	}, repeat: true}.draw(t)}
	for i := range c.C.Files {
		if intn(t, 6, "optionName") == 0 {
			c.C.Files[i].Name = pick(t, "optName", "-w", "--auto-fix-id", "--help", "-h", "--write-to-source=false", "-", "--version", "check", "lint", "help")
			for j := range c.C.Files {
				if j != i && c.C.Files[j].Name == c.C.Files[i].Name {
					c.C.Files[i].Name += "2"
				}
			}
		}
	}
	for i := range c.C.Args {
		if c.C.Args[i].Style == "abs" { // names the directory, which differs
			c.C.Args[i].Style = ""
		}
	}
	c.C.Op = pick(t, "command", "check", "lint", "lint", "lint", "format", "format", "format")
	c.On = rapid.Bool().Draw(t, "on")
	for i := 0; i < 2; i++ {
		s := spelling{At: intn(t, 6, "at"), Dash: intn(t, 3, "dash") == 0}
		if c.On {
			s.Flag = onSpellings[intn(t, len(onSpellings), "flag")]
			s.Dup = intn(t, 4, "dup") == 0
		} else {
			s.Flag = offSpellings[intn(t, len(offSpellings), "flag")]
		}
		if intn(t, 4, "conf") == 0 {
			switch intn(t, 3, "confKind") {
			case 0:
				s.Conf, s.Text = "mustache.yaml", pick(t, "yaml", "", "# nothing\n", "{}", "x-key: 1\n")
			case 1:
				s.Conf, s.Text = "mustache.json", pick(t, "json", "{}", "{\"x-key\": [1]}")
			case 2:
				s.Conf, s.Text = "mustache.toml", pick(t, "toml", "", "x-key = 1\n")
			}
			s.Home = rapid.Bool().Draw(t, "home")
		}
		c.Ways = append(c.Ways, s)
	}
	c.Wrong = wrongArg{pick(t, "wrong", "cmd:chek", "cmd:x", "cmd:formats", "cmd:Lint", "--no-such-option", "-x", "--w", "-wx", "foreign", "=maybe", "=", "=2", "conf", "conf"), intn(t, 8, "wrongAt")}
	c.Help = wrongArg{pick(t, "help", "none", "help", "--version", "--help", "-h", "--help"), intn(t, 8, "helpAt")}
	return c
}

func init() {
	reg("C33", "argument lists of up to three paths (files, links, directories, missing paths, some named like options or commands) for check, lint and format; two other spellings of the same command line (place, form and repetition of the option, \"--\", a configuration file without known keys), one wrong command line or configuration file and one request for help; non-trivial: at least one path",
		genArgs, checkC33, cases(2000, 90000))
}
