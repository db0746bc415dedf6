package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Piece is a token or a gap of a document.
type Piece struct {
	T string `json:"t,omitempty"`
	G string `json:"g,omitempty"` // "k" kept gap, "K" kept gap starting with white space, "x" lossy gap, "s" gap before the first section, "" token
}

// doc is a document under construction.
type doc struct {
	t    *rapid.T
	ps   []Piece
	fuel int
	cond int
	lint int  // percentage of plugins that get an id from a small pool
	wide bool // one construct of this document may be repeated many times
	many bool // many plugins, most with different ids
	ids  int
	deep int // depth up to which nested constructs are favoured
}

// count returns a number of repetitions: small, or rarely large.
func (d *doc) count(l string) int {
	if d.wide && d.cond == 0 && intn(d.t, 6, "many") == 0 {
		n := rapid.IntRange(4, 40).Draw(d.t, l)
		d.fuel += 2 * n
		d.wide = intn(d.t, 3, "manyAgain") == 0
		return n
	}
	return small(d.t, l)
}

func (d *doc) tok(s string) { d.ps = append(d.ps, Piece{T: s}) }
func (d *doc) gap(g string) { d.ps = append(d.ps, Piece{G: g}) }

func draw[T any](t *rapid.T, g *rapid.Generator[T], l string) T { return g.Draw(t, l) }

func intn(t *rapid.T, n int, l string) int { return rapid.IntRange(0, n-1).Draw(t, l) }

// rarely is true in about one of fifty draws. (Draws are biased towards the
// ends of their range.)
func rarely(t *rapid.T, l string) bool { return intn(t, 30, l) == 20 }

// veryRarely is true in about one of 2500 draws.
func veryRarely(t *rapid.T, l string) bool { return rarely(t, l) && rarely(t, l) }

// small returns a small count, mostly 0..2.
func small(t *rapid.T, l string) int {
	k := intn(t, 8, l)
	switch {
	case k < 2:
		return 0
	case k < 5:
		return 1
	case k < 7:
		return 2
	}
	return 3
}

func pick(t *rapid.T, l string, xs ...string) string { return xs[intn(t, len(xs), l)] }

var nameWords = []string{"stdin", "a", "foo", "mutate", "grok", "id", "if", "else", "in", "not", "and", "or", "input", "filter", "output",
	"my-plugin", "x_1", "9lives", "0", "-", "_", "-x", "elsewhere", "iffy", "if1", "ifx", "android", "If", "add_field", "codec", "type", "a1b2", "nand", "xor"}

func genName(t *rapid.T) string {
	switch intn(t, 10, "nameKind") {
	case 0:
		return `"` + genStrBody(t, '"', 5) + `"`
	case 1:
		return `'` + genStrBody(t, '\'', 5) + `'`
	case 2:
		return rapid.StringMatching(`[A-Za-z0-9_-]{1,6}`).Draw(t, "name")
	}
	return nameWords[intn(t, len(nameWords), "nameWord")]
}

func genBareword(t *rapid.T) string {
	if intn(t, 4, "bw") == 0 {
		return rapid.StringMatching(`[A-Za-z_][A-Za-z0-9_]{1,5}`).Draw(t, "bareword")
	}
	return pick(t, "bwWord", "foo", "true", "if", "in", "not", "__", "a1", "plain", "json", "and", "_x", "input", "Id")
}

var bodyAtoms = []string{"a", "b c", "foo", " ", "0", "#", "# x", "'", `"`, `\"`, `\'`, `\n`, `\t`, `\\`, `\x`, `\/`, "/", "é", "日本", "😀", "\n", "\r\n", "\t",
	"{", "}", "[", "]", "(", ")", ",", "=>", "%{x}", "\n  ", " \n", "\n\n", "\\\\\"", "\\\\'", "\x00", "\ufffd", "\u00a0", "\u2028", "if", "\n#c\n", "\n  }\n", "\ufeff", "\x7f", "\v", "\r",
	"e\u0301", "\u200d", "👨\u200d👩", "\u202e", "ﬁ", "Ａ", "\U0010ffff", "\ue000", "\u0600", "\u0085", "\f", "\x1b", "\u200b", "ß", "İ", "\u2029", "\u3000"}

// wordBodies are insides that mean something else without the quotes.
var wordBodies = []string{"12", "007", "1.5", "-3", "0", "-0", "1.", ".5", "1e3", "0x10", "100000000000000000000", "1_000", "true", "false", "nil", "null", "id", "if", "else", "and", "in", "not", "not in",
	"[a]", "[a][b]", "a", "plain_word", "input", "{}", "[]", "[1, 2]", "a => 1", "/x/", "/", "\"x\"", "'x'", "#", "# c", "==", "=~", "1 2", " 12", "12 ", "NaN", "Inf", "12345", "3.0", "_a", "-", "=>", "%{[a]}", "1.50"}

// genStrBody makes the inside of a literal enclosed in q.
func genStrBody(t *rapid.T, q byte, max int) string {
	if intn(t, 12, "bodyWord") == 0 {
		return fixBody(wordBodies[intn(t, len(wordBodies), "bodyWordN")], q)
	}
	n := intn(t, max+1, "bodyLen")
	if max > 3 && rarely(t, "bodyLong") {
		n = rapid.IntRange(10, 90).Draw(t, "bodyMany")
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(bodyAtoms[intn(t, len(bodyAtoms), "bodyAtom")])
	}
	if max > 3 && veryRarely(t, "bodyHuge") {
		b.WriteString(strings.Repeat("x", rapid.IntRange(4000, 70000).Draw(t, "hugeN")))
	}
	return fixBody(b.String(), q)
}

// fixBody turns any text into a valid inside of a literal enclosed in q:
// each q is escaped and there is no trailing backslash.
func fixBody(s string, q byte) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && s[i+1] == q {
			b.WriteByte('\\')
			b.WriteByte(q)
			i++
			continue
		}
		if s[i] == q {
			b.WriteByte('\\')
		}
		b.WriteByte(s[i])
	}
	r := b.String()
	if strings.HasSuffix(r, `\`) {
		r += "."
	}
	return r
}

// validBody tells whether q+s+q is one literal.
func validBody(s string, q byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && s[i+1] == q {
			i++
			continue
		}
		if s[i] == q {
			return false
		}
	}
	return !strings.HasSuffix(s, `\`)
}

func genString(t *rapid.T) string {
	if intn(t, 2, "quote") == 0 {
		return `"` + genStrBody(t, '"', 4) + `"`
	}
	return `'` + genStrBody(t, '\'', 4) + `'`
}

func genNumber(t *rapid.T) string {
	switch intn(t, 8, "numKind") {
	case 0, 1, 2:
		return strconv.Itoa(rapid.IntRange(-20, 2000).Draw(t, "int"))
	case 3:
		return pick(t, "numEdge", "0", "-0", "1.", "-1.", "007", "00", "0.5", "3.14159", "-12.50", "1000000", "2147483647", "21474836470", "9007199254740993", "123456789.125", "1000000.5",
			"0.00001", "0.00000000001", "99999999999999999999", "1234567890123456789012345678901234567890", "0.1", "100000000000000000000000000000000.5", "-0.0", "2000000.0000000005", "2147483647.0000009537")
	case 4:
		return rapid.StringMatching(`-?[0-9]{1,20}`).Draw(t, "digits")
	case 5, 6:
		return rapid.StringMatching(`-?[0-9]{1,9}\.[0-9]{0,14}`).Draw(t, "decimal")
	}
	f := genFloat(t)
	return strconv.FormatFloat(f, 'f', -1, 64)
}

func genFloat(t *rapid.T) float64 {
	switch intn(t, 6, "floatKind") {
	case 0:
		return float64(rapid.IntRange(-1000000, 1000000).Draw(t, "fint"))
	case 1:
		return float64(rapid.Int64().Draw(t, "fint64"))
	case 2:
		m := rapid.IntRange(-999999, 999999).Draw(t, "mant")
		e := rapid.IntRange(-30, 30).Draw(t, "exp")
		return float64(m) * math.Pow(10, float64(e))
	case 3:
		return [...]float64{1e6, 1e-4, 1e-5, 1e21, 1e20, 123456789, 1e-10, 1e-11, 9.5e-11, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, 1<<53 + 2, 1 << 62, 1 << 63, -(1 << 63), 1.8446744073709552e19, 0.1, 1234567.1, 1e7 + 1e-3, 2.5e-7, math.Copysign(0, -1)}[intn(t, 22, "fedge")]
	case 4:
		b := rapid.Uint64().Draw(t, "fbits")
		f := math.Float64frombits(b)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return 1.5
		}
		return f
	}
	return rapid.Float64Range(-1e9, 1e9).Draw(t, "frange")
}

func genRegexp(t *rapid.T) string {
	n := intn(t, 5, "reLen")
	var b strings.Builder
	for i := 0; i < n; i++ {
		if intn(t, 2, "reKind") == 0 {
			b.WriteString(pick(t, "reAtom", "a+", "^foo$", `\d`, `\/`, "[a-z]", "it's", `"`, "#", " ", "(x|y)", `\\`, "{2}", ".*", `'`, "é", `\.`, "'a'", `"b"`, "\n"))
		} else {
			b.WriteString(bodyAtoms[intn(t, len(bodyAtoms), "bodyAtom")])
		}
	}
	return "/" + fixBody(b.String(), '/') + "/"
}

func genSelElem(t *rapid.T) string {
	s := pick(t, "selWord", "foo", "bar", "a", "@timestamp", "@metadata", "field name", "x.y", "0", " ", `"q"`, "it's", "#", "a-b", "é", "%{x}", "a\nb", "/", `fo"o`, "(", "{", "}", "=>", "a # b", "\t", "\n", `\`, "!")
	if intn(t, 4, "selMore") == 0 {
		s += pick(t, "selWord2", "1", "'", `"`, "_", "\r\n", "#c\n", "😀", `\"`)
	}
	return s
}

func genSelector(t *rapid.T) string {
	n := 1 + small(t, "selN")
	if rarely(t, "selWide") {
		n = rapid.IntRange(4, 30).Draw(t, "selMany")
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("[" + genSelElem(t) + "]")
	}
	return b.String()
}

func genCommentText(t *rapid.T) string {
	n := intn(t, 4, "cmtLen")
	if rarely(t, "cmtLong") {
		n = rapid.IntRange(10, 90).Draw(t, "cmtMany")
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(t, "cmtAtom", " ", "x", "comment", " hello world", "#", `"`, "'", "/", "{", "}", "[", "]", ",", "=>", "\t", "é日本", `\`, "if", "\\\"", "input {}", "  ", "it's", "()", "\u00a0", "\ufffd", "\v", "!", "\u3000", "e\u0301", "\u200b", "\ufeff", "\f", "\u0085", "\u2028", "\x00", "\U0010ffff", "👨\u200d👩"))
	}
	if rarely(t, "cmtMark") {
		// something that could be taken for a mark, once or several times
		m := pick(t, "mark", "# ", "#", "#!", "#! ", "//", "// ", "-- ", "- ", "%", "%% ", "!", "* ", "@", "...", "\\# ", "TODO: ", "\ufeff", "rem ", "; ", "> ", "\t", "/* ", "{{ ", "$", "~")
		return strings.Repeat(m, 1+intn(t, 3, "marks")) + b.String()
	}
	if veryRarely(t, "cmtHuge") {
		b.WriteString(strings.Repeat("x", rapid.IntRange(4000, 70000).Draw(t, "hugeN")))
	}
	return b.String()
}

// ---- document structure ----

func genDoc(t *rapid.T, maxFuel int) []Piece {
	d := newDoc(t, 0, maxFuel)
	d.document()
	return d.ps
}

func newDoc(t *rapid.T, minFuel, maxFuel int) *doc {
	d := &doc{t: t, fuel: rapid.IntRange(minFuel, maxFuel).Draw(t, "fuel")}
	switch intn(t, 30, "size") {
	case 29:
		d.wide = true
	case 20, 21:
		d.deep = rapid.IntRange(5, 14).Draw(t, "deep")
		d.fuel += 2 * d.deep
	}
	return d
}

func (d *doc) document() {
	t := d.t
	d.gap("s")
	n := 1 + d.count("sections")
	for i := 0; i < n; i++ {
		if i > 0 {
			d.gap("s")
		}
		d.tok(pick(t, "sectionType", "input", "filter", "output"))
		d.gap("x")
		d.tok("{")
		d.block(0)
		d.gap("k")
		d.tok("}")
	}
	d.gap("k")
}

func (d *doc) block(depth int) {
	n := d.count("stmts")
	if d.lint > 0 {
		n = 1 + intn(d.t, 4, "lintStmts")
		if depth == 0 {
			n++
		}
		if d.wide {
			k := []int{5, 20, 40, 70, 140}[intn(d.t, 5, "lintMany")] + intn(d.t, 20, "lintMore")
			d.fuel += 5 * k
			n += k
			d.wide, d.many = false, true
		}
	}
	if depth < d.deep && n == 0 {
		n = 1
	}
	if depth == 0 && n == 0 {
		n = intn(d.t, 2, "stmts0")
	}
	for i := 0; i < n && d.fuel > 0; i++ {
		d.fuel--
		d.gap("k")
		if (depth < 5 && intn(d.t, 3, "isBranch") == 0) || (depth < d.deep && intn(d.t, 4, "deeper") > 0) {
			d.branch(depth)
		} else {
			d.plugin(depth)
		}
	}
}

func (d *doc) branch(depth int) {
	d.tok("if")
	d.condHead()
	d.block(depth + 1)
	d.gap("k")
	d.tok("}")
	for i := d.count("elseIfs"); i > 1; i-- {
		d.gap("k")
		d.tok("else")
		d.gap("x")
		d.tok("if")
		d.condHead()
		d.block(depth + 1)
		d.gap("k")
		d.tok("}")
	}
	if intn(d.t, 2, "hasElse") == 0 {
		d.gap("k")
		d.tok("else")
		d.gap("x")
		d.tok("{")
		d.block(depth + 1)
		d.gap("k")
		d.tok("}")
	}
}

func (d *doc) condHead() {
	d.gap("c")
	d.condition(0)
	d.gap("c")
	d.tok("{")
}

func (d *doc) condition(depth int) {
	n := 1 + small(d.t, "exprs")
	if depth == 0 {
		n = 1 + d.count("exprs")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			d.gap("c")
			d.tok(pick(d.t, "boolOp", "and", "or", "xor", "nand"))
			d.gap("c")
		}
		d.expression(depth)
		if d.fuel <= 0 {
			return
		}
		d.fuel--
	}
}

func (d *doc) expression(depth int) {
	t := d.t
	k := intn(t, 9, "exprKind")
	if depth > 3 && k < 2 {
		k = 8
	}
	switch k {
	case 0:
		d.tok("(")
		d.gap("c")
		d.condition(depth + 1)
		d.gap("c")
		d.tok(")")
	case 1:
		d.tok("!")
		d.gap("c")
		d.tok("(")
		d.gap("c")
		d.condition(depth + 1)
		d.gap("c")
		d.tok(")")
	case 2:
		d.tok("!")
		d.gap("c")
		d.tok(genSelector(t))
	case 3:
		d.rvalue()
		d.gap("c")
		d.tok("in")
		d.gap("c")
		d.rvalue()
	case 4:
		d.rvalue()
		d.gap("c")
		d.tok("not ")
		d.gap("c")
		d.tok("in")
		d.gap("c")
		d.rvalue()
	case 5, 6:
		d.rvalue()
		d.gap("c")
		d.tok(pick(t, "cmpOp", "==", "!=", "<=", ">=", "<", ">"))
		d.gap("c")
		d.rvalue()
	case 7:
		d.rvalue()
		d.gap("c")
		d.tok(pick(t, "reOp", "=~", "!~"))
		d.gap("c")
		if intn(t, 3, "reStr") == 0 {
			d.tok(genString(t))
		} else {
			d.tok(genRegexp(t))
		}
	case 8:
		d.rvalue()
	}
}

func (d *doc) rvalue() {
	t := d.t
	switch intn(t, 8, "rvKind") {
	case 0, 1:
		d.tok(genString(t))
	case 2:
		d.tok(genNumber(t))
	case 3:
		d.condArray()
	case 4:
		d.tok(genRegexp(t))
	default:
		d.tok(genSelector(t))
	}
}

func (d *doc) condArray() {
	d.cond++
	d.array(3)
	d.cond--
}

func (d *doc) plugin(depth int) {
	name := ""
	if d.lint > 0 {
		name = pick(d.t, "lintName", "a", "b", "\"a\"", "stdin", "")
	}
	if name == "" {
		name = genName(d.t)
	}
	d.tok(name)
	d.gap("x")
	d.tok("{")
	n := d.count("attrs")
	if d.lint > 0 && intn(d.t, 12, "lintAttrs") == 0 {
		n = rapid.IntRange(3, 12).Draw(d.t, "attrs")
		d.fuel += n
	}
	idAt := -1
	if d.lint > 0 && intn(d.t, 10, "withID") < d.lint/10 {
		n++
		d.fuel++
		idAt = intn(d.t, n, "idAt")
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			d.gap("K")
			if d.fuel <= 0 {
				break
			}
		} else {
			d.gap("k")
		}
		d.fuel--
		if i == idAt {
			d.tok(pick(d.t, "idKey", "id", "id", "id", "\"id\"", "'id'"))
			d.gap("x")
			d.tok("=>")
			d.gap("x")
			if d.many && intn(d.t, 5, "idFresh") > 0 {
				k := d.ids
				if intn(d.t, 8, "idOld") == 5 {
					k = intn(d.t, d.ids+1, "idEarlier")
				} else {
					d.ids++
				}
				d.tok(fmt.Sprintf("\"n-%d\"", k))
			} else if intn(d.t, 6, "idValue") == 0 {
				d.value(depth, true)
			} else {
				d.tok(pick(d.t, "idPool", "\"a-1\"", "'a-1'", "\"a-2\"", "\"x\"", "'x'", "xx", "\"xx\"", "\"b-2-1\"", "\"a-2-1\"", "\"\"", "stdin", "\"stdin-1\"", "'a-3'", "1", "[\"x\"]", "\"A-1\"", "\"X\"", "\"x \"", "\" x\"", "XX", "'x\ny'", "\"x\\\"y\"", "'x\\\"y'"))
			}
			continue
		}
		d.attribute(depth)
	}
	d.gap("k")
	d.tok("}")
}

func (d *doc) attribute(depth int) {
	if intn(d.t, 4, "idAttr") == 0 {
		d.tok("id")
	} else {
		d.tok(genName(d.t))
	}
	d.gap("x")
	d.tok("=>")
	d.gap("x")
	d.value(depth, true)
}

func (d *doc) value(depth int, plugins bool) {
	t := d.t
	k := intn(t, 10, "valKind")
	if depth < d.deep && k < 5 {
		k = 6 + k%4
	}
	if ((depth > 5 && depth >= d.deep) || d.fuel <= 0) && k >= 6 {
		k -= 6
	}
	switch k {
	case 0, 1, 2:
		d.tok(genString(t))
	case 3:
		d.tok(genBareword(t))
	case 4, 5:
		d.tok(genNumber(t))
	case 6, 7:
		d.array(depth + 1)
	case 8:
		d.hash(depth + 1)
	case 9:
		if plugins {
			d.plugin(depth + 1)
		} else {
			d.tok(genString(t))
		}
	}
}

func (d *doc) lossy() string {
	if d.cond > 0 {
		return "c"
	}
	return "x"
}

func (d *doc) array(depth int) {
	d.tok("[")
	n := d.count("elems")
	for i := 0; i < n; i++ {
		if i > 0 {
			d.gap(d.lossy())
			d.tok(",")
			if d.fuel <= 0 {
				d.gap("k")
				d.tok("1")
				break
			}
		}
		d.fuel--
		d.gap("k")
		d.value(depth, false)
	}
	d.gap("k")
	d.tok("]")
}

func (d *doc) hash(depth int) {
	d.tok("{")
	n := d.count("entries")
	for i := 0; i < n; i++ {
		if i > 0 {
			d.gap("K")
			if d.fuel <= 0 {
				break
			}
		} else {
			d.gap("k")
		}
		d.fuel--
		switch intn(d.t, 4, "keyKind") {
		case 0:
			d.tok(genNumber(d.t))
		case 1:
			d.tok(genBareword(d.t))
		default:
			d.tok(genString(d.t))
		}
		d.gap(d.lossy())
		d.tok("=>")
		d.gap(d.lossy())
		d.value(depth, false)
	}
	d.gap("k")
	d.tok("}")
}

// ---- rendering ----

type triviaStyle struct {
	kept  int // percent of kept gaps with comments
	lossy int // percent of lossy gaps with comments
	crlf  bool
}

func genStyle(t *rapid.T) triviaStyle {
	s := triviaStyle{
		kept:  []int{0, 30, 70}[intn(t, 3, "keptComments")],
		lossy: []int{0, 0, 10, 40}[intn(t, 4, "lostComments")],
	}
	return s
}

func genWS(t *rapid.T, must bool) string {
	k := intn(t, 10, "ws")
	if must && k < 2 {
		k = 2
	}
	switch k {
	case 0, 1:
		return ""
	case 2, 3, 4:
		return " "
	case 5:
		return "\n"
	case 6:
		return "\n  "
	case 7:
		return "\r\n"
	case 8:
		return pick(t, "wsOdd", "\t", "  ", "\n\n", " \n", "\n \n", "\r", " \t ", "\n\t", "\n\n\n  ", "\r\n\r\n", "  \n\n")
	}
	return "\n"
}

// renderGap makes white space and comments for one gap.
func renderGap(t *rapid.T, g string, st triviaStyle, condSafe bool) string {
	ws := genWS(t, g == "K")
	pct := st.kept
	if g == "x" || g == "c" {
		pct = st.lossy
	}
	if pct == 0 || intn(t, 100, "cmt?") >= pct {
		return ws
	}
	var b strings.Builder
	b.WriteString(ws)
	n := 1 + small(t, "cmts")
	if rarely(t, "cmtWide") {
		n = rapid.IntRange(4, 25).Draw(t, "cmtMany")
	}
	for i := 0; i < n; i++ {
		c := genCommentText(t)
		if g == "c" {
			// a comment lost inside a condition must not decide between
			// selector and array
			c = strings.Map(func(r rune) rune {
				if r == '[' || r == ']' || r == ',' {
					return '.'
				}
				return r
			}, c)
		}
		b.WriteString("#" + c + pick(t, "eol", "\n", "\n", "\n", "\r\n"))
		if i < n-1 || intn(t, 2, "wsTail") == 0 {
			b.WriteString(genWS(t, false))
		}
	}
	return b.String()
}

func render(t *rapid.T, ps []Piece, st triviaStyle) string {
	var b strings.Builder
	tall := -2
	if len(ps) > 0 && veryRarely(t, "tall") {
		tall = intn(t, len(ps), "tallAt")
	}
	for i, p := range ps {
		if p.G == "" {
			b.WriteString(p.T)
			continue
		}
		s := renderGap(t, p.G, st, true)
		if i == tall || i == tall+1 {
			s = strings.Repeat(pick(t, "tallWS", "\n", "\n", " ", "\t", "\r\n"), rapid.IntRange(250, 70000).Draw(t, "tallN")) + s
		}
		if i == len(ps)-1 && strings.Contains(s, "#") && intn(t, 3, "eofComment") == 0 {
			s = strings.TrimRight(s, "\r\n \t") + pick(t, "eofCR", "", "", "\r", " ", "\r\r")
		}
		b.WriteString(s)
	}
	return b.String()
}

// genText makes a valid configuration text.
func genText(t *rapid.T, fuel int) string {
	ps := genDoc(t, fuel)
	return render(t, ps, genStyle(t))
}

var mutTokens = []string{"{", "}", "[", "]", "(", ")", "=>", ",", "if", "else", "else if", "in", "not in", "not  in", "and", "or", "xor", "nand", "==", "!=", "=~", "!~", "<", ">=", "!", "/", "/x/", `"`, `'`, `"s"`, `'s'`, "#", "# c\n", "\n", " ", "\\", "1", "-", ".", "1.5", "foo", "a", "input", "filter", "output", "input {", "[a]", "[a][b]", "[", "\r", "#x\ry\n", "foo {", "foo { }", "plugin { a => 1 }", "=", "é", "\x00", "\xff", "\xc3", "1e5", "+1", ".5", "[a,b]", "[ foo {} ]", "{ a => b {} }", "\ufeff", ";", "//", "%"}

// oddSpace are characters that other languages take for white space.,
// and comments with odd ends
var oddSpace = []string{"\v", "\f", "\u00a0", "\u0085", "\u2028", "\u2029", "\u200b", "\ufeff", "\u3000", "\x00", "\x1c", "//x\n", "/*x*/", ";", "--x\n", "#x\r\r\n", "#\r\r\n", "#x\r", "#x\ry\n", "# \r#\n", "#x", "#x\n\r\r\n"}

// tweak changes one token or gap a little.
func tweak(t *rapid.T, ps []Piece, k int) Piece {
	p := ps[k]
	if p.G != "" {
		if k == 0 || intn(t, 2, "oddGap") == 0 {
			return Piece{T: pick(t, "lead", "", " ") + oddSpace[intn(t, len(oddSpace), "oddSpace")] + pick(t, "trail", "", " ", "\n")}
		}
		return Piece{T: ""}
	}
	s := p.T
	if s == "" {
		return p
	}
	i := intn(t, len(s), "tweakAt")
	switch intn(t, 8, "tweakKind") {
	case 0:
		return Piece{T: strings.ToUpper(s)}
	case 1:
		return Piece{T: strings.ToUpper(s[:1]) + s[1:]}
	case 2:
		return Piece{T: s[:i] + s[i+1:]}
	case 3:
		return Piece{T: s[:i+1] + s[i:]}
	case 4:
		return Piece{T: strings.TrimSpace(s)}
	case 5:
		return Piece{T: s[:i] + string(rune(s[i]^(1<<uint(intn(t, 6, "bit")))&0x7f)) + s[i+1:]}
	case 6:
		return Piece{T: s[:i] + pick(t, "tweakIn", " ", "\n", "\t", "_", "\\", "#", "\u00a0", "-", ".", "é") + s[i:]}
	}
	return Piece{T: pick(t, "tweakWord", "AND", "Or", "XOR", "NAND", "nor", "&&", "||", "elsif", "elif", "ELSE", "IF", "unless", "NOT IN", "notin", "not\tin", "not_in", "IN", "===", "<>", "=<", "=>", ":", "->", "~=", "=!", "True", "nil", "0x1F", "1_000", "1,5", "-", "--1", "- 1", "+1", "1.2.3", "1e3", ".5", "5.", "''", "``", "`x`", "\"\"\"", "codec", "inputs", "Input", "filters", "INPUT", "output_", "}}", "{{", "[]", "[[a]]", "[a]b", "a[b]", "[a][]", "//", "/a/i", "/a", "%{x}", "$x", "${X}", "@x", "!!", "! !")}
}

// mutate applies token- and byte-level edits.
func mutate(t *rapid.T, ps []Piece, st triviaStyle) string {
	n := rapid.IntRange(1, 3).Draw(t, "mutations")
	cp := append([]Piece(nil), ps...)
	level := intn(t, 3, "mutLevel")
	if level < 2 {
		for i := 0; i < n && len(cp) > 0; i++ {
			k := rapid.IntRange(0, len(cp)-1).Draw(t, "mutAt")
			switch intn(t, 9, "mutKind") {
			case 6, 7, 8:
				cp[k] = tweak(t, cp, k)
			case 0, 1:
				cp = append(cp[:k:k], cp[k+1:]...)
			case 2:
				cp = append(cp[:k:k], append([]Piece{cp[k]}, cp[k:]...)...)
			case 3:
				j := rapid.IntRange(0, len(cp)-1).Draw(t, "mutAt2")
				cp[k], cp[j] = cp[j], cp[k]
			case 4:
				cp = append(cp[:k:k], append([]Piece{{T: mutTokens[intn(t, len(mutTokens), "mutTok")]}}, cp[k:]...)...)
			case 5:
				cp[k] = Piece{T: mutTokens[intn(t, len(mutTokens), "mutTok")]}
			}
		}
		if level == 0 {
			return render(t, cp, st)
		}
	}
	s := render(t, cp, st)
	for i := 0; i < n; i++ {
		k := rapid.IntRange(0, len(s)).Draw(t, "mutByteAt")
		switch intn(t, 5, "mutByteKind") {
		case 0:
			if k < len(s) {
				s = s[:k] + s[k+1:]
			}
		case 1:
			s = s[:k] + mutTokens[intn(t, len(mutTokens), "mutTok")] + s[k:]
		case 2:
			if k < len(s) {
				s = s[:k] + string(rune(rapid.IntRange(0, 127).Draw(t, "ch"))) + s[k+1:]
			}
		case 3:
			s = s[:k]
		case 4:
			j := rapid.IntRange(0, len(s)).Draw(t, "mutByteAt2")
			if j > k {
				s = s[:k] + s[j:]
			}
		}
	}
	return s
}

// genAnyText makes a valid or mutated text.
func genAnyText(t *rapid.T, fuel int) string {
	switch intn(t, 10, "textKind") {
	case 0:
		// token soup
		n := intn(t, 14, "soup")
		var b strings.Builder
		if intn(t, 2, "soupStart") == 0 {
			b.WriteString(pick(t, "soupHead", "input {", "filter { if ", "output { p { a => ", "input { p { a => [", "filter { if [a] "))
		}
		for i := 0; i < n; i++ {
			b.WriteString(mutTokens[intn(t, len(mutTokens), "soupTok")])
			if intn(t, 2, "soupWS") == 0 {
				b.WriteString(" ")
			}
		}
		return b.String()
	case 1, 2, 3, 4:
		return render(t, genDoc(t, fuel), genStyle(t))
	}
	return mutate(t, genDoc(t, fuel), genStyle(t))
}

func q(s string) string { return fmt.Sprintf("%q", s) }
