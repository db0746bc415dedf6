From d14894cc75996c04c72b6be482c430c42ce159ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 01/17] fix: report a missing file in check and lint instead of
 panicking

---
 internal/app/check/check.go | 1 +
 internal/app/lint/lint.go   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 507c040..8225fbd 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -24,6 +24,7 @@ func (f Check) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 37f83f8..744fa5c 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -31,6 +31,7 @@ func (l Lint) Run(args []string) error {
 		stat, err := os.Stat(filename)
 		if err != nil {
 			result = multierror.Append(result, errors.Errorf("%s: %v", filename, err))
+			continue
 		}
 		if stat.IsDir() {
 			continue
-- 
2.43.0


From d6e0dfd50e37fe6956c475748ce2ac44e36d75ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 02/17] fix: print each plugin section with its own comment

---
 ast/ast.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 30ac8cb..e53dcf8 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -146,9 +146,7 @@ func pluginSectionString(pluginType string, ps []PluginSection) string {
 
 	var s bytes.Buffer
 	for i, p := range ps {
-		if len(ps) > 0 {
-			s.WriteString(ps[0].CommentBlock.String())
-		}
+		s.WriteString(p.CommentBlock.String())
 		s.WriteString(fmt.Sprint(pluginType + " {"))
 		s.WriteString(prefix(p.String(), false))
 		s.WriteString(prefix(p.FooterComment.String(), false))
-- 
2.43.0


From 601cdb0718234a3e7800d381da567940a756adb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 03/17] fix: reject a plugin as first array element instead of
 dropping it

---
 logstash_config_helper.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index c60e9f1..8ba5b14 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -201,7 +201,10 @@ func (c *current) plugin(name1, attributes1, comment1, footerComment1 interface{
 }
 
 func (c *current) attributes(attribute1, attributes1, comment1 interface{}) ([]ast.Attribute, error) {
-	attribute, _ := c.attributeComment(attribute1, comment1, false)
+	attribute, err := c.attributeComment(attribute1, comment1, false)
+	if err != nil {
+		return nil, err
+	}
 	iattributes := toIfaceSlice(attribute)
 	iattributes = append(iattributes, toIfaceSlice(attributes1)...)
 
-- 
2.43.0


From bd4d48129d852e33ca8cef340955a3ff7c3054c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:28 +0000
Subject: [PATCH 04/17] fix: print numbers that need more than ten decimals
 without loss

---
 ast/ast.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index e53dcf8..89d78c7 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -481,7 +482,10 @@ func (na NumberAttribute) ValueString() string {
 		if float64(int64(na.Value())+0) == na.Value() {
 			return fmt.Sprintf("%d", int64(na.Value()))
 		}
-		return strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		value = strings.TrimRight(fmt.Sprintf("%.10f", na.Value()), "0")
+		if f, err := strconv.ParseFloat(value, 64); err != nil || f != na.Value() {
+			value = strconv.FormatFloat(na.Value(), 'f', -1, 64)
+		}
 	}
 	return value
 }
-- 
2.43.0


From 17284dc51613349cb08420e060cdb8a0751ba3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 05/17] fix: keep blank lines around comments stable when
 formatting again

---
 logstash_config_helper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 8ba5b14..985b7ef 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -74,7 +74,7 @@ func (c *current) configSection(ps1, psComment1 interface{}) (ast.PluginSection,
 		return ast.PluginSection{}, fmt.Errorf("Value is not a PluginSection: %#v", ps1)
 	}
 
-	psComments := c.commentBlock(psComment1, false, false)
+	psComments := c.commentBlock(psComment1, false, true)
 
 	ps.CommentBlock = psComments
 
@@ -147,10 +147,10 @@ func (c *current) comment() ([]ast.Comment, error) {
 
 	var commentLines []ast.Comment
 	var space bool
-	for i, line := range lines {
+	for _, line := range lines {
 		idx := strings.Index(line, "#")
 		if idx == -1 {
-			if i > 0 {
+			if len(commentLines) > 0 {
 				space = true
 			}
 			continue
-- 
2.43.0


From c3610382fcc1be8709608dac1606a3cea0dc22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 06/17] fix: record the position of nested numbers, arrays and
 hashes

---
 logstash_config_helper.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 985b7ef..37e19bc 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -310,7 +310,9 @@ func (c *current) number() (ast.NumberAttribute, error) {
 		// TODO: is this possible to happen? are all values, which are valid floats in Logstash/Ruby also valid floats in Go?
 		return ast.NumberAttribute{}, err
 	}
-	return ast.NewNumberAttribute("", f), nil
+	n := ast.NewNumberAttribute("", f)
+	n.Start = c.astPos()
+	return n, nil
 }
 
 func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttribute, error) {
@@ -320,7 +322,7 @@ func (c *current) array(attributes1, footerComment1 interface{}) (ast.ArrayAttri
 	}
 
 	a := ast.NewArrayAttribute("", attributes...)
-
+	a.Start = c.astPos()
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
 	return a, nil
@@ -333,7 +335,7 @@ func (c *current) hash(attributes1, footerComment1 interface{}) (ast.HashAttribu
 	}
 
 	a := ast.NewHashAttribute("", hashentries...)
-
+	a.Start = c.astPos()
 	a.FooterComment = c.commentBlock(footerComment1, false, false)
 
 	return a, nil
-- 
2.43.0


From 712d1c30013601169aa180eee6ca7ecc7d456b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:55 +0000
Subject: [PATCH 07/17] fix: keep strings, regular expressions and selectors
 intact when indenting

---
 ast/ast_helper.go | 122 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 110 insertions(+), 12 deletions(-)

diff --git a/ast/ast_helper.go b/ast/ast_helper.go
index 20f165f..485dde7 100644
--- a/ast/ast_helper.go
+++ b/ast/ast_helper.go
@@ -2,18 +2,11 @@ package ast
 
 import (
 	"bytes"
-	"fmt"
-	"regexp"
 	"strings"
 )
 
-// This regular expression splits the config into indentable chunks that are:
-// * empty line
-// * line of comment
-// * line without any quotes
-// * line(s) with quoted strings, which are kept together to form a single "line of configuration"
-var linesRe = regexp.MustCompile(`(\n|\s*#[^\n]*\n|[^'"\n]*\n|([^"'\n]*("(\\"|[^"])*"|'(\\'|[^'])*')[^"'\n]*)*\n)`)
-
+// prefix indents every line of in. Strings, regular expressions and selectors
+// are kept verbatim, even if they contain newlines.
 func prefix(in string, emptyNewline bool) string {
 	if len(in) == 0 {
 		if emptyNewline {
@@ -24,13 +17,118 @@ func prefix(in string, emptyNewline bool) string {
 
 	var s bytes.Buffer
 	s.WriteString("\n")
-	lines := linesRe.FindAllString(strings.TrimRight(in, "\n")+"\n", -1)
-	for _, l := range lines {
+	ls := lineScanner{in: strings.TrimRight(in, "\n") + "\n"}
+	for ls.in != "" {
+		l := ls.next()
 		if len(strings.TrimLeft(l, " \n")) == 0 {
 			s.WriteString("\n")
 			continue
 		}
-		s.WriteString(fmt.Sprint("  " + l))
+		s.WriteString("  ")
+		s.WriteString(l)
 	}
 	return s.String()
 }
+
+// A lineScanner splits printed configuration into indentable lines. Literals
+// which span multiple lines are kept together to form a single "line of
+// configuration".
+type lineScanner struct {
+	in string
+
+	// condition is true inside of the condition of an if- or else-if-block,
+	// the only place where selectors and regular expressions occur.
+	condition bool
+
+	// depth is the number of open arrays and hashes inside of the condition.
+	depth int
+}
+
+// next returns the next line including the terminating newline.
+func (ls *lineScanner) next() string {
+	end := ls.lineEnd()
+	l := ls.in[:end]
+	ls.in = ls.in[end:]
+	return l
+}
+
+func (ls *lineScanner) lineEnd() int {
+	rest := strings.TrimLeft(ls.in, " ")
+	if strings.HasPrefix(rest, "#") {
+		return strings.IndexByte(ls.in, '\n') + 1
+	}
+	if !ls.condition && startsCondition(rest) {
+		ls.condition = true
+		ls.depth = 0
+	}
+
+	for i := 0; i < len(ls.in); i++ {
+		switch c := ls.in[i]; c {
+		case '\n':
+			return i + 1
+		case '"', '\'':
+			i += enclosedLen(ls.in[i:], c)
+		case '/':
+			if ls.condition {
+				i += enclosedLen(ls.in[i:], c)
+			}
+		case '[', '{':
+			if !ls.condition {
+				continue
+			}
+			if ls.depth == 0 {
+				if c == '{' {
+					ls.condition = false
+					continue
+				}
+				if n := selectorElementLen(ls.in[i:]); n > 0 {
+					i += n
+					continue
+				}
+			}
+			ls.depth++
+		case ']', '}':
+			if ls.condition && ls.depth > 0 {
+				ls.depth--
+			}
+		}
+	}
+	return len(ls.in)
+}
+
+// startsCondition returns true, if the line starts with an if or an else if
+// followed by a condition. Plugins, attributes and strings may be named "if" as
+// well, but these are followed by an opening curly bracket, an arrow or nothing.
+func startsCondition(line string) bool {
+	line = strings.TrimPrefix(line, "} ")
+	line = strings.TrimPrefix(line, "else ")
+	if !strings.HasPrefix(line, "if ") {
+		return false
+	}
+	return !strings.HasPrefix(line, "if {") && !strings.HasPrefix(line, "if =>")
+}
+
+// enclosedLen returns the number of bytes up to, but not including, the
+// delimiter closing the literal at the beginning of in, or 0 if there is none.
+func enclosedLen(in string, delimiter byte) int {
+	for i := 1; i < len(in); i++ {
+		switch {
+		case in[i] == '\\' && i+1 < len(in) && in[i+1] == delimiter:
+			i++
+		case in[i] == delimiter:
+			return i
+		}
+	}
+	return 0
+}
+
+// selectorElementLen returns the number of bytes up to, but not including, the
+// closing square bracket of the selector element at the beginning of in, or 0 if
+// there is none.
+func selectorElementLen(in string) int {
+	i := strings.IndexAny(in[1:], "[],") + 1
+	if i > 1 && in[i] == ']' {
+		return i
+	}
+	return 0
+}
-- 
2.43.0


From 6bc8b44dae8cc220f9d810222983fbb7601c6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 08/17] fix: detect unescaped quotes at the beginning of a
 value when quoting

---
 ast/astutil/quote.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index 206482d..d0bd1c8 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"regexp"
+	"strings"
 
 	"github.com/breml/logstash-config/ast"
 )
@@ -19,7 +20,7 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		var hasQuote bool
 		quote := quoteType.String()[0]
 		for i := 0; i < len(value); i++ {
-			if value[i] == quote && i > 1 && value[i-1] != '\\' {
+			if value[i] == quote && (i == 0 || value[i-1] != '\\') {
 				hasQuote = true
 				break
 			}
@@ -28,6 +29,9 @@ func Quote(value string, quoteType ast.StringAttributeType) (string, error) {
 		if hasQuote {
 			return "", errors.New("value %q contains unescaped quotes and can not be quoted without escaping")
 		}
+		if strings.HasSuffix(value, `\`) {
+			return "", errors.New("value ends with a backslash and can not be quoted, because the closing quote would be escaped")
+		}
 		return quoteType.String() + value + quoteType.String(), nil
 
 	case ast.Bareword:
@@ -67,7 +71,7 @@ func escapeQuotes(value string, quote byte) string {
 	b := []byte(value)
 
 	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || i > 1 && b[i-1] != '\\') {
+		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
 			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
 		}
 	}
-- 
2.43.0


From f8dfa3a747c5f149e72c2fb2234564a6784a4ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:34 +0000
Subject: [PATCH 09/17] fix: keep the cursor on the current plugin after
 InsertBefore

---
 ast/astutil/apply.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/astutil/apply.go b/ast/astutil/apply.go
index 24c9e57..479ed9a 100644
--- a/ast/astutil/apply.go
+++ b/ast/astutil/apply.go
@@ -123,7 +123,7 @@ func (c *Cursor) InsertBefore(p ast.BranchOrPlugin) {
 		panic("InsertBefore plugin not contained in slice")
 	}
 	c.parent = append(c.parent[:i], append([]ast.BranchOrPlugin{p}, c.parent[i:]...)...)
-	c.iter.step++
+	c.iter.index++
 }
 
 // InsertAfter inserts p after the current Plugin in its containing slice.
-- 
2.43.0


From d674c6c8425f5f1d3cf16dbfb7a5f8349c5d66c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 10/17] fix: collect the farthest failure per parser run, so
 that parsers can run concurrently

---
 logstash_config_helper.go |  2 +-
 parse_error_helper.go     | 58 ++++++++++++++++++++++++++++++++-------
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index 37e19bc..df0e8de 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -28,7 +28,7 @@ func (c *current) initState() error {
 }
 
 func (c *current) initParser() (bool, error) {
-	farthestFailure = []errPos{}
+	c.initFailures()
 	return true, nil
 }
 
diff --git a/parse_error_helper.go b/parse_error_helper.go
index ac32c01..3c0c9d2 100644
--- a/parse_error_helper.go
+++ b/parse_error_helper.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"strings"
+	"sync"
 )
 
 type errPos struct {
@@ -12,15 +13,46 @@ type errPos struct {
 	pos int
 }
 
-var farthestFailure []errPos
+const farthestFailures = "__farthestFailures"
+
+// failures are the farthest failures of a single parser run.
+type failures struct {
+	mu  sync.Mutex
+	pos []errPos
+}
+
+// farthestFailure refers to the failures of the most recently started parser run.
+var farthestFailure struct {
+	mu     sync.Mutex
+	latest *failures
+}
+
+// initFailures starts a new collection of failures.
+func (c *current) initFailures() {
+	f := &failures{}
+	c.globalStore[farthestFailures] = f
+
+	farthestFailure.mu.Lock()
+	defer farthestFailure.mu.Unlock()
+	farthestFailure.latest = f
+}
 
 // GetFarthestFailure returns the farthest position where the parser had a parse error.
 // The farthest position is normally close to the real source for the error.
 func GetFarthestFailure() (string, bool) {
-	if len(farthestFailure) > 0 {
+	farthestFailure.mu.Lock()
+	f := farthestFailure.latest
+	farthestFailure.mu.Unlock()
+	if f == nil {
+		return "", false
+	}
+
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if len(f.pos) > 0 {
 		var bb bytes.Buffer
-		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", farthestFailure[0].c.pos, farthestFailure[0].pos, showNewline(string(farthestFailure[0].c.text))))
-		for _, e := range farthestFailure {
+		bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", f.pos[0].c.pos, f.pos[0].pos, showNewline(string(f.pos[0].c.text))))
+		for _, e := range f.pos {
 			bb.WriteString(fmt.Sprintf("-> %s\n", e.msg))
 		}
 		return bb.String(), true
@@ -44,16 +76,19 @@ func pos(c *current) int {
 // The assumption is, that the longest successful parse tree is the most acurate.
 func (c *current) pushError(errorMsg string) (bool, error) {
 	pos := pos(c)
-	if len(farthestFailure) == 0 || pos > farthestFailure[0].pos {
-		farthestFailure = []errPos{{msg: errorMsg, c: *c, pos: pos}}
+	f := c.globalStore[farthestFailures].(*failures)
+	f.mu.Lock()
+	defer f.mu.Unlock()
+	if len(f.pos) == 0 || pos > f.pos[0].pos {
+		f.pos = []errPos{{msg: errorMsg, c: *c, pos: pos}}
 	} else {
-		if pos == farthestFailure[0].pos {
-			for _, failure := range farthestFailure {
+		if pos == f.pos[0].pos {
+			for _, failure := range f.pos {
 				if failure.msg == errorMsg {
 					return false, nil
 				}
 			}
-			farthestFailure = append(farthestFailure, errPos{msg: errorMsg, c: *c, pos: pos})
+			f.pos = append(f.pos, errPos{msg: errorMsg, c: *c, pos: pos})
 		}
 	}
 	return false, nil
@@ -63,13 +98,16 @@ func (c *current) pushError(errorMsg string) (bool, error) {
 // In most cases this is a missing closing character of a pair, which was opened before.
 // Example: a missing closing square bracket or a missing closing double quote.
 func (c *current) fatalError(errorMsg string) (bool, error) {
-	farthestFailure = []errPos{
+	f := c.globalStore[farthestFailures].(*failures)
+	f.mu.Lock()
+	f.pos = []errPos{
 		{
 			msg: errorMsg,
 			c:   *c,
 			pos: pos(c),
 		},
 	}
+	f.mu.Unlock()
 	var bb bytes.Buffer
 	bb.WriteString(fmt.Sprintf("Parsing error at pos %s and [%d] (after: '%s'):\n", c.pos, pos(c), showNewline(string(c.text))))
 	bb.WriteString(fmt.Sprintf("-> %s\n", errorMsg))
-- 
2.43.0


From 823fbbfed107c3c8635ee722e628cfd15547605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:37 +0000
Subject: [PATCH 11/17] fix: do not report the parse failure of another file
 for a file that can not be read

---
 internal/app/check/check.go   | 3 ++-
 internal/app/format/format.go | 3 ++-
 internal/app/lint/lint.go     | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/app/check/check.go b/internal/app/check/check.go
index 8225fbd..802a90d 100644
--- a/internal/app/check/check.go
+++ b/internal/app/check/check.go
@@ -32,7 +32,8 @@ func (f Check) Run(args []string) error {
 
 		_, err = config.ParseFile(filename, config.IgnoreComments(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var pathErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &pathErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 33ef8f0..9cf77c1 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -36,7 +36,8 @@ func (f Format) Run(args []string) error {
 
 		c, err := config.ParseFile(filename)
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var pathErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &pathErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					return errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 744fa5c..7ecd2f1 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -39,7 +39,8 @@ func (l Lint) Run(args []string) error {
 
 		c, err := config.ParseFile(filename, config.ExceptionalCommentsWarning(true))
 		if err != nil {
-			if errMsg, hasErr := config.GetFarthestFailure(); hasErr {
+			var pathErr *os.PathError
+			if errMsg, hasErr := config.GetFarthestFailure(); hasErr && !errors.As(err, &pathErr) {
 				if !strings.Contains(err.Error(), errMsg) {
 					err = errors.Errorf("%s: %v\n%s", filename, err, errMsg)
 				}
-- 
2.43.0


From 5d776c4090cff1e62a61cf5c95ecee19b79c2b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 12/17] fix: keep the previous content of a file if the new
 content can not be written

---
 internal/app/format/format.go  | 18 ++----------
 internal/app/lint/lint.go      | 18 +++---------
 internal/fileutil/overwrite.go | 51 ++++++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+), 29 deletions(-)
 create mode 100644 internal/fileutil/overwrite.go

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 9cf77c1..38b1558 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -10,6 +10,7 @@ import (
 
 	config "github.com/breml/logstash-config"
 	"github.com/breml/logstash-config/ast"
+	"github.com/breml/logstash-config/internal/fileutil"
 )
 
 type Format struct {
@@ -46,21 +47,8 @@ func (f Format) Run(args []string) error {
 		}
 
 		if f.writeToSource {
-			err := func() error {
-				f, err := os.Create(filename)
-				if err != nil {
-					return errors.Wrap(err, "failed to open file for writting with automatically fixed ID")
-				}
-				defer f.Close()
-
-				conf := c.(ast.Config)
-				_, err = f.WriteString(conf.String())
-				if err != nil {
-					return errors.Wrap(err, "failed to write file with automatically fixed ID")
-				}
-
-				return nil
-			}()
+			conf := c.(ast.Config)
+			err := fileutil.Overwrite(filename, conf.String())
 			if err != nil {
 				return err
 			}
diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index 7ecd2f1..b4ce4ba 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -11,6 +11,7 @@ import (
 	config "github.com/breml/logstash-config"
 	"github.com/breml/logstash-config/ast"
 	"github.com/breml/logstash-config/ast/astutil"
+	"github.com/breml/logstash-config/internal/fileutil"
 	"github.com/breml/logstash-config/internal/format"
 )
 
@@ -86,20 +87,9 @@ func (l Lint) Run(args []string) error {
 		}
 
 		if l.autoFixID && v.changed {
-			func() {
-				f, err := os.Create(filename)
-				if err != nil {
-					result = multierror.Append(result, errors.Wrap(err, "failed to open file for writting with automatically fixed ID"))
-					return
-				}
-				defer f.Close()
-
-				_, err = f.WriteString(conf.String())
-				if err != nil {
-					result = multierror.Append(result, errors.Wrap(err, "failed to write file with automatically fixed ID"))
-					return
-				}
-			}()
+			if err := fileutil.Overwrite(filename, conf.String()); err != nil {
+				result = multierror.Append(result, errors.Wrap(err, "automatically fixed ID"))
+			}
 		}
 	}
 
diff --git a/internal/fileutil/overwrite.go b/internal/fileutil/overwrite.go
new file mode 100644
index 0000000..7adc23b
--- /dev/null
+++ b/internal/fileutil/overwrite.go
@@ -0,0 +1,51 @@
+package fileutil
+
+import (
+	"io"
+	"os"
+
+	"github.com/pkg/errors"
+)
+
+// Overwrite replaces the content of an existing file. If the new content can not
+// be written completely, the previous content is restored.
+func Overwrite(filename string, content string) (err error) {
+	f, err := os.OpenFile(filename, os.O_RDWR, 0)
+	if err != nil {
+		return errors.Wrap(err, "failed to open file for writing")
+	}
+	defer func() {
+		if closeErr := f.Close(); closeErr != nil && err == nil {
+			err = errors.Wrap(closeErr, "failed to close file")
+		}
+	}()
+
+	previous, err := io.ReadAll(f)
+	if err != nil {
+		return errors.Wrap(err, "failed to read previous content of file")
+	}
+
+	// The file is truncated after the new content has been written, such that it
+	// is always possible to restore the overwritten part of the previous content.
+	if _, err := f.Seek(0, io.SeekStart); err != nil {
+		return errors.Wrap(err, "failed to write file")
+	}
+	n, err := f.WriteString(content)
+	if err == nil {
+		err = f.Truncate(int64(len(content)))
+	}
+	if err != nil {
+		if n > len(previous) {
+			n = len(previous)
+		}
+		if _, restoreErr := f.WriteAt(previous[:n], 0); restoreErr != nil {
+			return errors.Wrapf(err, "failed to write file and to restore its previous content (%v)", restoreErr)
+		}
+		if restoreErr := f.Truncate(int64(len(previous))); restoreErr != nil {
+			return errors.Wrapf(err, "failed to write file and to restore its previous content (%v)", restoreErr)
+		}
+		return errors.Wrap(err, "failed to write file")
+	}
+
+	return nil
+}
-- 
2.43.0


From 43f4956ca5bd8ba1e911bee0eccf59a60d425394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 13/17] fix: report failed writes of the format command

---
 internal/app/format/format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/app/format/format.go b/internal/app/format/format.go
index 38b1558..4f82d18 100644
--- a/internal/app/format/format.go
+++ b/internal/app/format/format.go
@@ -55,7 +55,9 @@ func (f Format) Run(args []string) error {
 			continue
 		}
 
-		fmt.Fprint(f.out, c)
+		if _, err := fmt.Fprint(f.out, c); err != nil {
+			return errors.Wrapf(err, "%s: failed to write output", filename)
+		}
 	}
 
 	return nil
-- 
2.43.0


From c7f788617b7ac45fd99aa405e13d4471b2b5aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:32 +0000
Subject: [PATCH 14/17] fix: recognise the id attribute of a plugin if its name
 is quoted

---
 ast/ast.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ast/ast.go b/ast/ast.go
index 89d78c7..1970b2a 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -301,7 +301,7 @@ func (p Plugin) String() string {
 // the NotFounder interface.
 func (p Plugin) ID() (string, error) {
 	for _, attr := range p.Attributes {
-		if attr != nil && attr.Name() == "id" {
+		if attr != nil && isID(attr.Name()) {
 			switch stringAttr := attr.(type) {
 			case StringAttribute:
 				return stringAttr.value, nil
@@ -313,6 +313,12 @@ func (p Plugin) ID() (string, error) {
 	return "", NotFoundErrorf("plugin %s does not contain an id attribute", p.name)
 }
 
+// isID returns true, if name is the name of the id attribute. The name of an
+// attribute is allowed to be quoted.
+func isID(name string) bool {
+	return name == `id` || name == `"id"` || name == `'id'`
+}
+
 // Attribute interface combines Logstash plugin attribute types.
 type Attribute interface {
 	Name() string
-- 
2.43.0


From a01992e6a3c0bec3d3d93d1bad95247cc53beb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 15/17] fix: add valid and unique ids and leave plugins with an
 id attribute alone

---
 internal/app/lint/lint.go | 55 ++++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/internal/app/lint/lint.go b/internal/app/lint/lint.go
index b4ce4ba..9856588 100644
--- a/internal/app/lint/lint.go
+++ b/internal/app/lint/lint.go
@@ -59,15 +59,11 @@ func (l Lint) Run(args []string) error {
 			allIDs:    map[string]struct{}{},
 		}
 
-		for i := range conf.Input {
-			astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, v.walk)
-		}
-		for i := range conf.Filter {
-			astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, v.walk)
-		}
-		for i := range conf.Output {
-			astutil.ApplyPlugins(conf.Output[i].BranchOrPlugins, v.walk)
+		if l.autoFixID {
+			v.usedIDs = map[string]struct{}{}
+			applyPlugins(conf, v.collectID)
 		}
+		applyPlugins(conf, v.walk)
 
 		if len(v.noIDs) > 0 {
 			errMsg := strings.Builder{}
@@ -101,6 +97,18 @@ func (l Lint) Run(args []string) error {
 	return nil
 }
 
+func applyPlugins(conf ast.Config, f astutil.ApplyPluginsFunc) {
+	for i := range conf.Input {
+		astutil.ApplyPlugins(conf.Input[i].BranchOrPlugins, f)
+	}
+	for i := range conf.Filter {
+		astutil.ApplyPlugins(conf.Filter[i].BranchOrPlugins, f)
+	}
+	for i := range conf.Output {
+		astutil.ApplyPlugins(conf.Output[i].BranchOrPlugins, f)
+	}
+}
+
 type validator struct {
 	count        int
 	noIDs        []string
@@ -108,6 +116,33 @@ type validator struct {
 	changed      bool
 	duplicateIDs []string
 	allIDs       map[string]struct{}
+
+	// usedIDs are the IDs, which are not available for auto fix.
+	usedIDs map[string]struct{}
+}
+
+func (v *validator) collectID(c *astutil.Cursor) {
+	if id, err := c.Plugin().ID(); err == nil {
+		v.usedIDs[id] = struct{}{}
+	}
+}
+
+// newID returns a valid value for the id attribute of the plugin with the given
+// name, which is not used by any other plugin.
+func (v *validator) newID(name string) string {
+	if len(name) > 1 && (name[0] == '"' || name[0] == '\'') {
+		name = name[1 : len(name)-1]
+	}
+	id := fmt.Sprintf("%s-%d", name, v.count)
+	for i := 1; ; i++ {
+		quoted := astutil.QuoteWithEscape(id, ast.DoubleQuoted)
+		value := quoted[1 : len(quoted)-1]
+		if _, ok := v.usedIDs[value]; !ok {
+			v.usedIDs[value] = struct{}{}
+			return value
+		}
+		id = fmt.Sprintf("%s-%d-%d", name, v.count, i)
+	}
 }
 
 func (v *validator) walk(c *astutil.Cursor) {
@@ -115,11 +150,11 @@ func (v *validator) walk(c *astutil.Cursor) {
 
 	id, err := c.Plugin().ID()
 	if err != nil {
-		if v.autoFixID {
+		if v.autoFixID && ast.IsNotFoundError(err) {
 			v.changed = true
 
 			plugin := c.Plugin()
-			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", fmt.Sprintf("%s-%d", c.Plugin().Name(), v.count), ast.DoubleQuoted))
+			plugin.Attributes = append(plugin.Attributes, ast.NewStringAttribute("id", v.newID(plugin.Name()), ast.DoubleQuoted))
 
 			c.Replace(plugin)
 		} else {
-- 
2.43.0


From 83f5e38da3d6701e8ac922052f8c82ec3856d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:39 +0000
Subject: [PATCH 16/17] fix: collect exceptional comment warnings without
 copying them

The parser copies its state before each alternative, and with it all warnings
found so far: time and memory grew with the square of the number of comments in
exceptional places (4000 of them took half a minute and 9 GB to lint).
---
 logstash_config_helper.go | 43 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/logstash_config_helper.go b/logstash_config_helper.go
index df0e8de..7585246 100644
--- a/logstash_config_helper.go
+++ b/logstash_config_helper.go
@@ -11,17 +11,39 @@ import (
 	"github.com/breml/logstash-config/ast"
 )
 
-type exceptionalCommentsWarnings []string
+// exceptionalCommentsWarnings is a list of warnings, linked from the last to
+// the first. An entry is never changed, so the list is shared by the copies of
+// the state that the parser takes before each alternative.
+type exceptionalCommentsWarnings struct {
+	previous *exceptionalCommentsWarnings
+	count    int
+	warning  string
+}
+
+// add returns the list with one more warning.
+func (w *exceptionalCommentsWarnings) add(warning string) *exceptionalCommentsWarnings {
+	return &exceptionalCommentsWarnings{previous: w, count: w.len() + 1, warning: warning}
+}
+
+func (w *exceptionalCommentsWarnings) len() int {
+	if w == nil {
+		return 0
+	}
+	return w.count
+}
 
-func (w exceptionalCommentsWarnings) Clone() interface{} {
-	clone := make(exceptionalCommentsWarnings, 0, len(w))
-	clone = append(clone, w...)
-	return clone
+// list returns the warnings in the order in which they were added.
+func (w *exceptionalCommentsWarnings) list() []string {
+	warnings := make([]string, w.len())
+	for ; w != nil; w = w.previous {
+		warnings[w.count-1] = w.warning
+	}
+	return warnings
 }
 
 func (c *current) initState() error {
 	if _, ok := c.state[exceptionalCommentWarning]; !ok {
-		warnings := make(exceptionalCommentsWarnings, 0)
+		var warnings *exceptionalCommentsWarnings
 		c.state[exceptionalCommentWarning] = warnings
 	}
 	return nil
@@ -39,9 +61,9 @@ func (c *current) ret(el interface{}) (interface{}, error) {
 func (c *current) retConfig(el interface{}) (interface{}, error) {
 	conf, _ := el.(ast.Config)
 
-	warnings, _ := c.state[exceptionalCommentWarning].(exceptionalCommentsWarnings)
+	warnings, _ := c.state[exceptionalCommentWarning].(*exceptionalCommentsWarnings)
 
-	conf.Warnings = warnings
+	conf.Warnings = warnings.list()
 	return conf, nil
 }
 
@@ -127,9 +149,8 @@ func (c *current) config(ps1, pss1, psComment1, footerComment1 interface{}) (ast
 func (c *current) warnComment() error {
 	ok, _ := c.globalStore[exceptionalCommentWarning].(bool)
 	if ok && bytes.Contains(c.text, []byte("#")) {
-		warnings, _ := c.state[exceptionalCommentWarning].(exceptionalCommentsWarnings)
-		warnings = append(warnings, fmt.Sprintf("exceptional comment at %s", c.pos))
-		c.state[exceptionalCommentWarning] = warnings
+		warnings, _ := c.state[exceptionalCommentWarning].(*exceptionalCommentsWarnings)
+		c.state[exceptionalCommentWarning] = warnings.add(fmt.Sprintf("exceptional comment at %s", c.pos))
 	}
 	return nil
 }
-- 
2.43.0


From c64f93722d9b795516739e7b9de62a5a57107738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:02 +0000
Subject: [PATCH 17/17] fix: escape quotes in one pass

Each escaped quote copied the rest of the value, twice: time and memory grew
with the square of the number of quotes.
---
 ast/astutil/quote.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ast/astutil/quote.go b/ast/astutil/quote.go
index d0bd1c8..d150384 100644
--- a/ast/astutil/quote.go
+++ b/ast/astutil/quote.go
@@ -68,12 +68,13 @@ func QuoteWithEscape(value string, quoteType ast.StringAttributeType) string {
 }
 
 func escapeQuotes(value string, quote byte) string {
-	b := []byte(value)
+	b := make([]byte, 0, len(value))
 
-	for i := 0; i < len(b); i++ {
-		if b[i] == quote && (i == 0 || b[i-1] != '\\') {
-			b = append(b[:i], append([]byte{'\\'}, b[i:]...)...)
+	for i := 0; i < len(value); i++ {
+		if value[i] == quote && (i == 0 || value[i-1] != '\\') {
+			b = append(b, '\\')
 		}
+		b = append(b, value[i])
 	}
 
 	return string(b)
-- 
2.43.0

