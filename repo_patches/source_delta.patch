From 9b835db4e7a4ac78009e48c0ff750dd754efe24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:50 +0000
Subject: [PATCH 01/28] fix: parse nested parentheses in linear time by
 memoizing the parser

Each level of parentheses was parsed four times over, so a query with a
dozen nested groups took minutes.
---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3b33f72..31770f2 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -26,7 +26,7 @@ func ParseQueryReader(r io.Reader, options ...Option) (ast.Node, error) {
 	for _, o := range options {
 		o(opts)
 	}
-	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug))
+	v, err := grammar.ParseReader("", r, grammar.Debug(opts.debug), grammar.Memoize(true))
 	if err != nil {
 		return nil, grammar.GetParseError(err)
 	}
-- 
2.43.0


From aa24ff5ba9e93af5f1b4734dc1f3d20060f4b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:50 +0000
Subject: [PATCH 02/28] fix: fail the parse when a message visitor reports an
 error

The first error on the tape was never recorded, so queries with errors
reported by a message visitor were accepted.
---
 parser/visitors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/visitors.go b/parser/visitors.go
index 4128a75..e8ed4a2 100644
--- a/parser/visitors.go
+++ b/parser/visitors.go
@@ -166,7 +166,7 @@ func (mt *MessageTape) ErrorAt(where ast.Pos, msg string, v ...any) {
 
 func (mt *MessageTape) addMsg(msgType MessageType, where ast.Pos, msg string, v ...any) {
 	pmsg := newMessage(msgType, where, fmt.Sprintf(msg, v...))
-	if msgType == MsgError && mt.firstErr != nil {
+	if msgType == MsgError && mt.firstErr == nil {
 		mt.firstErr = pmsg
 	}
 	mt.messages = append(mt.messages, newMessage(msgType, where, fmt.Sprintf(msg, v...)))
-- 
2.43.0


From dd6c6da6157dbff15ef974ec153a91efc838bed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:47:50 +0000
Subject: [PATCH 03/28] fix: reject a between range from a number to a datetime

The datetime bound was silently treated as zero.
---
 parser/validators.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/validators.go b/parser/validators.go
index a7400f5..e68ba21 100644
--- a/parser/validators.go
+++ b/parser/validators.go
@@ -142,6 +142,10 @@ func checkBetween(e *ast.ExprNode) *ParseError {
 		return nil
 	}
 
+	if e.RVals[1].Type() == ast.TypeTime {
+		return ErrorAt(e.RVals[1].Pos(), "second argument must also be a numeric value")
+	}
+
 	var l, r float64
 	switch lnv := e.RVals[0].(type) {
 	case *ast.IntVal:
-- 
2.43.0


From 72f2bba924329dc9781f19ddbbb8541b31ee2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:36 +0000
Subject: [PATCH 04/28] fix: reject a field path made only of stars and keep a
 quoted star

A path of bare stars became empty and made every match panic. A quoted
star names a key and is no longer dropped from the path.
---
 internal/grammar/aql.peg       | 38 +++++++++++++---------------------
 internal/grammar/parser_gen.go | 38 +++++++++++++---------------------
 2 files changed, 28 insertions(+), 48 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 963e117..5036e5d 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -152,26 +152,8 @@ func toString(label any) (string, error) {
 	}
 	return sb.String(), nil
 }
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
-		}
-		ss = append(ss[:i], ss[i+1:]...)
-	}
-	return ss
-}
-
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
-	}
-	return -1
-}
+// type of the legacy star in a field path, distinct from a quoted "*"
+type fieldStar struct{}
 }
 
 /******
@@ -257,14 +239,22 @@ Field <- pieces:(FieldPiece ('.' FieldPiece)*) {
         return nil, fmt.Errorf("empty field")
     }
     // remove stars for now, they are redundant legacy syntax
-    field := []string{piecesSl[0].(string)}
+    var field []string
+    if piece, ok := piecesSl[0].(string); ok {
+        field = append(field, piece)
+    }
     restSl := toAny(piecesSl[1])
     for _, v := range restSl {
         vSl := toAny(v)
-        field = append(field, vSl[1].(string))
+        if piece, ok := vSl[1].(string); ok {
+            field = append(field, piece)
+        }
+    }
+    if len(field) == 0 {
+        return nil, tokErrf(getpos(c), "field must contain more than [*]")
     }
 
-    return removeStars(field), nil
+    return field, nil
 }
 
 FieldPiece <- QuotedFieldPiece / UnquotedFieldPiece / Star
@@ -280,7 +270,7 @@ QuotedFieldPiece <- qv:QuotedValue {
 
 // TODO: Remove Star
 Star <- '*' {
-    return "*", nil
+    return fieldStar{}, nil
 }
 
 /*****
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index b02745d..e2974ee 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -165,26 +165,8 @@ func toString(label any) (string, error) {
 	return sb.String(), nil
 }
 
-// helper methods to remove legacy star syntax
-func removeStars(ss []string) []string {
-	for {
-		i := findStarIdx(ss)
-		if i < 0 {
-			break
-		}
-		ss = append(ss[:i], ss[i+1:]...)
-	}
-	return ss
-}
-
-func findStarIdx(ss []string) int {
-	for i, s := range ss {
-		if s == "*" {
-			return i
-		}
-	}
-	return -1
-}
+// type of the legacy star in a field path, distinct from a quoted "*"
+type fieldStar struct{}
 
 var g = &grammar{
 	rules: []*rule{
@@ -1991,14 +1973,22 @@ func (c *current) onField1(pieces interface{}) (interface{}, error) {
 		return nil, fmt.Errorf("empty field")
 	}
 	// remove stars for now, they are redundant legacy syntax
-	field := []string{piecesSl[0].(string)}
+	var field []string
+	if piece, ok := piecesSl[0].(string); ok {
+		field = append(field, piece)
+	}
 	restSl := toAny(piecesSl[1])
 	for _, v := range restSl {
 		vSl := toAny(v)
-		field = append(field, vSl[1].(string))
+		if piece, ok := vSl[1].(string); ok {
+			field = append(field, piece)
+		}
+	}
+	if len(field) == 0 {
+		return nil, tokErrf(getpos(c), "field must contain more than [*]")
 	}
 
-	return removeStars(field), nil
+	return field, nil
 }
 
 func (p *parser) callonField1() (interface{}, error) {
@@ -2029,7 +2019,7 @@ func (p *parser) callonQuotedFieldPiece1() (interface{}, error) {
 }
 
 func (c *current) onStar1() (interface{}, error) {
-	return "*", nil
+	return fieldStar{}, nil
 }
 
 func (p *parser) callonStar1() (interface{}, error) {
-- 
2.43.0


From 348dd0be7209d4d6d7dc4fa9af0eb7fe2e438324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:37 +0000
Subject: [PATCH 05/28] fix: match documents whose root is not an object

An empty field name panicked on a top-level array, and the objects in a
top-level array were never searched.
---
 jsonmatcher/json_values.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 547400a..3309c77 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -21,7 +21,9 @@ type field struct {
 
 // TODO: cache paths
 func getField(path []string, root []byte) *field {
-	values := getValues(path, root, jsonparser.Object)
+	// the root may be an array or a scalar as well as an object
+	value, rootType, _, _ := jsonparser.Get(root)
+	values := getValues(path, value, rootType)
 	return &field{
 		values: values,
 	}
-- 
2.43.0


From 23d4bb8723f7d098526d97766dc3ddfc23b7007c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:38 +0000
Subject: [PATCH 06/28] fix: decode escapes before comparing a string
 numerically

A numeric string written with JSON escapes was not seen as a number.
---
 jsonmatcher/json_values.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 3309c77..1981767 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -135,7 +135,17 @@ func getStringVal(v jsonValue) (stringVal string, isStringy bool) {
 
 func getNumberVal(v jsonValue) (floatVal float64, isNumeric bool) {
 	switch v.dataType {
-	case jsonparser.String, jsonparser.Number:
+	case jsonparser.String:
+		sv, err := jsonparser.ParseString(v.data)
+		if err != nil {
+			return math.NaN(), false
+		}
+		fv, err := strconv.ParseFloat(sv, 64)
+		if err != nil {
+			return math.NaN(), false
+		}
+		return fv, true
+	case jsonparser.Number:
 		fv, err := jsonparser.ParseFloat(v.data)
 		if err != nil {
 			return math.NaN(), false
-- 
2.43.0


From 9899b82cf4d2303d46d125a098c5b1175c30bcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:38 +0000
Subject: [PATCH 07/28] fix: include the child nodes in match statistics

The statistics of a compound query stopped at its root node.
---
 jsonmatcher/nodes.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsonmatcher/nodes.go b/jsonmatcher/nodes.go
index 1aff22c..eeaf500 100644
--- a/jsonmatcher/nodes.go
+++ b/jsonmatcher/nodes.go
@@ -24,7 +24,7 @@ func (a *andNode) result(root []byte) bool {
 }
 
 func (a *andNode) stats() *MatchStats {
-	return a.nodeStats.toStatsNode()
+	return a.nodeStats.toStatsNode(a.left, a.right)
 }
 
 type orNode struct {
@@ -41,7 +41,7 @@ func (o *orNode) result(root []byte) bool {
 }
 
 func (o *orNode) stats() *MatchStats {
-	return o.nodeStats.toStatsNode()
+	return o.nodeStats.toStatsNode(o.left, o.right)
 }
 
 type notNode struct {
@@ -58,7 +58,7 @@ func (n *notNode) result(root []byte) bool {
 }
 
 func (n *notNode) stats() *MatchStats {
-	return n.nodeStats.toStatsNode()
+	return n.nodeStats.toStatsNode(n.sub)
 }
 
 // type subdocNode struct {
-- 
2.43.0


From 685a44153ddb50ee6f954a3ee755a74db6131697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:48:55 +0000
Subject: [PATCH 08/28] fix: compare datetimes outside the years 1678 to 2262
 correctly

Timestamps were compared as 64-bit nanosecond counts, which wrap around
for other years.
---
 jsonmatcher/expr_between.go  |  7 ++++---
 jsonmatcher/expr_datetime.go | 15 ++++++++-------
 jsonmatcher/expr_eq.go       |  8 ++++----
 jsonmatcher/expr_numeric.go  |  3 ++-
 jsonmatcher/json_values.go   |  9 +++++----
 5 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/jsonmatcher/expr_between.go b/jsonmatcher/expr_between.go
index 7605a14..4a7ede8 100644
--- a/jsonmatcher/expr_between.go
+++ b/jsonmatcher/expr_between.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -37,9 +38,9 @@ func exprBetween(RVals []ast.Val) fieldExpr {
 		// datetime between
 		// 2nd argument guaranteed by validator
 		return &exprDatetime{
-			values: [2]int64{
-				RVals[0].(*ast.TimeVal).Value().UnixNano(),
-				RVals[1].(*ast.TimeVal).Value().UnixNano(),
+			values: [2]time.Time{
+				RVals[0].(*ast.TimeVal).Value(),
+				RVals[1].(*ast.TimeVal).Value(),
 			},
 			op: ast.BET,
 		}
diff --git a/jsonmatcher/expr_datetime.go b/jsonmatcher/expr_datetime.go
index bd45ecc..a4adf90 100644
--- a/jsonmatcher/expr_datetime.go
+++ b/jsonmatcher/expr_datetime.go
@@ -2,12 +2,13 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
 
 type exprDatetime struct {
-	values [2]int64
+	values [2]time.Time
 	op     ast.Op
 }
 
@@ -19,27 +20,27 @@ func (e *exprDatetime) matches(field *field) bool {
 		}
 		switch e.op {
 		case ast.EQ:
-			if dv == e.values[0] {
+			if dv.Equal(e.values[0]) {
 				return true
 			}
 		case ast.LT:
-			if dv < e.values[0] {
+			if dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.LTE:
-			if dv <= e.values[0] {
+			if !dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GT:
-			if dv > e.values[0] {
+			if dv.After(e.values[0]) {
 				return true
 			}
 		case ast.GTE:
-			if dv >= e.values[0] {
+			if !dv.Before(e.values[0]) {
 				return true
 			}
 		case ast.BET:
-			if dv >= e.values[0] && dv <= e.values[1] {
+			if !dv.Before(e.values[0]) && !dv.After(e.values[1]) {
 				return true
 			}
 		// backstop
diff --git a/jsonmatcher/expr_eq.go b/jsonmatcher/expr_eq.go
index 4f8433c..55b4012 100644
--- a/jsonmatcher/expr_eq.go
+++ b/jsonmatcher/expr_eq.go
@@ -44,17 +44,17 @@ func exprEQ(RVals []ast.Val) []fieldExpr {
 			})
 		case *ast.TimeVal:
 			if rval.DayOnly() {
-				endOfDay := rval.Value().Add(24*time.Hour).UnixNano() - 1
+				endOfDay := rval.Value().Add(24*time.Hour - 1)
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{
-						rval.Value().UnixNano(),
+					values: [2]time.Time{
+						rval.Value(),
 						endOfDay,
 					},
 					op: ast.BET,
 				})
 			} else {
 				matchers = append(matchers, &exprDatetime{
-					values: [2]int64{rval.Value().UnixNano()},
+					values: [2]time.Time{rval.Value()},
 					op:     ast.EQ,
 				})
 			}
diff --git a/jsonmatcher/expr_numeric.go b/jsonmatcher/expr_numeric.go
index e5273d5..e0480d9 100644
--- a/jsonmatcher/expr_numeric.go
+++ b/jsonmatcher/expr_numeric.go
@@ -2,6 +2,7 @@ package jsonmatcher
 
 import (
 	"fmt"
+	"time"
 
 	"github.com/flowchartsman/aql/parser/ast"
 )
@@ -24,7 +25,7 @@ func exprNumeric(op ast.Op, RVals []ast.Val) fieldExpr {
 		}
 	case *ast.TimeVal:
 		return &exprDatetime{
-			values: [2]int64{v.Value().UnixNano()},
+			values: [2]time.Time{v.Value()},
 			op:     op,
 		}
 	default:
diff --git a/jsonmatcher/json_values.go b/jsonmatcher/json_values.go
index 1981767..e73016b 100644
--- a/jsonmatcher/json_values.go
+++ b/jsonmatcher/json_values.go
@@ -4,6 +4,7 @@ import (
 	"math"
 	"regexp"
 	"strconv"
+	"time"
 
 	"github.com/araddon/dateparse"
 	"github.com/buger/jsonparser"
@@ -166,19 +167,19 @@ func getBoolVal(v jsonValue) (boolVal bool, found bool) {
 	return false, false
 }
 
-func getDatetimeVal(v jsonValue) (intVal int64, found bool) {
+func getDatetimeVal(v jsonValue) (timeVal time.Time, found bool) {
 	// TODO: tighten this up for numstrings. Probably want to be more careful
 	// about what we consider a date with how flexible dateparse is. Maybe a
 	// special getStringVal() that only accepts int-like unix epochs.
 	sv, ok := getStringVal(v)
 	if !ok {
-		return 0, false
+		return time.Time{}, false
 	}
 	t, err := dateparse.ParseAny(sv)
 	if err != nil {
-		return 0, false
+		return time.Time{}, false
 	}
-	return t.UnixNano(), true
+	return t, true
 }
 
 // true:
-- 
2.43.0


From 4743661108b4c8713a6f43887f322046edec77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:49:35 +0000
Subject: [PATCH 09/28] fix: keep escaped slashes and backslashes at the ends
 of a regex

A leading or trailing escaped slash was stripped from the expression, and
an escaped backslash before the closing slash made it invalid.
---
 internal/grammar/aql.peg       | 1 -
 internal/grammar/parser_gen.go | 1 -
 jsonmatcher/query_messages.go  | 2 +-
 parser/ast/ast.go              | 3 ++-
 wasm/aqlparse/warnings.go      | 2 +-
 5 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index 5036e5d..adf289e 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -331,7 +331,6 @@ ValueChars <- [a-zA-Z0-9 !]
 
 RegexValue <- '/' RegexChar* EndingSlash {
     pos := getpos(c)
-    c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
     val, err := ast.NewRegexpVal(c.text, pos)
     if err != nil {
         return nil, tokErr(pos, err)
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index e2974ee..5a684da 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2097,7 +2097,6 @@ func (p *parser) callonQuotedValue2() (interface{}, error) {
 
 func (c *current) onRegexValue2() (interface{}, error) {
 	pos := getpos(c)
-	c.text = bytes.Replace(c.text, []byte(`\/`), []byte(`/`), -1)
 	val, err := ast.NewRegexpVal(c.text, pos)
 	if err != nil {
 		return nil, tokErr(pos, err)
diff --git a/jsonmatcher/query_messages.go b/jsonmatcher/query_messages.go
index 49828cd..6f55e10 100644
--- a/jsonmatcher/query_messages.go
+++ b/jsonmatcher/query_messages.go
@@ -24,7 +24,7 @@ func messageVisitor(node ast.Node, tape *parser.MessageTape) error {
 				if n.Op == ast.SIM {
 					tape.WarningAt(rv.Pos(), "Similarity comparison is no longer necessary for regular expressions. Please use the normal comparison operator - field:/<regular expression/")
 				}
-				reStr := strings.Trim(v.String(), `/`)
+				reStr := rv.Value().String()
 				if strings.HasPrefix(reStr, "(?i)") && !isASCII(v.String()) {
 					tape.WarningAt(rv.Pos(), `Case-insensitive regular expression %s contains unicode characters. This may not work as intended. Consider a fuzzy match - 'field:~("value", "language")`, v.String())
 				}
diff --git a/parser/ast/ast.go b/parser/ast/ast.go
index bb7be02..d9b460d 100644
--- a/parser/ast/ast.go
+++ b/parser/ast/ast.go
@@ -339,7 +339,8 @@ type RegexpVal struct {
 
 func NewRegexpVal(b []byte, pos Pos) (*RegexpVal, error) {
 	sv := string(b)
-	rv, err := regexp.Compile(strings.Trim(sv, `/`))
+	// an escaped slash in the expression itself is left to the regexp package
+	rv, err := regexp.Compile(strings.TrimSuffix(strings.TrimPrefix(sv, `/`), `/`))
 	if err != nil {
 		return nil, fmt.Errorf("invalid regular expression [%s]: %v", sv, err)
 	}
diff --git a/wasm/aqlparse/warnings.go b/wasm/aqlparse/warnings.go
index 34408f7..a7942a2 100644
--- a/wasm/aqlparse/warnings.go
+++ b/wasm/aqlparse/warnings.go
@@ -21,7 +21,7 @@ func warningVisitor(node ast.Node, tape *parser.MessageTape) error {
 				if n.Op == ast.SIM {
 					tape.WarningAt(n.Pos(), "Similarity comparison is no longer necessary for regular expressions and will eventually be removed. Please use the normal comparison operator - field:/<regular expression/")
 				}
-				reStr := strings.Trim(v.String(), `/`)
+				reStr := rv.Value().String()
 				if strings.HasPrefix(reStr, "(?i)") && !isASCII(v.String()) {
 					tape.WarningAt(rv.Pos(), `Case-insensitive regular expression %s contains unicode characters. This may not work as intended. Consider a fuzzy match - 'field:~("value", "language")`, v.String())
 				}
-- 
2.43.0


From d2f4e4833c97728388de52d0fd35b13ba2ffe67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:50:16 +0000
Subject: [PATCH 10/28] fix: match string terms that begin or end with
 punctuation

A word boundary was required next to punctuation, so a value such as
"here!" from the README did not match itself.
---
 jsonmatcher/str_matchers.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index 3a72a61..aaa34f1 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -30,7 +30,7 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
 	asciiOnly := isASCII(wcString)
-	if asciiOnly {
+	if asciiOnly && !isPunct(wcRunes, 0) {
 		buf.WriteString(`\b`)
 	}
 	var accum bytes.Buffer
@@ -61,12 +61,27 @@ func stringSearchRegexp(wcString string) *regexp.Regexp {
 	}
 	// write whatever remains in the accumulator
 	buf.WriteString(regexp.QuoteMeta(accum.String()))
-	if asciiOnly {
+	if asciiOnly && !isPunct(wcRunes, len(wcRunes)-1) {
 		buf.WriteString(`\b`)
 	}
 	return regexp.MustCompile(buf.String())
 }
 
+// isPunct returns whether the rune at i is a literal character that is not part
+// of a word, and so cannot have a word boundary on its outer side.
+func isPunct(rs []rune, i int) bool {
+	if i < 0 || i >= len(rs) {
+		return false
+	}
+	switch r := rs[i]; {
+	case r == '?', r == '*':
+		return i > 0 && rs[i-1] == '\\'
+	case r == '_', r >= '0' && r <= '9', r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z':
+		return false
+	}
+	return true
+}
+
 type unicodeMatcher struct {
 	pat *search.Pattern
 }
-- 
2.43.0


From 44c82f7ec0955db5cfb026e54a88cc1c4178aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:12 +0000
Subject: [PATCH 11/28] fix: report an empty sample instead of panicking

---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 2f6e8a8..e1d9875 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -2,6 +2,7 @@ package sampler
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 
 	"github.com/buger/jsonparser"
@@ -39,6 +40,9 @@ func New(maxDepth int) *Sampler {
 
 func (s *Sampler) Sample(sample []byte) error {
 	var rootObj jsonparser.ValueType
+	if len(sample) == 0 {
+		return errors.New("sample is empty")
+	}
 	sampleLen := len(sample)
 	// prep to get 100 characters or so to print if it looks weird, so that
 	// there's something to examine in the logs
-- 
2.43.0


From 660618a2324fe32e13f17ddb5e95ea0e1bd4d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:14 +0000
Subject: [PATCH 12/28] fix: do not panic on a scalar in a top-level array

---
 sampler/sampler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index e1d9875..cf7fb4b 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -119,6 +119,10 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 	case jsonparser.Unknown:
 		return fmt.Errorf("unkown JSON value type: %v", string(current))
 	default:
+		// a scalar in a top-level array has no key
+		if path.Len() == 0 {
+			return nil
+		}
 		// TODO Track types found for UI hinting
 		s.keys[path.String()[1:]]++
 	}
-- 
2.43.0


From e9f1bdf2ada5fead50b2cc897539b18cf6e098f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:16 +0000
Subject: [PATCH 13/28] fix: treat a negative sampling depth as unlimited

It is documented as no limit, but no keys were sampled at all.
---
 sampler/sampler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index cf7fb4b..374c18d 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -77,7 +77,7 @@ func (s *Sampler) Sample(sample []byte) error {
 }
 
 func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
-	if depth > s.maxDepth {
+	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
 	switch valType {
-- 
2.43.0


From da06d5a61ba604ec0edbedf04789104c87dc74c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:18 +0000
Subject: [PATCH 14/28] fix: keep sampling after a document that fails

A malformed document dropped every key seen so far, and the next document
made the sampler panic.
---
 sampler/sampler.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 374c18d..b4f5a78 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -66,17 +66,20 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	err := s.sample(sample, path, depth, rootObj)
+	found := make(map[string]uint)
+	err := s.sample(found, sample, path, depth, rootObj)
 	if err != nil {
-		s.keys = nil
 		return err
 	}
 
+	for key, count := range found {
+		s.keys[key] += count
+	}
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
+func (s *Sampler) sample(found map[string]uint, current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
 	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
@@ -92,7 +95,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			} else {
 				path.Write(key)
 			}
-			if err := s.sample(value, path, depth+1, dataType); err != nil {
+			if err := s.sample(found, value, path, depth+1, dataType); err != nil {
 				return err
 			}
 			path.Truncate(pl)
@@ -110,7 +113,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			if dataType == jsonparser.Array {
 				return
 			}
-			aerr = s.sample(value, path, depth, dataType)
+			aerr = s.sample(found, value, path, depth, dataType)
 		})
 		if err == nil {
 			err = aerr
@@ -124,7 +127,7 @@ func (s *Sampler) sample(current []byte, path *bytes.Buffer, depth int, valType
 			return nil
 		}
 		// TODO Track types found for UI hinting
-		s.keys[path.String()[1:]]++
+		found[path.String()[1:]]++
 	}
 	return nil
 }
-- 
2.43.0


From d2885e2d5726bcef65f8eb9293febb246eeb2264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:19 +0000
Subject: [PATCH 15/28] fix: count a sampled key once per document

A key repeated in the elements of an array counted once per element, so
the percentage of documents it occurs in was overstated.
---
 sampler/sampler.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index b4f5a78..3bbbe97 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -66,20 +66,20 @@ func (s *Sampler) Sample(sample []byte) error {
 	// prep initial sampling state
 	depth := 0
 	path := &bytes.Buffer{} // todo: share
-	found := make(map[string]uint)
+	found := make(map[string]struct{})
 	err := s.sample(found, sample, path, depth, rootObj)
 	if err != nil {
 		return err
 	}
 
-	for key, count := range found {
-		s.keys[key] += count
+	for key := range found {
+		s.keys[key]++
 	}
 	s.totalDocs++
 	return nil
 }
 
-func (s *Sampler) sample(found map[string]uint, current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
+func (s *Sampler) sample(found map[string]struct{}, current []byte, path *bytes.Buffer, depth int, valType jsonparser.ValueType) error {
 	if s.maxDepth >= 0 && depth > s.maxDepth {
 		return nil
 	}
@@ -127,7 +127,7 @@ func (s *Sampler) sample(found map[string]uint, current []byte, path *bytes.Buff
 			return nil
 		}
 		// TODO Track types found for UI hinting
-		found[path.String()[1:]]++
+		found[path.String()[1:]] = struct{}{}
 	}
 	return nil
 }
-- 
2.43.0


From 03ce624e537d4c56efd44cc6b666f38a14c3d453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:21 +0000
Subject: [PATCH 16/28] fix: quote every sampled key that is not a bare field
 name

Only keys with spaces were quoted, so a key with a dot or a quote gave a
path that means something else or does not parse.
---
 sampler/sampler.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/sampler/sampler.go b/sampler/sampler.go
index 3bbbe97..4b2e714 100644
--- a/sampler/sampler.go
+++ b/sampler/sampler.go
@@ -88,13 +88,7 @@ func (s *Sampler) sample(found map[string]struct{}, current []byte, path *bytes.
 		pl := path.Len()
 		return jsonparser.ObjectEach(current, func(key []byte, value []byte, dataType jsonparser.ValueType, _ int) error {
 			path.WriteString(".")
-			if bytes.ContainsAny(key, " ") {
-				path.WriteString(`"`)
-				path.Write(key)
-				path.WriteString(`"`)
-			} else {
-				path.Write(key)
-			}
+			writeKey(path, key)
 			if err := s.sample(found, value, path, depth+1, dataType); err != nil {
 				return err
 			}
@@ -132,6 +126,35 @@ func (s *Sampler) sample(found map[string]struct{}, current []byte, path *bytes.
 	return nil
 }
 
+// writeKey appends a key to the path as a field piece, quoting it if needed.
+func writeKey(path *bytes.Buffer, key []byte) {
+	bare := len(key) > 0
+	for _, b := range key {
+		switch {
+		case b == '_', b == '-', b >= '0' && b <= '9', b >= 'a' && b <= 'z', b >= 'A' && b <= 'Z':
+		default:
+			bare = false
+		}
+	}
+	if bare {
+		path.Write(key)
+		return
+	}
+	path.WriteByte('"')
+	for _, b := range key {
+		switch {
+		case b == '"', b == '\\':
+			path.WriteByte('\\')
+			path.WriteByte(b)
+		case b < ' ':
+			fmt.Fprintf(path, `\u%04x`, b)
+		default:
+			path.WriteByte(b)
+		}
+	}
+	path.WriteByte('"')
+}
+
 func (s *Sampler) Keys() []string {
 	out := make([]string, 0, len(s.keys))
 	for key := range s.keys {
-- 
2.43.0


From a81fb5280e385ce9913c81d70d32a1b6eea8294c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:52:58 +0000
Subject: [PATCH 17/28] fix: point at the right characters of a query with
 multibyte text

The byte offset of a message was used to index the runes of the query, so
the marker was misplaced or the message could not be printed at all.
---
 parser/fmtmsg/formatter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index f22745a..79e97b2 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"strings"
 	ttemplate "text/template"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
 	"github.com/flowchartsman/aql/parser/ast"
@@ -60,6 +61,7 @@ func NewFormatter(tmpl string, html bool, maxWidth int) (*Formatter, error) {
 func (f *Formatter) WithQuery(query string) *Printer {
 	return &Printer{
 		formatter: f,
+		text:      query,
 		query:     []rune(query),
 	}
 }
@@ -67,6 +69,7 @@ func (f *Formatter) WithQuery(query string) *Printer {
 // Printer prints messages for a given query.
 type Printer struct {
 	formatter *Formatter
+	text      string
 	query     []rune
 }
 
@@ -85,10 +88,15 @@ func (p *Printer) Sprint(message Message) string {
 }
 
 func (p *Printer) getPrintData(m Message) *printData {
+	pos := m.Pos()
+	if pos.Offset > 0 {
+		// offsets are in bytes, but the query is displayed in runes
+		pos.Offset = utf8.RuneCountInString(p.text[:min(pos.Offset, len(p.text))])
+	}
 	pData := &printData{
 		msgType: msgUnknown,
 		query:   p.query,
-		pos:     m.Pos(),
+		pos:     pos,
 		lo:      0,
 		ro:      len(p.query),
 		HasHL:   m.Pos() != ast.NoPosition(),
-- 
2.43.0


From 848a1192c4172ab2e0db2eccac53754fd618f9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:00 +0000
Subject: [PATCH 18/28] fix: print messages about the end of a query or a long
 part of it

A highlight that reached past the end of the query, or past the part of it
that fits in the width, failed the template or drew a marker longer than
the displayed text.
---
 parser/fmtmsg/formatter.go | 12 +++++++++---
 parser/fmtmsg/truncate.go  |  2 +-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/fmtmsg/formatter.go b/parser/fmtmsg/formatter.go
index 79e97b2..aeb5710 100644
--- a/parser/fmtmsg/formatter.go
+++ b/parser/fmtmsg/formatter.go
@@ -144,8 +144,14 @@ func (m *printData) Type() string {
 	return string(m.msgType)
 }
 
+// hlEnd is the end of the visible part of the highlight.
+func (m *printData) hlEnd() int {
+	return min(m.pos.Offset+m.pos.Len, m.ro)
+}
+
 func (m *printData) HLLen() int {
-	return m.pos.Len
+	// an error at the end of the query is marked just past it
+	return max(m.hlEnd()-m.pos.Offset, 1)
 }
 
 func (m *printData) HLStrOffset() int {
@@ -187,7 +193,7 @@ func (m *printData) QueryHL() string {
 	if !m.HasHL {
 		return ""
 	}
-	return string(m.query[m.pos.Offset : m.pos.Offset+m.pos.Len])
+	return string(m.query[m.pos.Offset:m.hlEnd()])
 }
 
 func (m *printData) QueryPost() string {
@@ -195,7 +201,7 @@ func (m *printData) QueryPost() string {
 		return ""
 	}
 	var sb strings.Builder
-	sb.WriteString(string(m.query[m.pos.Offset+m.pos.Len : m.ro]))
+	sb.WriteString(string(m.query[m.hlEnd():m.ro]))
 	if m.ro < (len(m.query)) {
 		sb.WriteString("...")
 	}
diff --git a/parser/fmtmsg/truncate.go b/parser/fmtmsg/truncate.go
index 4f80213..7af9f0d 100644
--- a/parser/fmtmsg/truncate.go
+++ b/parser/fmtmsg/truncate.go
@@ -26,7 +26,7 @@ func findCenterSubstring(r []rune, windowSize int, startOffset int, endOffset in
 	if substringLen >= windowSize {
 		// If the specified substring length is greater than or equal to
 		// the window size, return the substring truncated on the right to windowSize
-		return startOffset, startOffset + windowSize
+		return startOffset, min(startOffset+windowSize, strLen)
 	}
 
 	// Calculate the available space on both sides of the substring.
-- 
2.43.0


From 345dbdc24c80b51095fac6f1074ac2ea78b13e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:02 +0000
Subject: [PATCH 19/28] fix: escape fields and values in graph labels

A query with <, > or & in a field or value gave an invalid label.
---
 aqlgraph/node_html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index f91df89..e03a9a4 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -38,7 +38,7 @@ type NodeVal struct {
 
 var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +53,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From 5b19b6771690137a2cf9a99a3147c723e7f41def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:53:27 +0000
Subject: [PATCH 20/28] fix: highlight the right characters of multibyte
 queries in the playground

Byte offsets were used as indexes into a JavaScript string.
---
 wasm/aqlparse/main.go | 38 +++++++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/wasm/aqlparse/main.go b/wasm/aqlparse/main.go
index 49e22cb..3d8f10b 100644
--- a/wasm/aqlparse/main.go
+++ b/wasm/aqlparse/main.go
@@ -7,8 +7,11 @@ import (
 	"fmt"
 	"strings"
 	"syscall/js"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	"github.com/flowchartsman/aql/parser"
+	"github.com/flowchartsman/aql/parser/ast"
 )
 
 func parseAQL(query string) (string, []*parser.ParserMessage, error) {
@@ -29,14 +32,16 @@ func errConvert(err error, input string) map[string]any {
 		msg := pe.Msg
 		if strings.HasPrefix(msg, "no match found") {
 			msg = "incomplete query"
-			pe.Position.Offset = len(input) - 1
+			_, lastLen := utf8.DecodeLastRuneInString(input)
+			pe.Position.Offset = len(input) - lastLen
 			pe.Position.Len = 1
 		}
+		start, end := jsRange(pe.Position, input)
 		return map[string]any{
 			"type":  "error",
 			"msg":   msg,
-			"start": pe.Position.Offset,
-			"end":   pe.Position.Offset + pe.Position.Len,
+			"start": start,
+			"end":   end,
 		}
 	} else {
 		return map[string]any{
@@ -55,14 +60,37 @@ func msgConvert(msg *parser.ParserMessage, input string) map[string]any {
 	case parser.MsgError:
 		msgType = "error"
 	}
+	start, end := jsRange(msg.Position, input)
 	return map[string]any{
 		"type":  msgType,
 		"msg":   msg.Msg,
-		"start": msg.Position.Offset,
-		"end":   msg.Position.Offset + msg.Position.Len,
+		"start": start,
+		"end":   end,
 	}
 }
 
+// jsRange converts a position, which has an offset in bytes and a length in
+// runes, to a range of UTF-16 code units for indexing a JavaScript string.
+func jsRange(pos ast.Pos, input string) (start int, end int) {
+	offset := pos.Offset
+	if offset > len(input) {
+		offset = len(input)
+	}
+	start = len(utf16.Encode([]rune(input[:offset])))
+	end = start
+	for i, r := range []rune(input[offset:]) {
+		if i == pos.Len {
+			break
+		}
+		end += len(utf16.Encode([]rune{r}))
+	}
+	if end == start {
+		// just past the end of the input
+		end++
+	}
+	return start, end
+}
+
 func pWrap(this js.Value, args []js.Value) any {
 	input := args[0].String()
 	result := map[string]any{
-- 
2.43.0


From 1b7752df7e580cb01d54be358ece063d83055140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:57 +0000
Subject: [PATCH 21/28] fix: mark the whole of an integer that is out of range

---
 internal/grammar/aql.peg       | 7 ++++++-
 internal/grammar/parser_gen.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/grammar/aql.peg b/internal/grammar/aql.peg
index adf289e..ffa7852 100644
--- a/internal/grammar/aql.peg
+++ b/internal/grammar/aql.peg
@@ -365,7 +365,12 @@ FloatValue <- '-'? [0-9]+ '.' [0-9]+ {
 }
 
 IntValue <- '-'? [0-9]+ {
-    return ast.NewIntVal(c.text, getpos(c))
+    pos := getpos(c)
+    val, err := ast.NewIntVal(c.text, pos)
+    if err != nil {
+        return nil, tokErr(pos, err)
+    }
+    return val, nil
 }
 
 
diff --git a/internal/grammar/parser_gen.go b/internal/grammar/parser_gen.go
index 5a684da..7bd0ef3 100644
--- a/internal/grammar/parser_gen.go
+++ b/internal/grammar/parser_gen.go
@@ -2136,7 +2136,12 @@ func (p *parser) callonFloatValue1() (interface{}, error) {
 }
 
 func (c *current) onIntValue1() (interface{}, error) {
-	return ast.NewIntVal(c.text, getpos(c))
+	pos := getpos(c)
+	val, err := ast.NewIntVal(c.text, pos)
+	if err != nil {
+		return nil, tokErr(pos, err)
+	}
+	return val, nil
 }
 
 func (p *parser) callonIntValue1() (interface{}, error) {
-- 
2.43.0


From 000bd694f87b456c129e7d58d879724bcdecca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:05 +0000
Subject: [PATCH 22/28] fix: close the index page after serving it

---
 wasm/aqlparse/server/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wasm/aqlparse/server/main.go b/wasm/aqlparse/server/main.go
index f18204a..a23fed9 100644
--- a/wasm/aqlparse/server/main.go
+++ b/wasm/aqlparse/server/main.go
@@ -50,6 +50,7 @@ func main() {
 			if err != nil {
 				panic("error opening index.html: " + err.Error())
 			}
+			defer f.Close()
 			http.ServeContent(w, r, "index.html", time.Now(), f)
 			return
 		}
-- 
2.43.0


From a8cd6d6250aa723421726e4a7f22bb5e5042a734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:05 +0000
Subject: [PATCH 23/28] fix: show any query in a graph as it is written

Backslashes and control characters in labels were substituted or broke the
label, and a failure to create the graph was used before it was checked.
---
 aqlgraph/graph.go     | 23 ++++++++++++++++++++---
 aqlgraph/node_html.go | 31 +++++++++++++++++++++++++++----
 2 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index caa39aa..c2174e2 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -63,15 +63,15 @@ func QueryGraph(query string) (*Graph, error) {
 	}
 	gv := graphviz.New()
 	g, err := gv.Graph(graphviz.Name("query"), graphviz.Directed)
-	g.SafeSet("fontname", "Courier", "")
-	g.SafeSet("fontsize", "10px", "")
 	if err != nil {
 		return nil, err
 	}
+	g.SafeSet("fontname", "Courier", "")
+	g.SafeSet("fontsize", "10px", "")
 	ng := &namegraph{
 		Graph: g,
 	}
-	ng.SetLabel(query).
+	ng.SetLabel(graphLabel(query)).
 		SetLabelLocation(cgraph.TopLocation).
 		SetLabelJust(cgraph.CenteredJust).
 		SetNodeSeparator(0.5).
@@ -93,6 +93,23 @@ func QueryGraph(query string) (*Graph, error) {
 	}, nil
 }
 
+// graphLabel prepares a query for use as the plain label of a graph, in which
+// entities are replaced. The layout of the query is kept.
+func graphLabel(query string) string {
+	var b strings.Builder
+	for _, r := range query {
+		switch r {
+		case '\n', '\r', '\t':
+			b.WriteRune(r)
+		case '&':
+			b.WriteString("&amp;")
+		default:
+			b.WriteString(labelText(string(r)))
+		}
+	}
+	return b.String()
+}
+
 func visitNodes(graph *namegraph, anode ast.Node) *cgraph.Node {
 	n := graph.NewNode()
 	n.SetStyle(cgraph.FilledNodeStyle)
diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index e03a9a4..0f1add6 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -1,6 +1,11 @@
 package aqlgraph
 
-import "text/template"
+import (
+	"strconv"
+	"strings"
+	"text/template"
+	"unicode"
+)
 
 const (
 	colorAnd = `#f59722`
@@ -36,9 +41,27 @@ type NodeVal struct {
 	Color   string
 }
 
-var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
+// labelText prepares text for use in a label. Characters that cannot be shown,
+// some of which are not even allowed in a label, are replaced with their escape
+// sequences, and backslashes are doubled, since graphviz substitutes sequences
+// like \N.
+func labelText(s string) string {
+	var b strings.Builder
+	for _, r := range s {
+		if unicode.IsPrint(r) {
+			b.WriteRune(r)
+			continue
+		}
+		b.WriteString(strings.Trim(strconv.QuoteRune(r), "'"))
+	}
+	return strings.ReplaceAll(b.String(), `\`, `\\`)
+}
+
+var labelTmpl = template.Must(template.New("").Funcs(template.FuncMap{
+	"labeltext": labelText,
+}).Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|html }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|labeltext|html }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -53,7 +76,7 @@ var labelTmpl = template.Must(template.New("").Parse(`<TABLE BORDER="0" CELLBORD
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|html }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|labeltext|html }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From fa2c7d47054d7df839e503ecb33518a381a51c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:26 +0000
Subject: [PATCH 24/28] fix: show fields made up of closing brackets in graphs

---
 aqlgraph/node_html.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aqlgraph/node_html.go b/aqlgraph/node_html.go
index 0f1add6..9f4367b 100644
--- a/aqlgraph/node_html.go
+++ b/aqlgraph/node_html.go
@@ -57,11 +57,18 @@ func labelText(s string) string {
 	return strings.ReplaceAll(b.String(), `\`, `\\`)
 }
 
+// labelHTML prepares text for use in an HTML label. Besides markup, brackets are
+// escaped, since graphviz carries text made up of closing brackets over to the
+// next cell.
+func labelHTML(s string) string {
+	return strings.ReplaceAll(template.HTMLEscapeString(labelText(s)), "]", "&#93;")
+}
+
 var labelTmpl = template.Must(template.New("").Funcs(template.FuncMap{
-	"labeltext": labelText,
+	"labelhtml": labelHTML,
 }).Parse(`<TABLE BORDER="0" CELLBORDER="1" CELLSPACING="0" CELLPADDING="2">
 <TR>
-	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|labeltext|html }}</TD>
+	<TD COLSPAN="2" CELLPADDING="8">{{ .Field|labelhtml }}</TD>
 </TR>
 {{- range .Props}}
 <TR>
@@ -76,7 +83,7 @@ var labelTmpl = template.Must(template.New("").Funcs(template.FuncMap{
 {{- range .Values}}
 <TR>
 	<TD BORDER="1" BGCOLOR="{{ .Color }}"><I>{{ .ValType }}</I></TD>
-	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|labeltext|html }}</TD>
+	<TD BORDER="1" BGCOLOR="#FFFFFF">{{ .ValStr|labelhtml }}</TD>
 </TR>
 {{- end }}
 {{- end }}
-- 
2.43.0


From 7efd66b9d96a401f5879bff9ceb00767fed31d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:13 +0000
Subject: [PATCH 25/28] fix: report graphs that could not be written completely

---
 aqlgraph/graph.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/aqlgraph/graph.go b/aqlgraph/graph.go
index c2174e2..a391f86 100644
--- a/aqlgraph/graph.go
+++ b/aqlgraph/graph.go
@@ -2,6 +2,7 @@ package aqlgraph
 
 import (
 	"bytes"
+	"os"
 	"strconv"
 	"strings"
 
@@ -18,11 +19,20 @@ type Graph struct {
 }
 
 func (g *Graph) OutputSVG(filename string) error {
-	return g.gv.RenderFilename(g.g, graphviz.SVG, filename)
+	return g.output(graphviz.SVG, filename)
 }
 
 func (g *Graph) OutputDOT(filename string) error {
-	return g.gv.RenderFilename(g.g, "dot", filename)
+	return g.output("dot", filename)
+}
+
+// output writes the file itself, since graphviz does not report failing writes.
+func (g *Graph) output(format graphviz.Format, filename string) error {
+	var b bytes.Buffer
+	if err := g.gv.Render(g.g, format, &b); err != nil {
+		return err
+	}
+	return os.WriteFile(filename, b.Bytes(), 0o666)
 }
 
 type namegraph struct {
-- 
2.43.0


From 6be93200d0f9e8fd4a36e98aa1c20f61c37ddf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:14 +0000
Subject: [PATCH 26/28] fix: show playground messages as text instead of markup

---
 wasm/aqlparse/index.html | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wasm/aqlparse/index.html b/wasm/aqlparse/index.html
index 51dcab8..5d88731 100644
--- a/wasm/aqlparse/index.html
+++ b/wasm/aqlparse/index.html
@@ -79,7 +79,8 @@
                             //pos.push([result.errors[i].start, result.errors[i].end]);
                         }
                         //$("output").append(document.createTextNode(result.errors[i].msg+"\n"));
-                        $("#messages").append(newMsg(message.type, message.msg));
+                        // messages can quote the query, which is text and not markup
+                        $("#messages").append(newMsg(message.type, $("<div>").text(message.msg).html()));
                         //$("output").append("<span class='"+message.type+"'>"+message.msg+'</span></br>');
                         i++;
                     }
-- 
2.43.0


From 00428393dca805349f3cb970e1e37d0a7b185ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:15 +0000
Subject: [PATCH 27/28] fix: write the kind of a message by name when a copy is
 marshaled

MarshalJSON had a pointer receiver, so a message that was marshaled by value
had a number for its type.
---
 parser/message.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/message.go b/parser/message.go
index 231c4f5..5b49685 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -10,8 +10,8 @@ import (
 // MessageType is the type of a parser message
 type MessageType int
 
-func (t *MessageType) MarshalJSON() ([]byte, error) {
-	return json.Marshal(typeStr(*t))
+func (t MessageType) MarshalJSON() ([]byte, error) {
+	return json.Marshal(typeStr(t))
 }
 
 const (
-- 
2.43.0


From b8f620a901fbc7b9aeae4b43525fd7d3ee0c044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:53:08 +0000
Subject: [PATCH 28/28] fix: match wildcard terms that have letters with an
 irregular lower case

The expression of a term ignores case already. Lowering the term first turned
a dotted capital I into a plain i, so the term no longer matched its own text,
and a Kelvin sign into a k, so the term was taken for ASCII.
---
 jsonmatcher/str_matchers.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jsonmatcher/str_matchers.go b/jsonmatcher/str_matchers.go
index aaa34f1..11e6421 100644
--- a/jsonmatcher/str_matchers.go
+++ b/jsonmatcher/str_matchers.go
@@ -25,7 +25,6 @@ func getStringMatcher(str string) fieldExpr {
 
 // todo: replace runs of spaces or handle spaces specially somehow?
 func stringSearchRegexp(wcString string) *regexp.Regexp {
-	wcString = strings.ToLower(wcString)
 	wcRunes := []rune(wcString)
 	var buf bytes.Buffer
 	buf.WriteString(`(?i)`)
-- 
2.43.0

