From df08210287bf9f4fd844651cc94e112436af9fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:22 +0000
Subject: [PATCH 01/29] fix: lexer: a string ending in an escaped backslash is
 terminated

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 44a2bc9..55232b4 100644
--- a/lexer.go
+++ b/lexer.go
@@ -187,7 +187,11 @@ func (z *Lexer) readValue() {
 
 			z.inc(n)
 
-			p = c
+			if c == '\\' && p == '\\' {
+				p = 0 // the backslash is itself escaped
+			} else {
+				p = c
+			}
 		}
 	} else {
 		for {
-- 
2.43.0


From c95aea3f62190d8ea5da29ae21420e667b747d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 02/29] fix: lexer: an unterminated string ends at its line and
 keeps its text as a token

---
 lexer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lexer.go b/lexer.go
index 55232b4..cbf9f50 100644
--- a/lexer.go
+++ b/lexer.go
@@ -162,10 +162,17 @@ func (z *Lexer) readValue() {
 		for {
 			if z.i == len(z.Source) {
 				z.fail("incomplete string")
+				z.emit(TokenValue)
 				return
 			}
 
 			c, n := utf8.DecodeRune(z.Source[z.i:])
+			if c == '\r' || c == '\n' {
+				z.fail("incomplete string")
+				z.emit(TokenValue)
+				return
+			}
+
 			if c == '"' && p != '\\' {
 				z.inc(n)
 
-- 
2.43.0


From 5d0c7fd778dbe7f76924f4ac947394ed89bfe2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:10 +0000
Subject: [PATCH 03/29] fix: process: a line with surplus values yields exactly
 one listing entry

---
 process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/process.go b/process.go
index ca3174a..61de32e 100644
--- a/process.go
+++ b/process.go
@@ -3284,7 +3284,9 @@ func Process(source string) *ProcessResult {
 					info.Parse(c)
 					if c.args.i < len(c.args.ts) {
 						if c.args.Scan() {
-							c.failCurr(errors.Errorf("too many values"))
+							// the op is already emitted: report without failing the line
+							t := c.args.Curr()
+							c.diag = append(c.diag, parseError{l: t.l, b: t.b, e: t.e, error: errors.Errorf("too many values")})
 						}
 					}
 				} else {
-- 
2.43.0


From ba9d7a5585c4d191e69f729473cf30617ff9a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:13 +0000
Subject: [PATCH 04/29] fix: process: position queries tolerate blank lines and
 any coordinates

---
 process.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/process.go b/process.go
index 61de32e..f2e3bac 100644
--- a/process.go
+++ b/process.go
@@ -2683,13 +2683,11 @@ func (r ProcessResult) ArgFieldName(t NewOpArgType, v int) string {
 func (r ProcessResult) InlayHints(rg Range) InlayHints {
 	var ihs InlayHints
 
-	for li := rg.StartLine(); li <= rg.EndLine(); li++ {
-		if li >= len(r.Lines) {
+	for li, ln := range r.Lines {
+		if li < rg.StartLine() || li > rg.EndLine() {
 			continue
 		}
 
-		ln := r.Lines[li]
-
 		var ok bool
 		var spec opItem
 
@@ -2851,11 +2849,14 @@ func (r ProcessResult) SymOrRefAt(rg Range) string {
 func (r ProcessResult) ArgAt(l int, ch int) (opItemArg, int, bool) {
 	var res opItemArg
 
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return res, -1, false
 	}
 
 	ln := r.Lines[l]
+	if len(ln) == 0 {
+		return res, -1, false
+	}
 
 	curr := len(ln) - 1
 
@@ -2905,7 +2906,7 @@ func (r ProcessResult) ArgValsAt(l int, ch int) []opItemArgVal {
 }
 
 func (r ProcessResult) DocAt(l int, ch int) string {
-	if l >= len(r.Lines) {
+	if l < 0 || l >= len(r.Lines) {
 		return ""
 	}
 
-- 
2.43.0


From 0009d2df70410e1bd5ced31dd6242e6caab91f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:39 +0000
Subject: [PATCH 05/29] fix: process: args is a logicsig opcode

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index f2e3bac..50cce79 100644
--- a/process.go
+++ b/process.go
@@ -2459,8 +2459,8 @@ func opGtxnsas(c ProcessContext) {
 	c.emit(&GtxnsasExpr{Field: f})
 }
 func opArgs(c ProcessContext) {
-	c.modeMinVersion(ModeSig, 0)
-	c.modeMinVersion(ModeApp, 5)
+	c.modeMinVersion(ModeSig, 5)
+	c.modeMinVersion(ModeApp, 0)
 
 	c.emit(Args)
 }
-- 
2.43.0


From fcd3fb9a2afeaf3a738d62cacc609e3c556c29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:42 +0000
Subject: [PATCH 06/29] fix: process: gitxna rejects a group index that does
 not fit in 8 bits

---
 process.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/process.go b/process.go
index 50cce79..5361d46 100644
--- a/process.go
+++ b/process.go
@@ -2400,7 +2400,7 @@ func opGitxn(c ProcessContext) {
 func opGitxna(c ProcessContext) {
 	c.modeMinVersion(ModeSig, 0)
 	c.modeMinVersion(ModeApp, 6)
-	t := c.mustReadInt("t")
+	t := c.mustReadUint8("t")
 	f := c.mustReadTxnaField("f")
 	i := c.mustReadUint8("i")
 
-- 
2.43.0


From 35b123f765aa3491b68e1ffc7a065a4954615845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:46 +0000
Subject: [PATCH 07/29] fix: process: a pragma version that does not fit in 8
 bits is rejected, not truncated

---
 process.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/process.go b/process.go
index 5361d46..96add4f 100644
--- a/process.go
+++ b/process.go
@@ -4,6 +4,7 @@ import (
 	"encoding/base64"
 	"encoding/hex"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -951,6 +952,10 @@ func (c *parserContext) mustReadPragma(argName string) uint64 {
 			c.failCurr(errors.New("version must be at least 1"))
 		}
 
+		if v > math.MaxUint8 {
+			c.failCurr(errors.Errorf("version must be at most %d", math.MaxUint8))
+		}
+
 		version = v
 	default:
 		c.failCurr(errors.Errorf("unexpected #pragma: %s", c.args.Text()))
-- 
2.43.0


From e1aee358d86cd1f22821a481a233d4558e0fab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:49 +0000
Subject: [PATCH 08/29] fix: parser: array transaction fields are version
 checked

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 361e582..26363d7 100644
--- a/parser.go
+++ b/parser.go
@@ -293,7 +293,7 @@ func readTxnField(c fieldContext, v uint64, s string) (TxnField, bool, error) {
 		var needed uint64
 
 		switch c {
-		case txnFieldContext:
+		case txnFieldContext, txnaFieldContext:
 			needed = spec.version
 		case itxnFieldContext:
 			if spec.itxVersion == 0 {
-- 
2.43.0


From 1bef2d2dc901307921e55af9c4229513b7fc786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:52 +0000
Subject: [PATCH 09/29] fix: process: surplus values after a pragma are
 reported

---
 process.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/process.go b/process.go
index 96add4f..e995d34 100644
--- a/process.go
+++ b/process.go
@@ -935,6 +935,15 @@ func (c *parserContext) mustReadArg(name string) {
 	}
 }
 
+// checkSurplus reports a value left over after an op was read. The op is
+// already emitted, so the line is not failed.
+func (c *parserContext) checkSurplus() {
+	if c.args.i < len(c.args.ts) && c.args.Scan() {
+		t := c.args.Curr()
+		c.diag = append(c.diag, parseError{l: t.l, b: t.b, e: t.e, error: errors.Errorf("too many values")})
+	}
+}
+
 func (c *parserContext) mustReadPragma(argName string) uint64 {
 	var version uint64
 	c.mcrs = append(c.mcrs, c.args.Curr())
@@ -3238,6 +3247,7 @@ func Process(source string) *ProcessResult {
 				c.emit(Empty)
 			case "#pragma":
 				opPragma(c)
+				c.checkSurplus()
 			default:
 				info, ok := Ops.Get(OpContext{
 					Name:    name,
@@ -3288,13 +3298,7 @@ func Process(source string) *ProcessResult {
 					}
 
 					info.Parse(c)
-					if c.args.i < len(c.args.ts) {
-						if c.args.Scan() {
-							// the op is already emitted: report without failing the line
-							t := c.args.Curr()
-							c.diag = append(c.diag, parseError{l: t.l, b: t.b, e: t.e, error: errors.Errorf("too many values")})
-						}
-					}
+					c.checkSurplus()
 				} else {
 					c.failCurr(errors.Errorf("unknown opcode: %s", c.args.Text()))
 				}
-- 
2.43.0


From 492b69f5338c2e0a9148c1d378d8509699a2ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:24 +0000
Subject: [PATCH 10/29] fix: process: each number of a constant block is
 recorded once

---
 process.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/process.go b/process.go
index e995d34..07f0190 100644
--- a/process.go
+++ b/process.go
@@ -1145,7 +1145,6 @@ func (c *parserContext) readUint64Array(name string) []uint64 {
 	for c.args.Scan() {
 		i := c.parseUint64(name)
 		res = append(res, i)
-		c.nums = append(c.nums, c.args.Curr())
 	}
 
 	return res
-- 
2.43.0


From 94a57b6f8c0c2be34c14786f2f7084298ee6393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:31 +0000
Subject: [PATCH 11/29] fix: field lookups by number tolerate negative numbers

---
 go_algorand.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/go_algorand.go b/go_algorand.go
index 9a99996..ce1f0da 100644
--- a/go_algorand.go
+++ b/go_algorand.go
@@ -631,7 +631,7 @@ const (
 )
 
 func txnFieldSpecByField(f TxnField) (txnFieldSpec, bool) {
-	if int(f) >= len(txnFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(txnFieldSpecs) {
 		return txnFieldSpec{}, false
 	}
 	return txnFieldSpecs[f], true
@@ -1005,7 +1005,7 @@ var globalFieldSpecs = [...]globalFieldSpec{
 }
 
 func globalFieldSpecByField(f GlobalField) (globalFieldSpec, bool) {
-	if int(f) >= len(globalFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(globalFieldSpecs) {
 		return globalFieldSpec{}, false
 	}
 	return globalFieldSpecs[f], true
@@ -1068,7 +1068,7 @@ var ecdsaCurveSpecs = [...]ecdsaCurveSpec{
 }
 
 func ecdsaCurveSpecByField(c EcdsaCurve) (ecdsaCurveSpec, bool) {
-	if int(c) >= len(ecdsaCurveSpecs) {
+	if int(c) < 0 || int(c) >= len(ecdsaCurveSpecs) {
 		return ecdsaCurveSpec{}, false
 	}
 	return ecdsaCurveSpecs[c], true
@@ -1114,7 +1114,7 @@ var base64EncodingSpecs = [...]base64EncodingSpec{
 }
 
 func base64EncodingSpecByField(e Base64Encoding) (base64EncodingSpec, bool) {
-	if int(e) >= len(base64EncodingSpecs) {
+	if int(e) < 0 || int(e) >= len(base64EncodingSpecs) {
 		return base64EncodingSpec{}, false
 	}
 	return base64EncodingSpecs[e], true
@@ -1181,7 +1181,7 @@ var jsonRefSpecs = [...]jsonRefSpec{
 }
 
 func jsonRefSpecByField(r JSONRefType) (jsonRefSpec, bool) {
-	if int(r) >= len(jsonRefSpecs) {
+	if int(r) < 0 || int(r) >= len(jsonRefSpecs) {
 		return jsonRefSpec{}, false
 	}
 	return jsonRefSpecs[r], true
@@ -1241,7 +1241,7 @@ var vrfStandardSpecs = [...]vrfStandardSpec{
 }
 
 func vrfStandardSpecByField(r VrfStandard) (vrfStandardSpec, bool) {
-	if int(r) >= len(vrfStandardSpecs) {
+	if int(r) < 0 || int(r) >= len(vrfStandardSpecs) {
 		return vrfStandardSpec{}, false
 	}
 	return vrfStandardSpecs[r], true
@@ -1313,7 +1313,7 @@ var blockFieldSpecs = [...]blockFieldSpec{
 }
 
 func blockFieldSpecByField(r BlockField) (blockFieldSpec, bool) {
-	if int(r) >= len(blockFieldSpecs) {
+	if int(r) < 0 || int(r) >= len(blockFieldSpecs) {
 		return blockFieldSpec{}, false
 	}
 	return blockFieldSpecs[r], true
@@ -1401,7 +1401,7 @@ var assetHoldingFieldSpecs = [...]assetHoldingFieldSpec{
 }
 
 func assetHoldingFieldSpecByField(f AssetHoldingField) (assetHoldingFieldSpec, bool) {
-	if int(f) >= len(assetHoldingFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(assetHoldingFieldSpecs) {
 		return assetHoldingFieldSpec{}, false
 	}
 	return assetHoldingFieldSpecs[f], true
@@ -1497,7 +1497,7 @@ var assetParamsFieldSpecs = [...]assetParamsFieldSpec{
 }
 
 func assetParamsFieldSpecByField(f AssetParamsField) (assetParamsFieldSpec, bool) {
-	if int(f) >= len(assetParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(assetParamsFieldSpecs) {
 		return assetParamsFieldSpec{}, false
 	}
 	return assetParamsFieldSpecs[f], true
@@ -1585,7 +1585,7 @@ var appParamsFieldSpecs = [...]appParamsFieldSpec{
 }
 
 func appParamsFieldSpecByField(f AppParamsField) (appParamsFieldSpec, bool) {
-	if int(f) >= len(appParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(appParamsFieldSpecs) {
 		return appParamsFieldSpec{}, false
 	}
 	return appParamsFieldSpecs[f], true
@@ -1687,7 +1687,7 @@ var acctParamsFieldSpecs = [...]acctParamsFieldSpec{
 }
 
 func acctParamsFieldSpecByField(f AcctParamsField) (acctParamsFieldSpec, bool) {
-	if int(f) >= len(acctParamsFieldSpecs) {
+	if int(f) < 0 || int(f) >= len(acctParamsFieldSpecs) {
 		return acctParamsFieldSpec{}, false
 	}
 	return acctParamsFieldSpecs[f], true
@@ -2176,7 +2176,7 @@ var ecGroupSpecs = [...]ecGroupSpec{
 }
 
 func ecGroupSpecByField(c EcGroup) (ecGroupSpec, bool) {
-	if int(c) >= len(ecGroupSpecs) {
+	if int(c) < 0 || int(c) >= len(ecGroupSpecs) {
 		return ecGroupSpec{}, false
 	}
 	return ecGroupSpecs[c], true
-- 
2.43.0


From ba6424d76975246acf17f12ea1bcda00e80ce039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:50 +0000
Subject: [PATCH 12/29] fix: compiler: the optimizer never drops a retsub

---
 compiler.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/compiler.go b/compiler.go
index c60fc20..17b012e 100644
--- a/compiler.go
+++ b/compiler.go
@@ -133,8 +133,6 @@ func removeUnused(l Listing) Listing {
 		}
 	}
 
-	var prev Expr
-
 	for i, o := range l {
 		switch o := o.(type) {
 		case *LabelExpr:
@@ -161,20 +159,9 @@ func removeUnused(l Listing) Listing {
 				}
 			}
 			res = append(res, o)
-		case *RetSubExpr:
-			switch o2 := prev.(type) {
-			case *LabelExpr:
-				if !used[o2.Name] {
-					continue
-				}
-
-				res = append(res, o)
-			}
 		default:
 			res = append(res, o)
 		}
-
-		prev = o
 	}
 
 	return res
-- 
2.43.0


From ee754f147925ba9b917f31ffa31a12fecbc673d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:58 +0000
Subject: [PATCH 13/29] fix: expr: replace2 prints its own name

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 5c90871..d59d45b 100644
--- a/expr.go
+++ b/expr.go
@@ -1943,7 +1943,7 @@ type Replace2Expr struct {
 }
 
 func (e *Replace2Expr) String() string {
-	return fmt.Sprintf("repace2 %d", e.Start)
+	return fmt.Sprintf("replace2 %d", e.Start)
 }
 
 func (e *Replace2Expr) Execute(b *VmBranch) error {
-- 
2.43.0


From 0f8c79ef0036699e4123c4bd13f64bac454498e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:01 +0000
Subject: [PATCH 14/29] fix: expr: pushints prints its own name

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index d59d45b..e763702 100644
--- a/expr.go
+++ b/expr.go
@@ -2220,7 +2220,7 @@ func (e *PushIntsExpr) String() string {
 		ss = append(ss, strconv.FormatUint(i, 10))
 	}
 
-	return fmt.Sprintf("pushbytess %s", strings.Join(ss, " "))
+	return fmt.Sprintf("pushints %s", strings.Join(ss, " "))
 
 }
 
-- 
2.43.0


From be1ebc8f77eea0c87c9c4fe2ad4b352a2788c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:05 +0000
Subject: [PATCH 15/29] fix: expr: gtxnas prints its group index before its
 field

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index e763702..657b613 100644
--- a/expr.go
+++ b/expr.go
@@ -2122,7 +2122,7 @@ func (e *GtxnasExpr) Execute(b *VmBranch) error {
 }
 
 func (e *GtxnasExpr) String() string {
-	return fmt.Sprintf("gtxnas %d %d", e.Field, e.Index)
+	return fmt.Sprintf("gtxnas %d %s", e.Index, e.Field)
 }
 
 type ArgsExpr struct{}
-- 
2.43.0


From 36806bf3a4314b61b106969a6c07268f660fa349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:07 +0000
Subject: [PATCH 16/29] fix: expr: extract_uint64 prints its own name

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 657b613..d87cabd 100644
--- a/expr.go
+++ b/expr.go
@@ -2984,7 +2984,7 @@ var Extract3 = &Extract3Expr{}
 type ExtractUint64Expr struct{}
 
 func (e *ExtractUint64Expr) String() string {
-	return "extract_unt64"
+	return "extract_uint64"
 }
 
 var ExtractUint64 = &ExtractUint64Expr{}
-- 
2.43.0


From 17e5b34808f3e6b21a5e63f710d7e99d5b5d7462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:10 +0000
Subject: [PATCH 17/29] fix: expr: base64 text is printed so that it is never
 empty or read as a comment

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index d87cabd..705d390 100644
--- a/expr.go
+++ b/expr.go
@@ -1306,7 +1306,7 @@ func (e Bytes) String() string {
 	case BytesStringLiteral:
 		return fmt.Sprintf("\"%s\"", string(e.Value))
 	case BytesBase64:
-		return fmt.Sprintf("b64 %s", base64.StdEncoding.EncodeToString(e.Value))
+		return fmt.Sprintf("b64(%s)", base64.StdEncoding.EncodeToString(e.Value))
 	default:
 		panic(fmt.Sprintf("unsupported bytes format: %d", e.Format))
 	}
-- 
2.43.0


From 31634deeb58d976df743b03b83544a22e0dcc5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:13 +0000
Subject: [PATCH 18/29] fix: process: a method signature is kept without its
 quotes, as it is printed

---
 process.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/process.go b/process.go
index 07f0190..c232852 100644
--- a/process.go
+++ b/process.go
@@ -995,14 +995,14 @@ func (c *parserContext) mustReadSignature(name string) string {
 
 	b := 0
 	e := len(value) - 1
-	if value[b] != '"' || value[e] != '"' {
+	if e < 1 || value[b] != '"' || value[e] != '"' {
 		c.failCurr(errors.New("missing quotes"))
 	}
 
 	// TODO: validate method sig
 	c.strs = append(c.strs, c.args.Curr())
 
-	return c.args.Text()
+	return value[b+1 : e]
 }
 
 func (c *parserContext) maybeReadArg() bool {
-- 
2.43.0


From 9f630cb63f63460953fb963fc9904841a5ccf4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:06 +0000
Subject: [PATCH 19/29] fix: vm: a forked branch keeps the call frames of its
 parent

---
 vm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/vm.go b/vm.go
index e01389e..20ae830 100644
--- a/vm.go
+++ b/vm.go
@@ -264,6 +264,7 @@ func (b *VmBranch) fork(target string) {
 		vm:     b.vm,
 		Line:   b.vm.find(target),
 		Stack:  b.Stack.clone(),
+		Frames: append([]VmFrame{}, b.Frames...),
 		Budget: b.Budget,
 		Name:   target,
 		Trace:  append([]Op{}, b.Trace...),
-- 
2.43.0


From a088cbb55b07904e2782bed9e13a9e56444feea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:09 +0000
Subject: [PATCH 20/29] fix: vm: dup2 keeps the order of the duplicated values

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 705d390..5050f6f 100644
--- a/expr.go
+++ b/expr.go
@@ -3350,10 +3350,10 @@ func (e *Dup2Expr) String() string {
 func (e *Dup2Expr) Execute(b *VmBranch) error {
 	v1 := b.pop(VmTypeAny)
 	v2 := b.pop(VmTypeAny)
-	b.push(v1)
 	b.push(v2)
 	b.push(v1)
 	b.push(v2)
+	b.push(v1)
 	b.Line++
 	return nil
 }
-- 
2.43.0


From 652325306d303be779ef5b69a7203da5e4ae8e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:12 +0000
Subject: [PATCH 21/29] fix: vm: pushints pushes integers

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index 5050f6f..e05a203 100644
--- a/expr.go
+++ b/expr.go
@@ -2207,7 +2207,7 @@ type PushIntsExpr struct {
 
 func (e *PushIntsExpr) Execute(b *VmBranch) error {
 	for range e.Ints {
-		b.push(VmValue{T: VmTypeBytes})
+		b.push(VmValue{T: VmTypeUint64})
 	}
 	b.Line++
 	return nil
-- 
2.43.0


From bfdbc7cf15356cbda98e22db2805fdcc87ec70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:16 +0000
Subject: [PATCH 22/29] fix: vm: dupn 255 terminates

---
 expr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr.go b/expr.go
index e05a203..9d24b8f 100644
--- a/expr.go
+++ b/expr.go
@@ -1883,7 +1883,7 @@ func (e *DupNExpr) String() string {
 
 func (e *DupNExpr) Execute(b *VmBranch) error {
 	v := b.pop(VmTypeAny)
-	for i := uint8(0); i <= e.Count; i++ {
+	for i := 0; i <= int(e.Count); i++ {
 		b.push(v)
 	}
 	b.Line++
-- 
2.43.0


From 8f0457da622d46e96ab0a0f4490f831f722966be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:19 +0000
Subject: [PATCH 23/29] fix: vm: bitlen, getbit, setbit and app_opted_in accept
 any first operand

---
 expr.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expr.go b/expr.go
index 9d24b8f..9c534c7 100644
--- a/expr.go
+++ b/expr.go
@@ -2062,7 +2062,7 @@ func (e *BitLenExpr) String() string {
 }
 
 func (e *BitLenExpr) Execute(b *VmBranch) error {
-	b.pop(VmTypeBytes)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 
@@ -3138,7 +3138,7 @@ func (e *GetBitExpr) String() string {
 
 func (e *GetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
@@ -3155,7 +3155,7 @@ func (e *SetBitExpr) String() string {
 func (e *SetBitExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeAny})
 	b.Line++
 	return nil
@@ -3692,7 +3692,7 @@ func (e *AppOptedInExpr) String() string {
 
 func (e *AppOptedInExpr) Execute(b *VmBranch) error {
 	b.pop(VmTypeUint64)
-	b.pop(VmTypeUint64)
+	b.pop(VmTypeAny)
 	b.push(VmValue{T: VmTypeUint64})
 	b.Line++
 	return nil
-- 
2.43.0


From 828bcc902efef0949f104527da8dfdf21faebb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:22 +0000
Subject: [PATCH 24/29] fix: vm: bury, dig and frame accesses index the stack
 from the top or the frame without wrapping

---
 expr.go | 12 ++++++++----
 vm.go   |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/expr.go b/expr.go
index 9c534c7..3ed5752 100644
--- a/expr.go
+++ b/expr.go
@@ -1847,8 +1847,12 @@ type BuryExpr struct {
 }
 
 func (e *BuryExpr) Execute(b *VmBranch) error {
+	if e.Depth == 0 {
+		panic("bury 0 fails")
+	}
+
 	v := b.pop(VmTypeAny)
-	b.replace(e.Depth, v)
+	b.replace(len(b.Stack.Items)-int(e.Depth), v)
 	b.Line++
 	return nil
 }
@@ -2460,7 +2464,7 @@ func (e *FrameBuryExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
 	v := b.pop(VmTypeAny)
-	b.replace(uint8(int8(f.p)+e.Index), v)
+	b.replace(f.p+int(e.Index), v)
 
 	b.Line++
 	return nil
@@ -2477,7 +2481,7 @@ type FrameDigExpr struct {
 func (e *FrameDigExpr) Execute(b *VmBranch) error {
 	f := b.Frames[len(b.Frames)-1]
 
-	v := b.Stack.Items[uint8(int8(f.p)+e.Index)]
+	v := b.Stack.Items[f.p+int(e.Index)]
 	b.push(v)
 
 	b.Line++
@@ -3191,7 +3195,7 @@ type DigExpr struct {
 }
 
 func (e *DigExpr) Execute(b *VmBranch) error {
-	v := b.Stack.Items[uint8(len(b.Stack.Items))-1-e.Index]
+	v := b.peek(int(e.Index))
 	b.push(v)
 	b.Line++
 	return nil
diff --git a/vm.go b/vm.go
index 20ae830..06d0871 100644
--- a/vm.go
+++ b/vm.go
@@ -18,7 +18,7 @@ type VmFrame struct {
 	Return     int
 	NumArgs    uint8
 	NumReturns uint8
-	p          uint8
+	p          int
 	Name       string
 }
 
@@ -199,7 +199,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	b.Frames[len(b.Frames)-1] = f
 }
 
-func (b *VmBranch) replace(n uint8, v VmValue) {
+func (b *VmBranch) replace(n int, v VmValue) {
 	b.Stack.Items[n] = v
 }
 
@@ -281,7 +281,7 @@ func (b *VmBranch) jump(target string) {
 }
 
 func (b *VmBranch) call(target string) {
-	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: uint8(len(b.Stack.Items)), Name: b.Name})
+	b.Frames = append(b.Frames, VmFrame{Return: b.Line, NumArgs: 0, NumReturns: 0, p: len(b.Stack.Items), Name: b.Name})
 	b.Line = b.vm.find(target)
 }
 
-- 
2.43.0


From 1054068dedc5193141f4b8078a2dcedbe6130c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:39 +0000
Subject: [PATCH 25/29] fix: vm: retsub of a prepared frame leaves only the
 results above the caller's values

---
 expr.go | 8 ++++++--
 vm.go   | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/expr.go b/expr.go
index 3ed5752..82589b3 100644
--- a/expr.go
+++ b/expr.go
@@ -1653,8 +1653,12 @@ func (e *RetSubExpr) Execute(b *VmBranch) error {
 			rs = append(rs, b.pop(VmTypeAny))
 		}
 
-		for i := uint8(0); i < f.NumArgs; i++ {
-			b.pop(VmTypeAny)
+		if f.prepared {
+			if len(b.Stack.Items) < f.p {
+				panic("stack below frame")
+			}
+
+			b.Stack.Items = b.Stack.Items[:f.p-int(f.NumArgs)]
 		}
 
 		for i := len(rs) - 1; i >= 0; i-- {
diff --git a/vm.go b/vm.go
index 06d0871..d01e9a7 100644
--- a/vm.go
+++ b/vm.go
@@ -19,6 +19,7 @@ type VmFrame struct {
 	NumArgs    uint8
 	NumReturns uint8
 	p          int
+	prepared   bool
 	Name       string
 }
 
@@ -196,6 +197,7 @@ func (b *VmBranch) prepare(a uint8, r uint8) {
 	f := b.Frames[len(b.Frames)-1]
 	f.NumArgs = a
 	f.NumReturns = r
+	f.prepared = true
 	b.Frames[len(b.Frames)-1] = f
 }
 
-- 
2.43.0


From 30879e1ffd3f047f193dfd2ddd58c5a237781959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:42 +0000
Subject: [PATCH 26/29] fix: vm: negative and repeated breakpoint lines are
 tolerated

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index d01e9a7..7ffec50 100644
--- a/vm.go
+++ b/vm.go
@@ -414,7 +414,7 @@ func (v *Vm) SetBreakpoints(lns []int) map[int]bool {
 	var res []VmBreakpoint
 
 	for _, ln := range lns {
-		if ln >= len(v.Process.Listing) {
+		if ln < 0 || ln >= len(v.Process.Listing) || verified[ln] {
 			continue
 		}
 
-- 
2.43.0


From 97f4cff543b7cad61d3ba0fdf4b0c16428160cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:46 +0000
Subject: [PATCH 27/29] fix: vm: each arrival at a breakpoint is reported once

---
 vm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm.go b/vm.go
index 7ffec50..5818a05 100644
--- a/vm.go
+++ b/vm.go
@@ -183,7 +183,6 @@ func (b *VmBranch) skipNops() bool {
 		}
 
 		b.Line++
-		b.vm.updateBreakpoints(b)
 	}
 
 	return false
@@ -275,6 +274,7 @@ func (b *VmBranch) fork(target string) {
 	b.vm.Id++
 
 	nb.skipNops()
+	b.vm.updateBreakpoints(nb)
 	b.vm.Branches = append(b.vm.Branches, nb)
 }
 
-- 
2.43.0


From 23b96f4d6c20a2ce444e7d1d2c8130ad42182fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:30 +0000
Subject: [PATCH 28/29] fix: vm: addr, b-, b|, extract_uint64 and itxna have
 their stack effect

---
 expr.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/expr.go b/expr.go
index 82589b3..b48551f 100644
--- a/expr.go
+++ b/expr.go
@@ -1944,6 +1944,14 @@ func (e *ExtractUint64Expr) Execute(b *VmBranch) error {
 	return nil
 }
 
+func (e *Extract64BitsExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeUint64)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeUint64})
+	b.Line++
+	return nil
+}
+
 var Extract64Bits = &Extract64BitsExpr{}
 
 type Replace2Expr struct {
@@ -2106,6 +2114,18 @@ type ItxnaExpr struct {
 	Index uint8
 }
 
+func (e *ItxnaExpr) Execute(b *VmBranch) error {
+	spec, ok := txnFieldSpecByField(e.Field)
+	if !ok {
+		panic("unknown field")
+	}
+
+	b.push(VmValue{T: spec.Type().Vm()})
+
+	b.Line++
+	return nil
+}
+
 func (e *ItxnaExpr) String() string {
 	return fmt.Sprintf("itxna %d %d", e.Field, e.Index)
 }
@@ -2250,6 +2270,12 @@ type AddrExpr struct {
 	Address string
 }
 
+func (e *AddrExpr) Execute(b *VmBranch) error {
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 func (e *AddrExpr) String() string {
 	return fmt.Sprintf("addr %s", e.Address)
 }
@@ -3219,6 +3245,14 @@ func (e *BminusExpr) Cost(b *VmBranch) []int {
 	return []int{10}
 }
 
+func (e *BminusExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesMinus = &BminusExpr{}
 
 type BmulExpr struct{}
@@ -3537,6 +3571,14 @@ func (e *BytesBitOrExpr) Cost(b *VmBranch) []int {
 	return []int{6}
 }
 
+func (e *BytesBitOrExpr) Execute(b *VmBranch) error {
+	b.pop(VmTypeBytes)
+	b.pop(VmTypeBytes)
+	b.push(VmValue{T: VmTypeBytes})
+	b.Line++
+	return nil
+}
+
 var BytesBitOr = &BytesBitOrExpr{}
 
 type BytesBitAndExpr struct{}
-- 
2.43.0


From b540cbd749d366a5e73ef824a05d2b30b3590bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:27 +0000
Subject: [PATCH 29/29] fix: tealsarif: a result's artifact index is that of
 the file it came from

---
 cmd/tealsarif/main.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/tealsarif/main.go b/cmd/tealsarif/main.go
index 14f386b..8ba9c6d 100644
--- a/cmd/tealsarif/main.go
+++ b/cmd/tealsarif/main.go
@@ -125,7 +125,9 @@ func run(a args) error {
 			},
 		})
 
-		for i, d := range res.Diagnostics {
+		index := len(run.Artifacts) - 1
+
+		for _, d := range res.Diagnostics {
 			run.Results = append(run.Results, sarif.Result{
 				RuleId: d.Rule(),
 				Level:  ToSarifLevel(d.Severity()),
@@ -137,7 +139,7 @@ func run(a args) error {
 						PhysicalLocation: sarif.PhysicalLocation{
 							ArtifactLocation: sarif.ArtifactLocation{
 								Uri:   up,
-								Index: i,
+								Index: index,
 							},
 							Region: sarif.Region{
 								StartLine:   d.Line() + 1,
-- 
2.43.0

