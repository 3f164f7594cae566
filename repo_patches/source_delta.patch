From c0807faffae424da0e0d90486ffc8cc6dd07bc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 01/27] fix: Exchange panicked with index out of range for two
 or more ASTs

---
 base/transformers.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index e0085d5..534d3fe 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -152,8 +152,7 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 	if 2 <= length {
 		w := make(AstSlice, 0, length)
 		w = append(w, asts[:length-2]...)
-		w[length-2] = asts[length-1]
-		w[length-1] = asts[length-2]
+		w = append(w, asts[length-1], asts[length-2])
 		return w, nil
 	} else {
 		return asts, nil
-- 
2.43.0


From f45551294695f797a21ead7346a70345fcf6bab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 02/27] fix: Roll did not roll the ASTs

---
 base/transformers.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/base/transformers.go b/base/transformers.go
index 534d3fe..40ac0ff 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -174,19 +174,16 @@ func Exchange(_ ParserContext, asts AstSlice) (AstSlice, error) {
 func Roll(n int) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
 		length := len(asts)
-		if 0 <= n {
-			if n < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
-		} else {
-			m := -n
-			if m < length {
-				return asts, nil
-			} else {
-				return asts, nil
-			}
+		if length == 0 {
+			return asts, nil
 		}
+		m := n % length
+		if m < 0 {
+			m += length
+		}
+		w := make(AstSlice, 0, length)
+		w = append(w, asts[m:]...)
+		w = append(w, asts[:m]...)
+		return w, nil
 	}
 }
-- 
2.43.0


From 852b3e38ad56e925c3cbb1ab25f28f20e7fbf7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 03/27] fix: object.Seq matched any values of the same length

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 128ed79..4773af8 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -53,7 +53,7 @@ func Seq(seq ...interface{}) ParserFn {
 			w := ctx.Slice.Reslice(ctx.Position, ctx.Position+length)
 			for i := 0; i < length; i++ {
 				if !w.ItemEquals(w.Get(i), seq[i]) {
-					break
+					return ctx, nil
 				}
 			}
 			ctx.AstStack = append(ctx.AstStack, Ast{
-- 
2.43.0


From 9edc601fec10cb9200935b19786861ddff8c3f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 04/27] fix: ParseUint panicked on an empty string instead of
 returning an error

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index e141100..4ff94e3 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -109,7 +109,7 @@ func parseUintImpl(base int, ctx ParserContext, asts AstSlice) (AstSlice, error)
 	}
 	str := asts[0].Value.(string)
 	str2 := str
-	if str2[0] == '+' {
+	if 0 < len(str2) && str2[0] == '+' {
 		str2 = str2[1:]
 	}
 	num, err := strconv.ParseUint(str2, base, 64)
-- 
2.43.0


From f79afbaa50442fac6e4c7753b2e4a5529222f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:01 +0000
Subject: [PATCH 05/27] fix: IntFromRune labeled an int64 value as a string

---
 string/transformers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string/transformers.go b/string/transformers.go
index 4ff94e3..333dae2 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -168,7 +168,7 @@ func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 func IntFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
-		Type:           AstType_String,
+		Type:           AstType_Int,
 		Value:          int64(asts[0].Value.(rune)),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
-- 
2.43.0


From a923008b1cc8e9759bec1a2e822512c28ff74e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:02 +0000
Subject: [PATCH 06/27] fix: ObjClassN labeled an arbitrary value as a string

---
 object/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object/parsers.go b/object/parsers.go
index 4773af8..f1d9977 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -113,7 +113,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 
 			ctx.AstStack = append(ctx.AstStack, Ast{
 				ClassName:      ClassName,
-				Type:           AstType_String,
+				Type:           AstType_Any,
 				Value:          w,
 				SourcePosition: ctx.SourcePosition,
 			})
-- 
2.43.0


From 2c161de5279a3a0b0b39764fa63ec004767899b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 07/27] fix: Match(n) panicked when fewer than n ASTs had been
 parsed

---
 base/match.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/match.go b/base/match.go
index bdaef15..f0bb343 100644
--- a/base/match.go
+++ b/base/match.go
@@ -17,6 +17,9 @@ func Match(n int) func(cases ...Case) ParserFn {
 	return func(cases ...Case) ParserFn {
 		return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 			sp := len(ctx.AstStack) - n
+			if sp < 0 {
+				sp = 0
+			}
 			ctx.Length = 0
 			ctx.MatchStatus = MatchStatus_Unmatched
 
-- 
2.43.0


From e170f2bad2a994a30ce96dc88538a7b1be260769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 08/27] fix: Match overwrote ASTs that are restored by
 backtracking

---
 base/match.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/match.go b/base/match.go
index f0bb343..6c9d0ce 100644
--- a/base/match.go
+++ b/base/match.go
@@ -35,7 +35,8 @@ func Match(n int) func(cases ...Case) ParserFn {
 							return ctx, err
 						}
 					}
-					ctx.AstStack = append(ctx.AstStack[:sp], asts...)
+					// Limit the capacity so as not to overwrite ASTs of the callers that may backtrack.
+					ctx.AstStack = append(ctx.AstStack[:sp:sp], asts...)
 
 					ctx.MatchStatus = MatchStatus_Matched
 					return ctx, nil
-- 
2.43.0


From 5eed4628cb8ede6390335bbb504eaaf2a8de309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 09/27] fix: word boundaries skipped back over characters with
 leading bytes 0xf1, 0xf2 and 0xf4

---
 extra/extra.go    | 3 +--
 string/parsers.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index 4d50ad7..fa1bab7 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -259,10 +259,9 @@ func UnicodeWordBoundary() ParserFn {
 		for i := ctx.Position - 1; 0 <= i; i-- {
 			b := ctx.Str[i]
 
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
 			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
 
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
+			if b <= 0x7f || 0xc2 <= b && b <= 0xf4 {
 				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
 				break
 			}
diff --git a/string/parsers.go b/string/parsers.go
index bac8378..ded0a56 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -515,10 +515,9 @@ func WordBoundary() ParserFn {
 		for i := ctx.Position - 1; 0 <= i; i-- {
 			b := ctx.Str[i]
 
-			// TODO: BUG: Valid range is `b <= 0x7f || 0xc2 <= b && b <= 0xf4`
 			// https://github.com/golang/go/blob/0a86cd6857b9fb12a798b3dbcfb6974384aa07d6/src/unicode/utf8/utf8.go#L65-L84
 
-			if b <= 0x7f || 0xc2 <= b && b <= 0xf0 || b == 0xf3 {
+			if b <= 0x7f || 0xc2 <= b && b <= 0xf4 {
 				prevCh, prevChLength = utf8.DecodeRuneInString(ctx.Str[i:])
 				break
 			}
-- 
2.43.0


From 7445f3d80faa21ad30ae77efa7b39aa7295d438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 10/27] fix: Prepend and Push leaked the source position of an
 earlier call

---
 base/transformers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/transformers.go b/base/transformers.go
index 40ac0ff..7bd65a8 100644
--- a/base/transformers.go
+++ b/base/transformers.go
@@ -111,6 +111,7 @@ func SetValue(typ AstType, v interface{}) TransformerFn {
 // Prepend a AST to the AST slice.
 func Prepend(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
+		ast := ast
 		if 0 < len(asts) {
 			ast.SourcePosition = asts[0].SourcePosition
 		}
@@ -125,6 +126,7 @@ func Prepend(ast Ast) TransformerFn {
 // Append a AST to the AST slice.
 func Push(ast Ast) TransformerFn {
 	return func(_ ParserContext, asts AstSlice) (AstSlice, error) {
+		ast := ast
 		if 0 < len(asts) {
 			ast.SourcePosition = asts[len(asts)-1].SourcePosition
 		}
-- 
2.43.0


From 949ce97d7ad236e10dba60385cfbcd1567c5e077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 11/27] fix: ASTs carried the length of the previous token
 instead of their own

---
 base/parsers.go   |  2 +-
 object/parsers.go | 10 +++++-----
 string/parsers.go | 34 +++++++++++++++++-----------------
 3 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index 5cef4de..cedc595 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -53,11 +53,11 @@ func Zero(astsToInsert ...Ast) ParserFn {
 	const ClassName = clsz.Zero
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
 		savedLen := len(ctx.AstStack)
+		ctx.Length = 0
 		ctx.AstStack = append(ctx.AstStack, astsToInsert...)
 		for i := 0; i < len(astsToInsert); i++ {
 			ctx.AstStack[savedLen+i].SourcePosition = ctx.SourcePosition
 		}
-		ctx.Length = 0
 		ctx.MatchStatus = MatchStatus_Matched
 		return ctx, nil
 	})
diff --git a/object/parsers.go b/object/parsers.go
index f1d9977..8e4bfc4 100644
--- a/object/parsers.go
+++ b/object/parsers.go
@@ -17,7 +17,7 @@ func Any() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_Any,
 				Value:          w,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 			})
 			ctx.Position += 1
 			ctx.Length = 1
@@ -60,7 +60,7 @@ func Seq(seq ...interface{}) ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_ListOfAny,
 				Value:          w,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -84,7 +84,7 @@ func ObjClass(oc ...interface{}) ParserFn {
 						ClassName:      ClassName,
 						Type:           AstType_Any,
 						Value:          w,
-						SourcePosition: ctx.SourcePosition,
+						SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 					})
 					ctx.Position += 1
 					ctx.Length = 1
@@ -115,7 +115,7 @@ func ObjClassN(oc ...interface{}) ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_Any,
 				Value:          w,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 			})
 			ctx.Position += 1
 			ctx.Length = 1
@@ -139,7 +139,7 @@ func ObjClassFn(fn func(c interface{}) bool) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_Any,
 					Value:          w,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: 1},
 				})
 				ctx.Position += 1
 				ctx.Length = 1
diff --git a/string/parsers.go b/string/parsers.go
index ded0a56..e609bd2 100644
--- a/string/parsers.go
+++ b/string/parsers.go
@@ -24,7 +24,7 @@ func Any() ParserFn {
 			ClassName:      ClassName,
 			Type:           AstType_String,
 			Value:          s,
-			SourcePosition: ctx.SourcePosition,
+			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 		})
 		ctx.Position += length
 		ctx.Length = length
@@ -63,7 +63,7 @@ func Seq(s string) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_String,
 					Value:          w,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 				})
 				ctx.Position += length
 				ctx.Length = length
@@ -88,7 +88,7 @@ func SeqI(s string) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_String,
 					Value:          w,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 				})
 				ctx.Position += length
 				ctx.Length = length
@@ -117,7 +117,7 @@ func CharRange(cr ...RuneRange) ParserFn {
 					ClassName:      ClassName,
 					Type:           AstType_String,
 					Value:          s,
-					SourcePosition: ctx.SourcePosition,
+					SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 				})
 				ctx.Position += length
 				ctx.Length = length
@@ -150,7 +150,7 @@ func CharRangeN(cr ...RuneRange) ParserFn {
 			ClassName:      ClassName,
 			Type:           AstType_String,
 			Value:          s,
-			SourcePosition: ctx.SourcePosition,
+			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 		})
 		ctx.Position += length
 		ctx.Length = length
@@ -174,7 +174,7 @@ func CharClass(cc ...string) ParserFn {
 						ClassName:      ClassName,
 						Type:           AstType_String,
 						Value:          w,
-						SourcePosition: ctx.SourcePosition,
+						SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 					})
 					ctx.Position += length
 					ctx.Length = length
@@ -213,7 +213,7 @@ func CharClassN(cc ...string) ParserFn {
 			ClassName:      ClassName,
 			Type:           AstType_String,
 			Value:          s,
-			SourcePosition: ctx.SourcePosition,
+			SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 		})
 		ctx.Position += length
 		ctx.Length = length
@@ -240,7 +240,7 @@ func CharClassFn(fn func(c rune) bool) ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -267,7 +267,7 @@ func Whitespace() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -294,7 +294,7 @@ func WhitespaceNoLineBreak() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -321,7 +321,7 @@ func LineBreak() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -348,7 +348,7 @@ func Alpha() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -375,7 +375,7 @@ func Number() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -402,7 +402,7 @@ func Alnum() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -429,7 +429,7 @@ func BinNumber() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -456,7 +456,7 @@ func OctNumber() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
@@ -483,7 +483,7 @@ func HexNumber() ParserFn {
 				ClassName:      ClassName,
 				Type:           AstType_String,
 				Value:          s,
-				SourcePosition: ctx.SourcePosition,
+				SourcePosition: SourcePosition{Position: ctx.Position, Length: length},
 			})
 			ctx.Position += length
 			ctx.Length = length
-- 
2.43.0


From 14c684c7a201d8294baa3506d37d055f031ce72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:52 +0000
Subject: [PATCH 12/27] fix: BaseParser dropped the error of the final
 implementation function call

---
 base/base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index b714567..d6a8ba2 100644
--- a/base/base.go
+++ b/base/base.go
@@ -143,7 +143,7 @@ func BaseParser(
 		}
 
 		if MatchStatus_Unmatched <= out.MatchStatus {
-			return out, nil
+			return out, err
 		}
 
 		if rewind {
-- 
2.43.0


From de84d4c5beb3ef09208e302496ce94a59d491711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 13/27] fix: data race in Indirect when a parser is shared by
 goroutines

---
 base/parsers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/parsers.go b/base/parsers.go
index cedc595..efedae7 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -2,6 +2,7 @@ package parser
 
 import (
 	"errors"
+	"sync"
 
 	clsz "github.com/shellyln/takenoco/base/classes"
 )
@@ -10,11 +11,10 @@ import (
 // but by delaying them at runtime.
 func Indirect(fn func() ParserFn) ParserFn {
 	const ClassName = clsz.Indirect
+	var once sync.Once
 	var parser ParserFn
 	return LightBaseParser(ClassName, func(ctx ParserContext) (ParserContext, error) {
-		if parser == nil {
-			parser = fn()
-		}
+		once.Do(func() { parser = fn() })
 		return parser(ctx)
 	})
 }
-- 
2.43.0


From e25da5f87843def1b1708c255bf7c88a3c73136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:55 +0000
Subject: [PATCH 14/27] fix: "._" was matched as a number that has no digit

---
 extra/extra.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extra/extra.go b/extra/extra.go
index fa1bab7..fb7fb83 100644
--- a/extra/extra.go
+++ b/extra/extra.go
@@ -126,7 +126,8 @@ func FloatNumberStr() ParserFn {
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."), ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(), ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 					ZeroOrOnce(exponentStr()),
 				),
 				FlatGroup(
@@ -169,7 +170,8 @@ func NumericStr() ParserFn {
 					ZeroOrOnce(CharClass("."), ZeroOrMoreTimes(First(Number(), erase(CharClass("_"))))),
 				),
 				FlatGroup(
-					CharClass("."), OneOrMoreTimes(First(Number(), erase(CharClass("_")))),
+					CharClass("."), ZeroOrMoreTimes(erase(CharClass("_"))),
+					Number(), ZeroOrMoreTimes(First(Number(), erase(CharClass("_")))),
 				),
 			),
 			ZeroOrOnce(exponentStr()),
-- 
2.43.0


From bd33d6ccb09bcd201ae38cd2a854af06e165085a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 15/27] fix: matched look-around assertions returned the match
 status of the incoming context

---
 base/base.go    | 1 +
 base/parsers.go | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/base.go b/base/base.go
index d6a8ba2..2e69637 100644
--- a/base/base.go
+++ b/base/base.go
@@ -148,6 +148,7 @@ func BaseParser(
 
 		if rewind {
 			out = ctx
+			out.MatchStatus = MatchStatus_Matched
 		}
 
 		if tr != nil {
diff --git a/base/parsers.go b/base/parsers.go
index efedae7..f020570 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -145,7 +145,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				} else {
 					out = ctx
 					out.MatchStatus = MatchStatus_Matched
-					return ctx, nil
+					return out, nil
 				}
 			}
 		}
-- 
2.43.0


From 63daf6270cac14c23da3b461730dcd0971b1d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:58 +0000
Subject: [PATCH 16/27] fix: look-behind assertions ignored the error status
 that has no error value

---
 base/parsers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/parsers.go b/base/parsers.go
index f020570..d3e988d 100644
--- a/base/parsers.go
+++ b/base/parsers.go
@@ -135,7 +135,7 @@ func lookBehindBase(negative bool, minN, maxN int, children ...ParserFn) ParserF
 				continue
 			}
 			out, err := parser(out)
-			if err != nil {
+			if err != nil || out.MatchStatus == MatchStatus_Error {
 				return out, err
 			}
 			if out.MatchStatus == MatchStatus_Matched {
-- 
2.43.0


From 09a64a8ae657c382e56db92b56d78e3cdd4c9bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 17/27] fix: CSV parser dropped escaped quotation marks in
 quoted cells

---
 README.md               | 2 +-
 _examples/csv/parser.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index e428564..0086920 100644
--- a/README.md
+++ b/README.md
@@ -82,7 +82,7 @@ func quotedCell() ParserFn {
                 erase(Seq("\"")),
                 ZeroOrMoreTimes(
                     First(
-                        erase(Seq("\"\"")),
+                        Trans(Seq("\"\""), SetValue(AstType_String, "\"")),
                         CharClassN("\""),
                     ),
                 ),
diff --git a/_examples/csv/parser.go b/_examples/csv/parser.go
index 2bb5259..1855da7 100644
--- a/_examples/csv/parser.go
+++ b/_examples/csv/parser.go
@@ -39,7 +39,7 @@ func quotedCell() ParserFn {
 				erase(Seq("\"")),
 				ZeroOrMoreTimes(
 					First(
-						erase(Seq("\"\"")),
+						Trans(Seq("\"\""), SetValue(AstType_String, "\"")),
 						CharClassN("\""),
 					),
 				),
-- 
2.43.0


From a47714f128c3063ef3becedbd8014641a339c412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 18/27] fix: ToCsv and Marshal did not quote cells that the CSV
 parser unquotes or trims

---
 _examples/csv/marshal.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 4493d3d..aaf5292 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -14,6 +14,8 @@ func toCsvRow(sb *strings.Builder, row []string) {
 			sb.WriteString(",")
 		}
 		if 0 <= strings.IndexRune(row[i], ',') ||
+			0 <= strings.IndexRune(row[i], '"') ||
+			strings.TrimSpace(row[i]) != row[i] ||
 			0 <= strings.IndexRune(row[i], '\u000a') ||
 			0 <= strings.IndexRune(row[i], '\u000b') ||
 			0 <= strings.IndexRune(row[i], '\u000c') ||
-- 
2.43.0


From b772fc4016478f01ee4823f2f3ca5500f56228e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 19/27] fix: csv.Marshal wrote fields of unselected columns to
 the first column

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index aaf5292..524bff8 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -99,7 +99,10 @@ func Marshal(cols []string, a interface{}) (string, error) {
 		}
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(k)
-			index := columns[v]
+			index, ok := columns[v]
+			if !ok {
+				continue
+			}
 			switch colTypes[k] {
 			case reflect.String:
 				rowBuf[index] = rvf.String()
-- 
2.43.0


From f10423e030cdc9291061d2166aa0a561cfd1bff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 20/27] fix: csv.Unmarshal panicked on a row that is shorter
 than the header

---
 _examples/csv/marshal.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 524bff8..02ff491 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -194,7 +194,10 @@ func Unmarshal(pa interface{}, s string) error {
 		rvi := slice.Index(i)
 		for k, v := range mapping {
 			rvf := rvi.FieldByName(v)
-			w := data[i+1][columns[k]] // TODO: check slice length
+			if len(data[i+1]) <= columns[k] {
+				return errors.New("Too few columns in row " + strconv.Itoa(i+1))
+			}
+			w := data[i+1][columns[k]]
 			switch colTypes[k] {
 			case reflect.String:
 				rvf.SetString(w)
-- 
2.43.0


From 59374a4d61863dfc187fd4e3aa482fce1397aa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:30 +0000
Subject: [PATCH 21/27] fix: formula.Parse panicked on division by zero

---
 _examples/formula/precedence.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/_examples/formula/precedence.go b/_examples/formula/precedence.go
index 2c73dff..5ca596e 100644
--- a/_examples/formula/precedence.go
+++ b/_examples/formula/precedence.go
@@ -1,6 +1,8 @@
 package formula
 
 import (
+	"errors"
+
 	. "github.com/shellyln/takenoco/base"
 	objparser "github.com/shellyln/takenoco/object"
 )
@@ -52,6 +54,9 @@ var expressionRule2 = Precedence{
 				case "*":
 					v = op1 * op2
 				case "/":
+					if op2 == 0 {
+						return nil, errors.New("Division by zero")
+					}
 					v = op1 / op2
 				}
 
-- 
2.43.0


From e8f081f1b2357484a70503b4c1ca829433ad8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:32 +0000
Subject: [PATCH 22/27] fix: setting nil to a Box deleted the map entry or
 panicked

---
 base/box.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/base/box.go b/base/box.go
index ee6fdd6..fd50442 100644
--- a/base/box.go
+++ b/base/box.go
@@ -49,6 +49,14 @@ type Box interface {
 	ComplexMapIndex(k interface{}) Box
 }
 
+// Get reflect.Value of v. A nil is converted to the zero value of the type t.
+func reflectValueOf(v interface{}, t reflect.Type) reflect.Value {
+	if v == nil {
+		return reflect.Zero(t)
+	}
+	return reflect.ValueOf(v)
+}
+
 // Implements the interface Box. Abstraction of reflect.Value.
 type ReflectionBox struct {
 	Val reflect.Value
@@ -96,7 +104,7 @@ func (s ReflectionBox) GetBytes() []byte {
 
 //
 func (s ReflectionBox) SetAny(v interface{}) {
-	s.Val.Set(reflect.ValueOf(v))
+	s.Val.Set(reflectValueOf(v, s.Val.Type()))
 }
 
 //
@@ -197,7 +205,7 @@ func (s MapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (s MapContainerReflectionBox) SetAny(v interface{}) {
-	s.Container.SetMapIndex(s.Key, reflect.ValueOf(v))
+	s.Container.SetMapIndex(s.Key, reflectValueOf(v, s.Container.Type().Elem()))
 }
 
 //
@@ -326,7 +334,7 @@ func (p *NotInitializedMapContainerReflectionBox) GetBytes() []byte {
 
 //
 func (p *NotInitializedMapContainerReflectionBox) SetAny(v interface{}) {
-	p.Container.SetMapIndex(p.Key, reflect.ValueOf(v))
+	p.Container.SetMapIndex(p.Key, reflectValueOf(v, p.Container.Type().Elem()))
 	p.Initialized = true
 }
 
-- 
2.43.0


From f5b706955301c65e5f4e897b8ac345a12a56a060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 23/27] fix: character conversions wrapped out-of-range
 integers and panicked on empty or other lists

---
 string/transformers.go | 51 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 4 deletions(-)

diff --git a/string/transformers.go b/string/transformers.go
index 333dae2..c92274b 100644
--- a/string/transformers.go
+++ b/string/transformers.go
@@ -152,13 +152,44 @@ func ParseFloat(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 	return asts, nil
 }
 
+// Get the integer value of the first AST as a character.
+func runeValueFromInt(asts AstSlice) (rune, error) {
+	if len(asts) == 0 {
+		return 0, errors.New("Transformer:runeValueFromInt: No source")
+	}
+	num, ok := asts[0].Value.(int64)
+	if !ok {
+		return 0, errors.New("Transformer:runeValueFromInt: Bad source type:" + asts[0].Type.String())
+	}
+	if int64(rune(num)) != num {
+		return 0, errors.New("Transformer:runeValueFromInt: Out of range:" + strconv.FormatInt(num, 10))
+	}
+	return rune(num), nil
+}
+
+// Get the character value of the first AST.
+func runeValue(asts AstSlice) (rune, error) {
+	if len(asts) == 0 {
+		return 0, errors.New("Transformer:runeValue: No source")
+	}
+	ch, ok := asts[0].Value.(rune)
+	if !ok {
+		return 0, errors.New("Transformer:runeValue: Bad source type:" + asts[0].Type.String())
+	}
+	return ch, nil
+}
+
 // Transform the result AST array.
 // Convert integer to character.
 func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+	num, err := runeValueFromInt(asts)
+	if err != nil {
+		return nil, err
+	}
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
 		Type:           AstType_Any,
-		Value:          rune(asts[0].Value.(int64)),
+		Value:          num,
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
 }
@@ -166,10 +197,14 @@ func RuneFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 // Transform the result AST array.
 // Convert character to integer.
 func IntFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+	ch, err := runeValue(asts)
+	if err != nil {
+		return nil, err
+	}
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
 		Type:           AstType_Int,
-		Value:          int64(asts[0].Value.(rune)),
+		Value:          int64(ch),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
 }
@@ -177,10 +212,14 @@ func IntFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 // Transform the result AST array.
 // Convert integer to string.
 func StringFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+	num, err := runeValueFromInt(asts)
+	if err != nil {
+		return nil, err
+	}
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
 		Type:           AstType_String,
-		Value:          string(rune(asts[0].Value.(int64))),
+		Value:          string(num),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
 }
@@ -188,10 +227,14 @@ func StringFromInt(ctx ParserContext, asts AstSlice) (AstSlice, error) {
 // Transform the result AST array.
 // Convert character to string.
 func StringFromRune(ctx ParserContext, asts AstSlice) (AstSlice, error) {
+	ch, err := runeValue(asts)
+	if err != nil {
+		return nil, err
+	}
 	return AstSlice{{
 		ClassName:      asts[0].ClassName,
 		Type:           AstType_String,
-		Value:          string(asts[0].Value.(rune)),
+		Value:          string(ch),
 		SourcePosition: asts[0].SourcePosition,
 	}}, nil
 }
-- 
2.43.0


From a8aa308473973f13cae1910cac6d4edddcbf26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:44 +0000
Subject: [PATCH 24/27] fix: the Unicode word boundary did not take the dollar
 sign as a word character

---
 extra/util.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra/util.go b/extra/util.go
index 44fedc3..1d59949 100644
--- a/extra/util.go
+++ b/extra/util.go
@@ -6,7 +6,7 @@ import "unicode"
 func isUnicodeWord(r rune) bool {
 	// ID_Continue + '$' + U+200C + U+200D
 	// Alnum(), '_', '$', and ...
-	return (unicode.Is(unicode.L, r) ||
+	return r == '$' || (unicode.Is(unicode.L, r) ||
 		unicode.Is(unicode.Nl, r) ||
 		unicode.Is(unicode.Other_ID_Start, r) ||
 		unicode.Is(unicode.Mn, r) ||
@@ -14,7 +14,7 @@ func isUnicodeWord(r rune) bool {
 		unicode.Is(unicode.Nd, r) ||
 		unicode.Is(unicode.Pc, r) ||
 		unicode.Is(unicode.Other_ID_Continue, r) ||
-		r == '$' || r == 0x0200c || r == 0x0200d) &&
+		r == 0x0200c || r == 0x0200d) &&
 		!unicode.Is(unicode.Pattern_Syntax, r) &&
 		!unicode.Is(unicode.Pattern_White_Space, r)
 }
-- 
2.43.0


From 75a2bcc21dc3a30fc821520727b8328bf3bd01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 25/27] fix: ProductionRule took the error status of a rule
 that has no error value for not matched

---
 base/production.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/production.go b/base/production.go
index d21ad39..5932630 100644
--- a/base/production.go
+++ b/base/production.go
@@ -47,6 +47,9 @@ func ProductionRule(precedences []Precedence, check ParserFn) TransformerFn {
 						if err != nil {
 							return nil, err
 						}
+						if out.MatchStatus == MatchStatus_Error {
+							return nil, errors.New("A production rule returned the error status.")
+						}
 						if out.MatchStatus >= MatchStatus_Unmatched {
 							continue
 						}
-- 
2.43.0


From 766400f5591ad572476bd7b0870d3587416f1b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 26/27] fix: csv.Unmarshal read an untagged field from a column
 without a name

---
 _examples/csv/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index 02ff491..bdd3478 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -176,6 +176,9 @@ func Unmarshal(pa interface{}, s string) error {
 		for j := 0; j < rti.NumField(); j++ {
 			rtf := rti.Field(j)
 			tag := rtf.Tag.Get("csv")
+			if tag == "" {
+				tag = rtf.Name
+			}
 			if _, ok := columns[tag]; ok {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
-- 
2.43.0


From 2223e66102cc6a13b71e2386da63f86832d0491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:01 +0000
Subject: [PATCH 27/27] fix: csv.Unmarshal read a column into a field of that
 name instead of the field tagged with it

---
 _examples/csv/marshal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/_examples/csv/marshal.go b/_examples/csv/marshal.go
index bdd3478..81c1d0b 100644
--- a/_examples/csv/marshal.go
+++ b/_examples/csv/marshal.go
@@ -182,6 +182,9 @@ func Unmarshal(pa interface{}, s string) error {
 			if _, ok := columns[tag]; ok {
 				mapping[tag] = rtf.Name
 				colTypes[tag] = rtf.Type.Kind()
+			} else if _, ok := mapping[rtf.Name]; ok {
+				// The column belongs to the field whose tag names it.
+				continue
 			} else if _, ok := columns[rtf.Name]; ok {
 				mapping[rtf.Name] = rtf.Name
 				colTypes[rtf.Name] = rtf.Type.Kind()
-- 
2.43.0

