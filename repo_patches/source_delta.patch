From f1e550c59b87f319c0378eab256c601c2fa02686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:18 +0000
Subject: [PATCH 01/56] fix: PUSH_STRING reads its operand with the width it
 was written with

The code generator writes a Tiny_ConstantIndex, the VM read a Tiny_Int, so any
program using more than 256 distinct strings read garbage.
---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..fd5411c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1217,7 +1217,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From 3777e339753f88b38dd836c67cd29309e64c2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 02/56] fix: only use ADD1/SUB1 when the left operand is an int

Adding the literal 1 to a float incremented the bits of the double.
---
 tiny/src/tiny.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fd5411c..c1e5d46 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3282,7 +3282,8 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_PLUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                        exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
                         GenerateCode(state, TINY_OP_ADD1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3293,7 +3294,8 @@ static void CompileExpr(Tiny_State *state, Tiny_Expr *exp) {
                 case TINY_TOK_MINUS: {
                     CompileExpr(state, exp->binary.lhs);
 
-                    if (exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
+                    if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                        exp->binary.rhs->type == TINY_EXP_INT && exp->binary.rhs->iValue == 1) {
                         GenerateCode(state, TINY_OP_SUB1);
                     } else {
                         CompileExpr(state, exp->binary.rhs);
@@ -3658,7 +3660,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_PLUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
+                            if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                                exp->binary.rhs->type == TINY_EXP_INT &&
                                 exp->binary.rhs->iValue == 1) {
                                 GenerateCode(state, TINY_OP_ADD1);
                             } else {
@@ -3670,7 +3673,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         case TINY_TOK_MINUSEQUAL: {
                             CompileGetLHS(state, exp->binary.lhs);
 
-                            if (exp->binary.rhs->type == TINY_EXP_INT &&
+                            if (exp->binary.lhs->tag->type == TINY_SYM_TAG_INT &&
+                                exp->binary.rhs->type == TINY_EXP_INT &&
                                 exp->binary.rhs->iValue == 1) {
                                 GenerateCode(state, TINY_OP_SUB1);
                             } else {
-- 
2.43.0


From 44147d11b71fdd9ecd30cde23d3f157e8e26c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 03/56] fix: Tiny_NewInt keeps all 64 bits of a Tiny_Int

---
 tiny/include/tiny.h | 2 +-
 tiny/src/tiny.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..8b56fb6 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -183,7 +183,7 @@ extern Tiny_Context Tiny_DefaultContext;
 void Tiny_ProtectFromGC(Tiny_Value value);
 
 Tiny_Value Tiny_NewBool(bool value);
-Tiny_Value Tiny_NewInt(int i);
+Tiny_Value Tiny_NewInt(Tiny_Int i);
 Tiny_Value Tiny_NewFloat(Tiny_Float f);
 Tiny_Value Tiny_NewConstString(const char *string);
 Tiny_Value Tiny_NewLightNative(void *ptr);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c1e5d46..9a969c7 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -353,7 +353,7 @@ Tiny_Value Tiny_NewBool(bool value) {
     return val;
 }
 
-Tiny_Value Tiny_NewInt(int i) {
+Tiny_Value Tiny_NewInt(Tiny_Int i) {
     Tiny_Value val;
 
     val.type = TINY_VAL_INT;
-- 
2.43.0


From 5d8b0c311456db5871e6283e5cc2742ae0a7124d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 04/56] fix: report unterminated string literals instead of
 reading past the text

The scanner kept appending NULs forever (and skipped the terminator after a
trailing backslash).
---
 tiny/src/lexer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..5745454 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -272,6 +272,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         while (l->last != '"') {
             CHECK_ESCAPE();
 
+            if (l->last == 0) {
+                l->errorMsg = "Expected \" to close previous \".";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
-- 
2.43.0


From 6eee986698ffe8729cc277b13903b8108031c49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:32 +0000
Subject: [PATCH 05/56] fix: number literals keep their exact value

The lexer and AST stored them as int/float although script values are
Tiny_Int/Tiny_Float, silently truncating 64-bit integers and rounding 0.1 to
single precision.
---
 tiny/include/expr.h  | 4 ++--
 tiny/include/lexer.h | 4 ++--
 tiny/src/lexer.c     | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/tiny/include/expr.h b/tiny/include/expr.h
index 7292418..7bd4a8e 100644
--- a/tiny/include/expr.h
+++ b/tiny/include/expr.h
@@ -59,8 +59,8 @@ typedef struct Tiny_Expr {
     union {
         bool boolean;
 
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
         int sIndex;
 
         struct {
diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index 2692028..ae10e84 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -22,8 +22,8 @@ typedef struct {
 
     union {
         bool bValue;
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
     };
 
     const char *errorMsg;
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 5745454..a56c22c 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -206,13 +206,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         sb_push(&l->ctx, l->lexeme, 0);
 
         if (isFloat) {
-            l->fValue = (float)strtod(l->lexeme, NULL);
+            l->fValue = (Tiny_Float)strtod(l->lexeme, NULL);
         } else if (isHex) {
-            int64_t value = strtoll(l->lexeme, NULL, 16);
-
-            l->iValue = (int)value;
+            l->iValue = (Tiny_Int)strtoull(l->lexeme, NULL, 16);
         } else {
-            l->iValue = strtol(l->lexeme, NULL, 10);
+            l->iValue = (Tiny_Int)strtoll(l->lexeme, NULL, 10);
         }
 
         return isFloat ? TINY_TOK_FLOAT : TINY_TOK_INT;
-- 
2.43.0


From f064fee42b51cf2724c8280657326e659040cd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:34 +0000
Subject: [PATCH 06/56] fix: reject calls to script functions with too few
 arguments

The frame layout assumes every parameter was pushed; a missing one made the
callee read and pop the caller's values.
---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9a969c7..964b4b2 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3099,6 +3099,13 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->foreignFunc.index);
     } else {
+        int fNargs = sb_count(fn->func.args);
+
+        if (fNargs != nargs) {
+            ReportErrorE(state, errorExp, "Function '%s' expects %d args but you supplied %d.\n",
+                         fn->name, fNargs, nargs);
+        }
+
         GenerateCode(state, TINY_OP_CALL);
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->func.index);
-- 
2.43.0


From 392826ab8b25b861579d3d7a64bd91c9dca5e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 07/56] fix: error messages print names instead of string node
 memory

---
 tiny/src/tiny.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 964b4b2..828ae82 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2557,7 +2557,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3115,7 +3115,8 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n",
+                         exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3193,14 +3194,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3729,7 +3730,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3741,7 +3742,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
-- 
2.43.0


From 546a7813f694a6bba2076da24b9803616a71cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 08/56] fix: constructors must initialize every field exactly
 once

A constructor with missing or repeated fields compiled to a PUSH_STRUCT that
popped values the expression never pushed.
---
 tiny/src/tiny.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 828ae82..e1725df 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2916,6 +2916,17 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                          GetTagName(argNode->tag));
                         }
 
+                        for (Tiny_StringNode *prev = exp->constructor.argNamesHead;
+                             prev != nameNode; prev = prev->next) {
+                            if (strcmp(prev->value, nameNode->value) == 0) {
+                                ReportErrorE(state, argNode,
+                                             "Field '%s' of struct %s is initialized more than "
+                                             "once.",
+                                             nameNode->value,
+                                             GetTagName(exp->constructor.structTag));
+                            }
+                        }
+
                         found = true;
                         break;
                     }
@@ -2946,6 +2957,12 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
             }
 
+            if (i != tagCount) {
+                ReportErrorE(state, exp,
+                             "struct %s constructor expects %d args but you supplied %d.",
+                             GetTagName(exp->constructor.structTag), tagCount, i);
+            }
+
             exp->tag = exp->constructor.structTag;
         } break;
 
-- 
2.43.0


From 4630f63707cab73ed559074c093a444ae9652802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 09/56] fix: report a variable used in its own initializer

Its type was read from uninitialized memory.
---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e1725df..5491c96 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -833,6 +833,7 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
 
     newNode->var.initialized = false;
     newNode->var.index = state->numGlobalVars;
+    newNode->var.tag = NULL;
     newNode->var.scope = 0;  // Global variable scope don't matter
     newNode->var.scopeEnded = false;
 
@@ -898,6 +899,7 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
     newNode->var.initialized = false;
     newNode->var.scopeEnded = false;
     newNode->var.index = sb_count(state->currFunc->func.locals);
+    newNode->var.tag = NULL;
     newNode->var.scope = state->currScope;
 
     sb_push(&state->ctx, state->currFunc->func.locals, newNode);
@@ -2528,7 +2530,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "Variable '%s' is used in its own initializer.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From c1061ce8244a18732db7112a70e4891293455c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 10/56] fix: compound assignment requires numeric operands

str += str, any *= any, float %= float and the like compiled and operated on
the raw bits of the values.
---
 tiny/src/tiny.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 5491c96..9c9e0e2 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2733,6 +2733,23 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.op != TINY_TOK_EQUAL) {
+                        bool iLhs = exp->binary.lhs->tag->type == TINY_SYM_TAG_INT;
+                        bool fLhs = exp->binary.lhs->tag->type == TINY_SYM_TAG_FLOAT;
+
+                        bool intOnly = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
+                                       exp->binary.op == TINY_TOK_OREQUAL ||
+                                       exp->binary.op == TINY_TOK_ANDEQUAL;
+
+                        if (!iLhs && (intOnly || !fLhs)) {
+                            ReportErrorE(state, exp,
+                                         "Left hand side of compound assignment must be an %s, but "
+                                         "it's a %s",
+                                         intOnly ? "int" : "int or float",
+                                         GetTagName(exp->binary.lhs->tag));
+                        }
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
-- 
2.43.0


From c0db919c48a5b42f9aa2c9c01b88c5e4e9707ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 11/56] fix: report use of a struct that was only ever named in
 a host binding

The check for undefined structs covers symbols created by the text being
compiled; one created earlier by Tiny_BindFunction hit an assertion.
---
 tiny/src/tiny.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9c9e0e2..3c71ecd 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2885,6 +2885,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 ReportErrorE(state, exp, "Cannot use '.' on a %s", GetTagName(exp->dot.lhs->tag));
             }
 
+            if (!exp->dot.lhs->tag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->dot.lhs->tag));
+            }
+
             exp->tag = GetFieldTag(exp->dot.lhs->tag, exp->dot.field->value, NULL);
 
             if (!exp->tag) {
@@ -2894,7 +2899,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         } break;
 
         case TINY_EXP_CONSTRUCTOR: {
-            assert(exp->constructor.structTag->sstruct.defined);
+            if (!exp->constructor.structTag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->constructor.structTag));
+            }
 
             int tagCount = sb_count(exp->constructor.structTag->sstruct.fields);
 
-- 
2.43.0


From c1cc9c450d807092f2355318841b1b9219ed1ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 12/56] fix: reject break and continue that are not inside a
 loop

They compiled to an unpatched jump to address 0. Function bodies, top-level
statements and for initializers/steps are now checked with the existing error.
---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3c71ecd..58db55c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3847,6 +3847,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             if (exp->proc.body) {
                 CompileStatement(state, exp->proc.body);
+
+                // Anything not inside a loop in this function has nothing to jump to
+                PatchBreakContinue(state, exp->proc.body, -1, -1);
             }
 
             GenerateCode(state, TINY_OP_RETURN);
@@ -3908,6 +3911,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
 
             PatchBreakContinue(state, exp->forx.body, sb_count(state->program), stepPc);
+
+            PatchBreakContinue(state, exp->forx.init, -1, -1);
+            PatchBreakContinue(state, exp->forx.step, -1, -1);
         } break;
 
         case TINY_EXP_RETURN: {
@@ -3939,6 +3945,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 static void CompileProgram(Tiny_State *state, Tiny_Expr *progHead) {
     for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {
         CompileStatement(state, exp);
+        PatchBreakContinue(state, exp, -1, -1);
     }
 }
 
-- 
2.43.0


From a166ad56a7a48c98b649adffd3ddc07f9564672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:31 +0000
Subject: [PATCH 13/56] fix: set the position field of compile errors

Tiny_CompileResult.error.pos was returned uninitialized.
---
 tiny/src/tiny.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 58db55c..0f92f07 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -46,6 +46,8 @@ static void ReportErrorL(Tiny_State *state, Tiny_Lexer *l, const char *s, ...) {
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
 
+    state->compileErrorResult.error.pos = l->pos;
+
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), l->fileName, l->src, l->pos, s,
                       args);
@@ -61,6 +63,8 @@ static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
 
+    state->compileErrorResult.error.pos = state->l.pos;
+
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
                       state->l.pos, s, args);
@@ -1471,6 +1475,8 @@ static void ReportErrorE(Tiny_State *state, const Tiny_Expr *exp, const char *s,
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
 
+    state->compileErrorResult.error.pos = exp->pos;
+
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
                       exp->pos, s, args);
@@ -1486,6 +1492,8 @@ static void ReportErrorS(Tiny_State *state, const Tiny_Symbol *sym, const char *
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
 
+    state->compileErrorResult.error.pos = sym->pos;
+
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
                       sym->pos, s, args);
-- 
2.43.0


From d44178fa3dc7bfe192145f252074c1e5ef5425a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:55 +0000
Subject: [PATCH 14/56] fix: a failed compilation restores everything it
 changed

Besides symbols and code length, put back the scope, current function (which
dangled), counters, strings, file/line records, structs defined by the failed
text, and the HALT that code generation overwrites.
---
 tiny/src/tiny.c | 67 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 0f92f07..471bf1f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4047,6 +4047,31 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
 
+    // Everything else that must be put back if compilation fails
+    int startScope = state->currScope;
+    Tiny_Symbol *startFunc = state->currFunc;
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+    int startNumStrings = state->numStrings;
+    int startNumFileLines = sb_count(state->pcToFileLine);
+
+    // The last record is updated in place if the code it describes was empty
+    Tiny_PCToFileLine startLastFileLine = {0};
+    if (startNumFileLines > 0) {
+        startLastFileLine = state->pcToFileLine[startNumFileLines - 1];
+    }
+
+    // Structs which were referenced but not defined before this compilation; it might define them
+    Tiny_Symbol **undefinedStructs = NULL;  // array
+    for (int i = 0; i < firstSymIndex; ++i) {
+        Tiny_Symbol *s = state->globalSymbols[i];
+
+        if (s->type == TINY_SYM_TAG_STRUCT && !s->sstruct.defined) {
+            sb_push(&state->ctx, undefinedStructs, s);
+        }
+    }
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -4072,6 +4097,46 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
             stb__sbn(state->program) = startCodeLen;
         }
 
+        if (startCodeLen > 0) {
+            // Might've been overwritten by the code of the failed program
+            state->program[startCodeLen - 1] = TINY_OP_HALT;
+        }
+
+        for (int i = 0; i < sb_count(undefinedStructs); ++i) {
+            Tiny_Symbol *s = undefinedStructs[i];
+
+            for (int j = 0; j < sb_count(s->sstruct.fields); ++j) {
+                Symbol_destroy(s->sstruct.fields[j], &state->ctx);
+            }
+
+            sb_free(&state->ctx, s->sstruct.fields);
+
+            s->type = TINY_SYM_TAG_STRUCT;
+            s->sstruct.defined = false;
+            s->sstruct.fields = NULL;
+        }
+
+        sb_free(&state->ctx, undefinedStructs);
+
+        for (int i = startNumStrings; i < state->numStrings; ++i) {
+            TFree(&state->ctx, state->strings[i]);
+        }
+
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startNumFileLines;
+        }
+
+        if (startNumFileLines > 0) {
+            state->pcToFileLine[startNumFileLines - 1] = startLastFileLine;
+        }
+
+        state->currScope = startScope;
+        state->currFunc = startFunc;
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+        state->numStrings = startNumStrings;
+
         state->l = prevLexer;
         state->parserArena = prevParserArena;
         --state->compileCallNestCount;
@@ -4142,6 +4207,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                      lastSymIndex);  // Done after compilation because it might have registered
                                      // undefined functions during the compilation stage
 
+    sb_free(&state->ctx, undefinedStructs);
+
     Tiny_DestroyLexer(&state->l);
 
     // Deletes all the parser data in one go, no deletion chores required
-- 
2.43.0


From e254d64dadfa886f3a5915164e4c20858e88197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:17 +0000
Subject: [PATCH 15/56] fix: don't leak parameters and fields when parsing them
 fails

---
 tiny/src/tiny.c | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 471bf1f..9703bf3 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1706,30 +1706,22 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
 
     GetNextToken(state);
 
-    typedef struct {
-        char *name;
-        Tiny_Symbol *tag;
-    } Arg;
-
-    Arg *args = NULL;  // array
-
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
-        Arg arg;
+        // In the parser arena, so it doesn't leak if there's an error below
+        const char *argName = CreateExprStringNode(state, state->l.lexeme)->value;
 
-        arg.name = CloneString(&state->ctx, state->l.lexeme);
         GetNextToken(state);
 
         if (state->l.lastTok != TINY_TOK_COLON) {
-            ReportErrorSL(state, "Expected ':' after %s", arg.name);
+            ReportErrorSL(state, "Expected ':' after %s", argName);
         }
 
         GetNextToken(state);
 
-        arg.tag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, args, arg);
+        // Indices are assigned below, once we know how many there are
+        DeclareArgument(state, argName, ParseTypeSL(state), 0);
 
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
@@ -1740,12 +1732,11 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         if (state->l.lastTok == TINY_TOK_COMMA) GetNextToken(state);
     }
 
-    for (int i = 0; i < sb_count(args); ++i) {
-        DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
-        TFree(&state->ctx, args[i].name);
-    }
+    int nargs = sb_count(exp->proc.decl->func.args);
 
-    sb_free(&state->ctx, args);
+    for (int i = 0; i < nargs; ++i) {
+        exp->proc.decl->func.args[i]->var.index = -nargs + i;
+    }
 
     GetNextToken(state);
 
@@ -1808,13 +1799,14 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
         Tiny_Symbol *f = Symbol_create(TINY_SYM_FIELD, state->l.lexeme, state);
 
+        // Owned by the struct right away so that it's freed if there's an error below
+        sb_push(&state->ctx, s->sstruct.fields, f);
+
         GetExpectTokenSL(state, TINY_TOK_COLON, "Expected ':' after field name.");
 
         GetNextToken(state);
 
         f->fieldTag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, s->sstruct.fields, f);
     }
 
     GetNextToken(state);
-- 
2.43.0


From 782c557d3994aa3d774c64c1e76d446bb6181abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 16/56] fix: off-by-one in the limit on 'use' arguments

The 129th argument was written past the end of the array.
---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9703bf3..14ea065 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4157,9 +4157,10 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= sizeof(args) / sizeof(args[0])) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value,
+                                     (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From f5ab2fb9d74bd58866b32b81b1e109e6d7fb1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 17/56] fix: too many distinct strings is a compile error, not
 an abort

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 14ea065..974c161 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -698,6 +698,10 @@ static int RegisterString(Tiny_State *state, const char *string) {
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
+    if (state->numStrings >= MAX_STRINGS && state->compileCallNestCount > 0) {
+        ReportErrorSL(state, "Exceeded maximum number of strings (%d) allowed.", MAX_STRINGS);
+    }
+
     assert(state->numStrings < MAX_STRINGS);
     state->strings[state->numStrings++] = CloneString(&state->ctx, string);
 
-- 
2.43.0


From 69d9892d8a2f7d254297daa570b460198347cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 18/56] fix: skip comments with a loop instead of recursion

A file with enough consecutive comment lines overflowed the stack.
---
 tiny/src/lexer.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a56c22c..f263bcc 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -42,16 +42,20 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
-    while (isspace(l->last)) {
-        if (l->last == '\n') l->lineNumber++;
-        l->last = GetChar(l);
-    }
+    for (;;) {
+        while (isspace(l->last)) {
+            if (l->last == '\n') l->lineNumber++;
+            l->last = GetChar(l);
+        }
 
-    if (l->last == 0) {
-        return TINY_TOK_EOF;
-    }
+        if (l->last == 0) {
+            return TINY_TOK_EOF;
+        }
+
+        if (l->last != '/' || Peek(l) != '/') {
+            break;
+        }
 
-    if (l->last == '/' && Peek(l) == '/') {
         while (l->last && l->last != '\n') {
             l->last = GetChar(l);
         }
@@ -60,8 +64,6 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
             l->last = GetChar(l);
             l->lineNumber += 1;
         }
-
-        return Tiny_GetToken(l);
     }
 
     if (l->last == '.' && Peek(l) == '.' && Peek2(l) == '.') {
-- 
2.43.0


From ebcc160ca977b0b97205ff437c7cd90502f9d221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 19/56] fix: mark objects before their children so that cycles
 can be collected

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 974c161..e27e1ff 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -135,14 +135,15 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
+    // Mark before visiting children, otherwise cyclic data never terminates
+    obj->marked = 1;
+
     if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
         for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
     }
-
-    obj->marked = 1;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From 86b52bfb5d7e2218336bd6a916d6fb1d6a39b4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 20/56] fix: Tiny_CallFunction keeps the interrupted return
 value alive

It was saved in a C local only, so a collection during the call freed it.
---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e27e1ff..818caad 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -600,6 +600,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // Keep the saved return value reachable in case there's a collection during the call
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From dbebab957982668ed4bfce3ef7f0f7d2c9a63fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 21/56] fix: assert on value stack overflow instead of
 corrupting the thread

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 818caad..a9d2445 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1145,6 +1145,8 @@ static Tiny_Float ReadFloat(Tiny_StateThread *thread) {
 }
 
 static void DoPush(Tiny_StateThread *thread, Tiny_Value value) {
+    assert(thread->sp < TINY_THREAD_STACK_SIZE);
+
     thread->stack[thread->sp++] = value;
 }
 
@@ -1190,6 +1192,8 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_PUSH_NULL_N: {
             ++thread->pc;
             Word n = state->program[thread->pc++];
+            assert(thread->sp + n <= TINY_THREAD_STACK_SIZE);
+
             memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);
             thread->sp += n;
         } break;
-- 
2.43.0


From 4cf583cd79bec7f11739af562dc5a9c286664093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 22/56] fix: compare all bytes of equally long strings

strncmp stopped at an embedded NUL, so different strings compared equal.
---
 tiny/src/tiny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a9d2445..d2383ce 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -246,7 +246,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
@@ -261,7 +261,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.cstr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.cstr, Tiny_ToString(b), aLen) == 0;
     }
 
     return false;
-- 
2.43.0


From 7d3da20fa7ab39538cf005a5200ab0e7d40ae14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 23/56] fix: remember which strings are embedded in their
 object

A separately allocated string that happened to follow its object in memory,
which a caller's allocator may well do, was never freed.
---
 tiny/include/detail.h |  3 +++
 tiny/src/tiny.c       | 14 +++++---------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e41b513..05e3ad1 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -13,6 +13,9 @@ typedef uint8_t Word;
 typedef struct Tiny_Object {
     bool marked;
 
+    // True if string.ptr points into this same allocation
+    bool embeddedString;
+
     Tiny_ValueType type;
     struct Tiny_Object *next;
 
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d2383ce..7e87394 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -101,15 +101,9 @@ static Tiny_StringNode *CreateExprStringNode(Tiny_State *state, const char *str)
 
 static void DeleteObject(Tiny_Context *ctx, Tiny_Object *obj) {
     if (obj->type == TINY_VAL_STRING) {
-        char *internalStr = (char *)obj + sizeof(Tiny_Object);
-
-        if (obj->string.ptr == internalStr) {
-            // FIXME(Apaar): Is it possible for there to be a string which just happens to be
-            // allocated after the object pointer?
-
-            // If the string pointer is directly after the object then it is part of the object
-            // allocation and does not need to be freed separately
-        } else {
+        // If the string is part of the object allocation it does not need to be freed separately.
+        // The address can't tell us: an allocator may well place a separate string there.
+        if (!obj->embeddedString) {
             TFree(ctx, obj->string.ptr);
         }
     } else if (obj->type == TINY_VAL_NATIVE) {
@@ -276,6 +270,7 @@ static Tiny_Object *NewObject(Tiny_StateThread *thread, Tiny_ValueType type) {
     obj->next = thread->gcHead;
     thread->gcHead = obj;
     obj->marked = 0;
+    obj->embeddedString = false;
 
     thread->numObjects++;
 
@@ -292,6 +287,7 @@ static Tiny_Object *NewStringObjectEmbedString(Tiny_StateThread *thread, const c
     obj->next = thread->gcHead;
     thread->gcHead = obj;
     obj->marked = 0;
+    obj->embeddedString = true;
 
     obj->string.len = len;
     obj->string.ptr = (char *)obj + sizeof(Tiny_Object);
-- 
2.43.0


From 4c405241f5fb36e4d5a143d05a1954dd345e6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 24/56] fix: clearing or resizing an array that never held
 anything

Its data is NULL, so writing the count went through a null pointer.
---
 tiny/src/array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..3308202 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -20,7 +20,9 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i] = newValue;
         }
-    } else {
+    } else if (array->data) {
         stb__sbn(array->data) = newLen;
     }
 }
-- 
2.43.0


From 416381249270b1303c049defbdbf9907e6d10493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 25/56] fix: compare array elements without overflow when
 sorting

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..1a7c868 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -324,7 +324,7 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From 388ac2b2a45bf625a268e59986a3633a957446ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:25 +0000
Subject: [PATCH 26/56] fix: strlen and stridx see all bytes of a string

---
 tiny/src/std.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 1a7c868..9c6fbf4 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -45,14 +45,14 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt(Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
-    int i = Tiny_ToInt(args[1]);
+    Tiny_Int i = Tiny_ToInt(args[1]);
 
     assert(i >= 0 && i < len);
 
-- 
2.43.0


From ff1641ca1de1209db44646dd88a8725e75aad922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 27/56] fix: file functions handle short reads, embedded NULs
 and end of input

---
 tiny/src/std.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 9c6fbf4..f227bd8 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -114,7 +114,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
@@ -131,7 +131,7 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)strlen(str);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)Tiny_StringLen(args[1]);
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
@@ -174,7 +174,7 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, strlen(s), file);
+    fwrite(s, 1, Tiny_StringLen(args[1]), file);
     fclose(file);
 
     return Tiny_NewBool(true);
@@ -563,7 +563,7 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     int c = getc(stdin);
     int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From fd2cb3f7a054f1ed1724899732be8444ed1003d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:26 +0000
Subject: [PATCH 28/56] fix: printf prints a percent sign for %%

---
 tiny/src/std.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f227bd8..07cdcca 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -657,7 +657,10 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
     int arg = 1;
 
     while (*fmt) {
-        if (*fmt == '%') {
+        if (fmt[0] == '%' && fmt[1] == '%') {
+            putc('%', stdout);
+            fmt += 2;
+        } else if (*fmt == '%') {
             if (arg >= count) {
                 fprintf(stderr, "Too few arguments for format '%s'\n", fmt);
                 exit(1);
@@ -681,9 +684,6 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                 case 'q':
                     Print(args[arg], true);
                     break;
-                case '%':
-                    putc('%', stdout);
-
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
-- 
2.43.0


From bba893d06798851e2e1d5b27baff27b90681057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 29/56] fix: printf stops at a lone % ending the format

---
 tiny/src/std.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 07cdcca..4d454a3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -667,6 +667,12 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
             }
 
             ++fmt;
+
+            if (!*fmt) {
+                fprintf(stderr, "Incomplete format specifier at end of format\n");
+                exit(1);
+            }
+
             switch (*fmt) {
                 case 'i':
                     printf("%lld", (int64_t)args[arg].i);
-- 
2.43.0


From 41466628e4a2a6bb216ab7d1977c2a5ab337d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:40 +0000
Subject: [PATCH 30/56] fix: json of strings and integers

---
 tiny/src/std.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 4d454a3..5fb7951 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1010,8 +1010,9 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             return Tiny_NewConstString("null");
         case TINY_VAL_BOOL:
             return Tiny_NewConstString(args[0].boolean ? "true" : "false");
-        case TINY_VAL_FLOAT:
         case TINY_VAL_INT:
+            return Lib_IntToStr(thread, args, count);
+        case TINY_VAL_FLOAT:
             return Lib_Ntos(thread, args, count);
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
@@ -1019,7 +1020,7 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
                                         Tiny_NewConstString("\"")};
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
+            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
         } break;
 
         default:
-- 
2.43.0


From 6f411566c1866b8f38ac5a7d623c8ccb4a5b97b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 31/56] fix: 'use json' reports unknown, recursive and
 oversized types

---
 tiny/src/std.c | 74 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 59 insertions(+), 15 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5fb7951..40c7d18 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -2,6 +2,7 @@
 #include <errno.h>
 #include <limits.h>
 #include <math.h>
+#include <stdarg.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -774,7 +775,26 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
-static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
+// Appends to the string of length *used in buf; returns false if it doesn't fit.
+static bool AppendFormat(char *buf, size_t size, int *used, const char *fmt, ...) {
+    va_list args;
+    va_start(args, fmt);
+    int n = vsnprintf(buf + *used, size - *used, fmt, args);
+    va_end(args);
+
+    if (n < 0 || (size_t)n >= size - *used) {
+        return false;
+    }
+
+    *used += n;
+    return true;
+}
+
+// How deep the fields of a type may nest; also what stops types that contain themselves.
+#define JSON_MAX_NESTING 64
+
+static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym,
+                                                  int depth) {
     if (sym->type == TINY_SYM_TAG_FOREIGN) {
         // For foreign types, it's up to the calling code to set up an appropriate serializer.
         // We can't do it automatically.
@@ -790,35 +810,59 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
+    if (depth >= JSON_MAX_NESTING) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "Type given to 'use json' contains itself or is nested too deeply",
+        };
+    }
+
+    const Tiny_MacroResult tooLong = {
+        .type = TINY_MACRO_ERROR,
+        .error.msg = "Type given to 'use json' is too large",
+    };
+
     // Hopefully enough lol?
     char buf[2048] = {0};
     int used = 0;
 
-    snprintf(buf, sizeof(buf), "%s_to_json", sym->name);
+    if (!AppendFormat(buf, sizeof(buf), &used, "%s_to_json", sym->name)) {
+        return tooLong;
+    }
 
     if (Tiny_FindFuncSymbol(state, buf)) {
         // Already bound, don't bother
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-    used +=
-        snprintf(buf, sizeof(buf), "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
-                 sym->name, sym->name);
+    used = 0;
 
-    for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
-        if (i > 0) {
-            used += snprintf(buf + used, sizeof(buf) - used, ", \",\",\n\t\t");
-        }
+    if (!AppendFormat(buf, sizeof(buf), &used,
+                      "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t", sym->name,
+                      sym->name)) {
+        return tooLong;
+    }
 
+    for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
 
-        BindJsonSerializerForType(state, fieldSym->fieldTag);
+        Tiny_MacroResult fieldResult =
+            BindJsonSerializerForType(state, fieldSym->fieldTag, depth + 1);
+
+        if (fieldResult.type != TINY_MACRO_SUCCESS) {
+            return fieldResult;
+        }
 
-        used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
-                         fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
+        if (!AppendFormat(buf, sizeof(buf), &used, "%s\"\\\"%s\\\":\", %s_to_json(v.%s),\n\t\t",
+                          i > 0 ? "\",\",\n\t\t" : "", fieldSym->name, fieldSym->fieldTag->name,
+                          fieldSym->name)) {
+            return tooLong;
+        }
     }
 
-    used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
+    if (!AppendFormat(buf, sizeof(buf), &used, "\"}\")\n}")) {
+        return tooLong;
+    }
 
     Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", buf);
 
@@ -844,14 +888,14 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
         };
     }
 
-    return BindJsonSerializerForType(state, sym);
+    return BindJsonSerializerForType(state, sym, 0);
 }
 
 static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
-- 
2.43.0


From 39e8f6140c8c84d3f60e68c5ad36aec21d2ee6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 32/56] fix: 'use delegate' reports unknown functions and
 oversized signatures

---
 tiny/src/std.c | 92 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 25 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 40c7d18..3fabc80 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1073,6 +1073,15 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     }
 }
 
+static Tiny_MacroResult DelegateError(const Tiny_CompileResult *result) {
+    Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+    snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+             "Failed to compile delegate code: %s", result->error.msg);
+
+    return macroResult;
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1088,6 +1097,11 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         };
     }
 
+    const Tiny_MacroResult tooLong = {
+        .type = TINY_MACRO_ERROR,
+        .error.msg = "Signature of function given to 'use delegate' is too long",
+    };
+
     char typeBuf[512] = {0};
     char argsBuf[512] = {0};
     char paramsBuf[512] = {0};
@@ -1100,23 +1114,34 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
+    if (!func) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function you specified does not exist",
+        };
+    }
+
+    if (func->type != TINY_SYM_FUNCTION) {
+        // These don't have an index that can be called
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "Cannot make a delegate of a foreign function",
+        };
+    }
+
     for (int i = 0;
          i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
                                                                    : func->foreignFunc.argTags);
          ++i) {
-        if (i > 0) {
-            typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_");
-            argsUsed += snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, ", ");
-            paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, ", ");
-        }
-
         const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
                                                                     : func->foreignFunc.argTags[i];
 
-        typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "%s", argTag->name);
-        argsUsed +=
-            snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, "a%d: %s", i, argTag->name);
-        paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, "a%d", i);
+        if (!AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "%s%s", i > 0 ? "_" : "",
+                          argTag->name) ||
+            !AppendFormat(argsBuf, sizeof(argsBuf), &argsUsed, ", a%d: %s", i, argTag->name) ||
+            !AppendFormat(paramsBuf, sizeof(paramsBuf), &paramsUsed, ", a%d", i)) {
+            return tooLong;
+        }
     }
 
     const Tiny_Symbol *returnTag =
@@ -1124,32 +1149,49 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const char *returnTagName = returnTag->name;
 
-    typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_%s", returnTagName);
+    if (!AppendFormat(typeBuf, sizeof(typeBuf), &typeUsed, "_%s", returnTagName)) {
+        return tooLong;
+    }
 
     if (!Tiny_FindTypeSymbol(state, typeBuf)) {
         Tiny_RegisterType(state, typeBuf);
 
-        char callBuf[512] = {0};
+        char callBuf[2048] = {0};
+        int callUsed = 0;
+        bool isVoid = returnTag->type == TINY_SYM_TAG_VOID;
 
-        if (returnTag->type != TINY_SYM_TAG_VOID) {
-            snprintf(callBuf, sizeof(callBuf),
-                     "func %s_call(f: %s, %s): %s { return cast(call_function(f, %s), %s) }",
-                     typeBuf, typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
-        } else {
-            snprintf(callBuf, sizeof(callBuf), "func %s_call(f: %s, %s) { call_function(f, %s) }",
-                     typeBuf, typeBuf, argsBuf, paramsBuf);
+        if (!AppendFormat(callBuf, sizeof(callBuf), &callUsed,
+                          isVoid ? "func %s_call(f: %s%s) { call_function(f%s) }"
+                                 : "func %s_call(f: %s%s): %s { return cast(call_function(f%s), %s) }",
+                          typeBuf, typeBuf, argsBuf, isVoid ? paramsBuf : returnTagName, paramsBuf,
+                          returnTagName)) {
+            return tooLong;
         }
 
-        Tiny_CompileString(state, "(delegate call function)", callBuf);
+        Tiny_CompileResult result =
+            Tiny_CompileString(state, "(delegate call function)", callBuf);
+
+        if (result.type != TINY_COMPILE_SUCCESS) {
+            return DelegateError(&result);
+        }
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
-        char createBuf[512] = {0};
-        snprintf(createBuf, sizeof(createBuf),
-                 "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName, typeBuf,
-                 args[0], typeBuf);
+        char createBuf[2048] = {0};
+        int createUsed = 0;
+
+        if (!AppendFormat(createBuf, sizeof(createBuf), &createUsed,
+                          "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName,
+                          typeBuf, args[0], typeBuf)) {
+            return tooLong;
+        }
 
-        Tiny_CompileString(state, "(delegate create function)", createBuf);
+        Tiny_CompileResult result =
+            Tiny_CompileString(state, "(delegate create function)", createBuf);
+
+        if (result.type != TINY_COMPILE_SUCCESS) {
+            return DelegateError(&result);
+        }
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-- 
2.43.0


From 4b70e7e4f7c49fd9c65d03ed537f8e2e91503432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 33/56] fix: 'use array' reports conflicting names and binds
 pre-registered types

---
 tiny/src/std.c | 69 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 62 insertions(+), 7 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 3fabc80..b8bc365 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -913,11 +913,6 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    const Tiny_Symbol *alreadyExists = Tiny_FindTypeSymbol(state, asName);
-    if (alreadyExists) {
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-    }
-
     const Tiny_Symbol *elemType = Tiny_FindTypeSymbol(state, args[0]);
 
     if (!elemType) {
@@ -927,10 +922,70 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    Tiny_RegisterType(state, asName);
-
     char sigbuf[512] = {0};
 
+    // The longest signature has the array name twice and the element type once
+    if (2 * strlen(asName) + strlen(args[0]) + 64 > sizeof(sigbuf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The names given to 'use array' are too long",
+        };
+    }
+
+    const Tiny_Symbol *create = Tiny_FindFuncSymbol(state, asName);
+
+    if (create && create->type == TINY_SYM_FOREIGN_FUNCTION &&
+        (create->foreignFunc.callee == CreateArray ||
+         create->foreignFunc.callee == CreatePrimitiveArray)) {
+        snprintf(sigbuf, sizeof(sigbuf), "%s_get", asName);
+
+        const Tiny_Symbol *get = Tiny_FindFuncSymbol(state, sigbuf);
+
+        if (get && get->type == TINY_SYM_FOREIGN_FUNCTION &&
+            get->foreignFunc.returnTag == elemType) {
+            // Already bound to the same element type
+            return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+        }
+    }
+
+    const Tiny_Symbol *alreadyExists = Tiny_FindTypeSymbol(state, asName);
+
+    // An opaque type registered under this name can be given the array functions
+    if (alreadyExists && alreadyExists->type != TINY_SYM_TAG_FOREIGN) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "There is already another type with the 'as' name given to 'use array'",
+        };
+    }
+
+    static const char *const suffixes[] = {
+        "",           "_clear", "_resize", "_resize_fill", "_get",   "_get_index", "_set",
+        "_set_index", "_len",   "_push",   "_pop",         "_shift", "_remove",    "_insert",
+        "_sort",
+    };
+
+    // Only arrays of integers can be sorted
+    int numSuffixes = sizeof(suffixes) / sizeof(suffixes[0]);
+
+    if (elemType->type != TINY_SYM_TAG_INT) {
+        --numSuffixes;
+    }
+
+    for (int i = 0; i < numSuffixes; ++i) {
+        snprintf(sigbuf, sizeof(sigbuf), "%s%s", asName, suffixes[i]);
+
+        if (Tiny_FindFuncSymbol(state, sigbuf)) {
+            Tiny_MacroResult result = {.type = TINY_MACRO_ERROR};
+
+            snprintf(result.error.msg, sizeof(result.error.msg),
+                     "There is already a function called '%s'", sigbuf);
+
+            return result;
+        }
+    }
+
+    Tiny_RegisterType(state, asName);
+
     bool primitive = elemType->type == TINY_SYM_TAG_BOOL || elemType->type == TINY_SYM_TAG_INT ||
                      elemType->type == TINY_SYM_TAG_FLOAT;
 
-- 
2.43.0


From a17226ebb4dfb8d3d9a4fd4e7580560974054c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:51 +0000
Subject: [PATCH 34/56] fix: check the types of values passed to index
 functions

---
 tiny/src/tiny.c | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7e87394..152cd17 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2499,6 +2499,27 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     return false;
 }
 
+// Checks the type of one of the values passed implicitly to a _get_index/_set_index function
+static void CheckIndexArg(Tiny_State *state, Tiny_Expr *exp, const Tiny_Symbol *func, int i,
+                          const Tiny_Symbol *argTag) {
+    const Tiny_Symbol *expectedTag = NULL;
+
+    if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
+        if (i < sb_count(func->foreignFunc.argTags)) {
+            expectedTag = func->foreignFunc.argTags[i];
+        }
+    } else if (i < sb_count(func->func.args)) {
+        expectedTag = func->func.args[i]->var.tag;
+    }
+
+    // The number of arguments is checked when the call is compiled
+    if (expectedTag && !IsTagAssignableTo(argTag, expectedTag)) {
+        ReportErrorE(state, exp,
+                     "Argument %i to '%s' is supposed to be a '%s' but you supplied a '%s'\n", i + 1,
+                     func->name, GetTagName(expectedTag), GetTagName(argTag));
+    }
+}
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
@@ -2741,6 +2762,18 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    if (exp->binary.lhs->type == TINY_EXP_INDEX &&
+                        exp->binary.lhs->index.setIndexFunc) {
+                        Tiny_Expr *lhs = exp->binary.lhs;
+                        const Tiny_Symbol *setIndexFunc = lhs->index.setIndexFunc;
+
+                        CheckIndexArg(state, lhs->index.arr, setIndexFunc, 0, lhs->index.arr->tag);
+                        CheckIndexArg(state, lhs->index.elem, setIndexFunc, 1,
+                                      lhs->index.elem->tag);
+                        CheckIndexArg(state, exp->binary.rhs, setIndexFunc, 2,
+                                      exp->binary.rhs->tag);
+                    }
+
                     if (exp->binary.op != TINY_TOK_EQUAL) {
                         bool iLhs = exp->binary.lhs->tag->type == TINY_SYM_TAG_INT;
                         bool fLhs = exp->binary.lhs->tag->type == TINY_SYM_TAG_FLOAT;
@@ -3072,8 +3105,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                                   ? getIndexFunc->foreignFunc.returnTag
                                                   : getIndexFunc->func.returnTag;
 
-            // TODO(Apaar): Check that the argument count of getIndexFunc is 2 and also that it
-            // receives the correct argument types.
+            CheckIndexArg(state, exp->index.arr, getIndexFunc, 0, exp->index.arr->tag);
+            CheckIndexArg(state, exp->index.elem, getIndexFunc, 1, exp->index.elem->tag);
 
             exp->tag = getIndexReturnType;
 
-- 
2.43.0


From ecad091c0c87cd281ed26601710ea3dafd3774fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 35/56] fix: statements are recorded at the line they start on

---
 tiny/src/tiny.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 152cd17..d4fc221 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2216,9 +2216,10 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
             return ParseIf(state);
 
         case TINY_TOK_WHILE: {
-            GetNextToken(state);
             Tiny_Expr *exp = Expr_create(TINY_EXP_WHILE, state);
 
+            GetNextToken(state);
+
             exp->whilex.cond = ParseExpr(state);
 
             OpenScope(state);
@@ -2231,10 +2232,10 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
         } break;
 
         case TINY_TOK_FOR: {
-            GetNextToken(state);
-
             Tiny_Expr *exp = Expr_create(TINY_EXP_FOR, state);
 
+            GetNextToken(state);
+
             // Every local declared after this is scoped to the for
             OpenScope(state);
 
@@ -2287,9 +2288,10 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
 
         // TODO(Apaar): Labeled break/continue
         case TINY_TOK_BREAK: {
-            GetNextToken(state);
             Tiny_Expr *exp = Expr_create(TINY_EXP_BREAK, state);
 
+            GetNextToken(state);
+
             // Set to -1 to make sure we don't get into trouble
             exp->breakContinue.patchLoc = -1;
 
@@ -2361,16 +2363,18 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
         } break;
 
         default: {
+            int lineNumber = state->l.lineNumber;
+
             Tiny_Expr *lhs = ParseFactor(state);
 
             if (lhs->type == TINY_EXP_CALL) {
                 // It ended up being call, so just return it
+                lhs->lineNumber = lineNumber;
                 return lhs;
             }
 
             int op = state->l.lastTok;
 
-            int lineNumber = state->l.lineNumber;
             Tiny_TokenPos pos = state->l.pos;
 
             if (state->l.lastTok == TINY_TOK_DECLARE || state->l.lastTok == TINY_TOK_COLON) {
@@ -3699,7 +3703,7 @@ void Tiny_GetExecutingFileLine(const Tiny_StateThread *thread, const char **file
     GetFileLineForPC(thread->state, thread->pc, fileName, line);
 }
 
-static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
+static void AddStatementRecord(Tiny_State *state, const Tiny_Expr *exp) {
     AddPCFileLineRecord(
         state,
         (Tiny_PCToFileLine){
@@ -3707,6 +3711,10 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             .fileStrIndex = state->l.fileName ? RegisterString(state, state->l.fileName) : -1,
             .line = exp->lineNumber,
         });
+}
+
+static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
+    AddStatementRecord(state, exp);
 
     switch (exp->type) {
         case TINY_EXP_CALL: {
@@ -3936,6 +3944,9 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
         case TINY_EXP_FOR: {
             CompileStatement(state, exp->forx.init);
 
+            // The condition is part of this statement, not of the initializer
+            AddStatementRecord(state, exp);
+
             int condPc = sb_count(state->program);
             CompileExpr(state, exp->forx.cond);
 
-- 
2.43.0


From cb5ed8e8d87840fc0d22b5dadcf6e1195b40df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 36/56] fix: a foreign function sees the file and line of the
 statement calling it

---
 tiny/include/tiny.h |  3 +++
 tiny/src/tiny.c     | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 8b56fb6..9bc8955 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -160,6 +160,9 @@ typedef struct Tiny_StateThread {
     int pc, fp, sp;
     Tiny_Value retVal;
 
+    // While a foreign function called by a script runs, this is where that call is. -1 otherwise.
+    int foreignCallPC;
+
     Tiny_Value stack[TINY_THREAD_STACK_SIZE];
 
     int fc;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d4fc221..4c05a39 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -511,6 +511,7 @@ void Tiny_InitThreadWithContext(Tiny_StateThread *thread, const Tiny_State *stat
     thread->fp = thread->sp = 0;
 
     thread->retVal = Tiny_Null;
+    thread->foreignCallPC = -1;
 
     thread->fc = 0;
 
@@ -593,6 +594,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
     fc = thread->fc;
 
     Tiny_Value retVal = thread->retVal;
+    int foreignCallPC = thread->foreignCallPC;
+
+    thread->foreignCallPC = -1;
 
     AllocGlobals(thread);
 
@@ -617,6 +621,7 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
     thread->fc = fc;
 
     thread->retVal = retVal;
+    thread->foreignCallPC = foreignCallPC;
 
     return newRetVal;
 }
@@ -1404,12 +1409,17 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         } break;
 
         case TINY_OP_CALLF: {
+            int prevForeignCallPC = thread->foreignCallPC;
+            thread->foreignCallPC = thread->pc;
+
             ++thread->pc;
             Word nargs = state->program[thread->pc++];
             Tiny_ConstantIndex fIdx = ReadConstIndex(thread);
             int prevSize = thread->sp - nargs;
             thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);
             thread->sp = prevSize;
+
+            thread->foreignCallPC = prevForeignCallPC;
         } break;
 
         case TINY_OP_GETLOCAL: {
@@ -3700,7 +3710,9 @@ static void GetFileLineForPC(const Tiny_State *state, int pc, const char **fileN
 }
 
 void Tiny_GetExecutingFileLine(const Tiny_StateThread *thread, const char **fileName, int *line) {
-    GetFileLineForPC(thread->state, thread->pc, fileName, line);
+    // The pc is already past the call while a foreign function runs
+    GetFileLineForPC(thread->state, thread->foreignCallPC >= 0 ? thread->foreignCallPC : thread->pc,
+                     fileName, line);
 }
 
 static void AddStatementRecord(Tiny_State *state, const Tiny_Expr *exp) {
-- 
2.43.0


From eda999ff39ff8edd4297fd7ea778ccf1ac0b4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:25 +0000
Subject: [PATCH 37/56] fix: disassemble shift instructions

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 4c05a39..a9e3fbd 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4436,6 +4436,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             OP_NO_ARGS(MOD)
             OP_NO_ARGS(OR)
             OP_NO_ARGS(AND)
+            OP_NO_ARGS(SHIFT_LEFT)
+            OP_NO_ARGS(SHIFT_RIGHT)
             OP_NO_ARGS(LT)
             OP_NO_ARGS(LTE)
             OP_NO_ARGS(GT)
-- 
2.43.0


From 79fb89374bf63c91b6b7c0bca2c8bfc1724135c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 38/56] fix: keep the message of a compile error when the
 source around it is long

---
 tiny/src/util.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/tiny/src/util.c b/tiny/src/util.c
index b19ef6e..dfccfc6 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -39,6 +39,22 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
 
     size_t used = 0;
 
+    // Leave room for the error itself after the surrounding lines
+    size_t fullsize = bufsize;
+
+    if (src) {
+        va_list copy;
+        va_copy(copy, args);
+
+        size_t tail = snprintf(NULL, 0, "\nERROR %s(%d): \n", fileName,
+                               Tiny_TranslatePosToLineNumber(src, pos));
+        tail += vsnprintf(NULL, 0, s, copy);
+
+        va_end(copy);
+
+        bufsize = tail < bufsize ? bufsize - tail : 0;
+    }
+
 #define APPEND(s, ...)                                              \
     do {                                                            \
         int64_t rembufsize = (int64_t)bufsize - used;               \
@@ -91,6 +107,13 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
             }
         }
 
+        if (used >= bufsize) {
+            // Some of it didn't fit
+            used = bufsize > 0 ? bufsize - 1 : 0;
+        }
+
+        bufsize = fullsize;
+
         APPEND("\n");
 
         APPEND("ERROR %s(%d): ", fileName, lineNumber);
-- 
2.43.0


From 0b9eb11b2e019a6754f77fa97b35c0c00f5d7035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:50 +0000
Subject: [PATCH 39/56] fix: notepad definitions end with the line and fit
 their storage

---
 examples/notepad/src/buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/notepad/src/buffer.c b/examples/notepad/src/buffer.c
index 5cd5b35..c26e5f4 100644
--- a/examples/notepad/src/buffer.c
+++ b/examples/notepad/src/buffer.c
@@ -21,13 +21,13 @@ static void UpdateDefinitions(Buffer* buf) {
 
         s += strlen("#define");
 
-        while (isspace(*s)) {
+        while (isspace((unsigned char)*s)) {
             s += 1;
         }
 
         int i = 0;
 
-        while (!isspace(*s)) {
+        while (*s && !isspace((unsigned char)*s) && i < MAX_DEFN_LENGTH - 1) {
             buf->defns[buf->numDefns][i++] = *s++;
         }
 
-- 
2.43.0


From 9efbca6f1deb6ff918c38b21e0601ff897e3a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 40/56] fix: notepad edits stay inside the line and line array

---
 examples/notepad/src/buffer.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/examples/notepad/src/buffer.c b/examples/notepad/src/buffer.c
index c26e5f4..101d712 100644
--- a/examples/notepad/src/buffer.c
+++ b/examples/notepad/src/buffer.c
@@ -41,6 +41,7 @@ void InitDefaultBuffer(Buffer* buf) {
 
     buf->numLines = 2;
     strcpy(buf->lines[0], "Welcome to Tiny Notepad!");
+    buf->lines[1][0] = '\0';
 
     buf->numDefns = 0;
 }
@@ -154,7 +155,7 @@ void InsertEmptyLine(Buffer* buf, int y) {
 void RemoveLine(Buffer* buf, int y) {
     assert(y >= 0 && y < buf->numLines);
 
-    memmove(&buf->lines[y], &buf->lines[y + 1], (buf->numLines - y + 1) * MAX_LINE_LENGTH);
+    memmove(&buf->lines[y], &buf->lines[y + 1], (buf->numLines - y - 1) * MAX_LINE_LENGTH);
     buf->numLines -= 1;
 }
 
@@ -164,7 +165,7 @@ void InsertChar(Buffer* buf, int x, int y, char ch) {
     int len = strlen(buf->lines[y]);
 
     assert(x >= 0 && x <= len);
-    assert(len < MAX_LINE_LENGTH);
+    assert(len + 1 < MAX_LINE_LENGTH);
 
     if (x == len) {
         // End of line
@@ -193,10 +194,8 @@ void InsertString(Buffer* buf, int x, int y, const char* str) {
     if (x == len) {
         strcat(buf->lines[y], str);
     } else {
-        memmove(&buf->lines[y][x + slen], &buf->lines[y][x], len - x + slen);
+        memmove(&buf->lines[y][x + slen], &buf->lines[y][x], len - x + 1);
         memcpy(&buf->lines[y][x], str, slen);
-
-        buf->lines[y][len + slen + 1] = '\0';
     }
 
     UpdateDefinitions(buf);
-- 
2.43.0


From d64263c4907a6c6437a6efd37fa6c973c745c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 41/56] fix: notepad opens files with long lines or many lines

---
 examples/notepad/src/buffer.c | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/examples/notepad/src/buffer.c b/examples/notepad/src/buffer.c
index 101d712..67f97be 100644
--- a/examples/notepad/src/buffer.c
+++ b/examples/notepad/src/buffer.c
@@ -75,7 +75,7 @@ bool MyOpenFile(Buffer* buf, const char* filename) {
             buf->lines[curLine][curChar] = '\0';
             curLine += 1;
             curChar = 0;
-        } else {
+
             if (curLine >= MAX_NUM_LINES) {
                 printf("File exceeded maximum number of lines. Only partially loaded.");
 
@@ -83,19 +83,13 @@ bool MyOpenFile(Buffer* buf, const char* filename) {
                 fclose(f);
                 return true;
             }
-
-            if (curChar >= MAX_LINE_LENGTH - 1) {
-                continue;
-            }
-
-            if (last == '\t') {
-                // Translate tabs to 4 spaces
-                for (int i = 0; i < 4; ++i) {
-                    buf->lines[curLine][curChar++] = ' ';
-                }
-            } else {
-                buf->lines[curLine][curChar++] = last;
+        } else if (last == '\t') {
+            // Translate tabs to 4 spaces
+            for (int i = 0; i < 4 && curChar < MAX_LINE_LENGTH - 1; ++i) {
+                buf->lines[curLine][curChar++] = ' ';
             }
+        } else if (curChar < MAX_LINE_LENGTH - 1) {
+            buf->lines[curLine][curChar++] = last;
         }
 
         last = getc(f);
-- 
2.43.0


From 562c8cae4c41b7a79446cc04ab60443ab50b98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 42/56] fix: server request line parses across chunks and in
 bounds

---
 examples/server/include/request.h       |  7 ++--
 examples/server/include/requestparser.h |  4 +++
 examples/server/src/requestparser.c     | 43 ++++++++++++++-----------
 3 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/examples/server/include/request.h b/examples/server/include/request.h
index 760e693..cc4b1eb 100644
--- a/examples/server/include/request.h
+++ b/examples/server/include/request.h
@@ -6,6 +6,7 @@
 #define REQUEST_TARGET_SIZE 512
 #define REQUEST_VERSION_SIZE 64
 #define REQUEST_HEADER_NAME_SIZE 256
+#define REQUEST_LINE_SIZE 1024
 
 typedef struct {
     char name[REQUEST_HEADER_NAME_SIZE];
@@ -13,9 +14,9 @@ typedef struct {
 } RequestHeader;
 
 typedef struct {
-    char method[REQUEST_METHOD_SIZE];
-    char target[REQUEST_TARGET_SIZE];
-    char version[REQUEST_VERSION_SIZE];
+    char method[REQUEST_METHOD_SIZE + 1];
+    char target[REQUEST_TARGET_SIZE + 1];
+    char version[REQUEST_VERSION_SIZE + 1];
 
     RequestHeader* headers;  // array
     char* body;              // array
diff --git a/examples/server/include/requestparser.h b/examples/server/include/requestparser.h
index ee3ed1d..8339aff 100644
--- a/examples/server/include/requestparser.h
+++ b/examples/server/include/requestparser.h
@@ -20,6 +20,10 @@ typedef struct {
     // this is done
     int bodyBytesLeft;
 
+    // The first line accumulates here until its newline arrives
+    char line[REQUEST_LINE_SIZE];
+    int lineLen;
+
     int nameLen;
 
     RequestHeader curHeader;
diff --git a/examples/server/src/requestparser.c b/examples/server/src/requestparser.c
index db22e9b..fe1720b 100644
--- a/examples/server/src/requestparser.c
+++ b/examples/server/src/requestparser.c
@@ -16,13 +16,31 @@ void InitRequestParser(RequestParser* p) {
 
     p->bodyBytesLeft = -1;
 
+    p->lineLen = 0;
+
     p->nameLen = 0;
 }
 
 // Returns the number of bytes read from buf or REQUEST_ERROR
 int ParseRequest(RequestParser* p, Request* r, const char* buf, int len) {
     if (p->state == REQUEST_STATE_FIRST_LINE) {
-        int n = sscanf(buf,
+        int i = 0;
+
+        while (i < len && buf[i] != '\n') {
+            if (p->lineLen >= REQUEST_LINE_SIZE - 1) {
+                fprintf(stderr, "First line of request was too long.\n");
+                return REQUEST_ERROR;
+            }
+
+            p->line[p->lineLen++] = buf[i++];
+        }
+
+        // The rest of the line is yet to come
+        if (i == len) return i;
+
+        p->line[p->lineLen] = 0;
+
+        int n = sscanf(p->line,
                        "%" X(REQUEST_METHOD_SIZE) "s %" X(REQUEST_TARGET_SIZE) "s %" X(
                            REQUEST_VERSION_SIZE) "s",
                        r->method, r->target, r->version);
@@ -32,25 +50,12 @@ int ParseRequest(RequestParser* p, Request* r, const char* buf, int len) {
             return REQUEST_ERROR;
         }
 
-        const char* lineEnd = strchr(buf, '\n');
-
-        if (!lineEnd) {
-            fprintf(stderr, "Missing end of line in first line of request.\n");
-            return REQUEST_ERROR;
-        }
-
-        n = lineEnd - buf + 1;
-        buf = lineEnd + 1;
-
-        if (n == len) {
-            p->state = REQUEST_STATE_DONE;
-        } else {
-            p->nameLen = 0;
-            p->bodyBytesLeft = 0;
-            p->state = REQUEST_STATE_HEADER_NAME;
-        }
+        p->nameLen = 0;
+        p->bodyBytesLeft = 0;
+        p->state = REQUEST_STATE_HEADER_NAME;
 
-        return n;
+        // We skip the '\n' so + 1
+        return i + 1;
     }
 
     if (p->state == REQUEST_STATE_HEADER_NAME) {
-- 
2.43.0


From 709611bff7630ee568f988226662123105e964c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 43/56] fix: resizing a non-empty array fills the added
 elements

---
 tiny/src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 3308202..26e8113 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -33,7 +33,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
         for (int i = len; i < newLen; ++i) {
-            newValues[i] = newValue;
+            newValues[i - len] = newValue;
         }
     } else if (array->data) {
         stb__sbn(array->data) = newLen;
-- 
2.43.0


From f6aa9a09edf99dad4deed84eb7fd154f7e5582e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 44/56] Revert "fix: notepad opens files with long lines or
 many lines"

This reverts commit d64263c4907a6c6437a6efd37fa6c973c745c6a7.
---
 examples/notepad/src/buffer.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/examples/notepad/src/buffer.c b/examples/notepad/src/buffer.c
index 67f97be..101d712 100644
--- a/examples/notepad/src/buffer.c
+++ b/examples/notepad/src/buffer.c
@@ -75,7 +75,7 @@ bool MyOpenFile(Buffer* buf, const char* filename) {
             buf->lines[curLine][curChar] = '\0';
             curLine += 1;
             curChar = 0;
-
+        } else {
             if (curLine >= MAX_NUM_LINES) {
                 printf("File exceeded maximum number of lines. Only partially loaded.");
 
@@ -83,13 +83,19 @@ bool MyOpenFile(Buffer* buf, const char* filename) {
                 fclose(f);
                 return true;
             }
-        } else if (last == '\t') {
-            // Translate tabs to 4 spaces
-            for (int i = 0; i < 4 && curChar < MAX_LINE_LENGTH - 1; ++i) {
-                buf->lines[curLine][curChar++] = ' ';
+
+            if (curChar >= MAX_LINE_LENGTH - 1) {
+                continue;
+            }
+
+            if (last == '\t') {
+                // Translate tabs to 4 spaces
+                for (int i = 0; i < 4; ++i) {
+                    buf->lines[curLine][curChar++] = ' ';
+                }
+            } else {
+                buf->lines[curLine][curChar++] = last;
             }
-        } else if (curChar < MAX_LINE_LENGTH - 1) {
-            buf->lines[curLine][curChar++] = last;
         }
 
         last = getc(f);
-- 
2.43.0


From d282e8e0be75300ba82322d7488d19690a8db9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 45/56] Revert "fix: server request line parses across chunks
 and in bounds"

This reverts commit 562c8cae4c41b7a79446cc04ab60443ab50b98f6.
---
 examples/server/include/request.h       |  7 ++--
 examples/server/include/requestparser.h |  4 ---
 examples/server/src/requestparser.c     | 43 +++++++++++--------------
 3 files changed, 22 insertions(+), 32 deletions(-)

diff --git a/examples/server/include/request.h b/examples/server/include/request.h
index cc4b1eb..760e693 100644
--- a/examples/server/include/request.h
+++ b/examples/server/include/request.h
@@ -6,7 +6,6 @@
 #define REQUEST_TARGET_SIZE 512
 #define REQUEST_VERSION_SIZE 64
 #define REQUEST_HEADER_NAME_SIZE 256
-#define REQUEST_LINE_SIZE 1024
 
 typedef struct {
     char name[REQUEST_HEADER_NAME_SIZE];
@@ -14,9 +13,9 @@ typedef struct {
 } RequestHeader;
 
 typedef struct {
-    char method[REQUEST_METHOD_SIZE + 1];
-    char target[REQUEST_TARGET_SIZE + 1];
-    char version[REQUEST_VERSION_SIZE + 1];
+    char method[REQUEST_METHOD_SIZE];
+    char target[REQUEST_TARGET_SIZE];
+    char version[REQUEST_VERSION_SIZE];
 
     RequestHeader* headers;  // array
     char* body;              // array
diff --git a/examples/server/include/requestparser.h b/examples/server/include/requestparser.h
index 8339aff..ee3ed1d 100644
--- a/examples/server/include/requestparser.h
+++ b/examples/server/include/requestparser.h
@@ -20,10 +20,6 @@ typedef struct {
     // this is done
     int bodyBytesLeft;
 
-    // The first line accumulates here until its newline arrives
-    char line[REQUEST_LINE_SIZE];
-    int lineLen;
-
     int nameLen;
 
     RequestHeader curHeader;
diff --git a/examples/server/src/requestparser.c b/examples/server/src/requestparser.c
index fe1720b..db22e9b 100644
--- a/examples/server/src/requestparser.c
+++ b/examples/server/src/requestparser.c
@@ -16,31 +16,13 @@ void InitRequestParser(RequestParser* p) {
 
     p->bodyBytesLeft = -1;
 
-    p->lineLen = 0;
-
     p->nameLen = 0;
 }
 
 // Returns the number of bytes read from buf or REQUEST_ERROR
 int ParseRequest(RequestParser* p, Request* r, const char* buf, int len) {
     if (p->state == REQUEST_STATE_FIRST_LINE) {
-        int i = 0;
-
-        while (i < len && buf[i] != '\n') {
-            if (p->lineLen >= REQUEST_LINE_SIZE - 1) {
-                fprintf(stderr, "First line of request was too long.\n");
-                return REQUEST_ERROR;
-            }
-
-            p->line[p->lineLen++] = buf[i++];
-        }
-
-        // The rest of the line is yet to come
-        if (i == len) return i;
-
-        p->line[p->lineLen] = 0;
-
-        int n = sscanf(p->line,
+        int n = sscanf(buf,
                        "%" X(REQUEST_METHOD_SIZE) "s %" X(REQUEST_TARGET_SIZE) "s %" X(
                            REQUEST_VERSION_SIZE) "s",
                        r->method, r->target, r->version);
@@ -50,12 +32,25 @@ int ParseRequest(RequestParser* p, Request* r, const char* buf, int len) {
             return REQUEST_ERROR;
         }
 
-        p->nameLen = 0;
-        p->bodyBytesLeft = 0;
-        p->state = REQUEST_STATE_HEADER_NAME;
+        const char* lineEnd = strchr(buf, '\n');
+
+        if (!lineEnd) {
+            fprintf(stderr, "Missing end of line in first line of request.\n");
+            return REQUEST_ERROR;
+        }
+
+        n = lineEnd - buf + 1;
+        buf = lineEnd + 1;
+
+        if (n == len) {
+            p->state = REQUEST_STATE_DONE;
+        } else {
+            p->nameLen = 0;
+            p->bodyBytesLeft = 0;
+            p->state = REQUEST_STATE_HEADER_NAME;
+        }
 
-        // We skip the '\n' so + 1
-        return i + 1;
+        return n;
     }
 
     if (p->state == REQUEST_STATE_HEADER_NAME) {
-- 
2.43.0


From e705a65f2aff9db66f8ae38aa5f1eacb6b1681df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 46/56] Revert "fix: notepad edits stay inside the line and
 line array"

This reverts commit 9efbca6f1deb6ff918c38b21e0601ff897e3a280.
---
 examples/notepad/src/buffer.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/examples/notepad/src/buffer.c b/examples/notepad/src/buffer.c
index 101d712..c26e5f4 100644
--- a/examples/notepad/src/buffer.c
+++ b/examples/notepad/src/buffer.c
@@ -41,7 +41,6 @@ void InitDefaultBuffer(Buffer* buf) {
 
     buf->numLines = 2;
     strcpy(buf->lines[0], "Welcome to Tiny Notepad!");
-    buf->lines[1][0] = '\0';
 
     buf->numDefns = 0;
 }
@@ -155,7 +154,7 @@ void InsertEmptyLine(Buffer* buf, int y) {
 void RemoveLine(Buffer* buf, int y) {
     assert(y >= 0 && y < buf->numLines);
 
-    memmove(&buf->lines[y], &buf->lines[y + 1], (buf->numLines - y - 1) * MAX_LINE_LENGTH);
+    memmove(&buf->lines[y], &buf->lines[y + 1], (buf->numLines - y + 1) * MAX_LINE_LENGTH);
     buf->numLines -= 1;
 }
 
@@ -165,7 +164,7 @@ void InsertChar(Buffer* buf, int x, int y, char ch) {
     int len = strlen(buf->lines[y]);
 
     assert(x >= 0 && x <= len);
-    assert(len + 1 < MAX_LINE_LENGTH);
+    assert(len < MAX_LINE_LENGTH);
 
     if (x == len) {
         // End of line
@@ -194,8 +193,10 @@ void InsertString(Buffer* buf, int x, int y, const char* str) {
     if (x == len) {
         strcat(buf->lines[y], str);
     } else {
-        memmove(&buf->lines[y][x + slen], &buf->lines[y][x], len - x + 1);
+        memmove(&buf->lines[y][x + slen], &buf->lines[y][x], len - x + slen);
         memcpy(&buf->lines[y][x], str, slen);
+
+        buf->lines[y][len + slen + 1] = '\0';
     }
 
     UpdateDefinitions(buf);
-- 
2.43.0


From d8cdb8737754cb61daaf3159a2b9cfbb69d0470a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:08 +0000
Subject: [PATCH 47/56] Revert "fix: notepad definitions end with the line and
 fit their storage"

This reverts commit 0b9eb11b2e019a6754f77fa97b35c0c00f5d7035.
---
 examples/notepad/src/buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/examples/notepad/src/buffer.c b/examples/notepad/src/buffer.c
index c26e5f4..5cd5b35 100644
--- a/examples/notepad/src/buffer.c
+++ b/examples/notepad/src/buffer.c
@@ -21,13 +21,13 @@ static void UpdateDefinitions(Buffer* buf) {
 
         s += strlen("#define");
 
-        while (isspace((unsigned char)*s)) {
+        while (isspace(*s)) {
             s += 1;
         }
 
         int i = 0;
 
-        while (*s && !isspace((unsigned char)*s) && i < MAX_DEFN_LENGTH - 1) {
+        while (!isspace(*s)) {
             buf->defns[buf->numDefns][i++] = *s++;
         }
 
-- 
2.43.0


From 72ff9774e1796dfe0b3a044bec455ceb31c8b64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:20 +0000
Subject: [PATCH 48/56] fix: grow a thread's globals when more code is compiled
 into its state

---
 tiny/include/tiny.h |  1 +
 tiny/src/tiny.c     | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9bc8955..3ee2295 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -156,6 +156,7 @@ typedef struct Tiny_StateThread {
 
     // Global vars are owned by each thread
     Tiny_Value *globalVars;
+    int numGlobalVars;
 
     int pc, fp, sp;
     Tiny_Value retVal;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a9e3fbd..0b7cc9a 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -506,6 +506,7 @@ void Tiny_InitThreadWithContext(Tiny_StateThread *thread, const Tiny_State *stat
     thread->maxNumObjects = 8;
 
     thread->globalVars = NULL;
+    thread->numGlobalVars = 0;
 
     thread->pc = -1;
     thread->fp = thread->sp = 0;
@@ -523,12 +524,19 @@ void Tiny_InitThread(Tiny_StateThread *thread, const Tiny_State *state) {
 }
 
 static void AllocGlobals(Tiny_StateThread *thread) {
-    // If the global variables haven't been allocated yet,
-    // do that
-    if (!thread->globalVars) {
+    // If the global variables haven't been allocated yet, or more of them were compiled into
+    // the state since, do that
+    int count = thread->state->numGlobalVars;
+
+    if (!thread->globalVars || thread->numGlobalVars < count) {
         thread->globalVars =
-            TMalloc(&thread->ctx, sizeof(Tiny_Value) * thread->state->numGlobalVars);
-        memset(thread->globalVars, 0, sizeof(Tiny_Value) * thread->state->numGlobalVars);
+            TRealloc(&thread->ctx, thread->globalVars, sizeof(Tiny_Value) * count);
+
+        for (int i = thread->numGlobalVars; i < count; ++i) {
+            thread->globalVars[i] = Tiny_Null;
+        }
+
+        thread->numGlobalVars = count;
     }
 }
 
@@ -569,14 +577,14 @@ static void DoPushIndir(Tiny_StateThread *thread, uint8_t nargs);
 static void DoPush(Tiny_StateThread *thread, Tiny_Value value);
 
 Tiny_Value Tiny_GetGlobal(const Tiny_StateThread *thread, int globalIndex) {
-    assert(globalIndex >= 0 && globalIndex < thread->state->numGlobalVars);
+    assert(globalIndex >= 0 && globalIndex < thread->numGlobalVars);
     assert(thread->globalVars);
 
     return thread->globalVars[globalIndex];
 }
 
 void Tiny_SetGlobal(Tiny_StateThread *thread, int globalIndex, Tiny_Value value) {
-    assert(globalIndex >= 0 && globalIndex < thread->state->numGlobalVars);
+    assert(globalIndex >= 0 && globalIndex < thread->numGlobalVars);
     assert(thread->globalVars);
 
     thread->globalVars[globalIndex] = value;
@@ -651,7 +659,7 @@ static void MarkAll(Tiny_StateThread *thread) {
 
     for (int i = 0; i < thread->sp; ++i) Tiny_ProtectFromGC(thread->stack[i]);
 
-    for (int i = 0; i < thread->state->numGlobalVars; ++i)
+    for (int i = 0; i < thread->numGlobalVars; ++i)
         Tiny_ProtectFromGC(thread->globalVars[i]);
 }
 
@@ -1368,12 +1376,14 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_SET: {
             ++thread->pc;
             Tiny_ConstantIndex varIdx = ReadConstIndex(thread);
+            if (varIdx >= thread->numGlobalVars) AllocGlobals(thread);
             thread->globalVars[varIdx] = DoPop(thread);
         } break;
 
         case TINY_OP_GET: {
             ++thread->pc;
             Tiny_ConstantIndex varIdx = ReadConstIndex(thread);
+            if (varIdx >= thread->numGlobalVars) AllocGlobals(thread);
             DoPush(thread, thread->globalVars[varIdx]);
         } break;
 
-- 
2.43.0


From 9c6496c91bd5a8fccf1c7d3843e3321bd4fe887a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 49/56] fix: report a malformed token after an expression
 instead of printing its incomplete text

---
 tiny/src/tiny.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 0b7cc9a..2b7f067 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2418,6 +2418,11 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
                 }
             }
 
+            if (op == TINY_TOK_LEXER_ERROR) {
+                assert(state->l.errorMsg);
+                ReportErrorSL(state, state->l.errorMsg);
+            }
+
             // If the precedence is >= 0 then it's an expression operator
             if (GetTokenPrec(op) >= 0) {
                 ReportErrorSL(state, "Expected assignment statement.");
-- 
2.43.0


From 174bfd71b32f50a1082f313e9427c91bcc7b955e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:27 +0000
Subject: [PATCH 50/56] fix: 'new' must be followed by an identifier

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2b7f067..c2baa9b 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1970,7 +1970,7 @@ static Tiny_Expr *ParseValue(Tiny_State *state) {
         case TINY_TOK_NEW: {
             Tiny_Expr *exp = Expr_create(TINY_EXP_CONSTRUCTOR, state);
 
-            GetNextToken(state);
+            GetExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier after 'new'.");
 
             Tiny_Symbol *tag = DeclareStruct(state, state->l.lexeme, true);
 
-- 
2.43.0


From 911eb8e14b27e0c7920bf802dbae3feeba634968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:01 +0000
Subject: [PATCH 51/56] fix: count the lines of string and character literals
 that span several

---
 tiny/include/lexer.h | 5 +++++
 tiny/src/lexer.c     | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index ae10e84..4263482 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -12,7 +12,12 @@ typedef struct {
     const char *fileName;
     const char *src;
 
+    // Line on which the last token starts
     int lineNumber;
+
+    // Number of newlines inside the last token
+    int tokenNewlines;
+
     Tiny_TokenPos pos;
 
     int last;
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index f263bcc..76da823 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -33,6 +33,7 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
     l->src = src;
 
     l->lineNumber = 1;
+    l->tokenNewlines = 0;
     l->pos = 0;
 
     l->last = ' ';
@@ -42,6 +43,9 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
+    l->lineNumber += l->tokenNewlines;
+    l->tokenNewlines = 0;
+
     for (;;) {
         while (isspace(l->last)) {
             if (l->last == '\n') l->lineNumber++;
@@ -250,6 +254,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
 
         CHECK_ESCAPE();
 
+        if (l->src[l->pos - 1] == '\n') l->tokenNewlines++;
+
         l->iValue = l->last;
 
         l->last = GetChar(l);
@@ -277,6 +283,9 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
                 return TINY_TOK_LEXER_ERROR;
             }
 
+            // Not an escaped one
+            if (l->src[l->pos - 1] == '\n') l->tokenNewlines++;
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
-- 
2.43.0


From a4c24a854bcfb1cf596dcea2da66b38274ceca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:51 +0000
Subject: [PATCH 52/56] fix: 'use delegate' reports a name already taken by
 another function

---
 tiny/src/std.c | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index b8bc365..dee75d2 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1231,7 +1231,27 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         }
     }
 
-    if (!Tiny_FindFuncSymbol(state, asName)) {
+    // Remembers which function asName makes delegates of (not a name a script can refer to)
+    char targetBuf[512] = {0};
+    int targetUsed = 0;
+
+    if (!AppendFormat(targetBuf, sizeof(targetBuf), &targetUsed, "(delegate %s)", asName)) {
+        return tooLong;
+    }
+
+    if (Tiny_FindFuncSymbol(state, asName)) {
+        const Tiny_Symbol *target = Tiny_FindConstSymbol(state, targetBuf);
+
+        if (!target || strcmp(Tiny_GetStringFromConstIndex(state, target->constant.sIndex),
+                              args[0]) != 0) {
+            Tiny_MacroResult result = {.type = TINY_MACRO_ERROR};
+
+            snprintf(result.error.msg, sizeof(result.error.msg),
+                     "There is already a function called '%s'", asName);
+
+            return result;
+        }
+    } else {
         char createBuf[2048] = {0};
         int createUsed = 0;
 
@@ -1247,6 +1267,8 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         if (result.type != TINY_COMPILE_SUCCESS) {
             return DelegateError(&result);
         }
+
+        Tiny_BindConstString(state, targetBuf, args[0]);
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-- 
2.43.0


From 6c2b2131f8ddc0f4fbed6d16e631eea7a474ce5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:19 +0000
Subject: [PATCH 53/56] fix: floor, ceil and ston keep double precision

---
 tiny/src/std.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index dee75d2..19833df 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -507,7 +507,7 @@ static Tiny_Value Lib_Substr(Tiny_StateThread *thread, const Tiny_Value *args, i
 
 static Tiny_Value Lib_Ston(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *str = Tiny_ToString(args[0]);
-    float value = strtof(str, NULL);
+    Tiny_Float value = strtod(str, NULL);
 
     return Tiny_NewFloat(value);
 }
@@ -712,11 +712,11 @@ static Tiny_Value Exit(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Floor(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(floorf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(floor(Tiny_ToFloat(args[0])));
 }
 
 static Tiny_Value Lib_Ceil(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(ceilf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(ceil(Tiny_ToFloat(args[0])));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From 7ee8dfb07f4f4e6ea9406ceb0e355baf151b9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 54/56] fix: stoi and str_to_int yield every 64-bit value

---
 tiny/src/std.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 19833df..81563d1 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -516,9 +516,9 @@ static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int
     const char *str = Tiny_ToString(args[0]);
     int base = count > 1 ? Tiny_ToInt(args[1]) : 10;
 
-    long value = strtol(str, NULL, base);
+    long long value = strtoll(str, NULL, base);
 
-    return Tiny_NewInt((int)value);
+    return Tiny_NewInt(value);
 }
 
 static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From 3615087453a33a41608842bb9e6c2956eb9ec8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:26 +0000
Subject: [PATCH 55/56] fix: calls by a wrong index or with too few arguments
 stay inside the stack

---
 tiny/src/tiny.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c2baa9b..533e1ae 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -593,6 +593,7 @@ void Tiny_SetGlobal(Tiny_StateThread *thread, int globalIndex, Tiny_Value value)
 Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const Tiny_Value *args,
                              int count) {
     assert(thread->state && functionIndex >= 0);
+    assert(functionIndex < thread->state->numFunctions);
 
     int pc, fp, sp, fc;
 
@@ -1435,6 +1436,8 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_GETLOCAL: {
             ++thread->pc;
             Tiny_ConstantIndex localIdx = ReadConstIndex(thread);
+            // A function called by index might've been given too few arguments
+            assert(thread->fp + (int)localIdx >= 0);
             DoPush(thread, thread->stack[thread->fp + localIdx]);
         } break;
 
@@ -1447,6 +1450,8 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_SETLOCAL: {
             ++thread->pc;
             Tiny_ConstantIndex localIdx = ReadConstIndex(thread);
+            // A function called by index might've been given too few arguments
+            assert(thread->fp + (int)localIdx >= 0);
             thread->stack[thread->fp + localIdx] = DoPop(thread);
         } break;
 
-- 
2.43.0


From 578c12b9807ae1a0cf76a49946fbb8c2b737c5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:23 +0000
Subject: [PATCH 56/56] fix: int() of a float yields integers beyond 32 bits

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 533e1ae..94452cf 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -429,7 +429,7 @@ Tiny_Value Tiny_NewStringCopyNullTerminated(Tiny_StateThread *thread, const char
 static void Symbol_destroy(Tiny_Symbol *sym, Tiny_Context *ctx);
 
 static Tiny_Value Lib_ToInt(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)Tiny_ToFloat(args[0]));
+    return Tiny_NewInt((Tiny_Int)Tiny_ToFloat(args[0]));
 }
 
 static Tiny_Value Lib_ToFloat(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0

