From 504c59c0e891e20cc70ddcb612a404f7b4d5e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 01/60] fix: read the operand of PUSH_STRING with the width it
 was written

A string constant with an index above 255 is emitted as a Tiny_ConstantIndex
but was read back as a Tiny_Int, at a different alignment and width.
---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..fd5411c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1217,7 +1217,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From 46da8f85795d4df678d7e06298ce72874472956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 02/60] fix: do not use the integer increment instructions on
 floats

f + 1 and f - 1 with a float f changed the bits of the float as if it was an
integer.
---
 tiny/src/tiny.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fd5411c..2a84629 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1325,12 +1325,22 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_ADD1: {
             ++thread->pc;
-            thread->stack[thread->sp - 1].i += 1;
+            Tiny_Value *top = &thread->stack[thread->sp - 1];
+            if (top->type == TINY_VAL_FLOAT) {
+                top->f += 1;
+            } else {
+                top->i += 1;
+            }
         } break;
 
         case TINY_OP_SUB1: {
             ++thread->pc;
-            thread->stack[thread->sp - 1].i -= 1;
+            Tiny_Value *top = &thread->stack[thread->sp - 1];
+            if (top->type == TINY_VAL_FLOAT) {
+                top->f -= 1;
+            } else {
+                top->i -= 1;
+            }
         } break;
 
         case TINY_OP_EQU: {
-- 
2.43.0


From e4b16b5298d47fd1c49e75f7a629056d2846242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 03/60] fix: report an unterminated string literal instead of
 reading on forever

---
 tiny/src/lexer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..5745454 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -272,6 +272,11 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         while (l->last != '"') {
             CHECK_ESCAPE();
 
+            if (l->last == 0) {
+                l->errorMsg = "Expected \" to close previous \".";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
-- 
2.43.0


From cb870b207a19793d349c36beaf6ad6891a220bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 04/60] fix: skip runs of comment lines without recursion

Every comment line added a stack frame, so a long enough block of comment
lines overflowed the C stack.
---
 tiny/src/lexer.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 5745454..400d713 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -42,16 +42,14 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
-    while (isspace(l->last)) {
-        if (l->last == '\n') l->lineNumber++;
-        l->last = GetChar(l);
-    }
+    for (;;) {
+        while (isspace(l->last)) {
+            if (l->last == '\n') l->lineNumber++;
+            l->last = GetChar(l);
+        }
 
-    if (l->last == 0) {
-        return TINY_TOK_EOF;
-    }
+        if (l->last != '/' || Peek(l) != '/') break;
 
-    if (l->last == '/' && Peek(l) == '/') {
         while (l->last && l->last != '\n') {
             l->last = GetChar(l);
         }
@@ -60,8 +58,10 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
             l->last = GetChar(l);
             l->lineNumber += 1;
         }
+    }
 
-        return Tiny_GetToken(l);
+    if (l->last == 0) {
+        return TINY_TOK_EOF;
     }
 
     if (l->last == '.' && Peek(l) == '.' && Peek2(l) == '.') {
-- 
2.43.0


From 9bd90d1a4698ad472f830774eb810d617b3fc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 05/60] fix: count the newlines inside string and character
 literals

They were not counted, so every line number reported after a multi-line
literal was too small.
---
 tiny/src/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 400d713..f7ed6fa 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -223,6 +223,9 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         if (l->last == '\\') {      \
             l->last = GetChar(l);   \
             switch (l->last) {      \
+                case '\n':          \
+                    l->lineNumber++; \
+                    break;          \
                 case '"':           \
                     l->last = '"';  \
                     break;          \
@@ -248,6 +251,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     if (l->last == '\'') {
         l->last = GetChar(l);
 
+        if (l->last == '\n') l->lineNumber++;
+
         CHECK_ESCAPE();
 
         l->iValue = l->last;
@@ -270,6 +275,8 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
 
         while (l->last != '"') {
+            if (l->last == '\n') l->lineNumber++;
+
             CHECK_ESCAPE();
 
             if (l->last == 0) {
-- 
2.43.0


From 14a32c6807fb31fada4e9b32825eacd65e1a44d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 06/60] fix: reject calls with too few arguments to script
 functions

Only foreign functions had their argument count checked; a script function
called with too few arguments used whatever was below its frame.
---
 tiny/src/tiny.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2a84629..3bd356e 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3109,6 +3109,13 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->foreignFunc.index);
     } else {
+        int fNargs = sb_count(fn->func.args);
+
+        if (fNargs != nargs) {
+            ReportErrorE(state, errorExp, "Function '%s' expects %d args but you supplied %d.\n",
+                         fn->name, fNargs, nargs);
+        }
+
         GenerateCode(state, TINY_OP_CALL);
         GenerateCode(state, (Word)nargs);
         GEN_VALUE_NOPOS(state, &fn->func.index);
-- 
2.43.0


From 8d907cc0e5d8c88322165d0fe5419273192331ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 07/60] fix: reject struct constructors that leave out or
 repeat fields

PUSH_STRUCT takes one value per field from the stack, so a constructor with
missing or repeated initializers corrupted the stack.
---
 tiny/src/tiny.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3bd356e..f777a22 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2888,6 +2888,16 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
             Tiny_StringNode *nameNode = exp->constructor.argNamesHead;
 
+            for (Tiny_StringNode *a = nameNode; a; a = a->next) {
+                for (Tiny_StringNode *b = a->next; b; b = b->next) {
+                    if (strcmp(a->value, b->value) == 0) {
+                        ReportErrorE(state, exp,
+                                     "Designated initializer .%s for struct %s is given twice.",
+                                     a->value, GetTagName(exp->constructor.structTag));
+                    }
+                }
+            }
+
             int i = 0;
             for (Tiny_Expr *argNode = exp->constructor.argsHead; argNode;
                  (argNode = argNode->next, ++i)) {
@@ -2956,6 +2966,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 }
             }
 
+            if (i != tagCount || nameNode) {
+                ReportErrorE(state, exp, "struct %s constructor expects %d args but you supplied %d.",
+                             GetTagName(exp->constructor.structTag), tagCount, i);
+            }
+
             exp->tag = exp->constructor.structTag;
         } break;
 
-- 
2.43.0


From f66759cc73b69423e784e193051e93d35ccf5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 08/60] fix: pass the identifier text, not its node, to error
 messages

---
 tiny/src/tiny.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f777a22..bb11545 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2567,7 +2567,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3140,7 +3140,8 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n",
+                         exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3218,14 +3219,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3750,7 +3751,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3762,7 +3763,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
-- 
2.43.0


From 9a0cdabc85586798932347828872d1904d34c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:54 +0000
Subject: [PATCH 09/60] fix: reject break and continue outside of a loop

They were never patched and jumped to the start of the program.
---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index bb11545..806fe9d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3821,6 +3821,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 
             if (exp->proc.body) {
                 CompileStatement(state, exp->proc.body);
+                PatchBreakContinue(state, exp->proc.body, -1, -1);
             }
 
             GenerateCode(state, TINY_OP_RETURN);
@@ -3882,6 +3883,8 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
             PatchJumpLoc(state, skipBodyLoc, sb_count(state->program));
 
             PatchBreakContinue(state, exp->forx.body, sb_count(state->program), stepPc);
+            PatchBreakContinue(state, exp->forx.init, -1, -1);
+            PatchBreakContinue(state, exp->forx.step, -1, -1);
         } break;
 
         case TINY_EXP_RETURN: {
@@ -3913,6 +3916,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
 static void CompileProgram(Tiny_State *state, Tiny_Expr *progHead) {
     for (Tiny_Expr *exp = progHead; exp; exp = exp->next) {
         CompileStatement(state, exp);
+        PatchBreakContinue(state, exp, -1, -1);
     }
 }
 
-- 
2.43.0


From d4283a8683fbc9fe251a8a4d356021bd2202c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 10/60] fix: report the use of an undefined struct type instead
 of asserting

A struct type that was only named in a binding, or that a macro uses before
the check for undefined structs, reached assertions.
---
 tiny/src/tiny.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 806fe9d..1afebe1 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2873,6 +2873,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 ReportErrorE(state, exp, "Cannot use '.' on a %s", GetTagName(exp->dot.lhs->tag));
             }
 
+            if (!exp->dot.lhs->tag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->dot.lhs->tag));
+            }
+
             exp->tag = GetFieldTag(exp->dot.lhs->tag, exp->dot.field->value, NULL);
 
             if (!exp->tag) {
@@ -2882,7 +2887,12 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         } break;
 
         case TINY_EXP_CONSTRUCTOR: {
-            assert(exp->constructor.structTag->sstruct.defined);
+            // It may also have been turned into an opaque type by a macro
+            if (exp->constructor.structTag->type != TINY_SYM_TAG_STRUCT ||
+                !exp->constructor.structTag->sstruct.defined) {
+                ReportErrorE(state, exp, "Referenced undefined struct %s.",
+                             GetTagName(exp->constructor.structTag));
+            }
 
             int tagCount = sb_count(exp->constructor.structTag->sstruct.fields);
 
-- 
2.43.0


From 3853134676ff2ee2d0dfa4e5c55a63735cd74fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 11/60] fix: reject a variable used in its own inferred
 initializer

The type of x in 'x := x' was read before it was ever set.
---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 1afebe1..68fed8c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -834,6 +834,7 @@ static Tiny_Symbol *DeclareGlobalVar(Tiny_State *state, const char *name) {
     newNode->var.initialized = false;
     newNode->var.index = state->numGlobalVars;
     newNode->var.scope = 0;  // Global variable scope don't matter
+    newNode->var.tag = NULL;
     newNode->var.scopeEnded = false;
 
     sb_push(&state->ctx, state->globalSymbols, newNode);
@@ -899,6 +900,7 @@ static Tiny_Symbol *DeclareLocal(Tiny_State *state, const char *name) {
     newNode->var.scopeEnded = false;
     newNode->var.index = sb_count(state->currFunc->func.locals);
     newNode->var.scope = state->currScope;
+    newNode->var.tag = NULL;
 
     sb_push(&state->ctx, state->currFunc->func.locals, newNode);
 
@@ -2538,7 +2540,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "Using variable '%s' before its type is known.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From 47ebc76e8d28972d0515fe5c13eb5a3d14bf101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 12/60] fix: type check the operation of compound assignments

Only assignability was checked, so e.g. += on strings or bools and %= on
floats were accepted and computed on the raw representation.
---
 tiny/src/tiny.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 68fed8c..a1fcca4 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2737,6 +2737,23 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                     ResolveTypes(state, exp->binary.lhs);
                     ResolveTypes(state, exp->binary.rhs);
 
+                    if (exp->binary.op != TINY_TOK_EQUAL) {
+                        bool intOnly = exp->binary.op == TINY_TOK_PERCENTEQUAL ||
+                                       exp->binary.op == TINY_TOK_OREQUAL ||
+                                       exp->binary.op == TINY_TOK_ANDEQUAL;
+
+                        Tiny_SymbolType lhsType = exp->binary.lhs->tag->type;
+
+                        if (lhsType != TINY_SYM_TAG_INT &&
+                            (intOnly || lhsType != TINY_SYM_TAG_FLOAT)) {
+                            ReportErrorE(state, exp,
+                                         "Left hand side of compound assignment must be %s, but "
+                                         "it is a %s",
+                                         intOnly ? "an int" : "an int or a float",
+                                         GetTagName(exp->binary.lhs->tag));
+                        }
+                    }
+
                     if (!IsTagAssignableTo(exp->binary.rhs->tag, exp->binary.lhs->tag)) {
                         ReportErrorE(
                             state, exp, "Attempted to assign a '%s' to a '%s'. Can't do that.",
-- 
2.43.0


From 4d9bfd84645e729a5019ee71103fdd3849fe7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:01 +0000
Subject: [PATCH 13/60] fix: check the bounds of the value stack when pushing

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index a1fcca4..5b5b2f1 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1133,6 +1133,8 @@ static Tiny_Float ReadFloat(Tiny_StateThread *thread) {
 }
 
 static void DoPush(Tiny_StateThread *thread, Tiny_Value value) {
+    assert(thread->sp < TINY_THREAD_STACK_SIZE);
+
     thread->stack[thread->sp++] = value;
 }
 
@@ -1178,6 +1180,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         case TINY_OP_PUSH_NULL_N: {
             ++thread->pc;
             Word n = state->program[thread->pc++];
+            assert(thread->sp + n <= TINY_THREAD_STACK_SIZE);
             memset(&thread->stack[thread->sp], 0, sizeof(Tiny_Value) * n);
             thread->sp += n;
         } break;
-- 
2.43.0


From 083d3dc7ed9e89d03d1ca705e3164478febb7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:02 +0000
Subject: [PATCH 14/60] fix: keep the saved return value reachable during
 Tiny_CallFunction

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 5b5b2f1..0e5ca04 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -595,6 +595,10 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // The return value is restored once the call is done, so it has to survive any collections
+    // which happen in the meantime.
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From 78ad9353876f085169fd78d961024753a96bf65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:04 +0000
Subject: [PATCH 15/60] fix: mark objects before visiting what they refer to

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 0e5ca04..f69f1b2 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -131,14 +131,15 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
+    // Mark before visiting children because the object graph can be cyclic
+    obj->marked = 1;
+
     if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
         for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
     }
-
-    obj->marked = 1;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From 8ed48e4b899d71d3498ae046b91789a99a6724db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 16/60] fix: never ask the allocator for zero bytes at NULL

---
 tiny/src/tiny.c | 2 +-
 tiny/src/util.c | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index f69f1b2..0a77941 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -524,7 +524,7 @@ void Tiny_InitThread(Tiny_StateThread *thread, const Tiny_State *state) {
 static void AllocGlobals(Tiny_StateThread *thread) {
     // If the global variables haven't been allocated yet,
     // do that
-    if (!thread->globalVars) {
+    if (!thread->globalVars && thread->state->numGlobalVars > 0) {
         thread->globalVars =
             TMalloc(&thread->ctx, sizeof(Tiny_Value) * thread->state->numGlobalVars);
         memset(thread->globalVars, 0, sizeof(Tiny_Value) * thread->state->numGlobalVars);
diff --git a/tiny/src/util.c b/tiny/src/util.c
index b19ef6e..00562b7 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -13,7 +13,11 @@ void *TRealloc(Tiny_Context *ctx, void *ptr, size_t size) {
     return ctx->alloc(ptr, size, ctx->userdata);
 }
 
-void TFree(Tiny_Context *ctx, void *ptr) { ctx->alloc(ptr, 0, ctx->userdata); }
+void TFree(Tiny_Context *ctx, void *ptr) {
+    if (!ptr) return;
+
+    ctx->alloc(ptr, 0, ctx->userdata);
+}
 
 int Tiny_TranslatePosToLineNumber(const char *src, Tiny_TokenPos pos) {
     int curPos = 0;
-- 
2.43.0


From 52af267626f389df5e5801a70cc549def1062a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 17/60] fix: do not truncate integer results and constants to
 32 bits

---
 tiny/include/tiny.h | 2 +-
 tiny/src/tiny.c     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..8b56fb6 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -183,7 +183,7 @@ extern Tiny_Context Tiny_DefaultContext;
 void Tiny_ProtectFromGC(Tiny_Value value);
 
 Tiny_Value Tiny_NewBool(bool value);
-Tiny_Value Tiny_NewInt(int i);
+Tiny_Value Tiny_NewInt(Tiny_Int i);
 Tiny_Value Tiny_NewFloat(Tiny_Float f);
 Tiny_Value Tiny_NewConstString(const char *string);
 Tiny_Value Tiny_NewLightNative(void *ptr);
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 0a77941..e66b4ef 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -354,7 +354,7 @@ Tiny_Value Tiny_NewBool(bool value) {
     return val;
 }
 
-Tiny_Value Tiny_NewInt(int i) {
+Tiny_Value Tiny_NewInt(Tiny_Int i) {
     Tiny_Value val;
 
     val.type = TINY_VAL_INT;
-- 
2.43.0


From 2bbf6577714793dd8c445ab368226e076b88d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 18/60] fix: compare the whole of strings that contain NUL
 characters

---
 tiny/src/tiny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index e66b4ef..c0919a9 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -242,7 +242,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
@@ -257,7 +257,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.cstr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.cstr, Tiny_ToString(b), aLen) == 0;
     }
 
     return false;
-- 
2.43.0


From 926a24c69274a6e1b1b0ef2a4c8cf2df68a94319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 19/60] fix: let a nullable be assigned to the same nullable
 type

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c0919a9..72bd397 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2499,6 +2499,10 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     }
 
     if (dest->type == TINY_SYM_TAG_NULLABLE) {
+        if (src->type == TINY_SYM_TAG_NULLABLE) {
+            src = src->nullableTag;
+        }
+
         return IsTagAssignableTo(src, dest->nullableTag);
     }
 
-- 
2.43.0


From 7b44124b08f3ac2dcaef86778a8f25a64136fde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:50 +0000
Subject: [PATCH 20/60] fix: type check the operands of the index operator

---
 tiny/src/tiny.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 72bd397..c4bfb6b 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2513,6 +2513,26 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
     return false;
 }
 
+// Checks the type of the argIndex'th argument given to a _get_index/_set_index function
+static void CheckIndexFuncArg(Tiny_State *state, const Tiny_Expr *errorExp, const Tiny_Symbol *func,
+                              int argIndex, const Tiny_Symbol *tag) {
+    const Tiny_Symbol *expectedTag = NULL;
+
+    if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
+        if (argIndex < sb_count(func->foreignFunc.argTags)) {
+            expectedTag = func->foreignFunc.argTags[argIndex];
+        }
+    } else if (argIndex < sb_count(func->func.args)) {
+        expectedTag = func->func.args[argIndex]->var.tag;
+    }
+
+    if (expectedTag && !IsTagAssignableTo(tag, expectedTag)) {
+        ReportErrorE(state, errorExp,
+                     "Argument %i to '%s' is supposed to be a '%s' but you supplied a '%s'\n",
+                     argIndex + 1, func->name, GetTagName(expectedTag), GetTagName(tag));
+    }
+}
+
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
@@ -2772,6 +2792,17 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                             GetTagName(exp->binary.rhs->tag), GetTagName(exp->binary.lhs->tag));
                     }
 
+                    const Tiny_Expr *lhs = exp->binary.lhs;
+
+                    if (lhs->type == TINY_EXP_INDEX && lhs->index.setIndexFunc) {
+                        CheckIndexFuncArg(state, exp, lhs->index.setIndexFunc, 0,
+                                          lhs->index.arr->tag);
+                        CheckIndexFuncArg(state, exp, lhs->index.setIndexFunc, 1,
+                                          lhs->index.elem->tag);
+                        CheckIndexFuncArg(state, exp, lhs->index.setIndexFunc, 2,
+                                          exp->binary.rhs->tag);
+                    }
+
                     exp->tag = GetPrimTag(TINY_SYM_TAG_VOID);
                 } break;
 
@@ -3086,8 +3117,9 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                                                   ? getIndexFunc->foreignFunc.returnTag
                                                   : getIndexFunc->func.returnTag;
 
-            // TODO(Apaar): Check that the argument count of getIndexFunc is 2 and also that it
-            // receives the correct argument types.
+            // NOTE: The number of arguments is checked when the call is compiled.
+            CheckIndexFuncArg(state, exp->index.arr, getIndexFunc, 0, exp->index.arr->tag);
+            CheckIndexFuncArg(state, exp->index.elem, getIndexFunc, 1, exp->index.elem->tag);
 
             exp->tag = getIndexReturnType;
 
-- 
2.43.0


From 2b66fc9fa027f70cad9f1f1e7ac9256de757c2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 21/60] fix: fill in the position of compile errors

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c4bfb6b..d534ea4 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -45,6 +45,7 @@ static void ReportErrorL(Tiny_State *state, Tiny_Lexer *l, const char *s, ...) {
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = l->pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), l->fileName, l->src, l->pos, s,
@@ -60,6 +61,7 @@ static void ReportErrorSL(Tiny_State *state, const char *s, ...) {
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = state->l.pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
@@ -1488,6 +1490,7 @@ static void ReportErrorE(Tiny_State *state, const Tiny_Expr *exp, const char *s,
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = exp->pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
@@ -1503,6 +1506,7 @@ static void ReportErrorS(Tiny_State *state, const Tiny_Symbol *sym, const char *
     va_start(args, s);
 
     state->compileErrorResult.type = TINY_COMPILE_ERROR;
+    state->compileErrorResult.error.pos = sym->pos;
 
     Tiny_FormatErrorV(state->compileErrorResult.error.msg,
                       sizeof(state->compileErrorResult.error.msg), state->l.fileName, state->l.src,
-- 
2.43.0


From de25994276398539265c1717f2f39ff3f8d39526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:20 +0000
Subject: [PATCH 22/60] fix: report compile errors on the line of the token,
 not of its lookahead

---
 tiny/src/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tiny/src/util.c b/tiny/src/util.c
index 00562b7..281cb3e 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -64,7 +64,9 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
     APPEND("\n");
 
     if (src) {
-        int lineNumber = Tiny_TranslatePosToLineNumber(src, pos);
+        // The lexer has always read one character past the current token, so `pos` is just after
+        // that character. If it's a newline then it's not part of the line we're on.
+        int lineNumber = Tiny_TranslatePosToLineNumber(src, pos > 0 ? pos - 1 : 0);
         int curLine = 1;
 
         // Print nearest 3 lines
-- 
2.43.0


From 89d6ccb8a5fc31a5ef6d114b2831012864870380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:21 +0000
Subject: [PATCH 23/60] fix: keep the error message when the surrounding lines
 are long

---
 tiny/src/util.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tiny/src/util.c b/tiny/src/util.c
index 281cb3e..cd3ab81 100644
--- a/tiny/src/util.c
+++ b/tiny/src/util.c
@@ -69,8 +69,8 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
         int lineNumber = Tiny_TranslatePosToLineNumber(src, pos > 0 ? pos - 1 : 0);
         int curLine = 1;
 
-        // Print nearest 3 lines
-        while (*src) {
+        // Print nearest 3 lines, but always leave room for the message itself
+        while (*src && used < bufsize / 2) {
             if (abs(lineNumber - curLine) <= 3) {
                 if (curLine == lineNumber) {
                     APPEND("%d ->\t", curLine);
@@ -78,7 +78,7 @@ void Tiny_FormatErrorV(char *buf, size_t bufsize, const char *fileName, const ch
                     APPEND("%d\t", curLine);
                 }
 
-                while (*src && *src != '\n') {
+                while (*src && *src != '\n' && used < bufsize / 2) {
                     APPEND("%c", *src);
                     src += 1;
                 }
-- 
2.43.0


From 5994fadf554c5fe692ac9f8e485d3306e7c0efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 24/60] fix: do not leak parsed parameters and fields when
 compilation fails

---
 tiny/src/tiny.c | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d534ea4..9ba0802 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1720,30 +1720,22 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
 
     GetNextToken(state);
 
-    typedef struct {
-        char *name;
-        Tiny_Symbol *tag;
-    } Arg;
-
-    Arg *args = NULL;  // array
-
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
-        Arg arg;
+        // The function owns this from here on out. Its index and type are filled in below.
+        Tiny_Symbol *arg =
+            DeclareArgument(state, state->l.lexeme, GetPrimTag(TINY_SYM_TAG_ANY), 0);
 
-        arg.name = CloneString(&state->ctx, state->l.lexeme);
         GetNextToken(state);
 
         if (state->l.lastTok != TINY_TOK_COLON) {
-            ReportErrorSL(state, "Expected ':' after %s", arg.name);
+            ReportErrorSL(state, "Expected ':' after %s", arg->name);
         }
 
         GetNextToken(state);
 
-        arg.tag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, args, arg);
+        arg->var.tag = ParseTypeSL(state);
 
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
@@ -1754,12 +1746,12 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         if (state->l.lastTok == TINY_TOK_COMMA) GetNextToken(state);
     }
 
-    for (int i = 0; i < sb_count(args); ++i) {
-        DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
-        TFree(&state->ctx, args[i].name);
-    }
+    int nargs = sb_count(exp->proc.decl->func.args);
 
-    sb_free(&state->ctx, args);
+    for (int i = 0; i < nargs; ++i) {
+        // See DeclareArgument; only now do we know how many arguments there are
+        exp->proc.decl->func.args[i]->var.index = -nargs + i;
+    }
 
     GetNextToken(state);
 
@@ -1822,13 +1814,14 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
         Tiny_Symbol *f = Symbol_create(TINY_SYM_FIELD, state->l.lexeme, state);
 
+        f->fieldTag = NULL;
+        sb_push(&state->ctx, s->sstruct.fields, f);
+
         GetExpectTokenSL(state, TINY_TOK_COLON, "Expected ':' after field name.");
 
         GetNextToken(state);
 
         f->fieldTag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, s->sstruct.fields, f);
     }
 
     GetNextToken(state);
-- 
2.43.0


From 6485af5788599467dcfc267a8759f35b71b52d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 25/60] fix: report too many strings as a compile error

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9ba0802..7e1c2a6 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -701,6 +701,10 @@ static int RegisterString(Tiny_State *state, const char *string) {
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
+    if (state->numStrings >= MAX_STRINGS && state->compileCallNestCount > 0) {
+        ReportErrorSL(state, "Exceeded maximum number of strings (%d).", MAX_STRINGS);
+    }
+
     assert(state->numStrings < MAX_STRINGS);
     state->strings[state->numStrings++] = CloneString(&state->ctx, string);
 
-- 
2.43.0


From 253481e20c0ff5608be60d5c4a428522c1ea9267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 26/60] fix: restore the whole state when compilation fails

---
 tiny/src/tiny.c | 70 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7e1c2a6..92627d0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4087,6 +4087,33 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
 
+    // In case compilation fails, all of this has to be put back the way it was
+    int startNumStrings = state->numStrings;
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+    int startScope = state->currScope;
+    Tiny_Symbol *startFunc = state->currFunc;
+
+    int startPCToFileLineCount = sb_count(state->pcToFileLine);
+    Tiny_PCToFileLine startLastPCToFileLine = {0};
+
+    if (startPCToFileLineCount > 0) {
+        startLastPCToFileLine = state->pcToFileLine[startPCToFileLineCount - 1];
+    }
+
+    // Structs which were referred to (e.g. in the signatures of foreign functions) but haven't
+    // been defined yet.
+    Tiny_Symbol **undefinedStructs = NULL;  // array
+
+    for (int i = 0; i < firstSymIndex; ++i) {
+        Tiny_Symbol *sym = state->globalSymbols[i];
+
+        if (sym->type == TINY_SYM_TAG_STRUCT && !sym->sstruct.defined) {
+            sb_push(&state->ctx, undefinedStructs, sym);
+        }
+    }
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -4094,6 +4121,23 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int jmpCode = setjmp(state->compileErrorJmpBufs[state->compileCallNestCount - 1]);
 
     if (jmpCode) {
+        // Make the structs we've defined undefined again
+        for (int i = 0; i < sb_count(undefinedStructs); ++i) {
+            Tiny_Symbol *sym = undefinedStructs[i];
+
+            for (int j = 0; j < sb_count(sym->sstruct.fields); ++j) {
+                Symbol_destroy(sym->sstruct.fields[j], &state->ctx);
+            }
+
+            sb_free(&state->ctx, sym->sstruct.fields);
+
+            sym->type = TINY_SYM_TAG_STRUCT;
+            sym->sstruct.defined = false;
+            sym->sstruct.fields = NULL;
+        }
+
+        sb_free(&state->ctx, undefinedStructs);
+
         // Free all stuff allocated since the start of compilation
         for (int i = firstSymIndex; i < sb_count(state->globalSymbols); ++i) {
             Symbol_destroy(state->globalSymbols[i], &state->ctx);
@@ -4110,6 +4154,30 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         if (state->program) {
             // TODO(Apaar): Should we realloc and shrink?
             stb__sbn(state->program) = startCodeLen;
+
+            // The code generated before ended in a halt which we overwrote
+            if (startCodeLen > 0) {
+                state->program[startCodeLen - 1] = TINY_OP_HALT;
+            }
+        }
+
+        for (int i = startNumStrings; i < state->numStrings; ++i) {
+            TFree(&state->ctx, state->strings[i]);
+        }
+
+        state->numStrings = startNumStrings;
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+        state->currScope = startScope;
+        state->currFunc = startFunc;
+
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startPCToFileLineCount;
+
+            if (startPCToFileLineCount > 0) {
+                state->pcToFileLine[startPCToFileLineCount - 1] = startLastPCToFileLine;
+            }
         }
 
         state->l = prevLexer;
@@ -4182,6 +4250,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                      lastSymIndex);  // Done after compilation because it might have registered
                                      // undefined functions during the compilation stage
 
+    sb_free(&state->ctx, undefinedStructs);
+
     Tiny_DestroyLexer(&state->l);
 
     // Deletes all the parser data in one go, no deletion chores required
-- 
2.43.0


From 2ddcee4796dd1e1f13c7e6f25ec7b61150cfdf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 27/60] fix: disassemble the shift instructions

---
 tiny/src/tiny.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 92627d0..ae5dd18 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4422,6 +4422,8 @@ bool Tiny_DisasmOne(const Tiny_State *state, int *ppc, char *buf, size_t maxlen)
             OP_NO_ARGS(MOD)
             OP_NO_ARGS(OR)
             OP_NO_ARGS(AND)
+            OP_NO_ARGS(SHIFT_LEFT)
+            OP_NO_ARGS(SHIFT_RIGHT)
             OP_NO_ARGS(LT)
             OP_NO_ARGS(LTE)
             OP_NO_ARGS(GT)
-- 
2.43.0


From 493996d890cf54bee4a604e70192743b7172820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:08 +0000
Subject: [PATCH 28/60] fix: allow floats and NULL light natives as dict keys

---
 tiny/src/dict.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tiny/src/dict.c b/tiny/src/dict.c
index 9234fe8..49e0465 100644
--- a/tiny/src/dict.c
+++ b/tiny/src/dict.c
@@ -22,6 +22,20 @@ static unsigned long HashValue(Tiny_Value value) {
             return (int)value.boolean + 1;
         case TINY_VAL_INT:
             return (unsigned long)value.i;
+        case TINY_VAL_FLOAT: {
+            // 0.0 and -0.0 are equal, so they must have the same hash
+            Tiny_Float f = value.f == 0 ? 0 : value.f;
+            unsigned char bytes[sizeof(f)];
+            unsigned long hash = 5381;
+
+            memcpy(bytes, &f, sizeof(f));
+
+            for (size_t i = 0; i < sizeof(bytes); ++i) hash = hash * 33 + bytes[i];
+
+            return hash;
+        }
+        case TINY_VAL_LIGHT_NATIVE:
+            return (uintptr_t)value.addr;
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
             const char *start = Tiny_ToString(value);
-- 
2.43.0


From 283eba455c881398d62473d810be5fc3de9aa47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 29/60] fix: clear and resize arrays which never had any
 elements

---
 tiny/src/array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..3308202 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -20,7 +20,9 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i] = newValue;
         }
-    } else {
+    } else if (array->data) {
         stb__sbn(array->data) = newLen;
     }
 }
-- 
2.43.0


From f6cab65ab84ebdc8222291f2e3821665e906f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 30/60] fix: use the length of strings instead of looking for a
 NUL

---
 tiny/src/std.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..e08be53 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -45,12 +45,12 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt(Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
     int i = Tiny_ToInt(args[1]);
 
@@ -114,7 +114,7 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
@@ -131,7 +131,7 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)strlen(str);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)Tiny_StringLen(args[1]);
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
@@ -174,7 +174,7 @@ static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args
 
     const char *s = Tiny_ToString(args[1]);
 
-    fwrite(s, 1, strlen(s), file);
+    fwrite(s, 1, Tiny_StringLen(args[1]), file);
     fclose(file);
 
     return Tiny_NewBool(true);
-- 
2.43.0


From 62c5b11b015b8324acfe69607dc50396f635ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 31/60] fix: compare ints without overflow when sorting arrays

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index e08be53..5885cf1 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -324,7 +324,7 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From f7a7b18c2603e2274d1b7252a912199bd07307ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 32/60] fix: floor and ceil in the precision of Tiny_Float

---
 tiny/src/std.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5885cf1..067b2c2 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -705,11 +705,11 @@ static Tiny_Value Exit(Tiny_StateThread *thread, const Tiny_Value *args, int cou
 }
 
 static Tiny_Value Lib_Floor(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(floorf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(floor(Tiny_ToFloat(args[0])));
 }
 
 static Tiny_Value Lib_Ceil(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewFloat(ceilf(Tiny_ToFloat(args[0])));
+    return Tiny_NewFloat(ceil(Tiny_ToFloat(args[0])));
 }
 
 #ifdef _WIN32
-- 
2.43.0


From b67dc59c0b50194e48547a8665b6fddc62220414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:14 +0000
Subject: [PATCH 33/60] fix: parse integers wider than 32 bits in str_to_int
 and stoi

---
 tiny/src/std.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 067b2c2..82bcad3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -515,9 +515,9 @@ static Tiny_Value Lib_Stoi(Tiny_StateThread *thread, const Tiny_Value *args, int
     const char *str = Tiny_ToString(args[0]);
     int base = count > 1 ? Tiny_ToInt(args[1]) : 10;
 
-    long value = strtol(str, NULL, base);
+    long long value = strtoll(str, NULL, base);
 
-    return Tiny_NewInt((int)value);
+    return Tiny_NewInt((Tiny_Int)value);
 }
 
 static Tiny_Value Lib_Ntos(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From 94c07068a105b3c086eb1ef6e913e61e60f3c02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 34/60] fix: stop reading input at the end of the file

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 82bcad3..fac5192 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -563,7 +563,7 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     int c = getc(stdin);
     int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From b58627da60a518367f09ed263b8aafcf3c6f1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 35/60] fix: handle %% and a trailing % in printf, print bools

---
 tiny/src/std.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index fac5192..e9a104e 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -587,6 +587,9 @@ static void Print(Tiny_Value val, bool repr) {
         case TINY_VAL_NULL:
             printf("<null>");
             break;
+        case TINY_VAL_BOOL:
+            printf(val.boolean ? "true" : "false");
+            break;
         case TINY_VAL_INT:
             printf("%lld", (int64_t)val.i);
             break;
@@ -657,7 +660,13 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
     int arg = 1;
 
     while (*fmt) {
-        if (*fmt == '%') {
+        if (*fmt == '%' && fmt[1] == '%') {
+            putc('%', stdout);
+            fmt += 2;
+        } else if (*fmt == '%' && fmt[1] == '\0') {
+            // Nothing to format
+            putc(*fmt++, stdout);
+        } else if (*fmt == '%') {
             if (arg >= count) {
                 fprintf(stderr, "Too few arguments for format '%s'\n", fmt);
                 exit(1);
@@ -681,9 +690,6 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                 case 'q':
                     Print(args[arg], true);
                     break;
-                case '%':
-                    putc('%', stdout);
-
                 default:
                     printf("\nInvalid format specifier '%c'\n", *fmt);
             }
-- 
2.43.0


From a5e598423c17898c86a96131484c79516181bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 36/60] fix: only concatenate the parts of a string in
 str_to_json

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index e9a104e..a49adda 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1019,7 +1019,7 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
                                         Tiny_NewConstString("\"")};
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
+            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
         } break;
 
         default:
-- 
2.43.0


From 11c480504bde0c2d8b366d7f06372f5ac1bd6afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:18 +0000
Subject: [PATCH 37/60] fix: do not round ints in int_to_json

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index a49adda..f2019fc 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1011,8 +1011,9 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
         case TINY_VAL_BOOL:
             return Tiny_NewConstString(args[0].boolean ? "true" : "false");
         case TINY_VAL_FLOAT:
-        case TINY_VAL_INT:
             return Lib_Ntos(thread, args, count);
+        case TINY_VAL_INT:
+            return Lib_IntToStr(thread, args, count);
         case TINY_VAL_CONST_STRING:
         case TINY_VAL_STRING: {
             // TODO(Apaar): Escape args[0] string
-- 
2.43.0


From f2270292aeb4468990f9e65d730481c7061992c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 38/60] fix: check the number of arguments of a macro before
 storing them

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ae5dd18..bdbf812 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4208,9 +4208,10 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= sizeof(args) / sizeof(args[0])) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value,
+                                     (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From 477b89ba8634acad1d0cf4d0deea00ad013d3f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 39/60] fix: report unknown types, recursion and long structs
 in the json macro

---
 tiny/src/std.c | 61 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f2019fc..c50e650 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -774,7 +774,14 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
-static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
+typedef struct JsonTypeChain {
+    const Tiny_Symbol *sym;
+    const struct JsonTypeChain *parent;
+} JsonTypeChain;
+
+// `parent` is the chain of structs whose serializers are being generated right now
+static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym,
+                                                  const JsonTypeChain *parent) {
     if (sym->type == TINY_SYM_TAG_FOREIGN) {
         // For foreign types, it's up to the calling code to set up an appropriate serializer.
         // We can't do it automatically.
@@ -790,38 +797,66 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-    // Hopefully enough lol?
-    char buf[2048] = {0};
+    for (const JsonTypeChain *node = parent; node; node = node->parent) {
+        if (node->sym == sym) {
+            Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Cannot serialize struct %s because it contains itself", sym->name);
+
+            return macroResult;
+        }
+    }
+
+    JsonTypeChain chain = {sym, parent};
+
+    size_t size = 2 * strlen(sym->name) + 128;
+
+    for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
+        const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
+
+        size += 2 * strlen(fieldSym->name) + strlen(fieldSym->fieldTag->name) + 64;
+    }
+
+    char *buf = Tiny_AllocUsingContext(state->ctx, NULL, size);
     int used = 0;
 
-    snprintf(buf, sizeof(buf), "%s_to_json", sym->name);
+    snprintf(buf, size, "%s_to_json", sym->name);
 
     if (Tiny_FindFuncSymbol(state, buf)) {
         // Already bound, don't bother
+        Tiny_AllocUsingContext(state->ctx, buf, 0);
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-    used +=
-        snprintf(buf, sizeof(buf), "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
-                 sym->name, sym->name);
+    used += snprintf(buf, size, "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
+                     sym->name, sym->name);
 
     for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
         if (i > 0) {
-            used += snprintf(buf + used, sizeof(buf) - used, ", \",\",\n\t\t");
+            used += snprintf(buf + used, size - used, ", \",\",\n\t\t");
         }
 
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
 
-        BindJsonSerializerForType(state, fieldSym->fieldTag);
+        Tiny_MacroResult fieldResult =
+            BindJsonSerializerForType(state, fieldSym->fieldTag, &chain);
 
-        used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
+        if (fieldResult.type != TINY_MACRO_SUCCESS) {
+            Tiny_AllocUsingContext(state->ctx, buf, 0);
+            return fieldResult;
+        }
+
+        used += snprintf(buf + used, size - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
                          fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
     }
 
-    used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
+    used += snprintf(buf + used, size - used, ",\n\t\"}\")\n}");
 
     Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", buf);
 
+    Tiny_AllocUsingContext(state->ctx, buf, 0);
+
     if (compileResult.type != TINY_COMPILE_SUCCESS) {
         Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
 
@@ -844,14 +879,14 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
         };
     }
 
-    return BindJsonSerializerForType(state, sym);
+    return BindJsonSerializerForType(state, sym, NULL);
 }
 
 static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
-- 
2.43.0


From 5cf1ef48c8c5376bade9d022f10f5b224d252c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:52 +0000
Subject: [PATCH 40/60] fix: report names the array macro cannot bind instead
 of exiting

---
 tiny/src/std.c | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index c50e650..14043e1 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -918,10 +918,42 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    Tiny_RegisterType(state, asName);
-
     char sigbuf[512] = {0};
 
+    if (2 * strlen(asName) + strlen(args[0]) + 64 > sizeof(sigbuf)) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The 'as' name or the element type name is too long",
+        };
+    }
+
+    static const char *const suffixes[] = {
+        "",           "_clear", "_resize", "_resize_fill", "_get",   "_get_index", "_set",
+        "_set_index", "_len",   "_push",   "_pop",         "_shift", "_remove",    "_insert",
+        "_sort",
+    };
+
+    for (int i = 0; i < sizeof(suffixes) / sizeof(suffixes[0]); ++i) {
+        if (strcmp(suffixes[i], "_sort") == 0 && elemType->type != TINY_SYM_TAG_INT) {
+            continue;
+        }
+
+        snprintf(sigbuf, sizeof(sigbuf), "%s%s", asName, suffixes[i]);
+
+        const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, sigbuf);
+
+        if (func && func->type == TINY_SYM_FOREIGN_FUNCTION) {
+            Tiny_MacroResult result = {.type = TINY_MACRO_ERROR};
+
+            snprintf(result.error.msg, sizeof(result.error.msg),
+                     "There is already a function named '%s'", sigbuf);
+
+            return result;
+        }
+    }
+
+    Tiny_RegisterType(state, asName);
+
     bool primitive = elemType->type == TINY_SYM_TAG_BOOL || elemType->type == TINY_SYM_TAG_INT ||
                      elemType->type == TINY_SYM_TAG_FLOAT;
 
-- 
2.43.0


From 0cbc8c326b834f8de81d23b8a5c4ce85a38b9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:23 +0000
Subject: [PATCH 41/60] fix: report unknown functions and failed compilation in
 the delegate macro

---
 tiny/src/std.c | 78 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 66 insertions(+), 12 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 14043e1..dec13a9 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1123,6 +1123,18 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
+    if (!func) {
+        return (Tiny_MacroResult){
+            .type = TINY_MACRO_ERROR,
+            .error.msg = "The function you specified does not exist",
+        };
+    }
+
+    static const Tiny_MacroResult tooLong = {
+        .type = TINY_MACRO_ERROR,
+        .error.msg = "The signature of the function you specified is too long",
+    };
+
     for (int i = 0;
          i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
                                                                    : func->foreignFunc.argTags);
@@ -1140,6 +1152,12 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         argsUsed +=
             snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, "a%d: %s", i, argTag->name);
         paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, "a%d", i);
+
+        // 16 leaves room for the separators
+        if (typeUsed + 16 > sizeof(typeBuf) || argsUsed + 16 > sizeof(argsBuf) ||
+            paramsUsed + 16 > sizeof(paramsBuf)) {
+            return tooLong;
+        }
     }
 
     const Tiny_Symbol *returnTag =
@@ -1149,30 +1167,66 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_%s", returnTagName);
 
+    if (typeUsed >= sizeof(typeBuf)) {
+        return tooLong;
+    }
+
     if (!Tiny_FindTypeSymbol(state, typeBuf)) {
         Tiny_RegisterType(state, typeBuf);
 
-        char callBuf[512] = {0};
+        char callBuf[4096] = {0};
+        int callUsed = 0;
 
         if (returnTag->type != TINY_SYM_TAG_VOID) {
-            snprintf(callBuf, sizeof(callBuf),
-                     "func %s_call(f: %s, %s): %s { return cast(call_function(f, %s), %s) }",
-                     typeBuf, typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
+            callUsed =
+                snprintf(callBuf, sizeof(callBuf),
+                         "func %s_call(f: %s, %s): %s { return cast(call_function(f, %s), %s) }",
+                         typeBuf, typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
         } else {
-            snprintf(callBuf, sizeof(callBuf), "func %s_call(f: %s, %s) { call_function(f, %s) }",
-                     typeBuf, typeBuf, argsBuf, paramsBuf);
+            callUsed = snprintf(callBuf, sizeof(callBuf),
+                                "func %s_call(f: %s, %s) { call_function(f, %s) }", typeBuf,
+                                typeBuf, argsBuf, paramsBuf);
         }
 
-        Tiny_CompileString(state, "(delegate call function)", callBuf);
+        if (callUsed >= sizeof(callBuf)) {
+            return tooLong;
+        }
+
+        Tiny_CompileResult compileResult =
+            Tiny_CompileString(state, "(delegate call function)", callBuf);
+
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Failed to compile delegate code: %s", compileResult.error.msg);
+
+            return macroResult;
+        }
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
-        char createBuf[512] = {0};
-        snprintf(createBuf, sizeof(createBuf),
-                 "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName, typeBuf,
-                 args[0], typeBuf);
+        char createBuf[4096] = {0};
+        int createUsed =
+            snprintf(createBuf, sizeof(createBuf),
+                     "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName,
+                     typeBuf, args[0], typeBuf);
+
+        if (createUsed >= sizeof(createBuf)) {
+            return tooLong;
+        }
 
-        Tiny_CompileString(state, "(delegate create function)", createBuf);
+        Tiny_CompileResult compileResult =
+            Tiny_CompileString(state, "(delegate create function)", createBuf);
+
+        if (compileResult.type != TINY_COMPILE_SUCCESS) {
+            Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Failed to compile delegate code: %s", compileResult.error.msg);
+
+            return macroResult;
+        }
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-- 
2.43.0


From 115896beeb583512ebfdecde55616c9f005f5c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 42/60] fix: make delegates of foreign functions callable

---
 tiny/src/std.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index dec13a9..6e1356c 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1207,10 +1207,29 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
         char createBuf[4096] = {0};
-        int createUsed =
-            snprintf(createBuf, sizeof(createBuf),
-                     "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName,
-                     typeBuf, args[0], typeBuf);
+        int createUsed = 0;
+
+        const char *targetSuffix = "";
+
+        if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
+            // Only Tiny functions have an index to call them by, so wrap the foreign one
+            targetSuffix = "_target";
+
+            createUsed = snprintf(
+                createBuf, sizeof(createBuf), "func %s%s(%s)%s%s { %s%s(%s) }\n", asName,
+                targetSuffix, argsBuf, returnTag->type != TINY_SYM_TAG_VOID ? ": " : "",
+                returnTag->type != TINY_SYM_TAG_VOID ? returnTagName : "",
+                returnTag->type != TINY_SYM_TAG_VOID ? "return " : "", args[0], paramsBuf);
+
+            if (createUsed >= sizeof(createBuf)) {
+                return tooLong;
+            }
+        }
+
+        createUsed +=
+            snprintf(createBuf + createUsed, sizeof(createBuf) - createUsed,
+                     "func %s(): %s { return cast(get_function_index(\"%s%s\"), %s) }", asName,
+                     typeBuf, *targetSuffix ? asName : args[0], targetSuffix, typeBuf);
 
         if (createUsed >= sizeof(createBuf)) {
             return tooLong;
-- 
2.43.0


From d3b621e73d2acec876d166599668f08d3290b191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 43/60] fix: report compile calls which are nested too deeply

---
 tiny/src/tiny.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index bdbf812..fc02f7d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4075,7 +4075,15 @@ static void CompileState(Tiny_State *state, Tiny_Expr *progHead) {
 }
 
 Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const char *string) {
-    assert(state->compileCallNestCount < TINY_MAX_NESTED_COMPILE_CALLS);
+    if (state->compileCallNestCount >= TINY_MAX_NESTED_COMPILE_CALLS) {
+        // There is nowhere to jump to yet
+        Tiny_CompileResult result = {.type = TINY_COMPILE_ERROR};
+
+        snprintf(result.error.msg, sizeof(result.error.msg),
+                 "\nERROR %s(1): Exceeded maximum number of nested compile calls (%d).\n", name,
+                 TINY_MAX_NESTED_COMPILE_CALLS);
+        return result;
+    }
 
     // In order to make this function re-entrant, we save the lexer/parser arena on the stack
     Tiny_Lexer prevLexer = state->l;
-- 
2.43.0


From f7d71441dcb4de358fb9ff274158595bd04838ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:37 +0000
Subject: [PATCH 44/60] fix: print strings that contain NUL characters in full

---
 tiny/src/std.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 6e1356c..5ce3f6c 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -605,9 +605,11 @@ static void Print(Tiny_Value val, bool repr) {
             break;
         case TINY_VAL_STRING:
             if (repr) {
-                printf("\"%.*s\"", (int)val.obj->string.len, val.obj->string.ptr);
+                putc('"', stdout);
+                fwrite(val.obj->string.ptr, 1, val.obj->string.len, stdout);
+                putc('"', stdout);
             } else {
-                printf("%.*s", (int)val.obj->string.len, val.obj->string.ptr);
+                fwrite(val.obj->string.ptr, 1, val.obj->string.len, stdout);
             }
             break;
         case TINY_VAL_LIGHT_NATIVE:
@@ -681,7 +683,7 @@ static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, i
                     printf("%f", args[arg].f);
                     break;
                 case 's':
-                    printf("%.*s", (int)Tiny_StringLen(args[arg]), Tiny_ToString(args[arg]));
+                    fwrite(Tiny_ToString(args[arg]), 1, Tiny_StringLen(args[arg]), stdout);
                     break;
                 case 'c':
                     printf("%c", (char)args[arg].i);
-- 
2.43.0


From 967c46dbfad69b8ee0b63b9e97bec637fb096a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 45/60] fix: keep the full width of int and float literals

---
 tiny/include/expr.h  | 4 ++--
 tiny/include/lexer.h | 4 ++--
 tiny/src/lexer.c     | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/tiny/include/expr.h b/tiny/include/expr.h
index 7292418..7bd4a8e 100644
--- a/tiny/include/expr.h
+++ b/tiny/include/expr.h
@@ -59,8 +59,8 @@ typedef struct Tiny_Expr {
     union {
         bool boolean;
 
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
         int sIndex;
 
         struct {
diff --git a/tiny/include/lexer.h b/tiny/include/lexer.h
index 2692028..ae10e84 100644
--- a/tiny/include/lexer.h
+++ b/tiny/include/lexer.h
@@ -22,8 +22,8 @@ typedef struct {
 
     union {
         bool bValue;
-        int iValue;
-        float fValue;
+        Tiny_Int iValue;
+        Tiny_Float fValue;
     };
 
     const char *errorMsg;
diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index f7ed6fa..9ee4100 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -206,13 +206,13 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         sb_push(&l->ctx, l->lexeme, 0);
 
         if (isFloat) {
-            l->fValue = (float)strtod(l->lexeme, NULL);
+            l->fValue = (Tiny_Float)strtod(l->lexeme, NULL);
         } else if (isHex) {
             int64_t value = strtoll(l->lexeme, NULL, 16);
 
-            l->iValue = (int)value;
+            l->iValue = (Tiny_Int)value;
         } else {
-            l->iValue = strtol(l->lexeme, NULL, 10);
+            l->iValue = (Tiny_Int)strtoll(l->lexeme, NULL, 10);
         }
 
         return isFloat ? TINY_TOK_FLOAT : TINY_TOK_INT;
-- 
2.43.0


From 5469d5c49cd59930cb95d0157ad3dc53331d9c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 46/60] fix: convert floats to the full width of ints

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fc02f7d..518a3d0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -431,7 +431,7 @@ Tiny_Value Tiny_NewStringCopyNullTerminated(Tiny_StateThread *thread, const char
 static void Symbol_destroy(Tiny_Symbol *sym, Tiny_Context *ctx);
 
 static Tiny_Value Lib_ToInt(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)Tiny_ToFloat(args[0]));
+    return Tiny_NewInt((Tiny_Int)Tiny_ToFloat(args[0]));
 }
 
 static Tiny_Value Lib_ToFloat(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From bd47d5b55b1b066c36258281dc8372c8a84d844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 47/60] fix: define the array functions for the array types the
 dict module names

---
 tiny/src/std.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5ce3f6c..7d4cd3d 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -908,7 +908,14 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
 
     const Tiny_Symbol *alreadyExists = Tiny_FindTypeSymbol(state, asName);
     if (alreadyExists) {
-        return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+        const Tiny_Symbol *ctor = Tiny_FindFuncSymbol(state, asName);
+
+        // A foreign type may have been registered without its functions (the dict module does this
+        // for array_any and array_str); they still have to be defined in that case.
+        if (alreadyExists->type != TINY_SYM_TAG_FOREIGN ||
+            (ctor && ctor->type == TINY_SYM_FOREIGN_FUNCTION)) {
+            return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+        }
     }
 
     const Tiny_Symbol *elemType = Tiny_FindTypeSymbol(state, args[0]);
-- 
2.43.0


From 95d162fe52214e2f147918317dafd95b75db848a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 48/60] fix: fill the new elements when an array grows by
 resize

---
 tiny/src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 3308202..26e8113 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -33,7 +33,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
         for (int i = len; i < newLen; ++i) {
-            newValues[i] = newValue;
+            newValues[i - len] = newValue;
         }
     } else if (array->data) {
         stb__sbn(array->data) = newLen;
-- 
2.43.0


From 68961bf3d2cd69500a90730480671b11d368324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 49/60] fix: terminate the lexeme of an unterminated string,
 never keep a stale one

---
 tiny/src/lexer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 9ee4100..93de9f6 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -60,6 +60,10 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         }
     }
 
+    // Error messages may show the lexeme of any token, even of those that don't set one
+    ResetLexeme(l);
+    sb_push(&l->ctx, l->lexeme, 0);
+
     if (l->last == 0) {
         return TINY_TOK_EOF;
     }
@@ -280,6 +284,7 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
             CHECK_ESCAPE();
 
             if (l->last == 0) {
+                sb_push(&l->ctx, l->lexeme, 0);
                 l->errorMsg = "Expected \" to close previous \".";
                 return TINY_TOK_LEXER_ERROR;
             }
-- 
2.43.0


From 5f15040fb46d9f5c0a78d01423be72e0a965ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:23 +0000
Subject: [PATCH 50/60] fix: reject casting the result of a void call

---
 tiny/src/tiny.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 518a3d0..01432e0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3058,9 +3058,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
             // TODO(Apaar): Allow casting of int to float etc
 
-            // Allow casting from any or to any, but nothing else
-            if (exp->cast.value->tag->type != TINY_SYM_TAG_ANY &&
-                exp->cast.tag->type != TINY_SYM_TAG_ANY) {
+            // Allow casting from any or to any, but nothing else (a void call has no value to cast)
+            if (exp->cast.value->tag->type == TINY_SYM_TAG_VOID ||
+                (exp->cast.value->tag->type != TINY_SYM_TAG_ANY &&
+                 exp->cast.tag->type != TINY_SYM_TAG_ANY)) {
                 ReportErrorE(state, exp->cast.value, "Attempted to cast a %s; only any is allowed.",
                              GetTagName(exp->cast.value->tag));
             }
-- 
2.43.0


From 8720acc243bccd0fc4fedc5f8543398cd4da7617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 51/60] fix: report the line of a foreign call made as a
 statement

While a foreign function runs, the thread's position was already past the
call instruction. For a call whose result is not used that is the first
instruction of the next statement (possibly in another file), so
Tiny_GetExecutingFileLine named the wrong line. Keep the position at the call
until the function returns.
---
 tiny/src/tiny.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 01432e0..6dd31b3 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1416,11 +1416,17 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
         } break;
 
         case TINY_OP_CALLF: {
+            int callPc = thread->pc;
             ++thread->pc;
             Word nargs = state->program[thread->pc++];
             Tiny_ConstantIndex fIdx = ReadConstIndex(thread);
+            int nextPc = thread->pc;
             int prevSize = thread->sp - nargs;
+            // The thread is still executing this call while the function runs; the next
+            // instruction may already belong to another statement (see Tiny_GetExecutingFileLine)
+            thread->pc = callPc;
             thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);
+            if (thread->pc == callPc) thread->pc = nextPc;
             thread->sp = prevSize;
         } break;
 
-- 
2.43.0


From 3c55865bb244f0e2fcd2921fceb9e2cad5b96965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:30 +0000
Subject: [PATCH 52/60] fix: don't recurse natively when marking deep object
 graphs

---
 tiny/include/detail.h |  3 +++
 tiny/src/tiny.c       | 30 +++++++++++++++++++++++++-----
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e41b513..09ba2dc 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -16,6 +16,9 @@ typedef struct Tiny_Object {
     Tiny_ValueType type;
     struct Tiny_Object *next;
 
+    // Links objects which are marked but whose children haven't been visited yet
+    struct Tiny_Object *nextGray;
+
     union {
         struct {
             size_t len;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 6dd31b3..81f3aec 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -124,6 +124,11 @@ static inline bool IsObject(Tiny_Value val) {
            val.type == TINY_VAL_STRUCT;
 }
 
+// Objects which have been marked but whose children haven't been visited yet. Visiting the children
+// right away would use native stack in proportion to the depth of the object graph.
+static _Thread_local Tiny_Object *GrayHead = NULL;
+static _Thread_local bool VisitingGray = false;
+
 void Tiny_ProtectFromGC(Tiny_Value value) {
     if (!IsObject(value)) return;
 
@@ -136,12 +141,27 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
     // Mark before visiting children because the object graph can be cyclic
     obj->marked = 1;
 
-    if (obj->type == TINY_VAL_NATIVE) {
-        if (obj->nat.prop && obj->nat.prop->protectFromGC)
-            obj->nat.prop->protectFromGC(obj->nat.addr);
-    } else if (obj->type == TINY_VAL_STRUCT) {
-        for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+    obj->nextGray = GrayHead;
+    GrayHead = obj;
+
+    // This is a child of the object being visited below
+    if (VisitingGray) return;
+
+    VisitingGray = true;
+
+    while (GrayHead) {
+        obj = GrayHead;
+        GrayHead = obj->nextGray;
+
+        if (obj->type == TINY_VAL_NATIVE) {
+            if (obj->nat.prop && obj->nat.prop->protectFromGC)
+                obj->nat.prop->protectFromGC(obj->nat.addr);
+        } else if (obj->type == TINY_VAL_STRUCT) {
+            for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+        }
     }
+
+    VisitingGray = false;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From 52b1ae3f2531c9ca4b8e0b68c6e727d66571512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:49 +0000
Subject: [PATCH 53/60] fix: terminate when printing a value which contains
 itself

---
 tiny/include/detail.h |  1 +
 tiny/src/std.c        | 18 ++++++++++++++++++
 tiny/src/tiny.c       |  3 +++
 3 files changed, 22 insertions(+)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index 09ba2dc..b4174b1 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -12,6 +12,7 @@ typedef uint8_t Word;
 
 typedef struct Tiny_Object {
     bool marked;
+    bool printing;  // Set while the contents are printed, because objects may contain themselves
 
     Tiny_ValueType type;
     struct Tiny_Object *next;
diff --git a/tiny/src/std.c b/tiny/src/std.c
index 7d4cd3d..7f07e73 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -617,6 +617,13 @@ static void Print(Tiny_Value val, bool repr) {
             break;
         case TINY_VAL_NATIVE: {
             if (repr && val.obj->nat.prop == &ArrayProp) {
+                if (val.obj->printing) {
+                    printf("[...]");
+                    break;
+                }
+
+                val.obj->printing = true;
+
                 printf("[");
 
                 Array *array = val.obj->nat.addr;
@@ -635,12 +642,21 @@ static void Print(Tiny_Value val, bool repr) {
                 }
 
                 printf("]");
+
+                val.obj->printing = false;
             } else if (val.obj->nat.prop && val.obj->nat.prop->name)
                 printf("<native '%s' at %p>", val.obj->nat.prop->name, val.obj->nat.addr);
             else
                 printf("<native at %p>", val.obj->nat.addr);
         } break;
         case TINY_VAL_STRUCT: {
+            if (val.obj->printing) {
+                printf("struct {...}");
+                break;
+            }
+
+            val.obj->printing = true;
+
             printf("struct {");
 
             for (int i = 0; i < val.obj->ostruct.n; ++i) {
@@ -652,6 +668,8 @@ static void Print(Tiny_Value val, bool repr) {
             }
 
             putc('}', stdout);
+
+            val.obj->printing = false;
         } break;
     }
 }
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 81f3aec..ed6144f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -294,6 +294,7 @@ static Tiny_Object *NewObject(Tiny_StateThread *thread, Tiny_ValueType type) {
     obj->next = thread->gcHead;
     thread->gcHead = obj;
     obj->marked = 0;
+    obj->printing = false;
 
     thread->numObjects++;
 
@@ -310,6 +311,7 @@ static Tiny_Object *NewStringObjectEmbedString(Tiny_StateThread *thread, const c
     obj->next = thread->gcHead;
     thread->gcHead = obj;
     obj->marked = 0;
+    obj->printing = false;
 
     obj->string.len = len;
     obj->string.ptr = (char *)obj + sizeof(Tiny_Object);
@@ -331,6 +333,7 @@ static Tiny_Object *NewStructObject(Tiny_StateThread *thread, Word n) {
     obj->next = thread->gcHead;
     thread->gcHead = obj;
     obj->marked = 0;
+    obj->printing = false;
 
     obj->ostruct.n = n;
 
-- 
2.43.0


From 6b5644146ab0fc116fbb079bab53073529949390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:57 +0000
Subject: [PATCH 54/60] fix: escape strings when converting them to JSON

---
 tiny/src/std.c | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 7f07e73..5b3dde8 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1096,6 +1096,32 @@ void Tiny_BindI64(Tiny_State *state) {
     Tiny_BindFunction(state, "i64_to_string(i64): str", Lib_I64ToString);
 }
 
+static Tiny_Value StrToJson(Tiny_StateThread *thread, const char *str, size_t len) {
+    // Every byte may need up to 6 (\u00XX); there's also the quotes and the null terminator
+    char *buf = Tiny_AllocUsingContext(thread->ctx, NULL, 6 * len + 3);
+    size_t used = 0;
+
+    buf[used++] = '"';
+
+    for (size_t i = 0; i < len; ++i) {
+        unsigned char c = (unsigned char)str[i];
+
+        if (c == '"' || c == '\\') {
+            buf[used++] = '\\';
+            buf[used++] = (char)c;
+        } else if (c < 0x20) {
+            used += snprintf(buf + used, 7, "\\u%04x", c);
+        } else {
+            buf[used++] = (char)c;
+        }
+    }
+
+    buf[used++] = '"';
+    buf[used] = '\0';
+
+    return Tiny_NewString(thread, buf, used);
+}
+
 static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     assert(count == 1);
 
@@ -1109,13 +1135,8 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
         case TINY_VAL_INT:
             return Lib_IntToStr(thread, args, count);
         case TINY_VAL_CONST_STRING:
-        case TINY_VAL_STRING: {
-            // TODO(Apaar): Escape args[0] string
-            Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
-                                        Tiny_NewConstString("\"")};
-
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
-        } break;
+        case TINY_VAL_STRING:
+            return StrToJson(thread, Tiny_ToString(args[0]), Tiny_StringLen(args[0]));
 
         default:
             // TODO(Apaar): Panic in this scenario
-- 
2.43.0


From 92ae8764e80419f3b5ec5a061cd3e65c0089d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:48 +0000
Subject: [PATCH 55/60] fix: mark objects handed to the constructor of an array
 of primitives

---
 tiny/src/std.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 5b3dde8..f651c00 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -222,7 +222,17 @@ static Tiny_Value CreateArrayEx(Tiny_StateThread *thread, int count, const Tiny_
 static TINY_FOREIGN_FUNCTION(CreateArray) { return CreateArrayEx(thread, count, args, false); }
 
 static TINY_FOREIGN_FUNCTION(CreatePrimitiveArray) {
-    return CreateArrayEx(thread, count, args, true);
+    bool primitive = true;
+
+    // The constructor is variadic, so the types of its arguments aren't checked
+    for (int i = 0; i < count; ++i) {
+        if (args[i].type != TINY_VAL_NULL && args[i].type != TINY_VAL_BOOL &&
+            args[i].type != TINY_VAL_INT && args[i].type != TINY_VAL_FLOAT) {
+            primitive = false;
+        }
+    }
+
+    return CreateArrayEx(thread, count, args, primitive);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArrayLen) {
-- 
2.43.0


From 12a6d1274576b67419c4a216b5753507b6c0c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:02 +0000
Subject: [PATCH 56/60] fix: release a string which an allocator placed right
 behind its object

---
 tiny/include/detail.h |  1 +
 tiny/src/tiny.c       | 16 +++++++---------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index b4174b1..7beb5be 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -13,6 +13,7 @@ typedef uint8_t Word;
 typedef struct Tiny_Object {
     bool marked;
     bool printing;  // Set while the contents are printed, because objects may contain themselves
+    bool embedsString;  // The characters of this string are part of the allocation of the object
 
     Tiny_ValueType type;
     struct Tiny_Object *next;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index ed6144f..632a082 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -99,15 +99,10 @@ static Tiny_StringNode *CreateExprStringNode(Tiny_State *state, const char *str)
 
 static void DeleteObject(Tiny_Context *ctx, Tiny_Object *obj) {
     if (obj->type == TINY_VAL_STRING) {
-        char *internalStr = (char *)obj + sizeof(Tiny_Object);
-
-        if (obj->string.ptr == internalStr) {
-            // FIXME(Apaar): Is it possible for there to be a string which just happens to be
-            // allocated after the object pointer?
-
-            // If the string pointer is directly after the object then it is part of the object
-            // allocation and does not need to be freed separately
-        } else {
+        // A string which is part of the object allocation does not need to be freed separately. The
+        // allocator may have placed any other one directly after the object as well, so the address
+        // doesn't tell them apart.
+        if (!obj->embedsString) {
             TFree(ctx, obj->string.ptr);
         }
     } else if (obj->type == TINY_VAL_NATIVE) {
@@ -295,6 +290,7 @@ static Tiny_Object *NewObject(Tiny_StateThread *thread, Tiny_ValueType type) {
     thread->gcHead = obj;
     obj->marked = 0;
     obj->printing = false;
+    obj->embedsString = false;
 
     thread->numObjects++;
 
@@ -312,6 +308,7 @@ static Tiny_Object *NewStringObjectEmbedString(Tiny_StateThread *thread, const c
     thread->gcHead = obj;
     obj->marked = 0;
     obj->printing = false;
+    obj->embedsString = true;
 
     obj->string.len = len;
     obj->string.ptr = (char *)obj + sizeof(Tiny_Object);
@@ -334,6 +331,7 @@ static Tiny_Object *NewStructObject(Tiny_StateThread *thread, Word n) {
     thread->gcHead = obj;
     obj->marked = 0;
     obj->printing = false;
+    obj->embedsString = false;
 
     obj->ostruct.n = n;
 
-- 
2.43.0


From ce450c3f2b04aecd40c435cf1e312f6425f4e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 57/60] fix: let a foreign function step its own thread again

Since 'report the line of a foreign call made as a statement' the position of the
thread stayed at the call instruction while a foreign function ran, so one which
executes further instructions (debug_break with s or c) executed its own call over
and over. Remember the position of the call separately instead.
---
 tiny/include/tiny.h |  5 +++++
 tiny/src/tiny.c     | 11 +++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 8b56fb6..02cd796 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -158,6 +158,11 @@ typedef struct Tiny_StateThread {
     Tiny_Value *globalVars;
 
     int pc, fp, sp;
+
+    // Position of the instruction which called the foreign function that is currently
+    // running (`pc` is already past it), or -1 if there is none
+    int foreignCallPc;
+
     Tiny_Value retVal;
 
     Tiny_Value stack[TINY_THREAD_STACK_SIZE];
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 632a082..2c99103 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -531,6 +531,7 @@ void Tiny_InitThreadWithContext(Tiny_StateThread *thread, const Tiny_State *stat
     thread->globalVars = NULL;
 
     thread->pc = -1;
+    thread->foreignCallPc = -1;
     thread->fp = thread->sp = 0;
 
     thread->retVal = Tiny_Null;
@@ -1441,13 +1442,13 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
             ++thread->pc;
             Word nargs = state->program[thread->pc++];
             Tiny_ConstantIndex fIdx = ReadConstIndex(thread);
-            int nextPc = thread->pc;
             int prevSize = thread->sp - nargs;
             // The thread is still executing this call while the function runs; the next
             // instruction may already belong to another statement (see Tiny_GetExecutingFileLine)
-            thread->pc = callPc;
+            int prevCallPc = thread->foreignCallPc;
+            thread->foreignCallPc = callPc;
             thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);
-            if (thread->pc == callPc) thread->pc = nextPc;
+            thread->foreignCallPc = prevCallPc;
             thread->sp = prevSize;
         } break;
 
@@ -3736,7 +3737,9 @@ static void GetFileLineForPC(const Tiny_State *state, int pc, const char **fileN
 }
 
 void Tiny_GetExecutingFileLine(const Tiny_StateThread *thread, const char **fileName, int *line) {
-    GetFileLineForPC(thread->state, thread->pc, fileName, line);
+    int pc = thread->foreignCallPc >= 0 ? thread->foreignCallPc : thread->pc;
+
+    GetFileLineForPC(thread->state, pc, fileName, line);
 }
 
 static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
-- 
2.43.0


From 8b279c3658a1b94b0acdf404eadf8ba8fc4eaf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 58/60] fix: find the index functions of types with names
 longer than 245 characters

---
 tiny/src/tiny.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 2c99103..8277d53 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -992,6 +992,23 @@ static Tiny_Symbol *ReferenceFunction(Tiny_State *state, const char *name) {
     return NULL;
 }
 
+// Finds the function named {typeName}{suffix}
+static Tiny_Symbol *ReferenceTypeFunction(Tiny_State *state, const char *typeName,
+                                          const char *suffix) {
+    size_t typeNameLen = strlen(typeName);
+
+    for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
+        Tiny_Symbol *node = state->globalSymbols[i];
+
+        if ((node->type == TINY_SYM_FUNCTION || node->type == TINY_SYM_FOREIGN_FUNCTION) &&
+            strncmp(node->name, typeName, typeNameLen) == 0 &&
+            strcmp(node->name + typeNameLen, suffix) == 0)
+            return node;
+    }
+
+    return NULL;
+}
+
 static void BindFunction(Tiny_State *state, const char *name, Tiny_Symbol **argTags, bool varargs,
                          Tiny_Symbol *returnTag, Tiny_ForeignFunction func) {
     for (int i = 0; i < sb_count(state->globalSymbols); ++i) {
@@ -3130,17 +3147,15 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
             const char *arrTypeName = GetTagName(exp->index.arr->tag);
 
-            // TODO(Apaar): Allow for longer names??
-            char buf[256] = {0};
-            snprintf(buf, sizeof(buf), "%s_get_index", arrTypeName);
-
             // This better exist (registered or otherwise)
-            const Tiny_Symbol *getIndexFunc = ReferenceFunction(state, buf);
+            const Tiny_Symbol *getIndexFunc =
+                ReferenceTypeFunction(state, arrTypeName, "_get_index");
 
             if (!getIndexFunc) {
                 ReportErrorE(state, exp->index.arr,
-                             "In order to use [] you must define %s, but no such function exists",
-                             buf);
+                             "In order to use [] you must define %s_get_index, but no such "
+                             "function exists",
+                             arrTypeName);
             }
 
             Tiny_Symbol *getIndexReturnType = getIndexFunc->type == TINY_SYM_FOREIGN_FUNCTION
@@ -3153,11 +3168,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
             exp->tag = getIndexReturnType;
 
-            snprintf(buf, sizeof(buf), "%s_set_index", arrTypeName);
-
             // This one may or may not exist. Only matters if used.
             // TODO(Apaar): If it does exist, we should ensure it is symmetric with the getIndexFunc
-            const Tiny_Symbol *setIndexFunc = ReferenceFunction(state, buf);
+            const Tiny_Symbol *setIndexFunc =
+                ReferenceTypeFunction(state, arrTypeName, "_set_index");
 
             exp->index.getIndexFunc = getIndexFunc;
             exp->index.setIndexFunc = setIndexFunc;
-- 
2.43.0


From e3814f5c9d973a3c1bf0db42716b78e9c95b9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:42 +0000
Subject: [PATCH 59/60] fix: 'use' as the body of an if was accepted and the
 module never applied

---
 tiny/src/tiny.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 8277d53..e0452e7 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1707,17 +1707,26 @@ static Tiny_Symbol *ParseTypeSL(Tiny_State *state) { return ParseTypeL(state, &s
 
 static Tiny_Expr *ParseStatement(Tiny_State *state);
 
+static Tiny_Expr *ParseIfBranch(Tiny_State *state) {
+    // A branch without braces does not open a scope, so this is not caught by the statement itself
+    if (state->l.lastTok == TINY_TOK_USE) {
+        ReportErrorSL(state, "'use' statements are only valid at the top-level of a Tiny file.");
+    }
+
+    return ParseStatement(state);
+}
+
 static Tiny_Expr *ParseIf(Tiny_State *state) {
     Tiny_Expr *exp = Expr_create(TINY_EXP_IF, state);
 
     GetNextToken(state);
 
     exp->ifx.cond = ParseExpr(state);
-    exp->ifx.body = ParseStatement(state);
+    exp->ifx.body = ParseIfBranch(state);
 
     if (state->l.lastTok == TINY_TOK_ELSE) {
         GetNextToken(state);
-        exp->ifx.alt = ParseStatement(state);
+        exp->ifx.alt = ParseIfBranch(state);
     } else
         exp->ifx.alt = NULL;
 
-- 
2.43.0


From 144d166d14a21b2cbdeb39bc8078d9354b15ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:37 +0000
Subject: [PATCH 60/60] fix: the delegate macro mixed up functions with
 different parameters whose delegate types have the same name

---
 tiny/src/std.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f651c00..ef713f3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1154,6 +1154,29 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     }
 }
 
+// Whether `call` can call delegates of `func`, i.e. takes the delegate followed by the arguments of
+// `func`, and returns what `func` returns.
+static bool IsDelegateCallFunction(const Tiny_Symbol *call, const Tiny_Symbol *func) {
+    int nargs = Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
+                                                                      : func->foreignFunc.argTags);
+
+    if (call->type != TINY_SYM_FUNCTION || Tiny_SymbolArrayCount(call->func.args) != nargs + 1) {
+        return false;
+    }
+
+    for (int i = 0; i < nargs; ++i) {
+        const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
+                                                                    : func->foreignFunc.argTags[i];
+
+        if (call->func.args[i + 1]->var.tag != argTag) {
+            return false;
+        }
+    }
+
+    return call->func.returnTag == (func->type == TINY_SYM_FUNCTION ? func->func.returnTag
+                                                                    : func->foreignFunc.returnTag);
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1261,6 +1284,20 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
             return macroResult;
         }
+    } else {
+        char callName[sizeof(typeBuf) + 8];
+        snprintf(callName, sizeof(callName), "%s_call", typeBuf);
+
+        const Tiny_Symbol *call = Tiny_FindFuncSymbol(state, callName);
+
+        // e.g. (a_b) and (a, b) both make delegate_a_b
+        if (call && !IsDelegateCallFunction(call, func)) {
+            return (Tiny_MacroResult){
+                .type = TINY_MACRO_ERROR,
+                .error.msg = "The delegate type of the function you specified has the same name as "
+                             "that of functions with other parameters",
+            };
+        }
     }
 
     if (!Tiny_FindFuncSymbol(state, asName)) {
-- 
2.43.0

