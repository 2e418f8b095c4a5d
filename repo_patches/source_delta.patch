From 25c01fa2250e18fbe52284d4e7bf23257caf9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 01/39] fix: fill the added elements when an array with
 elements is resized

---
 tiny/src/array.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index 7f3f6b0..a45f85a 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -31,7 +31,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         Tiny_Value *newValues = sb_add(&array->ctx, array->data, newLen - len);
 
         for (int i = len; i < newLen; ++i) {
-            newValues[i] = newValue;
+            newValues[i - len] = newValue;
         }
     } else {
         stb__sbn(array->data) = newLen;
-- 
2.43.0


From b9acb0ee0abb6593615d6beff64937705af3a732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 02/39] fix: clear and resize arrays that have no storage yet

---
 tiny/src/array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tiny/src/array.c b/tiny/src/array.c
index a45f85a..26e8113 100644
--- a/tiny/src/array.c
+++ b/tiny/src/array.c
@@ -20,7 +20,9 @@ void InitArrayEx(Array *array, Tiny_Context ctx, int length, const Tiny_Value *i
 
 int ArrayLen(Array *array) { return sb_count(array->data); }
 
-void ArrayClear(Array *array) { stb__sbn(array->data) = 0; }
+void ArrayClear(Array *array) {
+    if (array->data) stb__sbn(array->data) = 0;
+}
 
 void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
     assert(newLen >= 0);
@@ -33,7 +35,7 @@ void ArrayResize(Array *array, int newLen, Tiny_Value newValue) {
         for (int i = len; i < newLen; ++i) {
             newValues[i - len] = newValue;
         }
-    } else {
+    } else if (array->data) {
         stb__sbn(array->data) = newLen;
     }
 }
-- 
2.43.0


From 4f6c9de29e320b2e27f7c5b64a33119d10d31444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 03/39] fix: read the index of a string literal with the size
 it was written with

---
 tiny/src/tiny.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43d90b8..fd5411c 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1217,7 +1217,7 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
 
         case TINY_OP_PUSH_STRING: {
             ++thread->pc;
-            Tiny_Int stringIndex = ReadInteger(thread);
+            Tiny_ConstantIndex stringIndex = ReadConstIndex(thread);
             DoPush(thread, Tiny_NewConstString(state->strings[stringIndex]));
         } break;
 
-- 
2.43.0


From 745e5b5cfc6029229bdd5b4249428cd1ba454af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 04/39] fix: pass the number of arguments when a string is
 turned into JSON

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f1e6685..67e6333 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -1013,7 +1013,7 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
             Tiny_Value forwardArgs[] = {Tiny_NewConstString("\""), args[0],
                                         Tiny_NewConstString("\"")};
 
-            return Strcat(thread, forwardArgs, sizeof(forwardArgs));
+            return Strcat(thread, forwardArgs, sizeof(forwardArgs) / sizeof(forwardArgs[0]));
         } break;
 
         default:
-- 
2.43.0


From 892e651619fe9fcfbc0556758cc078a1803877c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 05/39] fix: let collections terminate on cyclic object graphs

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index fd5411c..229ac6a 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -131,14 +131,15 @@ void Tiny_ProtectFromGC(Tiny_Value value) {
 
     if (obj->marked) return;
 
+    // Must be marked before what it refers to, because that may refer back to it
+    obj->marked = 1;
+
     if (obj->type == TINY_VAL_NATIVE) {
         if (obj->nat.prop && obj->nat.prop->protectFromGC)
             obj->nat.prop->protectFromGC(obj->nat.addr);
     } else if (obj->type == TINY_VAL_STRUCT) {
         for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
     }
-
-    obj->marked = 1;
 }
 
 static void MarkAll(Tiny_StateThread *thread);
-- 
2.43.0


From e57c8b91be4425a251712f625b9d38754d3f8e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 06/39] fix: free separately allocated strings that lie
 directly behind their object

---
 tiny/include/detail.h |  2 ++
 tiny/src/tiny.c       | 14 +++++---------
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index e41b513..3fe5535 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -12,6 +12,8 @@ typedef uint8_t Word;
 
 typedef struct Tiny_Object {
     bool marked;
+    // Whether string.ptr points into the allocation of this object
+    bool embeddedString;
 
     Tiny_ValueType type;
     struct Tiny_Object *next;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 229ac6a..72487a0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -97,15 +97,9 @@ static Tiny_StringNode *CreateExprStringNode(Tiny_State *state, const char *str)
 
 static void DeleteObject(Tiny_Context *ctx, Tiny_Object *obj) {
     if (obj->type == TINY_VAL_STRING) {
-        char *internalStr = (char *)obj + sizeof(Tiny_Object);
-
-        if (obj->string.ptr == internalStr) {
-            // FIXME(Apaar): Is it possible for there to be a string which just happens to be
-            // allocated after the object pointer?
-
-            // If the string pointer is directly after the object then it is part of the object
-            // allocation and does not need to be freed separately
-        } else {
+        // If the string is part of the object allocation then it does not need to be freed
+        // separately
+        if (!obj->embeddedString) {
             TFree(ctx, obj->string.ptr);
         }
     } else if (obj->type == TINY_VAL_NATIVE) {
@@ -272,6 +266,7 @@ static Tiny_Object *NewObject(Tiny_StateThread *thread, Tiny_ValueType type) {
     obj->next = thread->gcHead;
     thread->gcHead = obj;
     obj->marked = 0;
+    obj->embeddedString = false;
 
     thread->numObjects++;
 
@@ -288,6 +283,7 @@ static Tiny_Object *NewStringObjectEmbedString(Tiny_StateThread *thread, const c
     obj->next = thread->gcHead;
     thread->gcHead = obj;
     obj->marked = 0;
+    obj->embeddedString = true;
 
     obj->string.len = len;
     obj->string.ptr = (char *)obj + sizeof(Tiny_Object);
-- 
2.43.0


From aa5a09d3419431c96ee78945a01275e8137464b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 07/39] fix: keep the return value of an interrupted
 computation alive during Tiny_CallFunction

---
 tiny/src/tiny.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 72487a0..7eedfb1 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -592,6 +592,9 @@ Tiny_Value Tiny_CallFunction(Tiny_StateThread *thread, int functionIndex, const
 
     AllocGlobals(thread);
 
+    // Keep the interrupted return value on the stack so that it survives collections
+    DoPush(thread, retVal);
+
     for (int i = 0; i < count; ++i) {
         DoPush(thread, args[i]);
     }
-- 
2.43.0


From 299f9f4c625f5167206aaf8e477d1559242f03e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:14 +0000
Subject: [PATCH 08/39] fix: a failed compile leaves no trace: restore counts,
 code, records, strings and structs, release what was parsed

---
 tiny/src/tiny.c | 104 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 89 insertions(+), 15 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 7eedfb1..43a7f1f 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -1696,30 +1696,36 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
 
     GetNextToken(state);
 
-    typedef struct {
-        char *name;
+    // These live in the parser arena so that they're released even if there's an error
+    typedef struct Arg {
+        struct Arg *next;
+        Tiny_StringNode *name;
         Tiny_Symbol *tag;
     } Arg;
 
-    Arg *args = NULL;  // array
+    Arg *argsHead = NULL;
+    Arg *argsTail = NULL;
+    int nargs = 0;
 
     while (state->l.lastTok != TINY_TOK_CLOSEPAREN) {
         ExpectTokenSL(state, TINY_TOK_IDENT, "Expected identifier in function parameter list");
 
-        Arg arg;
+        Arg *arg = Tiny_ArenaAlloc(&state->parserArena, sizeof(Arg), sizeof(void *));
 
-        arg.name = CloneString(&state->ctx, state->l.lexeme);
+        arg->next = NULL;
+        arg->name = CreateExprStringNode(state, state->l.lexeme);
         GetNextToken(state);
 
         if (state->l.lastTok != TINY_TOK_COLON) {
-            ReportErrorSL(state, "Expected ':' after %s", arg.name);
+            ReportErrorSL(state, "Expected ':' after %s", arg->name->value);
         }
 
         GetNextToken(state);
 
-        arg.tag = ParseTypeSL(state);
+        arg->tag = ParseTypeSL(state);
 
-        sb_push(&state->ctx, args, arg);
+        TINY_LL_APPEND(argsHead, argsTail, arg);
+        ++nargs;
 
         if (state->l.lastTok != TINY_TOK_CLOSEPAREN && state->l.lastTok != TINY_TOK_COMMA) {
             ReportErrorSL(state,
@@ -1730,13 +1736,10 @@ static Tiny_Expr *ParseFunc(Tiny_State *state) {
         if (state->l.lastTok == TINY_TOK_COMMA) GetNextToken(state);
     }
 
-    for (int i = 0; i < sb_count(args); ++i) {
-        DeclareArgument(state, args[i].name, args[i].tag, sb_count(args));
-        TFree(&state->ctx, args[i].name);
+    for (Arg *arg = argsHead; arg; arg = arg->next) {
+        DeclareArgument(state, arg->name->value, arg->tag, nargs);
     }
 
-    sb_free(&state->ctx, args);
-
     GetNextToken(state);
 
     if (state->l.lastTok != TINY_TOK_COLON) {
@@ -1798,13 +1801,14 @@ static Tiny_Symbol *ParseStruct(Tiny_State *state) {
 
         Tiny_Symbol *f = Symbol_create(TINY_SYM_FIELD, state->l.lexeme, state);
 
+        // The struct owns the field from here on, even if there's an error in its type
+        sb_push(&state->ctx, s->sstruct.fields, f);
+
         GetExpectTokenSL(state, TINY_TOK_COLON, "Expected ':' after field name.");
 
         GetNextToken(state);
 
         f->fieldTag = ParseTypeSL(state);
-
-        sb_push(&state->ctx, s->sstruct.fields, f);
     }
 
     GetNextToken(state);
@@ -3973,6 +3977,35 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int firstSymIndex = sb_count(state->globalSymbols);
     int startCodeLen = sb_count(state->program);
 
+    // Everything else that has to be as it was if there's an error
+    int startNumStrings = state->numStrings;
+    int startNumGlobalVars = state->numGlobalVars;
+    int startNumFunctions = state->numFunctions;
+    int startNumForeignFunctions = state->numForeignFunctions;
+    int startScope = state->currScope;
+    Tiny_Symbol *startFunc = state->currFunc;
+
+    Word startLastInst = startCodeLen > 0 ? state->program[startCodeLen - 1] : 0;
+
+    int startNumRecords = sb_count(state->pcToFileLine);
+    Tiny_PCToFileLine startLastRecord = {0};
+
+    if (startNumRecords > 0) {
+        startLastRecord = state->pcToFileLine[startNumRecords - 1];
+    }
+
+    // Structs which are only referenced so far (e.g. by a bound function) and which this source
+    // might define
+    Tiny_Symbol **undefinedStructs = NULL;  // array
+
+    for (int i = 0; i < firstSymIndex; ++i) {
+        Tiny_Symbol *s = state->globalSymbols[i];
+
+        if (s->type == TINY_SYM_TAG_STRUCT && !s->sstruct.defined) {
+            sb_push(&state->ctx, undefinedStructs, s);
+        }
+    }
+
     // We have to do this _before_ setjmp because it'll get
     // incremented again if it jumps back and we put it after
     state->compileCallNestCount += 1;
@@ -3989,6 +4022,40 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
             stb__sbn(state->globalSymbols) = firstSymIndex;
         }
 
+        for (int i = 0; i < sb_count(undefinedStructs); ++i) {
+            Tiny_Symbol *s = undefinedStructs[i];
+
+            for (int j = 0; j < sb_count(s->sstruct.fields); ++j) {
+                Symbol_destroy(s->sstruct.fields[j], &state->ctx);
+            }
+
+            sb_free(&state->ctx, s->sstruct.fields);
+
+            s->type = TINY_SYM_TAG_STRUCT;
+            s->sstruct.fields = NULL;
+            s->sstruct.defined = false;
+        }
+
+        sb_free(&state->ctx, undefinedStructs);
+
+        while (state->numStrings > startNumStrings) {
+            TFree(&state->ctx, state->strings[--state->numStrings]);
+        }
+
+        state->numGlobalVars = startNumGlobalVars;
+        state->numFunctions = startNumFunctions;
+        state->numForeignFunctions = startNumForeignFunctions;
+        state->currScope = startScope;
+        state->currFunc = startFunc;
+
+        if (state->pcToFileLine) {
+            stb__sbn(state->pcToFileLine) = startNumRecords;
+
+            if (startNumRecords > 0) {
+                state->pcToFileLine[startNumRecords - 1] = startLastRecord;
+            }
+        }
+
         // TOOD(Apaar): Can we just goto below?
         Tiny_DestroyLexer(&state->l);
         Tiny_DestroyArena(&state->parserArena);
@@ -3996,6 +4063,11 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         if (state->program) {
             // TODO(Apaar): Should we realloc and shrink?
             stb__sbn(state->program) = startCodeLen;
+
+            // The TINY_OP_HALT which used to be there might've been overwritten
+            if (startCodeLen > 0) {
+                state->program[startCodeLen - 1] = startLastInst;
+            }
         }
 
         state->l = prevLexer;
@@ -4068,6 +4140,8 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                      lastSymIndex);  // Done after compilation because it might have registered
                                      // undefined functions during the compilation stage
 
+    sb_free(&state->ctx, undefinedStructs);
+
     Tiny_DestroyLexer(&state->l);
 
     // Deletes all the parser data in one go, no deletion chores required
-- 
2.43.0


From 52238b96f4d343a1d36cb9895a7b3a4804327eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 09/39] fix: initialise the parser arena of a new state, the
 first compile copied indeterminate memory

---
 tiny/src/tiny.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 43a7f1f..3f68a36 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -436,6 +436,7 @@ Tiny_State *Tiny_CreateStateWithContext(Tiny_Context ctx) {
     Tiny_State *state = TMalloc(&ctx, sizeof(Tiny_State));
 
     state->l = (Tiny_Lexer){0};
+    state->parserArena = (Tiny_Arena){0};
 
     state->ctx = ctx;
 
-- 
2.43.0


From af2117d7ea6a7c593bac103a93886b9744cf3d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:29 +0000
Subject: [PATCH 10/39] fix: report an unterminated string instead of reading
 past the end of the source forever

---
 tiny/src/lexer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index a6dd938..ae6ac65 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -272,6 +272,12 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         while (l->last != '"') {
             CHECK_ESCAPE();
 
+            if (l->last == 0) {
+                sb_push(&l->ctx, l->lexeme, 0);
+                l->errorMsg = "Expected \" to close previous \".";
+                return TINY_TOK_LEXER_ERROR;
+            }
+
             sb_push(&l->ctx, l->lexeme, l->last);
             l->last = GetChar(l);
         }
-- 
2.43.0


From 32ffaa7b2e25d1aba7e9faa8a63c7bfa9528af99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:30 +0000
Subject: [PATCH 11/39] fix: skip comments without recursion, a long run of
 comment lines overflowed the C stack

---
 tiny/src/lexer.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index ae6ac65..3ef159e 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -42,26 +42,21 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
 }
 
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
-    while (isspace(l->last)) {
-        if (l->last == '\n') l->lineNumber++;
-        l->last = GetChar(l);
-    }
-
-    if (l->last == 0) {
-        return TINY_TOK_EOF;
-    }
-
-    if (l->last == '/' && Peek(l) == '/') {
-        while (l->last && l->last != '\n') {
+    while (true) {
+        while (isspace(l->last)) {
+            if (l->last == '\n') l->lineNumber++;
             l->last = GetChar(l);
         }
 
-        if (l->last) {
+        if (l->last != '/' || Peek(l) != '/') break;
+
+        while (l->last && l->last != '\n') {
             l->last = GetChar(l);
-            l->lineNumber += 1;
         }
+    }
 
-        return Tiny_GetToken(l);
+    if (l->last == 0) {
+        return TINY_TOK_EOF;
     }
 
     if (l->last == '.' && Peek(l) == '.' && Peek2(l) == '.') {
-- 
2.43.0


From 5ac7723b49ca16e391f4d5a4710b0f222aefc6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 12/39] fix: use delegate of an unknown function or with long
 names: report an error, do not crash or go on

---
 tiny/src/std.c | 109 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 75 insertions(+), 34 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 67e6333..959b3c6 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -9,6 +9,7 @@
 
 #include "detail.h"
 #include "dict.h"
+#include "stretchy_buffer.h"
 #include "tiny.h"
 
 #ifdef _WIN32
@@ -1022,6 +1023,39 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     }
 }
 
+// Appends to a string which grows as needed. Release it with sb_free.
+static void Append(Tiny_State *state, char **str, const char *fmt, ...) {
+    va_list args;
+
+    va_start(args, fmt);
+    int len = vsnprintf(NULL, 0, fmt, args);
+    va_end(args);
+
+    int used = sb_count(*str) > 0 ? sb_count(*str) - 1 : 0;
+
+    // The null terminator is part of the count
+    sb_add(&state->ctx, *str, used + len + 1 - sb_count(*str));
+
+    va_start(args, fmt);
+    vsnprintf(*str + used, len + 1, fmt, args);
+    va_end(args);
+}
+
+static Tiny_MacroResult CompileMacroCode(Tiny_State *state, const char *name, const char *code) {
+    Tiny_CompileResult compileResult = Tiny_CompileString(state, name, code);
+
+    if (compileResult.type != TINY_COMPILE_SUCCESS) {
+        Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+        snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                 "Failed to compile code of %s: %s", name, compileResult.error.msg);
+
+        return macroResult;
+    }
+
+    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+}
+
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -1037,35 +1071,36 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
         };
     }
 
-    char typeBuf[512] = {0};
-    char argsBuf[512] = {0};
-    char paramsBuf[512] = {0};
+    const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
 
-    int typeUsed = 0;
-    int argsUsed = 0;
-    int paramsUsed = 0;
+    if (!func) {
+        Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
 
-    typeUsed += snprintf(typeBuf, sizeof(typeBuf), "delegate_");
+        snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                 "There is no function named '%s' to delegate to", args[0]);
 
-    const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, args[0]);
+        return macroResult;
+    }
+
+    char *typeBuf = NULL;
+    char *argsBuf = NULL;
+    char *paramsBuf = NULL;
+    char *codeBuf = NULL;
+
+    Append(state, &typeBuf, "delegate_");
+    Append(state, &argsBuf, "");
+    Append(state, &paramsBuf, "");
 
     for (int i = 0;
          i < Tiny_SymbolArrayCount(func->type == TINY_SYM_FUNCTION ? func->func.args
                                                                    : func->foreignFunc.argTags);
          ++i) {
-        if (i > 0) {
-            typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_");
-            argsUsed += snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, ", ");
-            paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, ", ");
-        }
-
         const Tiny_Symbol *argTag = func->type == TINY_SYM_FUNCTION ? func->func.args[i]->var.tag
                                                                     : func->foreignFunc.argTags[i];
 
-        typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "%s", argTag->name);
-        argsUsed +=
-            snprintf(argsBuf + argsUsed, sizeof(argsBuf) - argsUsed, "a%d: %s", i, argTag->name);
-        paramsUsed += snprintf(paramsBuf + paramsUsed, sizeof(paramsBuf) - paramsUsed, "a%d", i);
+        Append(state, &typeBuf, "%s%s", i > 0 ? "_" : "", argTag->name);
+        Append(state, &argsBuf, ", a%d: %s", i, argTag->name);
+        Append(state, &paramsBuf, ", a%d", i);
     }
 
     const Tiny_Symbol *returnTag =
@@ -1073,35 +1108,41 @@ static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
 
     const char *returnTagName = returnTag->name;
 
-    typeUsed += snprintf(typeBuf + typeUsed, sizeof(typeBuf) - typeUsed, "_%s", returnTagName);
+    Append(state, &typeBuf, "_%s", returnTagName);
+
+    Tiny_MacroResult macroResult = {.type = TINY_MACRO_SUCCESS};
 
     if (!Tiny_FindTypeSymbol(state, typeBuf)) {
         Tiny_RegisterType(state, typeBuf);
 
-        char callBuf[512] = {0};
-
         if (returnTag->type != TINY_SYM_TAG_VOID) {
-            snprintf(callBuf, sizeof(callBuf),
-                     "func %s_call(f: %s, %s): %s { return cast(call_function(f, %s), %s) }",
-                     typeBuf, typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
+            Append(state, &codeBuf,
+                   "func %s_call(f: %s%s): %s { return cast(call_function(f%s), %s) }", typeBuf,
+                   typeBuf, argsBuf, returnTagName, paramsBuf, returnTagName);
         } else {
-            snprintf(callBuf, sizeof(callBuf), "func %s_call(f: %s, %s) { call_function(f, %s) }",
-                     typeBuf, typeBuf, argsBuf, paramsBuf);
+            Append(state, &codeBuf, "func %s_call(f: %s%s) { call_function(f%s) }", typeBuf,
+                   typeBuf, argsBuf, paramsBuf);
         }
 
-        Tiny_CompileString(state, "(delegate call function)", callBuf);
+        macroResult = CompileMacroCode(state, "(delegate call function)", codeBuf);
     }
 
-    if (!Tiny_FindFuncSymbol(state, asName)) {
-        char createBuf[512] = {0};
-        snprintf(createBuf, sizeof(createBuf),
-                 "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }", asName, typeBuf,
-                 args[0], typeBuf);
+    if (macroResult.type == TINY_MACRO_SUCCESS && !Tiny_FindFuncSymbol(state, asName)) {
+        sb_free(&state->ctx, codeBuf);
+        codeBuf = NULL;
+
+        Append(state, &codeBuf, "func %s(): %s { return cast(get_function_index(\"%s\"), %s) }",
+               asName, typeBuf, args[0], typeBuf);
 
-        Tiny_CompileString(state, "(delegate create function)", createBuf);
+        macroResult = CompileMacroCode(state, "(delegate create function)", codeBuf);
     }
 
-    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+    sb_free(&state->ctx, typeBuf);
+    sb_free(&state->ctx, argsBuf);
+    sb_free(&state->ctx, paramsBuf);
+    sb_free(&state->ctx, codeBuf);
+
+    return macroResult;
 }
 
 static TINY_FOREIGN_FUNCTION(GetFunctionIndex) {
-- 
2.43.0


From bac05eef8ece4991bb63e0fa3975b9a18c2b71ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:57 +0000
Subject: [PATCH 13/39] fix: use json of unknown, self-containing or large
 structs: report an error, do not crash or go on

---
 tiny/src/std.c | 139 ++++++++++++++++++++++++++++---------------------
 1 file changed, 80 insertions(+), 59 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 959b3c6..1340d63 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -769,7 +769,47 @@ static Tiny_Value Lib_I64ToString(Tiny_StateThread *thread, const Tiny_Value *ar
     return Tiny_NewStringCopy(thread, buf, len);
 }
 
-static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym) {
+// Appends to a string which grows as needed. Release it with sb_free.
+static void Append(Tiny_State *state, char **str, const char *fmt, ...) {
+    va_list args;
+
+    va_start(args, fmt);
+    int len = vsnprintf(NULL, 0, fmt, args);
+    va_end(args);
+
+    int used = sb_count(*str) > 0 ? sb_count(*str) - 1 : 0;
+
+    // The null terminator is part of the count
+    sb_add(&state->ctx, *str, used + len + 1 - sb_count(*str));
+
+    va_start(args, fmt);
+    vsnprintf(*str + used, len + 1, fmt, args);
+    va_end(args);
+}
+
+static Tiny_MacroResult CompileMacroCode(Tiny_State *state, const char *name, const char *code) {
+    Tiny_CompileResult compileResult = Tiny_CompileString(state, name, code);
+
+    if (compileResult.type != TINY_COMPILE_SUCCESS) {
+        Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+        snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                 "Failed to compile code of %s: %s", name, compileResult.error.msg);
+
+        return macroResult;
+    }
+
+    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+}
+
+// The struct types whose serializers are being made
+typedef struct JsonPending {
+    const struct JsonPending *outer;
+    const Tiny_Symbol *sym;
+} JsonPending;
+
+static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_Symbol *sym,
+                                                  const JsonPending *outer) {
     if (sym->type == TINY_SYM_TAG_FOREIGN) {
         // For foreign types, it's up to the calling code to set up an appropriate serializer.
         // We can't do it automatically.
@@ -785,48 +825,62 @@ static Tiny_MacroResult BindJsonSerializerForType(Tiny_State *state, const Tiny_
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-    // Hopefully enough lol?
-    char buf[2048] = {0};
-    int used = 0;
+    for (const JsonPending *p = outer; p; p = p->outer) {
+        if (p->sym == sym) {
+            Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "Cannot make JSON of struct %s because it contains itself", sym->name);
+
+            return macroResult;
+        }
+    }
+
+    const JsonPending pending = {outer, sym};
 
-    snprintf(buf, sizeof(buf), "%s_to_json", sym->name);
+    char *buf = NULL;
 
-    if (Tiny_FindFuncSymbol(state, buf)) {
+    Append(state, &buf, "%s_to_json", sym->name);
+
+    bool alreadyBound = Tiny_FindFuncSymbol(state, buf) != NULL;
+
+    sb_free(&state->ctx, buf);
+    buf = NULL;
+
+    if (alreadyBound) {
         // Already bound, don't bother
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-    used +=
-        snprintf(buf, sizeof(buf), "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t",
-                 sym->name, sym->name);
+    Append(state, &buf, "func %s_to_json(v: %s): str {\n\treturn strcat(\"{\",\n\t\t", sym->name,
+           sym->name);
 
     for (int i = 0; i < Tiny_SymbolArrayCount(sym->sstruct.fields); ++i) {
         if (i > 0) {
-            used += snprintf(buf + used, sizeof(buf) - used, ", \",\",\n\t\t");
+            Append(state, &buf, ", \",\",\n\t\t");
         }
 
         const Tiny_Symbol *fieldSym = sym->sstruct.fields[i];
 
-        BindJsonSerializerForType(state, fieldSym->fieldTag);
-
-        used += snprintf(buf + used, sizeof(buf) - used, "\"\\\"%s\\\":\", %s_to_json(v.%s)",
-                         fieldSym->name, fieldSym->fieldTag->name, fieldSym->name);
-    }
+        Tiny_MacroResult fieldResult =
+            BindJsonSerializerForType(state, fieldSym->fieldTag, &pending);
 
-    used += snprintf(buf + used, sizeof(buf) - used, ",\n\t\"}\")\n}");
+        if (fieldResult.type != TINY_MACRO_SUCCESS) {
+            sb_free(&state->ctx, buf);
+            return fieldResult;
+        }
 
-    Tiny_CompileResult compileResult = Tiny_CompileString(state, "(json mod)", buf);
+        Append(state, &buf, "\"\\\"%s\\\":\", %s_to_json(v.%s)", fieldSym->name,
+               fieldSym->fieldTag->name, fieldSym->name);
+    }
 
-    if (compileResult.type != TINY_COMPILE_SUCCESS) {
-        Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+    Append(state, &buf, ",\n\t\"}\")\n}");
 
-        snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
-                 "Failed to compile JSON code: %s", compileResult.error.msg);
+    Tiny_MacroResult macroResult = CompileMacroCode(state, "(json mod)", buf);
 
-        return macroResult;
-    }
+    sb_free(&state->ctx, buf);
 
-    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
+    return macroResult;
 }
 
 static TINY_MACRO_FUNCTION(JsonMacroFunction) {
@@ -839,14 +893,14 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
 
     const Tiny_Symbol *sym = Tiny_FindTypeSymbol(state, args[0]);
 
-    if (sym->type != TINY_SYM_TAG_STRUCT) {
+    if (!sym || sym->type != TINY_SYM_TAG_STRUCT) {
         return (Tiny_MacroResult){
             .type = TINY_MACRO_ERROR,
             .error.msg = "Must specify struct type as argument to 'use json_mod'",
         };
     }
 
-    return BindJsonSerializerForType(state, sym);
+    return BindJsonSerializerForType(state, sym, NULL);
 }
 
 static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
@@ -1023,39 +1077,6 @@ static TINY_FOREIGN_FUNCTION(Lib_PrimitiveToJson) {
     }
 }
 
-// Appends to a string which grows as needed. Release it with sb_free.
-static void Append(Tiny_State *state, char **str, const char *fmt, ...) {
-    va_list args;
-
-    va_start(args, fmt);
-    int len = vsnprintf(NULL, 0, fmt, args);
-    va_end(args);
-
-    int used = sb_count(*str) > 0 ? sb_count(*str) - 1 : 0;
-
-    // The null terminator is part of the count
-    sb_add(&state->ctx, *str, used + len + 1 - sb_count(*str));
-
-    va_start(args, fmt);
-    vsnprintf(*str + used, len + 1, fmt, args);
-    va_end(args);
-}
-
-static Tiny_MacroResult CompileMacroCode(Tiny_State *state, const char *name, const char *code) {
-    Tiny_CompileResult compileResult = Tiny_CompileString(state, name, code);
-
-    if (compileResult.type != TINY_COMPILE_SUCCESS) {
-        Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
-
-        snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
-                 "Failed to compile code of %s: %s", name, compileResult.error.msg);
-
-        return macroResult;
-    }
-
-    return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-}
-
 static TINY_MACRO_FUNCTION(DelegateMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
-- 
2.43.0


From c3c1c201276eac1faff1b3134e8ed654cda66d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 14/39] fix: use array when a function of the array is bound
 already, or with a long name: report an error, do not exit or cut names

---
 tiny/src/std.c | 83 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 51 insertions(+), 32 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 1340d63..8c3f11b 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -903,6 +903,17 @@ static TINY_MACRO_FUNCTION(JsonMacroFunction) {
     return BindJsonSerializerForType(state, sym, NULL);
 }
 
+// Binds a function with a signature made from the format
+static void BindFormatted(Tiny_State *state, Tiny_ForeignFunction func, const char *fmt,
+                          const char *arrayName, const char *elemName) {
+    char *sig = NULL;
+    Append(state, &sig, fmt, arrayName, arrayName, elemName);
+
+    Tiny_BindFunction(state, sig, func);
+
+    sb_free(&state->ctx, sig);
+}
+
 static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
     if (nargs != 1) {
         return (Tiny_MacroResult){
@@ -932,61 +943,69 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
         };
     }
 
-    Tiny_RegisterType(state, asName);
+    static const char *const suffixes[] = {
+        "",     "_clear",     "_resize", "_resize_fill", "_get", "_get_index", "_set",  "_set_index",
+        "_len", "_push",      "_pop",    "_shift",       "_remove", "_insert", "_sort",
+    };
+
+    for (int i = 0; i < sizeof(suffixes) / sizeof(suffixes[0]); ++i) {
+        char *name = NULL;
+        Append(state, &name, "%s%s", asName, suffixes[i]);
+
+        const Tiny_Symbol *func = Tiny_FindFuncSymbol(state, name);
+
+        sb_free(&state->ctx, name);
 
-    char sigbuf[512] = {0};
+        if (func && func->type == TINY_SYM_FOREIGN_FUNCTION) {
+            Tiny_MacroResult macroResult = {.type = TINY_MACRO_ERROR};
+
+            snprintf(macroResult.error.msg, sizeof(macroResult.error.msg),
+                     "There is already a foreign function named '%s'", func->name);
+
+            return macroResult;
+        }
+    }
+
+    Tiny_RegisterType(state, asName);
 
     bool primitive = elemType->type == TINY_SYM_TAG_BOOL || elemType->type == TINY_SYM_TAG_INT ||
                      elemType->type == TINY_SYM_TAG_FLOAT;
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s(...): %s", asName, asName);
-    Tiny_BindFunction(state, sigbuf, primitive ? CreatePrimitiveArray : CreateArray);
+    BindFormatted(state, primitive ? CreatePrimitiveArray : CreateArray, "%s(...): %s", asName,
+                  args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_clear(%s): void", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayClear);
+    BindFormatted(state, Lib_ArrayClear, "%s_clear(%s): void", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_resize(%s, int): void", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayResize);
+    BindFormatted(state, Lib_ArrayResize, "%s_resize(%s, int): void", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_resize_fill(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayResizeFill);
+    BindFormatted(state, Lib_ArrayResizeFill, "%s_resize_fill(%s, int, %s): void", asName,
+                  args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_get(%s, int): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayGet);
+    BindFormatted(state, Lib_ArrayGet, "%s_get(%s, int): %s", asName, args[0]);
 
     // Conform to the array index syntax
-    snprintf(sigbuf, sizeof(sigbuf), "%s_get_index(%s, int): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayGet);
+    BindFormatted(state, Lib_ArrayGet, "%s_get_index(%s, int): %s", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_set(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArraySet);
+    BindFormatted(state, Lib_ArraySet, "%s_set(%s, int, %s): void", asName, args[0]);
 
     // Conform to the array index syntax
-    snprintf(sigbuf, sizeof(sigbuf), "%s_set_index(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArraySet);
+    BindFormatted(state, Lib_ArraySet, "%s_set_index(%s, int, %s): void", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_len(%s): int", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayLen);
+    BindFormatted(state, Lib_ArrayLen, "%s_len(%s): int", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_push(%s, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayPush);
+    BindFormatted(state, Lib_ArrayPush, "%s_push(%s, %s): void", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_pop(%s): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayPop);
+    BindFormatted(state, Lib_ArrayPop, "%s_pop(%s): %s", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_shift(%s): %s", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayShift);
+    BindFormatted(state, Lib_ArrayShift, "%s_shift(%s): %s", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_remove(%s, int): void", asName, asName);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayRemove);
+    BindFormatted(state, Lib_ArrayRemove, "%s_remove(%s, int): void", asName, args[0]);
 
-    snprintf(sigbuf, sizeof(sigbuf), "%s_insert(%s, int, %s): void", asName, asName, args[0]);
-    Tiny_BindFunction(state, sigbuf, Lib_ArrayInsert);
+    BindFormatted(state, Lib_ArrayInsert, "%s_insert(%s, int, %s): void", asName, args[0]);
 
     if (elemType->type == TINY_SYM_TAG_INT) {
         // TODO(Apaar): Add functions to sort other types
-        snprintf(sigbuf, sizeof(sigbuf), "%s_sort(%s): void", asName, asName);
-        Tiny_BindFunction(state, sigbuf, Lib_ArraySortInt);
+        BindFormatted(state, Lib_ArraySortInt, "%s_sort(%s): void", asName, args[0]);
     }
 
     return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
-- 
2.43.0


From eff83f937058ac76cfefe67c82be5bce3ff63a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:00 +0000
Subject: [PATCH 15/39] fix: report a variable used in its own initializer, its
 type was read uninitialised

---
 tiny/src/tiny.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3f68a36..3f6cfcc 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -721,6 +721,8 @@ static Tiny_Symbol *GetPrimTag(Tiny_SymbolType type) {
 static Tiny_Symbol *Symbol_create(Tiny_SymbolType type, const char *name, Tiny_State *state) {
     Tiny_Symbol *sym = TMalloc(&state->ctx, sizeof(Tiny_Symbol));
 
+    *sym = (Tiny_Symbol){0};
+
     sym->name = CloneString(&state->ctx, name);
     sym->type = type;
     sym->pos = state->l.pos;
@@ -2533,7 +2535,10 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                    exp->id.sym->type == TINY_SYM_CONST);
 
             if (exp->id.sym->type != TINY_SYM_CONST) {
-                assert(exp->id.sym->var.tag);
+                if (!exp->id.sym->var.tag) {
+                    ReportErrorE(state, exp, "Variable '%s' is used in its own initializer.\n",
+                                 exp->id.name->value);
+                }
 
                 exp->tag = exp->id.sym->var.tag;
             } else {
-- 
2.43.0


From 05d6fb2335c4e2070bba8aae4efa267cf3212c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 16/39] fix: name the function or variable in error messages,
 the list node was printed as a string

---
 tiny/src/tiny.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 3f6cfcc..8fdb041 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2567,7 +2567,7 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
 
                 if (i >= argc && !isVarargs) {
                     ReportErrorE(state, node, "Too many arguments to function '%s' (%d expected).",
-                                 exp->call.calleeName, argc);
+                                 exp->call.calleeName->value, argc);
                 }
 
                 if (func->type == TINY_SYM_FOREIGN_FUNCTION) {
@@ -3118,7 +3118,7 @@ static void CompileCallSymbolWithArgsPrepared(Tiny_State *state, Word nargs, con
 static void CompileGetLHS(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->type == TINY_EXP_ID) {
         if (!exp->id.sym)
-            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name);
+            ReportErrorE(state, exp, "Referencing undeclared identifier '%s'.\n", exp->id.name->value);
 
         assert(exp->id.sym->type == TINY_SYM_GLOBAL || exp->id.sym->type == TINY_SYM_LOCAL ||
                exp->id.sym->type == TINY_SYM_CONST);
@@ -3196,14 +3196,14 @@ static void CompileCall(Tiny_State *state, Tiny_Expr *exp) {
     Tiny_Symbol *sym = ReferenceFunction(state, exp->call.calleeName->value);
     if (!sym) {
         ReportErrorE(state, exp, "Attempted to call undefined function '%s'.\n",
-                     exp->call.calleeName);
+                     exp->call.calleeName->value);
     }
 
     if (nargs > UCHAR_MAX) {
         ReportErrorE(state, exp,
                      "Attempted to call function '%s' with %d args. Tiny supports calling "
                      "functions with %d args at most.",
-                     exp->call.calleeName, nargs, UCHAR_MAX);
+                     exp->call.calleeName->value, nargs, UCHAR_MAX);
     }
 
     CompileCallSymbolWithArgsPrepared(state, (Word)nargs, sym, exp);
@@ -3728,7 +3728,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         if (!exp->binary.lhs->id.sym) {
                             // The variable being referenced doesn't exist
                             ReportErrorE(state, exp, "Assigning to undeclared identifier '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         if (exp->binary.lhs->id.sym->type == TINY_SYM_GLOBAL) {
@@ -3740,7 +3740,7 @@ static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
                         } else  // Probably a constant, can't change it
                         {
                             ReportErrorE(state, exp, "Cannot assign to id '%s'.\n",
-                                         exp->binary.lhs->id.name);
+                                         exp->binary.lhs->id.name->value);
                         }
 
                         exp->binary.lhs->id.sym->var.initialized = true;
-- 
2.43.0


From c244622edeeb415c45fba9a3a81a36d2e3cf3b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 17/39] fix: report the construction of or access into
 undefined structs instead of asserting

---
 tiny/src/tiny.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 8fdb041..edae59d 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2873,6 +2873,11 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
                 ReportErrorE(state, exp, "Cannot use '.' on a %s", GetTagName(exp->dot.lhs->tag));
             }
 
+            if (!exp->dot.lhs->tag->sstruct.defined) {
+                ReportErrorE(state, exp, "Cannot use '.' on undefined struct %s",
+                             GetTagName(exp->dot.lhs->tag));
+            }
+
             exp->tag = GetFieldTag(exp->dot.lhs->tag, exp->dot.field->value, NULL);
 
             if (!exp->tag) {
@@ -2882,7 +2887,13 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
         } break;
 
         case TINY_EXP_CONSTRUCTOR: {
-            assert(exp->constructor.structTag->sstruct.defined);
+            // It might have been registered as a foreign type since, or only be known from the
+            // signature of a bound function
+            if (exp->constructor.structTag->type != TINY_SYM_TAG_STRUCT ||
+                !exp->constructor.structTag->sstruct.defined) {
+                ReportErrorE(state, exp, "Cannot construct %s because it is not a defined struct.",
+                             GetTagName(exp->constructor.structTag));
+            }
 
             int tagCount = sb_count(exp->constructor.structTag->sstruct.fields);
 
-- 
2.43.0


From 68ebcc7e81af942d3c1ad2a20f9a3ad27238badd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 18/39] fix: check the number of use arguments before writing
 past the last one

---
 tiny/src/tiny.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index edae59d..79a2db0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -4115,9 +4115,10 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
                 char **argp = args;
 
                 for (Tiny_StringNode *node = exp->use.argsHead; node; node = node->next) {
-                    if (argp - args > sizeof(args) / sizeof(args[0])) {
+                    if (argp - args >= sizeof(args) / sizeof(args[0])) {
                         ReportErrorE(state, exp, "Macro %s takes too many args (limit is %d)",
-                                     exp->use.moduleName->value, sizeof(args) / sizeof(args[0]));
+                                     exp->use.moduleName->value,
+                                     (int)(sizeof(args) / sizeof(args[0])));
                     }
 
                     *argp++ = node->value;
-- 
2.43.0


From 6ba51c385131732fe33a06b93b03cb6023a49bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 19/39] fix: limit how deeply sources may be nested, the
 recursive compiler overflowed the C stack

---
 tiny/include/detail.h |  4 ++++
 tiny/include/tiny.h   |  4 ++++
 tiny/src/tiny.c       | 39 ++++++++++++++++++++++++++++++++++++---
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index 3fe5535..5a0ecaf 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -68,6 +68,10 @@ typedef struct Tiny_State {
     int currScope;
     Tiny_Symbol *currFunc;
 
+    // How deep the statement or expression being parsed or resolved is nested. This is limited
+    // because the compiler is recursive.
+    int nesting;
+
     // TODO(Apaar): Make an arena for symbol table
 
     Tiny_Symbol **globalSymbols;  // array
diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 9f535f6..981e83e 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -18,6 +18,10 @@
 #define TINY_MAX_COMPILE_ERR_MSG_SZ 1024
 #endif
 
+#ifndef TINY_MAX_NESTING
+#define TINY_MAX_NESTING 512
+#endif
+
 #ifndef TINY_MAX_MACRO_RESULT_ERR_MSG_SZ
 #define TINY_MAX_MACRO_RESULT_ERR_MSG_SZ 1024
 #endif
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 79a2db0..5845aa6 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -453,6 +453,7 @@ Tiny_State *Tiny_CreateStateWithContext(Tiny_Context ctx) {
 
     state->currScope = 0;
     state->currFunc = NULL;
+    state->nesting = 0;
     state->globalSymbols = NULL;
 
     state->pcToFileLine = NULL;
@@ -1635,6 +1636,14 @@ static Tiny_Symbol *ParseTypeL(Tiny_State *state, Tiny_Lexer *l) {
 
 static Tiny_Symbol *ParseTypeSL(Tiny_State *state) { return ParseTypeL(state, &state->l); }
 
+static void EnterNestingSL(Tiny_State *state) {
+    if (++state->nesting > TINY_MAX_NESTING) {
+        ReportErrorSL(state, "This is nested too deeply (limit is %d).", TINY_MAX_NESTING);
+    }
+}
+
+static void LeaveNesting(Tiny_State *state) { --state->nesting; }
+
 static Tiny_Expr *ParseStatement(Tiny_State *state);
 
 static Tiny_Expr *ParseIf(Tiny_State *state) {
@@ -2131,8 +2140,13 @@ static Tiny_Expr *ParseSuffix(Tiny_State *state, Tiny_Expr *lhs) {
 }
 
 static Tiny_Expr *ParseFactor(Tiny_State *state) {
-    Tiny_Expr *exp = ParseValue(state);
-    return ParseSuffix(state, exp);
+    EnterNestingSL(state);
+
+    Tiny_Expr *exp = ParseSuffix(state, ParseValue(state));
+
+    LeaveNesting(state);
+
+    return exp;
 }
 
 static int GetTokenPrec(int tok) {
@@ -2201,7 +2215,7 @@ static Tiny_Expr *ParseExpr(Tiny_State *state) {
     return ParseBinRhs(state, 0, factor);
 }
 
-static Tiny_Expr *ParseStatement(Tiny_State *state) {
+static Tiny_Expr *ParseStatementUnchecked(Tiny_State *state) {
     switch (state->l.lastTok) {
         case TINY_TOK_OPENCURLY:
             return ParseBlock(state);
@@ -2443,6 +2457,16 @@ static Tiny_Expr *ParseStatement(Tiny_State *state) {
     return NULL;
 }
 
+static Tiny_Expr *ParseStatement(Tiny_State *state) {
+    EnterNestingSL(state);
+
+    Tiny_Expr *exp = ParseStatementUnchecked(state);
+
+    LeaveNesting(state);
+
+    return exp;
+}
+
 static Tiny_Expr *ParseProgram(Tiny_State *state) {
     GetNextToken(state);
 
@@ -2499,6 +2523,11 @@ static bool IsTagAssignableTo(const Tiny_Symbol *src, const Tiny_Symbol *dest) {
 static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
     if (exp->tag) return;
 
+    // Long chains of operators nest deeply even though they're parsed iteratively
+    if (++state->nesting > TINY_MAX_NESTING) {
+        ReportErrorE(state, exp, "This is nested too deeply (limit is %d).", TINY_MAX_NESTING);
+    }
+
     switch (exp->type) {
         case TINY_EXP_BREAK:
         case TINY_EXP_CONTINUE:
@@ -3053,6 +3082,8 @@ static void ResolveTypes(Tiny_State *state, Tiny_Expr *exp) {
             exp->index.setIndexFunc = setIndexFunc;
         } break;
     }
+
+    LeaveNesting(state);
 }
 
 static void CompileProgram(Tiny_State *state, Tiny_Expr *program);
@@ -4001,6 +4032,7 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
     int startNumForeignFunctions = state->numForeignFunctions;
     int startScope = state->currScope;
     Tiny_Symbol *startFunc = state->currFunc;
+    int startNesting = state->nesting;
 
     Word startLastInst = startCodeLen > 0 ? state->program[startCodeLen - 1] : 0;
 
@@ -4064,6 +4096,7 @@ Tiny_CompileResult Tiny_CompileString(Tiny_State *state, const char *name, const
         state->numForeignFunctions = startNumForeignFunctions;
         state->currScope = startScope;
         state->currFunc = startFunc;
+        state->nesting = startNesting;
 
         if (state->pcToFileLine) {
             stb__sbn(state->pcToFileLine) = startNumRecords;
-- 
2.43.0


From 3ccae671864f20656c3639bc9a341075996c24bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 20/39] fix: report too many different strings instead of
 asserting

---
 tiny/src/tiny.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 5845aa6..6f6f5e9 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -696,6 +696,10 @@ static int RegisterString(Tiny_State *state, const char *string) {
         if (strcmp(state->strings[i], string) == 0) return i;
     }
 
+    if (state->numStrings >= MAX_STRINGS && state->compileCallNestCount > 0) {
+        ReportErrorSL(state, "Exceeded maximum number of different strings (%d).", MAX_STRINGS);
+    }
+
     assert(state->numStrings < MAX_STRINGS);
     state->strings[state->numStrings++] = CloneString(&state->ctx, string);
 
-- 
2.43.0


From 15017995a0db9cd5cc7c461093306a6bcdd728b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 21/39] fix: count the lines inside literals

---
 tiny/src/lexer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tiny/src/lexer.c b/tiny/src/lexer.c
index 3ef159e..9a48587 100644
--- a/tiny/src/lexer.c
+++ b/tiny/src/lexer.c
@@ -41,6 +41,11 @@ void Tiny_InitLexer(Tiny_Lexer *l, const char *fileName, const char *src, Tiny_C
     l->lastTok = TINY_TOK_EOF;
 }
 
+// Literals may span lines, escaped or not
+static void CountLine(Tiny_Lexer *l) {
+    if (l->last == '\n' || (l->last == '\\' && Peek(l) == '\n')) l->lineNumber++;
+}
+
 static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     while (true) {
         while (isspace(l->last)) {
@@ -243,6 +248,7 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
     if (l->last == '\'') {
         l->last = GetChar(l);
 
+        CountLine(l);
         CHECK_ESCAPE();
 
         l->iValue = l->last;
@@ -265,6 +271,7 @@ static Tiny_TokenKind GetToken(Tiny_Lexer *l) {
         l->last = GetChar(l);
 
         while (l->last != '"') {
+            CountLine(l);
             CHECK_ESCAPE();
 
             if (l->last == 0) {
-- 
2.43.0


From 71a4706593ae49bbbf146f70ce2e99d7cba465ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 22/39] fix: give while, for and break statements the line they
 start on

---
 tiny/src/tiny.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 6f6f5e9..d91eee0 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -2231,9 +2231,10 @@ static Tiny_Expr *ParseStatementUnchecked(Tiny_State *state) {
             return ParseIf(state);
 
         case TINY_TOK_WHILE: {
-            GetNextToken(state);
             Tiny_Expr *exp = Expr_create(TINY_EXP_WHILE, state);
 
+            GetNextToken(state);
+
             exp->whilex.cond = ParseExpr(state);
 
             OpenScope(state);
@@ -2246,10 +2247,10 @@ static Tiny_Expr *ParseStatementUnchecked(Tiny_State *state) {
         } break;
 
         case TINY_TOK_FOR: {
-            GetNextToken(state);
-
             Tiny_Expr *exp = Expr_create(TINY_EXP_FOR, state);
 
+            GetNextToken(state);
+
             // Every local declared after this is scoped to the for
             OpenScope(state);
 
@@ -2302,9 +2303,10 @@ static Tiny_Expr *ParseStatementUnchecked(Tiny_State *state) {
 
         // TODO(Apaar): Labeled break/continue
         case TINY_TOK_BREAK: {
-            GetNextToken(state);
             Tiny_Expr *exp = Expr_create(TINY_EXP_BREAK, state);
 
+            GetNextToken(state);
+
             // Set to -1 to make sure we don't get into trouble
             exp->breakContinue.patchLoc = -1;
 
-- 
2.43.0


From 1e62be4c73a619beb4972112a628b00e439579fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 23/39] fix: measure and index strings by their length

---
 tiny/src/std.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 8c3f11b..7f9f2cf 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -46,12 +46,12 @@ void __stdcall Sleep(DWORD dwMilliseconds);
 static Tiny_Value Strlen(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     Tiny_Value val = args[0];
 
-    return Tiny_NewInt(strlen(Tiny_ToString(val)));
+    return Tiny_NewInt((int)Tiny_StringLen(val));
 }
 
 static Tiny_Value Stridx(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *s = Tiny_ToString(args[0]);
-    size_t len = strlen(s);
+    size_t len = Tiny_StringLen(args[0]);
 
     int i = Tiny_ToInt(args[1]);
 
-- 
2.43.0


From 72bd8a8ec691746e34d4d8eeb824fbbac880472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:09 +0000
Subject: [PATCH 24/39] fix: terminate what fread returns and accept negative
 sizes

---
 tiny/src/std.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 7f9f2cf..bbea7fd 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -105,17 +105,16 @@ static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, in
     FILE *file = Tiny_ToAddr(args[0]);
     int num = (int)Tiny_ToNumber(args[1]);
 
-    // + 1 for null-terminator
-    char *str = Tiny_AllocUsingContext(thread->ctx, NULL, num + 1);
-
-    int readCount = fread(str, 1, num, file);
-
-    if (readCount < 0) {
-        Tiny_AllocUsingContext(thread->ctx, str, 0);
+    if (num <= 0) {
         return Tiny_NewConstString("");
     }
 
-    str[num] = '\0';
+    // + 1 for null-terminator
+    char *str = Tiny_AllocUsingContext(thread->ctx, NULL, (size_t)num + 1);
+
+    size_t readCount = fread(str, 1, num, file);
+
+    str[readCount] = '\0';
 
     return Tiny_NewString(thread, str, readCount);
 }
-- 
2.43.0


From 22cb55a416070a2a109918cf4c1bb47285fec071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:10 +0000
Subject: [PATCH 25/39] fix: return null from read_file if the file cannot be
 measured or read

---
 tiny/src/std.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index bbea7fd..32b78e0 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -151,17 +151,30 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
         return Tiny_Null;
     }
 
-    fseek(file, 0, SEEK_END);
-    long len = ftell(file);
-    rewind(file);
+    long len = -1;
 
-    char *s = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
-    fread(s, 1, len, file);
+    if (fseek(file, 0, SEEK_END) == 0) {
+        len = ftell(file);
+    }
 
-    s[len] = '\0';
+    // The "length" of a directory is LONG_MAX
+    if (len < 0 || len == LONG_MAX || fseek(file, 0, SEEK_SET) != 0) {
+        fclose(file);
+        return Tiny_Null;
+    }
+
+    char *s = Tiny_AllocUsingContext(thread->ctx, NULL, len + 1);
+    size_t readCount = fread(s, 1, len, file);
 
     fclose(file);
 
+    if (readCount != (size_t)len) {
+        Tiny_AllocUsingContext(thread->ctx, s, 0);
+        return Tiny_Null;
+    }
+
+    s[len] = '\0';
+
     return Tiny_NewString(thread, s, len);
 }
 
-- 
2.43.0


From 4601c28949cb792302d1e88dd00c379e9e0c982f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 26/39] fix: return -1 from fsize if the file cannot be
 measured

---
 tiny/src/std.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 32b78e0..8fa60cd 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -94,11 +94,16 @@ static Tiny_Value Lib_Fopen(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fsize(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
 
-    fseek(file, 0, SEEK_END);
-    long size = ftell(file);
+    long size = -1;
+
+    if (fseek(file, 0, SEEK_END) == 0) {
+        size = ftell(file);
+    }
+
     rewind(file);
 
-    return Tiny_NewInt((int)size);
+    // The "size" of a directory is LONG_MAX
+    return Tiny_NewInt(size > INT_MAX ? -1 : (int)size);
 }
 
 static Tiny_Value Lib_Fread(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0


From 39705de8396ceb5b80cdfd70fc961dd56bca0622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 27/39] fix: write_file writes every byte and reports failures

---
 tiny/src/std.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 8fa60cd..ec2e7db 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -184,18 +184,18 @@ static Tiny_Value Lib_ReadFile(Tiny_StateThread *thread, const Tiny_Value *args,
 }
 
 static Tiny_Value Lib_WriteFile(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    FILE *file = fopen(Tiny_ToString(args[0]), "w");
+    FILE *file = fopen(Tiny_ToString(args[0]), "wb");
 
     if (!file) {
         return Tiny_NewBool(false);
     }
 
-    const char *s = Tiny_ToString(args[1]);
+    size_t len = Tiny_StringLen(args[1]);
 
-    fwrite(s, 1, strlen(s), file);
-    fclose(file);
+    bool written = fwrite(Tiny_ToString(args[1]), 1, len, file) == len;
+    bool closed = fclose(file) == 0;
 
-    return Tiny_NewBool(true);
+    return Tiny_NewBool(written && closed);
 }
 
 static void ArrayFree(Tiny_Context *ctx, void *ptr) {
-- 
2.43.0


From a4e7692528afa05f0b354ee6f2651e4a10d5cb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:13 +0000
Subject: [PATCH 28/39] fix: fwrite never writes bytes outside the string

---
 tiny/src/std.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index ec2e7db..f5323b8 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -136,7 +136,14 @@ static Tiny_Value Lib_Fseek(Tiny_StateThread *thread, const Tiny_Value *args, in
 static Tiny_Value Lib_Fwrite(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     FILE *file = Tiny_ToAddr(args[0]);
     const char *str = Tiny_ToString(args[1]);
-    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : (int)strlen(str);
+    int len = (int)Tiny_StringLen(args[1]);
+    int num = count == 3 ? (int)Tiny_ToNumber(args[2]) : len;
+
+    if (num < 0) {
+        num = 0;
+    } else if (num > len) {
+        num = len;
+    }
 
     return Tiny_NewInt(fwrite(str, 1, num, file));
 }
-- 
2.43.0


From dcc1f0bad705a3211dc0b3ab15e3e757fce99710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 29/39] fix: stop reading a line of input at the end of the
 input

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index f5323b8..a460ec6 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -588,7 +588,7 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     int c = getc(stdin);
     int i = 0;
 
-    while (c != '\n') {
+    while (c != '\n' && c != EOF) {
         if (bufferLength + 1 >= bufferCapacity) {
             bufferCapacity *= 2;
             buffer = Tiny_AllocUsingContext(thread->ctx, buffer, bufferCapacity);
-- 
2.43.0


From 253889b126e745bf3e77a581c2a8b7bef3d22638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:35 +0000
Subject: [PATCH 30/39] fix: Tiny_CompileFile compiles the complete file or
 reports an error

---
 tiny/src/tiny.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d91eee0..c741f47 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -3,6 +3,7 @@
 
 #include <assert.h>
 #include <ctype.h>
+#include <limits.h>
 #include <stdalign.h>
 #include <stdarg.h>
 #include <stdbool.h>
@@ -4224,19 +4225,46 @@ Tiny_CompileResult Tiny_CompileFile(Tiny_State *state, const char *filename) {
         return result;
     }
 
-    fseek(file, 0, SEEK_END);
+    long len = -1;
 
-    long len = ftell(file);
+    if (fseek(file, 0, SEEK_END) == 0) {
+        len = ftell(file);
+    }
 
-    char *s = TMalloc(&state->ctx, len + 1);
+    char *s = NULL;
 
-    rewind(file);
+    // The "length" of a directory is LONG_MAX
+    bool complete = len >= 0 && len < LONG_MAX && fseek(file, 0, SEEK_SET) == 0;
 
-    fread(s, 1, len, file);
-    s[len] = 0;
+    if (complete) {
+        s = TMalloc(&state->ctx, len + 1);
+        complete = fread(s, 1, len, file) == (size_t)len;
+    }
 
     fclose(file);
 
+    if (complete) {
+        s[len] = 0;
+    }
+
+    // Anything after a null character would not be compiled
+    if (!complete || strlen(s) != (size_t)len) {
+        Tiny_CompileResult result = {
+            .type = TINY_COMPILE_ERROR,
+        };
+
+        snprintf(result.error.msg, sizeof(result.error.msg),
+                 complete ? "Error: File '%s' contains a null character\n"
+                          : "Error: Unable to read file '%s'\n",
+                 filename);
+
+        if (s) {
+            TFree(&state->ctx, s);
+        }
+
+        return result;
+    }
+
     Tiny_CompileResult result = Tiny_CompileString(state, filename, s);
 
     TFree(&state->ctx, s);
-- 
2.43.0


From 59f7748f9de7f0c72d720e6977c3b97d71eb9bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 31/39] fix: sort ints whose difference does not fit into an
 int

---
 tiny/src/std.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index a460ec6..fa504f3 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -349,7 +349,7 @@ static int CompareInts(const void *aRaw, const void *bRaw) {
     assert(a->type == TINY_VAL_INT);
     assert(b->type == TINY_VAL_INT);
 
-    return a->i - b->i;
+    return (a->i > b->i) - (a->i < b->i);
 }
 
 static TINY_FOREIGN_FUNCTION(Lib_ArraySortInt) {
-- 
2.43.0


From b2bfee3ad8652aba8e705d79a7f71f5db9af9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 32/39] fix: compare strings past null characters

---
 tiny/src/tiny.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index c741f47..d5df4a7 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -237,7 +237,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.obj->string.ptr, Tiny_ToString(b), aLen) == 0;
     }
 
     if (a.type == TINY_VAL_CONST_STRING) {
@@ -252,7 +252,7 @@ bool Tiny_AreValuesEqual(Tiny_Value a, Tiny_Value b) {
             return false;
         }
 
-        return strncmp(a.cstr, Tiny_ToString(b), aLen) == 0;
+        return memcmp(a.cstr, Tiny_ToString(b), aLen) == 0;
     }
 
     return false;
-- 
2.43.0


From a258f10c7fa7081a2babe4a3c31bedeb9196a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 33/39] fix: use array binds the functions of an array type
 which was only registered

---
 tiny/src/std.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index fa504f3..79a5f22 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -954,7 +954,10 @@ static TINY_MACRO_FUNCTION(ArrayMacroFunction) {
     }
 
     const Tiny_Symbol *alreadyExists = Tiny_FindTypeSymbol(state, asName);
-    if (alreadyExists) {
+
+    // The type might only be registered so far, without any of its functions
+    if (alreadyExists && (alreadyExists->type != TINY_SYM_TAG_FOREIGN ||
+                          Tiny_FindFuncSymbol(state, asName))) {
         return (Tiny_MacroResult){.type = TINY_MACRO_SUCCESS};
     }
 
-- 
2.43.0


From 7264d5afb1ef4bda7205f141ada12362b79331c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 34/39] fix: floats and i64 zero work as dictionary keys

---
 tiny/src/dict.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/tiny/src/dict.c b/tiny/src/dict.c
index 9234fe8..691a30a 100644
--- a/tiny/src/dict.c
+++ b/tiny/src/dict.c
@@ -29,6 +29,19 @@ static unsigned long HashValue(Tiny_Value value) {
 
             return HashBytes(start, start + len);
         } break;
+        case TINY_VAL_FLOAT: {
+            // Adding 0 turns -0, which is equal to 0, into 0
+            Tiny_Float f = value.f + 0;
+
+            unsigned long hash = 0;
+            memcpy(&hash, &f, sizeof(f) < sizeof(hash) ? sizeof(f) : sizeof(hash));
+
+            // The low bits of most floats are 0
+            return hash ^ (hash >> (sizeof(hash) * 4));
+        } break;
+        case TINY_VAL_LIGHT_NATIVE:
+            // Can be NULL (e.g. an i64 which is 0)
+            return (uintptr_t)Tiny_ToAddr(value);
         case TINY_VAL_STRUCT:
             return (uintptr_t)value.obj;
         default: {
-- 
2.43.0


From 4d1a9e95876c892963ca336b5face409f4367926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:57 +0000
Subject: [PATCH 35/39] fix: printf handles %% and formats ending in %, prints
 bools, null characters and values containing themselves

---
 tiny/src/std.c | 130 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 81 insertions(+), 49 deletions(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 79a5f22..20d0b45 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -578,8 +578,13 @@ static Tiny_Value Rand(Tiny_StateThread *thread, const Tiny_Value *args, int cou
     return Tiny_NewInt(rand());
 }
 
+static void PrintString(Tiny_Value val) {
+    // Not printf: strings may contain null characters
+    fwrite(Tiny_ToString(val), 1, Tiny_StringLen(val), stdout);
+}
+
 static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    if (count >= 1) printf("%s", Tiny_ToString(args[0]));
+    if (count >= 1) PrintString(args[0]);
 
     char *buffer = Tiny_AllocUsingContext(thread->ctx, NULL, 8);
     size_t bufferLength = 0;
@@ -607,30 +612,45 @@ static Tiny_Value Lib_Input(Tiny_StateThread *thread, const Tiny_Value *args, in
     return Tiny_NewString(thread, buffer, bufferLength);
 }
 
-static void Print(Tiny_Value val, bool repr) {
+// The objects which are being printed, innermost first
+typedef struct PrintPath {
+    const Tiny_Object *obj;
+    const struct PrintPath *outer;
+} PrintPath;
+
+static void Print(Tiny_Value val, bool repr, const PrintPath *outer) {
+    PrintPath path = {NULL, outer};
+
+    if (val.type == TINY_VAL_STRUCT || val.type == TINY_VAL_NATIVE) {
+        path.obj = val.obj;
+
+        // Values which contain themselves would be printed forever
+        for (const PrintPath *p = outer; p; p = p->outer) {
+            if (p->obj == val.obj) {
+                printf("...");
+                return;
+            }
+        }
+    }
+
     switch (val.type) {
         case TINY_VAL_NULL:
             printf("<null>");
             break;
+        case TINY_VAL_BOOL:
+            printf("%s", val.boolean ? "true" : "false");
+            break;
         case TINY_VAL_INT:
-            printf("%lld", (int64_t)val.i);
+            printf("%lld", (long long)val.i);
             break;
         case TINY_VAL_FLOAT:
             printf("%f", val.f);
             break;
         case TINY_VAL_CONST_STRING:
-            if (repr) {
-                printf("\"%s\"", val.cstr);
-            } else {
-                printf("%s", val.cstr);
-            }
-            break;
         case TINY_VAL_STRING:
-            if (repr) {
-                printf("\"%.*s\"", (int)val.obj->string.len, val.obj->string.ptr);
-            } else {
-                printf("%.*s", (int)val.obj->string.len, val.obj->string.ptr);
-            }
+            if (repr) putc('"', stdout);
+            PrintString(val);
+            if (repr) putc('"', stdout);
             break;
         case TINY_VAL_LIGHT_NATIVE:
             printf("<light native at %p>", val.addr);
@@ -651,7 +671,7 @@ static void Print(Tiny_Value val, bool repr) {
 
                     Tiny_Value value = *ArrayGet(array, i);
 
-                    Print(value, true);
+                    Print(value, true, &path);
                 }
 
                 printf("]");
@@ -668,7 +688,7 @@ static void Print(Tiny_Value val, bool repr) {
                     printf(", ");
                 }
 
-                Print(val.obj->ostruct.fields[i], true);
+                Print(val.obj->ostruct.fields[i], true, &path);
             }
 
             putc('}', stdout);
@@ -678,44 +698,56 @@ static void Print(Tiny_Value val, bool repr) {
 
 static Tiny_Value Lib_Printf(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
     const char *fmt = Tiny_ToString(args[0]);
+    const char *end = fmt + Tiny_StringLen(args[0]);
 
     int arg = 1;
 
-    while (*fmt) {
-        if (*fmt == '%') {
-            if (arg >= count) {
-                fprintf(stderr, "Too few arguments for format '%s'\n", fmt);
-                exit(1);
-            }
-
-            ++fmt;
-            switch (*fmt) {
-                case 'i':
-                    printf("%lld", (int64_t)args[arg].i);
-                    break;
-                case 'f':
-                    printf("%f", args[arg].f);
-                    break;
-                case 's':
-                    printf("%.*s", (int)Tiny_StringLen(args[arg]), Tiny_ToString(args[arg]));
-                    break;
-                case 'c':
-                    printf("%c", (char)args[arg].i);
-                    break;
+    while (fmt < end) {
+        if (*fmt != '%') {
+            putc(*fmt++, stdout);
+            continue;
+        }
 
-                case 'q':
-                    Print(args[arg], true);
-                    break;
-                case '%':
-                    putc('%', stdout);
+        ++fmt;
 
-                default:
-                    printf("\nInvalid format specifier '%c'\n", *fmt);
-            }
-            ++fmt;
-            ++arg;
-        } else
+        if (fmt < end && *fmt == '%') {
             putc(*fmt++, stdout);
+            continue;
+        }
+
+        if (arg >= count) {
+            fprintf(stderr, "Too few arguments for format '%s'\n", fmt - 1);
+            exit(1);
+        }
+
+        if (fmt >= end) {
+            printf("\nMissing format specifier\n");
+            break;
+        }
+
+        switch (*fmt) {
+            case 'i':
+                printf("%lld", (long long)args[arg].i);
+                break;
+            case 'f':
+                printf("%f", args[arg].f);
+                break;
+            case 's':
+                PrintString(args[arg]);
+                break;
+            case 'c':
+                printf("%c", (char)args[arg].i);
+                break;
+
+            case 'q':
+                Print(args[arg], true, NULL);
+                break;
+
+            default:
+                printf("\nInvalid format specifier '%c'\n", *fmt);
+        }
+        ++fmt;
+        ++arg;
     }
 
     return Tiny_Null;
@@ -1259,7 +1291,7 @@ static TINY_FOREIGN_FUNCTION(DebugBreak) {
                     break;
                 }
 
-                Print(thread->stack[pos], true);
+                Print(thread->stack[pos], true, NULL);
                 putchar('\n');
             }
         } else if (strcmp(cmd, "s\n") == 0) {
-- 
2.43.0


From 35d8e97fc944b98e4f27b018a2efea56f974fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:52 +0000
Subject: [PATCH 36/39] fix: marking a long chain of structs does not exhaust
 the C stack

---
 tiny/include/detail.h |  2 ++
 tiny/src/tiny.c       | 36 ++++++++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/tiny/include/detail.h b/tiny/include/detail.h
index 5a0ecaf..5e8bc5b 100644
--- a/tiny/include/detail.h
+++ b/tiny/include/detail.h
@@ -17,6 +17,8 @@ typedef struct Tiny_Object {
 
     Tiny_ValueType type;
     struct Tiny_Object *next;
+    // Only meaningful while objects are being marked
+    struct Tiny_Object *nextPending;
 
     union {
         struct {
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index d5df4a7..9ec7321 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -120,20 +120,36 @@ static inline bool IsObject(Tiny_Value val) {
 void Tiny_ProtectFromGC(Tiny_Value value) {
     if (!IsObject(value)) return;
 
-    Tiny_Object *obj = value.obj;
+    assert(value.obj);
 
-    assert(obj);
+    if (value.obj->marked) return;
 
-    if (obj->marked) return;
+    // Objects must be marked before what they refer to, because that may refer back to them. What
+    // structs refer to is put on a list instead of being visited right away, because a chain of
+    // structs can be much longer than the C stack is deep.
+    Tiny_Object *pending = value.obj;
 
-    // Must be marked before what it refers to, because that may refer back to it
-    obj->marked = 1;
+    pending->marked = 1;
+    pending->nextPending = NULL;
 
-    if (obj->type == TINY_VAL_NATIVE) {
-        if (obj->nat.prop && obj->nat.prop->protectFromGC)
-            obj->nat.prop->protectFromGC(obj->nat.addr);
-    } else if (obj->type == TINY_VAL_STRUCT) {
-        for (int i = 0; i < obj->ostruct.n; ++i) Tiny_ProtectFromGC(obj->ostruct.fields[i]);
+    while (pending) {
+        Tiny_Object *obj = pending;
+        pending = obj->nextPending;
+
+        if (obj->type == TINY_VAL_NATIVE) {
+            if (obj->nat.prop && obj->nat.prop->protectFromGC)
+                obj->nat.prop->protectFromGC(obj->nat.addr);
+        } else if (obj->type == TINY_VAL_STRUCT) {
+            for (int i = 0; i < obj->ostruct.n; ++i) {
+                const Tiny_Value field = obj->ostruct.fields[i];
+
+                if (!IsObject(field) || field.obj->marked) continue;
+
+                field.obj->marked = 1;
+                field.obj->nextPending = pending;
+                pending = field.obj;
+            }
+        }
     }
 }
 
-- 
2.43.0


From f9c121ecab2a490a74bb6c9227082a93d645f0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:26 +0000
Subject: [PATCH 37/39] fix: the position reported in a foreign function is
 that of the statement calling it

---
 tiny/include/tiny.h |  3 +++
 tiny/src/tiny.c     | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/tiny/include/tiny.h b/tiny/include/tiny.h
index 981e83e..ab2f69e 100644
--- a/tiny/include/tiny.h
+++ b/tiny/include/tiny.h
@@ -164,6 +164,9 @@ typedef struct Tiny_StateThread {
     int pc, fp, sp;
     Tiny_Value retVal;
 
+    // While a foreign function runs, the pc after the call to it. Otherwise -1.
+    int foreignPc;
+
     Tiny_Value stack[TINY_THREAD_STACK_SIZE];
 
     int fc;
diff --git a/tiny/src/tiny.c b/tiny/src/tiny.c
index 9ec7321..65c063a 100644
--- a/tiny/src/tiny.c
+++ b/tiny/src/tiny.c
@@ -523,6 +523,7 @@ void Tiny_InitThreadWithContext(Tiny_StateThread *thread, const Tiny_State *stat
     thread->globalVars = NULL;
 
     thread->pc = -1;
+    thread->foreignPc = -1;
     thread->fp = thread->sp = 0;
 
     thread->retVal = Tiny_Null;
@@ -1419,7 +1420,10 @@ inline static bool ExecuteCycle(Tiny_StateThread *thread) {
             Word nargs = state->program[thread->pc++];
             Tiny_ConstantIndex fIdx = ReadConstIndex(thread);
             int prevSize = thread->sp - nargs;
+            int prevForeignPc = thread->foreignPc;
+            thread->foreignPc = thread->pc;
             thread->retVal = state->foreignFunctions[fIdx](thread, &thread->stack[prevSize], nargs);
+            thread->foreignPc = prevForeignPc;
             thread->sp = prevSize;
         } break;
 
@@ -3673,7 +3677,15 @@ static void GetFileLineForPC(const Tiny_State *state, int pc, const char **fileN
 }
 
 void Tiny_GetExecutingFileLine(const Tiny_StateThread *thread, const char **fileName, int *line) {
-    GetFileLineForPC(thread->state, thread->pc, fileName, line);
+    int pc = thread->pc;
+
+    // The pc is already past the call while a foreign function runs, and what comes after the call
+    // can belong to the next statement.
+    if (pc >= 0 && pc == thread->foreignPc) {
+        pc -= 1;
+    }
+
+    GetFileLineForPC(thread->state, pc, fileName, line);
 }
 
 static void CompileStatement(Tiny_State *state, Tiny_Expr *exp) {
-- 
2.43.0


From c011633521813185e4c2315fc480a0db3e1d9422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:48 +0000
Subject: [PATCH 38/39] fix: %q prints the elements of arrays of ints, floats
 and bools, as it does of other arrays

---
 tiny/src/std.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index 20d0b45..a19391c 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -656,7 +656,8 @@ static void Print(Tiny_Value val, bool repr, const PrintPath *outer) {
             printf("<light native at %p>", val.addr);
             break;
         case TINY_VAL_NATIVE: {
-            if (repr && val.obj->nat.prop == &ArrayProp) {
+            if (repr && (val.obj->nat.prop == &ArrayProp ||
+                         val.obj->nat.prop == &PrimitiveArrayProp)) {
                 printf("[");
 
                 Array *array = val.obj->nat.addr;
-- 
2.43.0


From af24e62833162198c1846e4671008b683bb3f6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:18 +0000
Subject: [PATCH 39/39] fix: time() returns times after January 2038 (C24)

---
 tiny/src/std.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tiny/src/std.c b/tiny/src/std.c
index a19391c..261c2e9 100644
--- a/tiny/src/std.c
+++ b/tiny/src/std.c
@@ -566,7 +566,11 @@ static TINY_FOREIGN_FUNCTION(Lib_IntToStr) {
 }
 
 static Tiny_Value Lib_Time(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-    return Tiny_NewInt((int)time(NULL));
+    // Not just Tiny_NewInt: it takes an int, which holds no time after January 2038
+    Tiny_Value value = Tiny_NewInt(0);
+    value.i = (Tiny_Int)time(NULL);
+
+    return value;
 }
 
 static Tiny_Value SeedRand(Tiny_StateThread *thread, const Tiny_Value *args, int count) {
-- 
2.43.0

