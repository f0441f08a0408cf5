From 4d8447c72e2feb55a17dc53e4eba53fdfbeceff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 01/32] fix: ASC returned negative codes for characters above
 127

---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 748a3c9..fe001bc 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1008,7 +1008,7 @@ static void execute(VM* vm) {
     // builtins
     case B_ASC: {
       char* s = pop_str(vm);
-      push(vm, s[0]);
+      push(vm, (unsigned char) s[0]);
       efree(s);
       break;
     }
-- 
2.43.0


From a17808ffa0e7e4fa04bd54888de02df40975e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 02/32] fix: DIM with a huge bound allocated no elements and
 overran memory

---
 Basic/arrays.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/arrays.c b/Basic/arrays.c
index 1e44d3d..1c8143b 100644
--- a/Basic/arrays.c
+++ b/Basic/arrays.c
@@ -14,6 +14,8 @@ static bool compute_total_elements(unsigned base, unsigned dimensions, const uns
   for (unsigned i = 0; i < dimensions; i++) {
     if (max[i] < base)
       return false;
+    if (max[i] - base >= MAX_ELEMENTS)
+      return false;
     unsigned size = max[i] - base + 1;
     if (size > MAX_ELEMENTS / *elements)
       return false;
-- 
2.43.0


From 90b1c97982ff757edd12c0ae317f6b60ba496c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 03/32] fix: an array reference with three or more subscripts
 aborted the interpreter

---
 Basic/run.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index fe001bc..9595aba 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1222,7 +1222,8 @@ static unsigned pop_index(VM* vm, const char* name) {
 }
 
 static void pop_indexes(VM* vm, unsigned* indexes, unsigned dimensions, const char* name) {
-  assert(dimensions <= MAX_DIMENSIONS);
+  if (dimensions > MAX_DIMENSIONS)
+    run_error(vm, "too many array indexes: %s\n", name);
   for (unsigned i = 0; i < dimensions; i++)
     indexes[i] = pop_index(vm, name);
 }
-- 
2.43.0


From 1d7bcaee258ea57c527c2ec5a67823b1968a0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 04/32] fix: using a built-in function name as a variable
 aborted the interpreter

---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 5892d36..25cf848 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -911,6 +911,8 @@ static SYMBOL* identifier(PARSER* parser, unsigned *parameters, int paren_kind)
 
   SYMBOL* sym = sym_lookup(parser->st, name, /*paren*/ *parameters);
   if (sym) {
+    if (sym->kind == SYM_BUILTIN)
+      parse_error_no_token(parser, "name already used for %s: %s", symbol_kind(sym->kind), name);
     if (*parameters) {
       if (sym->kind == SYM_UNKNOWN)
         sym->kind = paren_kind;
-- 
2.43.0


From 238cd39a2e6fb8931c3eed6d26c5eba9ca49b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 05/32] fix: INPUT at end of input repeated forever or reused
 the previous line

---
 Basic/run.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/run.c b/Basic/run.c
index 9595aba..a0a2148 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -914,6 +914,7 @@ static void execute(VM* vm) {
       if (fgets(vm->input, sizeof vm->input, stdin) == NULL) {
         if (ferror(stdin))
           run_error(vm, "error reading input\n");
+        run_error(vm, "end of input\n");
       }
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
-- 
2.43.0


From c8daa3b20962428576641606acb7b1fddc62142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 06/32] fix: the rest of an over-long INPUT line was read as
 the next line or command

---
 Basic/run.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index a0a2148..86fd14b 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -445,6 +445,9 @@ static void set_string_element(VM*, SYMBOL*, unsigned ndim, char* val);
 
 static void set_string(VM*, SYMBOL*, unsigned ndim, char* val);
 
+// Input
+static void discard_rest_of_input_line(VM*);
+
 // Number conversion
 static char* convert(const char* string, double *val);
 
@@ -916,6 +919,7 @@ static void execute(VM* vm) {
           run_error(vm, "error reading input\n");
         run_error(vm, "end of input\n");
       }
+      discard_rest_of_input_line(vm);
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
@@ -1420,6 +1424,19 @@ static void set_string(VM* vm, SYMBOL* sym, unsigned ndim, char* val) {
     set_string_element(vm, sym, ndim, val);
 }
 
+// If the input line did not fit in the input buffer, do not leave the rest of it
+// to be read as another line of input, or as an immediate command.
+static void discard_rest_of_input_line(VM* vm) {
+  if (strchr(vm->input, '\n') == NULL) {
+    int c;
+    bool extra = false;
+    while ((c = getchar()) != EOF && c != '\n')
+      extra = true;
+    if (extra)
+      puts("* Extra input was discarded *");
+  }
+}
+
 static char* convert(const char* s, double *val) {
   while (*s == ' ' || *s == '\t')
     s++;
-- 
2.43.0


From 85ee6d041dd73770545bea17ba1440ab70f3b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:18 +0000
Subject: [PATCH 07/32] fix: invalid input for an array element left its
 indexes on the stack

---
 Basic/run.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index 86fd14b..d47482e 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -953,6 +953,9 @@ static void execute(VM* vm) {
         break;
       }
       puts("* Invalid input *");
+      // the item's indexes will be evaluated again
+      for (unsigned k = 0; k < i->u.param.params; k++)
+        pop(vm);
       vm->code_state.pc = vm->input_pc;
       return;
     }
-- 
2.43.0


From 2b6adb4ce01192d9fb2b50636457357c305a193e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:19 +0000
Subject: [PATCH 08/32] fix: a function used in the program could not be
 defined interactively

A name used with parentheses was turned into an array at the end of each
parse, so that DEF in immediate mode was refused for it (manual, immediate
statements, example 3). Decide that it is an array when it is first used.
---
 Basic/parse.c  |  1 -
 Basic/run.c    |  2 ++
 Basic/symbol.c | 10 ++++------
 Basic/symbol.h |  2 +-
 4 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 25cf848..bda0ce8 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -44,7 +44,6 @@ BCODE* parse_source(const SOURCE* source, SYMTAB* st, bool recognise_keyword_pre
     parser.bcode = NULL;
   }
   delete_lex(parser.lex);
-  sym_make_unknown_array(st);
   return parser.bcode;
 }
 
diff --git a/Basic/run.c b/Basic/run.c
index d47482e..6487e5b 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -527,6 +527,7 @@ static void execute(VM* vm) {
     case B_GET_PAREN_NUM: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_NUM);
+      sym_make_unknown_array(sym);
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function
       if (sym->kind == SYM_ARRAY)
@@ -651,6 +652,7 @@ static void execute(VM* vm) {
     case B_GET_PAREN_STR: {
       SYMBOL* sym = symbol(vm->st, i->u.param.symbol_id);
       assert(sym != NULL && sym->type == TYPE_STR);
+      sym_make_unknown_array(sym);
       // must be a parenthesised kind of symbol; not a builtin,
       // which has its own opcodes; therefore array or user-defined function
       if (sym->kind == SYM_ARRAY)
diff --git a/Basic/symbol.c b/Basic/symbol.c
index d282b96..b14bb57 100644
--- a/Basic/symbol.c
+++ b/Basic/symbol.c
@@ -156,14 +156,12 @@ const char* sym_name(const SYMTAB* st, SYMID id) {
   return st->psym[id]->name;
 }
 
-// If a symbol remains of UNKNOWN kind after parsing,
+// If a symbol is still of UNKNOWN kind when its value is required,
 // it has been used with parens but never defined with DIM or DEF,
 // so should be treated as an undeclared array.
-void sym_make_unknown_array(SYMTAB* st) {
-  for (unsigned i = 0; i < st->used; i++) {
-    if (st->psym[i]->kind == SYM_UNKNOWN)
-      st->psym[i]->kind = SYM_ARRAY;
-  }
+void sym_make_unknown_array(SYMBOL* sym) {
+  if (sym->kind == SYM_UNKNOWN)
+    sym->kind = SYM_ARRAY;
 }
 
 void print_binst(const BINST* i, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp) {
diff --git a/Basic/symbol.h b/Basic/symbol.h
index 6b95877..d894f3b 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -65,7 +65,7 @@ SYMBOL* symbol(SYMTAB*, SYMID);
 const char* sym_name(const SYMTAB*, SYMID);
 
 // Turn parenthesised symbols of UNKNOWN kind into ARRAY.
-void sym_make_unknown_array(SYMTAB*);
+void sym_make_unknown_array(SYMBOL*);
 
 // in symbol.h because symbol.h depends on bcode.h
 void print_binst(const BINST*, unsigned j, const SOURCE* source, const SYMTAB* st, FILE* fp);
-- 
2.43.0


From f5b263c2f1a626d0edcbd3a10a9703f3456f7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:21 +0000
Subject: [PATCH 09/32] fix: a failed statement left its operands and function
 call behind

After a runtime error the operands stayed on the evaluation stacks until the
next RUN, and a failed DEF function call stayed in progress with its parameter
still assigned, so later statements failed.
---
 Basic/run.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 6487e5b..5f1056b 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -330,6 +330,7 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static void end_def(VM*);
 static void report_for_in_progress(VM*);
 
 // Run the currently selected code from current PC.
@@ -342,6 +343,13 @@ static void run(VM* vm) {
     while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
       execute(vm);
   }
+  else {
+    // abandon the failed statement
+    clear_string_stack(vm);
+    vm->sp = 0;
+    if (vm->fn.code_state.code)
+      end_def(vm);
+  }
   untrap_interrupt();
 
   if (interrupted)
@@ -462,7 +470,6 @@ static void pop_return(VM*);
 static int find_for(VM*, SYMID);
 static void next(VM*, int stack_index);
 static void call_def(VM*, SYMBOL*, unsigned params);
-static void end_def(VM*);
 
 // Debugging
 static void print_stack(const VM*);
-- 
2.43.0


From be3dc2d83309de04539d3d7f23bc738b78eb595e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 10/32] fix: CONT after a break skipped a STOP and could look
 past the end of the code

A program interrupted just before STOP lost the STOP on CONT, and one
interrupted after its last instruction made CONT examine the instruction
after the end. Advance past STOP when it is executed instead.
---
 Basic/run.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 5f1056b..af106f6 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -381,10 +381,6 @@ bool vm_continue(VM* vm) {
   if (vm->stopped_program.code->bcode == NULL)
     return false;
   vm->code_state = vm->stopped_program;
-  // If continuing from STOP, continue from PC after STOP.
-  // If continuing from interrupt, continue from where we are (effects not guaranteed).
-  if (vm->stopped_program.code->bcode->inst[vm->stopped_program.pc].op == B_STOP)
-    vm->code_state.pc++;
   run(vm);
   return true;
 }
@@ -713,7 +709,7 @@ static void execute(VM* vm) {
       return;
     case B_STOP:
       vm->stopped = true;
-      return;
+      break; // CONT continues from PC after STOP
     case B_GOTO:
       go_to_basic_line(vm, i->u.basic_line.lineno);
       return;
-- 
2.43.0


From de74f41c05a62c36dc230f8471dd7e6e13c12fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 11/32] fix: a break in the middle of an expression corrupted
 the stopped program

CTRL-C between two instructions of an expression or in a DEF function call
left operands on the stacks and the call in progress, so that immediate
statements failed and CONT gave other results.
---
 Basic/run.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index af106f6..3bbd6ea 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -330,6 +330,7 @@ static bool immediate_state(VM* vm) {
 }
 
 static void execute(VM*);
+static bool break_requested(const VM*);
 static void end_def(VM*);
 static void report_for_in_progress(VM*);
 
@@ -340,7 +341,7 @@ static void run(VM* vm) {
   vm->stopped = false;
   trap_interrupt();
   if (setjmp(vm->errjmp) == 0) {
-    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !interrupted)
+    while (vm->code_state.pc < vm->code_state.code->bcode->used && !vm->stopped && !break_requested(vm))
       execute(vm);
   }
   else {
@@ -375,6 +376,12 @@ static void run(VM* vm) {
   }
 }
 
+// Take an interrupt only when no expression or function is half evaluated,
+// so that the state is consistent for immediate statements and CONT.
+static bool break_requested(const VM* vm) {
+  return interrupted && vm->sp == 0 && vm->ssp == 0 && vm->fn.code_state.code == NULL;
+}
+
 bool vm_continue(VM* vm) {
   if (vm->stopped_program.code == NULL)
     return false;
-- 
2.43.0


From d9607634a2275c76d465924840d02b73dab6c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:25 +0000
Subject: [PATCH 12/32] fix: entering line 0 ended the interpreter and a huge
 number wrapped around

Typing a line numbered 0 exited with "invalid line number", and a number too
large for unsigned replaced or deleted the line it happened to wrap to.
---
 Monitor/interactive.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index a9ed22a..ea88eeb 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -9,6 +9,7 @@
 #include <ctype.h>
 #include <stdarg.h>
 #include <math.h>
+#include <limits.h>
 #include <assert.h>
 #include "interactive.h"
 #include "run.h"
@@ -142,6 +143,10 @@ static void program_line(VM* vm, char* line) {
   assert(line != NULL && isdigit(*line));
   unsigned num = 0;
   const char* p = read_num(line, &num);
+  if (num == 0 || num == UINT_MAX) {
+    error("Invalid line number");
+    return;
+  }
   if (*p == '\0' || *p == '\n')
     vm_delete_source_line(vm, num);
   else {
@@ -440,7 +445,8 @@ static char* read_num(char* line, unsigned *num) {
   assert(line != NULL && isdigit(*line));
   *num = 0;
   do {
-    *num = 10 * *num + *line - '0';
+    unsigned digit = *line - '0';
+    *num = *num > (UINT_MAX - digit) / 10 ? UINT_MAX : 10 * *num + digit;
     line++;
   } while (isdigit(*line));
   return line;
-- 
2.43.0


From 37eb0b3eb36ab86eeb6afa8a061251dcbfd8b576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:27 +0000
Subject: [PATCH 13/32] fix: LOAD of an invalid file ended the interpreter, and
 every LOAD left its file open

Report an unreadable or malformed file and keep the current program. Line
numbers too large for unsigned are malformed too. A program named on the
command line that cannot be loaded still gives a failure exit status.
---
 Basic/run.c     |  2 +-
 Basic/source.c  | 87 +++++++++++++++++++++++++++++++++----------------
 System/lbasic.c | 20 +++++++++---
 3 files changed, 76 insertions(+), 33 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 3bbd6ea..d309efc 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -247,7 +247,7 @@ bool vm_save_source(VM* vm, const char* name) {
 }
 
 bool vm_load_source(VM* vm, const char* name) {
-  SOURCE* source = load_source_file(name); // TODO: errors should not terminate the interpreter
+  SOURCE* source = load_source_file(name);
   if (source == NULL)
     return false;
 
diff --git a/Basic/source.c b/Basic/source.c
index 6848df6..aebd1f8 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -6,6 +6,7 @@
 #include <string.h>
 #include <ctype.h>
 #include <stdarg.h>
+#include <limits.h>
 #include <assert.h>
 #include "source.h"
 #include "utils.h"
@@ -80,7 +81,6 @@ static void source_error(const SOURCE* src, const char* fmt, ...) {
   va_start(ap, fmt);
   vfprintf(stderr, fmt, ap);
   va_end(ap);
-  exit(EXIT_FAILURE);
 }
 
 static void ensure_space(SOURCE* src) {
@@ -91,19 +91,24 @@ static void ensure_space(SOURCE* src) {
   }
 }
 
-static void append(SOURCE* src, unsigned num, const char* text) {
+static bool append(SOURCE* src, unsigned num, const char* text) {
   assert(src != NULL);
   assert(text != NULL);
-  if (num == 0)
+  if (num == 0) {
     source_error(src, "invalid line number: %u\n", num);
+    return false;
+  }
   unsigned latest = src->used ? src->lines[src->used - 1].num : 0;
-  if (num <= latest)
+  if (num <= latest) {
     source_error(src, "line number is not in increasing order: %u\n", num);
+    return false;
+  }
   ensure_space(src);
   assert(src->used < src->allocated);
   src->lines[src->used].num = num;
   src->lines[src->used].text = estrdup(text);
   src->used++;
+  return true;
 }
 
 static const char* parse_line_number(SOURCE* src, const char* line, unsigned *num) {
@@ -111,10 +116,18 @@ static const char* parse_line_number(SOURCE* src, const char* line, unsigned *nu
   assert(num != NULL);
   *num = 0;
   const char* s = line;
-  for (; isdigit(*s); s++)
-    *num = *num * 10 + *s - '0';
-  if (s == line)
+  for (; isdigit(*s); s++) {
+    unsigned digit = *s - '0';
+    if (*num > (UINT_MAX - digit) / 10) {
+      source_error(src, "line number is too large\n");
+      return NULL;
+    }
+    *num = *num * 10 + digit;
+  }
+  if (s == line) {
     source_error(src, "line has no line number\n");
+    return NULL;
+  }
   // treat one space as pure delimiter but preserve any other indenting
   if (*s == ' ')
     s++;
@@ -161,6 +174,25 @@ void delete_source_line(SOURCE* src, unsigned line) {
   }
 }
 
+static bool load_line(SOURCE* src, char* buf) {
+  size_t len = strlen(buf);
+  if (len > 0) {
+    if (buf[len-1] != '\n') {
+      source_error(src, "source line is too long\n");
+      return false;
+    }
+    len--;
+    buf[len] = '\0';
+  }
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    return false;
+  }
+  unsigned num;
+  const char* text = parse_line_number(src, buf, &num);
+  return text != NULL && append(src, num, text);
+}
+
 SOURCE* load_source_file(const char* name) {
   FILE* fp = fopen(name, "r");
   if (fp == NULL) {
@@ -169,21 +201,17 @@ SOURCE* load_source_file(const char* name) {
   }
   SOURCE* src = new_source(name);
   char buf[256];
-  while (fgets(buf, sizeof buf, fp)) {
-    size_t len = strlen(buf);
-    if (len > 0) {
-      if (buf[len-1] != '\n')
-        source_error(src, "source line is too long");
-      len--;
-      buf[len] = '\0';
-    }
-    if (len == 0)
-      source_error(src, "source line is empty");
-    unsigned num;
-    const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
-      exit(EXIT_FAILURE);
-    append(src, num, text);
+  bool ok = true;
+  while (ok && fgets(buf, sizeof buf, fp))
+    ok = load_line(src, buf);
+  if (ok && ferror(fp)) {
+    source_error(src, "error reading source file\n");
+    ok = false;
+  }
+  fclose(fp);
+  if (!ok) {
+    delete_source(src);
+    return NULL;
   }
   return src;
 }
@@ -213,10 +241,14 @@ static unsigned line_length(const char* s) {
 
 static unsigned get_line(SOURCE* src, const char* string, char* buf, unsigned bufsz) {
   unsigned len = line_length(string);
-  if (len == 0)
-    source_error(src, "source line is empty");
-  if (len + 1 > bufsz)
-    source_error(src, "source line is too long");
+  if (len == 0) {
+    source_error(src, "source line is empty\n");
+    exit(EXIT_FAILURE);
+  }
+  if (len + 1 > bufsz) {
+    source_error(src, "source line is too long\n");
+    exit(EXIT_FAILURE);
+  }
   strncpy(buf, string, len);
   buf[len] = '\0';
   return len;
@@ -234,9 +266,8 @@ SOURCE* load_source_string(const char* string, const char* name) {
 
     unsigned num;
     const char* text = parse_line_number(src, buf, &num);
-    if (text == NULL)
+    if (text == NULL || !append(src, num, text))
       exit(EXIT_FAILURE);
-    append(src, num, text);
 
     if (string[len] == '\0' || string[len+1] == '\0')
       break;
diff --git a/System/lbasic.c b/System/lbasic.c
index dd2e1c2..61194c9 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -98,6 +98,7 @@ static void report_memory(void) {
   printf("free:   %10lu\n", free_count);
 }
 
+static SOURCE* load_file(const char* file_name);
 static void list_file(const char* file_name);
 static void list_names(const char* file_name, bool crunched);
 
@@ -117,7 +118,7 @@ static void process_file(const Options* opt) {
   }
 
   if (opt->mode == PARSE_MODE || opt->mode == CODE_MODE) {
-    SOURCE* source = load_source_file(opt->file_name);
+    SOURCE* source = load_file(opt->file_name);
     if (source) {
       SYMTAB* st = new_symbol_table();
       init_builtins(st);
@@ -139,7 +140,8 @@ static void process_file(const Options* opt) {
 
   VM* vm = new_vm(opt->keywords_anywhere, opt->trace_basic, opt->trace_for, opt->trace_log);
 
-  if (vm_load_source(vm, opt->file_name)) {
+  bool loaded = vm_load_source(vm, opt->file_name);
+  if (loaded) {
 #if HAS_TIMER
     TIMER timer;
     start_timer(&timer);
@@ -153,10 +155,20 @@ static void process_file(const Options* opt) {
   }
 
   delete_vm(vm);
+
+  if (!loaded)
+    exit(EXIT_FAILURE);
 }
 
-static void list_file(const char* file_name) {
+static SOURCE* load_file(const char* file_name) {
   SOURCE* source = load_source_file(file_name);
+  if (source == NULL)
+    exit(EXIT_FAILURE);
+  return source;
+}
+
+static void list_file(const char* file_name) {
+  SOURCE* source = load_file(file_name);
   if (source) {
     for (unsigned i = 0; i < source_lines(source); i++)
       printf("%5u %s\n", source_linenum(source, i), source_text(source, i));
@@ -167,7 +179,7 @@ static void list_file(const char* file_name) {
 static void print_name(const char* name);
 
 static void list_names(const char* file_name, bool crunched) {
-  SOURCE* source = load_source_file(file_name);
+  SOURCE* source = load_file(file_name);
   if (source) {
     LEX* lex = new_lex(file_name, crunched);
     UNIQUE_STRINGS* names = new_unique_strings();
-- 
2.43.0


From b564ecff2d0878b8f6374bcc67f29f2dabb8bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:30 +0000
Subject: [PATCH 14/32] fix: SAVE did not report that the file could not be
 written

---
 Basic/source.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Basic/source.c b/Basic/source.c
index aebd1f8..ac2566b 100644
--- a/Basic/source.c
+++ b/Basic/source.c
@@ -219,13 +219,17 @@ SOURCE* load_source_file(const char* name) {
 bool save_source_file(const SOURCE* src, const char* name) {
   FILE* fp = fopen(name, "w");
   if (fp == NULL) {
-    fprintf(stderr, "cannot create file: %s", name);
+    fprintf(stderr, "cannot create file: %s\n", name);
     return false;
   }
   for (unsigned i = 0; i < src->used; i++)
     fprintf(fp, "%u %s\n", src->lines[i].num, src->lines[i].text);
-  fclose(fp);
-  return true;
+  bool ok = !ferror(fp);
+  if (fclose(fp) != 0)
+    ok = false;
+  if (!ok)
+    fprintf(stderr, "error writing file: %s\n", name);
+  return ok;
 }
 
 static unsigned line_length(const char* s) {
-- 
2.43.0


From fad9b79892a061abe96866d330378490d9c37cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:03 +0000
Subject: [PATCH 15/32] fix: invalid characters or DATA ended the interpreter

A character outside ASCII or a bad DATA item exited from immediate mode, RUN,
COMPILE and RENUM alike. Report a syntax error on the line instead.
---
 Basic/lexer.c | 46 +++++++++++++++++++++++++++-------------------
 Basic/parse.c | 11 +++++++++--
 2 files changed, 36 insertions(+), 21 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index fdd4502..5cee94f 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -73,11 +73,16 @@ static void lex_error(LEX* lex, const char* fmt, ...) {
   va_end(ap);
 }
 
-static void validate(LEX* lex, int c) {
-  if (c != EOF && (c < 0 || c >= 127)) {
+// result of reading a character which is not allowed outside a remark
+#define INVALID_CHAR (EOF - 1)
+
+static int validate(LEX* lex, char ch) {
+  int c = (unsigned char) ch;
+  if (c >= 127) {
     lex_error(lex, "invalid character on line: value %d\n", c);
-    exit(EXIT_FAILURE);
+    return INVALID_CHAR;
   }
+  return c;
 }
 
 static int lex_char_pos(LEX* lex, unsigned *pos) {
@@ -94,9 +99,7 @@ static int lex_char_pos(LEX* lex, unsigned *pos) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos++];
-  validate(lex, c);
-  return c;
+  return validate(lex, lex->text[lex->pos++]);
 }
 
 static int lex_char(LEX* lex) {
@@ -108,9 +111,7 @@ static int lex_char(LEX* lex) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos++];
-  validate(lex, c);
-  return c;
+  return validate(lex, lex->text[lex->pos++]);
 }
 
 int lex_peek(LEX* lex) {
@@ -122,9 +123,7 @@ int lex_peek(LEX* lex) {
   if (lex->text[lex->pos] == '\0')
     return '\n';
 
-  int c = lex->text[lex->pos];
-  validate(lex, c);
-  return c;
+  return validate(lex, lex->text[lex->pos]);
 }
 
 void lex_discard(LEX* lex) {
@@ -150,7 +149,7 @@ static void pushback(LEX* lex, int c) {
   if (lex->pos == 0)
     lex_fatal(lex, "internal error: invalid pushback\n");
   lex->pos--;
-  if (lex->text[lex->pos] != c)
+  if (c != INVALID_CHAR && lex->text[lex->pos] != c)
     lex_fatal(lex, "internal error: pushback: attempted '%c' 0x%02x, found '%c' 0x%02x\n",
         chr(c), c, chr(lex->text[lex->pos]), lex->text[lex->pos]);
 }
@@ -276,7 +275,7 @@ int lex_next(LEX* lex) {
 
   if (c == '\"') {
     unsigned i = 0;
-    while ((c = lex_char(lex)) != '\"' && c != '\n' && c != EOF) {
+    while ((c = lex_char(lex)) != '\"' && c != '\n' && c != EOF && c != INVALID_CHAR) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
@@ -308,10 +307,19 @@ int lex_next(LEX* lex) {
     return lex->token = '>';
   }
 
+  if (c == INVALID_CHAR)
+    return lex->token = TOK_ERROR;
+
   return lex->token = (c == EOF ? TOK_EOF : c);
 }
 
+static const char* data_error(LEX* lex) {
+  lex->token = TOK_ERROR;
+  return NULL;
+}
+
 // Recognise a string token, or read other characters into a string, for untyped DATA.
+// Return NULL if the data is invalid.
 const char* lex_next_data(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
@@ -323,25 +331,25 @@ const char* lex_next_data(LEX* lex) {
 
   unsigned i = 0;
   if (c == '\"') {
-    while ((c = lex_char(lex)) != '\"' && c != '\n' && c != EOF) {
+    while ((c = lex_char(lex)) != '\"' && c != '\n' && c != EOF && c != INVALID_CHAR) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a string is too long: \"%s...", lex->word);
-        exit(EXIT_FAILURE);
+        return data_error(lex);
       }
       lex->word[i++] = c;
     }
     if (c != '\"') {
       lex_error(lex, "unterminated string: \"%s...", lex->word);
-      exit(EXIT_FAILURE);
+      return data_error(lex);
     }
   }
   else {
-    while (c != '\"' && c != ',' && c != ':' && c != '\n' && c != EOF) {
+    while (c != '\"' && c != ',' && c != ':' && c != '\n' && c != EOF && c != INVALID_CHAR) {
       if (i + 1 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "data is too long: %s...", lex->word);
-        exit(EXIT_FAILURE);
+        return data_error(lex);
       }
       lex->word[i++] = c;
       c = lex_char(lex);
diff --git a/Basic/parse.c b/Basic/parse.c
index bda0ce8..db4ecf3 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -211,9 +211,16 @@ static void data_statement(PARSER* parser) {
   if (lex_token(parser->lex) != TOK_DATA)
     match(parser, TOK_DATA);
 
-  emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+  datum(parser);
   while (lex_next(parser->lex) == ',')
-    emit_str(parser->bcode, B_DATA, lex_next_data(parser->lex));
+    datum(parser);
+}
+
+static void datum(PARSER* parser) {
+  const char* s = lex_next_data(parser->lex);
+  if (s == NULL)
+    parse_error(parser, "invalid DATA");
+  emit_str(parser->bcode, B_DATA, s);
 }
 
 static void read_item(PARSER*);
-- 
2.43.0


From e1b22f783fcc3e598c9956f520d1b89f4113e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:05 +0000
Subject: [PATCH 16/32] fix: the last unquoted DATA item of a line included a
 carriage return

In a file with CR LF line ends it could not be read as a number.
---
 Basic/lexer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index 5cee94f..b3125c7 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -324,7 +324,7 @@ const char* lex_next_data(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
 
-  while (c == ' ' || c == '\t')
+  while (c == ' ' || c == '\t' || c == '\r')
     c = lex_char_pos(lex, &pos);
 
   lex->token_pos = pos;
@@ -356,7 +356,7 @@ const char* lex_next_data(LEX* lex) {
     }
     pushback(lex, c);
     // trim trailing space otherwise it is inconsistent trimming leading space only
-    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\t'))
+    while (i > 0 && (lex->word[i-1] == ' ' || lex->word[i-1] == '\t' || lex->word[i-1] == '\r'))
       i--;
   }
   lex->word[i] = '\0';
-- 
2.43.0


From 0432efb4422901f6a5afcb356c1a213e03b6504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:08 +0000
Subject: [PATCH 17/32] fix: a number raised to a string power was accepted as
 a dummy argument

RND(2^"A") was compiled without the operator and left values on the stacks.
---
 Basic/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index db4ecf3..52fa060 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -813,7 +813,7 @@ static int power_expr(PARSER* parser) {
     lex_next(parser->lex);
     int type2 = power_expr(parser);
     if (type2 != TYPE_NUM)
-      return TYPE_ERR;
+      parse_error_no_token(parser, "Invalid types for exponentiation");
     emit(parser->bcode, B_POW);
   }
 
-- 
2.43.0


From 469647d734ef0630dbe6f94ffb05007f6e6c8f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:10 +0000
Subject: [PATCH 18/32] fix: NOT NOT accepted a value which is not an integer

---
 Basic/parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/parse.c b/Basic/parse.c
index 52fa060..81d1bfa 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -681,7 +681,7 @@ static int NOT_expression(PARSER* parser) {
   if (not) {
     if (type != TYPE_NUM)
       parse_error_no_token(parser, "NOT requires a numeric value");
-    if (not % 2)
+    while (not--)
       emit(parser->bcode, B_NOT);
   }
 
-- 
2.43.0


From 3331a2ea5324d03bd317f5e5b7193103847a687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:13 +0000
Subject: [PATCH 19/32] fix: SAVE without any program did nothing and did not
 say so

---
 Basic/run.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index d309efc..75c603c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -241,8 +241,10 @@ void vm_enter_source_line(VM* vm, unsigned num, const char* text) {
 }
 
 bool vm_save_source(VM* vm, const char* name) {
-  if (vm->stored_program.source == NULL)
+  if (vm->stored_program.source == NULL) {
+    error("No program to save");
     return false;
+  }
   return save_source_file(vm->stored_program.source, name);
 }
 
-- 
2.43.0


From fe3b890dfc1a65148dfdd89c40b9564f94249aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:16 +0000
Subject: [PATCH 20/32] fix: --list-names listed the words in DATA statements
 as names

---
 System/lbasic.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/System/lbasic.c b/System/lbasic.c
index 61194c9..eeb2618 100644
--- a/System/lbasic.c
+++ b/System/lbasic.c
@@ -190,6 +190,12 @@ static void list_names(const char* file_name, bool crunched) {
       while (t != '\n' && t != TOK_REM) {
         if (t == TOK_ID)
           insert_unique_string(names, lex_word(lex));
+        else if (t == TOK_DATA) {
+          while (lex_next_data(lex) && lex_next(lex) == ',')
+            ;
+          t = lex_token(lex);
+          continue;
+        }
         t = lex_next(lex);
       }
     }
-- 
2.43.0


From ba9b91d39f693b87cfae87c4a57563e9a7734829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:43 +0000
Subject: [PATCH 21/32] fix: a refused RENUM changed the program, and duplicate
 numbers were accepted

Check all the new numbers before changing any line, refuse equal ones and
those which a statement cannot refer to, and recompile the program afterwards
so that GOTO from immediate mode finds the new numbers.
---
 Basic/run.c           |  5 +++++
 Basic/run.h           |  1 +
 Monitor/interactive.c | 20 +++++++++++++-------
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/Basic/run.c b/Basic/run.c
index 75c603c..a20e655 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -188,6 +188,11 @@ static void stored_program_changed(VM* vm) {
   }
 }
 
+void vm_source_changed(VM* vm) {
+  assert(vm != NULL);
+  stored_program_changed(vm);
+}
+
 // Recompile the stored program if its source has changed since last compilation.
 // Return false on compilation error, true otherwise.
 static bool ensure_program_compiled(VM* vm) {
diff --git a/Basic/run.h b/Basic/run.h
index 3fe34b6..cc53ea7 100644
--- a/Basic/run.h
+++ b/Basic/run.h
@@ -19,6 +19,7 @@ bool vm_save_source(VM*, const char* name);
 bool vm_load_source(VM*, const char* name);
 
 SOURCE* vm_stored_source(vm);
+void vm_source_changed(VM*); // after changing the stored source directly
 
 // Compile and run code.
 void vm_compile(VM*);
diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index ea88eeb..4731923 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -341,21 +341,19 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   LEX* lex = new_lex(/*name*/ NULL, vm_keywords_anywhere(vm));
 
   // create mapping of old Basic line number to new Basic line number
-  // update the line number of each source line
   LINE_MAP* map = new_line_map(source_lines(source));
-  unsigned new_linenum = new_start;
+  unsigned long long new_linenum = new_start;
   unsigned prev_basic_line = 0;
   for (unsigned line = 0; line < source_lines(source); line++) {
     unsigned basic_line = source_linenum(source, line);
     if (basic_line >= old_start) {
-      if (new_linenum < prev_basic_line) {
-        error("Cannot renumber line %u to %u after line %u",
+      if (new_linenum <= prev_basic_line || new_linenum > (U16)(-1)) {
+        error("Cannot renumber line %u to %llu after line %u",
               basic_line, new_linenum, prev_basic_line);
         goto bail;
       }
-      insert_line_mapping(map, basic_line, new_linenum);
-      set_source_linenum(source, line, new_linenum);
-      prev_basic_line = new_linenum;
+      insert_line_mapping(map, basic_line, (unsigned) new_linenum);
+      prev_basic_line = (unsigned) new_linenum;
       new_linenum += inc;
     }
     else {
@@ -364,6 +362,14 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
     }
   }
 
+  // the new numbers are all valid: update the line number of each source line
+  for (unsigned line = 0; line < source_lines(source); line++) {
+    unsigned new_basic_line;
+    if (lookup_line_mapping(map, source_linenum(source, line), &new_basic_line))
+      set_source_linenum(source, line, new_basic_line);
+  }
+  vm_source_changed(vm);
+
   // update line numbers in source text
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
-- 
2.43.0


From 81396edbeb8318d12721078089c79c2a936565f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:45 +0000
Subject: [PATCH 22/32] fix: RENUM missed all but the first line of ON lists
 and altered remarks and data

---
 Monitor/interactive.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/Monitor/interactive.c b/Monitor/interactive.c
index 4731923..8da6c58 100644
--- a/Monitor/interactive.c
+++ b/Monitor/interactive.c
@@ -374,9 +374,18 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
   for (unsigned line = 0; line < source_lines(source); line++) {
     int tok = lex_line(lex, line, source_text(source, line));
     while (tok != TOK_EOF && tok != '\n') {
+      if (tok == TOK_REM)
+        break;
+      if (tok == TOK_DATA) {
+        while (lex_next_data(lex) && lex_next(lex) == ',')
+          ;
+        tok = lex_token(lex);
+        continue;
+      }
+      const bool list = tok == TOK_GOTO || tok == TOK_GOSUB;
       if (takes_line_number(tok)) {
         tok = lex_next(lex);
-        if (tok == TOK_NUM) {
+        while (tok == TOK_NUM) {
           double x = lex_num(lex);
           if (x > 0 && x <= (U16)(-1) && floor(x) == x) {
             unsigned basic_line = (unsigned) x;
@@ -395,7 +404,14 @@ static void renumber(VM* vm, unsigned new_start, unsigned old_start, unsigned in
               }
             }
           }
+          tok = lex_next(lex);
+          // ON ... GOTO line, line...
+          if (list && tok == ',')
+            tok = lex_next(lex);
+          else
+            break;
         }
+        continue;
       }
       tok = lex_next(lex);
     }
-- 
2.43.0


From d7e7451f943a82b2612c914c621156ecbb34d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:31 +0000
Subject: [PATCH 23/32] fix: VAL, READ and INPUT accepted hexadecimal, infinity
 and NaN as numbers

Neither is a number in Basic: 0x10, -inf and +nan are refused as constants.
---
 Basic/run.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index a20e655..d879d65 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1463,7 +1463,9 @@ static char* convert(const char* s, double *val) {
   while (*s == ' ' || *s == '\t')
     s++;
 
-  if (isdigit(*s) || *s == '.' || *s == '-' || *s == '+') {
+  // strtod would accept hexadecimal, infinity and NaN as well
+  const char* p = *s == '-' || *s == '+' ? s + 1 : s;
+  if ((isdigit(*p) || *p == '.') && !(p[0] == '0' && tolower(p[1]) == 'x')) {
     char* end = NULL;
     *val = strtod(s, &end);
     while (*end == ' ' || *end == '\t')
-- 
2.43.0


From e0d5d84f59691c8dc4f5a3a8deaed8af99a333ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:33 +0000
Subject: [PATCH 24/32] fix: a constant with an explicit positive exponent was
 a syntax error

PRINT and STR$ write 1e+20, and VAL, READ and INPUT accept it.
---
 Basic/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index b3125c7..54dc24b 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -251,7 +251,7 @@ int lex_next(LEX* lex) {
     if (tolower(c) == 'e') {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
-      if ((c = lex_char(lex)) == '-') {
+      if ((c = lex_char(lex)) == '-' || c == '+') {
         if (!append(lex, &i, c, NUMBER))
           return lex->token = TOK_ERROR;
         c = lex_char(lex);
-- 
2.43.0


From bf685a7f4eecac229a1b1b9b166686f6d5d0f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:11 +0000
Subject: [PATCH 25/32] fix: a false IF ... THEN line-number performed the rest
 of the line

According to the manual, it goes to the next program line when there is no
ELSE, as IF ... THEN statements does.
---
 Basic/parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/parse.c b/Basic/parse.c
index 81d1bfa..4e3355b 100644
--- a/Basic/parse.c
+++ b/Basic/parse.c
@@ -385,6 +385,8 @@ static bool if_statement(PARSER* parser) {
   if (lex_token(parser->lex) == TOK_NUM) {
     unsigned line = line_number(parser);
     emit_basic_line(parser->bcode, B_GOTRUE, line);
+    if (lex_token(parser->lex) != TOK_ELSE)
+      emit(parser->bcode, B_ELSE); // condition false: skip to next line
     parser->if_then = 0;
     return false;
   }
-- 
2.43.0


From 8fda71d89550d85a31ed0610fc873efcb3620591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:12 +0000
Subject: [PATCH 26/32] fix: PRINT column was not reset by the newline the user
 enters

After INPUT, or in a new immediate line, TAB and comma counted columns from
the end of the previous output although the cursor is at the left margin.
---
 Basic/run.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Basic/run.c b/Basic/run.c
index d879d65..11bc390 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -306,6 +306,7 @@ void run_immediate(VM* vm, const char* line) {
     vm->immediate_code.index = bcode_index(vm->immediate_code.bcode, source);
     vm->immediate_code.source = source;
     vm->immediate_data = 0;
+    vm->col = 1; // the user has entered a newline
     vm->code_state.code = &vm->immediate_code;
     vm->code_state.source_line = 0;
     vm->code_state.pc = 0;
@@ -939,6 +940,7 @@ static void execute(VM* vm) {
         run_error(vm, "end of input\n");
       }
       discard_rest_of_input_line(vm);
+      vm->col = 1; // the user has entered a newline
       vm->inp = 0;
       vm->input_pc = vm->code_state.pc;
       break;
-- 
2.43.0


From 75d6d2f56520c4280d4093ca9ffd3fe018351708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 27/32] fix: GOSUB to a line which does not exist left a
 pending return

Each failed call used up one level of GOSUB nesting until the next RUN.
---
 Basic/run.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 11bc390..0abba0c 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -735,6 +735,7 @@ static void execute(VM* vm) {
       }
       break;
     case B_GOSUB:
+      find_basic_line(vm, i->u.basic_line.lineno); // must exist
       push_return(vm, vm->code_state.pc + 1);
       go_to_basic_line(vm, i->u.basic_line.lineno);
       return;
@@ -852,8 +853,10 @@ static void execute(VM* vm) {
       unsigned k = vm->code_state.pc + (unsigned) x;
       if (k >= vm->code_state.code->bcode->used || vm->code_state.code->bcode->inst[k].op != B_ON_LINE)
         run_error(vm, "internal error: ON-LINE expected\n");
-      if (i->op == B_ON_GOSUB)
+      if (i->op == B_ON_GOSUB) {
+        find_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno); // must exist
         push_return(vm, vm->code_state.pc + i->u.count + 1);
+      }
       go_to_basic_line(vm, vm->code_state.code->bcode->inst[k].u.basic_line.lineno);
       return;
     }
-- 
2.43.0


From 5da9cb4ca7408574cc8920b2a07c801e4b5c93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:40 +0000
Subject: [PATCH 28/32] fix: ELSE directly after a line number was read as an
 exponent

With crunched keywords IF A THEN 100ELSE200 was an invalid number.
---
 Basic/lexer.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index 54dc24b..3696bf9 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -175,6 +175,14 @@ static bool append(LEX* lex, unsigned *i, int c, const char* descrip) {
   return true;
 }
 
+// In 10ELSE the letter E does not begin an exponent.
+static bool exponent_follows(const LEX* lex) {
+  const char* s = lex->text + lex->pos;
+  if (*s == '-' || *s == '+')
+    s++;
+  return isdigit((unsigned char) *s);
+}
+
 int lex_next(LEX* lex) {
   unsigned pos;
   int c = lex_char_pos(lex, &pos);
@@ -248,7 +256,7 @@ int lex_next(LEX* lex) {
           return lex->token = TOK_ERROR;
       }
     }
-    if (tolower(c) == 'e') {
+    if (tolower(c) == 'e' && exponent_follows(lex)) {
       if (!append(lex, &i, c, NUMBER))
         return lex->token = TOK_ERROR;
       if ((c = lex_char(lex)) == '-' || c == '+') {
-- 
2.43.0


From 370fa122e95d5141b37fdd33a997a92320d0c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:23 +0000
Subject: [PATCH 29/32] fix: message about an unterminated DATA string read
 past the characters collected

---
 Basic/lexer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index 3696bf9..dd4608d 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -348,6 +348,7 @@ const char* lex_next_data(LEX* lex) {
       lex->word[i++] = c;
     }
     if (c != '\"') {
+      lex->word[i] = '\0';
       lex_error(lex, "unterminated string: \"%s...", lex->word);
       return data_error(lex);
     }
-- 
2.43.0


From 52a5caa3d7912fb373081fb483552afe58cd77ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:43 +0000
Subject: [PATCH 30/32] fix: after CLEAR, the index of a loop still in progress
 lost the value given by NEXT

---
 Basic/run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/run.c b/Basic/run.c
index 0abba0c..3450f05 100644
--- a/Basic/run.c
+++ b/Basic/run.c
@@ -1570,7 +1570,7 @@ static void next(VM* vm, int si) {
       vm->for_stack[k] = vm->for_stack[k + 1];
   }
   else {
-    sym->val.num = x;
+    set_numeric_simple(vm, sym, x);
     vm->code_state = f->code_state;
   }
   if (vm->trace_for)
-- 
2.43.0


From 99bf93182ca90b55f109fd2eab8a2097f3d272ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 31/32] fix: a remark may begin with any character directly
 after REM

---
 Basic/lexer.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Basic/lexer.c b/Basic/lexer.c
index dd4608d..101fc85 100644
--- a/Basic/lexer.c
+++ b/Basic/lexer.c
@@ -223,18 +223,20 @@ int lex_next(LEX* lex) {
 
     unsigned i = 0;
     lex->word[i++] = c;
-    while (isalnum(c = lex_char(lex))) {
+    // Do not report the next character: in a remark, any character may follow.
+    while (isalnum(c = (unsigned char) lex->text[lex->pos])) {
       if (i + 2 >= sizeof lex->word) {
         lex->word[i] = '\0';
         lex_error(lex, "a keyword or name is too long: %s...", lex->word);
         return lex->token = TOK_ERROR;
       }
       lex->word[i++] = c;
+      lex->pos++;
     }
-    if (c == '$')
+    if (c == '$') {
       lex->word[i++] = c;
-    else
-      pushback(lex, c);
+      lex->pos++;
+    }
     lex->word[i] = '\0';
     return lex->token = identifier_token(lex->word);
   }
-- 
2.43.0


From f2f0862ea378cca3a40df31acc39bce8eaf4491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:25 +0000
Subject: [PATCH 32/32] fix: names beyond the 65536th were taken for earlier
 ones

---
 Basic/symbol.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Basic/symbol.h b/Basic/symbol.h
index d894f3b..18ed243 100644
--- a/Basic/symbol.h
+++ b/Basic/symbol.h
@@ -18,7 +18,7 @@ enum symbol_kind {
 
 const char* symbol_kind(int kind);
 
-typedef unsigned short SYMID;
+typedef unsigned SYMID;
 
 typedef struct symbol {
   char* name;
-- 
2.43.0

