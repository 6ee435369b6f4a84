From 9b8860a010afd64ab3d8a201493c70cf2495c350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:12 +0000
Subject: [PATCH 01/77] fix: treat vertical tab and form feed as white space

---
 src/preprocessor/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/preprocessor/tokenizer.c b/src/preprocessor/tokenizer.c
index 89c98bc..5760b5d 100644
--- a/src/preprocessor/tokenizer.c
+++ b/src/preprocessor/tokenizer.c
@@ -22,7 +22,7 @@ enum {
 };
 
 static char eq_table[UCHAR_MAX + 1] = {
-	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 2,   2,   7,   2,   2,
+	1, 2,  2,  2,  2, 2,   2,  2,  2,  7,  10, 7,   7,   7,   2,   2,
 	2, 2,  2,  2,  2, 2,   2,  2,  2,  2,  2,  2,   2,   2,   2,   2,
 	7, 33, 34, 35, 9, 37,  38, 39, 40, 41, 42, 43,  44,  45,  46,  47,
 	5, 5,  5,  5,  5, 5,   5,  5,  56, 5,  58, 59,  60,  61,  62,  63,
-- 
2.43.0


From 083557175d301d1c03673a6aebca8567d9bb0624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:02 +0000
Subject: [PATCH 02/77] fix: check every output for open, write and close
 errors and remove partial ones

---
 src/assembler/assembler.c     |  7 ++---
 src/common.c                  | 56 ++++++++++++++++++++++++++++++++---
 src/common.h                  |  5 ++++
 src/ir/export_dot.c           |  5 ++--
 src/linker/coff.c             |  4 +--
 src/linker/elf.c              |  4 +--
 src/preprocessor/directives.c |  4 +--
 7 files changed, 68 insertions(+), 17 deletions(-)

diff --git a/src/assembler/assembler.c b/src/assembler/assembler.c
index 07a2e31..2145b21 100644
--- a/src/assembler/assembler.c
+++ b/src/assembler/assembler.c
@@ -32,10 +32,7 @@ void asm_init_text_out(const char *path) {
 	assemble_to_text = 1;
 	current_section = ".text";
 
-	out = fopen(path, "w");
-
-	if (!out)
-		ICE("Could not open file %s", path);
+	out = output_open(path, "w");
 }
 
 void asm_init_object(struct object *object) {
@@ -45,7 +42,7 @@ void asm_init_object(struct object *object) {
 
 void asm_finish(void) {
 	if (assemble_to_text) {
-		fclose(out);
+		output_close(out);
 	} else {
 		*out_object = *object_finish();
 	}
diff --git a/src/common.c b/src/common.c
index 7b9cfcc..cbe0c69 100644
--- a/src/common.c
+++ b/src/common.c
@@ -1,8 +1,11 @@
 #include "common.h"
 
 #include <stdarg.h>
+#include <string.h>
 #include <limits.h>
 #include <assert.h>
+#include <errno.h>
+#include <sys/stat.h>
 
 uint32_t hash32(uint32_t a) {
 	a = (a ^ 61) ^ (a >> 16);
@@ -173,6 +176,51 @@ void file_write_skip(FILE *fp, size_t target) {
 	file_write_zero(fp, target - current_pos);
 }
 
+// There is at most one output open at a time.
+static FILE *output_fp = NULL;
+static const char *output_path = NULL;
+
+FILE *output_open(const char *path, const char *mode) {
+	FILE *fp = fopen(path, mode);
+
+	if (!fp)
+		ERROR_NO_POS("Could not open %s for writing: %s", path, strerror(errno));
+
+	output_fp = fp;
+	output_path = path;
+
+	return fp;
+}
+
+void output_close(FILE *fp) {
+	int failed = ferror(fp);
+
+	output_fp = NULL;
+	if (fclose(fp) != 0 || failed)
+		ERROR_NO_POS("Could not write %s", output_path);
+
+	output_path = NULL;
+}
+
+// Don't leave a partial output behind. Devices, like /dev/null, are kept.
+static void output_discard(void) {
+	struct stat st;
+
+	if (!output_path)
+		return;
+
+	if (output_fp)
+		fclose(output_fp);
+
+	if (stat(output_path, &st) == 0 && S_ISREG(st.st_mode))
+		remove(output_path);
+}
+
+_Noreturn static void exit_failure(void) {
+	output_discard();
+	exit(EXIT_FAILURE);
+}
+
 void *cc_malloc(size_t size) {
 #undef malloc
 	void *ret = malloc(size);
@@ -201,7 +249,7 @@ _Noreturn void impl_error_ice(const char *file, int line, const char *fmt, ...)
 	printf("\n");
 
 	va_end(args1);
-	exit(EXIT_FAILURE);
+	exit_failure();
 }
 
 _Noreturn void impl_error(struct position pos, const char *file, int line, const char *fmt, ...) {
@@ -213,7 +261,7 @@ _Noreturn void impl_error(struct position pos, const char *file, int line, const
 	printf("Compiler source: %s:%d\n", file, line);
 
 	va_end(va);
-	exit(EXIT_FAILURE);
+	exit_failure();
 }
 
 _Noreturn void impl_error_no_pos(const char *file, int line, const char *fmt, ...) {
@@ -225,12 +273,12 @@ _Noreturn void impl_error_no_pos(const char *file, int line, const char *fmt, ..
 	printf("Compiler source: %s:%d\n", file, line);
 
 	va_end(va);
-	exit(EXIT_FAILURE);
+	exit_failure();
 }
 
 _Noreturn void impl_error_notimp(const char *file, int line) {
 	printf("Not implemented: %s:%d\n", file, line);
-	exit(EXIT_FAILURE);
+	exit_failure();
 }
 
 void impl_warning(struct position pos, const char *fmt, ...) {
diff --git a/src/common.h b/src/common.h
index 56ebf52..a4d2914 100644
--- a/src/common.h
+++ b/src/common.h
@@ -68,6 +68,11 @@ void file_write_skip(FILE *fp, size_t target);
 #define malloc(...) _Static_assert(0, "Use cc_malloc instead.")
 #define realloc(...) _Static_assert(0, "Use cc_realloc instead.")
 
+// Files the compiler produces. output_close() checks that everything was
+// written, and an output that is still open when compilation fails is removed.
+FILE *output_open(const char *path, const char *mode);
+void output_close(FILE *fp);
+
 void *cc_malloc(size_t size);
 void *cc_realloc(void *ptr, size_t size);
 
diff --git a/src/ir/export_dot.c b/src/ir/export_dot.c
index 5efd314..12fc86a 100644
--- a/src/ir/export_dot.c
+++ b/src/ir/export_dot.c
@@ -1,6 +1,7 @@
 #include "export_dot.h"
 #include "ir.h"
 
+#include <common.h>
 #include <debug.h>
 
 #include <stdio.h>
@@ -58,7 +59,7 @@ static void add_recursive(struct node *start) {
 }
 
 void export_dot(const char *path) {
-	fp = fopen(path, "w");
+	fp = output_open(path, "w");
 	fprintf(fp, "digraph graphname {\n");
 
 	int count = 0;
@@ -107,5 +108,5 @@ void export_dot(const char *path) {
 	add_recursive(first_function);
 
 	fprintf(fp, "}\n");
-	fclose(fp);
+	output_close(fp);
 }
diff --git a/src/linker/coff.c b/src/linker/coff.c
index 509dc51..07fd981 100644
--- a/src/linker/coff.c
+++ b/src/linker/coff.c
@@ -334,7 +334,7 @@ static void coff_allocate(struct coff_file *coff) {
 }
 
 static void coff_write(const char *path, struct coff_file *coff) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = output_open(path, "wb");
 	coff_write_header(fp, &coff->header);
 
 	for (unsigned i = 0; i < coff->header.number_of_sections; i++) {
@@ -356,7 +356,7 @@ static void coff_write(const char *path, struct coff_file *coff) {
 		}
 	}
 
-	fclose(fp);
+	output_close(fp);
 }
 
 void coff_write_object(const char *path, struct object *object) {
diff --git a/src/linker/elf.c b/src/linker/elf.c
index 104f7df..12922c0 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -745,13 +745,13 @@ static void write_segments(FILE *fp, struct elf_file *elf) {
 }
 
 static void elf_write(const char *path, struct elf_file *elf) {
-	FILE *fp = fopen(path, "wb");
+	FILE *fp = output_open(path, "wb");
 
 	write_header(fp, elf);
 	write_sections(fp, elf);
 	write_segments(fp, elf);
 
-	fclose(fp);
+	output_close(fp);
 }
 
 static struct elf_file *elf_read(const char *path) {
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6610027..fad9d3b 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -44,14 +44,14 @@ void directiver_write_dependencies(void) {
 void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
 	write_dependencies = 1;
 
-	FILE *fp = fopen(mf, "w");
+	FILE *fp = output_open(mf, "w");
 
 	fprintf(fp, "%s:", mt);
 	for (unsigned i = 0; i < dep_size; i++)
 		fprintf(fp, " %s", deps[i]);
 	fprintf(fp, "\n");
 
-	fclose(fp);
+	output_close(fp);
 }
 
 // Resets all global state. Not very elegant.
-- 
2.43.0


From 12431709b4e9ebe579e66a1859409cb7b3a3868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 03/77] fix: fail when an input cannot be read in full

---
 src/preprocessor/input.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index b2f5194..38bd250 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -12,12 +12,15 @@ static const char **paths = NULL;
 static struct string_set disabled_headers;
 
 static struct input input_create(const char *path, FILE *fp) {
-	fseek(fp, 0, SEEK_END);
-	size_t size = ftell(fp);
+	long end = fseek(fp, 0, SEEK_END) == 0 ? ftell(fp) : -1;
+	if (end < 0)
+		ICE("Could not determine the size of %s", path);
+	size_t size = end;
 	rewind(fp);
 
 	char *contents = cc_malloc(size + 1);
-	fread(contents, size, 1, fp);
+	if (fread(contents, 1, size, fp) != size)
+		ICE("Could not read %s", path);
 	contents[size] = '\0';
 
 	return (struct input) { .path = path, .contents = contents };
-- 
2.43.0


From c64337c361d1437cae96bbf1d6e43d7ad854be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:18 +0000
Subject: [PATCH 04/77] fix: diagnose input that ends inside a directive,
 conditional or macro call instead of hanging

---
 src/preprocessor/directives.c     | 17 ++++++++++++++---
 src/preprocessor/macro_expander.c |  2 ++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index fad9d3b..331c4de 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -99,7 +99,7 @@ static struct token next_from_stack(void) {
 			return next();
 		}
 
-		return (struct token ) { .type = T_EOI };
+		return (struct token ) { .type = T_EOI, .first_of_line = 1 };
 	}
 
 	return current_file->tokens.list[current_file->token_idx++];
@@ -269,7 +269,8 @@ static struct result evaluate_expression(int prec, int evaluate) {
 		if (t.type == T_QUEST) {
 			struct result mid = evaluate_expression(0, !result_is_zero(expr) ? evaluate : 0);
 			struct token colon = buffer_next();
-			assert(colon.type == T_COLON);
+			if (colon.type != T_COLON)
+				ERROR(colon.pos, "Expected :, got %s", dbg_token_type(colon.type));
 			struct result rhs = evaluate_expression(new_prec, result_is_zero(expr) ? evaluate : 0);
 			expr = !result_is_zero(expr) ? mid : rhs;
 		} else if (t.type == T_AND) {
@@ -496,6 +497,8 @@ struct token directiver_next(void) {
 	int pass_directive = 0;
 	while ((t.type == PP_DIRECTIVE || cond_stack[cond_stack_n - 1] != 1) &&
 		!pass_directive) {
+		if (t.type == T_EOI)
+			ERROR(t.pos, "Unterminated conditional directive");
 		if (t.type != PP_DIRECTIVE) {
 			t = next();
 			continue;
@@ -515,7 +518,8 @@ struct token directiver_next(void) {
 
 		struct string_view name = directive.str;
 
-		assert(directive.type == T_IDENT);
+		if (directive.type != T_IDENT)
+			ERROR(directive.pos, "Invalid directive #%s", dbg_token(&directive));
 
 		if (sv_string_cmp(name, "ifndef") ||
 			sv_string_cmp(name, "ifdef") ||
@@ -530,6 +534,8 @@ struct token directiver_next(void) {
 				   sv_string_cmp(name, "else") ||
 				   sv_string_cmp(name, "elifndef") ||
 				   sv_string_cmp(name, "elifdef")) {
+			if (cond_stack_n == 1)
+				ERROR(directive.pos, "#%.*s without #if", name.len, name.str);
 			if (cond_stack[cond_stack_n - 1] == 0) {
 				int result = directiver_evaluate_conditional(directive);
 				cond_stack[cond_stack_n - 1] = result;
@@ -537,6 +543,8 @@ struct token directiver_next(void) {
 				cond_stack[cond_stack_n - 1] = -1;
 			}
 		} else if (sv_string_cmp(name, "endif")) {
+			if (cond_stack_n == 1)
+				ERROR(directive.pos, "#endif without #if");
 			cond_stack_n--;
 		} else if (cond_stack[cond_stack_n - 1] == 1) {
 			if (sv_string_cmp(name, "define")) {
@@ -634,5 +642,8 @@ struct token directiver_next(void) {
 		t = next();
 	}
 
+	if (t.type == T_EOI && cond_stack_n != 1)
+		ERROR(t.pos, "Unterminated conditional directive");
+
 	return t;
 }
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index a950ac8..9d91400 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -291,6 +291,8 @@ static int input_buffer_parse_argument(struct token_list *tl, int ignore_comma,
 	struct token t;
 	do {
 		t = input_buffer_take(input);
+		if (t.type == T_EOI)
+			ERROR(t.pos, "Unterminated argument list in macro invocation");
 		if(t.type == T_LPAR) {
 			depth++;
 		} else if(t.type == T_RPAR) {
-- 
2.43.0


From 1ac0198cd622913bd909eb8bf4984cea8247da05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 05/77] fix: diagnose a missing expression operand instead of
 dereferencing NULL

---
 src/parser/declaration.c | 17 ++++++++--
 src/parser/expression.c  | 69 ++++++++++++++++++++++------------------
 2 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d748320..971433a 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -196,6 +196,9 @@ static int parse_specifier(struct type_specifiers *ts,
 			else
 				length_expr = parse_expression();
 
+			if (!length_expr)
+				ERROR(T0->pos, "Expected expression in _Alignas");
+
 			length_expr = expression_cast(length_expr, type_simple(ST_ULLONG));
 
 			TEXPECT(T_RPAR);
@@ -390,6 +393,8 @@ int parse_struct(struct type_specifiers *ts) {
 
 					type = ast_to_type(&s.ts, &s.tq, NULL, NULL, 0);
 					struct expr *bitfield_expr = parse_assignment_expression();
+					if (!bitfield_expr)
+						ERROR(T0->pos, "Expected expression in bit-field width");
 					struct constant *c = expression_to_constant(
 						expression_cast(bitfield_expr, type_simple(ST_INT)));
 					if (!c)
@@ -1008,7 +1013,10 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 				if (inside_brace)
 					return;
 				TEXPECT(T_LBRACK);
-				struct expr *expr = expression_cast(parse_expression(), type_simple(ST_ULLONG));
+				struct expr *expr = parse_expression();
+				if (!expr)
+					ERROR(T0->pos, "Expected expression in array designator");
+				expr = expression_cast(expr, type_simple(ST_ULLONG));
 				struct constant *c = expression_to_constant(expr);
 				if (!c)
 					ERROR(T0->pos, "Expected constant expression in array designator.");
@@ -1133,6 +1141,8 @@ void parse_initializer_recursive(struct type **type, struct initializer *init, s
 
 	if (!is_str && !is_brace && !expr) {
 		expr = parse_assignment_expression();
+		if (!expr)
+			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
 	}
 
 	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
@@ -1399,7 +1409,10 @@ int parse_declaration(int external) {
 						  &s.as)) {
 		if (TACCEPT(T_KSTATIC_ASSERT)) {
 			TEXPECT(T_LPAR);
-			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), parse_assignment_expression());
+			struct expr *condition = parse_assignment_expression();
+			if (!condition)
+				ERROR(T0->pos, "Expected expression in _Static_assert");
+			struct expr *expr = EXPR_BINARY_OP(OP_EQUAL, EXPR_INT(0), condition);
 			struct constant *constant = expression_to_constant(expr);
 			if (!constant)
 				ERROR(T0->pos, "Expresison in _Static_assert must be constant.");
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 68b9752..70a1290 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -508,6 +508,15 @@ static void parse_call_parameters(struct expr ***args, int *n_args) {
 struct expr *parse_pratt(int precedence);
 struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs);
 
+static struct expr *parse_operand(int precedence) {
+	struct expr *expr = parse_pratt(precedence);
+
+	if (!expr)
+		ERROR(T0->pos, "Expected expression, got %s", dbg_token(T0));
+
+	return expr;
+}
+
 static struct expr *parse_prefix(void) {
 	if (TACCEPT(T_LPAR)) {
 		struct type *cast_type = parse_type_name();
@@ -521,36 +530,34 @@ static struct expr *parse_prefix(void) {
 						.compound_literal = { cast_type, init }
 					});
 			} else {
-				struct expr *rhs = parse_pratt(PREFIX_PREC);
-				if (!rhs)
-					ERROR(T0->pos, "Expected expression");
+				struct expr *rhs = parse_operand(PREFIX_PREC);
 				return expression_cast(rhs, cast_type);
 			}
 		} else {
-			struct expr *expr = parse_pratt(0);
+			struct expr *expr = parse_operand(0);
 			TEXPECT(T_RPAR);
 			return expr;
 		}
 	} else if (TACCEPT(T_INC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_ADD, parse_operand(PREFIX_PREC), EXPR_INT(1), 0);
 	} else if (TACCEPT(T_DEC)) {
- 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_pratt(PREFIX_PREC), EXPR_INT(1), 0);
+ 		return EXPR_ASSIGNMENT_OP(OP_SUB, parse_operand(PREFIX_PREC), EXPR_INT(1), 0);
  	} else if (TACCEPT(T_STAR)) {
- 		return EXPR_ARGS(E_INDIRECTION, parse_pratt(PREFIX_PREC));
+ 		return EXPR_ARGS(E_INDIRECTION, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_ADD)) {
-		return EXPR_UNARY_OP(UOP_PLUS, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_PLUS, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_SUB)) {
-		return EXPR_UNARY_OP(UOP_NEG, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_NEG, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_NOT)) {
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand(PREFIX_PREC);
 		return EXPR_ARGS(E_CONDITIONAL, rhs,
 						 EXPR_INT(0),
 						 EXPR_INT(1));
 	} else if (TACCEPT(T_BNOT)) {
-		return EXPR_UNARY_OP(UOP_BNOT, parse_pratt(PREFIX_PREC));
+		return EXPR_UNARY_OP(UOP_BNOT, parse_operand(PREFIX_PREC));
 	} else if (TACCEPT(T_AMP)) {
 		struct position pos = T0->pos;
-		struct expr *rhs = parse_pratt(PREFIX_PREC);
+		struct expr *rhs = parse_operand(PREFIX_PREC);
 		if ((rhs->type == E_VARIABLE && rhs->variable.is_register) ||
 			(rhs->type == E_SYMBOL && rhs->symbol->is_register))
 			ERROR(pos, "Taking address of register variable is not allowed.");
@@ -564,10 +571,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand(PREFIX_PREC)->data_type;
 			} 
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand(PREFIX_PREC)->data_type;
 		}
 
 		return type_sizeof(type);
@@ -580,10 +587,10 @@ static struct expr *parse_prefix(void) {
 				TEXPECT(T_RPAR);
 			} else {
 				t_push(t);
-				type = parse_pratt(PREFIX_PREC)->data_type;
+				type = parse_operand(PREFIX_PREC)->data_type;
 			}
 		} else {
-			type = parse_pratt(PREFIX_PREC)->data_type;
+			type = parse_operand(PREFIX_PREC)->data_type;
 		}
 
 		return type_alignof(type);
@@ -680,7 +687,7 @@ static struct expr *parse_prefix(void) {
 				type = parse_type_name();
 			}
 			TEXPECT(T_COLON);
-			struct expr *rhs = parse_assignment_expression();
+			struct expr *rhs = parse_operand(ASSIGNMENT_PREC);
 			if (default_) {
 				if (!res)
 					res = rhs;
@@ -701,9 +708,9 @@ static struct expr *parse_prefix(void) {
 		return res;
 	} else if (TACCEPT(T_KVA_START)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
-		struct expr *l = parse_assignment_expression();
+		struct expr *l = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 
 		return expr_new((struct expr) {
@@ -712,9 +719,9 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_COPY)) {
 		TEXPECT(T_LPAR);
-		struct expr *d = parse_assignment_expression();
+		struct expr *d = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
-		struct expr *s = parse_assignment_expression();
+		struct expr *s = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_COPY,
@@ -722,7 +729,7 @@ static struct expr *parse_prefix(void) {
 			});
 	} else if (TACCEPT(T_KVA_END)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_RPAR);
 		return expr_new((struct expr) {
 				.type = E_BUILTIN_VA_END,
@@ -730,7 +737,7 @@ static struct expr *parse_prefix(void) {
 		 	});
 	} else if (TACCEPT(T_KVA_ARG)) {
 		TEXPECT(T_LPAR);
-		struct expr *v = parse_assignment_expression();
+		struct expr *v = parse_operand(ASSIGNMENT_PREC);
 		TEXPECT(T_COMMA);
 		struct type *t = parse_type_name();
 		if (!t)
@@ -812,33 +819,33 @@ struct expr *parse_pratt_with_lhs(int precedence, struct expr *lhs) {
 		int tok_type = T0->type;
 		if (ops[tok_type][0] == 1) {
 			TNEXT();
-			lhs = EXPR_ARGS(ops[tok_type][1], lhs, parse_pratt(new_prec));
+			lhs = EXPR_ARGS(ops[tok_type][1], lhs, parse_operand(new_prec));
 		} else if (ops[tok_type][0] == 2) {
 			TNEXT();
-			lhs = EXPR_ASSIGNMENT_OP(ops[tok_type][1], lhs, parse_pratt(new_prec), 0);
+			lhs = EXPR_ASSIGNMENT_OP(ops[tok_type][1], lhs, parse_operand(new_prec), 0);
 		} else if (ops[tok_type][0] == 3) {
 			TNEXT();
-			lhs = EXPR_BINARY_OP(ops[tok_type][1], lhs, parse_pratt(new_prec));
+			lhs = EXPR_BINARY_OP(ops[tok_type][1], lhs, parse_operand(new_prec));
 		} else if (TACCEPT(T_QUEST)) {
-			struct expr *mid = parse_expression();
+			struct expr *mid = parse_operand(0);
 			TEXPECT(T_COLON);
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs, mid, rhs);
 		} else if (TACCEPT(T_OR)) {
 			// A || B -> A ? 1 : (B ? 1 : 0)
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs, EXPR_INT(1),
 							EXPR_ARGS(E_CONDITIONAL, rhs, EXPR_INT(1), EXPR_INT(0)));
 		} else if (TACCEPT(T_AND)) {
 			// A && B -> A ? (B ? 1 : 0) : 0
-			struct expr *rhs = parse_pratt(new_prec);
+			struct expr *rhs = parse_operand(new_prec);
 			lhs = EXPR_ARGS(E_CONDITIONAL, lhs,
 							EXPR_ARGS(E_CONDITIONAL, rhs, EXPR_INT(1), EXPR_INT(0)),
 							EXPR_INT(0));
 		}
 		// Postfix operators
 		else if (TACCEPT(T_LBRACK)) {
-			struct expr *index = parse_expression();
+			struct expr *index = parse_operand(0);
 			TEXPECT(T_RBRACK);
 			lhs = expr_new((struct expr) {
 					.type = E_INDIRECTION,
-- 
2.43.0


From a5105df72438680975d08402dbfa7ba8221948d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 06/77] fix: fail when preprocessed text cannot be written to
 standard output

---
 src/main.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/main.c b/src/main.c
index 2c648e5..8b6bbbb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -328,6 +328,15 @@ int main(int argc, char **argv) {
 		}
 	}
 
+	// The preprocessed text is only known to be written once stdout is closed.
+	if (arguments.flag_E) {
+		int failed = ferror(stdout);
+		if (fclose(stdout) != 0 || failed) {
+			fprintf(stderr, "Error: Could not write preprocessed output.\n");
+			return EXIT_FAILURE;
+		}
+	}
+
 	if (will_link) {
 		struct executable *executable = linker_link(object_size, objects);
 		elf_write_executable(arguments.outfile ? arguments.outfile : "a.out", executable);
-- 
2.43.0


From 11b1ab71403bd3b9258519bbf3c76b5cdea38197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 07/77] fix: diagnose a clock reading that localtime cannot
 represent

---
 src/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 8b6bbbb..ca2fcb1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -37,7 +37,10 @@ static void add_implementation_defs(void) {
 	};
 
 	time_t ti = time(NULL);
-	struct tm tm = *localtime(&ti);
+	struct tm *local = localtime(&ti);
+	if (!local)
+		ICE("Could not determine the local time.");
+	struct tm tm = *local;
 	define_string("__DATE__",
 				  allocate_printf("\"%s %2d %04d\"", months[tm.tm_mon], tm.tm_mday, 1900 + tm.tm_year));
 
-- 
2.43.0


From 42c6e49b480d208d380d3840d3d999a24b92be83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 08/77] fix: name the dependency file of outputs that are not
 called .o or .s

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index ca2fcb1..d75da11 100644
--- a/src/main.c
+++ b/src/main.c
@@ -71,7 +71,7 @@ static char *dependency_path_from_outfile(const char* path) {
 
 	if (len <= 2 || (strcmp(path + len - 2, ".o") != 0 &&
 					 strcmp(path + len - 2, ".s") != 0))
-		return NULL;
+		return allocate_printf("%s.d", path);
 
 	return allocate_printf("%.*s.d", len - 2, path);
 }
-- 
2.43.0


From adfe08e92abdefe4534bb5a64b61b645d3c5ed67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 09/77] fix: diagnose an object file that cannot be opened

---
 src/linker/elf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 12922c0..55b3a0c 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -758,6 +758,9 @@ static struct elf_file *elf_read(const char *path) {
 	FILE *fp = fopen(path, "rb");
 	struct elf_file elf = { 0 };
 
+	if (!fp)
+		ERROR_NO_POS("Could not open %s", path);
+
 	int not_elf = read_header(fp, &elf);
 
 	if (not_elf) {
-- 
2.43.0


From 833c61499fca4aa08810fbc4c364cb84232c5d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:46 +0000
Subject: [PATCH 10/77] fix: resolve references between objects to the address
 of the definition

---
 src/linker/linker.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/linker/linker.c b/src/linker/linker.c
index ed9ad91..2557312 100644
--- a/src/linker/linker.c
+++ b/src/linker/linker.c
@@ -77,8 +77,10 @@ static struct object *combine_objects(int n_objects, struct object *objects) {
 			for (unsigned j = 0; j < object.symbol_size; j++) {
 				if (object.symbols[j].name && object.symbols[j].global && object.symbols[j].section != -1) {
 					if (strcmp(object.symbols[j].name, symbol->name) == 0) {
-						if (object.symbols[j].section != -1)
+						if (object.symbols[j].section != -1) {
 							found_section = object.symbols[j].section;
+							symbol->value = object.symbols[j].value;
+						}
 					}
 				}
 			}
@@ -170,6 +172,9 @@ struct executable *linker_link(int n_objects, struct object *_objects) {
 	for (unsigned i = 0; i < object->symbol_size; i++) {
 		struct symbol *symbol = &object->symbols[i];
 
+		if (symbol->section == -1)
+			continue;
+
 		struct section_info *symbol_section_info = &section_infos[symbol->section];
 		struct segment *symbol_segment = &executable.segments[symbol_section_info->segment_idx];
 
-- 
2.43.0


From aa4fc3bad7abb05d7d9301e2561df3ffbc41b446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:10 +0000
Subject: [PATCH 11/77] fix: don't emit the strings and variables of earlier
 files again

---
 src/codegen/rodata.c | 11 +++++++++++
 src/codegen/rodata.h |  1 +
 src/main.c           |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index 3d39193..aabdebd 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -330,3 +330,14 @@ void data_codegen(void) {
 		codegen_static_var(static_vars + i);
 	}
 }
+
+// Strings and variables belong to one translation unit.
+void rodata_reset(void) {
+	entries_size = entries_cap = 0;
+	free(entries);
+	entries = NULL;
+
+	static_vars_size = static_vars_cap = 0;
+	free(static_vars);
+	static_vars = NULL;
+}
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 1dfc83d..2cf7e07 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -12,6 +12,7 @@ label_id register_label(void);
 void rodata_get_label(label_id id, int n, char buffer[]);
 
 void rodata_codegen(void);
+void rodata_reset(void);
 
 struct type;
 struct initializer;
diff --git a/src/main.c b/src/main.c
index d75da11..571c7b9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -224,6 +224,7 @@ static void compile_file(const char *path,
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
@@ -280,6 +281,7 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
+	rodata_reset();
 	parser_reset();
 }
 
-- 
2.43.0


From 3b57692737cd618f71772753c846ace1b15e50c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:10 +0000
Subject: [PATCH 12/77] fix: don't reuse the freed packing stack in the next
 file

---
 src/parser/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index b746f2b..eea8e62 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -22,6 +22,7 @@ void parser_reset(void) {
 	pack_size = pack_cap = 0;
 	current_packing = 0;
 	free(packs);
+	packs = NULL;
 	symbols_reset();
 }
 
-- 
2.43.0


From 88b4518fae18f75bba88c6cdecd89bc00016fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:29 +0000
Subject: [PATCH 13/77] fix: check strdup for allocation failure

---
 src/arch/x64.c                    | 12 ++++++------
 src/common.c                      |  5 +++++
 src/common.h                      |  2 +-
 src/ir/operators.c                |  4 ++--
 src/linker/elf.c                  |  4 ++--
 src/linker/object.c               |  4 ++--
 src/main.c                        |  4 ++--
 src/parser/declaration.c          |  6 +++---
 src/parser/expression.c           | 10 +++++-----
 src/preprocessor/directives.c     |  4 ++--
 src/preprocessor/input.c          |  4 ++--
 src/preprocessor/macro_expander.c |  2 +-
 src/preprocessor/preprocessor.h   |  2 +-
 13 files changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index 3f8f12d..ca721d4 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -551,8 +551,8 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 			from.float_d = from.double_d;
 		}
 	} else {
-		ICE("From %s to %s\n", strdup(dbg_type(type_simple(from_type))),
-			strdup(dbg_type(type_simple(target))));
+		ICE("From %s to %s\n", cc_strdup(dbg_type(type_simple(from_type))),
+			cc_strdup(dbg_type(type_simple(target))));
 		NOTIMP();
 	}
 
@@ -579,8 +579,8 @@ struct constant constant_cast(struct constant a, struct type *target) {
 			return a;
 		} else {
 			printf("Can't do constant cast of the form %s to %s\n",
-				   strdup(dbg_type(a.data_type)),
-				   strdup(dbg_type(target)));
+				   cc_strdup(dbg_type(a.data_type)),
+				   cc_strdup(dbg_type(target)));
 			NOTIMP();
 		}
 		return a;
@@ -608,8 +608,8 @@ struct constant constant_cast(struct constant a, struct type *target) {
 	}
 
 	printf("Trying to cast from %s to %s\n",
-		   strdup(dbg_type(a.data_type)),
-		   strdup(dbg_type(target)));
+		   cc_strdup(dbg_type(a.data_type)),
+		   cc_strdup(dbg_type(target)));
 
 	NOTIMP();
 }
diff --git a/src/common.c b/src/common.c
index cbe0c69..a3afbb2 100644
--- a/src/common.c
+++ b/src/common.c
@@ -241,6 +241,11 @@ void *cc_realloc(void *ptr, size_t size) {
 	return ret;
 }
 
+char *cc_strdup(const char *str) {
+	size_t size = strlen(str) + 1;
+	return memcpy(cc_malloc(size), str, size);
+}
+
 _Noreturn void impl_error_ice(const char *file, int line, const char *fmt, ...) {
 	va_list args1;
 	va_start(args1, fmt);
diff --git a/src/common.h b/src/common.h
index a4d2914..b95ba8e 100644
--- a/src/common.h
+++ b/src/common.h
@@ -38,7 +38,7 @@ void expand_printf(char **buffer, size_t *capacity, const char *fmt, ...);
 
 int round_up_to_nearest(int num, int div);
 
-char *strdup(const char *s);
+char *cc_strdup(const char *str);
 
 uint64_t gen_mask(unsigned char left_pad, unsigned char right_pad);
 
diff --git a/src/ir/operators.c b/src/ir/operators.c
index 2af7aa7..d3edfee 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -30,8 +30,8 @@ struct type *operators_get_result_type(enum operator_type op,
 		if (!supports_pointer[op] ||
 			type_is_pointer(lhs_type) != type_is_pointer(rhs_type)) {
 			ICE("Can't perform op %d on %s and %s\n", op,
-				strdup(dbg_type(lhs_type)),
-				strdup(dbg_type(rhs_type)));
+				cc_strdup(dbg_type(lhs_type)),
+				cc_strdup(dbg_type(rhs_type)));
 		}
 	}
 
diff --git a/src/linker/elf.c b/src/linker/elf.c
index 55b3a0c..32ddad4 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -220,7 +220,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 		};
 
 		if (elf_section->header.sh_name)
-			section->name = strdup(elf->shstrings + elf_section->header.sh_name);
+			section->name = cc_strdup(elf->shstrings + elf_section->header.sh_name);
 	}
 
 	int *symbol_mapping = NULL;
@@ -252,7 +252,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 
 			*symbol = (struct symbol) {
 				.global = st_info & (STB_GLOBAL << 4),
-				.name = st_name ? strdup(elf->strings + st_name) : NULL,
+				.name = st_name ? cc_strdup(elf->strings + st_name) : NULL,
 				.section = section_mapping[st_shndx],
 				.size = st_size,
 				.value = st_value,
diff --git a/src/linker/object.c b/src/linker/object.c
index 9be7e0d..89199ef 100644
--- a/src/linker/object.c
+++ b/src/linker/object.c
@@ -28,7 +28,7 @@ static int get_symbol(label_id label) {
 
 		rodata_get_label(label, sizeof buffer, buffer);
 
-		symbol.name = strdup(buffer);
+		symbol.name = cc_strdup(buffer);
 	}
 
 	ADD_ELEMENT(current_object.symbol_size, current_object.symbol_cap, current_object.symbols) = symbol;
@@ -66,7 +66,7 @@ void object_set_section(const char *section_name) {
 		&ADD_ELEMENT(current_object.section_size, current_object.section_cap, current_object.sections);
 
 	*section = (struct section) {
-		.name = strdup(section_name)
+		.name = cc_strdup(section_name)
 	};
 
 	current_section = current_object.section_size - 1;
diff --git a/src/main.c b/src/main.c
index 571c7b9..7df5c40 100644
--- a/src/main.c
+++ b/src/main.c
@@ -77,7 +77,7 @@ static char *dependency_path_from_outfile(const char* path) {
 }
 
 static void add_definition(const char *str) {
-	char *buffer = strdup(str);
+	char *buffer = cc_strdup(str);
 
 	char *name = buffer, *value = NULL;
 
@@ -113,7 +113,7 @@ static void set_flags(struct arguments *arguments) {
 		} else if (strcmp(flag, "mingw-workarounds") == 0) {
 			mingw_workarounds = 1;
 		} else if (strncmp(flag, "dump-ir=", 8) == 0) {
-			dump_ir_path = strdup(flag + 8);
+			dump_ir_path = cc_strdup(flag + 8);
 			printf("Dumping to %s\n", dump_ir_path);
 		}
 	}
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 971433a..960d274 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1165,7 +1165,7 @@ void parse_initializer_recursive(struct type **type, struct initializer *init, s
 	} else if (is_str && is_aggregate) {
 		parse_brace_initializer(type, init, current_idx, 1, expr);
 	} else {
-		ERROR(T0->pos, "Error initializing %s\n", strdup(dbg_type(*type)));
+		ERROR(T0->pos, "Error initializing %s\n", cc_strdup(dbg_type(*type)));
 	}
 
 	if ((*type)->type == TY_INCOMPLETE_ARRAY) {
@@ -1277,8 +1277,8 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		struct type *composite_type = type_make_composite(type, prev_type);
 
 		if (!composite_type)
-			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, strdup(dbg_type(prev_type)),
-				  strdup(dbg_type(type)));
+			ERROR(T0->pos, "%.*s has conflicting types: %s and %s\n", name.len, name.str, cc_strdup(dbg_type(prev_type)),
+				  cc_strdup(dbg_type(type)));
 
 		type = composite_type;
 	} else {
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 70a1290..fbae48e 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -253,8 +253,8 @@ static void cast_conditional(struct expr *expr) {
 			expr->args[1] = expression_cast(expr->args[1], composite);
 		} else {
 			ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
-				  strdup(dbg_type(a)),
-				  strdup(dbg_type(b)));
+				  cc_strdup(dbg_type(a)),
+				  cc_strdup(dbg_type(b)));
 		}
 	} else if (type_is_pointer(a) && is_null_pointer_constant(expr->args[2])) {
 		expr->args[2] = expression_cast(expr->args[2], a);
@@ -265,8 +265,8 @@ static void cast_conditional(struct expr *expr) {
 		convert_arithmetic(&expr->args[1], &expr->args[2]);
 	} else if (a != b) {
 		ERROR(T0->pos, "Invalid combination of data types:\n%s and %s\n",
-			  strdup(dbg_type(a)),
-			  strdup(dbg_type(b)));
+			  cc_strdup(dbg_type(a)),
+			  cc_strdup(dbg_type(b)));
 	}
 }
 
@@ -695,7 +695,7 @@ static struct expr *parse_prefix(void) {
 				if (type == match_type) {
 					if (res && !res_is_default)
 						ERROR(T0->pos, "More than one compatible type in _Generic association list, %s",
-							  strdup(dbg_type(type)));
+							  cc_strdup(dbg_type(type)));
 					res = rhs;
 				}
 			}
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 331c4de..6811563 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -79,13 +79,13 @@ void directiver_push_input(const char *path, int system) {
 		return;
 
 	if (write_dependencies)
-		ADD_ELEMENT(dep_size, dep_cap, deps) = strdup(new_input.path);
+		ADD_ELEMENT(dep_size, dep_cap, deps) = cc_strdup(new_input.path);
 
 	current_file = ALLOC((struct tokenized_file) {
 			.parent = current_file,
 			.token_idx = 0,
 			.tokens = tokenize_input(new_input.contents, new_input.path),
-			.path = strdup(new_input.path),
+			.path = cc_strdup(new_input.path),
 		});
 }
 
diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 38bd250..64bd3a0 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -56,7 +56,7 @@ void input_add_include_path(const char *path) {
 }
 
 void input_disable_path(const char *path) {
-	string_set_insert(&disabled_headers, strdup(path));
+	string_set_insert(&disabled_headers, cc_strdup(path));
 }
 
 struct input input_open(const char *parent_path, const char *path, int system) {
@@ -85,7 +85,7 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 	struct input input = { 0 };
 
 	if (!string_set_contains(disabled_headers, sv_from_str(path_buffer)))
-		input = input_create(strdup(path_buffer), fp);
+		input = input_create(cc_strdup(path_buffer), fp);
 
 	fclose(fp);
 
diff --git a/src/preprocessor/macro_expander.c b/src/preprocessor/macro_expander.c
index 9d91400..6602e38 100644
--- a/src/preprocessor/macro_expander.c
+++ b/src/preprocessor/macro_expander.c
@@ -102,7 +102,7 @@ static int get_param(struct define *def, struct token tok) {
 }
 
 void define_string(char *name, char *value) {
-	struct define def = define_init(sv_from_str(strdup(name)));
+	struct define def = define_init(sv_from_str(cc_strdup(name)));
 	def.def = tokenize_input(value, "<string>");
 	define_map_add(def);
 }
diff --git a/src/preprocessor/preprocessor.h b/src/preprocessor/preprocessor.h
index ba9c439..b856cef 100644
--- a/src/preprocessor/preprocessor.h
+++ b/src/preprocessor/preprocessor.h
@@ -38,7 +38,7 @@ struct token {
 
 #define EXPECT(T0, ETYPE) do {											\
 	if ((T0)->type != ETYPE) {											\
-		ERROR((T0)->pos, "Got %s expected %s\n", strdup(dbg_token((T0))), dbg_token_type(ETYPE)); \
+		ERROR((T0)->pos, "Got %s expected %s\n", cc_strdup(dbg_token((T0))), dbg_token_type(ETYPE)); \
 			  }															\
 	} while (0)
 
-- 
2.43.0


From 841d06c4f1e8a4ea5598720420fc41ae3497b0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:13 +0000
Subject: [PATCH 14/77] fix: diagnose a failing ftell while writing an object

---
 src/common.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common.c b/src/common.c
index a3afbb2..14edde0 100644
--- a/src/common.c
+++ b/src/common.c
@@ -172,6 +172,8 @@ void file_write_zero(FILE *fp, size_t size) {
 
 void file_write_skip(FILE *fp, size_t target) {
 	long int current_pos = ftell(fp);
+	if (current_pos < 0)
+		ICE("Could not determine the position in a file.");
 	assert(target >= (size_t)current_pos);
 	file_write_zero(fp, target - current_pos);
 }
-- 
2.43.0


From b8caecf9f6176d48ed358962a56cf0a17b633560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:02 +0000
Subject: [PATCH 15/77] fix: forget the tentative definitions of earlier files

---
 src/parser/declaration.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 960d274..a7dbbf4 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1465,4 +1465,6 @@ void generate_tentative_definitions(void) {
 			symbol->is_tentative = 0;
 		}
 	}
+
+	potentially_tentative.size = 0;
 }
-- 
2.43.0


From 7b45c5120425c989454a59eb72ca1982dc6fa32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:27 +0000
Subject: [PATCH 16/77] fix: keep a tentative definition that an extern
 declaration follows

---
 src/parser/declaration.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index a7dbbf4..c9ef6a5 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1338,7 +1338,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 
 	symbol->alignment = s.as.alignment;
 
-	if (!prev_definition) {
+	if (external && s.scs.extern_n && symbol->is_tentative) {
+		// An extern declaration doesn't undo an earlier tentative definition.
+	} else if (!prev_definition) {
 		symbol->is_tentative = is_tentative;
 		symbol->is_global = is_global;
 		symbol->has_definition = has_definition;
-- 
2.43.0


From 975a1f5149afc729d6a9547b9a1ea625027882c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 17/77] fix: search a quoted include on a header's last line
 next to that header

---
 src/preprocessor/directives.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index 6811563..b5f215b 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -71,8 +71,7 @@ void directiver_reset(void) {
 	deps = NULL;
 }
 
-void directiver_push_input(const char *path, int system) {
-	const char *parent_path = current_file ? current_file->path : ".";
+static void push_input(const char *parent_path, const char *path, int system) {
 	struct input new_input = input_open(parent_path, path, system);
 
 	if (!new_input.path)
@@ -89,6 +88,10 @@ void directiver_push_input(const char *path, int system) {
 		});
 }
 
+void directiver_push_input(const char *path, int system) {
+	push_input(current_file ? current_file->path : ".", path, system);
+}
+
 static struct token next(void);
 
 static struct token next_from_stack(void) {
@@ -563,6 +566,8 @@ struct token directiver_next(void) {
 				new_path = NULL;
 				line_diff = 0;
 				struct string_view path;
+				// Reading to the end of the line can leave the current file.
+				const char *parent_path = current_file->path;
 				struct token path_tok = next();
 				int system;
 				if (path_tok.type == PP_HEADER_NAME_H ||
@@ -575,7 +580,7 @@ struct token directiver_next(void) {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
-				directiver_push_input(sv_to_str(path), system);
+				push_input(parent_path, sv_to_str(path), system);
 			} else if (sv_string_cmp(name, "endif")) {
 				// Do nothing.
 			} else if (sv_string_cmp(name, "pragma")) {
-- 
2.43.0


From 2c7ec84b493a0ce737bfbb7a7b4613745328d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 18/77] fix: diagnose break and continue outside of loops

---
 src/parser/function_parser.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 8ae4da8..98fee30 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -443,6 +443,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		ir_block_start(new_block());
 		return 1;
 	} else if (TACCEPT(T_KCONTINUE)) {
+		if (!jump_blocks->block_continue)
+			ERROR(T0->pos, "Not currently in a loop");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
@@ -452,6 +454,8 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 		TEXPECT(T_SEMI_COLON);
 		return 1;
 	} else if (TACCEPT(T_KBREAK)) {
+		if (!jump_blocks->block_break)
+			ERROR(T0->pos, "Not currently in a loop or switch statement");
 		struct node *step = new_block();
 		ir_goto(step);
 		ir_block_start(step);
-- 
2.43.0


From 6931e19e06afe4c6190797ae9420d000bf187648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 19/77] fix: keep the side effects of paths that never return

---
 src/parser/function_parser.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 98fee30..c4af694 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -366,17 +366,17 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	ir_goto(block_control);
 	ir_block_start(block_control);
 
+	// 6.8.5.3p2: An omitted condition is replaced by a nonzero constant.
 	struct expr *condition = parse_expression();
-	if (condition) {
-		struct node *condition_variable = expression_to_int(condition);
+	if (!condition)
+		condition = EXPR_INT(1);
 
-		struct node *block_true, *block_false;
-		ir_if_selection(condition_variable, &block_true, &block_false);
-		ir_connect(block_true, block_body);
-		ir_connect(block_false, block_end);
-	} else {
-		ir_goto(block_body);
-	}
+	struct node *condition_variable = expression_to_int(condition);
+
+	struct node *block_true, *block_false;
+	ir_if_selection(condition_variable, &block_true, &block_false);
+	ir_connect(block_true, block_body);
+	ir_connect(block_false, block_end);
 
 	TEXPECT(T_SEMI_COLON);
 
@@ -427,8 +427,13 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 				struct node *step = new_block();
 				ir_goto(step);
 				ir_block_start(step);
-				ir_goto(function_scope.labels[i].block);
-				ir_block_start(new_block());
+
+				// The side effects of a loop without exit are lost, thus
+				// the jump has to look like it could fall through.
+				struct node *block_true, *block_false;
+				ir_if_selection(expression_to_int(EXPR_INT(1)), &block_true, &block_false);
+				ir_connect(block_true, function_scope.labels[i].block);
+				ir_block_start(block_false);
 				function_scope.labels[i].block = step;
 				return 1;
 			}
@@ -534,7 +539,9 @@ void parse_function(struct string_view name, struct type *type, int arg_n, struc
 			abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_CONSTANT, .data_type = c.data_type, .constant = c}, &reg_state);
 			ir_return(reg_state);
 		}
-	} else if (current_ret_val == type_simple(ST_VOID)) {
+	} else {
+		// A function with a non-void return type can also end up here, its
+		// caller is just not allowed to use the value.
 		struct node *reg_state = NULL;
 		abi_expr_return(get_current_function(), &(struct evaluated_expression) { .type = EE_VOID }, &reg_state);
 		ir_return(reg_state);
-- 
2.43.0


From 40235b7f7960ba00ad15028a07a2d73ec850cc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:51 +0000
Subject: [PATCH 20/77] fix: divide unsigned integers as unsigned

---
 src/ir/ir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index e94b179..a431ab8 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -556,7 +556,7 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 	if (type == IR_IDIV)
 		return ir_idiv(lhs, rhs);
 	if (type == IR_DIV)
-		return ir_idiv(lhs, rhs);
+		return ir_div(lhs, rhs);
 	if (type == IR_MOD)
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
-- 
2.43.0


From 8627294a5fcf36a0c48abe18967c4b76b208c514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:51 +0000
Subject: [PATCH 21/77] fix: don't divide by zero while folding constants

---
 src/ir/operators.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ir/operators.c b/src/ir/operators.c
index d3edfee..fe88743 100644
--- a/src/ir/operators.c
+++ b/src/ir/operators.c
@@ -90,7 +90,8 @@ int operators_constant(enum operator_type op,
 		}
 	} else if (type_is_integer(type) && is_signed(st)) {
 		// Overflow is undefined, so we can just ignore truncation completely.
-		if ((op == OP_DIV || op == OP_DIV) && rhs.int_d == 0)
+		if ((op == OP_DIV || op == OP_MOD) &&
+			(rhs.int_d == 0 || (lhs.int_d == INT64_MIN && rhs.int_d == -1)))
 			return 0;
 
 		switch (op) {
@@ -114,6 +115,9 @@ int operators_constant(enum operator_type op,
 		}
 	} else if (type_is_integer(type) && !is_signed(st)) {
 		int sign = 0;
+		if ((op == OP_DIV || op == OP_MOD) && rhs.uint_d == 0)
+			return 0;
+
 		switch (op) {
 		case OP_ADD: res.uint_d = lhs.uint_d + rhs.uint_d; break;
 		case OP_SUB: res.uint_d = lhs.uint_d - rhs.uint_d; break;
-- 
2.43.0


From 2753323c34af2ceae7dc6b1faf19eb9061c11272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:51 +0000
Subject: [PATCH 22/77] fix: dump the IR of files without functions

---
 src/ir/export_dot.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/export_dot.c b/src/ir/export_dot.c
index 12fc86a..ac0439b 100644
--- a/src/ir/export_dot.c
+++ b/src/ir/export_dot.c
@@ -105,7 +105,8 @@ void export_dot(const char *path) {
 		/* add_node(node); */
 	}
 
-	add_recursive(first_function);
+	if (first_function)
+		add_recursive(first_function);
 
 	fprintf(fp, "}\n");
 	output_close(fp);
-- 
2.43.0


From 6285dd194b6900306488a0ee0441bb4193f59f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:00 +0000
Subject: [PATCH 23/77] fix: give comparisons the size of an int

---
 src/ir/ir.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index a431ab8..ee96936 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -548,8 +548,14 @@ struct node *ir_imod(struct node *lhs, struct node *rhs) {
 	return ir_project(ins, 0, lhs->size);
 }
 
+// The operands of a comparison can be of any size, its result is an int.
+static int ir_is_comparison(int type) {
+	return (type >= IR_LESS && type <= IR_NOT_EQUAL) ||
+		(type >= IR_FLT_LESS && type <= IR_FLT_NOT_EQUAL);
+}
+
 struct node *ir_equal(struct node *lhs, struct node *rhs) {
-	return ir_new2(IR_EQUAL, lhs, rhs, lhs->size);
+	return ir_binary_op(IR_EQUAL, lhs, rhs);
 }
 
 struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
@@ -561,7 +567,8 @@ struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs) {
 		return ir_mod(lhs, rhs);
 	if (type == IR_IMOD)
 		return ir_imod(lhs, rhs);
-	return ir_new2(type, lhs, rhs, lhs->size);
+	int size = ir_is_comparison(type) ? calculate_size(type_simple(ST_INT)) : lhs->size;
+	return ir_new2(type, lhs, rhs, size);
 }
 
 void ir_call(struct node *callee, struct node *reg_state, struct node *call_stack,
-- 
2.43.0


From 32a2f0244158cabae1d0c8c254f9fc39cc0d0d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:53 +0000
Subject: [PATCH 24/77] fix: diagnose excess initializers of a structure

---
 src/parser/declaration.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index c9ef6a5..2f52f24 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1060,6 +1060,9 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 			}
 		}
 
+		if ((*type)->type == TY_STRUCT && idx >= (*type)->struct_data->n)
+			ERROR(T0->pos, "Excess elements in initializer to %s", dbg_type(*type));
+
 		struct type *child_type = type_select(*type, idx);
 		parse_initializer_recursive(&child_type,
 									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
-- 
2.43.0


From 17c4d663db71cbbfc283858d4ddbf90b7372ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:41 +0000
Subject: [PATCH 25/77] fix: return the address of a result passed in memory in
 rax

---
 src/abi/sysv.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 9290a59..ce67a2a 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -377,6 +377,7 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	if (n_parts == 1 && classes[0] == CLASS_MEMORY) {
 		struct node *value_address = evaluated_expression_to_address(value);
 		ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+		*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, return_convention[0], 0);
 	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-- 
2.43.0


From 7162b2dc19ea8cb2a4965f0667215b6c30fe9423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:41 +0000
Subject: [PATCH 26/77] fix: make room for all argument registers of a call

---
 src/abi/sysv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index ce67a2a..efd05f8 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -13,6 +13,9 @@
 static const int calling_convention[] = { REG_RDI, REG_RSI, REG_RDX, REG_RCX, REG_R8, REG_R9 };
 static const int return_convention[] = { REG_RAX, REG_RDX };
 
+// 6 general purpose registers and 8 SSE registers.
+#define MAX_ARGUMENT_REGS (6 + 8)
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -196,7 +199,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
 	struct node *arg_addresses[128];
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_ARGUMENT_REGS];
 	struct node *ret_reg_variables[sizeof return_convention / sizeof *return_convention];
 	struct type *callee_type = type_deref(callee->data_type);
 	struct type *return_type = callee_type->children[0];
@@ -291,7 +294,7 @@ static struct evaluated_expression sysv_expr_call(struct evaluated_expression *c
 
 static void sysv_expr_function(struct node *func, struct type *type, struct symbol_identifier **args) {
 	int n_args = type->n - 1;
-	struct node *reg_variables[sizeof calling_convention / sizeof *calling_convention];
+	struct node *reg_variables[MAX_ARGUMENT_REGS];
 
 	struct sysv_data abi_data = { 0 };
 
-- 
2.43.0


From bd2b36044f9dfdb83b35fc97cb405cacf8df78b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 27/77] fix: return structures of two registers of any class,
 by their size

---
 src/abi/sysv.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index efd05f8..cbb53c4 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -97,18 +97,19 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 			};
 		} else {
 			int gp_idx = 0, ssa_idx = 0;
+			int return_size = calculate_size(return_type);
 			for (int j = 0; j < n_parts; j++) {
 				if (classes[j] == CLASS_SSE || classes[j] == CLASS_SSEUP) {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 1,
 						.register_idx = ssa_idx++,
-						.size = 8,
+						.size = MIN(return_size - j * 8, 8),
 					};
 				} else {
 					ADD_ELEMENT(ret_regs_size, ret_regs_cap, ret_regs) = (struct reg_info) {
 						.is_sse = 0,
 						.register_idx = return_convention[gp_idx++],
-						.size = 8,
+						.size = MIN(return_size - j * 8, 8),
 					};
 				}
 			}
@@ -190,11 +191,6 @@ static struct call_info get_calling_convention(struct type *function_type, int n
 	};
 }
 
-static void split_variable(struct node *variable_address, int n_parts, struct node *parts[n_parts]) {
-	for (int i = 0; i < n_parts; i++)
-		parts[i] = ir_load_part_address(variable_address, i * 8, 8);
-}
-
 static struct evaluated_expression sysv_expr_call(struct evaluated_expression *callee,
 										   int n, struct evaluated_expression arguments[static n]) {
 	struct type *argument_types[128];
@@ -384,13 +380,20 @@ static void sysv_expr_return(struct node *func, struct evaluated_expression *val
 	} else if (n_parts == 1 && classes[0] == CLASS_INTEGER) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, return_convention[0], 0);
-	} else if (n_parts == 2 && classes[0] == CLASS_INTEGER) {
+	} else if (n_parts == 2) {
 		struct node *value_address = evaluated_expression_to_address(value);
+		int size = calculate_size(value->data_type);
 		struct node *parts[2];
-		split_variable(value_address, 2, parts);
-		
-		*reg_state = ir_set_reg(parts[0], *reg_state, return_convention[0], 0);
-		*reg_state = ir_set_reg(parts[1], *reg_state, return_convention[1], 0);
+		for (int i = 0; i < 2; i++)
+			parts[i] = ir_load_part_address(value_address, i * 8, MIN(size - i * 8, 8));
+
+		int gp_idx = 0, sse_idx = 0;
+		for (int i = 0; i < 2; i++) {
+			if (classes[i] == CLASS_SSE)
+				*reg_state = ir_set_reg(parts[i], *reg_state, sse_idx++, 1);
+			else
+				*reg_state = ir_set_reg(parts[i], *reg_state, return_convention[gp_idx++], 0);
+		}
 	} else if (n_parts == 1 && classes[0] == CLASS_SSE) {
 		struct node *value_var = evaluated_expression_to_var(value);
 		*reg_state = ir_set_reg(value_var, *reg_state, 0, 1);
-- 
2.43.0


From 9458701b91f779615933610710400598a2392154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:42 +0000
Subject: [PATCH 28/77] fix: pass and fetch floating point variadic arguments

---
 src/abi/sysv.c | 62 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index cbb53c4..545e1d2 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -16,6 +16,9 @@ static const int return_convention[] = { REG_RAX, REG_RDX };
 // 6 general purpose registers and 8 SSE registers.
 #define MAX_ARGUMENT_REGS (6 + 8)
 
+// The SSE registers follow the general purpose registers in the register save area.
+#define REG_SAVE_FP_OFFSET 48
+
 static struct struct_data *builtin_va_list = NULL;
 
 struct sysv_data {
@@ -356,6 +359,7 @@ static void sysv_expr_function(struct node *func, struct type *type, struct symb
         // Sized according to Figure 3.33 in sysV AMD64 ABI:
 		ir_allocate_preamble(304);
 		abi_data.gp_offset = c.gp_offset;
+		abi_data.fp_offset = REG_SAVE_FP_OFFSET + c.rax * 16;
 		abi_data.overflow_position = total_mem_needed + 16;
 	}
 
@@ -418,6 +422,9 @@ static void sysv_emit_function_preamble(struct node *func) {
 	asm_ins2("movq", R8(REG_RCX), MEM(24 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R8), MEM(32 - position, REG_RBP));
 	asm_ins2("movq", R8(REG_R9), MEM(40 - position, REG_RBP));
+
+	for (int i = 0; i < 8; i++)
+		asm_ins2("movsd", XMM(i), MEM(REG_SAVE_FP_OFFSET + i * 16 - position, REG_RBP));
 }
 
 static void sysv_emit_va_start(struct node *result, struct node *func) {
@@ -428,7 +435,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
-	asm_ins2("movl", IMM(0), MEM(fp_offset_offset, REG_RAX));
+	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
 	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
@@ -443,21 +450,27 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	classify(type, &n_parts, classes);
 
 	int gp_offset_offset = builtin_va_list->fields[0].offset;
+	int fp_offset_offset = builtin_va_list->fields[1].offset;
 	int reg_save_area_offset = builtin_va_list->fields[3].offset;
 	int overflow_arg_area_offset = builtin_va_list->fields[2].offset;
 	// 1. Determine whether type may be passed in the registers. If not go to step 7
 	scalar_to_reg(va_list, REG_RDI);
+	scalar_to_reg(address, REG_RSI);
+
+	int size = calculate_size(type);
 
 	label_id stack_label = register_label(),
-		fetch_label = register_label();
+		end_label = register_label();
 	if (classes[0] != CLASS_MEMORY) {
 		// 2. Compute num_gp to hold the number of general purpose registers needed
 		// to pass type and num_fp to hold the number of floating point registers needed.
 
-		int num_gp = 0;
+		int num_gp = 0, num_fp = 0;
 		for (int i = 0; i < n_parts; i++) {
 			if (classes[i] == CLASS_INTEGER)
 				num_gp++;
+			else if (classes[i] == CLASS_SSE)
+				num_fp++;
 			else
 				NOTIMP();
 		}
@@ -465,12 +478,20 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// 3. Verify whether arguments fit into registers. In the case:
 		//     l->gp_offset > 48 − num_gp ∗ 8
 		// or
-		//     l->fp_offset > 304 − num_fp ∗ 16
+		//     l->fp_offset > 176 − num_fp ∗ 16
 		// go to step 7.
 
-		asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
-		asm_ins2("cmpl", IMM(48 - 8 * num_gp), R4(REG_RAX));
-		asm_ins1("ja", IMML_ABS(stack_label, 0));
+		if (num_gp) {
+			asm_ins2("movl", MEM(gp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(REG_SAVE_FP_OFFSET - 8 * num_gp), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
+
+		if (num_fp) {
+			asm_ins2("movl", MEM(fp_offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("cmpl", IMM(REG_SAVE_FP_OFFSET + 16 * (8 - num_fp)), R4(REG_RAX));
+			asm_ins1("ja", IMML_ABS(stack_label, 0));
+		}
 
 		// 4. Fetch type from l->reg_save_area with an offset of l->gp_offset
 		// and/or l->fp_offset. This may require copying to a temporary loca-
@@ -483,10 +504,20 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 		// l->fp_offset = l->fp_offset + num_fp ∗ 16.
 		// 6. Return the fetched type.
 
-		asm_ins2("leal", MEM(num_gp * 8, REG_RAX), R4(REG_RDX));
-		asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
-		asm_ins2("movl", R4(REG_RDX), MEM(gp_offset_offset, REG_RDI));
-		asm_ins1("jmp", IMML_ABS(fetch_label, 0));
+		for (int i = 0; i < n_parts; i++) {
+			int is_sse = classes[i] == CLASS_SSE;
+			int offset_offset = is_sse ? fp_offset_offset : gp_offset_offset;
+
+			asm_ins2("movl", MEM(offset_offset, REG_RDI), R4(REG_RAX));
+			asm_ins2("leal", MEM(is_sse ? 16 : 8, REG_RAX), R4(REG_RDX));
+			asm_ins2("movl", R4(REG_RDX), MEM(offset_offset, REG_RDI));
+			asm_ins2("addq", MEM(reg_save_area_offset, REG_RDI), R8(REG_RAX));
+			asm_ins2("movq", MEM(0, REG_RAX), R8(REG_RAX));
+			reg_to_memory(REG_RAX, MIN(size - i * 8, 8));
+			asm_ins2("leaq", MEM(8, REG_RSI), R8(REG_RSI));
+		}
+
+		asm_ins1("jmp", IMML_ABS(end_label, 0));
 	}
 	// 7. Align l->overflow_arg_area upwards to a 16 byte boundary if align-
 	//ment needed by type exceeds 8 byte boundary. [This is ignored.]
@@ -499,17 +530,16 @@ static void sysv_emit_va_arg(struct node *address, struct node *va_list, struct
 	// 9. Set l->overflow_arg_area to:
 	// l->overflow_arg_area + sizeof(type)
 	// 10. Align l->overflow_arg_area upwards to an 8 byte boundary.
-	asm_ins2("leaq", MEM(round_up_to_nearest(calculate_size(type), 8), REG_RAX), R8(REG_RDX));
+	asm_ins2("leaq", MEM(round_up_to_nearest(size, 8), REG_RAX), R8(REG_RDX));
 	asm_ins2("movq", R8(REG_RDX), MEM(overflow_arg_area_offset, REG_RDI));
 
 	// 11. Return the fetched type.
-	asm_label(0, fetch_label);
-
 	// Address is now in %%rax.
 	asm_ins2("movq", R8(REG_RAX), R8(REG_RDI));
-	scalar_to_reg(address, REG_RSI);
 
-	codegen_memcpy(calculate_size(type));
+	codegen_memcpy(size);
+
+	asm_label(0, end_label);
 }
 
 static int sysv_sizeof_simple(enum simple_type type) {
-- 
2.43.0


From 8f414334f7a6bec2ec3ef3007b986e099f9b019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:01 +0000
Subject: [PATCH 29/77] fix: classify the eightbytes of structures without
 looking at the previous one

---
 src/arch/calling.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/arch/calling.c b/src/arch/calling.c
index 41742ae..4ace251 100644
--- a/src/arch/calling.c
+++ b/src/arch/calling.c
@@ -55,7 +55,7 @@ static void classify_recursively(enum parameter_class *current,
 			struct type *memb_type = data->fields[i].type;
 			int size = calculate_size(memb_type);
 			int offset = data->fields[i].offset;
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -73,7 +73,7 @@ static void classify_recursively(enum parameter_class *current,
 			int size = calculate_size(memb_type);
 			int offset = size * i;
 
-			if (offset + size < lower || offset >= upper)
+			if (offset + size <= lower || offset >= upper)
 				continue;
 
 			enum parameter_class memb_class;
@@ -122,12 +122,10 @@ void classify(struct type *type, int *n_parts, enum parameter_class *classes) {
 					should_be_mem = 1;
 			}
 
-			if (*n_parts > 2) {
-				if (classes[0] != CLASS_SSE)
-					should_be_mem = 1;
-				// TODO: Is more to this, but I couldn't really follow the logic
-				// in the ABI. 3.2.3 Post merger cleanum part (c).
-			}
+			// No classes of more than eight bytes are generated, so nothing
+			// larger than two eightbytes is passed in registers.
+			if (*n_parts > 2)
+				should_be_mem = 1;
 
 			if (should_be_mem) {
 				*n_parts = 1;
-- 
2.43.0


From 2d6c8b2df6c775f9e801c5bd1617ef45f6657102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:51 +0000
Subject: [PATCH 30/77] fix: find stack arguments from realigned frames

---
 src/abi/microsoft.c   | 11 ++++++-----
 src/abi/sysv.c        |  2 +-
 src/codegen/codegen.c | 31 ++++++++++++++++++++++---------
 src/codegen/codegen.h |  1 +
 4 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index dc658c5..57509be 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -213,16 +213,17 @@ static void ms_emit_function_preamble(struct node *func) {
 	if (!abi_data->is_variadic)
 		return;
 
-	asm_ins2("movq", R8(REG_RCX), MEM(16, REG_RBP));
-	asm_ins2("movq", R8(REG_RDX), MEM(24, REG_RBP));
-	asm_ins2("movq", R8(REG_R8), MEM(32, REG_RBP));
-	asm_ins2("movq", R8(REG_R9), MEM(40, REG_RBP));
+	codegen_incoming_address(16, REG_RAX);
+	asm_ins2("movq", R8(REG_RCX), MEM(0, REG_RAX));
+	asm_ins2("movq", R8(REG_RDX), MEM(8, REG_RAX));
+	asm_ins2("movq", R8(REG_R8), MEM(16, REG_RAX));
+	asm_ins2("movq", R8(REG_R9), MEM(24, REG_RAX));
 }
 
 static void ms_emit_va_start(struct node *result, struct node *func) {
 	struct ms_data *abi_data = func->function.abi_data;
 
-	asm_ins2("leaq", MEM(abi_data->n_args * 8 + 16, REG_RBP), R8(REG_RAX));
+	codegen_incoming_address(abi_data->n_args * 8 + 16, REG_RAX);
 	scalar_to_reg(result, REG_RDX);
 	asm_ins2("movq", R8(REG_RAX), MEM(0, REG_RDX));
 }
diff --git a/src/abi/sysv.c b/src/abi/sysv.c
index 545e1d2..bf0d5ea 100644
--- a/src/abi/sysv.c
+++ b/src/abi/sysv.c
@@ -436,7 +436,7 @@ static void sysv_emit_va_start(struct node *result, struct node *func) {
 	scalar_to_reg(result, REG_RAX);
 	asm_ins2("movl", IMM(abi_data->gp_offset), MEM(gp_offset_offset, REG_RAX));
 	asm_ins2("movl", IMM(abi_data->fp_offset), MEM(fp_offset_offset, REG_RAX));
-	asm_ins2("leaq", MEM(abi_data->overflow_position, REG_RBP), R8(REG_RDI));
+	codegen_incoming_address(abi_data->overflow_position, REG_RDI);
 	asm_ins2("movq", R8(REG_RDI), MEM(overflow_arg_area_offset, REG_RAX));
 
 	int preamble_ptr = codegen_get_alloc_preamble();
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 2f30007..9b38992 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -29,6 +29,17 @@ struct rbp_save_info {
 	int offset;
 } rbp_save_info;
 
+// The address of something in the frame of the caller, with the offset it has
+// from the base of a frame that isn't realigned.
+void codegen_incoming_address(int offset, int reg) {
+	if (rbp_save_info.has_saved_rsp) {
+		asm_ins2("movq", MEM(-rbp_save_info.offset, REG_RBP), R8(reg));
+		asm_ins2("leaq", MEM(offset, reg), R8(reg));
+	} else {
+		asm_ins2("leaq", MEM(offset, REG_RBP), R8(reg));
+	}
+}
+
 static void codegen_call(struct node *variable, int non_clobbered_register) {
 	scalar_to_reg(variable, non_clobbered_register);
 	asm_ins1("callq", R8S(non_clobbered_register));
@@ -473,14 +484,14 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		break;
 
 	case IR_LOAD_BASE_RELATIVE:
-		asm_ins2("leaq", MEM(ins->load_base_relative.offset, REG_RBP), R8(REG_RDI));
+		codegen_incoming_address(ins->load_base_relative.offset, REG_RDI);
 		asm_ins2("leaq", MEM(-ins->cg_info.stack_location, REG_RBP), R8(REG_RSI));
 
 		codegen_memcpy(ins->size);
 		break;
 
 	case IR_LOAD_BASE_RELATIVE_ADDRESS:
-		asm_ins2("leaq", MEM(ins->load_base_relative_address.offset, REG_RBP), R8(REG_RDI));
+		codegen_incoming_address(ins->load_base_relative_address.offset, REG_RDI);
 		scalar_to_reg(ins->arguments[0], REG_RSI);
 
 		codegen_memcpy(ins->load_base_relative_address.size);
@@ -670,17 +681,19 @@ static void codegen_function(struct node *func) {
 	asm_label(func->function.is_global, func_label);
 	asm_ins1("pushq", R8(REG_RBP));
 
-	if (rbp_save_info.has_saved_rsp) {
-		asm_ins2("movq", R8(REG_RSP), R8(REG_RBP));
-		asm_ins2("andq", IMM(-stack_alignment), R8(REG_RSP));
-		asm_ins2("movq", R8(REG_RBP), MEM(-rbp_save_info.offset, REG_RSP));
-	}
-
 	asm_ins2("movq", R8(REG_RSP), R8(REG_RBP));
 
 	int stack_sub = round_up_to_nearest(perm_stack_count + max_temp_stack, 16);
-	if (stack_sub)
+	if (rbp_save_info.has_saved_rsp) {
+		// The frame is allocated before the old base is stored in it, nothing
+		// below the stack pointer is safe from signal handlers.
+		asm_ins2("andq", IMM(-stack_alignment), R8(REG_RSP));
+		asm_ins2("subq", IMM(stack_sub), R8(REG_RSP));
+		asm_ins2("movq", R8(REG_RBP), MEM(stack_sub - rbp_save_info.offset, REG_RSP));
+		asm_ins2("leaq", MEM(stack_sub, REG_RSP), R8(REG_RBP));
+	} else if (stack_sub) {
 		asm_ins2("subq", IMM(stack_sub), R8(REG_RSP));
+	}
 
 	abi_emit_function_preamble(func);
 
diff --git a/src/codegen/codegen.h b/src/codegen/codegen.h
index 041de2d..77bf90a 100644
--- a/src/codegen/codegen.h
+++ b/src/codegen/codegen.h
@@ -16,6 +16,7 @@ extern struct codegen_flags {
 
 void codegen(void);
 int codegen_get_alloc_preamble(void);
+void codegen_incoming_address(int offset, int reg);
 
 // TODO: Why is rdi not destination?
 // From rdi to rsi address
-- 
2.43.0


From e97f9d26d5cddfdb6ab1a907ba8be39828dbc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 31/77] fix: return the address of a result passed in memory in
 rax, for the Microsoft ABI

---
 src/abi/microsoft.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 57509be..2815d01 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -196,6 +196,7 @@ static void ms_expr_return(struct node *func, struct evaluated_expression *value
 		if (abi_data->returns_address) {
 			struct node *value_address = evaluated_expression_to_address(value);
 			ir_copy_memory(abi_data->ret_address, value_address, calculate_size(value->data_type));
+			*reg_state = ir_set_reg(abi_data->ret_address, *reg_state, REG_RAX, 0);
 		} else {
 			struct node *value_var = evaluated_expression_to_var(value);
 			*reg_state = ir_set_reg(value_var, *reg_state, 0, type_is_floating(value->data_type));
-- 
2.43.0


From 6122faf6101437e46f766a7a1dd324e5208f5559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 32/77] fix: pass unnamed floating point arguments in both
 registers, for the Microsoft ABI

---
 src/abi/microsoft.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 2815d01..1bf1001 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -44,6 +44,7 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 
 	struct node *registers[4];
 	int is_floating[4] = { 0 };
+	int is_unnamed[4] = { 0 };
 	int register_idx = 0;
 	int ret_in_register = 0, ret_in_address = 0;
 	
@@ -74,7 +75,8 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		}
 
 		if (register_idx < 4) {
-			is_floating[register_idx] = (i < callee_type->n - 1) ? type_is_floating(argument_types[i]) : 0;
+			is_floating[register_idx] = type_is_floating(argument_types[i]);
+			is_unnamed[register_idx] = i >= callee_type->n - 1;
 			registers[register_idx++] = reg_to_push;
 		} else {
 			call_stack = ir_store_stack_relative(call_stack, reg_to_push, current_mem + shadow_space);
@@ -86,7 +88,8 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 	for (int i = 0; i < register_idx; i++) {
 		if (is_floating[i])
 			reg_state = ir_set_reg(registers[i], reg_state, i, 1);
-		else
+		// Unnamed floating point arguments are passed in both registers.
+		if (!is_floating[i] || is_unnamed[i])
 			reg_state = ir_set_reg(registers[i], reg_state, calling_convention[i], 0);
 	}
 
-- 
2.43.0


From a83e2c20437bb7b5a95a330a64307ec41e355cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 33/77] fix: count the hidden argument in va_start, for the
 Microsoft ABI

---
 src/abi/microsoft.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index 1bf1001..d48e086 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -143,7 +143,7 @@ static void ms_expr_function(struct node *func, struct type *function_type, stru
 
 	if (function_type->function.is_variadic) {
 		abi_data.is_variadic = 1;
-		abi_data.n_args = n_args;
+		abi_data.n_args = n_args + abi_data.returns_address;
 	}
 
 	abi_data.rbx_store = ir_get_reg(reg_source, 8, REG_RBX, 0);
-- 
2.43.0


From 25afef105180623ad5136eb9780500d1d96a5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:50 +0000
Subject: [PATCH 34/77] fix: pass the address of a copy of a structure, for the
 Microsoft ABI

---
 src/abi/microsoft.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/abi/microsoft.c b/src/abi/microsoft.c
index d48e086..3969d8f 100644
--- a/src/abi/microsoft.c
+++ b/src/abi/microsoft.c
@@ -72,6 +72,10 @@ static struct evaluated_expression ms_expr_call(struct evaluated_expression *cal
 		if (fits_into_reg(argument_types[i])) {
 			reg_to_push = ir_load(arg_addresses[i],
 								  calculate_size(argument_types[i]));
+		} else {
+			// The callee owns what it is given the address of.
+			reg_to_push = ir_allocate(calculate_size(argument_types[i]), 0);
+			ir_copy_memory(reg_to_push, arg_addresses[i], calculate_size(argument_types[i]));
 		}
 
 		if (register_idx < 4) {
-- 
2.43.0


From 548feff0bea8f724db6c06980c7b4336d349b51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:31 +0000
Subject: [PATCH 35/77] fix: read lvalues whose value is not used, and the
 right side of an assignment once

---
 src/parser/expression.c       |  3 +++
 src/parser/expression_to_ir.c | 27 +++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index fbae48e..1a9f796 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1071,6 +1071,9 @@ int evaluate_constant_expression(struct expr *expr,
 		struct constant lhs, rhs;
 		if (!evaluate_constant_expression(expr->args[0], &lhs))
 			return 0;
+		// CONSTANT_LABEL is an object, reading it is not constant.
+		if (lhs.type == CONSTANT_LABEL)
+			return 0;
 		if (!evaluate_constant_expression(expr->args[1], &rhs))
 			return 0;
 
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index b857abf..f98e1a5 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -151,10 +151,22 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 	return res;
 }
 
+// The value of an lvalue is read even if it is not used, the object could be volatile.
+static int is_scalar_in_memory(struct evaluated_expression *ee) {
+	return (ee->type == EE_POINTER || ee->type == EE_BITFIELD_POINTER) &&
+		(type_is_arithmetic(ee->data_type) || type_is_pointer(ee->data_type));
+}
+
+static void evaluated_expression_discard(struct evaluated_expression *ee) {
+	if (is_scalar_in_memory(ee))
+		evaluated_expression_to_var(ee);
+}
+
 struct evaluated_expression evaluated_expression_cast(struct evaluated_expression *operand, struct type *resulting_type) {
 	if (operand->data_type == resulting_type)
 		return *operand;
 	if (type_is_simple(resulting_type, ST_VOID)) {
+		evaluated_expression_discard(operand);
 		return (struct evaluated_expression) {
 			.type = EE_VOID
 		};
@@ -487,6 +499,16 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	assert(lhs.is_lvalue);
 
+	// The value of the assignment might be used, but rhs is only read once.
+	if (is_scalar_in_memory(&rhs)) {
+		struct node *rhs_var = evaluated_expression_to_var(&rhs);
+		rhs = (struct evaluated_expression) {
+			.type = EE_VARIABLE,
+			.data_type = rhs.data_type,
+			.variable = rhs_var
+		};
+	}
+
 	assign_ee_to_ee(&lhs, &rhs);
 
 	return rhs;
@@ -711,7 +733,7 @@ struct evaluated_expression expression_evaluate(struct expr *expr) {
 		break;
 
 	case E_COMMA:
-		expression_evaluate(expr->args[0]);
+		expression_to_void(expr->args[0]);
 		ret = expression_evaluate(expr->args[1]);
 		break;
 
@@ -751,7 +773,8 @@ struct node *expression_to_int(struct expr *expr) {
 }
 
 void expression_to_void(struct expr *expr) {
-	expression_evaluate(expr);
+	struct evaluated_expression ee = expression_evaluate(expr);
+	evaluated_expression_discard(&ee);
 }
 
 void expression_to_address(struct expr *expr, struct node *address) {
-- 
2.43.0


From d7d89d0f678aef4a4da2140fd56d82aa84105666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:58 +0000
Subject: [PATCH 36/77] fix: don't reuse a load that was replaced, when
 promoting variables

---
 src/optimize/mem2reg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/optimize/mem2reg.c b/src/optimize/mem2reg.c
index dccedd0..788b67a 100644
--- a/src/optimize/mem2reg.c
+++ b/src/optimize/mem2reg.c
@@ -31,10 +31,13 @@ static struct node *recursive_find(struct node *state, struct node *alloc, int v
 		break;
 
 	case IR_STORE:
-		if (state->arguments[0] == alloc)
-			ret_value = state->arguments[1];
-		else
+		if (state->arguments[0] != alloc)
 			ret_value = recursive_find(state->arguments[2], alloc, visit_idx);
+		else if (state->arguments[1]->type == IR_LOAD && state->arguments[1]->arguments[0] == alloc)
+			// The load is going to be replaced, don't remember it.
+			ret_value = recursive_find(state->arguments[1]->arguments[1], alloc, visit_idx);
+		else
+			ret_value = state->arguments[1];
 		break;
 
 	case IR_PHI:
-- 
2.43.0


From 0ae31dc6e3cdc9e08e9e802cb8fd70c7404b87d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:32 +0000
Subject: [PATCH 37/77] fix: don't move loads past the block of their state

---
 src/ir/global_code_motion.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/ir/global_code_motion.c b/src/ir/global_code_motion.c
index 5244ca2..ded254c 100644
--- a/src/ir/global_code_motion.c
+++ b/src/ir/global_code_motion.c
@@ -66,7 +66,8 @@ static void schedule_late(struct node *ins) {
 	for (unsigned i = 0; i < ins->use_size; i++) {
 		struct node *use = ins->uses[i];
 
-		if (use->type == IR_PROJECT) {
+		if (use->type == IR_PROJECT ||
+			(use->type == IR_LOAD && use->arguments[1] == ins)) {
 			for (unsigned j = 0; j < use->use_size; j++) {
 				schedule_user_late(use, use->uses[j], &lca);
 			}
@@ -83,6 +84,19 @@ static void schedule_late(struct node *ins) {
 	}
 
 	ins->block = lca;
+
+	// A load does not produce a state, moving it later than the
+	// block of its state could move it past a store.
+	if (ins->type == IR_LOAD) {
+		struct node *state = ins->arguments[1];
+
+		if (state->type == IR_PROJECT)
+			schedule_late(state->arguments[0]);
+		schedule_late(state);
+
+		if (state->block)
+			ins->block = state->block;
+	}
 }
 
 void ir_schedule_instructions_to_blocks(void) {
-- 
2.43.0


From bc8b975abed70665c323a6571cfede08c6b0f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:49 +0000
Subject: [PATCH 38/77] fix: keep the variables of functions calling setjmp in
 memory

---
 src/codegen/rodata.c          |  5 +++++
 src/codegen/rodata.h          |  1 +
 src/ir/ir.h                   |  1 +
 src/optimize/mem2reg.c        |  5 +++++
 src/parser/expression_to_ir.c | 20 ++++++++++++++++++++
 5 files changed, 32 insertions(+)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index aabdebd..cf98191 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -63,6 +63,11 @@ void rodata_get_label(label_id id, int n, char buffer[]) {
 		ICE("Label name too long");
 }
 
+int rodata_label_has_name(label_id id, const char *name) {
+	return id >= 0 && entries[id].type == ENTRY_LABEL_NAME &&
+		sv_string_cmp(entries[id].name, name);
+}
+
 void rodata_codegen(void) {
 	asm_section(".rodata");
 	for (int i = 0; i < entries_size; i++) {
diff --git a/src/codegen/rodata.h b/src/codegen/rodata.h
index 2cf7e07..8ec4738 100644
--- a/src/codegen/rodata.h
+++ b/src/codegen/rodata.h
@@ -8,6 +8,7 @@ typedef int label_id;
 label_id rodata_register(struct string_view str);
 label_id register_label_name(struct string_view str);
 label_id register_label(void);
+int rodata_label_has_name(label_id id, const char *name);
 
 void rodata_get_label(label_id id, int n, char buffer[]);
 
diff --git a/src/ir/ir.h b/src/ir/ir.h
index d975e53..9803dc7 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -166,6 +166,7 @@ struct node {
 			int preamble_alloc;
 
 			int uses_va;
+			int calls_setjmp;
 
 			void *abi_data;
 		} function;
diff --git a/src/optimize/mem2reg.c b/src/optimize/mem2reg.c
index 788b67a..7cfaa47 100644
--- a/src/optimize/mem2reg.c
+++ b/src/optimize/mem2reg.c
@@ -69,6 +69,11 @@ static void try_remove_alloc(struct node *alloc, int visit_idx) {
 
 	(void)alloc;
 
+	// The second return from setjmp has to find variables as they were
+	// when longjmp was called, not as they were when setjmp was called.
+	if (alloc->parent_function->function.calls_setjmp)
+		return;
+
 	int size = alloc->alloc.size;
 	set_current_function(alloc->parent_function);
 
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index f98e1a5..0451f63 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -273,9 +273,29 @@ static struct evaluated_expression evaluate_variable(struct expr *expr) {
 	};
 }
 
+// Is this one of the names of setjmp, which might return more than once?
+static int is_setjmp(struct evaluated_expression *callee) {
+	static const char *names[] = {
+		"setjmp", "_setjmp", "__setjmp", "sigsetjmp", "__sigsetjmp",
+	};
+
+	if (callee->type != EE_CONSTANT || callee->constant.type == CONSTANT_TYPE)
+		return 0;
+
+	for (unsigned i = 0; i < sizeof names / sizeof *names; i++) {
+		if (rodata_label_has_name(callee->constant.label.label, names[i]))
+			return 1;
+	}
+
+	return 0;
+}
+
 static struct evaluated_expression evaluate_call(struct expr *expr) {
 	struct evaluated_expression callee = expression_evaluate(expr->call.callee);
 
+	if (is_setjmp(&callee))
+		get_current_function()->function.calls_setjmp = 1;
+
 	struct type *signature = type_deref(callee.data_type);
 
 	struct evaluated_expression arguments[128];
-- 
2.43.0


From c54ec81012c0a31b5da5d340703ab763e0ab1156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:00 +0000
Subject: [PATCH 39/77] fix: convert constants to _Bool

---
 src/arch/x64.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index ca721d4..da9b291 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -507,6 +507,14 @@ static struct constant simple_cast(struct constant from, enum simple_type target
 	if (target == ST_VOID || target == from_type)
 		return from;
 
+	if (target == ST_BOOL && from_int) {
+		from.uint_d = from.uint_d != 0;
+		return from;
+	} else if (target == ST_BOOL && from_float) {
+		from.uint_d = from_type == ST_FLOAT ? from.float_d != 0 : from.double_d != 0;
+		return from;
+	}
+
 	if (from_int && to_int) {
 		struct range r = get_range(target, -1);
 		constant_uint range_min = r.min == -1 ? 0 : (constant_uint)1 << r.min;
-- 
2.43.0


From e7b9ac66a149f3f4b1d2cf97fc6ab3b3362a17c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 40/77] fix: sign-extend char and short before converting them
 to floating point

---
 src/codegen/codegen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 9b38992..8a91152 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -372,9 +372,9 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int size_rhs = ins->arguments[0]->size,
 			size_result = ins->size;
 		if (size_rhs == 1) {
-			asm_ins2("movsbl", R1(REG_RAX), R4(REG_RAX));
+			asm_ins2("movsbq", R1(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 2) {
-			asm_ins2("movswl", R2(REG_RAX), R4(REG_RAX));
+			asm_ins2("movswq", R2(REG_RAX), R8(REG_RAX));
 		} else if (size_rhs == 4) {
 			asm_ins2("movslq", R4(REG_RAX), R8(REG_RAX));
 		}
-- 
2.43.0


From 1abdcc0452eec01584cd1f4ee1d0c6ad491bd476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:11 +0000
Subject: [PATCH 41/77] fix: restore the packing at #pragma pack(pop)

---
 src/parser/parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser.c b/src/parser/parser.c
index eea8e62..200849a 100644
--- a/src/parser/parser.c
+++ b/src/parser/parser.c
@@ -46,7 +46,7 @@ int parse_handle_pragma(void) {
 		if (T0->type == T_IDENT) {
 			if (sv_string_cmp(T0->str, "pop")) {
 				if (pack_size)
-					pack_size--;
+					current_packing = packs[--pack_size];
 				TNEXT();
 				TEXPECT(T_RPAR);
 				return 1;
-- 
2.43.0


From 7d85ff982eaa1f0d6372b2c9e16c6b25e447f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:11 +0000
Subject: [PATCH 42/77] fix: place bit-fields like the ABI does, and access
 only their own memory

---
 src/arch/x64.c                | 168 ++++++++++++++++++++--------------
 src/ir/ir.c                   |  60 ++++++++++--
 src/ir/ir.h                   |   2 +
 src/parser/declaration.c      |   2 +
 src/parser/expression_to_ir.c |  24 +++--
 src/parser/expression_to_ir.h |   2 +-
 src/types.h                   |   1 +
 7 files changed, 165 insertions(+), 94 deletions(-)

diff --git a/src/arch/x64.c b/src/arch/x64.c
index da9b291..0aeef7a 100644
--- a/src/arch/x64.c
+++ b/src/arch/x64.c
@@ -215,85 +215,117 @@ static int calculate_alignment_with_max(struct type *type, int packing) {
 	return alignment;
 }
 
+// Bit-fields are accessed in units of their type, unless that
+// would access memory outside of the struct, or memory of
+// members that are not in the same run of bit-fields.
+static int bitfield_has_unit(struct struct_data *data, int idx) {
+	struct field *field = data->fields + idx;
+	int start = field->offset,
+		end = start + calculate_size(field->type);
+
+	if (end > data->size || field->bit_offset + field->bitfield > 8 * (end - start))
+		return 0;
+
+	if (data->is_union)
+		return 1;
+
+	for (int pass = 0; pass < 2; pass++) {
+		int same_run = 1;
+		for (int i = pass ? idx + 1 : idx - 1; i >= 0 && i < data->n; i += pass ? 1 : -1) {
+			struct field *other = data->fields + i;
+			if (other->bitfield == -1 || other->bitfield == 0)
+				same_run = 0;
+
+			if (same_run || other->bitfield == 0)
+				continue;
+
+			int other_start = other->offset, other_end;
+			if (other->bitfield == -1) {
+				if (other->type->type == TY_INCOMPLETE_ARRAY)
+					continue;
+				other_end = other_start + calculate_size(other->type);
+			} else {
+				other_end = other_start + (other->bit_offset + other->bitfield + 7) / 8;
+				other_start += other->bit_offset / 8;
+			}
+
+			if (other_start < end && other_end > start)
+				return 0;
+		}
+	}
+
+	return 1;
+}
+
+static long round_up_bits(long bits, long alignment) {
+	return (bits + alignment - 1) / alignment * alignment;
+}
+
 void calculate_offsets(struct struct_data *data) {
-	int current_offset = 0;
-	int max_offset = 0;
+	int max_size = 0;
 	int alignment = 1;
 
-	int last_bit_offset = 0;
+	long bits = 0; // First bit that is not used by earlier members.
 	for (int i = 0; i < data->n; i++) {
-		struct type *field = data->fields[i].type;
-		current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
+		struct field *field = data->fields + i;
+		int field_alignment = calculate_alignment_with_max(field->type, data->packing);
+		long bit_alignment = 8l * field_alignment;
 
-		if (data->fields[i].bitfield == 0)
-			continue;
+		field->bit_offset = 0;
 
-		data->fields[i].offset = current_offset;
-		data->fields[i].bit_offset = 0;
-
-		if (data->fields[i].bitfield != -1) {
-			if (last_bit_offset != 0 && data->fields[i - 1].bitfield != 0)
-				data->fields[i].offset = data->fields[i - 1].offset;
-
-			int fits = 0;
-			struct type *fit_type = NULL;
-			for (int j = i; j >= 0; j--) {
-				if (last_bit_offset != 0 && data->fields[j].offset == data->fields[i - 1].offset &&
-					last_bit_offset + data->fields[i].bitfield <= 8 * calculate_size(data->fields[j].type)) {
-					fits = 1;
-					fit_type = data->fields[j].type;
-					break;
-				}
-			}
-
-			if (fits) {
-				current_offset = data->fields[i].offset;
-				data->fields[i].bit_offset = last_bit_offset;
-				data->fields[i].type = fit_type;
-			} else {
-				if (!data->is_union) {
-					current_offset = max_offset;
+		if (data->is_union)
+			bits = 0;
 
-					current_offset = round_up_to_nearest(current_offset, calculate_alignment_with_max(field, data->packing));
-				}
-				data->fields[i].offset = current_offset;
-				last_bit_offset = 0;
-			}
-
-			if (!data->is_union)
-				last_bit_offset += data->fields[i].bitfield;
-		} else {
-			last_bit_offset = 0;
+		if (field->bitfield == 0) {
+			bits = round_up_bits(bits, 8l * calculate_alignment(field->type));
+			max_size = MAX(max_size, bits / 8);
+			continue;
 		}
 
-		int new_size = 0;
-		if (i == data->n - 1 &&
-			field->type == TY_INCOMPLETE_ARRAY) {
-			new_size = 0;
-		} else {
-			new_size = calculate_size(field);
-			if (new_size == -1)
-				ICE("%s has invalid size", dbg_type(field));
+		int size = 0;
+		if (i != data->n - 1 ||
+			field->type->type != TY_INCOMPLETE_ARRAY) {
+			size = calculate_size(field->type);
+			if (size == -1)
+				ICE("%s has invalid size", dbg_type(field->type));
 		}
 
-		int new_alignment = calculate_alignment_with_max(field, data->packing);
-		if (new_alignment > alignment)
-			alignment = new_alignment;
-		if (!data->is_union) {
-			current_offset += new_size;
-			if (current_offset > max_offset)
-				max_offset = current_offset;
+		if (field->bitfield == -1) {
+			bits = round_up_bits(bits, bit_alignment);
+			field->offset = bits / 8;
+			bits += 8l * size;
 		} else {
-			if (new_size > max_offset)
-				max_offset = new_size;
+			// Bit-fields do not cross units of their type, unless packed.
+			long unit = 8l * (data->packing ? 1 : size);
+			if (!data->packing && bits % unit + field->bitfield > unit)
+				bits = round_up_bits(bits, unit);
+
+			field->offset = bits / unit * unit / 8;
+			field->bit_offset = bits % unit;
+			bits += field->bitfield;
 		}
+
+		// Unnamed bit-fields do not affect the alignment.
+		if (field->bitfield != -1 && field->name.len == 0)
+			field_alignment = 1;
+
+		if (field_alignment > alignment)
+			alignment = field_alignment;
+
+		if ((bits + 7) / 8 > max_size)
+			max_size = (bits + 7) / 8;
 	}
 
 	if (data->packing > 0 && alignment > data->packing)
 		alignment = data->packing;
 
-	data->size = round_up_to_nearest(max_offset, alignment);
+	data->size = round_up_to_nearest(max_size, alignment);
 	data->alignment = alignment;
+
+	for (int i = 0; i < data->n; i++) {
+		if (data->fields[i].bitfield > 0)
+			data->fields[i].has_unit = bitfield_has_unit(data, i);
+	}
 }
 
 struct constant constant_increment(struct constant a) {
@@ -629,18 +661,12 @@ void constant_to_buffer(uint8_t *buffer, struct constant constant, int bit_offse
 	uint64_t value = constant_to_u64(constant);
 
 	if (bit_size != -1) {
-		uint64_t mask = gen_mask(64 - bit_size - bit_offset, bit_offset);
-
-		value <<= bit_offset;
-		uint64_t prev_value;
-		switch (size) {
-		case 1: prev_value = *buffer; break;
-		case 2: prev_value = *(uint16_t *)buffer; break;
-		case 4: prev_value = *(uint32_t *)buffer; break;
-		case 8: prev_value = *(uint64_t *)buffer; break;
-		default: NOTIMP();
+		for (int i = 0; i < bit_size; i++) {
+			uint8_t *byte = buffer + (bit_offset + i) / 8,
+				bit = 1 << (bit_offset + i) % 8;
+			*byte = (value >> i & 1) ? *byte | bit : *byte & ~bit;
 		}
-		value = (prev_value & mask) | (value & ~mask);
+		return;
 	}
 
 	switch (size) {
diff --git a/src/ir/ir.c b/src/ir/ir.c
index ee96936..de64546 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -341,8 +341,53 @@ struct node *ir_get_bits(struct node *field, int offset, int length, int sign_ex
 	return ir_cast_int(field_large, field->size, 0);
 }
 
+struct node *ir_load_bits(struct node *address, int size, int offset, int length, int sign_extend, int has_unit) {
+	if (has_unit)
+		return ir_get_bits(ir_load(address, size), offset, length, sign_extend);
+
+	struct node *bits = NULL;
+	for (int i = offset / 8; i <= (offset + length - 1) / 8; i++) {
+		struct node *byte = ir_cast_int(ir_load(ir_get_offset(address, i), 1), 8, 0);
+		int shift = 8 * i - offset;
+		struct node *shift_var = ir_constant(constant_simple_unsigned(abi_info.size_type, shift < 0 ? -shift : shift));
+		if (shift < 0)
+			byte = ir_right_shift(byte, shift_var, 0);
+		else if (shift > 0)
+			byte = ir_left_shift(byte, shift_var);
+
+		bits = bits ? ir_binary_or(bits, byte) : byte;
+	}
+
+	return ir_cast_int(ir_get_bits(bits, 0, length, sign_extend), size, 0);
+}
+
+void ir_store_bits(struct node *address, struct node *value, int offset, int length, int has_unit) {
+	if (has_unit) {
+		ir_store(address, ir_set_bits(ir_load(address, value->size), value, offset, length));
+		return;
+	}
+
+	struct node *value_large = ir_cast_int(value, 8, 0);
+	for (int i = offset / 8; i <= (offset + length - 1) / 8; i++) {
+		int start = MAX(8 * i, offset), end = MIN(8 * i + 8, offset + length);
+		struct node *byte_address = ir_get_offset(address, i),
+			*byte = value_large;
+
+		if (start != offset) {
+			struct node *shift_var = ir_constant(constant_simple_unsigned(abi_info.size_type, start - offset));
+			byte = ir_right_shift(byte, shift_var, 0);
+		}
+
+		byte = ir_cast_int(byte, 1, 0);
+		if (end - start != 8)
+			byte = ir_set_bits(ir_load(byte_address, 1), byte, start - 8 * i, end - start);
+
+		ir_store(byte_address, byte);
+	}
+}
+
 static void ir_init_var_recursive(struct initializer *init, struct type *type, struct node *offset,
-								  int bit_offset, int bit_size) {
+								  int bit_offset, int bit_size, int has_unit) {
 	switch (init->type) {
 	case INIT_BRACE: {
 		for (int i = 0; i < init->brace.size; i++) {
@@ -350,16 +395,17 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 			struct type *child_type = type_select(type, i);
 			struct node *child_offset_var = ir_add(offset,
 														  ir_constant(constant_simple_unsigned(abi_info.size_type, child_offset)));
-			int bit_offset = -1, bit_size = -1;
+			int bit_offset = -1, bit_size = -1, has_unit = 0;
 
 			if (type->type == TY_STRUCT) {
 				struct field f = type->struct_data->fields[i];
 				bit_offset = f.bit_offset;
 				bit_size = f.bitfield;
+				has_unit = f.has_unit;
 			}
 
 			ir_init_var_recursive(init->brace.entries + i, child_type, child_offset_var,
-								  bit_offset, bit_size);
+								  bit_offset, bit_size, has_unit);
 		}
 	} break;
 
@@ -367,11 +413,7 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 		if (bit_size == -1) {
 			expression_to_address(init->expr, offset);
 		} else {
-			struct node *value = expression_to_ir(init->expr);
-			struct node *prev = ir_load(offset, value->size);
-			struct node *new = ir_set_bits(prev, value, bit_offset, bit_size);
-
-			ir_store(offset, new);
+			ir_store_bits(offset, expression_to_ir(init->expr), bit_offset, bit_size, has_unit);
 		}
 		break;
 
@@ -393,7 +435,7 @@ static void ir_init_var_recursive(struct initializer *init, struct type *type, s
 void ir_init_ptr(struct initializer *init, struct type *type, struct node *ptr) {
 	ir_set_zero_ptr(ptr, calculate_size(type));
 
-	ir_init_var_recursive(init, type, ptr, -1, -1);
+	ir_init_var_recursive(init, type, ptr, -1, -1, 0);
 }
 
 static void register_usage(struct node *block, struct node *var) {
diff --git a/src/ir/ir.h b/src/ir/ir.h
index 9803dc7..805216c 100644
--- a/src/ir/ir.h
+++ b/src/ir/ir.h
@@ -277,6 +277,8 @@ struct node *ir_equal(struct node *lhs, struct node *rhs);
 struct node *ir_binary_op(int type, struct node *lhs, struct node *rhs);
 
 struct node *ir_set_bits(struct node *field, struct node *value, int offset, int length);
+struct node *ir_load_bits(struct node *address, int size, int offset, int length, int sign_extend, int has_unit);
+void ir_store_bits(struct node *address, struct node *value, int offset, int length, int has_unit);
 struct node *ir_get_bits(struct node *field, int offset, int length, int sign_extend);
 
 struct node *ir_get_offset(struct node *base_address, int offset);
diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 2f52f24..955529b 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -403,6 +403,8 @@ int parse_struct(struct type_specifiers *ts) {
 						ERROR(T0->pos, "Bit-field must an integer");
 					assert(c->type == CONSTANT_TYPE);
 					bitfield = c->int_d;
+					if (bitfield < 0 || bitfield > 8 * calculate_size(type))
+						ERROR(T0->pos, "Invalid bit-field width");
 				} else if (needs_bitfield) {
 					break;
 				}
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 0451f63..f1fddd4 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -103,12 +103,12 @@ struct node *evaluated_expression_to_address(struct evaluated_expression *evalua
 struct node *evaluated_expression_to_var(struct evaluated_expression *evaluated_expression) {
 	switch (evaluated_expression->type) {
 	case EE_BITFIELD_POINTER: {
-		struct node *var = ir_load(evaluated_expression->bitfield_pointer.pointer,
-							 calculate_size(evaluated_expression->data_type));
-
-		return ir_get_bits(var, evaluated_expression->bitfield_pointer.offset,
-						   evaluated_expression->bitfield_pointer.bitfield,
-						   evaluated_expression->bitfield_pointer.sign_extend);
+		return ir_load_bits(evaluated_expression->bitfield_pointer.pointer,
+							calculate_size(evaluated_expression->data_type),
+							evaluated_expression->bitfield_pointer.offset,
+							evaluated_expression->bitfield_pointer.bitfield,
+							evaluated_expression->bitfield_pointer.sign_extend,
+							evaluated_expression->bitfield_pointer.has_unit);
 	}
 
 	case EE_CONSTANT:
@@ -188,13 +188,10 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 		ir_store(lhs->pointer, rhs_var);
 		break;
 
-	case EE_BITFIELD_POINTER: {
-		struct node *prev = ir_load(lhs->bitfield_pointer.pointer, rhs_var->size);
-
-		struct node *new = ir_set_bits(prev, rhs_var, lhs->bitfield_pointer.offset, lhs->bitfield_pointer.bitfield);
-
-		ir_store(lhs->bitfield_pointer.pointer, new);
-	} break;
+	case EE_BITFIELD_POINTER:
+		ir_store_bits(lhs->bitfield_pointer.pointer, rhs_var, lhs->bitfield_pointer.offset,
+					  lhs->bitfield_pointer.bitfield, lhs->bitfield_pointer.has_unit);
+		break;
 		
 	default: NOTIMP();
 	}
@@ -406,6 +403,7 @@ static struct evaluated_expression evaluate_dot_operator(struct expr *expr) {
 				.pointer = member_address,
 				.bitfield = data->fields[idx].bitfield,
 				.offset = data->fields[idx].bit_offset,
+				.has_unit = data->fields[idx].has_unit,
 				.sign_extend = is_signed(data->fields[idx].type->simple),
 			}
 		};
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index f8ed441..222fed3 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -33,7 +33,7 @@ struct evaluated_expression {
 
 		struct {
 			struct node *pointer;
-			int bitfield, offset, sign_extend;
+			int bitfield, offset, sign_extend, has_unit;
 		} bitfield_pointer;
 	};
 };
diff --git a/src/types.h b/src/types.h
index 0b65518..3331f88 100644
--- a/src/types.h
+++ b/src/types.h
@@ -109,6 +109,7 @@ struct struct_data {
 		int bitfield; // -1 means no bit-field.
 		int offset;
 		int bit_offset;
+		int has_unit; // Bit-field can be accessed with the size of its type.
 	} *fields;
 
 	int alignment, size;
-- 
2.43.0


From ba0519a77b406d53fed2695ee02fbd309bd51074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:32 +0000
Subject: [PATCH 43/77] fix: don't move VLA allocations into other blocks

The allocation was scheduled into the block of its first use. In a loop it
was repeated, and while the stack pointer was reset the array was below it.
---
 src/codegen/codegen.c | 2 +-
 src/debug.c           | 2 +-
 src/ir/ir.c           | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 8a91152..1643e68 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -465,7 +465,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		asm_ins2("movq", R8(REG_RSP), MEM(-vla_info.vla_slot_buffer_offset + slot_offset, REG_RBP));
 		scalar_to_reg(ins->arguments[0], REG_RAX);
 		asm_ins2("subq", R8(REG_RAX), R8(REG_RSP));
-		reg_to_scalar(REG_RSP, ins);
+		reg_to_scalar(REG_RSP, ins->projects[1]);
 		// Align %rsp to 16 boundary. (Remember stack grows downwards. So rounding down is actually correct.)
 		asm_ins2("andq", IMM(-16), R8(REG_RSP));
 	} break;
diff --git a/src/debug.c b/src/debug.c
index 41d2e1a..ec2697a 100644
--- a/src/debug.c
+++ b/src/debug.c
@@ -182,7 +182,7 @@ const char *dbg_instruction(struct node *ins) {
 			str = "region";
 		}
 		break;
-	case IR_VLA_ALLOC: str = "vla_alloc %d"; break;
+	case IR_VLA_ALLOC: str = "vla_alloc %d, state: %d"; break;
 	case IR_RETURN: str = "return %d, %d, %d"; break;
 
 	case IR_CONSTANT: // TODO: Print the constant.
diff --git a/src/ir/ir.c b/src/ir/ir.c
index de64546..746172d 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -623,7 +623,10 @@ void ir_call(struct node *callee, struct node *reg_state, struct node *call_stac
 }
 
 struct node *ir_vla_alloc(struct node *length) {
-	return ir_new1(IR_VLA_ALLOC, length, 8);
+	// Changes the stack pointer, and must not be moved into another block.
+	struct node *ins = ir_new2(IR_VLA_ALLOC, length, get_state(), 0);
+	set_state(ir_project(ins, 0, 0));
+	return ir_project(ins, 1, 8);
 }
 
 struct node *ir_set_reg(struct node *variable, struct node *reg_state, int register_index, int is_sse) {
@@ -766,6 +769,8 @@ struct node *node_get_prev_state(struct node *node) {
 		return node->arguments[2];
 	else if (node->type == IR_LOAD_VOLATILE)
 		return node->arguments[1];
+	else if (node->type == IR_VLA_ALLOC)
+		return node->arguments[1];
 	else if (node->type == IR_LOAD_BASE_RELATIVE_ADDRESS)
 		return node->arguments[1];
 	else if (node->type == IR_SET_ZERO_PTR)
-- 
2.43.0


From 965d01e0c728f9169027bb2ca56222c826b1aebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:27 +0000
Subject: [PATCH 44/77] fix: convert large unsigned long values to floating
 point

---
 src/codegen/codegen.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 1643e68..320e54d 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -401,15 +401,40 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 			asm_ins2("movzwl", R2(REG_RAX), R4(REG_RAX));
 		}
 
-		if (size_result == 4) {
+		if (size_rhs == 8) {
+			// The conversion is signed, values that don't fit are converted
+			// as (x >> 1) | (x & 1), and scaled back below.
+			label_id small_label = register_label();
+			asm_ins2("movq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(63), R8(REG_RCX));
+			asm_ins2("movq", R8(REG_RCX), R8(REG_RDX));
+			asm_ins2("testq", R8(REG_RCX), R8(REG_RCX));
+			asm_ins1("je", IMML_ABS(small_label, 0));
+			asm_ins2("andq", R8(REG_RAX), R8(REG_RCX));
+			asm_ins2("shrq", IMM(1), R8(REG_RAX));
+			asm_ins2("orq", R8(REG_RCX), R8(REG_RAX));
+			asm_label(0, small_label);
+		}
+
+		if (size_result == 4)
 			asm_ins2("cvtsi2ss", R8(REG_RAX), XMM(0));
-			asm_ins2("movd", XMM(0), R4(REG_RAX));
-		} else if (size_result == 8) {
+		else if (size_result == 8)
 			asm_ins2("cvtsi2sd", R8(REG_RAX), XMM(0));
-			asm_ins2("movq", XMM(0), R8(REG_RAX));
-		} else {
+		else
 			NOTIMP();
+
+		if (size_rhs == 8) {
+			label_id done_label = register_label();
+			asm_ins2("testq", R8(REG_RDX), R8(REG_RDX));
+			asm_ins1("je", IMML_ABS(done_label, 0));
+			asm_ins2(size_result == 4 ? "addss" : "addsd", XMM(0), XMM(0));
+			asm_label(0, done_label);
 		}
+
+		if (size_result == 4)
+			asm_ins2("movd", XMM(0), R4(REG_RAX));
+		else
+			asm_ins2("movq", XMM(0), R8(REG_RAX));
 		reg_to_scalar(REG_RAX, ins);
 	} break;
 
-- 
2.43.0


From 9317205ded04d3a60b97fd91fb3a4f35e35b7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 45/77] fix: keep casts of bit-fields to their own type

---
 src/parser/expression.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index 1a9f796..c025007 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1095,7 +1095,8 @@ int evaluate_constant_expression(struct expr *expr,
 
 struct expr *expression_cast(struct expr *expr, struct type *type) {
 	decay_array(&expr);
-	return (expr->data_type == type) ? expr :
+	// A cast bit-field is no longer a bit-field, it isn't promoted to int.
+	return (expr->data_type == type && get_expression_bitfield(expr) == -1) ? expr :
 		expr_new((struct expr) {
 				.type = E_CAST,
 				.cast = {expr, type}				   
-- 
2.43.0


From c2af88aff3149b4dbb088cc0473ced4977a7275b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:03 +0000
Subject: [PATCH 46/77] fix: give assignments to bit-fields the value of the
 bit-field

---
 src/parser/expression_to_ir.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index f1fddd4..6fa010c 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -197,6 +197,15 @@ static void assign_to_ee(struct evaluated_expression *lhs, struct node *rhs_var)
 	}
 }
 
+// The value of an assignment is that of the left operand after it.
+static struct node *value_after_assignment(struct evaluated_expression *lhs, struct node *rhs_var) {
+	if (lhs->type != EE_BITFIELD_POINTER)
+		return rhs_var;
+
+	return ir_get_bits(rhs_var, 0, lhs->bitfield_pointer.bitfield,
+					   lhs->bitfield_pointer.sign_extend);
+}
+
 static void assign_ee_to_ee(struct evaluated_expression *lhs, struct evaluated_expression *rhs) {
 	assert(lhs->data_type == rhs->data_type);
 	if (calculate_size(rhs->data_type) <= 8) { // If fits into variable, take shortcut.
@@ -518,8 +527,9 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 	assert(lhs.is_lvalue);
 
 	// The value of the assignment might be used, but rhs is only read once.
-	if (is_scalar_in_memory(&rhs)) {
+	if (is_scalar_in_memory(&rhs) || lhs.type == EE_BITFIELD_POINTER) {
 		struct node *rhs_var = evaluated_expression_to_var(&rhs);
+		rhs_var = value_after_assignment(&lhs, rhs_var);
 		rhs = (struct evaluated_expression) {
 			.type = EE_VARIABLE,
 			.data_type = rhs.data_type,
@@ -560,7 +570,7 @@ static struct evaluated_expression evaluate_assignment_op(struct expr *expr) {
 	lhs_var = variable_cast(lhs_var, operator_type, lhs.data_type);
 
 	if (!expr->assignment_op.postfix)
-		res_var = lhs_var;
+		res_var = value_after_assignment(&lhs, lhs_var);
 
 	struct evaluated_expression res = {
 		.type = EE_VARIABLE,
-- 
2.43.0


From 59fb2a804822109f3fd9f505a122da9d5812e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:55 +0000
Subject: [PATCH 47/77] fix: copy phi nodes in parallel

---
 src/codegen/codegen.c | 51 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 5 deletions(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index 320e54d..bf22d67 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -539,10 +539,15 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	}
 }
 
-static void codegen_phi_node(struct node *current_block, struct node *next_block) {
+// A phi node can be the source of another one in the same block. All of
+// them have the values from before the jump, whatever order they are in.
+static void codegen_phi_nodes(struct node *current_block, struct node *next_block) {
 	if (next_block->type != IR_REGION)
 		return;
 
+	struct node **phis = NULL, **sources = NULL;
+	size_t phis_size = 0, phis_cap = 0, sources_size = 0, sources_cap = 0;
+
 	for (unsigned i = 0; i < next_block->use_size; i++) {
 		struct node *ins = next_block->uses[i];
 
@@ -562,17 +567,53 @@ static void codegen_phi_node(struct node *current_block, struct node *next_block
 				next_block->arguments[0], next_block->arguments[1]);
 		}
 
-		if (!source_var)
+		if (!source_var || source_var == ins)
 			continue;
 
+		ADD_ELEMENT(phis_size, phis_cap, phis) = ins;
+		ADD_ELEMENT(sources_size, sources_cap, sources) = source_var;
+	}
+
+	size_t remaining = phis_size;
+	struct node *in_rcx = NULL; // The old value of this phi node is in rcx.
+	while (remaining) {
+		size_t next = phis_size;
+		for (size_t i = 0; i < phis_size && next == phis_size; i++) {
+			int is_read = 0;
+			for (size_t j = 0; j < phis_size; j++)
+				if (phis[j] && i != j && sources[j] == phis[i] && sources[j] != in_rcx)
+					is_read = 1;
+
+			if (phis[i] && !is_read)
+				next = i;
+		}
+
+		if (next == phis_size) { // Only cycles are left.
+			for (next = 0; !phis[next];)
+				next++;
+			in_rcx = phis[next];
+			scalar_to_reg(in_rcx, REG_RCX);
+		}
+
+		struct node *ins = phis[next];
 		asm_comment("Phi node to %d (%d %d %d)", ins->index,
 					ins->arguments[0] ? ins->arguments[0]->index : -1,
 					ins->arguments[1] ? ins->arguments[1]->index : -1,
 					ins->arguments[2] ? ins->arguments[2]->index : -1
 			);
-		scalar_to_reg(source_var, REG_RAX);
-		reg_to_scalar(REG_RAX, ins);
+		if (sources[next] == in_rcx) {
+			reg_to_scalar(REG_RCX, ins);
+		} else {
+			scalar_to_reg(sources[next], REG_RAX);
+			reg_to_scalar(REG_RAX, ins);
+		}
+
+		phis[next] = NULL;
+		remaining--;
 	}
+
+	free(phis);
+	free(sources);
 }
 
 static void codegen_block(struct node *block, struct node *func) {
@@ -594,7 +635,7 @@ static void codegen_block(struct node *block, struct node *func) {
 		asm_ins0("leave");
 		asm_ins0("ret");
 	} else if (node_is_control(end)) {
-		codegen_phi_node(block, end);
+		codegen_phi_nodes(block, end);
 		if (end == block->next) {
 			asm_comment("Block jump elided");
 		} else {
-- 
2.43.0


From 189dd29dbc61c19e906bb20ba49e36fe0fca6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:40 +0000
Subject: [PATCH 48/77] fix: reject foreign ELF files instead of asserting

---
 src/linker/elf.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 32ddad4..5f15809 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -560,36 +560,40 @@ static int read_header(FILE *fp, struct elf_file *elf) {
 		if (magic_buffer[i] != magic[i])
 			return 1;
 
-	assert(read_byte(fp) == 2); // EI_CLASS = 64 bit
-	assert(read_byte(fp) == 1); // EI_DATA = little endian
-	assert(read_byte(fp) == 1); // EI_VARSION = 1
-	assert(read_byte(fp) == 0); // EI_OSABI = System V
-	assert(read_byte(fp) == 0); // EI_ABIVERSION = 0
+	if (read_byte(fp) != 2 || // EI_CLASS = 64 bit
+		read_byte(fp) != 1 || // EI_DATA = little endian
+		read_byte(fp) != 1 || // EI_VARSION = 1
+		read_byte(fp) != 0 || // EI_OSABI = System V
+		read_byte(fp) != 0) // EI_ABIVERSION = 0
+		return 1;
 
 	read_zero(fp, 7);
 
 	elf->header.e_type = read_word(fp);
-	assert(read_word(fp) == 0x3e); // e_machine = AMD x86-64
+	if (read_word(fp) != 0x3e) // e_machine = AMD x86-64
+		return 1;
 
-	assert(read_long(fp) == 1); // e_version = 1
+	if (read_long(fp) != 1) // e_version = 1
+		return 1;
 
 	elf->header.e_entry = read_quad(fp); // e_entry
 	elf->header.e_phoff = read_quad(fp); // e_phoff
 	elf->header.e_shoff = read_quad(fp); // e_shoff
 
-	assert(read_long(fp) == 0); // e_flags = 0
-	assert(read_word(fp) == 64); // e_ehsize = 64
+	if (read_long(fp) != 0 || // e_flags = 0
+		read_word(fp) != 64) // e_ehsize = 64
+		return 1;
 
 	uint16_t e_phentsize = read_word(fp); // e_phentsize
 	elf->segment_size = read_word(fp); // e_phnum
 
-	assert(elf->segment_size == 0 || e_phentsize == 7 * 8);
-
 	uint16_t e_shentsize = read_word(fp); // e_shentsize
 	elf->section_size = read_word(fp); // e_shnum
 
-	assert(elf->segment_size == 0 || e_phentsize == 7 * 8);
-	assert(elf->section_size == 0 || e_shentsize == 8 * 8);
+	if (elf->segment_size && e_phentsize != 7 * 8)
+		return 1;
+	if (elf->section_size && e_shentsize != 8 * 8)
+		return 1;
 
 	elf->header.e_shstrndx = read_word(fp); // e_shstrndx
 
-- 
2.43.0


From 37ecf9e0c6924605e4e24f2546b7efee74cadf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:36 +0000
Subject: [PATCH 49/77] fix: use the whole symbol index of relocations

---
 src/linker/elf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index 5f15809..dff210f 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -280,12 +280,12 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			uint64_t r_addend = read_64(rela_data + 16);
 
 			int type = 0;
-			switch (r_info & 0xffff) {
+			switch (r_info & 0xffffffff) {
 			case R_X86_64_64: type = RELOCATE_64; break;
 			case R_X86_64_32S: type = RELOCATE_32; break;
 			case R_X86_64_PC32: type = RELOCATE_32_RELATIVE; break;
 			default:
-				ICE("Relocation %lu not implemented.", r_info & 0xffff);
+				ICE("Relocation %lu not implemented.", r_info & 0xffffffff);
 			}
 
 			if (!symbol_mapping)
@@ -297,7 +297,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			*relocation = (struct object_relocation) {
 				.add = r_addend,
 				.offset = r_offset,
-				.idx = symbol_mapping[(r_info >> 32) & 0xffff],
+				.idx = symbol_mapping[r_info >> 32],
 				.type = type,
 			};
 		}
-- 
2.43.0


From 361b4ccc50b74831a50a90983f26ef76f21430d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:15 +0000
Subject: [PATCH 50/77] fix: compare controlling expressions with zero in their
 own type

---
 src/parser/expression_to_ir.c | 20 +++++++++++++++++++-
 src/parser/expression_to_ir.h |  1 +
 src/parser/function_parser.c  |  8 ++++----
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 6fa010c..5ae5996 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -126,6 +126,16 @@ struct node *evaluated_expression_to_var(struct evaluated_expression *evaluated_
 	}
 }
 
+// Controlling expressions are compared against zero. Code generation tests if any
+// bit is set, but one is set in negative zero.
+static struct node *truth_value(struct node *variable, struct type *type) {
+	if (!type_is_floating(type))
+		return variable;
+
+	struct node *zero = ir_cast_int_to_float(ir_constant(constant_simple_signed(ST_INT, 0)), variable->size, 1);
+	return ir_binary_op(IR_FLT_NOT_EQUAL, variable, zero);
+}
+
 static struct node *variable_cast(struct node *operand_var, struct type *operand_type, struct type *resulting_type) {
 	struct node *res = operand_var;
 
@@ -133,7 +143,7 @@ static struct node *variable_cast(struct node *operand_var, struct type *operand
 		return operand_var;
 
 	if (type_is_simple(resulting_type, ST_BOOL)) {
-		res = ir_bool_cast(operand_var);
+		res = ir_bool_cast(truth_value(operand_var, operand_type));
 	} else if ((type_is_integer(resulting_type) || type_is_pointer(resulting_type)) &&
 			   (type_is_integer(operand_type) || type_is_pointer(operand_type))) {
 		if (calculate_size(resulting_type) != calculate_size(operand_type)) {
@@ -587,6 +597,8 @@ static struct evaluated_expression evaluate_conditional(struct expr *expr) {
 	struct evaluated_expression condition = expression_evaluate(expr->args[0]);
 	struct node *condition_var = evaluated_expression_to_var(&condition);
 
+	condition_var = truth_value(condition_var, condition.data_type);
+
 	int is_void = type_is_simple(expr->data_type, ST_VOID);
 
 	if (is_void) {
@@ -800,6 +812,12 @@ struct node *expression_to_int(struct expr *expr) {
 	return res;
 }
 
+struct node *expression_to_condition(struct expr *expr) {
+	struct evaluated_expression ee = expression_evaluate(expr);
+	struct node *res = evaluated_expression_to_var(&ee);
+	return truth_value(res, ee.data_type);
+}
+
 void expression_to_void(struct expr *expr) {
 	struct evaluated_expression ee = expression_evaluate(expr);
 	evaluated_expression_discard(&ee);
diff --git a/src/parser/expression_to_ir.h b/src/parser/expression_to_ir.h
index 222fed3..38e94a8 100644
--- a/src/parser/expression_to_ir.h
+++ b/src/parser/expression_to_ir.h
@@ -10,6 +10,7 @@ struct node *expression_to_ir_clear_temp(struct expr *expr);
 
 struct node *expression_to_size_t(struct expr *expr);
 struct node *expression_to_int(struct expr *expr);
+struct node *expression_to_condition(struct expr *expr);
 void expression_to_void(struct expr *expr);
 void expression_to_address(struct expr *expr, struct node *address);
 
diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index c4af694..bb5bc48 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -195,7 +195,7 @@ int parse_selection_statement(struct jump_blocks *jump_blocks) {
 		if(!expr)
 			ERROR(T0->pos, "Expected expression in if condition");
 
-		struct node *condition = expression_to_ir(expr);
+		struct node *condition = expression_to_condition(expr);
 
 		TEXPECT(T_RPAR);
 		struct node *block_true, *block_false;
@@ -257,7 +257,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	if (!control_expression)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	TEXPECT(T_RPAR);
 
@@ -301,7 +301,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct node *control_variable = expression_to_int(control_expression);
+	struct node *control_variable = expression_to_condition(control_expression);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(control_variable, &block_true, &block_false);
@@ -371,7 +371,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		condition = EXPR_INT(1);
 
-	struct node *condition_variable = expression_to_int(condition);
+	struct node *condition_variable = expression_to_condition(condition);
 
 	struct node *block_true, *block_false;
 	ir_if_selection(condition_variable, &block_true, &block_false);
-- 
2.43.0


From 99aee5f82b026427c7a14356f799089e7b63b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:32 +0000
Subject: [PATCH 51/77] fix: switch on the promoted type of the controlling
 expression

---
 src/parser/function_parser.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index bb5bc48..24e6055 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -20,6 +20,7 @@ struct jump_blocks {
 
 	struct node *block_entry, *block_default;
 	struct node *case_control;
+	struct type *case_type;
 };
 
 static struct function_scope {
@@ -81,14 +82,14 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		if (!value)
 			ERROR(T0->pos, "Expected expression");
 		TEXPECT(T_COLON);
-		struct constant *constant = expression_to_constant(expression_cast(value, type_simple(ST_INT)));
-		if (!constant)
-			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
-
 		struct node *case_control = jump_blocks->case_control;
 		if (!case_control)
 			ERROR(T0->pos, "Not currently in a switch statement");
 
+		struct constant *constant = expression_to_constant(expression_cast(value, jump_blocks->case_type));
+		if (!constant)
+			ERROR(T0->pos, "Expression not constant, is of type %d", value->type);
+
 		struct node *block_case = new_block(),
 			*new_entry = new_block();
 
@@ -155,7 +156,13 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	if (!condition)
 		ERROR(T0->pos, "Expected expression");
 
-	struct node *case_control = expression_to_int(condition);
+	// 6.8.4.2p5: The integer promotions are performed on the controlling
+	// expression, the case constants are converted to the promoted type.
+	condition = EXPR_UNARY_OP(UOP_PLUS, condition);
+	if (!type_is_integer(condition->data_type))
+		ERROR(T0->pos, "Switch on a value that is not an integer");
+
+	struct node *case_control = expression_to_ir(condition);
 
 	TEXPECT(T_RPAR);
 
@@ -171,6 +178,7 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 	new_jump_blocks.block_entry = block_entry;
 	new_jump_blocks.block_break = block_end;
 	new_jump_blocks.case_control = case_control;
+	new_jump_blocks.case_type = condition->data_type;
 	new_jump_blocks.block_default = NULL;
 
 	// Parse body
-- 
2.43.0


From a4137e538f9a7dc38b23e21bd9a10060ce03e5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:32 +0000
Subject: [PATCH 52/77] fix: read floating point constants as their own type
 when compared with zero

---
 src/parser/expression.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index c025007..d76db1b 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -1112,9 +1112,9 @@ int constant_is_zero(struct constant *c) {
 		return 0;
 
 	if (type_is_simple(c->data_type, ST_FLOAT)) {
-		return c->double_d == 0;
-	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
 		return c->float_d == 0;
+	} else if (type_is_simple(c->data_type, ST_DOUBLE)) {
+		return c->double_d == 0;
 	} else if (type_is_integer(c->data_type) && is_signed(c->data_type->simple)) {
 		return c->int_d == 0;
 	} else if (type_is_integer(c->data_type) && !is_signed(c->data_type->simple)) {
-- 
2.43.0


From a9a87d0cb387377cf88c863878b513b093c10dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:08 +0000
Subject: [PATCH 53/77] fix: comparisons of floating point numbers with NaN

---
 src/assembler/instructions.h   |   2 +
 src/codegen/binary_operators.h | 100 ++++++++++++++++++++-------------
 src/codegen/codegen.c          |   4 +-
 3 files changed, 66 insertions(+), 40 deletions(-)

diff --git a/src/assembler/instructions.h b/src/assembler/instructions.h
index 3e96129..73f4e49 100644
--- a/src/assembler/instructions.h
+++ b/src/assembler/instructions.h
@@ -206,6 +206,8 @@ struct encoding encodings[] = {
 	{"setle", 0x0f, .op2 = 0x9e, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setnb", 0x0f, .op2 = 0x93, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	{"setne", 0x0f, .op2 = 0x95, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setnp", 0x0f, .op2 = 0x9b, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
+	{"setp", 0x0f, .op2 = 0x9a, .operand_encoding = {{OE_MODRM_RM, 0}}, .operand_accepts = {A_MODRM(1)}},
 	
 	{"salq", 0xd3, .rex = 1, .rexw = 1, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(8), A_RCX(1)}},
 	{"sall", 0xd3, .modrm_extension = 4, .operand_encoding = {{OE_MODRM_RM, 0}, {OE_NONE, 0}}, .operand_accepts = {A_MODRM(4), A_RCX(1)}},
diff --git a/src/codegen/binary_operators.h b/src/codegen/binary_operators.h
index d350bf6..47248ab 100644
--- a/src/codegen/binary_operators.h
+++ b/src/codegen/binary_operators.h
@@ -21,12 +21,25 @@
 		{"movd", {XMM_(0), R4_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_32(MNEMONIC) {				\
+// LHS and RHS are the numbers of the xmm registers to compare. Since the carry
+// flag is set when one of them is NaN, only "above" and "not below" can be used.
+#define BINARY_COMP_FLT_32(MNEMONIC, LHS, RHS) {	\
 		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
 		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
 		{"xorq", {R8_(REG_RAX), R8_(REG_RAX)}},	\
+		{"ucomiss", {XMM_(RHS), XMM_(LHS)}},	\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+	}
+
+// The parity flag is set when one of the operands is NaN.
+#define BINARY_EQUAL_FLT_32(MNEMONIC, PARITY, COMBINE) {	\
+		{"movd", {R4_(REG_RAX), XMM_(0)}},		\
+		{"movd", {R4_(REG_RCX), XMM_(1)}},		\
 		{"ucomiss", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS_64(MNEMONIC) {						\
@@ -46,78 +59,89 @@
 		{"movq", {XMM_(0), R8_(REG_RAX)}},		\
 	}
 
-#define BINARY_COMP_FLT_64(MNEMONIC) {				\
+#define BINARY_COMP_FLT_64(MNEMONIC, LHS, RHS) {	\
+		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
+		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
+		{"ucomisd", {XMM_(RHS), XMM_(LHS)}},	\
+		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
+	}
+
+#define BINARY_EQUAL_FLT_64(MNEMONIC, PARITY, COMBINE) {	\
 		{"movq", {R8_(REG_RAX), XMM_(0)}},		\
 		{"movq", {R8_(REG_RCX), XMM_(1)}},		\
 		{"ucomisd", {XMM_(1), XMM_(0)}},		\
 		{MNEMONIC, {R1_(REG_RAX)}},				\
+		{PARITY, {R1_(REG_RCX)}},				\
+		{COMBINE, {R4_(REG_RCX), R4_(REG_RAX)}},	\
 		{"movzbl", {R1_(REG_RAX), R4_(REG_RAX)}},	\
 	}
 
 #define BINARY_INS(M32, M64) BINARY_INS_32(M32), BINARY_INS_64(M64)
 #define BINARY_COMP(M) BINARY_COMP_32(M), BINARY_COMP_64(M)
 #define BINARY_INS_FLT(M32, M64) BINARY_INS_FLT_32(M32), BINARY_INS_FLT_64(M64)
-#define BINARY_COMP_FLT(M) BINARY_COMP_FLT_32(M), BINARY_COMP_FLT_64(M)
+#define BINARY_COMP_FLT(M, L, R) BINARY_COMP_FLT_32(M, L, R), BINARY_COMP_FLT_64(M, L, R)
+#define BINARY_EQUAL_FLT(M, P, C) BINARY_EQUAL_FLT_32(M, P, C), BINARY_EQUAL_FLT_64(M, P, C)
 
-static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][5] = {
-	[IR_ADD] = &(struct asm_instruction [2][5]) {BINARY_INS("addl", "addq")},
-	[IR_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS("subl", "subq") },
-	[IR_IMUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS("imull", "imulq") },
-	[IR_BXOR] = &(struct asm_instruction [2][5]) { BINARY_INS("xorl", "xorq") },
-	[IR_BOR] = &(struct asm_instruction [2][5]) { BINARY_INS("orl", "orq") },
-	[IR_BAND] = &(struct asm_instruction [2][5]) { BINARY_INS("andl", "andq") },
-	[IR_IDIV] = &(struct asm_instruction [2][5]) {
+static struct asm_instruction (*codegen_asm_table[IR_COUNT])[2][7] = {
+	[IR_ADD] = &(struct asm_instruction [2][7]) {BINARY_INS("addl", "addq")},
+	[IR_SUB] = &(struct asm_instruction [2][7]) { BINARY_INS("subl", "subq") },
+	[IR_IMUL] = &(struct asm_instruction [2][7]) { BINARY_INS("imull", "imulq") },
+	[IR_MUL] = &(struct asm_instruction [2][7]) { BINARY_INS("imull", "imulq") },
+	[IR_BXOR] = &(struct asm_instruction [2][7]) { BINARY_INS("xorl", "xorq") },
+	[IR_BOR] = &(struct asm_instruction [2][7]) { BINARY_INS("orl", "orq") },
+	[IR_BAND] = &(struct asm_instruction [2][7]) { BINARY_INS("andl", "andq") },
+	[IR_IDIV] = &(struct asm_instruction [2][7]) {
 		{{"cltd", { { 0 } }}, {"idivl", {R4_(REG_RCX)}}},
 		{{"cqto", { { 0 } }}, {"idivq", {R8_(REG_RCX)}}},
 	},
-	[IR_IMOD] = &(struct asm_instruction [2][5]) {
+	[IR_IMOD] = &(struct asm_instruction [2][7]) {
 		{{"cltd", { { 0 } }},
 		 {"idivl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"cqto", { { 0 } }},
 		 {"idivq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
-	[IR_LSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_LSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"sall", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"salq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IRSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_IRSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"sarl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"sarq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_RSHIFT] = &(struct asm_instruction [2][5]) {
+	[IR_RSHIFT] = &(struct asm_instruction [2][7]) {
 		{{"shrl", {R1_(REG_RCX), R4_(REG_RAX)}}},
 		{{"shrq", {R1_(REG_RCX), R8_(REG_RAX)}}},
 	},
-	[IR_IGREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("setg") },
-	[IR_ILESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setle") },
-	[IR_ILESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setl") },
-	[IR_IGREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setge") },
-	[IR_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("sete") },
-	[IR_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP("setne") },
-	[IR_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP("setb") },
-	[IR_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP("seta") },
-	[IR_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setbe") },
-	[IR_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP("setnb") },
-	[IR_DIV] = &(struct asm_instruction [2][5]) {
+	[IR_IGREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP("setg") },
+	[IR_ILESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setle") },
+	[IR_ILESS] = &(struct asm_instruction [2][7]) { BINARY_COMP("setl") },
+	[IR_IGREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setge") },
+	[IR_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_COMP("sete") },
+	[IR_NOT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_COMP("setne") },
+	[IR_LESS] = &(struct asm_instruction [2][7]) { BINARY_COMP("setb") },
+	[IR_GREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP("seta") },
+	[IR_LESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setbe") },
+	[IR_GREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP("setnb") },
+	[IR_DIV] = &(struct asm_instruction [2][7]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}},
 	},
-	[IR_MOD] = &(struct asm_instruction [2][5]) {
+	[IR_MOD] = &(struct asm_instruction [2][7]) {
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divl", {R4_(REG_RCX)}}, {"movl", {R4_(REG_RDX), R4_(REG_RAX)}}},
 		{{"xorq", {R8_(REG_RDX), R8_(REG_RDX)}}, {"divq", {R8_(REG_RCX)}}, {"movq", {R8_(REG_RDX), R8_(REG_RAX)}}},
 	},
 
-	[IR_FLT_ADD] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("addss", "addsd") },
-	[IR_FLT_SUB] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("subss", "subsd") },
-	[IR_FLT_MUL] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("mulss", "mulsd") },
-	[IR_FLT_DIV] = &(struct asm_instruction [2][5]) { BINARY_INS_FLT("divss", "divsd") },
-	[IR_FLT_LESS] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setb") },
-	[IR_FLT_GREATER] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("seta") },
-	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setbe") },
-	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setnb") },
-	[IR_FLT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("sete") },
-	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][5]) { BINARY_COMP_FLT("setne") },
+	[IR_FLT_ADD] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("addss", "addsd") },
+	[IR_FLT_SUB] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("subss", "subsd") },
+	[IR_FLT_MUL] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("mulss", "mulsd") },
+	[IR_FLT_DIV] = &(struct asm_instruction [2][7]) { BINARY_INS_FLT("divss", "divsd") },
+	[IR_FLT_LESS] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("seta", 1, 0) },
+	[IR_FLT_GREATER] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("seta", 0, 1) },
+	[IR_FLT_LESS_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("setnb", 1, 0) },
+	[IR_FLT_GREATER_EQ] = &(struct asm_instruction [2][7]) { BINARY_COMP_FLT("setnb", 0, 1) },
+	[IR_FLT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_EQUAL_FLT("sete", "setnp", "andl") },
+	[IR_FLT_NOT_EQUAL] = &(struct asm_instruction [2][7]) { BINARY_EQUAL_FLT("setne", "setp", "orl") },
 };
 
 #endif
diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index bf22d67..d3473c2 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -213,7 +213,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 	const char *ins_str = dbg_instruction(ins);
 	asm_comment("instruction start \"%s\":", ins_str);
 
-	struct asm_instruction (*asm_entry)[2][5] = codegen_asm_table[ins->type];
+	struct asm_instruction (*asm_entry)[2][7] = codegen_asm_table[ins->type];
 	if (asm_entry) {
 		struct node *output = ins;
 		if (ins->type == IR_DIV ||
@@ -230,7 +230,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 
 		struct asm_instruction *asms = (*asm_entry)[size == 8];
 
-		for (int i = 0; i < 5 && asms[i].mnemonic; i++)
+		for (int i = 0; i < 7 && asms[i].mnemonic; i++)
 			asm_ins(&asms[i]);
 
 		reg_to_scalar(REG_RAX, output);
-- 
2.43.0


From 72c6c57ada1d8347f2962e8fe0428d867f9454d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:48 +0000
Subject: [PATCH 54/77] fix: parsing of the statement after a labeled default
 statement

---
 src/parser/function_parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 24e6055..40d1b34 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -120,6 +120,7 @@ int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 		jump_blocks->block_default = block_default;
 
 		parse_statement(jump_blocks);
+		return 1;
 	}
 	return 0;
 }
-- 
2.43.0


From 06a3c4b362af6b5abd52ee5574939698b691b041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:42 +0000
Subject: [PATCH 55/77] fix: link objects whose relocations refer to sections,
 and failing seeks in objects

---
 src/linker/elf.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/linker/elf.c b/src/linker/elf.c
index dff210f..76ef990 100644
--- a/src/linker/elf.c
+++ b/src/linker/elf.c
@@ -224,6 +224,7 @@ static struct object *object_from_elf(struct elf_file *elf) {
 	}
 
 	int *symbol_mapping = NULL;
+	size_t symbol_mapping_size = 0;
 
 	for (unsigned i = 0; i < elf->section_size; i++) {
 		struct elf_section *symtab_section = &elf->sections[i];
@@ -234,6 +235,9 @@ static struct object *object_from_elf(struct elf_file *elf) {
 		size_t ent_count = symtab_section->header.sh_size / ent_size;
 
 		symbol_mapping = cc_malloc(sizeof *symbol_mapping * ent_count);
+		symbol_mapping_size = ent_count;
+		for (unsigned j = 0; j < ent_count; j++)
+			symbol_mapping[j] = -1;
 
 		for (unsigned j = 1; j < ent_count; j++) {
 			uint8_t *symbol_data = symtab_section->data + j * ent_size;
@@ -245,7 +249,12 @@ static struct object *object_from_elf(struct elf_file *elf) {
 			uint64_t st_value = read_64(symbol_data + 8);
 			uint64_t st_size = read_64(symbol_data + 16);
 
-			if ((st_info & 0xf) != STT_NOTYPE)
+			if ((st_info & 0xf) != STT_NOTYPE && (st_info & 0xf) != STT_SECTION)
+				continue;
+
+			// Special sections, and sections that aren't loaded.
+			if (st_shndx >= elf->section_size ||
+				(st_shndx && section_mapping[st_shndx] == -1))
 				continue;
 
 			struct symbol *symbol = &ADD_ELEMENT(object.symbol_size, object.symbol_cap, object.symbols);
@@ -267,6 +276,11 @@ static struct object *object_from_elf(struct elf_file *elf) {
 		if (elf_section->header.sh_type != SHT_RELA)
 			continue;
 
+		// Relocations of sections that aren't loaded.
+		if (elf_section->header.sh_info >= elf->section_size ||
+			section_mapping[elf_section->header.sh_info] == -1)
+			continue;
+
 		struct section *target_section = &object.sections[section_mapping[elf_section->header.sh_info]];
 
 		size_t ent_size = elf_section->header.sh_entsize;
@@ -288,8 +302,9 @@ static struct object *object_from_elf(struct elf_file *elf) {
 				ICE("Relocation %lu not implemented.", r_info & 0xffffffff);
 			}
 
-			if (!symbol_mapping)
-				ICE("Invalid elf-file");
+			if (r_info >> 32 >= symbol_mapping_size ||
+				symbol_mapping[r_info >> 32] == -1)
+				ICE("Relocation against unsupported symbol.");
 
 			struct object_relocation *relocation =
 				&ADD_ELEMENT(target_section->relocation_size, target_section->relocation_cap, target_section->relocations);
@@ -547,7 +562,8 @@ static void read_zero(FILE *fp, size_t size) {
 }
 
 static void read_skip(FILE *fp, unsigned long pos) {
-	fseek(fp, pos, SEEK_SET);
+	if (fseek(fp, pos, SEEK_SET) != 0)
+		ICE("Could not seek in file");
 }
 
 static const uint8_t magic[4] = {0x7f, 0x45, 0x4c, 0x46};
-- 
2.43.0


From 83e83cbbcfa340599b7afe6667858f541fe7b4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:29 +0000
Subject: [PATCH 56/77] fix: quote special characters of the paths in
 dependency files

---
 src/main.c                      |  2 +-
 src/preprocessor/directives.c   | 32 ++++++++++++++++++++++++++++----
 src/preprocessor/directives.h   |  2 +-
 src/preprocessor/preprocessor.c |  4 ++--
 src/preprocessor/preprocessor.h |  2 +-
 5 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index 7df5c40..c31bfe5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -217,7 +217,7 @@ static void compile_file(const char *path,
 			mf_path = dependency_path_from_outfile(outfile);
 		}
 
-		preprocessor_finish_writing_dependencies(mt_path, mf_path);
+		preprocessor_finish_writing_dependencies(mt_path, !arguments->mt_path, mf_path);
 	}
 
 	// TODO: The compiler currently relies too heavily on global state.
diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index b5f215b..b92d8f6 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -41,14 +41,38 @@ void directiver_write_dependencies(void) {
 	write_dependencies = 1;
 }
 
-void directiver_finish_writing_dependencies(const char *mt, const char *mf) {
+// Quotes a path the way make expects it.
+static void write_dependency(FILE *fp, const char *path) {
+	int backslashes = 0;
+	for (int i = 0; path[i]; i++) {
+		if (path[i] == ' ' || path[i] == '\t') {
+			// Backslashes are only special in front of white space.
+			for (int j = 0; j < backslashes + 1; j++)
+				fprintf(fp, "\\");
+		} else if (path[i] == '#') {
+			fprintf(fp, "\\");
+		} else if (path[i] == '$') {
+			fprintf(fp, "$");
+		}
+		fprintf(fp, "%c", path[i]);
+		backslashes = path[i] == '\\' ? backslashes + 1 : 0;
+	}
+}
+
+void directiver_finish_writing_dependencies(const char *mt, int quote_mt, const char *mf) {
 	write_dependencies = 1;
 
 	FILE *fp = output_open(mf, "w");
 
-	fprintf(fp, "%s:", mt);
-	for (unsigned i = 0; i < dep_size; i++)
-		fprintf(fp, " %s", deps[i]);
+	if (quote_mt)
+		write_dependency(fp, mt);
+	else
+		fprintf(fp, "%s", mt);
+	fprintf(fp, ":");
+	for (unsigned i = 0; i < dep_size; i++) {
+		fprintf(fp, " ");
+		write_dependency(fp, deps[i]);
+	}
 	fprintf(fp, "\n");
 
 	output_close(fp);
diff --git a/src/preprocessor/directives.h b/src/preprocessor/directives.h
index de65cd9..c9d6b0d 100644
--- a/src/preprocessor/directives.h
+++ b/src/preprocessor/directives.h
@@ -8,6 +8,6 @@ void directiver_push_input(const char *path, int system);
 void directiver_reset(void);
 
 void directiver_write_dependencies(void);
-void directiver_finish_writing_dependencies(const char *mt, const char *mf);
+void directiver_finish_writing_dependencies(const char *mt, int quote_mt, const char *mf);
 
 #endif
diff --git a/src/preprocessor/preprocessor.c b/src/preprocessor/preprocessor.c
index 3153578..5f1d863 100644
--- a/src/preprocessor/preprocessor.c
+++ b/src/preprocessor/preprocessor.c
@@ -54,6 +54,6 @@ void preprocessor_write_dependencies(void) {
 	directiver_write_dependencies();
 }
 
-void preprocessor_finish_writing_dependencies(const char *mt, const char *mf) {
-	directiver_finish_writing_dependencies(mt, mf);
+void preprocessor_finish_writing_dependencies(const char *mt, int quote_mt, const char *mf) {
+	directiver_finish_writing_dependencies(mt, quote_mt, mf);
 }
diff --git a/src/preprocessor/preprocessor.h b/src/preprocessor/preprocessor.h
index b856cef..31e943c 100644
--- a/src/preprocessor/preprocessor.h
+++ b/src/preprocessor/preprocessor.h
@@ -61,6 +61,6 @@ void define_string(char *name, char *value); // Defined in macro_expander.c
 void define_remove(const char *name);
 
 void preprocessor_write_dependencies(void);
-void preprocessor_finish_writing_dependencies(const char *mt, const char *mf);
+void preprocessor_finish_writing_dependencies(const char *mt, int quote_mt, const char *mf);
 
 #endif
-- 
2.43.0


From 38c3ea60eae9606da4a595c2bf00f32e36be9630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:54 +0000
Subject: [PATCH 57/77] fix: write the dependency file when only preprocessing

---
 src/main.c | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/main.c b/src/main.c
index c31bfe5..0c4e066 100644
--- a/src/main.c
+++ b/src/main.c
@@ -122,6 +122,24 @@ static void set_flags(struct arguments *arguments) {
 static size_t object_size, object_cap;
 static struct object *objects;
 
+static void write_dependency_file(const char *outfile,
+								  struct arguments *arguments) {
+	const char *mt_path = NULL;
+	if (arguments->mt_path)
+		mt_path = arguments->mt_path;
+	else
+		mt_path = outfile;
+
+	const char *mf_path = NULL;
+	if (arguments->mf_path) {
+		mf_path = arguments->mf_path;
+	} else {
+		mf_path = dependency_path_from_outfile(outfile);
+	}
+
+	preprocessor_finish_writing_dependencies(mt_path, !arguments->mt_path, mf_path);
+}
+
 static void compile_file(const char *path,
 						 struct arguments *arguments) {
 	struct string_view basename = get_basename(path);
@@ -203,22 +221,8 @@ static void compile_file(const char *path,
 		ADD_ELEMENT(object_size, object_cap, objects) = out_object;
 	}
 
-	if (arguments->flag_MD) {
-		const char *mt_path = NULL;
-		if (arguments->mt_path)
-			mt_path = arguments->mt_path;
-		else
-			mt_path = outfile;
-
-		const char *mf_path = NULL;
-		if (arguments->mf_path) {
-			mf_path = arguments->mf_path;
-		} else {
-			mf_path = dependency_path_from_outfile(outfile);
-		}
-
-		preprocessor_finish_writing_dependencies(mt_path, !arguments->mt_path, mf_path);
-	}
+	if (arguments->flag_MD)
+		write_dependency_file(outfile, arguments);
 
 	// TODO: The compiler currently relies too heavily on global state.
 	preprocessor_reset();
@@ -278,6 +282,11 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 		t_next();
 	}
 
+	if (arguments->flag_MD) {
+		struct string_view basename = get_basename(path);
+		write_dependency_file(allocate_printf("%.*s.o", basename.len - 2, basename.str), arguments);
+	}
+
 	preprocessor_reset();
 	ir_reset();
 	asm_reset();
-- 
2.43.0


From acad42a72939bee913da80344f8426ac19fe03f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:39 +0000
Subject: [PATCH 58/77] fix: write preprocessed text to the file -o names

---
 src/main.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0c4e066..8a0f2e1 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1,6 +1,7 @@
 #include "ir/ir.h"
 #include "ir/export_dot.h"
 #include "preprocessor/preprocessor.h"
+#include "preprocessor/token_list.h"
 #include "parser/parser.h"
 #include "parser/symbols.h"
 #include "codegen/codegen.h"
@@ -268,20 +269,34 @@ static void preprocess_file(const char *path, struct arguments *arguments) {
 
 	preprocessor_init(path);
 
-	while (T0->type != T_EOI) {
-		if (T0->first_of_line)
-			printf("\n");
-		else if (T0->whitespace)
-			printf(" ");
+	// Nothing is written unless the whole file could be preprocessed.
+	struct token_list tokens = { 0 };
+	for (; T0->type != T_EOI; t_next())
+		token_list_add(&tokens, *T0);
 
-		printf("%s", dbg_token(T0));
+	FILE *fp = stdout;
+	if (arguments->outfile)
+		fp = output_open(arguments->outfile, "w");
 
-		if (T0->whitespace_after)
-			printf(" ");
+	for (int i = 0; i < tokens.size; i++) {
+		struct token *t = &tokens.list[i];
 
-		t_next();
+		if (t->first_of_line)
+			fprintf(fp, "\n");
+		else if (t->whitespace)
+			fprintf(fp, " ");
+
+		fprintf(fp, "%s", dbg_token(t));
+
+		if (t->whitespace_after)
+			fprintf(fp, " ");
 	}
 
+	token_list_free(&tokens);
+
+	if (arguments->outfile)
+		output_close(fp);
+
 	if (arguments->flag_MD) {
 		struct string_view basename = get_basename(path);
 		write_dependency_file(allocate_printf("%.*s.o", basename.len - 2, basename.str), arguments);
@@ -310,7 +325,7 @@ int main(int argc, char **argv) {
 		NOTIMP();
 
 	if (arguments.n_operand != 1 && arguments.outfile &&
-		(arguments.flag_S || arguments.flag_c)) {
+		(arguments.flag_S || arguments.flag_c || arguments.flag_E)) {
 		ERROR_NO_POS("Can't have multiple input files with -o.");
 	}
 
-- 
2.43.0


From 8ed3a30bbdaefb97d29e9191d8bed4526539efe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:10 +0000
Subject: [PATCH 59/77] fix: a search path leading through a file hid the
 headers after it

---
 src/preprocessor/input.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 64bd3a0..0ca2d31 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -37,7 +37,8 @@ static int length_of_path_without_filename(const char *str) {
 
 static FILE *try_open_file(const char *path) {
 	FILE *fp = fopen(path, "r");
-	if (!fp && errno != ENOENT) {
+	// A path that leads through a file does not exist either.
+	if (!fp && errno != ENOENT && errno != ENOTDIR) {
 		char *str = strerror(errno);
 		ICE("Error opening file %s, %s", path, str);
 	}
-- 
2.43.0


From 903ee7e691b86d47c0bd0da8e9955501ad9ade2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:50 +0000
Subject: [PATCH 60/77] fix: headers included by absolute path

---
 src/preprocessor/input.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/preprocessor/input.c b/src/preprocessor/input.c
index 0ca2d31..f0e97cb 100644
--- a/src/preprocessor/input.c
+++ b/src/preprocessor/input.c
@@ -66,15 +66,18 @@ struct input input_open(const char *parent_path, const char *path, int system) {
 	static char *path_buffer = NULL;
 	static size_t path_capacity = 0;
 
-	if (!system) {
-		int length = length_of_path_without_filename(parent_path);
+	// There is nothing to search for when the path is absolute.
+	int absolute = path[0] == '/';
+
+	if (!system || absolute) {
+		int length = absolute ? 0 : length_of_path_without_filename(parent_path);
 
 		expand_printf(&path_buffer, &path_capacity, "%.*s%s", length,
 		              parent_path, path);
 		fp = try_open_file(path_buffer);
 	}
 
-	for (unsigned i = 0; !fp && i < paths_size; i++) {
+	for (unsigned i = 0; !fp && !absolute && i < paths_size; i++) {
 		expand_printf(&path_buffer, &path_capacity, "%s/%s", paths[i], path);
 		fp = try_open_file(path_buffer);
 	}
-- 
2.43.0


From 96beb966d2f8d7efb4531e48797142fafd8edf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:25 +0000
Subject: [PATCH 61/77] fix: reject calls of things that are not functions

---
 src/parser/expression.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression.c b/src/parser/expression.c
index d76db1b..10f5b88 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -431,7 +431,10 @@ struct expr *expr_new(struct expr expr) {
 	}
 
 	if (expr.type == E_CALL) {
-		assert(type_is_pointer(expr.call.callee->data_type));
+		struct type *callee_type = expr.call.callee->data_type;
+		if (!type_is_pointer(callee_type) ||
+			type_deref(callee_type)->type != TY_FUNCTION)
+			ERROR(T0->pos, "Calling something that is not a function.");
 		struct type *signature = type_deref(expr.call.callee->data_type);
 
 		int named_arguments_count = signature->n - 1;
-- 
2.43.0


From 281bfa3435d91273e051878dea200a276ddfdf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:25 +0000
Subject: [PATCH 62/77] fix: reject assignments to things that are not lvalues

---
 src/parser/expression_to_ir.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 5ae5996..13ae13a 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -534,7 +534,8 @@ static struct evaluated_expression evaluate_assignment(struct expr *expr) {
 
 	rhs = evaluated_expression_cast(&rhs, expr->args[0]->data_type);
 
-	assert(lhs.is_lvalue);
+	if (!lhs.is_lvalue)
+		ERROR(expr->pos, "Left side of assignment is not an lvalue.");
 
 	// The value of the assignment might be used, but rhs is only read once.
 	if (is_scalar_in_memory(&rhs) || lhs.type == EE_BITFIELD_POINTER) {
-- 
2.43.0


From 12db680e78a126dfa5a425a06e31d71c11986b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:25 +0000
Subject: [PATCH 63/77] fix: reject members of basic type without a name

---
 src/parser/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 955529b..f4c41e1 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -421,7 +421,7 @@ int parse_struct(struct type_specifiers *ts) {
 			TEXPECT(T_SEMI_COLON);
 
 			if (!found_one) {
-				if (s.ts.data_type->type == TY_STRUCT) {
+				if (s.ts.data_type && s.ts.data_type->type == TY_STRUCT) {
 					ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 						.type = s.ts.data_type,
 						.name = { 0 },
-- 
2.43.0


From f4b85a5eb3158ae4a3bb5c3c1e45eab3113d6bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:25 +0000
Subject: [PATCH 64/77] fix: endless recursion on an initializer followed by a
 brace

---
 src/parser/declaration.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index f4c41e1..928a866 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1150,7 +1150,7 @@ void parse_initializer_recursive(struct type **type, struct initializer *init, s
 			ERROR(T0->pos, "Expected expression in initializer to %s got %s.", dbg_type(*type), dbg_token(T0));
 	}
 
-	if (is_aggregate && inside_brace && T0->type != T_LBRACE &&
+	if (is_aggregate && inside_brace && (expr || T0->type != T_LBRACE) &&
 		!is_str && expr->data_type != *type) {
 		// TODO: This seems a bit hacky.
 		parse_brace_initializer(type, init, current_idx, 1, expr);
-- 
2.43.0


From 1923f65f079390c0c97d6ea5f55adf2d27c64c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:30 +0000
Subject: [PATCH 65/77] fix: variables used in their own initializer

---
 src/parser/declaration.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 928a866..e5160f6 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1385,17 +1385,18 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 					ERROR(T0->pos, "Variable length array can't have initializer");
 			} else {
 				symbol->type = IDENT_VARIABLE;
-				struct node *ptr;
 				symbol->variable.type = type;
 				if (has_init) {
+					// The initializer can refer to the variable, before its size is known.
+					struct node *ptr = ir_allocate(0, symbol->alignment);
+					symbol->variable.ptr = ptr;
 					struct initializer init = parse_initializer(&type);
 					symbol->variable.type = type;
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					ptr->alloc.size = calculate_size(type);
 					ir_init_ptr(&init, type, ptr);
 				} else {
-					ptr = ir_allocate(calculate_size(type), symbol->alignment);
+					symbol->variable.ptr = ir_allocate(calculate_size(type), symbol->alignment);
 				}
-				symbol->variable.ptr = ptr;
 			}
 		}
 	} else {
-- 
2.43.0


From 780fca867450b4014728513db387d46cec5f41a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:57 +0000
Subject: [PATCH 66/77] fix: crash on an include without a file name

---
 src/preprocessor/directives.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/preprocessor/directives.c b/src/preprocessor/directives.c
index b92d8f6..1457855 100644
--- a/src/preprocessor/directives.c
+++ b/src/preprocessor/directives.c
@@ -604,6 +604,9 @@ struct token directiver_next(void) {
 					path = get_include_path(directive, path_tok, &system);
 				}
 
+				if (path.len == 0)
+					ERROR(directive.pos, "Empty file name in #include.");
+
 				push_input(parent_path, sv_to_str(path), system);
 			} else if (sv_string_cmp(name, "endif")) {
 				// Do nothing.
-- 
2.43.0


From 8d01831bb832f481c99827ca2a6cd8a87c5e2757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:57 +0000
Subject: [PATCH 67/77] fix: reject arrays, functions, members and variables of
 impossible types

---
 src/parser/declaration.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index e5160f6..d49e4c1 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -409,6 +409,9 @@ int parse_struct(struct type_specifiers *ts) {
 					break;
 				}
 
+				if (type->type == TY_FUNCTION || type_is_simple(type, ST_VOID))
+					ERROR(T0->pos, "Member can't have type %s.", dbg_type(type));
+
 				ADD_ELEMENT(fields_size, fields_cap, fields) = (struct field) {
 					.type = type,
 					.name = name,
@@ -646,12 +649,19 @@ struct type *ast_to_type(const struct type_specifiers *ts, const struct type_qua
 				parameters[i + 1] = ast->function.types[i];
 			parameters[0] = type;
 
+			if (type->type == TY_FUNCTION || type->type == TY_ARRAY ||
+				type->type == TY_INCOMPLETE_ARRAY)
+				ERROR(ast->pos, "Function can't return %s.", dbg_type(type));
+
 			type = type_create(&params, parameters);
 
 			ast = ast->parent;
 		} break;
 
 		case TAST_ARRAY: {
+			if (type->type == TY_FUNCTION || type_is_simple(type, ST_VOID))
+				ERROR(ast->pos, "Array can't have elements of type %s.", dbg_type(type));
+
 			switch (ast->array.type) {
 			case ARR_EMPTY: {
 				struct type params = {
@@ -1306,6 +1316,9 @@ static int parse_init_declarator(struct specifiers s, int external, int *was_fun
 		return 1;
 	}
 
+	if (!s.scs.extern_n && type_is_simple(type, ST_VOID))
+		ERROR(T0->pos, "Variable can't have type void.");
+
 	int definition_is_static = 0;
 	int has_definition = 0;
 	int is_global = 0;
-- 
2.43.0


From 9698705d31e0f9a05aea8cf8ddf0054090e12cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:57 +0000
Subject: [PATCH 68/77] fix: crash on array designators that are out of range

---
 src/parser/declaration.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index d49e4c1..79147f7 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -12,6 +12,7 @@
 #include <abi/abi.h>
 
 #include <assert.h>
+#include <limits.h>
 #include <stdint.h>
 
 // Returns previous state of the bit.
@@ -1036,6 +1037,9 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 
 				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
 
+				if (c->uint_d > INT_MAX)
+					ERROR(T0->pos, "Array designator out of range.");
+
 				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
 				current_type = type_select(current_type, c->uint_d);
 			} else if (T0->type == T_DOT) {
-- 
2.43.0


From ee466cc4d28fd39ee5a1a48e08cd46e2c96b551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:48 +0000
Subject: [PATCH 69/77] fix: cases inside loops and continue inside switches

---
 src/parser/function_parser.c | 43 +++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 40d1b34..0a9c5df 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -47,6 +47,25 @@ int parse_selection_statement(struct jump_blocks *jump_blocks);
 int parse_iteration_statement(struct jump_blocks *jump_blocks);
 int parse_jump_statement(struct jump_blocks *jump_blocks);
 
+// Parses the body of a loop. Cases in it belong to the enclosing switch.
+// Returns the block that the end of the body should jump to.
+static struct node *parse_loop_body(struct jump_blocks *jump_blocks,
+									struct node *block_break,
+									struct node *block_continue) {
+	struct node *outer_break = jump_blocks->block_break,
+		*outer_continue = jump_blocks->block_continue;
+
+	jump_blocks->block_break = block_break;
+	jump_blocks->block_continue = block_continue;
+	parse_statement(jump_blocks);
+	block_continue = jump_blocks->block_continue;
+
+	jump_blocks->block_break = outer_break;
+	jump_blocks->block_continue = outer_continue;
+
+	return block_continue;
+}
+
 int parse_labeled_statement(struct jump_blocks *jump_blocks) {
 	if (T0->type == T_IDENT &&
 		T1->type == T_COLON) {
@@ -194,6 +213,9 @@ static int parse_switch(struct jump_blocks *jump_blocks) {
 
 	ir_block_start(block_end);
 
+	// A switch is not a loop, continue in it belongs to the enclosing one.
+	jump_blocks->block_continue = new_jump_blocks.block_continue;
+
 	return 1;
 }
 
@@ -251,12 +273,7 @@ static int parse_do_while_statement(struct jump_blocks *jump_blocks) {
 	ir_goto(block_body);
 	ir_block_start(block_body);
 
-	struct jump_blocks new_jump_blocks = *jump_blocks;
-	new_jump_blocks.block_break = block_end;
-	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
-
-	ir_goto(block_control);
+	ir_goto(parse_loop_body(jump_blocks, block_end, block_control));
 	ir_block_start(block_control);
 
 	TEXPECT(T_KWHILE);
@@ -320,12 +337,7 @@ static int parse_while_statement(struct jump_blocks *jump_blocks) {
 
 	ir_block_start(block_body);
 
-	struct jump_blocks new_jump_blocks = *jump_blocks;
-	new_jump_blocks.block_break = block_end;
-	new_jump_blocks.block_continue = block_control;
-	parse_statement(&new_jump_blocks);
-
-	ir_goto(new_jump_blocks.block_continue);
+	ir_goto(parse_loop_body(jump_blocks, block_end, block_control));
 
 	ir_block_start(block_end);
 
@@ -400,12 +412,7 @@ static int parse_for_statement(struct jump_blocks *jump_blocks) {
 
 	TEXPECT(T_RPAR);
 
-	struct jump_blocks new_jump_blocks = *jump_blocks;
-	new_jump_blocks.block_break = block_end;
-	new_jump_blocks.block_continue = block_advance;
-	parse_statement(&new_jump_blocks);
-
-	ir_goto(block_advance);
+	ir_goto(parse_loop_body(jump_blocks, block_end, block_advance));
 	ir_block_start(block_end);
 
 	symbols_pop_scope();
-- 
2.43.0


From b49da980c75cf56b055319c698837eb514087527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:48 +0000
Subject: [PATCH 70/77] fix: hexadecimal escape sequences

---
 src/escape_sequence.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/escape_sequence.c b/src/escape_sequence.c
index 48ebb22..dc9911f 100644
--- a/src/escape_sequence.c
+++ b/src/escape_sequence.c
@@ -25,7 +25,7 @@ int escape_sequence_read(uint32_t *out, const char **start, int n) {
 		s++;
 		uint32_t result = 0;
 		for (int i = 0; i < n && is_hexadecimal(*s); i++, s++) {
-			result *= 8;
+			result *= 16;
 			result += char_to_int(*s);
 		}
 		*out = result;
-- 
2.43.0


From b51d59e24c5357aeda6cec94fb3397b6815eecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:27 +0000
Subject: [PATCH 71/77] fix: addresses in static initializers and objects at
 fixed addresses

---
 src/codegen/rodata.c          |   2 +
 src/parser/expression.c       | 133 +++++++++++++++++++++++++---------
 src/parser/expression_to_ir.c |  10 ++-
 3 files changed, 108 insertions(+), 37 deletions(-)

diff --git a/src/codegen/rodata.c b/src/codegen/rodata.c
index cf98191..2ffe983 100644
--- a/src/codegen/rodata.c
+++ b/src/codegen/rodata.c
@@ -147,6 +147,8 @@ static void codegen_initializer_recursive(struct initializer *init, struct type
 										  -1, -1,
 										  buffer, labels, label_offsets,
 										  is_label);
+		} else {
+			ERROR(init->expr->pos, "Initializer of object with static storage duration is not constant.");
 		}
 	} break;
 	case INIT_BRACE:
diff --git a/src/parser/expression.c b/src/parser/expression.c
index 10f5b88..efae0d7 100644
--- a/src/parser/expression.c
+++ b/src/parser/expression.c
@@ -401,6 +401,12 @@ static struct expr *expr_dot_operator(struct expr *lhs, struct token *name) {
 	return lhs;
 }
 
+// Constants which are only useful as parts of other constants.
+static int is_only_address_constant(struct constant *c) {
+	return (c->type == CONSTANT_LABEL && c->label.label == -1) ||
+		(c->type == CONSTANT_LABEL_POINTER && !type_is_pointer(c->data_type));
+}
+
 struct expr *expr_new(struct expr expr) {
 	for (int i = 0; i < num_args[expr.type]; i++) {
 		if (!expr.args[i])
@@ -457,7 +463,8 @@ struct expr *expr_new(struct expr expr) {
 
 	if (expr.type != E_CONSTANT) {
 		struct constant c;
-		if (evaluate_constant_expression(&expr, &c)) {
+		if (evaluate_constant_expression(&expr, &c) &&
+			!is_only_address_constant(&c)) {
 			return expr_new((struct expr) {
 					.type = E_CONSTANT,
 					.constant = c
@@ -906,6 +913,21 @@ struct expr *parse_expression(void) {
 }
 
 // Constant expressions.
+
+// The label -1 stands for address zero.
+static struct constant address_of_constant(struct constant operand, struct type *type) {
+	if (operand.label.label == -1)
+		return (struct constant) {
+			.type = CONSTANT_TYPE,
+			.data_type = type,
+			.uint_d = operand.label.offset
+		};
+
+	operand.type = CONSTANT_LABEL_POINTER;
+	operand.data_type = type;
+	return operand;
+}
+
 int evaluate_constant_expression(struct expr *expr,
 								 struct constant *constant) {
 	switch (expr->type) {
@@ -919,16 +941,20 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 		if (rhs.type == CONSTANT_LABEL)
 			return 0;
-		if (type_is_pointer(rhs.data_type) &&
-			!type_is_pointer(expr->cast.target)) {
-			if (rhs.type == CONSTANT_LABEL_POINTER &&
-				rhs.label.label == -1) {
-				constant->type = CONSTANT_TYPE;
-				constant->data_type = expr->cast.target;
-				constant->uint_d = rhs.label.offset;
-			} else {
+		if (rhs.type == CONSTANT_LABEL_POINTER) {
+			// Addresses can only be converted to types that fit all of them.
+			struct type *target = expr->cast.target;
+			if (!type_is_pointer(target) &&
+				!(type_is_integer(target) && calculate_size(target) == 8))
 				return 0;
-			}
+			*constant = rhs;
+			constant->data_type = target;
+		} else if (type_is_pointer(rhs.data_type) &&
+				   !type_is_pointer(expr->cast.target)) {
+			if (expr->cast.target->type != TY_SIMPLE)
+				return 0;
+			rhs.data_type = type_simple(abi_info.size_type);
+			*constant = constant_cast(rhs, expr->cast.target);
 		} else {
 			*constant = constant_cast(rhs, expr->cast.target);
 		}
@@ -945,17 +971,20 @@ int evaluate_constant_expression(struct expr *expr,
 		if (lhs.type == CONSTANT_LABEL)
 			return 0;
 
-		if (lhs.type == CONSTANT_LABEL_POINTER &&
-			type_is_simple(rhs.data_type, ST_INT) &&
-			rhs.type == CONSTANT_TYPE) {
-			*constant = lhs;
-			int size = calculate_size(type_deref(lhs.data_type));
+		if (type_is_pointer(lhs.data_type) &&
+			!type_has_variable_size(type_deref(lhs.data_type)) &&
+			rhs.type == CONSTANT_TYPE && type_is_integer(rhs.data_type)) {
+			int64_t change = calculate_size(type_deref(lhs.data_type)) *
+				constant_to_u64(rhs);
 
-			if (expr->type == E_POINTER_ADD) {
-				constant->label.offset += rhs.int_d * size;
-			} else if (expr->type == E_POINTER_SUB) {
-				constant->label.offset -= rhs.int_d * size;
-			}
+			if (expr->type == E_POINTER_SUB)
+				change = -change;
+
+			*constant = lhs;
+			if (lhs.type == CONSTANT_LABEL_POINTER)
+				constant->label.offset += change;
+			else
+				constant->uint_d += change;
 
 			return 1;
 		}
@@ -963,6 +992,38 @@ int evaluate_constant_expression(struct expr *expr,
 		return 0;
 	} break;
 
+	case E_POINTER_DIFF: {
+		struct constant lhs, rhs;
+		if (!evaluate_constant_expression(expr->args[0], &lhs))
+			return 0;
+		if (!evaluate_constant_expression(expr->args[1], &rhs))
+			return 0;
+
+		if (!type_is_pointer(lhs.data_type) || !type_is_pointer(rhs.data_type) ||
+			type_has_variable_size(type_deref(lhs.data_type)))
+			return 0;
+
+		int64_t difference;
+		if (lhs.type == CONSTANT_TYPE && rhs.type == CONSTANT_TYPE)
+			difference = lhs.uint_d - rhs.uint_d;
+		else if (lhs.type == CONSTANT_LABEL_POINTER &&
+				 rhs.type == CONSTANT_LABEL_POINTER &&
+				 lhs.label.label == rhs.label.label)
+			difference = lhs.label.offset - rhs.label.offset;
+		else
+			return 0;
+
+		int size = calculate_size(type_deref(lhs.data_type));
+		if (size == 0)
+			return 0;
+
+		*constant = (struct constant) {
+			.type = CONSTANT_TYPE,
+			.data_type = expr->data_type,
+			.int_d = difference / size
+		};
+	} break;
+
 	case E_DOT_OPERATOR: {
 		struct constant lhs;
 		if (!evaluate_constant_expression(expr->member.lhs, &lhs))
@@ -1009,16 +1070,14 @@ int evaluate_constant_expression(struct expr *expr,
 	} break;
 
 	case E_ARRAY_PTR_DECAY: {
-		if (expr->args[0]->type != E_CONSTANT)
+		struct constant operand;
+		if (!evaluate_constant_expression(expr->args[0], &operand))
 			return 0;
 
-		struct constant c = expr->args[0]->constant;
-
-		assert(c.type == CONSTANT_LABEL);
+		if (operand.type != CONSTANT_LABEL)
+			return 0;
 
-		*constant = c;
-		constant->type = CONSTANT_LABEL_POINTER;
-		constant->data_type = type_pointer(expr->args[0]->data_type->children[0]);
+		*constant = address_of_constant(operand, type_pointer(expr->args[0]->data_type->children[0]));
 	} break;
 
 	case E_CONDITIONAL: {
@@ -1030,12 +1089,13 @@ int evaluate_constant_expression(struct expr *expr,
 		if (!evaluate_constant_expression(expr->args[2], &rhs))
 			return 0;
 
-		if (lhs.type != CONSTANT_TYPE ||
-			mid.type != CONSTANT_TYPE ||
-			rhs.type != CONSTANT_TYPE)
+		if (lhs.type == CONSTANT_LABEL ||
+			mid.type == CONSTANT_LABEL ||
+			rhs.type == CONSTANT_LABEL)
 			return 0;
 
-		if (constant_is_zero(&lhs)) {
+		// The address of an object is never zero.
+		if (lhs.type == CONSTANT_TYPE && constant_is_zero(&lhs)) {
 			*constant = rhs;
 		} else {
 			*constant = mid;
@@ -1048,9 +1108,7 @@ int evaluate_constant_expression(struct expr *expr,
 			return 0;
 
 		if (operand.type == CONSTANT_LABEL) {
-			*constant = operand;
-			constant->type = CONSTANT_LABEL_POINTER;
-			constant->data_type = expr->data_type;
+			*constant = address_of_constant(operand, expr->data_type);
 		} else {
 			return 0;
 		}
@@ -1065,6 +1123,13 @@ int evaluate_constant_expression(struct expr *expr,
 			*constant = operand;
 			constant->type = CONSTANT_LABEL;
 			constant->data_type = expr->data_type;
+		} else if (operand.type == CONSTANT_TYPE && type_is_pointer(operand.data_type)) {
+			// An object at a fixed address, it can't be read but its address is known.
+			*constant = (struct constant) {
+				.type = CONSTANT_LABEL,
+				.data_type = expr->data_type,
+				.label = { -1, operand.uint_d }
+			};
 		} else {
 			return 0;
 		}
diff --git a/src/parser/expression_to_ir.c b/src/parser/expression_to_ir.c
index 13ae13a..24e6cb2 100644
--- a/src/parser/expression_to_ir.c
+++ b/src/parser/expression_to_ir.c
@@ -255,9 +255,13 @@ static struct evaluated_expression evaluate_indirection(struct expr *expr) {
 		};
 	}
 
-	case EE_CONSTANT: // For example &((type *)0)->member)
-		if (rhs.constant.type == CONSTANT_TYPE) {
-			rhs.constant.type = CONSTANT_TYPE_POINTER;
+	case EE_CONSTANT:
+		if (rhs.constant.type == CONSTANT_TYPE) { // An object at a fixed address.
+			return (struct evaluated_expression) {
+				.type = EE_POINTER,
+				.is_lvalue = 1,
+				.pointer = ir_constant(rhs.constant)
+			};
 		}
 
 		return (struct evaluated_expression) {
-- 
2.43.0


From 1d84d023dfc77443d47bfad336086351a4899302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:33 +0000
Subject: [PATCH 72/77] fix: initializers overriding earlier ones and after
 designated members of members

---
 src/parser/declaration.c | 76 +++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 21 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 79147f7..3a9f108 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -927,15 +927,43 @@ struct type_ast *parse_declarator(int *was_abstract, int *has_symbols) {
 	return ast;
 }
 
-static struct initializer *initializer_add_entry(struct initializer *init, int index) {
+static struct initializer *initializer_add_entry(struct type *type, struct initializer *init, int index) {
 	assert(init->type == INIT_BRACE);
 
+	// Only the member that was initialized last counts.
+	if (type->type == TY_STRUCT && type->struct_data->is_union) {
+		for (int i = 0; i < init->brace.size; i++) {
+			if (i != index)
+				init->brace.entries[i] = (struct initializer) { .type = INIT_EMPTY };
+		}
+	}
+
 	while (init->brace.size <= index)
 		ADD_ELEMENT(init->brace.size, init->brace.cap, init->brace.entries) = (struct initializer) { .type = INIT_EMPTY };
 
 	return init->brace.entries + index;
 }
 
+// Turns a string into its characters, so that some of them can be overridden.
+static void initializer_split_string(struct type *type, struct initializer *init) {
+	struct string_view str = init->string;
+	int char_size = calculate_size(type->children[0]);
+	int length = str.len / char_size;
+	if (type->type == TY_ARRAY)
+		length = MIN(length, (int)type->array.length);
+
+	*init = (struct initializer) { .type = INIT_BRACE };
+	for (int i = 0; i < length; i++) {
+		unsigned c = 0;
+		for (int j = 0; j < char_size; j++)
+			c |= (unsigned)(unsigned char)str.str[i * char_size + j] << (8 * j);
+
+		struct initializer *entry = initializer_add_entry(type, init, i);
+		entry->type = INIT_EXPRESSION;
+		entry->expr = expression_cast(EXPR_INT(c), type->children[0]);
+	}
+}
+
 static int is_string_type(ttype token_type) {
 	return token_type == T_STRING || token_type == T_STRING_WCHAR ||
 		token_type == T_STRING_CHAR16 || token_type == T_STRING_CHAR32;
@@ -986,30 +1014,29 @@ static int match_string(struct type **type, struct initializer *init, struct tok
 void parse_initializer_recursive(struct type **type, struct initializer *init, struct expr *expr,
 								 int inside_brace, int n, int *indices);
 
+// The number of members that can be initialized in order, -1 if it is unlimited.
+static int max_initializers(struct type *type) {
+	switch (type->type) {
+	case TY_ARRAY:
+		return type->array.length;
+	case TY_INCOMPLETE_ARRAY:
+		return -1;
+	case TY_STRUCT:
+		return type->struct_data->is_union ? 1 : type->struct_data->n;
+	default: ICE("Invalid top type");
+	}
+}
+
 static void parse_brace_initializer(struct type **type, struct initializer *init, int idx,
 									int inside_brace, struct expr *expr) {
-	if (init->type == INIT_EMPTY)
+	// This overrides what was initialized earlier, unless only a part is initialized.
+	if (init->type != INIT_BRACE || !inside_brace)
 		*init = (struct initializer) { .type = INIT_BRACE };
 
 	if (!inside_brace)
 		TEXPECT(T_LBRACE);
 
-	int max_members = -1;
-	switch ((*type)->type) {
-	case TY_ARRAY:
-		max_members = (*type)->array.length;
-		break;
-	case TY_INCOMPLETE_ARRAY:
-		max_members = -1;
-		break;
-	case TY_STRUCT:
-		max_members = (*type)->struct_data->n;
-		if ((*type)->struct_data->is_union)
-			max_members = 1;
-		// Advance until end of struct, or reaching a different offset.
-		break;
-	default: ICE("Invalid top type");
-	}
+	int max_members = max_initializers(*type);
 
 	if (max_members != -1 && inside_brace && idx >= max_members)
 		return;
@@ -1081,7 +1108,7 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 
 		struct type *child_type = type_select(*type, idx);
 		parse_initializer_recursive(&child_type,
-									initializer_add_entry(init, idx), expr, designator_size < 1, pass_n, pass_designators);
+									initializer_add_entry(*type, init, idx), expr, designator_size < 1, pass_n, pass_designators);
 		expr = NULL;
 
 		if (T0->type == T_LBRACK || T0->type == T_DOT)
@@ -1113,12 +1140,19 @@ void parse_initializer_recursive(struct type **type, struct initializer *init, s
 	if (n > 0) {
 		current_idx = indices[0];
 		struct type *selected = type_select(*type, current_idx);
-		if (init->type == INIT_EMPTY)
+		if (init->type == INIT_STRING)
+			initializer_split_string(*type, init);
+		else if (init->type != INIT_BRACE)
 			*init = (struct initializer) { .type = INIT_BRACE };
-		struct initializer *next_init = initializer_add_entry(init, current_idx);
+		struct initializer *next_init = initializer_add_entry(*type, init, current_idx);
 
 		parse_initializer_recursive(&selected, next_init, expr, inside_brace, n - 1, indices + 1);
 
+		// What follows the last member belongs to the surrounding object.
+		int max_members = max_initializers(*type);
+		if (max_members != -1 && current_idx + 1 >= max_members)
+			return;
+
 		if (!TACCEPT(T_COMMA))
 			return;
 
-- 
2.43.0


From e522beb27de54df9cdb11ad6f8fafc5fea70fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:13 +0000
Subject: [PATCH 73/77] fix: strings that fill their arrays were written past
 the end

---
 src/parser/declaration.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 3a9f108..9a42b8f 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -991,6 +991,13 @@ static int match_specific_string(struct type **type, struct initializer *init, s
 			};
 
 			*type = type_create(&complete_array_params, (*type)->children);
+		} else {
+			// Only the terminating null character can be left out.
+			int char_size = calculate_size(type_simple(char_type));
+			int array_size = calculate_size(*type);
+			if (str.len - char_size > array_size)
+				ERROR(string_token.pos, "String is too long for %s", dbg_type(*type));
+			str.len = MIN(str.len, array_size);
 		}
 
 		init->type = INIT_STRING;
-- 
2.43.0


From 03bf453df72662528dc61461fdc88de8a8e12fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:20 +0000
Subject: [PATCH 74/77] fix: values of loops that are a single basic block were
 computed in the wrong order

---
 src/ir/ir.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/ir.c b/src/ir/ir.c
index 746172d..385b3a2 100644
--- a/src/ir/ir.c
+++ b/src/ir/ir.c
@@ -797,7 +797,9 @@ void ir_local_schedule_recursive(struct node *node, struct node **end, struct no
 
 	node->visited = 5;
 
-	for (unsigned i = 0; i < IR_MAX; i++) {
+	// A phi gets its value in the preceding blocks, an argument of it in
+	// its own block belongs to the next round of a loop.
+	for (unsigned i = 0; i < IR_MAX && node->type != IR_PHI; i++) {
 		struct node *arg = node->arguments[i];
 
 		if (arg && arg->block == node->block)
-- 
2.43.0


From 94ebdbd377198dc6c29d78b5514bbe26a114e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:09 +0000
Subject: [PATCH 75/77] fix: excess elements of array and union initializers
 were written past the end

---
 src/parser/declaration.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/declaration.c b/src/parser/declaration.c
index 9a42b8f..1d4dd19 100644
--- a/src/parser/declaration.c
+++ b/src/parser/declaration.c
@@ -1071,7 +1071,9 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 
 				assert(c->type == CONSTANT_TYPE && type_is_simple(c->data_type, ST_ULLONG));
 
-				if (c->uint_d > INT_MAX)
+				if (c->uint_d > INT_MAX ||
+					(current_type->type == TY_ARRAY &&
+					 c->uint_d >= current_type->array.length))
 					ERROR(T0->pos, "Array designator out of range.");
 
 				ADD_ELEMENT(designator_size, designator_cap, designators) = c->uint_d;
@@ -1110,7 +1112,8 @@ static void parse_brace_initializer(struct type **type, struct initializer *init
 			}
 		}
 
-		if ((*type)->type == TY_STRUCT && idx >= (*type)->struct_data->n)
+		if ((max_members != -1 && !designator_size && idx >= max_members) ||
+			((*type)->type == TY_STRUCT && idx >= (*type)->struct_data->n))
 			ERROR(T0->pos, "Excess elements in initializer to %s", dbg_type(*type));
 
 		struct type *child_type = type_select(*type, idx);
-- 
2.43.0


From a7f4ff793b3ff4ea1a69c13a3a582b4052407bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:02 +0000
Subject: [PATCH 76/77] fix: every call with arguments on the stack used up
 stack until the function returned

---
 src/codegen/codegen.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/codegen/codegen.c b/src/codegen/codegen.c
index d3473c2..b982115 100644
--- a/src/codegen/codegen.c
+++ b/src/codegen/codegen.c
@@ -271,7 +271,7 @@ static void codegen_instruction(struct node *ins, struct node *func) {
 		int change = codegen_call_stack_chain(ins->arguments[3]);
 		codegen_set_reg_chain(ins->arguments[2]);
 		codegen_call(ins->arguments[0], ins->call.non_clobbered_register);
-		asm_ins2("addq", IMM(change), R8(REG_RSP));
+		asm_ins2("addq", IMM(-change), R8(REG_RSP));
 		struct node *reg_source = ins->projects[1];
 		if (reg_source)
 			codegen_get_reg_uses(reg_source);
-- 
2.43.0


From 6d9c754b0de5fbca9626ca21590827c122773543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:10 +0000
Subject: [PATCH 77/77] fix: code after a goto was not dominated by the
 declarations around it when the label had more jumps

---
 src/parser/function_parser.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/function_parser.c b/src/parser/function_parser.c
index 0a9c5df..42e8aaa 100644
--- a/src/parser/function_parser.c
+++ b/src/parser/function_parser.c
@@ -441,14 +441,15 @@ int parse_jump_statement(struct jump_blocks *jump_blocks) {
 				// Necessary to avoid more than 2 predecessors
 				// to each block.
 				struct node *step = new_block();
-				ir_goto(step);
-				ir_block_start(step);
 
 				// The side effects of a loop without exit are lost, thus
-				// the jump has to look like it could fall through.
+				// the jump has to look like it could fall through. It does
+				// so before it joins the other jumps to the same label.
 				struct node *block_true, *block_false;
 				ir_if_selection(expression_to_int(EXPR_INT(1)), &block_true, &block_false);
-				ir_connect(block_true, function_scope.labels[i].block);
+				ir_connect(block_true, step);
+				ir_block_start(step);
+				ir_goto(function_scope.labels[i].block);
 				ir_block_start(block_false);
 				function_scope.labels[i].block = step;
 				return 1;
-- 
2.43.0

