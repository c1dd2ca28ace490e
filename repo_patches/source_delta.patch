From 928acfdc8d0676b3c4cc93bacf760bf5dcbd4d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:23 +0000
Subject: [PATCH 01/52] fix: offset of an operand of 0,PCR

A PCR operand evaluating to zero was treated as an empty offset, so the
16-bit form stored 0 and not the distance to address 0.
---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index 911c0c8..df19e91 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -292,7 +292,7 @@ static void instr_indexed2(_Bool indirect, struct node const *arg0, struct node
 	}
 
 	if (arg0_type == node_type_int && arg0_attr == node_attr_none
-	    && arg0->data.as_int == 0) {
+	    && arg0->data.as_int == 0 && !pcr) {
 		arg0_type = node_type_empty;
 	}
 
-- 
2.43.0


From f3963cca6bbeb812c6d4c8f55be1363d24eb5c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 02/52] fix: precedence of == and != relative to other
 comparisons

The manual lists < <= > >= as binding tighter than == and !=; the grammar
had them the other way round.
---
 src/grammar.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index b679585..c967eb4 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -79,8 +79,8 @@ static void check_end_opcode(struct prog_line *line);
 %left '|'
 %left '^'
 %left '&'
-%left '<' LE '>' GE
 %left EQ NE
+%left '<' LE '>' GE
 %left SHL SHR
 %left '+' '-'
 %left '*' '/' '%'
-- 
2.43.0


From 037bad118b0a069dd39d2732419f7d6c49bf48e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 03/52] fix: % directly before a digit 0 or 1 as modulo
 operator

After an operand, as in 7%10, "%10" was scanned as a binary number.  That is
a syntax error after a complete argument, which made the rest of the line be
discarded as if it were a comment.
---
 src/lex.l | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 3bddbf3..53b1320 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -112,6 +112,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 			return DELIM;
 		}
 
+\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
+
 }
 
 <argnostr,argnostrnum>{
@@ -144,7 +146,6 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}[bB]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return BACKREF; }
 {decimal}[fF]	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return FWDREF; }
 
-\%{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 2); return INTEGER; }
 0b{bindigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 2); return INTEGER; }
 @{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 8); return INTEGER; }
 0{octdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 8); return INTEGER; }
-- 
2.43.0


From b53dd770d6cf5c476db707f319173b12e77ed9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 04/52] fix: report division by zero

x % 0 crashed the assembler with SIGFPE (so did INT64_MIN % -1), and x / 0
silently yielded an arbitrary integer.
---
 src/eval.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 2b9f9b2..967db2e 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -444,7 +444,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_float(leftn->data.as_float * rightn->data.as_float);
 			break;
 		case '/':
-			ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			if (rightn->data.as_float == 0) {
+				error(error_type_out_of_range, "division by zero");
+				ret = NULL;
+			} else {
+				ret = node_new_float(leftn->data.as_float / rightn->data.as_float);
+			}
 			break;
 		case '+':
 			ret = node_new_float(leftn->data.as_float + rightn->data.as_float);
@@ -494,7 +499,15 @@ static struct node *eval_node_oper_2(struct node *n) {
 
 		switch (n->data.as_oper.oper) {
 		case '%':
-			ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			if (rightn->data.as_int == 0) {
+				error(error_type_out_of_range, "division by zero");
+				ret = NULL;
+			} else if (rightn->data.as_int == -1) {
+				// avoid overflow: INT64_MIN % -1 traps
+				ret = node_new_int(0);
+			} else {
+				ret = node_new_int(leftn->data.as_int % rightn->data.as_int);
+			}
 			break;
 		case SHL:
 			ret = node_new_int(leftn->data.as_int << rightn->data.as_int);
-- 
2.43.0


From ec43243466b9a974d1741e85d5d2aff9abed8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 05/52] fix: values out of range in an inconsistent pass

verror() lets an inconsistency reported after an out of range value trigger
another pass, but in the other order the assembler gave up, depending only on
the order of lines in the source.
---
 src/error.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index 3d7e764..62250ab 100644
--- a/src/error.c
+++ b/src/error.c
@@ -44,7 +44,11 @@ static struct slist **error_list_next = &error_list;
 
 static void verror(enum error_type type, const char *fmt, va_list ap) {
 	struct error *err = NULL;
-	if (type > error_level) {
+	/* Inconsistencies trump out of range values, as these may yet go away
+	 * in another pass. */
+	if (type > error_level &&
+	    !(type == error_type_out_of_range &&
+	      error_level == error_type_inconsistent)) {
 		error_level = type;
 	}
 	if (type == error_type_inconsistent &&
-- 
2.43.0


From b949add49013eb29381cdaf18035f2ae7537972e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:14 +0000
Subject: [PATCH 06/52] fix: use the value given to --setdp

The value was ignored: getopt_long() was told to store 0 for this option.
---
 src/asm6809.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 55e2143..b25098e 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -43,6 +43,9 @@ struct asm6809_options asm6809_options;
 #define OUTPUT_MOTOROLA_SREC (3)
 #define OUTPUT_INTEL_HEX (4)
 
+/* Value returned by getopt_long() for options with no short form */
+#define OPT_SETDP (256)
+
 static int max_passes = 12;
 static int output_format = OUTPUT_BINARY;
 static char *exec_option = NULL;
@@ -65,7 +68,7 @@ static struct option long_options[] = {
 	{ "6809", no_argument, &isa, asm6809_isa_6809 },
 	{ "6309", no_argument, &isa, asm6809_isa_6309 },
 	{ "define", required_argument, NULL, 'd' },
-	{ "setdp", required_argument, &setdp, 0 },
+	{ "setdp", required_argument, NULL, OPT_SETDP },
 	{ "max-passes", required_argument, NULL, 'P' },
 	{ "output", required_argument, NULL, 'o' },
 	{ "listing", required_argument, NULL, 'l' },
@@ -134,6 +137,19 @@ int main(int argc, char **argv) {
 				max_passes = v;
 			}
 			break;
+		case OPT_SETDP:
+			{
+				_Bool neg = (*optarg == '-');
+				struct node *n = simple_parse_int(optarg + neg);
+				if (!n) {
+					error(error_type_fatal, "invalid value for setdp");
+					error_print_list();
+					tidy_up_and_exit(EXIT_FAILURE);
+				}
+				setdp = neg ? -1 : (n->data.as_int & 0xff);
+				node_free(n);
+			}
+			break;
 		case 'o':
 			output_filename = optarg;
 			break;
-- 
2.43.0


From cdeb8b0c22ead061ba64473104c78dedf1e30ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:28 +0000
Subject: [PATCH 07/52] fix: list the bytes of data pseudo-ops

The test for whether a pseudo-op had emitted data compared the PC with a put
address: after PUT no data was listed, and RMB could list unrelated bytes.
---
 src/assemble.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index f476ba1..48dab36 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -488,9 +488,13 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		op_handler = dict_lookup(pseudo_data_dict, n_line.opcode->data.as_string);
 		if (op_handler) {
 			int old_pc = cur_section->pc;
+			struct section_span *old_span = cur_section->span;
+			unsigned old_size = old_span ? old_span->size : 0;
 			op_handler(&n_line);
 			int nbytes = cur_section->pc - old_pc;
-			if (cur_section->span && cur_section->pc == (int)(cur_section->span->put + cur_section->span->size))
+			/* List bytes only if data was emitted, not if space was
+			 * reserved. */
+			if (cur_section->span && (cur_section->span != old_span || cur_section->span->size != old_size))
 				listing_add_line(old_pc & 0xffff, nbytes, cur_section->span, l->text);
 			else
 				listing_add_line(old_pc & 0xffff, nbytes, NULL, l->text);
-- 
2.43.0


From e45f3a7394c039a89f4cd1837588639a714abca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 08/52] fix: section following one whose put address changed

A section that starts where another ended was only moved when the PC of the
other section had changed, not when just its put address had.
---
 src/section.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/section.c b/src/section.c
index 38271b9..0bbcd51 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,7 +143,7 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
-	if (sect->last_pc != sect->pc) {
+	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
 		error(error_type_inconsistent, NULL);
-- 
2.43.0


From def3737334f731813cd2ad8c1a02f33bf690a00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 09/52] fix: discard data of sections not visited in the last
 pass

Data assembled into a section in an early pass was still written if later
passes never switched to that section.
---
 src/section.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/section.c b/src/section.c
index 0bbcd51..c241a88 100644
--- a/src/section.c
+++ b/src/section.c
@@ -143,6 +143,12 @@ static void verify_section(void *key, void *value, void *data) {
 	struct section *sect = value;
 	if (!sect)
 		return;
+	/* Discard data from an earlier pass if not visited in this one */
+	if (sect->pass != cur_section->pass && sect->spans) {
+		slist_free_full(sect->spans, (slist_free_func)section_span_free);
+		sect->spans = NULL;
+		sect->span = NULL;
+	}
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-- 
2.43.0


From 4f848e29494defddf94f398505396ab4d22d240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:51 +0000
Subject: [PATCH 10/52] fix: report section addresses that do not stabilise

If only section addresses were still changing in the last permitted pass, the
assembler failed without printing any message.
---
 src/section.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/section.c b/src/section.c
index c241a88..776b600 100644
--- a/src/section.c
+++ b/src/section.c
@@ -138,7 +138,6 @@ void section_set(const char *name, unsigned pass) {
 }
 
 static void verify_section(void *key, void *value, void *data) {
-	(void)key;
 	(void)data;
 	struct section *sect = value;
 	if (!sect)
@@ -152,7 +151,7 @@ static void verify_section(void *key, void *value, void *data) {
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
-		error(error_type_inconsistent, NULL);
+		error(error_type_inconsistent, "address of section '%s' unstable", (char *)key);
 	}
 }
 
-- 
2.43.0


From d714c983ad1eb6b8304132df8b38b429f475ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:52 +0000
Subject: [PATCH 11/52] fix: another pass for symbols first defined after the
 first pass

A condition may already have taken such a symbol to be undefined in the same
pass, so the result was accepted although the condition was then true.
---
 src/symbol.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/symbol.c b/src/symbol.c
index b3ef68e..b79806a 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -81,7 +81,9 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	struct symbol *news = xmalloc(sizeof(*news));
 	news->pass = pass;
 	news->node = eval_node(value);
-	_Bool is_inconsistent = (olds && !node_equal(olds->node, news->node));
+	/* A symbol first defined after the first pass may already have been
+	 * treated as undefined (i.e. zero) by a condition in this pass. */
+	_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : (pass > 0);
 	char *key_copy = xstrdup(key);
 	dict_insert(symbols, key_copy, news);
 	return is_inconsistent;
@@ -216,7 +218,6 @@ struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line
 
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass) {
-	(void)pass;
 	gl_list_t sym_list = dict_lookup(table, (void *)key);
 	gl_list_node_t old_lnode = NULL;
 	struct symbol_local const *old_sym = NULL;
@@ -233,10 +234,9 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	struct symbol_local *new_sym = xmalloc(sizeof(*new_sym));
 	new_sym->line_number = line_number;
 	new_sym->node = newn;
-	if (old_sym) {
-		if (!node_equal(old_sym->node, newn))
-			error(error_type_inconsistent,
-			      "value of local label '%ld' unstable", key);
+	if (old_sym ? !node_equal(old_sym->node, newn) : (pass > 0)) {
+		error(error_type_inconsistent,
+		      "value of local label '%ld' unstable", key);
 	}
 	if (old_lnode) {
 		gl_list_remove_node(sym_list, old_lnode);
-- 
2.43.0


From cc430efb2405dfb985262d64eb5ff0fe478f48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 12/52] fix: report failure to write output files

An output file that could not be opened was silently not written, and write
errors on any file went unnoticed, both with exit status 0.
---
 src/asm6809.c | 16 +++++++++++++---
 src/output.c  | 37 +++++++++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index b25098e..e3e805d 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -85,6 +85,7 @@ static struct slist *files = NULL;
 
 static struct node *simple_parse_int(const char *);
 static void define_symbol(const char *);
+static void close_file(FILE *f, const char *filename);
 static void helptext(void);
 static void versiontext(void);
 static _Noreturn void tidy_up_and_exit(int status);
@@ -234,7 +235,7 @@ int main(int argc, char **argv) {
 		FILE *listf = fopen(listing_filename, "wb");
 		if (listf) {
 			listing_print(listf);
-			fclose(listf);
+			close_file(listf, listing_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", listing_filename, strerror(errno));
 		}
@@ -291,7 +292,7 @@ int main(int argc, char **argv) {
 		FILE *expf = fopen(exports_filename, "wb");
 		if (expf) {
 			prog_print_exports(expf);
-			fclose(expf);
+			close_file(expf, exports_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", exports_filename, strerror(errno));
 		}
@@ -302,7 +303,7 @@ int main(int argc, char **argv) {
 		FILE *symf = fopen(symbol_filename, "wb");
 		if (symf) {
 			prog_print_symbols(symf);
-			fclose(symf);
+			close_file(symf, symbol_filename);
 		} else {
 			error(error_type_fatal, "%s: %s", symbol_filename, strerror(errno));
 		}
@@ -360,6 +361,15 @@ static void define_symbol(const char *str) {
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Close a file that was written to, reporting any failure. */
+static void close_file(FILE *f, const char *filename) {
+	_Bool failed = ferror(f);
+	if (fclose(f) != 0 || failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
+// - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
+
 static void helptext(void) {
 	puts(
 "Usage: asm6809 [OPTION]... SOURCE-FILE...\n"
diff --git a/src/output.c b/src/output.c
index a68f2ec..5c5d017 100644
--- a/src/output.c
+++ b/src/output.c
@@ -13,9 +13,11 @@ option) any later version.
 #include "config.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "error.h"
 #include "eval.h"
@@ -25,6 +27,21 @@ option) any later version.
 #include "slist.h"
 #include "symbol.h"
 
+/* Helpers that open and close the output file, reporting any failure. */
+
+static FILE *open_output(const char *filename) {
+	FILE *f = fopen(filename, "wb");
+	if (!f)
+		error(error_type_fatal, "%s: %s", filename, strerror(errno));
+	return f;
+}
+
+static void close_output(FILE *f, const char *filename) {
+	_Bool failed = ferror(f);
+	if (fclose(f) != 0 || failed)
+		error(error_type_fatal, "%s: write failed", filename);
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -48,7 +65,7 @@ static int get_exec_addr(void) {
 /* Output format: Plain binary.  All coalesced into one big blob. */
 
 void output_binary(const char *filename) {
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -59,7 +76,7 @@ void output_binary(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: DragonDOS binary. */
@@ -67,7 +84,7 @@ void output_binary(const char *filename) {
 void output_dragondos(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -96,7 +113,7 @@ void output_dragondos(const char *filename) {
 		write_single_binary(f, span);
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: CoCo RSDOS binary. */
@@ -110,7 +127,7 @@ void output_dragondos(const char *filename) {
 void output_coco(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -137,7 +154,7 @@ void output_coco(const char *filename) {
 	fputc(exec_addr  & 0xff, f);
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: Motorola SREC. */
@@ -145,7 +162,7 @@ void output_coco(const char *filename) {
 void output_motorola_srec(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -180,7 +197,7 @@ void output_motorola_srec(const char *filename) {
         }
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
 
 /* Output format: Intel HEX. */
@@ -188,7 +205,7 @@ void output_motorola_srec(const char *filename) {
 void output_intel_hex(const char *filename) {
 	int exec_addr = get_exec_addr();
 
-	FILE *f = fopen(filename, "wb");
+	FILE *f = open_output(filename);
 	if (!f)
 		return;
 
@@ -223,5 +240,5 @@ void output_intel_hex(const char *filename) {
 	}
 
 	section_free(sect);
-	fclose(f);
+	close_output(f, filename);
 }
-- 
2.43.0


From f30d8b6fcbeb64a393a39f7b2f2077d72c1a5c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 13/52] fix: operators in exported macros

<=, >=, ==, !=, && and || were printed as control characters, and the operands
of ?: were not printed at all.
---
 src/node.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/node.c b/src/node.c
index 0d7af50..1b031ea 100644
--- a/src/node.c
+++ b/src/node.c
@@ -295,6 +295,12 @@ static const char *opstr(int op) {
 	switch (op) {
 	case SHL: return "<<";
 	case SHR: return ">>";
+	case LE: return "<=";
+	case GE: return ">=";
+	case EQ: return "==";
+	case NE: return "!=";
+	case LAND: return "&&";
+	case LOR: return "||";
 	default: str[0] = op; str[1] = 0; break;
 	}
 	return str;
@@ -387,6 +393,12 @@ void node_print(FILE *f, struct node const *n) {
 			node_print(f, n->data.as_oper.args[0]);
 			fprintf(f, "%s", opstr(n->data.as_oper.oper));
 			node_print(f, n->data.as_oper.args[1]);
+		} else if (n->data.as_oper.nargs == 3) {
+			node_print(f, n->data.as_oper.args[0]);
+			fprintf(f, "?");
+			node_print(f, n->data.as_oper.args[1]);
+			fprintf(f, ":");
+			node_print(f, n->data.as_oper.args[2]);
 		}
 		fprintf(f, ")");
 		break;
-- 
2.43.0


From 8b175177899c31e3d891b612062e9e58e5309c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 14/52] fix: escape special characters in exported strings

Strings containing /, &, \ or line ends were printed as is, so the file could
not be included again or gave the string another value.
---
 src/node.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 1b031ea..1b359e7 100644
--- a/src/node.c
+++ b/src/node.c
@@ -354,7 +354,17 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
 		break;
 	case node_type_string:
-		fprintf(f, "%s", n->data.as_string);
+		/* Escape anything special within a string delimited by '/' */
+		for (char const *c = n->data.as_string; *c; c++) {
+			switch (*c) {
+			case '\n': fputs("\\n", f); break;
+			case '\r': fputs("\\r", f); break;
+			case '/': case '&': case '\\':
+				fputc('\\', f);
+				/* fall through */
+			default: fputc(*c, f); break;
+			}
+		}
 		break;
 
 	/* Simple types */
-- 
2.43.0


From 48be82de3f60c8a61f5d1a140e78175cb123a8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:32 +0000
Subject: [PATCH 15/52] fix: positional variables after & in exported macros

A bitwise AND with a positional variable was printed as &&{1}, which is read
back as a logical AND.
---
 src/node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 1b359e7..abacd2c 100644
--- a/src/node.c
+++ b/src/node.c
@@ -378,7 +378,7 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64"F", n->data.as_int);
 		break;
 	case node_type_interp:
-		fprintf(f, "&{%s}", n->data.as_string);
+		fprintf(f, "\\{%s}", n->data.as_string);
 		break;
 
 	/* Operator types */
-- 
2.43.0


From bd615ed91b504d3151f44f82d09eeeab83039286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:10 +0000
Subject: [PATCH 16/52] fix: leave the exec address out of the symbols file

An address given to END was listed as ".exec", which is not a valid label, so
that the file could not be included again.
---
 src/program.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index 6e064d0..2a7d9f5 100644
--- a/src/program.c
+++ b/src/program.c
@@ -283,8 +283,15 @@ void prog_print_exports(FILE *f) {
 	dict_foreach(exports, (dict_iter_func)print_exported, f);
 }
 
+static void print_listed_symbol(const char *key, FILE *f) {
+	/* Not a symbol that can appear in source */
+	if (0 == strcmp(key, ".exec"))
+		return;
+	print_symbol(key, f);
+}
+
 void prog_print_symbols(FILE *f) {
 	struct slist *symbols = symbol_get_list();
-	slist_foreach(symbols, (slist_iter_func)print_symbol, f);
+	slist_foreach(symbols, (slist_iter_func)print_listed_symbol, f);
 	slist_free(symbols);
 }
-- 
2.43.0


From 5cd19c5f63a8838a1d7e43977de87daa36dc3610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:23 +0000
Subject: [PATCH 17/52] fix: exit status when an exported symbol is not defined

An error was printed, but the exit status indicated success.
---
 src/asm6809.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index e3e805d..cc686d7 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -310,7 +310,7 @@ int main(int argc, char **argv) {
 	}
 
 	/* Any errors in all that? */
-	if (error_level >= error_type_syntax) {
+	if (error_level >= error_type_inconsistent) {
 		error_print_list();
 		tidy_up_and_exit(EXIT_FAILURE);
 	}
-- 
2.43.0


From fbc3ae562c6a352ac670840481876a1725bd7e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:23 +0000
Subject: [PATCH 18/52] fix: increment or decrement of exported register
 symbols

A symbol equated to, e.g., x+ was exported as plain x.
---
 src/program.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/program.c b/src/program.c
index 2a7d9f5..2acc1c0 100644
--- a/src/program.c
+++ b/src/program.c
@@ -231,7 +231,8 @@ static void print_symbol(const char *key, FILE *f) {
 			return;
 		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
-		n = node_set_attr(n, node_attr_none);
+		if (node_type_of(n) != node_type_reg)
+			n = node_set_attr(n, node_attr_none);
 		switch (node_type_of(n)) {
 		default:
 			error(error_type_syntax, "can't export symbol type");
-- 
2.43.0


From 4f01997440ae7fa0bd7cfa22c2a522300b1f6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:31 +0000
Subject: [PATCH 19/52] fix: precision of exported floating point values

Values were printed with six decimals only.
---
 src/node.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index abacd2c..f2635a3 100644
--- a/src/node.c
+++ b/src/node.c
@@ -19,6 +19,7 @@ option) any later version.
 #include <string.h>
 
 #include "xalloc.h"
+#include "xvasprintf.h"
 
 #include "error.h"
 #include "node.h"
@@ -348,7 +349,16 @@ void node_print(FILE *f, struct node const *n) {
 		fprintf(f, "%"PRId64, n->data.as_int);
 		break;
 	case node_type_float:
-		fprintf(f, "%f", n->data.as_float);
+		{
+			/* As many digits as it takes to read back the same value */
+			char *str = xasprintf("%f", n->data.as_float);
+			for (int prec = 7; prec <= 1074 && strtod(str, NULL) != n->data.as_float; prec++) {
+				free(str);
+				str = xasprintf("%.*f", prec, n->data.as_float);
+			}
+			fputs(str, f);
+			free(str);
+		}
 		break;
 	case node_type_reg:
 		fprintf(f, "%s", reg_id_to_name(n->data.as_reg));
-- 
2.43.0


From d5a6665a6e11acfbf1731724bee62f6e1764ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 20/52] fix: crash after an unfinished macro

The definition stayed active with its context freed, so the next line assembled
(in a following or including file) was written through a dangling pointer.
---
 src/assemble.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 48dab36..fd1a7a8 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -577,6 +577,11 @@ next_line:
 	assert(prog_depth > 0);
 	prog_depth--;
 	prog_ctx_free(ctx);
+
+	/* If a macro was left unfinished, that will have been reported and its
+	 * context freed along with ours. */
+	defining_macro_ctx = NULL;
+	defining_macro_level = 0;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
-- 
2.43.0


From 73dc6600224a2885390615afeb21b1fb928726db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 21/52] fix: reject operands of the wrong type

Operands that were neither numbers nor undefined - registers, strings where
they make no sense, registers that cannot take part in an inter-register
operation - were silently assembled as something else.
---
 src/instr.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index df19e91..399aa19 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -55,6 +55,8 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
 	}
 	section_emit_op(op->immediate);
 	struct node *tmp = eval_int(arga[0]);
+	if (!tmp && node_type_of(arga[0]) != node_type_undef)
+		error(error_type_syntax, "invalid argument");
 	uint32_t value = 0;
 	if (tmp) {
 		value = tmp->data.as_int;
@@ -95,6 +97,8 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 	}
 	section_emit_op(op->immediate);
 	if (node_type_of(arga[0]) != node_type_int) {
+		if (node_type_of(arga[0]) != node_type_undef)
+			error(error_type_syntax, "invalid argument");
 		if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8)
 			section_emit_pad(1);
 		else
@@ -438,6 +442,10 @@ void instr_address(struct opcode const *op, struct node const *args, int imm8_va
 	}
 
 	struct node *arg = eval_int(arga[0]);
+	if (!arg && node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid addressing mode");
+		return;
+	}
 	enum node_attr attr = node_attr_16bit;
 	unsigned addr = cur_section->pc;
 	if (arg) {
@@ -482,8 +490,14 @@ void instr_imm8_mem(struct opcode const *op, struct node const *args) {
 		return;
 	}
 	int imm8_val = 0;
-	if (node_type_of(arga[0]) == node_type_int)
-		imm8_val = arga[0]->data.as_int;
+	struct node *tmp = eval_int(arga[0]);
+	if (tmp) {
+		imm8_val = tmp->data.as_int;
+		node_free(tmp);
+	} else if (node_type_of(arga[0]) != node_type_undef) {
+		error(error_type_syntax, "invalid argument");
+		return;
+	}
 	struct node *newa = node_new_array();
 	newa->data.as_array.nargs = nargs - 1;
 	newa->data.as_array.args = arga + 1;
@@ -544,6 +558,10 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
+			if (nibble[i] < 0) {
+				error(error_type_syntax, "invalid register in inter-register op");
+				return;
+			}
 		} else if (type[i] == node_type_int) {
 			int v = arga[i]->data.as_int;
 			if (v == 0 && asm6809_options.isa == asm6809_isa_6309) {
@@ -677,6 +695,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		} else {
 			pbyte |= (arga[1]->data.as_int << 3);
 		}
+	} else if (node_type_of(arga[1]) != node_type_undef) {
+		goto invalid_argument;
 	}
 	if (node_type_of(arga[2]) == node_type_int) {
 		if (arga[2]->data.as_int < 0 || arga[2]->data.as_int > 7) {
@@ -684,7 +704,11 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		} else {
 			pbyte |= arga[2]->data.as_int;
 		}
+	} else if (node_type_of(arga[2]) != node_type_undef) {
+		goto invalid_argument;
 	}
+	if (node_type_of(arga[3]) != node_type_int && node_type_of(arga[3]) != node_type_undef)
+		goto invalid_argument;
 
 	section_emit_op(op->direct);
 	section_emit_uint8(pbyte);
@@ -698,4 +722,7 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 invalid_register:
 	error(error_type_syntax, "invalid register in register-memory operation");
 	return;
+invalid_argument:
+	error(error_type_syntax, "invalid argument");
+	return;
 }
-- 
2.43.0


From b22da26f8e2af649276edf3774f2f434bf0012e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 22/52] fix: report operands that an operator cannot act on

---
 src/eval.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 967db2e..75058eb 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -251,14 +251,20 @@ struct node *eval_int_free(struct node *n) {
 		n->data.as_int = n->data.as_float;
 		return n;
 	}
-	if (n->type == node_type_int)
-		return n;
+	struct node *ret = eval_int(n);
 	node_free(n);
-	return NULL;
+	return ret;
 }
 
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/* Operators can't act on some types, e.g., registers.  Report it, as the
+ * missing result could otherwise only be mistaken for an undefined symbol. */
+
+static void invalid_operand(void) {
+	error(error_type_syntax, "invalid operand in expression");
+}
+
 static struct node *eval_node_oper_1(struct node *n) {
 	struct node *ret = NULL;
 	struct node *arg;
@@ -285,6 +291,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 			ret = node_new_float(-arg->data.as_float);
 			break;
 		default:
+			invalid_operand();
 			break;
 		}
 		break;
@@ -295,6 +302,7 @@ static struct node *eval_node_oper_1(struct node *n) {
 		case node_type_float:
 			return arg;
 		default:
+			invalid_operand();
 			break;
 		}
 		break;
@@ -312,6 +320,8 @@ static struct node *eval_node_oper_1(struct node *n) {
 		arg = eval_int_free(arg);
 		if (arg) {
 			ret = node_new_int(~arg->data.as_int);
+		} else {
+			invalid_operand();
 		}
 		break;
 
@@ -375,6 +385,7 @@ static struct node *eval_node_oper_2(struct node *n) {
 			ret = node_new_int(strcmp(leftn->data.as_string, rightn->data.as_string) != 0);
 			break;
 		default:
+			invalid_operand();
 			ret = NULL;
 			break;
 		}
@@ -431,10 +442,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 		}
 
 		if (!(leftn = eval_float_free(leftn))) {
+			invalid_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_float_free(rightn))) {
+			invalid_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -489,10 +502,12 @@ static struct node *eval_node_oper_2(struct node *n) {
 	case LAND: case LOR:
 
 		if (!(leftn = eval_int_free(leftn))) {
+			invalid_operand();
 			node_free(rightn);
 			return NULL;
 		}
 		if (!(rightn = eval_int_free(rightn))) {
+			invalid_operand();
 			node_free(leftn);
 			return NULL;
 		}
@@ -560,8 +575,10 @@ static struct node *eval_node_oper_3(struct node *n) {
 	if (!(condn = eval_node(n->data.as_oper.args[0])))
 		return NULL;
 
-	if (!(condn = eval_int_free(condn)))
+	if (!(condn = eval_int_free(condn))) {
+		invalid_operand();
 		return NULL;
+	}
 
 	if (condn->data.as_int != 0) {
 		ret = eval_node(n->data.as_oper.args[1]);
-- 
2.43.0


From 5bbcc8a60cf7ad9349dced98509b43817c575950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:40 +0000
Subject: [PATCH 23/52] fix: exec address from values that are not integers

---
 src/asm6809.c  | 7 ++++++-
 src/assemble.c | 4 ++++
 src/output.c   | 4 +++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index cc686d7..7b2b4ca 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -26,6 +26,7 @@ option) any later version.
 #include "asm6809.h"
 #include "assemble.h"
 #include "error.h"
+#include "eval.h"
 #include "listing.h"
 #include "node.h"
 #include "opcode.h"
@@ -247,13 +248,17 @@ int main(int argc, char **argv) {
 		struct node *n = simple_parse_int(exec_option);
 		if (!n) {
 			unsigned v = 0;
-			struct node *tmp = symbol_get(exec_option);
+			struct node *sym = symbol_get(exec_option);
+			struct node *tmp = eval_int(sym);
 			if (tmp) {
 				v = tmp->data.as_int & 0xffff;
 				node_free(tmp);
+			} else if (sym) {
+				error(error_type_fatal, "exec symbol '%s' is not a number", exec_option);
 			} else {
 				error(error_type_fatal, "exec symbol '%s' not defined", exec_option);
 			}
+			node_free(sym);
 			n = node_new_int(v);
 		}
 		symbol_force_set(".exec", n, 0, max_passes);
diff --git a/src/assemble.c b/src/assemble.c
index fd1a7a8..e5561e5 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1037,6 +1037,10 @@ static void pseudo_end(struct prog_line *line) {
 	if (nargs < 1)
 		return;
 	struct node **arga = node_array_of(line->args);
+	struct node *n = eval_int(arga[0]);
+	if (!n && node_type_of(arga[0]) != node_type_undef)
+		error(error_type_syntax, "invalid argument to END");
+	node_free(n);
 	symbol_set(".exec", arga[0], asm_pass, 0);
 }
 
diff --git a/src/output.c b/src/output.c
index 5c5d017..d23a22c 100644
--- a/src/output.c
+++ b/src/output.c
@@ -52,7 +52,9 @@ static void write_single_binary(FILE *f, struct section_span *span) {
 /* Helper to figure out exec address. */
 
 static int get_exec_addr(void) {
-	struct node *n = symbol_try_get(".exec");
+	struct node *sym = symbol_try_get(".exec");
+	struct node *n = eval_int(sym);
+	node_free(sym);
 	int ret = -1;
 	if (n) {
 		if (n->data.as_int >= 0)
-- 
2.43.0


From 9320ebbcf5be6b4e9c98b2a4d7b9e7e8b229882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 24/52] fix: invalid values for -d, and errno left set before
 parsing -P

---
 src/asm6809.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index 7b2b4ca..0f79bb4 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -130,6 +130,7 @@ int main(int argc, char **argv) {
 			break;
 		case 'P':
 			{
+				errno = 0;
 				long v = strtol(optarg, NULL, 0);
 				if (errno != 0 || v < 2 || v > 255) {
 					error(error_type_fatal, "invalid value for max-passes");
@@ -355,6 +356,11 @@ static void define_symbol(const char *str) {
 	if (tmp) {
 		*(tmp++) = 0;
 		value = simple_parse_int(tmp);
+		if (!value) {
+			error(error_type_fatal, "invalid value for symbol '%s'", key);
+			error_print_list();
+			tidy_up_and_exit(EXIT_FAILURE);
+		}
 	} else {
 		value = node_new_int(1);
 	}
-- 
2.43.0


From 0dbec3b1ca711395dcb81bcd86f312e5128655b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 25/52] fix: report data that an output format cannot represent

---
 src/output.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/output.c b/src/output.c
index d23a22c..3bba360 100644
--- a/src/output.c
+++ b/src/output.c
@@ -42,6 +42,16 @@ static void close_output(FILE *f, const char *filename) {
 		error(error_type_fatal, "%s: write failed", filename);
 }
 
+/* Formats that record addresses only have 16 bits to do so.  'max_size' is the
+ * largest size of a single span that the format can represent. */
+
+static void check_span(struct section_span *span, unsigned max_size) {
+	if (span->size == 0)
+		return;
+	if (span->put > 0xffff || span->size > 0x10000 - span->put || span->size > max_size)
+		error(error_type_data, "data at $%04X too large or beyond $FFFF for output format", span->put);
+}
+
 /* Helper that dumps a single binary blob to file. */
 
 static void write_single_binary(FILE *f, struct section_span *span) {
@@ -96,6 +106,7 @@ void output_dragondos(const char *filename) {
 	unsigned size = 0;
 	if (sect->spans) {
 		span = sect->spans->data;
+		check_span(span, 0xffff);
 		put = span->put;
 		size = span->size;
 	}
@@ -137,6 +148,7 @@ void output_coco(const char *filename) {
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
+		check_span(span, 0xffff);
 		unsigned put = span->put;
 		unsigned size = span->size;
 		if (exec_addr < 0)
@@ -172,6 +184,7 @@ void output_motorola_srec(const char *filename) {
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
+		check_span(span, 0x10000);
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
@@ -215,6 +228,7 @@ void output_intel_hex(const char *filename) {
 
 	for (struct slist *l = sect->spans; l; l = l->next) {
 		struct section_span *span = l->data;
+		check_span(span, 0x10000);
 		unsigned put = span->put;
 		unsigned size = span->size;
 		unsigned base = 0;
-- 
2.43.0


From fce9d3af8e626bc1eae5d58e27c8ef0ace274933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:51 +0000
Subject: [PATCH 26/52] fix: positional variables in the instruction field of
 macros

Recording such a line tried to evaluate them, which failed.
---
 src/assemble.c |  6 +++++-
 src/grammar.y  |  3 +++
 src/node.c     | 10 ++++++++++
 src/node.h     |  4 ++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index e5561e5..0fc74a3 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -320,7 +320,11 @@ void assemble_prog(struct prog *prog, unsigned pass) {
 		}
 
 		n_line.label = NULL;
-		n_line.opcode = eval_string(l->opcode);
+		n_line.opcode = NULL;
+		/* Positional variables in lines that are only being recorded
+		 * or skipped don't have a value. */
+		if ((defining_macro_level == 0 && !cond_excluded) || node_is_constant_id(l->opcode))
+			n_line.opcode = eval_string(l->opcode);
 		n_line.args = NULL;
 		n_line.text = l->text;
 
diff --git a/src/grammar.y b/src/grammar.y
index c967eb4..8464a48 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -217,6 +217,9 @@ struct prog *grammar_parse_file(const char *filename) {
 }
 
 static void check_end_opcode(struct prog_line *line) {
+	/* An opcode with positional variables can't be evaluated yet */
+	if (!node_is_constant_id(line->opcode))
+		return;
 	struct node *n = eval_string(line->opcode);
 	if (n) {
 		if (0 == c_strcasecmp("end", n->data.as_string)) {
diff --git a/src/node.c b/src/node.c
index f2635a3..8e9d060 100644
--- a/src/node.c
+++ b/src/node.c
@@ -140,6 +140,16 @@ struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	return n;
 }
 
+_Bool node_is_constant_id(struct node const *n) {
+	if (!n || n->type != node_type_id)
+		return 0;
+	for (struct slist *l = n->data.as_list; l; l = l->next) {
+		if (node_type_of(l->data) != node_type_string)
+			return 0;
+	}
+	return 1;
+}
+
 _Bool node_equal(struct node const *n1, struct node const *n2) {
 	if (node_type_of(n1) == node_type_undef ||
 	    node_type_of(n2) == node_type_undef)
diff --git a/src/node.h b/src/node.h
index 74998a9..177ea46 100644
--- a/src/node.h
+++ b/src/node.h
@@ -156,6 +156,10 @@ struct node *node_set_attr(struct node *n, enum node_attr attr);
 
 struct node *node_set_attr_if(struct node *n, enum node_attr attr);
 
+/* Test for an identifier involving no positional variables. */
+
+_Bool node_is_constant_id(struct node const *n);
+
 /* Compare two nodes.  Both must be defined and of a base type, or they will
  * compare unequal. */
 
-- 
2.43.0


From dcbbd4eb2be6e2e87465efc382676fcc649b9d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:49 +0000
Subject: [PATCH 27/52] fix: consecutive unary and binary + and - operators

Read as a single increment or decrement token, which ended the expression.
---
 src/grammar.y | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/grammar.y b/src/grammar.y
index 8464a48..d6e5154 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -82,7 +82,7 @@ static void check_end_opcode(struct prog_line *line);
 %left EQ NE
 %left '<' LE '>' GE
 %left SHL SHR
-%left '+' '-'
+%left '+' '-' INC2 DEC2
 %left '*' '/' '%'
 %nonassoc UMINUS '!' '~'
 %left '(' ')'
@@ -144,6 +144,8 @@ reg	: REGISTER		{ $$ = node_new_reg($1); }
 expr	: '(' expr ')'		{ $$ = $2; }
 	| '-' expr %prec UMINUS	{ $$ = node_new_oper_1('-', $2); }
 	| '+' expr %prec UMINUS	{ $$ = node_new_oper_1('+', $2); }
+	| DEC2 expr %prec UMINUS	{ $$ = node_new_oper_1('-', node_new_oper_1('-', $2)); }
+	| INC2 expr %prec UMINUS	{ $$ = node_new_oper_1('+', node_new_oper_1('+', $2)); }
 	| '~' expr		{ $$ = node_new_oper_1('~', $2); }
 	| '!' expr		{ $$ = node_new_oper_1('!', $2); }
 	| expr '*' expr		{ $$ = node_new_oper_2('*', $1, $3); }
@@ -151,6 +153,8 @@ expr	: '(' expr ')'		{ $$ = $2; }
 	| expr '%' expr		{ $$ = node_new_oper_2('%', $1, $3); }
 	| expr '+' expr		{ $$ = node_new_oper_2('+', $1, $3); }
 	| expr '-' expr		{ $$ = node_new_oper_2('-', $1, $3); }
+	| expr INC2 expr	{ $$ = node_new_oper_2('+', $1, node_new_oper_1('+', $3)); }
+	| expr DEC2 expr	{ $$ = node_new_oper_2('-', $1, node_new_oper_1('-', $3)); }
 	| expr SHL expr		{ $$ = node_new_oper_2(SHL, $1, $3); }
 	| expr SHR expr		{ $$ = node_new_oper_2(SHR, $1, $3); }
 	| expr '<' expr		{ $$ = node_new_oper_2('<', $1, $3); }
-- 
2.43.0


From f8d90b0cafb5a6953e29ff65fe38f821eb792885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 28/52] fix: line numbers following a syntax error in an
 included file

---
 src/grammar.y | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/grammar.y b/src/grammar.y
index d6e5154..1ae7d0f 100644
--- a/src/grammar.y
+++ b/src/grammar.y
@@ -192,10 +192,11 @@ strpart	: TEXT			{ $$ = node_new_string($1); }
 %%
 
 static void raise_error(void) {
-	// discard line with error - going to fail anyway
-	char *l = lex_fetch_line();
-	free(l);
-	cur_ctx->line_number++;
+	// replace line with an empty one - going to fail anyway, but any errors
+	// found in following lines should still be reported against the right one
+	struct prog_line *line = prog_line_new(NULL, NULL, NULL);
+	prog_line_set_text(line, lex_fetch_line());
+	prog_ctx_add_line(cur_ctx, line);
 	error(error_type_syntax, "");
 }
 
-- 
2.43.0


From 054e83f359daff25c7773364a074f209bb5a986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 29/52] fix: strings as integer arguments to pseudo-ops

---
 src/assemble.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 0fc74a3..6ea30af 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -265,6 +265,13 @@ static int64_t have_int_optional(struct node *args, int aindex, const char *op,
 	case node_type_float:
 		in = arga[aindex]->data.as_float;
 		break;
+	case node_type_string:
+		{
+			struct node *n = eval_int(arga[aindex]);
+			in = n->data.as_int;
+			node_free(n);
+		}
+		break;
 	}
 	return in;
 }
-- 
2.43.0


From aa70b3e430d4a74211ae8016245e5175c87251e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 30/52] fix: hang or memory exhaustion on absurdly large
 operands

Huge relative operands and byte counts took forever to reject.
---
 src/assemble.c | 29 +++++++++++++++++++++++------
 src/instr.c    |  6 +-----
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 6ea30af..b4e0d69 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -887,6 +887,21 @@ static void pseudo_fqb(struct prog_line *line) {
 	}
 }
 
+/* Verify a number of bytes to be emitted.  Returns 0 (failure) if there could
+ * never be space for them. */
+
+static _Bool verify_count(long count, const char *op) {
+	if (count < 0) {
+		error(error_type_out_of_range, "negative count for %s", op);
+		return 0;
+	}
+	if (count > 0x10000) {
+		error(error_type_out_of_range, "count for %s too large", op);
+		return 0;
+	}
+	return 1;
+}
+
 /* RZB.  Reserve zero bytes.  Additional argument specifies a non-zero fill
  * value. */
 
@@ -895,9 +910,8 @@ static void pseudo_rzb(struct prog_line *line) {
 		return;
 	long count = have_int_required(line->args, 0, "RZB", 0);
 	long fill = have_int_optional(line->args, 1, "RZB", 0);
-	if (count < 0) {
-		error(error_type_out_of_range, "negative count for RZB");
-	}
+	if (!verify_count(count, "RZB"))
+		return;
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -909,9 +923,8 @@ static void pseudo_fill(struct prog_line *line) {
 		return;
 	long fill = have_int_required(line->args, 0, "FILL", 0);
 	long count = have_int_required(line->args, 1, "FILL", 0);
-	if (count < 0) {
-		error(error_type_out_of_range, "negative count for FILL");
-	}
+	if (!verify_count(count, "FILL"))
+		return;
 	for (long i = 0; i < count; i++)
 		section_emit_uint8(fill);
 }
@@ -926,6 +939,8 @@ static void pseudo_rmb(struct prog_line *line) {
 		error(error_type_out_of_range, "negative argument to RMB");
 		return;
 	}
+	if (!verify_count(count, "RMB"))
+		return;
 	section_skip(count);
 }
 
@@ -942,6 +957,8 @@ static void pseudo_align(struct prog_line *line) {
 		return;
 	}
 	long count = (align - (cur_section->pc % align)) % align;
+	if (!verify_count(count, "ALIGN"))
+		return;
 	if (nargs < 2) {
 		section_skip(count);
 	} else {
diff --git a/src/instr.c b/src/instr.c
index 399aa19..b12d1a7 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -81,11 +81,7 @@ void instr_immediate(struct opcode const *op, struct node const *args) {
  * to be range tested. */
 
 static int to_rel16(int64_t i) {
-	while (i < -32768)
-		i += 65536;
-	while (i > 32767)
-		i -= 65536;
-	return i;
+	return (int)(((uint64_t)i + 32768) & 0xffff) - 32768;
 }
 
 void instr_rel(struct opcode const *op, struct node const *args) {
-- 
2.43.0


From ba94fb57faa4fb78e30153d485530fabd8c3d2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:09 +0000
Subject: [PATCH 31/52] fix: no offset form for zero offset from W

---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index b12d1a7..c74be6c 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -175,7 +175,7 @@ static struct {
 	{ idx_type_xyus, node_attr_none,     off_type_reg_e, 0x87, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_f, 0x8a, idx_indirect_ok },
 	{ idx_type_xyus, node_attr_none,     off_type_reg_w, 0x8e, idx_indirect_ok },
-	{ idx_type_w,    node_attr_none,     off_type_none,  0x8f, idx_indirect_ok_6309 },
+	{ idx_type_w,    node_attr_none,     off_type_zero,  0x8f, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_none,     off_type_16bit, 0xaf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_postinc2, off_type_none,  0xcf, idx_indirect_ok_6309 },
 	{ idx_type_w,    node_attr_predec2,  off_type_none,  0xef, idx_indirect_ok_6309 },
-- 
2.43.0


From 9dbb3eccf60453bf531a5b396cdef4332f9cbd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 32/52] fix: floating point values within brackets

They were rejected, or with a size prefix silently assembled as zero, where
instructions convert any other floating point operand to integer.
---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index b4e0d69..1e27ff1 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -215,6 +215,8 @@ static void args_float_to_int(struct node *args) {
 	for (int i = 0; i < nargs; i++) {
 		if (node_type_of(arga[i]) == node_type_float)
 			arga[i] = eval_int_free(arga[i]);
+		else
+			args_float_to_int(arga[i]);
 	}
 }
 
-- 
2.43.0


From ac006fa63d4b5425aeaa1ec258bbb57936ac174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 33/52] fix: reject increments and immediates where the
 instruction has none

Registers with increment or decrement in register lists and pairs, and
immediate branch targets, were assembled as though without.
---
 src/instr.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/instr.c b/src/instr.c
index c74be6c..d1f6a96 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -101,6 +101,8 @@ void instr_rel(struct opcode const *op, struct node const *args) {
 			section_emit_pad(2);
 		return;
 	}
+	if (node_attr_of(arga[0]) == node_attr_immediate)
+		error(error_type_syntax, "invalid argument");
 	int rel8 = to_rel16(arga[0]->data.as_int - (cur_section->pc + 1));
 	_Bool rel8v = (rel8 < -128 || rel8 > 127);
 	if ((op->type & OPCODE_EXT_TYPE) == OPCODE_REL8) {
@@ -513,7 +515,8 @@ void instr_stack(struct opcode const *op, struct node const *args, enum reg_id s
 
 	int pbyte = 0;
 	for (int i = 0; i < nargs; i++) {
-		if (node_type_of(arga[i]) != node_type_reg) {
+		if (node_type_of(arga[i]) != node_type_reg ||
+		    node_attr_of(arga[i]) != node_attr_none) {
 			error(error_type_syntax, "invalid argument");
 			return;
 		}
@@ -554,7 +557,7 @@ void instr_pair(struct opcode const *op, struct node const *args) {
 		if (type[i] == node_type_reg) {
 			nibble[i] = reg_tfr_nibble[arga[i]->data.as_reg];
 			size[i] = reg_tfr_size[arga[i]->data.as_reg];
-			if (nibble[i] < 0) {
+			if (nibble[i] < 0 || node_attr_of(arga[i]) != node_attr_none) {
 				error(error_type_syntax, "invalid register in inter-register op");
 				return;
 			}
@@ -667,6 +670,8 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 		error(error_type_illegal, "numerical value used in place of register");
 		break;
 	case node_type_reg:
+		if (node_attr_of(arga[0]) != node_attr_none)
+			goto invalid_register;
 		switch (arga[0]->data.as_reg) {
 		case REG_CC:
 			pbyte = 0;
-- 
2.43.0


From 38bbbc9e3b082df760942b7b9977047909840921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 34/52] fix: crash after ENDM with invalid arguments

---
 src/assemble.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/assemble.c b/src/assemble.c
index 1e27ff1..70c646b 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1044,6 +1044,11 @@ static void pseudo_macro(struct prog_line *line) {
 /* TODO: argument not actually checked yet */
 
 static void pseudo_endm(struct prog_line *line) {
+	/* Whether or not its arguments are valid, ENDM ends the definition. */
+	if (defining_macro_ctx) {
+		prog_ctx_free(defining_macro_ctx);
+		defining_macro_ctx = NULL;
+	}
 	int nargs = node_array_count(line->args);
 	struct node **arga = node_array_of(line->args);
 	if (nargs > 1) {
@@ -1054,10 +1059,6 @@ static void pseudo_endm(struct prog_line *line) {
 		error(error_type_syntax, "invalid argument to ENDM");
 		return;
 	}
-	if (!defining_macro_ctx)
-		return;
-	prog_ctx_free(defining_macro_ctx);
-	defining_macro_ctx = NULL;
 }
 
 /* END.  Specify EXEC address. */
-- 
2.43.0


From 47e2d3b050133bd69f68fe1837abf2f8eea34fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 35/52] fix: crash writing symbols file when there are no
 symbols

---
 src/symbol.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbol.c b/src/symbol.c
index b79806a..0bf5d2b 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -117,6 +117,8 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
+	if (!symbols)
+		return NULL;
 	dict_foreach(symbols, (dict_iter_func)add_to_list, &l);
 	return l;
 }
-- 
2.43.0


From 8003f6938c0261dbba2ef7489c36f9b3bbf50e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:15 +0000
Subject: [PATCH 36/52] fix: source ignored from a byte above 127 on

---
 src/lex.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lex.l b/src/lex.l
index 53b1320..c19a684 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -83,7 +83,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(opcode); return WS; }
 \r		/* skip CR */
 {ws}*\n		{ return '\n'; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
@@ -100,7 +100,7 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {ws}+		{ BEGIN(arg); return WS; }
 {ws}*\n		{ BEGIN(INITIAL); return '\n'; }
 \r		/* skip CR */
-.		{ BEGIN(INITIAL); return *yytext; }
+.		{ BEGIN(INITIAL); return (unsigned char)*yytext; }
 
 }
 
@@ -176,7 +176,7 @@ ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); r
 {ws}+		/* skip whitespace */
 \r		/* skip CR */
 \n		{ BEGIN(INITIAL); return *yytext; }
-.		{ return *yytext; }
+.		{ return (unsigned char)*yytext; }
 
 }
 
-- 
2.43.0


From 44c55cdacdaf8baa557386c70050ba3a021b21d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:33 +0000
Subject: [PATCH 37/52] fix: operators after * in exported macros read as
 numbers or strings

---
 src/node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 8e9d060..83b74c9 100644
--- a/src/node.c
+++ b/src/node.c
@@ -389,7 +389,8 @@ void node_print(FILE *f, struct node const *n) {
 
 	/* Simple types */
 	case node_type_pc:
-		fprintf(f, "*");
+		/* After a bare '*', '%' introduces a number and '/' a string */
+		fprintf(f, "(*)");
 		break;
 	case node_type_backref:
 		fprintf(f, "%"PRId64"B", n->data.as_int);
-- 
2.43.0


From b5a5a123cbdc4efd1339fbb1c4272dacc0fa96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 38/52] fix: macros left defined by an earlier pass

---
 src/asm6809.c | 1 +
 src/program.c | 7 ++++++-
 src/program.h | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 0f79bb4..153df2f 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -213,6 +213,7 @@ int main(int argc, char **argv) {
 	for (unsigned pass = 0; pass < max_passes; pass++) {
 		error_clear_all();
 		listing_free_all();
+		prog_free_macros();
 		section_set("CODE", pass);
 		for (struct slist *l = files; l; l = l->next) {
 			struct prog *f = l->data;
diff --git a/src/program.c b/src/program.c
index 2acc1c0..668f79e 100644
--- a/src/program.c
+++ b/src/program.c
@@ -81,8 +81,13 @@ void prog_free(struct prog *f) {
 	free(f);
 }
 
-void prog_free_all(void) {
+void prog_free_macros(void) {
 	slist_free_full(macros, (slist_free_func)prog_free);
+	macros = NULL;
+}
+
+void prog_free_all(void) {
+	prog_free_macros();
 	slist_free_full(files, (slist_free_func)prog_free);
 	prog_free_exports();
 }
diff --git a/src/program.h b/src/program.h
index 522fda7..eb92349 100644
--- a/src/program.h
+++ b/src/program.h
@@ -71,6 +71,7 @@ struct prog *prog_new_file(const char *filename);
 struct prog *prog_new_macro(const char *name);
 void prog_free(struct prog *f);
 void prog_free_all(void);  // for tidying up
+void prog_free_macros(void);
 struct prog *prog_macro_by_name(const char *name);
 
 struct prog_line *prog_line_new(struct node *label, struct node *opcode, struct node *args);
-- 
2.43.0


From 99118b5b2947e1701558df89e2cdf79d6fb96dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 39/52] fix: names left exported by an earlier pass

---
 src/asm6809.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index 153df2f..73307f9 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -214,6 +214,7 @@ int main(int argc, char **argv) {
 		error_clear_all();
 		listing_free_all();
 		prog_free_macros();
+		prog_free_exports();
 		section_set("CODE", pass);
 		for (struct slist *l = files; l; l = l->next) {
 			struct prog *f = l->data;
-- 
2.43.0


From ffe04f4e90366caad6e88a8d1928c3d2a3c4f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:43 +0000
Subject: [PATCH 40/52] fix: symbols defined by option -d in later passes

---
 src/asm6809.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/asm6809.c b/src/asm6809.c
index 73307f9..ecafdb9 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -83,9 +83,10 @@ static struct option long_options[] = {
 };
 
 static struct slist *files = NULL;
+static struct slist *defines = NULL;
 
 static struct node *simple_parse_int(const char *);
-static void define_symbol(const char *);
+static void define_symbol(const char *, unsigned);
 static void close_file(FILE *f, const char *filename);
 static void helptext(void);
 static void versiontext(void);
@@ -126,7 +127,8 @@ int main(int argc, char **argv) {
 			isa = asm6809_isa_6309;
 			break;
 		case 'd':
-			define_symbol(optarg);
+			define_symbol(optarg, 0);
+			defines = slist_append(defines, optarg);
 			break;
 		case 'P':
 			{
@@ -216,6 +218,9 @@ int main(int argc, char **argv) {
 		prog_free_macros();
 		prog_free_exports();
 		section_set("CODE", pass);
+		/* Option -d already defined these for the first pass */
+		for (struct slist *l = defines; l && pass > 0; l = l->next)
+			define_symbol(l->data, pass);
 		for (struct slist *l = files; l; l = l->next) {
 			struct prog *f = l->data;
 			assemble_prog(f, pass);
@@ -351,7 +356,7 @@ static struct node *simple_parse_int(const char *str) {
 	return n;
 }
 
-static void define_symbol(const char *str) {
+static void define_symbol(const char *str, unsigned pass) {
 	char *key = xstrdup(str);
 	char *tmp = strchr(key, '=');
 	struct node *value;
@@ -367,7 +372,7 @@ static void define_symbol(const char *str) {
 		value = node_new_int(1);
 	}
 	// TODO: check that key is a valid symbol name
-	symbol_set(key, value, 0, 0);
+	symbol_set(key, value, 0, pass);
 	free(key);
 	node_free(value);
 }
@@ -435,6 +440,10 @@ static _Noreturn void tidy_up_and_exit(int status) {
 		slist_free(files);
 		files = NULL;
 	}
+	if (defines) {
+		slist_free(defines);
+		defines = NULL;
+	}
 	listing_free_all();
 	prog_free_all();
 	symbol_free_all();
-- 
2.43.0


From 188d5bcd7c0152feff4b88f965a59df9ac1d5cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 41/52] fix: check that exec address is defined once and stable

---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 70c646b..7b15462 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1072,7 +1072,7 @@ static void pseudo_end(struct prog_line *line) {
 	if (!n && node_type_of(arga[0]) != node_type_undef)
 		error(error_type_syntax, "invalid argument to END");
 	node_free(n);
-	symbol_set(".exec", arga[0], asm_pass, 0);
+	symbol_set(".exec", arga[0], 0, asm_pass);
 }
 
 /* Ignore certain historical pseudo-ops */
-- 
2.43.0


From 3cc440d67c3fad9284dfd799b66880013e5654cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:45 +0000
Subject: [PATCH 42/52] fix: symbols and local labels left defined by an
 earlier pass

---
 src/asm6809.c |  1 +
 src/section.c |  1 +
 src/symbol.c  | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 src/symbol.h  |  8 ++++++++
 4 files changed, 57 insertions(+)

diff --git a/src/asm6809.c b/src/asm6809.c
index ecafdb9..49b4c91 100644
--- a/src/asm6809.c
+++ b/src/asm6809.c
@@ -226,6 +226,7 @@ int main(int argc, char **argv) {
 			assemble_prog(f, pass);
 		}
 		section_finish_pass();
+		symbol_finish_pass(pass);
 		/* Only inconsistencies trigger another pass */
 		if (error_level != error_type_inconsistent)
 			break;
diff --git a/src/section.c b/src/section.c
index 776b600..12868a5 100644
--- a/src/section.c
+++ b/src/section.c
@@ -148,6 +148,7 @@ static void verify_section(void *key, void *value, void *data) {
 		sect->spans = NULL;
 		sect->span = NULL;
 	}
+	symbol_local_finish_pass(sect->local_labels, cur_section->pass);
 	if (sect->last_pc != sect->pc || sect->last_put != sect->put) {
 		sect->last_pc = sect->pc;
 		sect->last_put = sect->put;
diff --git a/src/symbol.c b/src/symbol.c
index 0bf5d2b..303411e 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -48,6 +48,7 @@ struct symbol {
 };
 
 struct symbol_local {
+	unsigned pass;
 	unsigned line_number;
 	struct node *node;
 };
@@ -64,6 +65,8 @@ static void init_table(void) {
 }
 
 void symbol_set(const char *key, struct node *value, _Bool changeable, unsigned pass) {
+	/* A symbol first defined after the first pass may already have been
+	 * treated as undefined (i.e. zero) by a condition in this pass. */
 	_Bool is_inconsistent = symbol_force_set(key, value, changeable, pass);
 	if (is_inconsistent && !changeable) {
 		error(error_type_inconsistent, "value of '%s' unstable", key);
@@ -115,6 +118,30 @@ static void add_to_list(const char *key, struct node *value, struct slist **l) {
 	*l = slist_prepend(*l, (void *)key);
 }
 
+struct finish_data {
+	unsigned pass;
+	struct slist *old;
+};
+
+static void finish_symbol(const char *key, struct symbol *s, struct finish_data *data) {
+	if (s->pass != data->pass) {
+		data->old = slist_prepend(data->old, (void *)key);
+		return;
+	}
+}
+
+void symbol_finish_pass(unsigned pass) {
+	struct finish_data data = { .pass = pass, .old = NULL };
+	if (symbols)
+		dict_foreach(symbols, (dict_iter_func)finish_symbol, &data);
+	while (data.old) {
+		const char *key = data.old->data;
+		error(error_type_inconsistent, "symbol '%s' no longer defined", key);
+		data.old = slist_remove(data.old, (void *)key);
+		dict_remove(symbols, key);
+	}
+}
+
 struct slist *symbol_get_list(void) {
 	struct slist *l = NULL;
 	if (!symbols)
@@ -234,6 +261,7 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	}
 	struct node *newn = eval_node(value);
 	struct symbol_local *new_sym = xmalloc(sizeof(*new_sym));
+	new_sym->pass = pass;
 	new_sym->line_number = line_number;
 	new_sym->node = newn;
 	if (old_sym ? !node_equal(old_sym->node, newn) : (pass > 0)) {
@@ -245,3 +273,22 @@ void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 	}
 	gl_sortedlist_add(sym_list, sym_local_compar, new_sym);
 }
+
+static void finish_local_list(void *key, gl_list_t sym_list, unsigned const *pass) {
+	gl_list_iterator_t iter = gl_list_iterator(sym_list);
+	const void *elt;
+	gl_list_node_t node;
+	while (gl_list_iterator_next(&iter, &elt, &node)) {
+		struct symbol_local const *sym = elt;
+		if (sym->pass != *pass) {
+			error(error_type_inconsistent,
+			      "local label '%ld' no longer defined", (long)(intptr_t)key);
+			gl_list_remove_node(sym_list, node);
+		}
+	}
+	gl_list_iterator_free(&iter);
+}
+
+void symbol_local_finish_pass(struct dict *table, unsigned pass) {
+	dict_foreach(table, (dict_iter_func)finish_local_list, &pass);
+}
diff --git a/src/symbol.h b/src/symbol.h
index 03705f6..0398e71 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -45,6 +45,13 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 struct node *symbol_try_get(const char *key);
 struct node *symbol_get(const char *key);
 
+/*
+ * Finish a pass.  Symbols that were only defined in an earlier pass are
+ * removed.  Each is an inconsistency.
+ */
+
+void symbol_finish_pass(unsigned pass);
+
 /*
  * Return list of all symbol names.  Data of type 'const char *', do not free.
  */
@@ -58,5 +65,6 @@ struct node *symbol_local_backref(struct dict *table, intptr_t key, unsigned lin
 struct node *symbol_local_fwdref(struct dict *table, intptr_t key, unsigned line_number);
 void symbol_local_set(struct dict *table, intptr_t key, unsigned line_number,
 		      struct node *value, unsigned pass);
+void symbol_local_finish_pass(struct dict *table, unsigned pass);
 
 #endif
-- 
2.43.0


From 6407d2939a9b97f4c23fd5294dcd51bbe807564b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 43/52] fix: another pass for symbols a condition took for zero
 before they were defined

---
 src/symbol.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/symbol.c b/src/symbol.c
index 303411e..0583f8c 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -55,6 +55,10 @@ struct symbol_local {
 
 static struct dict *symbols = NULL;
 
+/* Undefined symbols that were treated as zero during this pass. */
+
+static struct dict *assumed_zero = NULL;
+
 static void symbol_free(struct symbol *s) {
 	node_free(s->node);
 	free(s);
@@ -65,14 +69,19 @@ static void init_table(void) {
 }
 
 void symbol_set(const char *key, struct node *value, _Bool changeable, unsigned pass) {
-	/* A symbol first defined after the first pass may already have been
-	 * treated as undefined (i.e. zero) by a condition in this pass. */
 	_Bool is_inconsistent = symbol_force_set(key, value, changeable, pass);
 	if (is_inconsistent && !changeable) {
 		error(error_type_inconsistent, "value of '%s' unstable", key);
 	}
 }
 
+/* If a symbol is first defined after the first pass, or after a condition
+ * treated it as zero, another pass may generate something else. */
+
+static _Bool undefined_matters(const char *key, unsigned pass) {
+	return pass > 0 || (assumed_zero && dict_lookup(assumed_zero, key));
+}
+
 _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, unsigned pass) {
 	if (!symbols)
 		init_table();
@@ -84,9 +93,7 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	struct symbol *news = xmalloc(sizeof(*news));
 	news->pass = pass;
 	news->node = eval_node(value);
-	/* A symbol first defined after the first pass may already have been
-	 * treated as undefined (i.e. zero) by a condition in this pass. */
-	_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : (pass > 0);
+	_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : undefined_matters(key, pass);
 	char *key_copy = xstrdup(key);
 	dict_insert(symbols, key_copy, news);
 	return is_inconsistent;
@@ -105,6 +112,9 @@ struct node *symbol_get(const char *key) {
 	struct node *n = symbol_try_get(key);
 	if (!n) {
 		if (symbol_ignore_undefined) {
+			if (!assumed_zero)
+				assumed_zero = dict_new_full(dict_str_hash, dict_str_equal, free, NULL);
+			dict_add(assumed_zero, xstrdup(key));
 			return node_new_int(0);
 		} else {
 			error(error_type_inconsistent, "symbol '%s' not defined", key);
@@ -140,6 +150,10 @@ void symbol_finish_pass(unsigned pass) {
 		data.old = slist_remove(data.old, (void *)key);
 		dict_remove(symbols, key);
 	}
+	if (assumed_zero) {
+		dict_destroy(assumed_zero);
+		assumed_zero = NULL;
+	}
 }
 
 struct slist *symbol_get_list(void) {
@@ -151,6 +165,9 @@ struct slist *symbol_get_list(void) {
 }
 
 void symbol_free_all(void) {
+	if (assumed_zero)
+		dict_destroy(assumed_zero);
+	assumed_zero = NULL;
 	if (!symbols)
 		return;
 	dict_destroy(symbols);
-- 
2.43.0


From 753b7c28353295f9334ef57e24719449fed8629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:47 +0000
Subject: [PATCH 44/52] fix: another pass when the final value of a SET symbol
 changed

---
 src/symbol.c | 11 +++++++++++
 src/symbol.h |  3 ++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/symbol.c b/src/symbol.c
index 0583f8c..49af3ce 100644
--- a/src/symbol.c
+++ b/src/symbol.c
@@ -44,7 +44,9 @@ _Bool symbol_ignore_undefined = 0;
 
 struct symbol {
 	unsigned pass;
+	_Bool changeable;
 	struct node *node;
+	struct node *last;  // value at the end of the previous pass, or NULL
 };
 
 struct symbol_local {
@@ -61,6 +63,7 @@ static struct dict *assumed_zero = NULL;
 
 static void symbol_free(struct symbol *s) {
 	node_free(s->node);
+	node_free(s->last);
 	free(s);
 }
 
@@ -92,7 +95,12 @@ _Bool symbol_force_set(const char *key, struct node *value, _Bool changeable, un
 	}
 	struct symbol *news = xmalloc(sizeof(*news));
 	news->pass = pass;
+	news->changeable = changeable;
 	news->node = eval_node(value);
+	if (olds)
+		news->last = node_ref(olds->pass == pass ? olds->last : olds->node);
+	else
+		news->last = NULL;
 	_Bool is_inconsistent = olds ? !node_equal(olds->node, news->node) : undefined_matters(key, pass);
 	char *key_copy = xstrdup(key);
 	dict_insert(symbols, key_copy, news);
@@ -138,6 +146,9 @@ static void finish_symbol(const char *key, struct symbol *s, struct finish_data
 		data->old = slist_prepend(data->old, (void *)key);
 		return;
 	}
+	/* Only the final value counts of one that may change within a pass */
+	if (s->changeable && (s->last ? !node_equal(s->last, s->node) : undefined_matters(key, s->pass)))
+		error(error_type_inconsistent, "value of '%s' unstable", key);
 }
 
 void symbol_finish_pass(unsigned pass) {
diff --git a/src/symbol.h b/src/symbol.h
index 0398e71..0545790 100644
--- a/src/symbol.h
+++ b/src/symbol.h
@@ -47,7 +47,8 @@ struct node *symbol_get(const char *key);
 
 /*
  * Finish a pass.  Symbols that were only defined in an earlier pass are
- * removed.  Each is an inconsistency.
+ * removed.  Each is an inconsistency, as is a changeable symbol that did not
+ * finish with the same value as in the previous pass.
  */
 
 void symbol_finish_pass(unsigned pass);
-- 
2.43.0


From 9c6f10a6425dffb509203309f93f9c55203835b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:49 +0000
Subject: [PATCH 45/52] fix: strings after / in exported macros

---
 src/node.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/node.c b/src/node.c
index 83b74c9..73e6fdd 100644
--- a/src/node.c
+++ b/src/node.c
@@ -423,7 +423,11 @@ void node_print(FILE *f, struct node const *n) {
 		} else if (n->data.as_oper.nargs == 2) {
 			node_print(f, n->data.as_oper.args[0]);
 			fprintf(f, "%s", opstr(n->data.as_oper.oper));
+			/* No string is recognised directly after '/' */
+			_Bool text = (node_type_of(n->data.as_oper.args[1]) == node_type_text);
+			if (text) fprintf(f, "(");
 			node_print(f, n->data.as_oper.args[1]);
+			if (text) fprintf(f, ")");
 		} else if (n->data.as_oper.nargs == 3) {
 			node_print(f, n->data.as_oper.args[0]);
 			fprintf(f, "?");
-- 
2.43.0


From e6140af6dc34553db2a9a4ad4c2d6b7b5f342dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 46/52] fix: prefixing a register symbol or argument removed
 its increment elsewhere

---
 src/node.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/node.c b/src/node.c
index 73e6fdd..2b008aa 100644
--- a/src/node.c
+++ b/src/node.c
@@ -117,12 +117,19 @@ struct node *node_set_attr(struct node *n, enum node_attr attr) {
 	return n;
 }
 
-/* Allow register attributes to override "none" */
+/* Allow register attributes to override "none".  If a register is also
+ * referenced elsewhere (a symbol, a positional variable), it has to keep its
+ * attribute there. */
 
 struct node *node_set_attr_if(struct node *n, enum node_attr attr) {
 	if (!n)
 		return NULL;
 	if (attr != node_attr_none) {
+		if (n->type == node_type_reg && n->ref > 1) {
+			struct node *new = node_new_reg(n->data.as_reg);
+			node_free(n);
+			n = new;
+		}
 		n->attr = attr;
 		return n;
 	}
-- 
2.43.0


From e94a45b082c86e47db1075f7713c5e38a4d26811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 47/52] fix: a register symbol defined with a prefix was listed
 so that it could not be read

---
 src/program.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/program.c b/src/program.c
index 668f79e..28180c4 100644
--- a/src/program.c
+++ b/src/program.c
@@ -236,8 +236,7 @@ static void print_symbol(const char *key, FILE *f) {
 			return;
 		int delim = 0;
 		enum node_attr old_attr = node_attr_of(n);
-		if (node_type_of(n) != node_type_reg)
-			n = node_set_attr(n, node_attr_none);
+		n = node_set_attr_if(n, node_attr_none);
 		switch (node_type_of(n)) {
 		default:
 			error(error_type_syntax, "can't export symbol type");
-- 
2.43.0


From db2a3338a977772651b7351a65c126418d7d0710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:56 +0000
Subject: [PATCH 48/52] fix: characters above 127 in strings and constants were
 taken for negative numbers

---
 src/eval.c | 2 +-
 src/lex.l  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eval.c b/src/eval.c
index 75058eb..549f558 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -206,7 +206,7 @@ struct node *eval_int(struct node *n) {
 		{
 			uint32_t value = 0;
 			for (const char *s = n->data.as_string; *s; s++)
-				value = (value << 8) | *s;
+				value = (value << 8) | (uint8_t)*s;
 			return node_set_attr(node_new_int(value), n->attr);
 		}
 	default:
diff --git a/src/lex.l b/src/lex.l
index c19a684..01ea8fa 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -69,8 +69,8 @@ rword	[A-Za-z0-9_\.]+
 {decimal}	{ yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
+'.		{ yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 \!		{ yylval.as_int = 0; return INTEGER; }
 
 {word}		{ return id_or_reg(); }
@@ -152,8 +152,8 @@ ${hexdigit}+	{ yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 {decimal}	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext, NULL, 10); return INTEGER; }
 ${hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+1, NULL, 16); return INTEGER; }
 0x{hexdigit}+	{ BEGIN(argnostr); yylval.as_int = strtoimax(yytext+2, NULL, 16); return INTEGER; }
-'.'		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
-'.		{ BEGIN(argnostr); yylval.as_int = *(yytext+1); return INTEGER; }
+'.'		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
+'.		{ BEGIN(argnostr); yylval.as_int = (unsigned char)*(yytext+1); return INTEGER; }
 [0-9]*\.[0-9]+	|
 {decimal}\.	{ BEGIN(argnostr); yylval.as_float = strtod(yytext, NULL); return FLOAT; }
 
-- 
2.43.0


From 9b0faf02746e28f84533379a4a3d1ab4f6b6ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 49/52] fix: the low byte of large floating point values in FCB
 and FCC

Values past the range of a 32 bit integer were converted to one, giving 0.
---
 src/assemble.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assemble.c b/src/assemble.c
index 7b15462..1b84aab 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -778,7 +778,7 @@ static void emit_formatted(char const *ins, int argn, struct node *n,
 		section_emit_uint8(n->data.as_int | or_last);
 		break;
 	case node_type_float:
-		section_emit_uint8((int32_t)n->data.as_float | or_last);
+		section_emit_uint8((int64_t)n->data.as_float | or_last);
 		break;
 	case node_type_string:
 		for (char const *c = n->data.as_string; *c; c++) {
-- 
2.43.0


From 5604cecdac5ea32a97c705c8fefd0d0f427d3c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:59 +0000
Subject: [PATCH 50/52] fix: the register number in BAND and similar
 instructions was ignored

A number in place of the register (accepted with a warning) was or-ed onto
the value used for invalid registers, so it was always encoded as 3.
---
 src/instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/instr.c b/src/instr.c
index d1f6a96..079e4af 100644
--- a/src/instr.c
+++ b/src/instr.c
@@ -666,7 +666,7 @@ void instr_reg_mem(struct opcode const *op, struct node const *args) {
 	case node_type_undef:
 		break;
 	case node_type_int:
-		pbyte |= (arga[0]->data.as_int & 3) << 6;
+		pbyte = (arga[0]->data.as_int & 3) << 6;
 		error(error_type_illegal, "numerical value used in place of register");
 		break;
 	case node_type_reg:
-- 
2.43.0


From 81643d2878180dfb31e1412e73dbfdf0083df619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 51/52] fix: a file for INCLUDEBIN that cannot be read is an
 error

Read errors (INCLUDEBIN of a directory, for example) were ignored, leaving
the data out.
---
 src/assemble.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/assemble.c b/src/assemble.c
index 1b84aab..61b0117 100644
--- a/src/assemble.c
+++ b/src/assemble.c
@@ -1011,6 +1011,8 @@ static void pseudo_includebin(struct prog_line *line) {
 	while ((c = fgetc(f)) != EOF) {
 		section_emit_uint8(c);
 	}
+	if (ferror(f))
+		error(error_type_fatal, "error reading file: %s", arga[0]->data.as_string);
 	fclose(f);
 }
 
-- 
2.43.0


From 332732b800911031d7b7b3802116acfd6948fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:02 +0000
Subject: [PATCH 52/52] fix: lines longer than 16384 characters ended the file
 without a message

With room for one more character in the scanner's buffer, fgets() was asked
for none, which looks like the end of the file.
---
 src/lex.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.l b/src/lex.l
index 01ea8fa..47c53cf 100644
--- a/src/lex.l
+++ b/src/lex.l
@@ -236,7 +236,7 @@ static _Bool need_eol = 1;
 static int read_line(char *buf, int max_size) {
 	if (!yyin)
 		return YY_NULL;
-	char *r = fgets(buf, max_size, yyin);
+	char *r = fgets(buf, max_size + 1, yyin);
 	if (!r) {
 		if (!feof(yyin)) {
 			error(error_type_fatal, "scanner read failed");
-- 
2.43.0

