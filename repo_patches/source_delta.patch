From 552dbd027cf7b23352352c35c93b593636ceff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:21 +0000
Subject: [PATCH 01/97] fix: cmene containing yy ran the bad-cmene automaton
 off its table

---
 bctables.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bctables.in b/bctables.in
index c090a8f..53434f2 100644
--- a/bctables.in
+++ b/bctables.in
@@ -51,6 +51,7 @@ Block MAIN
     State y
         APOS -> a
         COMMA ; VOWEL|Y -> v
+        Y -> y
         CONS -> c
         -> nosplit.in
 
-- 
2.43.0


From 7f2f5021ff540e49ee4799bc3e761b32924a51d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 02/97] fix: jbofihe never ended when the text ended inside a
 comment

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index 0042c2b..64e60dd 100644
--- a/lex1.c
+++ b/lex1.c
@@ -409,6 +409,8 @@ parse_file(FILE *f)
       } else if (c == '\n') {
         line++;
         column=0;
+      } else if (c == EOF) {
+        goto done;
       }
       
     } else {
-- 
2.43.0


From 09745b91663bf3f7fa34d62d956cc65b2c98f0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 03/97] fix: words after a digit or ':' were reported at the
 digit's position

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index 64e60dd..785b92e 100644
--- a/lex1.c
+++ b/lex1.c
@@ -422,11 +422,13 @@ parse_file(FILE *f)
         SET_START;
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else if (c == ':') {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else {               
         switch (c) {
           case ' ':
-- 
2.43.0


From 6eb5f7494b413f7ba7eaa3e4cae67d7b1078f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:31 +0000
Subject: [PATCH 04/97] fix: a long zoi delimiter overran its buffer

---
 lex1.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lex1.c b/lex1.c
index 785b92e..23ed651 100644
--- a/lex1.c
+++ b/lex1.c
@@ -20,7 +20,7 @@
 
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[64];
+static char *zoi_delim;
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
@@ -256,11 +256,11 @@ process_word(char *buf, int start_line, int start_column)
       tok->start_column = zoi_start_col;
       tok->type = N_ZOI;
       tok->data.zoi.form = new_string(zoi_form);
-      tok->data.zoi.term = new_string(zoi_delim);
+      tok->data.zoi.term = zoi_delim;
       tok->data.zoi.text = zoi_data;
       add_token(tok);
       zoi_data = NULL;
-      zoi_delim[0] = 0;
+      zoi_delim = NULL;
     } else {
       if (zoi_data[0]) {
         zoi_data = extend_string(zoi_data, " ");
@@ -271,7 +271,7 @@ process_word(char *buf, int start_line, int start_column)
   }
 
   if (zoi_delim_next) {
-    strcpy(zoi_delim, buf);
+    zoi_delim = new_string(buf);
     zoi_data = new_string("");
     zoi_delim_next = 0;
     return 1;
@@ -389,7 +389,7 @@ parse_file(FILE *f)
   int new_tok;
   int paren_depth = 0;
 
-  zoi_delim[0] = 0;
+  zoi_delim = NULL;
   zoi_delim_next = 0;
 
   line = 1;
-- 
2.43.0


From 3a648293cb7ebee5af1a7a8e5d288c3f3491feea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 05/97] fix: names with several embedded la/doi (or many commas
 in one) overran the stack

---
 lex1.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lex1.c b/lex1.c
index 23ed651..51849a1 100644
--- a/lex1.c
+++ b/lex1.c
@@ -185,9 +185,13 @@ process_cmene(char *buf, int start_line, int start_column,
   TreeNode *tok;
 
   if (is_bad)  {
-    char prefix[65536], labuf[8];
+    char *prefix, *labuf;
     char *p, *q;
     int len1, len2;
+    /* The parts may be long (they may contain commas), and this recurses once
+     * for each part split off, so don't put them on the stack. */
+    prefix = new_array(char, ladoi - buf + 1);
+    labuf = new_array(char, tail - ladoi + 1);
     for (p=buf, q=prefix, len1=0; p!=ladoi; len1++) *q++ = *p++;
     *q = 0;
     for (p=ladoi, q=labuf, len2=0; p!=tail; len2++) *q++ = *p++;
@@ -196,6 +200,8 @@ process_cmene(char *buf, int start_line, int start_column,
     if (prefix[0]) process_word(prefix, start_line, start_column);
     process_word(labuf, start_line, start_column+len1);
     process_word(tail, start_line, start_column+len1+len2);
+    Free(prefix);
+    Free(labuf);
   } else {
     tok = new_node();
     tok->start_line = start_line;
@@ -241,9 +247,8 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
 static int
 process_word(char *buf, int start_line, int start_column)
 {
-  char buf2[65536];
   TreeNode *tok;
-  char *word_starts[65536];
+  char **word_starts;
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
@@ -295,6 +300,7 @@ process_word(char *buf, int start_line, int start_column)
 
   /* Analyse word type */
   
+  word_starts = new_array(char *, strlen(buf) + 1);
   pws = pwe = word_starts;
   /* FIXME: Need to get morf_xtra info back here, to help with splitting bad
    * cmene */
@@ -341,6 +347,7 @@ process_word(char *buf, int start_line, int start_column)
       {
         char **pw;
         char *p, *q;
+        char *buf2 = new_array(char, strlen(buf) + 1);
         for (pw=pws; pw<=pwe; pw++) {
           incr = 0;
           for (p=*pw, q=buf2; ((pw<pwe)&&(p<*(pw+1)))||((pw==pwe)&&(*p));) {
@@ -351,12 +358,14 @@ process_word(char *buf, int start_line, int start_column)
           process_cmavo(buf2, start_line, column);
           column += incr;
         }
+        Free(buf2);
       }
       break;
     default:
       assert(0);
       break;
   }
+  Free(word_starts);
   return 1;
 }
 
-- 
2.43.0


From 52c0c2d52467eb7efc5cd2051f729435f0572161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 06/97] fix: a word of 64K characters or more overran the word
 buffer

---
 lex1.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 51849a1..1b8798b 100644
--- a/lex1.c
+++ b/lex1.c
@@ -371,6 +371,7 @@ process_word(char *buf, int start_line, int start_column)
 
 #define CLOSE_TOKEN \
   *p = 0; \
+  too_long = 0; \
   if (p > buffer) { \
     process_word(buffer, start_line, start_column); \
     new_tok = 1; \
@@ -397,6 +398,7 @@ parse_file(FILE *f)
                                        shut up the compiler */
   int new_tok;
   int paren_depth = 0;
+  int too_long = 0;
 
   zoi_delim = NULL;
   zoi_delim_next = 0;
@@ -458,7 +460,13 @@ parse_file(FILE *f)
             break;
           default:
             SET_START;
-            *p++ = c;
+            if (p < buffer + sizeof(buffer) - 1) {
+              *p++ = c;
+            } else if (!too_long) {
+              too_long = 1;
+              fprintf(stderr, "Word too long at line %d column %d\n", start_line, start_column);
+              had_bad_tokens = 1;
+            }
             break;
         }
       }
-- 
2.43.0


From 1d67441de0f5772aff47b41acfa09acaadcc38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 07/97] fix: an empty lo'u le'u quotation ran off the token
 list

---
 lex2.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index 133f5f4..75027dd 100644
--- a/lex2.c
+++ b/lex2.c
@@ -418,7 +418,11 @@ handle_lohu(void)
       } while (1);
 
       x->type = N_LOhU;
-      x->data.lohu.text = build_string_from_nodes(start, end);
+      if (start == term) {
+        x->data.lohu.text = new_string(""); /* Nothing quoted */
+      } else {
+        x->data.lohu.text = build_string_from_nodes(start, end);
+      }
 
       term->next->prev = x;
       x->next = term->next;
-- 
2.43.0


From d2950daff951acf6978f144dbd61d211aef92ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 08/97] fix: bu at the start of the text failed an assertion

---
 lex2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lex2.c b/lex2.c
index 75027dd..75d7872 100644
--- a/lex2.c
+++ b/lex2.c
@@ -589,6 +589,7 @@ handle_bu(void)
     if (x->type == N_CMAVO &&
         x->data.cmavo.selmao == BU) {
       y = x->prev;
+      if (y == &toks) continue; /* Nothing to absorb : the parser will reject it */
       x->type = N_BU;
       switch (y->type) {
         case N_CMAVO:
-- 
2.43.0


From f1d8338aed47c045aaa59cb762e457fa5eab0f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 09/97] fix: ba'e in front of a word made a letteral by bu was
 lost

---
 lex2.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lex2.c b/lex2.c
index 75d7872..2d57906 100644
--- a/lex2.c
+++ b/lex2.c
@@ -657,6 +657,13 @@ handle_bu(void)
           break;
       }
 
+      /* Any BAhE on y comes before those on the BU itself */
+      if (y->bahe) {
+        TreeNode **b = &x->bahe;
+        while (*b) b = &(*b)->bahe;
+        *b = y->bahe;
+      }
+
       /* Unlink y from the chain */
       y->prev->next = x;
       x->prev = y->prev;
-- 
2.43.0


From 39f3f9c7eccfe8dd0321b5b89c9288d2c8dba3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 10/97] fix: lo'u .. le'u as part of a zei compound failed an
 assertion

---
 lex2.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index 2d57906..112dd9b 100644
--- a/lex2.c
+++ b/lex2.c
@@ -223,6 +223,10 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         len += 3 + strlen(y->data.zo.text);
         break;
      
+      case N_LOhU:
+        len += 10 + strlen(y->data.lohu.text);
+        break;
+
       case N_ZEI:
         /* Not particularly efficient, the strings get built again later for now! */
         len += strlen(y->data.zei.sep_with_zei);
@@ -234,7 +238,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -277,6 +280,12 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         strcat(result, y->data.zo.text);
         break;
 
+      case N_LOhU:
+        strcat(result, "lo'u ");
+        strcat(result, y->data.lohu.text);
+        strcat(result, " le'u");
+        break;
+
       case N_ZEI:
         strcat(result, y->data.zei.sep_with_zei);
         break;
@@ -287,7 +296,6 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
-- 
2.43.0


From b1944ecbf00a290ef83ae82deb65f194da7dc75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:07 +0000
Subject: [PATCH 11/97] fix: a text ending in the beginning of a tense crashed
 the parser

---
 categ.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/categ.c b/categ.c
index 4377bd1..26fe00f 100644
--- a/categ.c
+++ b/categ.c
@@ -377,7 +377,10 @@ static void categorize_tenses(TreeNode *head)/*{{{*/
         goto next_outer_loop;
       }
     }
-    if (y == head) {
+    if ((y == head) && !last_ok_token) {
+      /* The text ends inside something that isn't a tense */
+      next_tok = x->next;
+    } else if (y == head) {
       /* Run to end of text */
       insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
       insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
-- 
2.43.0


From 79efdd66329d5a3a9e617115098d810fcfbb4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:21 +0000
Subject: [PATCH 12/97] fix: nai and cai words after indicators were lost or
 misplaced in the output

---
 lex2.c   |   5 ++-
 nodes.h  |   3 +-
 output.c |  34 ++++++++++-----
 tree.c   | 131 ++++++++++++++++++++++++-------------------------------
 4 files changed, 85 insertions(+), 88 deletions(-)

diff --git a/lex2.c b/lex2.c
index 112dd9b..4b1da67 100644
--- a/lex2.c
+++ b/lex2.c
@@ -816,8 +816,9 @@ pair_off_indicator_suffixes(void)
               xci->code = CC_RUhENAI;
               break;
             case CC_CUhI:
-              /* Nothing to do, this is the neutral case so you
-                 can't invert it */
+              /* This is the neutral case so you can't invert it, but the word
+                 is still part of the text */
+              xci->code = CC_CUhINAI;
               break;
             case CC_PEI:
               xci->code = CC_PEINAI;
diff --git a/nodes.h b/nodes.h
index 0ae7430..186d59f 100644
--- a/nodes.h
+++ b/nodes.h
@@ -286,7 +286,8 @@ typedef struct x_caiindicator {
     CC_SAINAI,
     CC_CAINAI,
     CC_PEI,
-    CC_PEINAI
+    CC_PEINAI,
+    CC_CUhINAI
   } code;
 } XCaiIndicator;
 
diff --git a/output.c b/output.c
index dad7fd5..3352467 100644
--- a/output.c
+++ b/output.c
@@ -368,39 +368,46 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
   }
 
   xci = prop_cai_indicator(x, NO);
+  buffer[0] = 0;
   if (xci) {
+    trans = NULL;
     switch (xci->code) {
       case CC_CAI:
-        strcpy(buffer, translate("cai"));
+        trans = translate("cai");
         break;
       case CC_SAI:
-        strcpy(buffer, translate("sai"));
+        trans = translate("sai");
         break;
       case CC_RUhE:
-        strcpy(buffer, translate("ru'e"));
+        trans = translate("ru'e");
         break;
       case CC_CUhI:
-        strcpy(buffer, translate("cu'i"));
+        trans = translate("cu'i");
         break;
       case CC_RUhENAI:
-        strcpy(buffer, translate("ru'enai"));
+        trans = translate("ru'enai");
         break;
       case CC_SAINAI:
-        strcpy(buffer, translate("sainai"));
+        trans = translate("sainai");
         break;
       case CC_CAINAI:
-        strcpy(buffer, translate("cainai"));
+        trans = translate("cainai");
         break;
       case CC_PEI:
-        strcpy(buffer, translate("pei"));
+        trans = translate("pei");
         break;
       case CC_PEINAI:
-        strcpy(buffer, translate("peinai"));
+        trans = translate("peinai");
+        break;
+      case CC_CUhINAI:
+        trans = translate("cu'inai");
         break;
     }
-    strcat(buffer, " ");
-  } else {
-    buffer[0] = 0;
+    /* The dictionary need not have an entry for it */
+    if (trans) {
+      strcpy(buffer, trans);
+      strcat(buffer, " ");
+    }
   }
 
   strcpy(loj, cmavo_table[x->data.cmavo.code].cmavo);
@@ -446,6 +453,9 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
       case CC_PEINAI:
         strcat(loj, " peinai");
         break;
+      case CC_CUhINAI:
+        strcat(loj, " cu'inai");
+        break;
     }
   }
 
diff --git a/tree.c b/tree.c
index 661d06a..da9cf11 100644
--- a/tree.c
+++ b/tree.c
@@ -89,6 +89,53 @@ show_indent(int indent)
 }
 
 
+/*++++++++++++++++++++++++++++++
+  Get the NAI and CAI words that the lexer attached to an indicator (of
+  whatever selma'o), in the order they came in the text.  Return how many.
+  ++++++++++++++++++++++++++++++*/
+
+static int
+indicator_suffixes(TreeNode *x, char **words)
+{
+  XCaiIndicator *xci;
+  int n = 0;
+
+  if (prop_neg_indicator(x, NO)) {
+    words[n++] = "nai";
+  }
+  xci = prop_cai_indicator(x, NO);
+  if (xci) {
+    switch (xci->code) {
+      case CC_CAI:
+      case CC_CAINAI:
+        words[n++] = "cai"; break;
+      case CC_SAI:
+      case CC_SAINAI:
+        words[n++] = "sai"; break;
+      case CC_RUhE:
+      case CC_RUhENAI:
+        words[n++] = "ru'e"; break;
+      case CC_CUhI:
+      case CC_CUhINAI:
+        words[n++] = "cu'i"; break;
+      case CC_PEI:
+      case CC_PEINAI:
+        words[n++] = "pei"; break;
+    }
+    switch (xci->code) {
+      case CC_CAINAI:
+      case CC_SAINAI:
+      case CC_RUhENAI:
+      case CC_CUhINAI:
+      case CC_PEINAI:
+        words[n++] = "nai"; break;
+      default:
+        break;
+    }
+  }
+  return n;
+}
+
 /*++++++++++++++++++++++++++++++
   
   ++++++++++++++++++++++++++++++*/
@@ -97,6 +144,7 @@ static void
 print_tree(TreeNode *x, int indent)
 {
   int i, n;
+  char *suffixes[3];
 
   if (x->type == N_NONTERM) {
     n = x->data.nonterm.nchildren;
@@ -125,56 +173,10 @@ print_tree(TreeNode *x, int indent)
         } else {
           printf("CMAVO : %s [%s]\n", cmavo_table[code].cmavo,
                                       selmao_names[cmavo_table[code].ssm_code]);
-          if (cmavo_table[code].selmao == UI) {
-            XCaiIndicator *xci;
-            if (prop_neg_indicator(x, NO)) {
-              show_indent(indent);
-              printf("CMAVO : nai [NAI]\n");
-            }
-            xci = prop_cai_indicator(x, NO);
-            if (xci) {
-              switch (xci->code) {
-                case CC_CAI:
-                  show_indent(indent);
-                  printf("CMAVO : cai [CAI]\n"); break;
-                case CC_SAI:
-                  show_indent(indent);
-                  printf("CMAVO : sai [CAI]\n"); break;
-                case CC_RUhE:
-                  show_indent(indent);
-                  printf("CMAVO : ru'e [CAI]\n"); break;
-                case CC_CUhI:
-                  show_indent(indent);
-                  printf("CMAVO : cu'i [CAI]\n"); break;
-                case CC_PEI:
-                  show_indent(indent);
-                  printf("CMAVO : pei [CAI]\n"); break;
-                case CC_CAINAI:
-                  show_indent(indent);
-                  printf("CMAVO : cai [CAI]\n");
-                  show_indent(indent);
-                  printf("CMAVO : nai [NAI]\n"); break;
-                case CC_SAINAI:
-                  show_indent(indent);
-                  printf("CMAVO : sai [CAI]\n");
-                  show_indent(indent);
-                  printf("CMAVO : nai [NAI]\n"); break;
-                case CC_RUhENAI:
-                  show_indent(indent);
-                  printf("CMAVO : ru'e [CAI]\n");
-                  show_indent(indent);
-                  printf("CMAVO : nai [NAI]\n"); break;
-                case CC_PEINAI:
-                  show_indent(indent);
-                  printf("CMAVO : pei [CAI]\n");
-                  show_indent(indent);
-                  printf("CMAVO : nai [NAI]\n"); break;
-              }
-            }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf("CMAVO : nai [NAI]\n");
-            }
+          n = indicator_suffixes(x, suffixes);
+          for (i=0; i<n; i++) {
+            show_indent(indent);
+            printf("CMAVO : %s [%s]\n", suffixes[i], strcmp(suffixes[i], "nai") ? "CAI" : "NAI");
           }
         }
       }
@@ -307,6 +309,7 @@ static void
 print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
 {
   int i, n;
+  char *suffixes[3];
   TreeNode *c1, *c2;
   Conversion child_conv;
   char *english;
@@ -367,29 +370,11 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
         } else {
           int code = x->data.cmavo.code;
           printf("%s", cmavo_table[code].cmavo);
-          if (cmavo_table[code].selmao == UI) {
-            XCaiIndicator *xci;
-            if (prop_neg_indicator(x, NO)) {
-              printf(" nai");
-            }
-            xci = prop_cai_indicator(x, NO);
-            if (xci) {
-              switch (xci->code) {
-                case CC_CAI: printf(" cai"); break;
-                case CC_SAI: printf(" sai"); break;
-                case CC_RUhE: printf(" ru'e"); break;
-                case CC_CUhI: printf(" cu'i"); break;
-                case CC_PEI: printf(" pei"); break;
-                case CC_CAINAI: printf(" cai nai"); break;
-                case CC_SAINAI: printf(" sai nai"); break;
-                case CC_RUhENAI: printf(" ru'e nai"); break;
-                case CC_PEINAI: printf(" pei"); break;
-              }
-            }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf(" nai");
-            }
+          n = indicator_suffixes(x, suffixes);
+          for (i=0; i<n; i++) {
+            /* The nai of 'pei nai' has never been shown in this format */
+            if (i > 0 && !strcmp(suffixes[i-1], "pei")) break;
+            printf(" %s", suffixes[i]);
           }
         }
         if (do_glossing) {
-- 
2.43.0


From 3320a82388b086149fa73d4e48a1ced902b1a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 13/97] fix: bracketed output showed la'o quotations as zoi

---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index da9cf11..0d6d482 100644
--- a/tree.c
+++ b/tree.c
@@ -419,7 +419,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
 
       case N_ZOI:
         SPACE_B4_TEXT;
-        printf("zoi %s %s %s", x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
+        printf("%s %s %s %s", x->data.zoi.form, x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
         break;
         
       case N_ZO:
-- 
2.43.0


From 9c316349fc9d301d6c7ec0b159892a0fde20944f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:22 +0000
Subject: [PATCH 14/97] fix: jbofihe -w without an argument crashed

---
 main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main.c b/main.c
index 0ab9ae2..0cd320f 100644
--- a/main.c
+++ b/main.c
@@ -211,6 +211,10 @@ main (int argc, char **argv)
       } else {
         /* Get next argument */
         --argc, ++argv;
+        if (!argc) {
+          fprintf(stderr, "Option -w needs an argument\n");
+          exit(1);
+        }
         opt_output_width = atoi(*argv);
       }
     } else if (!strcmp(*argv, "--help")) {
-- 
2.43.0


From 83bc877da7fa4a1ad19db7896bde2973e2c69b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 15/97] fix: terms before 'gihek ke' bridi tails got places
 from an uninitialised vector

---
 terms.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/terms.c b/terms.c
index af6a9cf..e8c879d 100644
--- a/terms.c
+++ b/terms.c
@@ -1343,11 +1343,11 @@ static void process_bridi_tail(TreeNode *bt, TermVector *pre, TermVector *post)/
         process_bridi_tail_1(bt1, pre, &new_post);
         process_bridi_tail(btc, pre, &new_post);
       } else {
-        process_bridi_tail_1(bt1, pre, &new_post);
+        process_bridi_tail_1(bt1, pre, post);
         process_bridi_tail(btc, pre, post);
       }
     } else {
-      process_bridi_tail_1(bt1, pre, &new_post);
+      process_bridi_tail_1(bt1, pre, post);
       process_bridi_tail(btc, pre, post);
     }
   }
-- 
2.43.0


From b23a156e7cbca0a34c73c67852515f5e336264d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 16/97] fix: more sumti or fai places than MAX_POS ran off the
 place tables

---
 terms.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/terms.c b/terms.c
index e8c879d..4ddb383 100644
--- a/terms.c
+++ b/terms.c
@@ -531,8 +531,8 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     switch (t->nodes[i].type) {
       case TRM_POS :
         /* Look for first unassigned place */
-        while (place[base].taken) ++base;
-        if (base > MAX_POS) {
+        while ((base < MAX_POS) && place[base].taken) ++base;
+        if (base >= MAX_POS) {
           fprintf(stderr, "Too many places assigned\n");
         } else {
           fixup_term_place(t->nodes[i].node, &place[base], tt);
@@ -664,7 +664,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -683,7 +683,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j<MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
-- 
2.43.0


From e8ab33c2a2dc6e4d2070e539e0dfb54a62266b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:33 +0000
Subject: [PATCH 17/97] fix: more than 20 terms or conversions on one selbri
 overran the term vectors

---
 terms.c | 132 +++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 83 insertions(+), 49 deletions(-)

diff --git a/terms.c b/terms.c
index 4ddb383..58e60b3 100644
--- a/terms.c
+++ b/terms.c
@@ -19,8 +19,6 @@
 #include "cmavotab.h"
 /*}}}*/
 
-#define MAX_TERMS_IN_VECTOR 20
-
 /* Maximum argument position.  Even the most horrific abstraction or
    lujvo would be pushed to get this many args!!! */
 
@@ -48,7 +46,8 @@ typedef struct TermVectorEntry{
 
 typedef struct TermVector{
   int n_nodes;
-  TermVectorEntry nodes[MAX_TERMS_IN_VECTOR];
+  int max_nodes; /* Number of entries allocated */
+  TermVectorEntry *nodes;
 } TermVector;
 
 /*+ Enumeration tags for the LinkConvEntry type. +*/
@@ -81,7 +80,8 @@ typedef struct {
   selbri3 KE'E BE links' constructions, which could recurse a lot. +*/
 typedef struct {
   int n;
-  LinkConvEntry e[MAX_TERMS_IN_VECTOR];
+  int max; /* Number of entries allocated */
+  LinkConvEntry *e;
 } LinkConv;
 /*}}}*/
 /* Forward prototypes *//*{{{*/
@@ -93,30 +93,40 @@ static void process_selbri_3_args(TreeNode *s3, TermVector *pre, TermVector *pos
 static void tv_init(TermVector *tv)/*{{{*/
 {
   tv->n_nodes = 0;
+  tv->max_nodes = 0;
+  tv->nodes = NULL;
+}
+/*}}}*/
+static TermVectorEntry *tv_append(TermVector *tv)/*{{{*/
+{
+  /* Add an entry to the end of a TermVector, growing it if required */
+  if (tv->n_nodes == tv->max_nodes) {
+    if (tv->max_nodes) {
+      tv->max_nodes *= 2;
+      tv->nodes = (TermVectorEntry *) Realloc(tv->nodes, tv->max_nodes * sizeof(TermVectorEntry));
+    } else {
+      tv->max_nodes = 8;
+      tv->nodes = new_array(TermVectorEntry, tv->max_nodes);
+    }
+  }
+  return &tv->nodes[tv->n_nodes++];
 }
 /*}}}*/
 static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
 {
-  int tn;
   int i, n1, n2;
-  tn = s1->n_nodes + s2->n_nodes;
-
-  /* If this is exceeded, we'll need to reassess the design.  Really
-     ought to make the arrays dynamic but that incurs hassle of
-     releasing them. */
-  assert(tn <= MAX_TERMS_IN_VECTOR);
 
   n1 = s1->n_nodes;
   n2 = s2->n_nodes;
 
-  r->n_nodes = tn;
+  tv_init(r);
 
   for (i=0; i<n1; i++) {
-    r->nodes[i] = s1->nodes[i];
+    *tv_append(r) = s1->nodes[i];
   }
 
   for (i=0; i<n2; i++) {
-    r->nodes[n1+i] = s2->nodes[i];
+    *tv_append(r) = s2->nodes[i];
   }
 }
 /*}}}*/
@@ -127,22 +137,39 @@ static void tv_reverse(TermVector *dest, TermVector *src)/*{{{*/
 
   assert(dest != src); /* Not designed to cope with this case */
 
-  n = dest->n_nodes = src->n_nodes;
+  n = src->n_nodes;
+  tv_init(dest);
 
   for (i=0; i<n; i++) {
-    dest->nodes[i] = src->nodes[n-1-i];
+    *tv_append(dest) = src->nodes[n-1-i];
   }
 }/*}}}*/
 static void lc_init(LinkConv *lc)/*{{{*/
 {
   /* Initialise a linkconv list to empty */
   lc->n = 0;
+  lc->max = 0;
+  lc->e = NULL;
+}
+/*}}}*/
+static void lc_grow(LinkConv *lc)/*{{{*/
+{
+  /* Make sure there is room for another entry in a linkconv list */
+  if (lc->n == lc->max) {
+    if (lc->max) {
+      lc->max *= 2;
+      lc->e = (LinkConvEntry *) Realloc(lc->e, lc->max * sizeof(LinkConvEntry));
+    } else {
+      lc->max = 8;
+      lc->e = new_array(LinkConvEntry, lc->max);
+    }
+  }
 }
 /*}}}*/
 static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 {
   /* Append a SE conversion to a linkconv chain */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_grow(lc);
 
   lc->e[lc->n].data.se.conv = conv;
   lc->e[lc->n].data.se.senode = senode;
@@ -152,7 +179,7 @@ static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 /*}}}*/
 static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_grow(lc);
 
   lc->e[lc->n].data.jai_tag.tag = tag;
   lc->e[lc->n].data.jai_tag.inner_tu2 = inner_tu2;
@@ -163,7 +190,7 @@ static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/
 /*}}}*/
 static void lc_append_jai(LinkConv *lc)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_grow(lc);
 
   lc->e[lc->n].type = LC_JAI;
   ++(lc->n);
@@ -174,7 +201,7 @@ static void lc_append_links(LinkConv *lc, TermVector *v)/*{{{*/
 {
   /* Append a set of linked sumti to a linkconv chain.  Note, a dynamic COPY is
      made of 'v'. */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  lc_grow(lc);
   lc->e[lc->n].data.links = new(TermVector);
 
   /* Deep structure copy */
@@ -190,8 +217,13 @@ static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
   pointers to the vectors of linked sumti get aliased.  The intention is to
   produce a local copy onto which extra terms can be appended, rather than to
   make a completely general copy.  */
-  
-  *dest = *src;
+  int i;
+
+  lc_init(dest);
+  for (i=0; i<src->n; i++) {
+    lc_grow(dest);
+    dest->e[dest->n++] = src->e[i];
+  }
 }
 /*}}}*/
 static int recover_se_conv(TreeNode *x)/*{{{*/
@@ -271,6 +303,7 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
   to do about afterthought termsets to somewhere else.  */
 
   TermVector vv;
+  TermVectorEntry *e;
   TreeNode *xx, *t1, *t2, *t, *tc, *tcc;
   struct nonterm *ntx, *ntt;
   int nc, ntc;
@@ -327,32 +360,32 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
 
     switch (tc->data.nonterm.type) {
       case TERM_PLAIN_SUMTI:
-        vv.nodes[vv.n_nodes].type = TRM_POS;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        e = tv_append(&vv);
+        e->type = TRM_POS;
+        e->node = t;
         break;
       case TERM_PLACED_SUMTI:
         {
           int pos;
           tcc = child_ref(tc, 0);
           pos = recover_fa_conv(tcc);
+          e = tv_append(&vv);
           if (pos == 0) {
-            vv.nodes[vv.n_nodes].type = TRM_FAhI;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = 0;
-          } else {            
-            vv.nodes[vv.n_nodes].type = TRM_FA;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = pos;
+            e->type = TRM_FAhI;
+            e->node = t;
+            e->pos = 0;
+          } else {
+            e->type = TRM_FA;
+            e->node = t;
+            e->pos = pos;
           }
-          vv.n_nodes++;
         }
         break;
       case TERM_TAGGED_SUMTI:
       case TAGGED_TERMSET:
-        vv.nodes[vv.n_nodes].type = TRM_TAG;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        e = tv_append(&vv);
+        e->type = TRM_TAG;
+        e->node = t;
         break;
       case TERMSET:
         fprintf(stderr, "No place tagging for termset at line %d\n", t->start_line);
@@ -1577,6 +1610,7 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
 
   TreeNode *la, *tm, *lk, *tc, *tcc;
   TermVector tv;
+  TermVectorEntry *e;
   XTermVector *xtv;
 
   type_check(tu1, TANRU_UNIT_1);
@@ -1597,32 +1631,32 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
 
       switch (tc->data.nonterm.type) {
         case TERM_PLAIN_SUMTI:
-          tv.nodes[tv.n_nodes].type = TRM_POS;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          e = tv_append(&tv);
+          e->type = TRM_POS;
+          e->node = tm;
           break;
         case TERM_PLACED_SUMTI:
           {
             int pos;
             tcc = child_ref(tc, 0);
             pos = recover_fa_conv(tcc);
+            e = tv_append(&tv);
             if (pos == 0) {
-              tv.nodes[tv.n_nodes].type = TRM_FAhI;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = 0;
+              e->type = TRM_FAhI;
+              e->node = tm;
+              e->pos = 0;
             } else {
-              tv.nodes[tv.n_nodes].type = TRM_FA;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = pos;
+              e->type = TRM_FA;
+              e->node = tm;
+              e->pos = pos;
             }
-            tv.n_nodes++;
           }
           break;
         case TERM_TAGGED_SUMTI:
         case TAGGED_TERMSET:
-          tv.nodes[tv.n_nodes].type = TRM_TAG;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          e = tv_append(&tv);
+          e->type = TRM_TAG;
+          e->node = tm;
           break;
         case TERMSET:
           fprintf(stderr, "Termset at line %d ignored, place tagging will be faulty\n", tm->start_line);
-- 
2.43.0


From 87655d16bab7da59e046c8fb384e8317b329c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:20 +0000
Subject: [PATCH 18/97] fix: HTML output never ended on a gloss containing & <
 or >, and did not escape Lojban text

---
 htmlout.c | 51 +++++++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/htmlout.c b/htmlout.c
index 5340420..6b37f72 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -214,42 +214,33 @@ write_close_bracket(BracketType type, int subscript)
 }
 
 /*++++++++++++++++++++++++++++++
-  Make a string safe for setting with HTML.
+  Write a string, in a form safe for setting with HTML.
 
-  static char * make_htmlsafe
+  static void print_htmlsafe
 
   char *s
   ++++++++++++++++++++++++++++++*/
 
-static char *
-make_htmlsafe(char *s)
+static void
+print_htmlsafe(char *s)
 {
-  static char buf[65536];
-  char *p, *q;
-  p = s;
-  q = buf;
-  while (*p) {
+  char *p;
+  for (p=s; *p; p++) {
     switch (*p) {
       case '&':
-        strcpy(q, "&amp;");
-        q += 5;
+        printf("&amp;");
         break;
       case '<':
-        strcpy(q, "&lt;");
-        q += 4;
+        printf("&lt;");
         break;
       case '>':
-        strcpy(q, "&gt;");
-        q += 4;
+        printf("&gt;");
         break;
       default:
-        *q++ = *p++;
+        putchar(*p);
         break;
     }
-  }        
-  *q = 0;
-
-  return buf;
+  }
 }
 
 
@@ -273,7 +264,9 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("<B>%s</B>", text);
+  printf("<B>");
+  print_htmlsafe(text);
+  printf("</B>");
 
   state = ST_TEXT;
 }
@@ -320,7 +313,9 @@ write_translation(char *text)
   if (text[0] == '$') {
     write_special(text);
   } else {
-    printf("<I>%s</I>", make_htmlsafe(text));
+    printf("<I>");
+    print_htmlsafe(text);
+    printf("</I>");
   }
 
   state = ST_TEXT;
@@ -378,16 +373,16 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  if (brac) {
-    printf("%s%s (%s)\n", brivla, place, make_htmlsafe(trans));
-  } else {
-    printf("%s%s %s\n", brivla, place, make_htmlsafe(trans));
-  }
+  print_htmlsafe(brivla);
+  print_htmlsafe(place);
+  printf(brac ? " (" : " ");
+  print_htmlsafe(trans);
+  printf(brac ? ")\n" : "\n");
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("%s", t);
+  print_htmlsafe(t);
 }
 /*}}}*/
 
-- 
2.43.0


From a77f3649566384dd20bf04342e63e0e8053e495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:43 +0000
Subject: [PATCH 19/97] fix: blocked text output overran its buffers on long
 items, wide lines and many tags

---
 textblk.c | 231 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 143 insertions(+), 88 deletions(-)

diff --git a/textblk.c b/textblk.c
index 3769388..8538e55 100644
--- a/textblk.c
+++ b/textblk.c
@@ -19,8 +19,6 @@
 extern int opt_output_width; /* Defined in main.c */
 static int max_width = MAX_WIDTH;
 
-#define BUFFER_SIZE 512
-
 typedef enum {
   ST_OPEN,
   ST_TEXT,
@@ -30,49 +28,113 @@ typedef enum {
 
 static States state;
 
-/* Largest number of tags supported on a single sumti */
-#define MAX_TAGS 32
+/* String that grows as text is appended to it */
+typedef struct {
+  char *text;
+  size_t len;
+  size_t max;
+} String;
 
 /* Variables to hold block being built */
 static int tags_used;
-static char tag_text[MAX_TAGS][BUFFER_SIZE];
-static char loj_text[BUFFER_SIZE];
-static char eng_text[BUFFER_SIZE];
+static String *tag_text;
+static String loj_text;
+static String eng_text;
 
 /* Variables to hold line being constructed */
 static int current_width; /* The width of the line buffer currently occupied */
-static char tag_line[MAX_TAGS][BUFFER_SIZE];
+static String *tag_line;
 static int line_tags_used;
-static char loj_line[BUFFER_SIZE];
-static char eng_line[BUFFER_SIZE];
+static String loj_line;
+static String eng_line;
+
+/* Number of tags for which tag_text and tag_line have room */
+static int max_tags;
+
+static void clear_string(String *s)/*{{{*/
+{
+  if (!s->text) {
+    s->max = 64;
+    s->text = new_array(char, s->max);
+  }
+  s->len = 0;
+  s->text[0] = 0;
+}
+/*}}}*/
+static void append(String *s, char *text)/*{{{*/
+{
+  size_t n = strlen(text);
 
+  if (s->len + n + 1 > s->max) {
+    s->max = 2 * (s->len + n + 1);
+    s->text = (char *) Realloc(s->text, s->max);
+  }
+  strcpy(s->text + s->len, text);
+  s->len += n;
+}
+/*}}}*/
+static void set_string(String *s, char *text, char *tail)/*{{{*/
+{
+  clear_string(s);
+  append(s, text);
+  append(s, tail);
+}
+/*}}}*/
+static void need_tag(int n)/*{{{*/
+/* Make sure there is room for tag number n */
+{
+  int i, old;
+
+  if (n < max_tags) return;
+
+  old = max_tags;
+  max_tags = n + 32;
+  if (old) {
+    tag_text = (String *) Realloc(tag_text, max_tags * sizeof(String));
+    tag_line = (String *) Realloc(tag_line, max_tags * sizeof(String));
+  } else {
+    tag_text = new_array(String, max_tags);
+    tag_line = new_array(String, max_tags);
+  }
+  for (i=old; i<max_tags; i++) {
+    tag_text[i].text = tag_line[i].text = NULL;
+    clear_string(&tag_text[i]);
+    clear_string(&tag_line[i]);
+  }
+}
+/*}}}*/
 static void clear_line_buffer(void)/*{{{*/
 {
   int i;
 
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_line[i][0] = 0;
+  for (i=0; i<max_tags; i++) {
+    clear_string(&tag_line[i]);
   }
   line_tags_used = 0;
 
-  loj_line[0] = 0;
-  eng_line[0] = 0;
+  clear_string(&loj_line);
+  clear_string(&eng_line);
 
   current_width = 0;
 }
 /*}}}*/
-static void initialise(void)/*{{{*/
+static void clear_block_buffer(void)/*{{{*/
 {
   int i;
 
-  state = ST_START;
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
+  for (i=0; i<max_tags; i++) {
+    clear_string(&tag_text[i]);
   }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear_string(&loj_text);
+  clear_string(&eng_text);
   tags_used = 0;
-
+}
+/*}}}*/
+static void initialise(void)/*{{{*/
+{
+  state = ST_START;
+  need_tag(1);
+  clear_block_buffer();
   clear_line_buffer();
 
   max_width = opt_output_width;
@@ -89,12 +151,12 @@ static void flush_line(void)/*{{{*/
   
   if (current_width == 0) return;
 
-  fputs(loj_line, stdout);
+  fputs(loj_line.text, stdout);
   fputs("\n", stdout);
-  fputs(eng_line, stdout);
+  fputs(eng_line.text, stdout);
   fputs("\n", stdout);
   for (i=0; i<line_tags_used; i++) {
-    fputs(tag_line[i], stdout);
+    fputs(tag_line[i].text, stdout);
     fputs("\n", stdout);
   }
   fputs("\n", stdout);
@@ -121,20 +183,17 @@ static void clear_eols(void)/*{{{*/
     pending_eols = 0;
   }
 }/*}}}*/
-static void append_to_width(char *src, char *dbuf, int wid)/*{{{*/
+static void append_to_width(char *src, String *dest, int wid)/*{{{*/
 /* Append a string onto a buffer, and right pad with spaces to bring up
   to a specific width */
 {
-  int len, toadd, i;
-  char buffer[BUFFER_SIZE];
-  len = strlen(src);
-  toadd = wid - len;
-  for (i=0; i<toadd; i++) {
-    buffer[i] = ' ';
+  int toadd;
+
+  toadd = wid - (int) strlen(src);
+  append(dest, src);
+  while (toadd-- > 0) {
+    append(dest, " ");
   }
-  buffer[toadd] = '\0';
-  strcat(dbuf, src);
-  strcat(dbuf, buffer);
 }/*}}}*/
 static void flush_block(void)/*{{{*/
 /* Push current block onto line buffer */
@@ -142,16 +201,16 @@ static void flush_block(void)/*{{{*/
   int i;
   int max_len, len;
 
-  if (!loj_text[0] && !eng_text[0] && (tags_used == 0)) return; /* Nothing to flush */
+  if (!loj_text.len && !eng_text.len && (tags_used == 0)) return; /* Nothing to flush */
 
   /* Calculate width of block */
   max_len = 0;
-  len = strlen(loj_text);
+  len = loj_text.len;
   if (len > max_len) max_len = len;
-  len = strlen(eng_text);
+  len = eng_text.len;
   if (len > max_len) max_len = len;
   for (i=0; i<tags_used; i++) {
-    len = strlen(tag_text[i]);
+    len = tag_text[i].len;
     if (len > max_len) max_len = len;
   }
   
@@ -159,20 +218,20 @@ static void flush_block(void)/*{{{*/
     flush_line();
   }
 
-  append_to_width(loj_text, loj_line, max_len);
-  append_to_width(eng_text, eng_line, max_len);
+  append_to_width(loj_text.text, &loj_line, max_len);
+  append_to_width(eng_text.text, &eng_line, max_len);
 
   for (i=0; i<tags_used; i++) {
     if (i >= line_tags_used) {
-      append_to_width("", tag_line[i], current_width);
+      append_to_width("", &tag_line[i], current_width);
     }
-    append_to_width(tag_text[i], tag_line[i], max_len);
+    append_to_width(tag_text[i].text, &tag_line[i], max_len);
   }
 
   /* Space-pad the tag lines on words that don't generate enough
      tags. */
   for (i=tags_used; i<line_tags_used; i++) {
-    append_to_width("", tag_line[i], max_len);
+    append_to_width("", &tag_line[i], max_len);
   }
   
   current_width += max_len;
@@ -180,14 +239,8 @@ static void flush_block(void)/*{{{*/
   if (tags_used > line_tags_used) line_tags_used = tags_used;
 
   /* Clear the block buffers for the next lot */
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
-  }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  clear_block_buffer();
 
-  tags_used = 0;
-  
 }
 /*}}}*/
 static void set_eols(int eols)/*{{{*/
@@ -206,16 +259,18 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 {
   char *brac;
   char *brac1, *brac2, *brac3;
+  char number[16];
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0] || tags_used > 0) {
+  if (loj_text.len || eng_text.len || tags_used > 0) {
     flush_block();
   }
 
   clear_eols();
 
   brac = brac1 = brac2 = brac3 = NULL;
+  sprintf(number, "%d", subscript);
 
   switch (type) {
     case BR_NONE:
@@ -249,16 +304,16 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
+    set_string(&loj_text, brac, " ");
+    set_string(&eng_text, brac, " ");
+    set_string(&tag_text[0], brac, " ");
+    set_string(&tag_text[1], number, " ");
     tags_used = 2;
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
+    set_string(&loj_text, brac1, " ");
+    set_string(&eng_text, brac2, " ");
+    set_string(&tag_text[0], brac3, " ");
+    set_string(&tag_text[1], number, " ");
     tags_used = 2;
   }
 
@@ -270,14 +325,16 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 {
   char *brac;
   char *brac1, *brac2, *brac3;
+  char number[16];
 
   if (type == BR_NONE) return;
 
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
 
   brac = brac1 = brac2 = brac3 = NULL;
+  sprintf(number, "%d", subscript);
 
   switch (type) {
     case BR_NONE:
@@ -311,16 +368,16 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
+    set_string(&loj_text, brac, " ");
+    set_string(&eng_text, brac, " ");
+    set_string(&tag_text[0], brac, " ");
+    set_string(&tag_text[1], number, " ");
     tags_used = 2;
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
+    set_string(&loj_text, brac1, " ");
+    set_string(&eng_text, brac2, " ");
+    set_string(&tag_text[0], brac3, " ");
+    set_string(&tag_text[1], number, " ");
     tags_used = 2;
   }
 
@@ -330,24 +387,24 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
 static void write_lojban_text(char *text)/*{{{*/
 {
 
-  if (eng_text[0]) {
+  if (eng_text.len) {
     flush_block();
   }
 
   clear_eols();
 
-  strcat(loj_text, text);
-  strcat(loj_text, " ");
+  append(&loj_text, text);
+  append(&loj_text, " ");
 
 }/*}}}*/
 static void write_special(char *text)/*{{{*/
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "<-");
+    append(&eng_text, "<-");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "\"");
+    append(&eng_text, "\"");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"\"");
+    append(&eng_text, "\"");
   }
 }/*}}}*/
 static void write_translation(char *text)/*{{{*/
@@ -355,8 +412,8 @@ static void write_translation(char *text)/*{{{*/
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, text);
-    strcat(eng_text, " ");
+    append(&eng_text, text);
+    append(&eng_text, " ");
   }
 }
 /*}}}*/
@@ -366,7 +423,7 @@ static int first_tag;
 
 static void start_tags(void)/*{{{*/
 {
-  if (loj_text[0] || eng_text[0]) {
+  if (loj_text.len || eng_text.len) {
     flush_block();
   }
   clear_eols();
@@ -374,6 +431,7 @@ static void start_tags(void)/*{{{*/
 }/*}}}*/
 static void end_tags(void)/*{{{*/
 {
+  need_tag(tags_used);
   tags_used++;
 }/*}}}*/
 static void start_tag(void)/*{{{*/
@@ -386,21 +444,18 @@ static void start_tag(void)/*{{{*/
 /*}}}*/
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
-  char buffer1[65536], buffer2[65536];
-
-  sprintf(buffer1, "%s%s ", brivla, place);
-  if (brac) {
-    sprintf(buffer2, "(%s) ", trans);
-  } else {
-    sprintf(buffer2, "%s ", trans);
-  }
-  strcat(tag_text[tags_used], buffer1);
-  strcat(tag_text[tags_used], buffer2);
+  need_tag(tags_used);
+  append(&tag_text[tags_used], brivla);
+  append(&tag_text[tags_used], place);
+  append(&tag_text[tags_used], brac ? " (" : " ");
+  append(&tag_text[tags_used], trans);
+  append(&tag_text[tags_used], brac ? ") " : " ");
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  strcat(tag_text[tags_used], t);
+  need_tag(tags_used);
+  append(&tag_text[tags_used], t);
 }
 /*}}}*/
 
-- 
2.43.0


From fdb7bbfd43b3850a4ee9c4f7cc253348c3ce1c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:42 +0000
Subject: [PATCH 20/97] fix: glossing lujvo and zei words with many or long
 components, or places beyond x5, overran the component table

---
 translate.c | 55 +++++++++++++++++++++++++++++++++++------------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/translate.c b/translate.c
index 092811f..f077374 100644
--- a/translate.c
+++ b/translate.c
@@ -30,13 +30,14 @@ static int bufptr=0;
 typedef struct Component {/*{{{*/
   int start; /* 0 for 1st, pos of + for others (before conversions) */
   int pure_start; /* likewise, but just the gismu/cmavo excl conversions) */
-  char text[6];
+  char *text;
   int places[6];
 } Component;/*}}}*/
 
 /*{{{ Forward prototype for place/context translater. */
 extern char *adv_translate(char *w, int place, TransContext ctx);
-static void split_into_comps(char *canon, Component *comp, int *ncomp);
+static Component *split_into_comps(char *canon, int *ncomp);
+static int map_place(Component *comp, int place);
 /*}}}*/
 
 char * translate(char *word)/*{{{*/
@@ -59,7 +60,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 /* Lookup a lujvo that isn't matched in the ordinary dictionary, by
    smashing it into consituent rafsi and glueing these together. */
 {
-  Component comp[32];
+  Component *comp;
   int ncomp;
   char *canon;
   char *result;
@@ -70,7 +71,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   canon = canon_lujvo(word);
   if (!canon) return "?";
   
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
   if (ncomp < 2) {
     /* Prevent infinite recursion */
     return NULL;
@@ -79,7 +80,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   result[0] = 0;
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
-    xplace = comp[i].places[last ? place : 1];
+    xplace = map_place(&comp[i], last ? place : 1);
     trans = adv_translate(comp[i].text, xplace, last ? TCX_NOUN : TCX_QUAL);
     if (i > 0) { strcat(result, "-"); }
     if (trans) {
@@ -95,14 +96,15 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *canon;
-  Component comp[32];
+  Component *comp;
   int n_comps;
   static char buffer[65536];
   char *trans;
   int i;
 
   canon = canon_lujvo(w);
-  split_into_comps(canon, comp, &n_comps);
+  if (!canon) return NULL;
+  comp = split_into_comps(canon, &n_comps);
   buffer[0] = 0;
   for (i=0; i<n_comps; i++) {
     int first = (i == 0);
@@ -739,20 +741,26 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
   *q = 0;
   return result;
 }/*}}}*/
-static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
+static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 /*
-  Take a string a+b+c and split it into an array of components separated by +
+  Take a string a+b+c and split it into a (new) array of components separated by +
   signs.  If any components are se, te etc, bind them as place exchanges to the
   following component.
   */
 {
   int i;
   int nc = 0;
-  char buffer[65536];
+  char *buffer;
   char *p, *q;
   int place = 0;
+  Component *comp;
+
+  for (p = canon, i = 1; *p; p++) {
+    if (*p == '+') i++;
+  }
+  comp = new_array(Component, i);
 
-  strcpy(buffer, canon);
+  buffer = new_string(canon);
   p = buffer;
   while (*p) p++;
   while (p > buffer) {
@@ -763,7 +771,7 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
     else if (!strcmp(q, "te")) { place = 3; }
     else if (!strcmp(q, "ve")) { place = 4; }
     else if (!strcmp(q, "xe")) { place = 5; }
-    if (place > 0) {
+    if (place > 0 && nc > 0) {
       int t = comp[0].places[1];
       comp[0].places[1] = comp[0].places[place];
       comp[0].places[place] = t;
@@ -777,14 +785,24 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
       }
       nc++;
       comp[0].pure_start = comp[0].start = (p - buffer);
-      strcpy(comp[0].text, q);
+      comp[0].text = new_string(q);
     }
     *p = 0;
   }
 
+  Free(buffer);
   *ncomp = nc;
+  return comp;
 
 }/*}}}*/
+static int map_place(Component *comp, int place)/*{{{*/
+/*
+  Find which place of a component its conversions exchange with 'place'.  Only
+  the first five places can be converted.
+  */
+{
+  return (place >= 1 && place <= 5) ? comp->places[place] : place;
+}/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
 {
   char generic[65536]; /* the part that's found in the LHS of the dictionary pattern match */
@@ -803,14 +821,15 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     strcpy(generic, orig + cutg);
     strncpy(specific, orig, cuts);
     specific[cuts] = 0;
-    new_place = comp[ncomp-gather].places[place];
+    new_place = map_place(&comp[ncomp-gather], place);
   } else {
+    if (gather >= ncomp) return NULL; /* Nothing left over for the specific part */
     cutg = comp[gather].start + 1;
     cuts = cutg;
     strncpy(generic, orig, cutg);
     generic[cutg] = 0;
     strcpy(specific, orig + cuts);
-    new_place = comp[gather-1].places[place];
+    new_place = map_place(&comp[gather-1], place);
   }
 
   sprintf(buffer, "*%1d%s%1d%s",
@@ -857,7 +876,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   char *canon;
   char *trans;
 
-  Component comp[32];
+  Component *comp;
   int ncomp;
 
   canon = canon_lujvo(w);
@@ -869,7 +888,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   if (!strchr(canon, '+')) return NULL;
 
   /* Split components into array. Work from the right. */
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
 
 #if 0
   {
@@ -886,7 +905,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   /* If there's only 1 component after conversions have been
      mapped onto it, do a place switch */
   if (ncomp == 1) {
-    int new_place = comp[0].places[place];
+    int new_place = map_place(&comp[0], place);
     return adv_translate(comp[0].text, new_place, ctx);
 
   } else {
-- 
2.43.0


From 01adc696354884f11700c4489d09f7a5e4e04940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:41 +0000
Subject: [PATCH 21/97] fix: glosses built from many components overran or
 corrupted the shared buffers

---
 output.c    |   2 +-
 translate.c | 140 ++++++++++++++++++++++++++++++++++------------------
 2 files changed, 92 insertions(+), 50 deletions(-)

diff --git a/output.c b/output.c
index 3352467..00b00b3 100644
--- a/output.c
+++ b/output.c
@@ -913,7 +913,7 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
               char *trans, transbuf[1024];
               (drv->start_tag)();
               trans = adv_translate("me", tag->pos, TCX_TAG);
-              sprintf(transbuf, trans, tag->me.sumti->data.nonterm.number);
+              sprintf(transbuf, trans ? trans : "", tag->me.sumti->data.nonterm.number);
               sprintf(tp, "%d..", tag->pos);
               (drv->write_tag_text)("me", tp, transbuf, YES);
             }
diff --git a/translate.c b/translate.c
index f077374..9e6185d 100644
--- a/translate.c
+++ b/translate.c
@@ -27,6 +27,25 @@ static int bufptr=0;
 
 /* ================================================== */
 
+/* Longest gloss built up from the glosses of components */
+#define MAX_GLOSS 65000
+
+static void append_gloss(char *result, char *gloss)/*{{{*/
+/* Append to the gloss being built in one of the buffers, as far as there is room */
+{
+  size_t len = strlen(result);
+  strncat(result, gloss, (len < MAX_GLOSS) ? (MAX_GLOSS - len) : 0);
+}/*}}}*/
+
+static char * copy_to_buffer(char *result)/*{{{*/
+/* Move a result out of allocated memory to one of the shared buffers */
+{
+  char *buf = GETBUF();
+  strcpy(buf, result);
+  Free(result);
+  return buf;
+}/*}}}*/
+
 typedef struct Component {/*{{{*/
   int start; /* 0 for 1st, pos of + for others (before conversions) */
   int pure_start; /* likewise, but just the gismu/cmavo excl conversions) */
@@ -76,21 +95,17 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
     /* Prevent infinite recursion */
     return NULL;
   }
-  result = GETBUF();
+  result = new_array(char, 65536);
   result[0] = 0;
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
     xplace = map_place(&comp[i], last ? place : 1);
     trans = adv_translate(comp[i].text, xplace, last ? TCX_NOUN : TCX_QUAL);
-    if (i > 0) { strcat(result, "-"); }
-    if (trans) {
-      strcat(result, trans);
-    } else {
-      strcat(result, "?");
-    }
+    if (i > 0) { append_gloss(result, "-"); }
+    append_gloss(result, trans ? trans : "?");
   }
 
-  return result;
+  return copy_to_buffer(result);
 
 }/*}}}*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
@@ -110,12 +125,8 @@ char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
     int first = (i == 0);
     int last  = (i == (n_comps-1));
     trans = adv_translate(comp[i].text, comp[i].places[1], last ? ctx : TCX_QUAL);
-    if (!first) strcat(buffer, "-");
-    if (trans) {
-      strcat(buffer, trans);
-    } else {
-      strcat(buffer, "?");
-    }
+    if (!first) append_gloss(buffer, "-");
+    append_gloss(buffer, trans ? trans : "?");
   }   
   return buffer;
 }/*}}}*/
@@ -186,9 +197,9 @@ char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
           strcpy(buf, "?");
         }
         
-        strcat(buf, "-[");
-        strcat(buf, p);
-        strcat(buf, "]");
+        append_gloss(buf, "-[");
+        append_gloss(buf, p);
+        append_gloss(buf, "]");
         return buf;
       }
       
@@ -704,15 +715,18 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
   }
 
 }/*}}}*/
-static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
+static char * subst_base_in_pattern(char *pattern, char *base)/*{{{*/
 {
-  char *result = GETBUF();
+  /* The pattern and the result have to survive the translation of the base,
+     which can use the shared buffers any number of times. */
+  char *trans = new_string(pattern);
+  char *result = new_array(char, 65536);
   char *p, *q, *r;
   char *localtrans;
   q = result;
   p = trans;
   while (*p) {
-    if (*p == '%') {
+    if (*p == '%' && p[1] && p[2]) {
       int place = *++p - '0';
       char context = *++p;
       TransContext ctx;
@@ -729,17 +743,19 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
           break;
       }
       localtrans = adv_translate(base, place, ctx);
-      r = localtrans;
-      while (*r) {
+      r = localtrans ? localtrans : "?";
+      while (*r && (q < result + MAX_GLOSS)) {
         *q++ = *r++;
       }
       ++p; /* onto the char beyond the context symbol */
     } else {
-      *q++ = *p++;
+      if (q < result + MAX_GLOSS) *q++ = *p;
+      p++;
     }
   }
   *q = 0;
-  return result;
+  Free(trans);
+  return copy_to_buffer(result);
 }/*}}}*/
 static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 /*
@@ -805,15 +821,21 @@ static int map_place(Component *comp, int place)/*{{{*/
 }/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
 {
-  char generic[65536]; /* the part that's found in the LHS of the dictionary pattern match */
-  char specific[65536]; /* the other part of the string */
-  char buffer[65536];
+  char *generic; /* the part that's found in the LHS of the dictionary pattern match */
+  char *specific; /* the other part of the string */
+  char *buffer;
   int cutg, cuts;
   int new_place;
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
   char *trans;
   int got_full_trans;
   char * subst;
+  char * result;
+
+  generic = new_string(orig);
+  specific = new_string(orig);
+  buffer = new_array(char, strlen(orig) + 32);
+  result = NULL;
 
   if (suffix) {
     cutg = comp[ncomp-gather].pure_start;
@@ -823,7 +845,7 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     specific[cuts] = 0;
     new_place = map_place(&comp[ncomp-gather], place);
   } else {
-    if (gather >= ncomp) return NULL; /* Nothing left over for the specific part */
+    if (gather >= ncomp) goto done; /* Nothing left over for the specific part */
     cutg = comp[gather].start + 1;
     cuts = cutg;
     strncpy(generic, orig, cutg);
@@ -848,24 +870,27 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
     if (trans[0] == '@') {
       /* redirection to another form */
       int redir_place = trans[1] - '0';
-      return adv_translate(specific, redir_place, ctx);
+      result = adv_translate(specific, redir_place, ctx);
     } else {
       /* Need to substitute % stuff. */
       subst = subst_base_in_pattern(trans, specific);
       if (got_full_trans) {
-        return subst;
+        result = subst;
       } else {
-        char buffer1[65536], *trans1, w1n[65536];
-        sprintf(buffer1, "*%1d%s%1dn", prec, generic, new_place);
-        trans1 = translate(buffer1);
-        if (trans1) { strcpy(w1n, trans1); }
-        else { w1n[0] = 0; }
-        return fix_trans_in_context(buffer, subst, ctx, w1n, got_full_trans);
+        char *trans1;
+        sprintf(buffer, "*%1d%s%1dn", prec, generic, new_place);
+        trans1 = translate(buffer);
+        sprintf(buffer, "*%1d%s%1d", prec, generic, new_place);
+        result = fix_trans_in_context(buffer, subst, ctx, trans1 ? trans1 : "", got_full_trans);
       }
     }
-  } else {
-    return NULL;
   }
+
+done:
+  Free(generic);
+  Free(specific);
+  Free(buffer);
+  return result;
 }/*}}}*/
 static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 /*
@@ -935,11 +960,9 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   return NULL;
 
 }/*}}}*/
-char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
+static char * adv_translate_1(char *w, int place, TransContext ctx, char *buffer)/*{{{*/
 {
   char *trans, *trans1;
-  char w1n[65536];
-  char buffer[65536], buffer1[65536];
   static char result[65536];
   char ctx_suffix[4] = "nvqt";
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
@@ -999,15 +1022,15 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       /* Never get here */
     }
 
-    sprintf(buffer1, "%s%1dn", w, place);
-    trans1 = translate(buffer1);
-    if (trans1) {
-      strcpy(w1n, trans1);
-    } else {
-      w1n[0] = 0;
-    }
+    sprintf(buffer, "%s%1dn", w, place);
+    trans1 = translate(buffer);
+    sprintf(buffer, found_full_trans ? "%s%1d%c" : "%s%1d", w, place, ctx_suffix[ctx]);
 
-    strcpy(result, fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans));
+    trans = fix_trans_in_context(buffer, trans, ctx, trans1 ? trans1 : "", found_full_trans);
+    if (!trans) {
+      return NULL;
+    }
+    strcpy(result, trans);
 
     return result;
 
@@ -1049,4 +1072,23 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
   }
 
 }/*}}}*/
+char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
+{
+  static int depth = 0; /* Dictionary entries can refer to each other in circles */
+  char *buffer;
+  char *result;
+  size_t len;
 
+  if (depth >= 200) {
+    return "??";
+  }
+
+  /* Used for the keys to look up (and the words that entries redirect to) */
+  len = strlen(w);
+  buffer = new_array(char, ((len > 65536) ? len : 65536) + 32);
+  depth++;
+  result = adv_translate_1(w, place, ctx, buffer);
+  depth--;
+  Free(buffer);
+  return result;
+}/*}}}*/
-- 
2.43.0


From 428b857e6f55227ea8dc1fd83e537c6f63f0bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:54 +0000
Subject: [PATCH 22/97] fix: long quotations, zei words and numbers overran the
 buffers of the glossed output

---
 output.c | 86 +++++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 76 insertions(+), 10 deletions(-)

diff --git a/output.c b/output.c
index 00b00b3..b079f99 100644
--- a/output.c
+++ b/output.c
@@ -294,6 +294,24 @@ static void translate_koha (TreeNode *x, char *eng)/*{{{*/
   }
 }
 /*}}}*/
+static size_t cmavo_text_length(TreeNode *x)/*{{{*/
+/* Upper limit to the length of the text the following function produces */
+{
+  size_t result = 0;
+  int i;
+
+  if (x->type == N_NONTERM) {
+    for (i=0; i<x->data.nonterm.nchildren; i++) {
+      result += cmavo_text_length(x->data.nonterm.children[i]);
+    }
+  } else if (x->type == N_CMAVO) {
+    result = strlen(cmavo_table[x->data.cmavo.code].cmavo);
+  } else if (x->type == N_BU) {
+    result = strlen(x->data.bu.word);
+  }
+  return result;
+}
+/*}}}*/
 static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 {
   struct nonterm *nt;
@@ -335,8 +353,9 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 }
 /*}}}*/
 static char * get_cmavo_text_inside_node(TreeNode *x)/*{{{*/
+/* The result has to be freed by the caller */
 {
-  static char buffer[1024];
+  char *buffer = new_array(char, cmavo_text_length(x) + 1);
   buffer[0] = 0;
   get_cmavo_text_inside_node_internal(x, buffer);
   return buffer;
@@ -624,7 +643,7 @@ static void translate_jai (TreeNode *x, char *eng)/*{{{*/
 /*}}}*/
 static char * translate_convertible(char *loj, TreeNode *basis)/*{{{*/
 {
-  char buffer[65536];
+  char *buffer;
   char *trans;
   XConversion *conversion;
   XGlosstype *gt;
@@ -658,8 +677,10 @@ static char * translate_convertible(char *loj, TreeNode *basis)/*{{{*/
       return NULL;
     }
   } else {
+    buffer = new_array(char, strlen(loj) + 16);
     sprintf(buffer, "%s%1d", loj, conv);
     trans = translate(buffer);
+    Free(buffer);
     if (trans) {
       return trans;
     } else {
@@ -1197,8 +1218,8 @@ static void output_fore_or_afterthought(TreeNode *x, WhatToShow what)/*{{{*/
 static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 {
   char *cluster, *trans;
-  char localtrans[65536];
-  char lojbuf[65536], lojbuf2[65536];
+  char *localtrans;
+  char *lojbuf;
   int i, n;
   TreeNode *c;
   struct nonterm *nt;
@@ -1207,8 +1228,8 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   ctx = prop_tense_ctx(x, NO);
 
   cluster = get_cmavo_text_inside_node(x);
+  lojbuf = new_array(char, strlen(cluster) + 16); /* Room for the context */
   strcpy(lojbuf, cluster);
-  strcpy(lojbuf2, cluster);
 
   /* May eventually want context dependence here since many of the
      cases are tag/tense sorts of thing */
@@ -1254,11 +1275,13 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   if (!trans) {
     /* If no form with the @SELBRI etc tacked on, try to translate
        just the plain cluster without the contextual information added */
-    trans = translate(lojbuf2);
+    trans = translate(cluster);
   }
+  Free(lojbuf);
+  Free(cluster);
 
   if (trans) {
-    strcpy(localtrans, trans);
+    localtrans = new_string(trans);
     if ((what == SHOW_LOJBAN) ||
         (what == SHOW_LOJBAN_AND_INDICATORS) ||
         (what == SHOW_BOTH)) {
@@ -1274,6 +1297,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
         (what == SHOW_BOTH)) {
       (drv->translation)(localtrans);
     }
+    Free(localtrans);
 
   } else {
     nt = &x->data.nonterm;
@@ -1285,9 +1309,42 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   }
 }
 /*}}}*/
+static size_t lojban_text_length(TreeNode *x)/*{{{*/
+/* Upper limit to the length of the Lojban text shown for a terminal token */
+{
+  switch (x->type) {
+    case N_ZOI:
+      return strlen(x->data.zoi.form) + 2 * strlen(x->data.zoi.term) + strlen(x->data.zoi.text) + 16;
+    case N_ZO:
+      return strlen(x->data.zo.text) + 16;
+    case N_ZEI:
+      return strlen(x->data.zei.sep_with_zei) + 16;
+    case N_LOhU:
+      return strlen(x->data.lohu.text) + 16;
+    case N_BU:
+      return strlen(x->data.bu.word) + 16;
+    case N_BRIVLA:
+      return strlen(x->data.brivla.word) + 16;
+    case N_CMENE:
+      return strlen(x->data.cmene.word) + 16;
+    default:
+      return 64; /* A cmavo, perhaps with suffixes */
+  }
+}
+/*}}}*/
+static size_t translation_length(TreeNode *x)/*{{{*/
+/* Upper limit to the length of the translation of a terminal token */
+{
+  size_t result = 65536 + 64; /* Longest from the dictionary functions */
+  if (x->type == N_ZEI) {
+    result += 512 * x->data.zei.nchildren;
+  }
+  return result;
+}
+/*}}}*/
 static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 {
-  char loj[1024], eng[1024];
+  char *loj, *eng;
   int i, n;
 
   if (x->type == N_NONTERM) {/*{{{*/
@@ -1413,6 +1470,8 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
     }
 
     /* FIXME : Need to do lojban word and translation stuff here. */
+    loj = new_array(char, lojban_text_length(x));
+    eng = new_array(char, translation_length(x));
     get_lojban_word_and_translation(x, loj, eng);
     switch (what) {
       case SHOW_LOJBAN:
@@ -1447,11 +1506,16 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
     if (what == SHOW_BOTH || what == SHOW_LOJBAN || what == SHOW_LOJBAN_AND_INDICATORS) {
       (drv->close_bracket)(x->data.zei.brackets, x->data.zei.number);
     }
+    Free(loj);
+    Free(eng);
 /*}}}*/
   } else {/*{{{*/
     /* Terminal token */
-    char lojbuf[1024];
+    char *lojbuf;
 
+    loj = new_array(char, lojban_text_length(x));
+    eng = new_array(char, translation_length(x));
+    lojbuf = new_array(char, lojban_text_length(x) + 2);
     lojbuf[0] = 0;
 
     get_lojban_word_and_translation(x, loj, eng);
@@ -1507,7 +1571,9 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
         break;
     }
 
-
+    Free(loj);
+    Free(eng);
+    Free(lojbuf);
   }
 /*}}}*/
 }
-- 
2.43.0


From ac715d6bd3433c0c7e170b8ecf38604b271ff237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:44 +0000
Subject: [PATCH 23/97] fix: LaTeX output did not escape Lojban and tag text
 and overran its buffers on long items

---
 latex.c    | 23 +++++++++++++-------
 latexblk.c | 61 ++++++++++++++++++++++++++++++------------------------
 2 files changed, 49 insertions(+), 35 deletions(-)

diff --git a/latex.c b/latex.c
index 815e344..264718d 100644
--- a/latex.c
+++ b/latex.c
@@ -260,8 +260,17 @@ latex_write_close_bracket(BracketType type, int subscript)
 char *
 make_texsafe(char *s)
 {
-  static char buf[65536];
+  static char *buf = NULL;
+  static size_t max = 0;
+  size_t need;
   char *p, *q;
+
+  need = 3 * strlen(s) + 1;
+  if (need > max) {
+    if (buf) Free(buf);
+    max = 2 * need;
+    buf = new_array(char, max);
+  }
   p = s;
   q = buf;
   while (*p) {
@@ -317,7 +326,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("\\mbox{\\textbf{%s}\\/}", text);
+  printf("\\mbox{\\textbf{%s}\\/}", make_texsafe(text));
 
   state = ST_TEXT;
 }
@@ -411,16 +420,14 @@ start_tag(void)
 
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
-  if (brac) {
-    printf("\\textsl{\\footnotesize{}%s%s (%s)}\n", brivla, place, make_texsafe(trans));
-  } else {
-    printf("\\textsl{\\footnotesize{}%s%s %s}\n", brivla, place, make_texsafe(trans));
-  }
+  printf("\\textsl{\\footnotesize{}%s", make_texsafe(brivla));
+  printf("%s", make_texsafe(place));
+  printf(brac ? " (%s)}\n" : " %s}\n", make_texsafe(trans));
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("\\textsl{\\footnotesize{}%s}\n", t);
+  printf("\\textsl{\\footnotesize{}%s}\n", make_texsafe(t));
 }
 /*}}}*/
 
diff --git a/latexblk.c b/latexblk.c
index 89aa936..3a35d11 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -25,9 +25,17 @@ typedef enum {
 
 static States state;
 
-static char tag_text[65536];
-static char loj_text[65536];
-static char eng_text[65536];
+/* Text of the block being built, each grows as text is appended to it */
+static char *tag_text = NULL;
+static char *loj_text = NULL;
+static char *eng_text = NULL;
+
+static void
+append(char **dest, char *text)
+{
+  *dest = (char *) Realloc(*dest, strlen(*dest) + strlen(text) + 1);
+  strcat(*dest, text);
+}
 
 /*++++++++++++++++++++++++++++++++++++++
   
@@ -37,6 +45,11 @@ static void
 initialise(void)
 {
   state = ST_START;
+  if (!tag_text) {
+    tag_text = new_string("");
+    loj_text = new_string("");
+    eng_text = new_string("");
+  }
   tag_text[0] = 0;
   loj_text[0] = 0;
   eng_text[0] = 0;
@@ -313,8 +326,8 @@ write_lojban_text(char *text)
   }
   clear_eols();
 
-  strcat(loj_text, " ");
-  strcat(loj_text, text);
+  append(&loj_text, " ");
+  append(&loj_text, make_texsafe(text));
 
 }
 
@@ -329,11 +342,11 @@ static void
 write_special(char *text)
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "{\\reflectbox{\\zd\\char233}}");
+    append(&eng_text, "{\\reflectbox{\\zd\\char233}}");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "``");
+    append(&eng_text, "``");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"''");
+    append(&eng_text, "''");
   }
 }
 
@@ -349,8 +362,8 @@ write_translation(char *text)
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, " ");
-    strcat(eng_text, make_texsafe(text));
+    append(&eng_text, " ");
+    append(&eng_text, make_texsafe(text));
   }
 }
 
@@ -368,7 +381,7 @@ start_tags(void)
     flush_block();
   }
   clear_eols();
-  strcat(tag_text, "[");
+  append(&tag_text, "[");
   first_tag = 1;
 }
 
@@ -380,7 +393,7 @@ start_tags(void)
 static void
 end_tags(void)
 {
-  strcat(tag_text, ":]");
+  append(&tag_text, ":]");
 }
 
 
@@ -392,7 +405,7 @@ static void
 start_tag(void)
 {
   if (!first_tag) {
-    strcat(tag_text, ", ");
+    append(&tag_text, ", ");
   }
   first_tag = 0;
 }
@@ -411,28 +424,22 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  char buffer[65536];
-
-  if (brac) {
-    sprintf(buffer, "%s%s (%s)", brivla, place, make_texsafe(trans));
-  } else {
-    sprintf(buffer, "%s%s %s", brivla, place, make_texsafe(trans));
-  }
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
-    strcat(tag_text, "\n");
+    append(&tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  append(&tag_text, make_texsafe(brivla));
+  append(&tag_text, make_texsafe(place));
+  append(&tag_text, brac ? " (" : " ");
+  append(&tag_text, make_texsafe(trans));
+  append(&tag_text, brac ? ")" : "");
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  char buffer[65536];
-
-  sprintf(buffer, "%s", t);
   if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
-    strcat(tag_text, "\n");
+    append(&tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  append(&tag_text, make_texsafe(t));
 }
 /*}}}*/
 
-- 
2.43.0


From ddf9065ed4235a5609aac22a208515ea4c311da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:57 +0000
Subject: [PATCH 24/97] fix: blocked LaTeX output lost the words after the last
 bracket

---
 latexblk.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/latexblk.c b/latexblk.c
index 3a35d11..7ed377b 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -367,6 +367,19 @@ write_translation(char *text)
   }
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Write out what is left in the block being built, then finish.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static void
+write_epilog(void)
+{
+  if (loj_text[0] || eng_text[0]) {
+    flush_block();
+  }
+  latex_write_epilog();
+}
+
 /*+  +*/
 static int first_tag;
 
@@ -447,7 +460,7 @@ DriverVector latex_block_driver =/*{{{*/
 {
   initialise,
   write_prologue,
-  latex_write_epilog,
+  write_epilog,
   write_open_bracket,
   write_close_bracket,
   set_eols,
-- 
2.43.0


From 88b2f3ce45f5dfd1a1fd33b288d4a8a4156c55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 25/97] fix: -bt wrote the indentation of its rules to standard
 output

---
 tracebk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracebk.c b/tracebk.c
index 3a8a022..a8d2955 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -34,7 +34,7 @@ display_rule(int ruleno, int indent, int focus)
   unsigned short *rulerhs = require_elidables ? full_rulerhs : norm_rulerhs;
 
 
-  for (i=0; i<indent; i++) fputc(' ', stdout);
+  for (i=0; i<indent; i++) fputc(' ', stderr);
   fprintf(stderr, "Rule %d : %s <- ", ruleno, toknames[rulelhs[ruleno]]);
   for (i=0, j=ruleindex[ruleno]; j<ruleindex[ruleno+1]; i++, j++) {
     int rhs = rulerhs[j];
-- 
2.43.0


From 0bfac28961086834de692dbe58758a733bddf493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:29 +0000
Subject: [PATCH 26/97] fix: more than 1024 reductions before a syntax error
 overran the backtrace table

---
 tracebk.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tracebk.c b/tracebk.c
index a8d2955..214754a 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -17,8 +17,9 @@ typedef struct {
   int rule;
 } Reduction;
 
-static Reduction reductions[1024];
+static Reduction *reductions=NULL;
 static int n_reductions=0;
+static int max_reductions=0;
 
 /* command line options in main.c */
 extern int show_backtrace;
@@ -52,6 +53,15 @@ display_rule(int ruleno, int indent, int focus)
 void
 report_trace_reduce(int stateno, int ruleno)
 {
+  if (n_reductions == max_reductions) {
+    if (reductions) {
+      max_reductions *= 2;
+      reductions = (Reduction *) Realloc(reductions, max_reductions * sizeof(Reduction));
+    } else {
+      max_reductions = 1024;
+      reductions = new_array(Reduction, max_reductions);
+    }
+  }
   reductions[n_reductions].rule = ruleno;
   reductions[n_reductions].state = stateno;
   n_reductions++;
-- 
2.43.0


From 9ff1b607e26fb5c3cd9a741288fa4ab7cc8ebad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:33 +0000
Subject: [PATCH 27/97] fix: bracketed output overran the stack on lists of
 some 130 words

---
 tree.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 0d6d482..8f01cc3 100644
--- a/tree.c
+++ b/tree.c
@@ -313,7 +313,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
   TreeNode *c1, *c2;
   Conversion child_conv;
   char *english;
-  char buffer[65536];
+  char *buffer;
 
   if (x->type == N_NONTERM) {
     clear_eols(state);
@@ -380,6 +380,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
         if (do_glossing) {
           if (x->data.cmavo.selmao == BAI) {
             english = NULL;
+            buffer = new_array(char, strlen(cmavo_table[x->data.cmavo.code].cmavo) + 3);
             switch (conv) {
               case CV_NORMAL:
                 english = translate(cmavo_table[x->data.cmavo.code].cmavo);
@@ -408,6 +409,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
             if (english) {
               printf(" /%s*/", english);
             }
+            Free(buffer);
           } else {
             english = translate(cmavo_table[x->data.cmavo.code].cmavo);
             if (english) {
@@ -470,6 +472,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
               printf(" /%s/", english);
             }
           } else {
+            buffer = new_array(char, strlen(x->data.brivla.word) + 2);
             switch (conv) {
               case CV_NORMAL:
                 abort();
@@ -505,6 +508,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 printf(" /%s/", english);
               }
             }
+            Free(buffer);
           }
         }
         break;
-- 
2.43.0


From f490d81d4efd2d1bed4b28342670ea7d6756d71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:36 +0000
Subject: [PATCH 28/97] fix: a cmavo with invalid characters was reported
 without its line and column

---
 lex1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 1b8798b..bec4d8b 100644
--- a/lex1.c
+++ b/lex1.c
@@ -117,7 +117,8 @@ process_cmavo(char *buf, int start_line, int start_column)
   }
 
   if (!ok) {
-    fprintf(stderr, "Bad cmavo [%s]\n", buf);
+    fprintf(stderr, "Bad cmavo [%s] at line %d column %d\n",
+            buf, start_line, start_column);
     had_bad_tokens = 1;
     return;
   }
-- 
2.43.0


From 540364597f1b6ac887cfdcd3d8a496182f4ebcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:21 +0000
Subject: [PATCH 29/97] fix: zoi or la'o as the last word of the text was
 silently dropped

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index bec4d8b..b77d462 100644
--- a/lex1.c
+++ b/lex1.c
@@ -476,7 +476,7 @@ parse_file(FILE *f)
 
 done:
 
-  if (zoi_data) {
+  if (zoi_data || zoi_delim_next) {
     fprintf(stderr, "Unclosed %s construction at end of file\n", zoi_form);
     had_bad_tokens = 1;
   }
-- 
2.43.0


From f7dd303349a562fb89083c01fe7d004a32c0a568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:36 +0000
Subject: [PATCH 30/97] fix: smujajgau lost the last character of a file that
 does not end in a newline

---
 smujajgau.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 2937bcb..964cd1d 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -517,7 +517,8 @@ do_file(FILE *f)
   char *p, *q, *r;
 
   while (fgets(line, sizeof(line), f)) {
-    line[strlen(line)-1] = 0;
+    int len = strlen(line);
+    if (len > 0 && line[len-1] == '\n') line[len-1] = 0;
     p = line;
     while (*p && isspace(*p)) p++;
     if (!*p) {
-- 
2.43.0


From ef3b98e0c5e12308f7ef287c703e94aa445fe72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:36 +0000
Subject: [PATCH 31/97] fix: smujajgau read outside its buffer on an entry with
 an empty key

---
 smujajgau.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 964cd1d..843da47 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -438,8 +438,7 @@ static void
 handle_mapping(char *src, char *dest)
 {
   int len = strlen(src);
-  int defines_place = isdigit(src[len-1]);
-  int specific = isdigit(src[len-2]);
+  int defines_place = (len > 0) && isdigit(src[len-1]);
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
-- 
2.43.0


From 4122572c4ef5265fb1292a18f9048ec1b667cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:36 +0000
Subject: [PATCH 32/97] fix: smujajgau corrupted the whole dictionary when a
 key or value was over 255 characters long

---
 smujajgau.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/smujajgau.c b/smujajgau.c
index 843da47..f85f8d1 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -67,6 +67,8 @@ static int transord = 0;
 static Trans **transac;
 
 #define MKL 256
+/* Longest key or value, the file format has 1 byte for the lengths */
+#define MAX_LEN (MKL-1)
 static int wordlens[MKL];
 
 
@@ -442,6 +444,11 @@ handle_mapping(char *src, char *dest)
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
+  if ((len > MAX_LEN) || (strlen(dest) > MAX_LEN)) {
+    fprintf(stderr, "Entry for [%s] is too long, ignored\n", src);
+    return;
+  }
+
   /* If we're about to add a case of something, check we get rid
      of any more specific entries first. */
   if (defines_place) {
@@ -492,6 +499,7 @@ handle_mapping(char *src, char *dest)
         preen(buffer2);
         strcpy(buffer3, "@");
         strcat(buffer3, src);
+        if ((lencanon > MAX_LEN) || (len + 1 > MAX_LEN)) return;
         add_defn(buffer2, buffer3);
 #if defined (DIAG)
         fprintf(stderr, "Adding defn 2 key=[%s] val=[%s]\n", buffer2, buffer3);
-- 
2.43.0


From 65aaed915e08a26f3a4562fda8f876e3546b677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:36 +0000
Subject: [PATCH 33/97] fix: dictionary entries of lujvo containing an
 apostrophe took over another compound's entry, or were not found

---
 smujajgau.c | 4 ++--
 translate.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index f85f8d1..f5d2be4 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -484,10 +484,10 @@ handle_mapping(char *src, char *dest)
     int baselen;
 
     /* Work out length of basic lujvo/gismu etc */
-    while (isalpha(*p)) p++;
+    while (isalpha(*p) || *p == '\'') p++;
     baselen = p - src;
 
-    if ((baselen >= 6) && defines_place) {
+    if ((baselen >= 6) && (baselen == len - 1) && defines_place) {
       strncpy(buffer, src, baselen);
       buffer[baselen] = 0;
       canon = canon_lujvo(buffer);
diff --git a/translate.c b/translate.c
index 9e6185d..672004d 100644
--- a/translate.c
+++ b/translate.c
@@ -1005,7 +1005,7 @@ static char * adv_translate_1(char *w, int place, TransContext ctx, char *buffer
       int pos;
       p = buffer;
       q = trans+1;
-      while (isalpha(*q)) {
+      while (isalpha(*q) || *q == '\'') {
         *p++ = *q++;
       }
       *p = 0;
-- 
2.43.0


From 6db9b0bd4d1334f0f327d42641cd354935613b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:58 +0000
Subject: [PATCH 34/97] fix: the dictionary entry of a fu'ivla was used for
 compounds of unknown rafsi

---
 smujajgau.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index f5d2be4..6287c22 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -491,7 +491,7 @@ handle_mapping(char *src, char *dest)
       strncpy(buffer, src, baselen);
       buffer[baselen] = 0;
       canon = canon_lujvo(buffer);
-      if (canon) {
+      if (canon && !strchr(canon, '?')) {
         int lencanon = strlen(canon);
         strcpy(buffer2, canon);
         buffer2[lencanon++] = src[len-1];
-- 
2.43.0


From 8d058fd36f0d7950e0f520351ad9565d5d9b66aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:07 +0000
Subject: [PATCH 35/97] fix: dictionary entries with the documented suffix 'a'
 for the qualifier form were never used

---
 smujajgau.c |  6 +++---
 translate.c | 10 ++++++++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 6287c22..15fa476 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -406,7 +406,7 @@ read_database(FILE *in)
 
 /*++++++++++++++++++++++++++++++++++++++
   If we define an entry of the form abcde1, delete any entries of the form
-  abcde1[nvat].  These have to be redefined after, if required.
+  abcde1[nvaqt].  These have to be redefined after, if required.
 
   char *s
   ++++++++++++++++++++++++++++++++++++++*/
@@ -414,9 +414,9 @@ read_database(FILE *in)
 static void
 preen(char *s) {
   char buffer[65536];
-  char *suffixes[] = {"n", "v", "a", "t"};
+  char *suffixes[] = {"n", "v", "a", "q", "t"};
   int i;
-  for (i=0; i<4; i++) {
+  for (i=0; i<5; i++) {
     strcpy(buffer, s);
     strcat(buffer, suffixes[i]);
     add_deletion(buffer);
diff --git a/translate.c b/translate.c
index 672004d..663b217 100644
--- a/translate.c
+++ b/translate.c
@@ -857,6 +857,11 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
   sprintf(buffer, "*%1d%s%1d%s",
           prec, generic, new_place, ctx_suf_as_string[(int) ctx]);
   trans = translate(buffer);
+  if (!trans && ctx == TCX_QUAL) {
+    /* The qualifier form can be given with either suffix */
+    sprintf(buffer, "*%1d%s%1da", prec, generic, new_place);
+    trans = translate(buffer);
+  }
   if (trans) {
     got_full_trans = 1;
   } else {
@@ -980,6 +985,11 @@ static char * adv_translate_1(char *w, int place, TransContext ctx, char *buffer
   /* Try looking up the explicit gloss asked for */
   sprintf(buffer, "%s%1d%c", w, place, ctx_suffix[ctx]);
   trans = translate(buffer);
+  if (!trans && ctx == TCX_QUAL) {
+    /* The qualifier form can be given with either suffix */
+    sprintf(buffer, "%s%1da", w, place);
+    trans = translate(buffer);
+  }
   if (trans) {
     found_full_trans = 1;
   }
-- 
2.43.0


From 14dd512cdb4fc7684f190160234ea592f67faf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:20 +0000
Subject: [PATCH 36/97] fix: jvocuhadju overran its buffers on components of
 more than 5 letters

---
 jvocuhadju.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jvocuhadju.c b/jvocuhadju.c
index c86c399..82619f5 100644
--- a/jvocuhadju.c
+++ b/jvocuhadju.c
@@ -717,6 +717,10 @@ static void makelujvo(char **tanru) {
 
   i=0;
   while (*tanru) {
+    if (strlen(*tanru) >= sizeof(t[i])) {
+      fprintf(stderr, "Cannot use component [%s] in forming lujvo.\n", *tanru);
+      exit(1);
+    }
     strcpy(t[i], *tanru);
     for (j=0; ; j++) {
       if (!t[i][j]) break;
-- 
2.43.0


From 8de8d694c0fc792e0cbabf58a233e9a8393b132f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:34 +0000
Subject: [PATCH 37/97] fix: lujvo written with commas were split into the
 wrong components

---
 canonluj.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/canonluj.c b/canonluj.c
index 83033db..b1eb421 100644
--- a/canonluj.c
+++ b/canonluj.c
@@ -258,6 +258,17 @@ split_lujvo (char *x)
 char *
 canon_lujvo (char *x)
 {
+  static char plain[65536]; /* The word without any commas */
+
+  if (strchr(x, ',') && (strlen(x) < sizeof(plain))) {
+    char *p = plain;
+    for (; *x; x++) {
+      if (*x != ',') *p++ = *x;
+    }
+    *p = 0;
+    x = plain;
+  }
+
   if (strchr(x, '+')) {
     /* If it looks like the strings has already been through here, be
        an identity function.  Used in translator to cope with
-- 
2.43.0


From 92a2d0dcf51da1a1793a8e6073439da8f0132169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:49 +0000
Subject: [PATCH 38/97] fix: words written with commas were not found in the
 dictionary

---
 translate.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/translate.c b/translate.c
index 663b217..17c825f 100644
--- a/translate.c
+++ b/translate.c
@@ -67,6 +67,15 @@ char * translate(char *word)/*{{{*/
   buf = GETBUF();
   
   res = dict_lookup(word);
+  if (!res && strchr(word, ',') && strlen(word) < 65536) {
+    /* Commas don't matter, the dictionary has the word without them */
+    char *p = buf;
+    for (; *word; word++) {
+      if (*word != ',') *p++ = *word;
+    }
+    *p = 0;
+    res = dict_lookup(buf);
+  }
   if (res) {
     strcpy(buf, res);
     return buf;
-- 
2.43.0


From b4d1040d8417de6a52e4ddfaeefd34423d78ebc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:36 +0000
Subject: [PATCH 39/97] fix: cmafihe -b overran its line buffers with widths or
 items of over 512 characters

---
 cm_output.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/cm_output.c b/cm_output.c
index 5880bd5..db12447 100644
--- a/cm_output.c
+++ b/cm_output.c
@@ -19,17 +19,27 @@ int width;
 
 /* ================================================== */
 
-#define BUFFER_SIZE 512
-
 #ifdef PLIST
 static proplist_t dictionary = NULL;
 #endif
 
-static char lines[3][BUFFER_SIZE];
+static char *lines[3];
 static int width_used;
 
 /* ================================================== */
 
+static void
+clear_lines(void)
+{
+  int i;
+  for (i=0; i<3; i++) {
+    if (!lines[i]) lines[i] = new_array(char, 1);
+    lines[i][0] = 0;
+  }
+}
+
+/* ================================================== */
+
 static void
 block_newline(void)
 {
@@ -39,21 +49,22 @@ block_newline(void)
     printf("%s\n", lines[2]);
     printf("\n");
   }
-  lines[0][0] = lines[1][0] = lines[2][0] = 0;
+  clear_lines();
   width_used = 0;
 }
 
 /* ================================================== */
 
 static void
-append_content(char *buf, const char *x, int len, int mlen)
+append_content(char **buf, const char *x, int len, int mlen)
 {
   int i;
   int d;
   char *p;
-  strcat(buf, x);
+  *buf = (char *) realloc(*buf, strlen(*buf) + mlen + 1);
+  strcat(*buf, x);
   d = mlen - len;
-  p = buf;
+  p = *buf;
   while (*p) p++;
   for (i=0; i<d; i++) {
     *p++ = ' ';
@@ -78,9 +89,9 @@ do_block(const char *a1, const char *a2, const char *a3)
     block_newline();
   }
 
-  append_content(&lines[0][0], a1, l1, ml+1);
-  append_content(&lines[1][0], a2, l2, ml+1);
-  append_content(&lines[2][0], a3, l3, ml+1);
+  append_content(&lines[0], a1, l1, ml+1);
+  append_content(&lines[1], a2, l2, ml+1);
+  append_content(&lines[2], a3, l3, ml+1);
   
   width_used += (ml + 1);
   return;
@@ -108,7 +119,7 @@ start_output(void)
     case OF_TEXT:
       break;
     case OF_TEXTBLK:
-      lines[0][0] = lines[1][0] = lines[2][0] = 0;
+      clear_lines();
       width_used = 0;
       break;
 #ifdef PLIST
-- 
2.43.0


From 40a59a4d88aee3beead93087bbe74f2c608b2e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:36 +0000
Subject: [PATCH 40/97] fix: cmafihe crashed on -w without an argument

---
 cm_main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cm_main.c b/cm_main.c
index e929ab0..83295a6 100644
--- a/cm_main.c
+++ b/cm_main.c
@@ -40,6 +40,10 @@ main (int argc, char **argv)
 #endif 
     } else if (!strcmp(*argv, "-w")) {
       ++argv, --argc;
+      if (!argc) {
+        fprintf(stderr, "The -w option needs a width\n");
+        exit(1);
+      }
       width = atoi(*argv);
     } else if (!strcmp(*argv, "-v")) {
       fprintf(stderr, "cmafihe version %s\n", version_string);
-- 
2.43.0


From 317aed3820f3bcc4f62e86d73f8d2e585b5504f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:36 +0000
Subject: [PATCH 41/97] fix: cmafihe overran its buffers on long compound cmavo

---
 cm_gather.c | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index f083068..c06406d 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -135,10 +135,13 @@ try_cmavo_fragment(node *p)
 
 static char *
 translate_selmao(char *x) {
-  char buffer[64];
+  char *buffer = new_array(char, strlen(x) + 2);
+  char *result;
   strcpy(buffer, "+");
   strcat(buffer, x);
-  return translate(buffer);
+  result = translate(buffer);
+  free(buffer);
+  return result;
 }
 
 /* ================================================== */
@@ -146,10 +149,15 @@ translate_selmao(char *x) {
 static void
 try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 {
-  char buf[65536], buf2[65536];
+  /* Longest key that the dictionary can hold */
+  const int max_key = 255;
+  char *buf = new_array(char, strlen(lojban) + 1);
+  char *buf2 = new_array(char, strlen(lojban) + 1);
   char *pbuf;
   char *t, *e;
-  char bufout[65536];
+  /* Each letter gives at most one entry and a space */
+  char *bufout = new_array(char, (max_key + 1) * strlen(lojban) + 1);
+  char *pout = bufout;
   int len;
 
   bufout[0] = 0;
@@ -165,7 +173,8 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
   while (*pbuf) {
     e = pbuf;
-    while (*e) e++;
+    while (*e && (e - pbuf < max_key)) e++;
+    while ((e > pbuf) && *e && strchr("aeiuo'", *e)) e--;
     while (e > pbuf) {
       len = e - pbuf;
 #if DIAG
@@ -178,10 +187,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #if DIAG
         fprintf(stderr, "Got trans %s for %s\n", t, buf2);
 #endif
-        if (bufout[0]) {
-          strcat(bufout, " ");
-        }
-        strcat(bufout, t);
+        pout += sprintf(pout, bufout[0] ? " %s" : "%s", t);
         pbuf += len;
 #if DIAG
         fprintf(stderr, "Now looking at %s\n", pbuf);
@@ -196,10 +202,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
         } while (strchr("aeiuo'", *e));
       }
     }
-    if (bufout[0]) {
-      strcat(bufout, " ");
-    }
-    strcat(bufout, "?");
+    pout += sprintf(pout, bufout[0] ? " %s" : "%s", "?");
     do {
       pbuf++;
     } while (*pbuf && strchr("aeiou'", *pbuf));
@@ -213,6 +216,10 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 
   (*transbuf) = new_string(bufout);
 
+  free(buf);
+  free(buf2);
+  free(bufout);
+
 }
 
 /* ================================================== */
@@ -222,7 +229,6 @@ do_trans(void)
 {
   node *p;
   char *t, *x;
-  char buf[32];
 
   for (p=head.next; p!=&head; p=p->next) {
     switch (p->type) {
@@ -233,9 +239,7 @@ do_trans(void)
         if (t) {
           p->trans = new_string(t);
 
-          strcpy(buf, "+");
-          strcat(buf, x);
-          t = translate(buf);
+          t = translate_selmao(x);
           if (t) {
             p->selmao = new_string(t);
           } else {
-- 
2.43.0


From 247117b73f6bf21c67c159647f1f580cfbb17d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:36 +0000
Subject: [PATCH 42/97] fix: cmafihe overran its buffers on long brivla

---
 cm_translate.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index 7e2a8dd..6d71aea 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -109,7 +109,7 @@ translate_comp(char *w, int *conversion)
 static char *
 translate_lujvo(char *word)
 {
-  static char result[65536];
+  static char *result = NULL;
   char buf[64];
   char *w, *trans;
   int initial;
@@ -118,6 +118,9 @@ translate_lujvo(char *word)
   int conversion=0;
 
   w = word;
+  /* Each component has at least 3 letters, and a gloss of at most 255 with
+     a hyphen or the name of a conversion in front */
+  result = (char *) realloc(result, 300 * (strlen(word) / 3 + 2));
   result[0] = 0;
   initial = 1;
 
@@ -265,7 +268,7 @@ is_consonant_not_r(char c)
 char *
 translate_unknown(char *w)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   int len, i;
   int hyph;
   char *p, *q;
@@ -303,11 +306,13 @@ translate_unknown(char *w)
   }
 
   if (hyph) {
+    buf = (char *) realloc(buf, len + 1);
     for (p=w, q=buf, i=0; i<hyph; p++, q++, i++) {
       *q = *p;
     }
     *q = 0;
     ltrans = translate_lujvo(buf);
+    buf = (char *) realloc(buf, strlen(ltrans) + len + 4);
     strcpy(buf, ltrans);
     strcat(buf, "-[");
     strcat(buf, w + hyph + 1);
-- 
2.43.0


From 7490d7a8a3a031b44a0919da1e71496785807318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 43/97] fix: cmafihe read before the start of its buffer on
 unknown cmavo starting with a vowel

---
 cm_gather.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cm_gather.c b/cm_gather.c
index c06406d..98bc767 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -199,7 +199,7 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (strchr("aeiuo'", *e));
+        } while ((e > pbuf) && strchr("aeiuo'", *e));
       }
     }
     pout += sprintf(pout, bufout[0] ? " %s" : "%s", "?");
-- 
2.43.0


From 9a364114ba2c935b1b8a1ea6ef6eb98917fa8912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:59 +0000
Subject: [PATCH 44/97] fix: cmafihe glossed lujvo with sel-, ter-, vel-, xel-
 with a stray hyphen, conversions of later components and dictionary markup

---
 cm_translate.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index 6d71aea..e5c5f00 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -93,8 +93,10 @@ translate_comp(char *w, int *conversion)
       } else {
         strcat (result, "??");
       }
+      *conversion = 0;
       return result;
     }
+    if (trans[0] && trans[1] == ';') trans += 2; /* skip the word class of the place entry */
   } else {
     trans = translate(w);
   }
@@ -128,7 +130,7 @@ translate_lujvo(char *word)
     if (strlen(w) == 5) {
       /* trailing gismu */
       trans = translate_comp(w, &conversion);
-      append_trans(trans, result, initial);
+      append_trans(trans, result, !result[0]);
       break;
     } else {
       /* Not 5 letter, see what else */
@@ -140,12 +142,12 @@ translate_lujvo(char *word)
         strcat(buf,w);
         trans = translate_comp(buf, &conversion);
         if (trans) {
-          if (!initial) {
+          if (result[0]) {
             strcat(result, "-");
           }
           strcat(result, trans);
         } else {
-          if (!initial) {
+          if (result[0]) {
             strcat(result, "-");
           }
           strcat(result, "?");
@@ -172,7 +174,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,3);
             buf[4] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result, !result[0]);
           }
           w += 4; /* and go around again */
         } else if (yy && ypos == 4) {
@@ -181,7 +183,7 @@ translate_lujvo(char *word)
           strncpy(buf+1,w,4);
           buf[5] = 0;
           trans = translate_comp(buf, &conversion);
-          append_trans(trans, result, initial);
+          append_trans(trans, result, !result[0]);
           w += 5; /* and go around again */
 
         } else {
@@ -195,7 +197,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,4);
             buf[5] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result, !result[0]);
 
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[3]) &&
@@ -220,7 +222,7 @@ translate_lujvo(char *word)
               strncpy(buf+1,w,3);
               buf[4] = 0;
               trans = translate_comp(buf, &conversion);
-              append_trans(trans, result, initial);
+              append_trans(trans, result, !result[0]);
             }
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[2]) &&
-- 
2.43.0


From 2c77f3aa056cc83e83c724498b9a7264c3f4a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:51 +0000
Subject: [PATCH 45/97] fix: dfasyn: name the next_state parameter as its body
 does when there is no Prefix

---
 dfasyn/n2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 453ef3c..31fa1dd 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1236,7 +1236,7 @@ static void write_next_state_function_uncompressed(int Nt)/*{{{*/
     fprintf(output, "  return %s_trans[%d*current_state + next_token];\n", prefix, Nt); 
     fprintf(output, "}\n");
   } else {
-    fprintf(output, "int next_state(int current_state, int token) {\n");
+    fprintf(output, "int next_state(int current_state, int next_token) {\n");
     fprintf(output, "  if (next_token < 0 || next_token >= %d) return -1;\n", Nt);
     fprintf(output, "  return trans[%d*current_state + next_token];\n", Nt); 
     fprintf(output, "}\n");
@@ -1313,7 +1313,7 @@ static void write_next_state_function_compressed(void)/*{{{*/
     fprintf(output, "return %s_nextstate[m];\n", prefix);
     fprintf(output, "}\n");
   } else {
-    fprintf(output, "int next_state(int current_state, int token) {\n");
+    fprintf(output, "int next_state(int current_state, int next_token) {\n");
     fprintf(output, "int h, l, m, xm;\n");
     fprintf(output, "while (current_state >= 0) {\n");
     fprintf(output, "  l = base[current_state], h = base[current_state+1];\n");
-- 
2.43.0


From b18a455c9a69db120cf6cf6dcbcec04d8ef8f5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:51 +0000
Subject: [PATCH 46/97] fix: dfasyn: do not merge non-accepting states that
 have different attributes

---
 dfasyn/compdfa.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dfasyn/compdfa.c b/dfasyn/compdfa.c
index c13290c..8e05bda 100644
--- a/dfasyn/compdfa.c
+++ b/dfasyn/compdfa.c
@@ -155,10 +155,8 @@ static int initial_compare(const void *a, const void *b)/*{{{*/
     return -1;
   } else if (aa->result && !bb->result) {
     return +1;
-  } else if (!aa->result && !bb->result) {
-    return 0;
   } else {
-    status = strcmp(aa->result, bb->result);
+    status = (aa->result) ? strcmp(aa->result, bb->result) : 0;
     if      (status < 0) return -1;
     else if (status > 0) return +1;
     else {
-- 
2.43.0


From 55ce03db81e3986cfe23eb9c2178a5b25097d196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:23 +0000
Subject: [PATCH 47/97] fix: dfasyn: use wider table types when there are more
 than 256 tokens or 65535 transitions

---
 dfasyn/n2d.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 31fa1dd..b978ac1 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1349,9 +1349,9 @@ static void print_compressed_tables(Block *b)/*{{{*/
 
   n = 0;
   if (prefix) {
-    fprintf(output, "static unsigned char %s_token[] = {", prefix);
+    fprintf(output, "static unsigned %s %s_token[] = {", (Nt > 256) ? "short" : "char", prefix);
   } else {
-    fprintf(output, "static unsigned char token[] = {");
+    fprintf(output, "static unsigned %s token[] = {", (Nt > 256) ? "short" : "char");
   }
   for (i=0; i<ndfa; i++) {
     for (j=0; j<Nt; j++) {
@@ -1395,9 +1395,9 @@ static void print_compressed_tables(Block *b)/*{{{*/
 
   n = 0;
   if (prefix) {
-    fprintf(output, "static unsigned short %s_base[] = {", prefix);
+    fprintf(output, "static unsigned %s %s_base[] = {", (basetab[ndfa] > 65535) ? "int" : "short", prefix);
   } else {
-    fprintf(output, "static unsigned short base[] = {");
+    fprintf(output, "static unsigned %s base[] = {", (basetab[ndfa] > 65535) ? "int" : "short");
   }
   for (i=0; i<=ndfa; i++) {
     if (n>0) fputc (',', output);
-- 
2.43.0


From d52aca71abac9a894906acf6f9e03420ab803326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:23 +0000
Subject: [PATCH 48/97] fix: dfasyn: refuse a block instantiated inside itself
 instead of overrunning a buffer

---
 dfasyn/n2d.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index b978ac1..a7661a6 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -530,6 +530,10 @@ void instantiate_block(Block *curblock, char *block_name, char *instance_name)/*
   Block *master = lookup_block(block_name, USE_OLD_MUST_EXIST);
   char namebuf[1024];
   int i;
+  if (master == curblock) {
+    fprintf(stderr, "Cannot instantiate block '%s' inside itself\n", block_name);
+    exit(1);
+  }
   for (i=0; i<master->nstates; i++) {
     State *s = master->states[i];
     State *new_state;
-- 
2.43.0


From 4cee31cae7dac90a1a9b5b9c7ae602bcbebf27b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:23 +0000
Subject: [PATCH 49/97] fix: dfasyn: refuse a description without a start state
 or tokens instead of crashing

---
 dfasyn/n2d.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index a7661a6..76ecc20 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1535,6 +1535,10 @@ int main (int argc, char **argv)
   if (verbose) fprintf(stderr, "\n");
 
   start_state = get_curstate(); /* The last state to be current in the input file is the entry state of the NFA */
+  if (!start_state || (ntokens == 0)) {
+    fprintf(stderr, "%s, exiting\n", start_state ? "No tokens declared" : "No start state");
+    exit(1);
+  }
   main_block = start_state->parent;
   if (verbose) fprintf(stderr, "Computing epsilon closure...\n");
   generate_epsilon_closure(main_block);
-- 
2.43.0


From 48da8f0f6454f6886b15f7a0322d91e655debf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:05 +0000
Subject: [PATCH 50/97] fix: dfasyn: refuse circular abbreviations and symbols
 instead of recursing without end

---
 dfasyn/expr.c | 12 +++++++++++-
 dfasyn/n2d.c  |  8 ++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/dfasyn/expr.c b/dfasyn/expr.c
index cdc27a3..f3f5278 100644
--- a/dfasyn/expr.c
+++ b/dfasyn/expr.c
@@ -35,6 +35,7 @@ struct Expr {
 struct Symbol {
   char *name;
   int is_expr;
+  int busy; /* Set while being evaluated, to detect circular definitions */
   union {
     Expr *e;
     int val;
@@ -212,6 +213,7 @@ static Symbol *  find_symbol_or_create(Evaluator *x, char *sym_name)/*{{{*/
   
   s = new(Symbol);
   add_new_symbol(x,s);
+  s->busy = 0;
   s->is_expr = 0; /* Until proven otherwise */
   s->name = new_string(sym_name);
   s->data.val = 0;
@@ -334,7 +336,15 @@ static int eval(Evaluator *x, Expr *e)/*{{{*/
           e->data.symbol.s = s = find_symbol_or_create(x, e->data.symbol.name);
         }
         if (s->is_expr) {
-          return eval(x, s->data.e);
+          int val;
+          if (s->busy) {
+            fprintf(stderr, "Symbol '%s' is defined in terms of itself\n", s->name);
+            exit(2);
+          }
+          s->busy = 1;
+          val = eval(x, s->data.e);
+          s->busy = 0;
+          return val;
         } else {
           return s->data.val;
         }
diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 76ecc20..e4bdabb 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -57,6 +57,7 @@ struct Abbrev {
   char **rhs; /* Token/define */
   int nrhs;
   int maxrhs;
+  int busy; /* Set while being expanded, to detect circular definitions */
 };
 
 static struct Abbrev *abbrevtable=NULL;
@@ -134,6 +135,7 @@ struct Abbrev * create_abbrev(char *name)/*{{{*/
   result->lhs = new_string(name);
   result->nrhs = result->maxrhs = 0;
   result->rhs = 0;
+  result->busy = 0;
   return result;
 }
 /*}}}*/
@@ -414,9 +416,15 @@ static void add_transition(State *curstate, char *str, char *destination)/*{{{*/
   abbrev = (str) ? lookup_abbrev(str, USE_OLD_MUST_EXIST) : NULL;
   if (abbrev) {
     int i;
+    if (abbrev->busy) {
+      fprintf(stderr, "Abbreviation '%s' is defined in terms of itself\n", str);
+      exit(1);
+    }
+    abbrev->busy = 1;
     for (i=0; i<abbrev->nrhs; i++) {
       add_transition(curstate, abbrev->rhs[i], destination);
     }
+    abbrev->busy = 0;
   } else {
     Translist *tl;
     tl = new(Translist);
-- 
2.43.0


From d1797b6fe86743d5bcb05e8016e059a6eedfdcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:05 +0000
Subject: [PATCH 51/97] fix: dfasyn: do not read an unset early flag for
 ambiguous states

---
 dfasyn/expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dfasyn/expr.c b/dfasyn/expr.c
index f3f5278..f2a2834 100644
--- a/dfasyn/expr.c
+++ b/dfasyn/expr.c
@@ -366,6 +366,7 @@ int evaluate_result(Evaluator *x, char **result, int *result_early)/*{{{*/
     if (eval(x, x->results[i].e)) {
       if (x->any_results_so_far) {
         *result = NULL;
+        if (result_early) *result_early = 0;
         return 0;
       } else {
         x->any_results_so_far = 1;
-- 
2.43.0


From 4de1ff3e39371d72901eef3c541b85d7ef1c9f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:11 +0000
Subject: [PATCH 52/97] fix: dfasyn: avoid signed overflow of the bit mask in
 the subset construction

---
 dfasyn/n2d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index e4bdabb..3ad8696 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1049,7 +1049,8 @@ static void build_dfa(Block *b, int start_index)/*{{{*/
   while (next_to_do < ndfa) {
 
     int t; /* token index */
-    int j0, j0_5, j1, j, mask, k, m;
+    int j0, j0_5, j1, j, k, m;
+    unsigned long mask;
     int idx;
     unsigned long *current_nfas;
     unsigned long block_bitmap;
-- 
2.43.0


From df4379b39aab9cc9ceb5acbeb5e68bbe121eeadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:11 +0000
Subject: [PATCH 53/97] fix: dfasyn: refuse -o and -r without an argument
 instead of running past the argument list

---
 dfasyn/n2d.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 3ad8696..43604b0 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1480,9 +1480,17 @@ int main (int argc, char **argv)
     if (!strcmp(*argv, "-v") || !strcmp(*argv, "--verbose")) {
       verbose = 1;
     } else if (!strcmp(*argv, "-o") || !strcmp(*argv, "--output")) {
+      if (argc < 2) {
+        fprintf(stderr, "Option %s needs an argument\n", *argv);
+        exit(1);
+      }
       ++argv, --argc;
       output_name = *argv;
     } else if (!strcmp(*argv, "-r") || !strcmp(*argv, "--report")) {
+      if (argc < 2) {
+        fprintf(stderr, "Option %s needs an argument\n", *argv);
+        exit(1);
+      }
       ++argv, --argc;
       report_name = *argv;
     } else if (!strcmp(*argv, "-u") || !strcmp(*argv, "--uncompressed-tables")) {
-- 
2.43.0


From 69e58bb3e9f6daaee3ae2643b35802031317ceff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 54/97] fix: jbofihe -d printed unset locations for the end of
 the text and unset values for broken erasures

---
 lex2.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index 4b1da67..57803c4 100644
--- a/lex2.c
+++ b/lex2.c
@@ -1031,6 +1031,11 @@ yylex1(TokenType *res)
 {
   static int returned_EOF = 0;
 
+  /* Tokens without a place of their own are at the last token's place */
+  res->yylval = NULL;
+  res->yylloc.first_line = res->yylloc.last_line = last_tok_line;
+  res->yylloc.first_column = res->yylloc.last_column = last_tok_column;
+
   if (returned_EOF) {
     res->yylval = NULL;
     res->value = 0;
@@ -1048,8 +1053,8 @@ yylex1(TokenType *res)
     /* Return a real token */
 
     last_tok_line = res->yylloc.first_line = next_tok->start_line;
-    last_tok_column = res->yylloc.last_line = next_tok->start_line;
-    res->yylloc.first_column = next_tok->start_column;
+    res->yylloc.last_line = next_tok->start_line;
+    last_tok_column = res->yylloc.first_column = next_tok->start_column;
     res->yylloc.last_column = next_tok->start_column;
 
     switch (next_tok->type) {
-- 
2.43.0


From d255411a3f6b7c6aa7a0a3c52fb8eae19ba3306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:55 +0000
Subject: [PATCH 55/97] fix: jbofihe glossed selbri outside sumti and bridi (as
 in vocatives) by an unset flag

---
 properties.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties.c b/properties.c
index 72eb283..b0648b7 100644
--- a/properties.c
+++ b/properties.c
@@ -146,6 +146,7 @@ prop_glosstype(TreeNode *x, int create)
   if (!result && create) {
     result = (XGlosstype *) fetch_conversion(x, YES, EX_GLOSSTYPE);
     result->is_tertau = 0;
+    result->in_selbri = 0;
   }
 
   return result;
-- 
2.43.0


From d7cc360e82c6c8fd5e7f566680675d635dda9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 56/97] fix: jbofihe -bt showed empty grammar rules as if they
 produced themselves

---
 output2table.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/output2table.pl b/output2table.pl
index 8257259..acdc6d2 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -55,7 +55,7 @@ while (<>) {
 
     die "Unmatched rule [$_]" unless (defined $number);
 
-    if ($rhs =~ m{/\* empty \*/}) {
+    if ($rhs =~ m{/\* empty \*/|^\s*%empty\s*$}) {
         @r = ();
     } else {
         @r = split(/ /, $rhs);
-- 
2.43.0


From cd5aefc8735978d9915755ab0b78abed577b74cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 57/97] fix: jbofihe -bt read past the end of its rule table
 for the last rule

---
 output2table.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/output2table.pl b/output2table.pl
index acdc6d2..5a9a52a 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -161,7 +161,8 @@ print "};\n";
 $n=0;
 $t = 0;
 print "static unsigned short ".$prefix."_ruleindex[] = {\n";
-for ($s=0;$s<=$#lhs;$s++) {
+# One more entry than there are rules, to mark the end of the last one
+for ($s=0;$s<=$#lhs+1;$s++) {
     print ", " unless ($n==0);
     printf "%d", $t;
     $n++;
-- 
2.43.0


From 7383f0aa923895ce1863cb22bd3349dfa173f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:01 +0000
Subject: [PATCH 58/97] fix: -bt and -se took each reduced rule for the one
 after it in the grammar

---
 add_trace_to_tabc.pl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/add_trace_to_tabc.pl b/add_trace_to_tabc.pl
index 3186075..40795ab 100644
--- a/add_trace_to_tabc.pl
+++ b/add_trace_to_tabc.pl
@@ -35,8 +35,10 @@ while (<>) {
         print "report_trace_shift(yychar);\n";
     } elsif (m{^\s*yyreduce\:}o) {
         print;
-        print "elide_trace_reduce(yystate, yyn);\n";
-        print "report_trace_reduce(yystate, yyn);\n";
+        # From bison 1.75 on, rule 0 in the .output file is $accept, and yyn is
+        # one more than the number there.
+        print "elide_trace_reduce(yystate, yyn - 1);\n";
+        print "report_trace_reduce(yystate, yyn - 1);\n";
         
     } elsif (m{^\s*yyerrlab\:}o) {
         print;
-- 
2.43.0


From 03cf40f98f4c23c4a198fcb7c8eb6e488cf75c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 59/97] fix: the x1 place added by jai counted as filled when
 the original x1 was filled inside ke .. ke'e

---
 terms.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/terms.c b/terms.c
index 58e60b3..d723caa 100644
--- a/terms.c
+++ b/terms.c
@@ -706,6 +706,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           fai[1] = place[1];
           place[1].type = PT_TAG;
           place[1].valid = 1;
+          place[1].taken = 0;
           place[1].tag.tag = lc->e[i].data.jai_tag.tag;
           place[1].tag.inner_tu2 = lc->e[i].data.jai_tag.inner_tu2;
         }
@@ -725,6 +726,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           fai[1] = place[1];
           place[1].type = PT_ORD;
           place[1].valid = 1;
+          place[1].taken = 0;
         }
         break;
 
-- 
2.43.0


From f4d9ccad4131f18f3cceb6747ccd4382af6e6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 60/97] fix: terms linked to a number + moi were all tagged
 with construct number 0

---
 terms.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/terms.c b/terms.c
index d723caa..56cb178 100644
--- a/terms.c
+++ b/terms.c
@@ -809,6 +809,7 @@ static void process_tanru_unit_2_args(TreeNode *tu2, TermVector *pre, TermVector
           TreeNode *norl, *moi;
           XRequireBrac *xrb;
           XTermTag tt;
+          int i, n_links;
           /* Remember : The NUMBER_MOI marker that's in the bison file is NOT
              built into the parse tree!! */
           norl = child_ref(c1, 0);
@@ -817,8 +818,12 @@ static void process_tanru_unit_2_args(TreeNode *tu2, TermVector *pre, TermVector
           tt.numbermoi.number_or_lerfu = norl;
           tt.numbermoi.moi = moi;
           assign_places(pre, post, lc, &tt);
+          for (i=0, n_links=0; i<lc->n; i++) {
+            if (lc->e[i].type == LC_LINKS) n_links += lc->e[i].data.links->n_nodes;
+          }
           if ((pre->n_nodes > 0) ||
-              (post->n_nodes > 0)) {
+              (post->n_nodes > 0) ||
+              (n_links > 0)) {
             xrb = prop_require_brac (norl, YES);
           }
         }
-- 
2.43.0


From 7eea9efa0fc5875951904abc54a380a7845ef13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:47 +0000
Subject: [PATCH 61/97] fix: quoted text with \, $, ^ or ~ was not escaped in
 LaTeX output

---
 latex.c    | 74 ++++++++++++++++++++++++++++++++++++++++++++++--------
 latex.h    |  1 +
 latexblk.c |  2 +-
 3 files changed, 65 insertions(+), 12 deletions(-)

diff --git a/latex.c b/latex.c
index 264718d..c1460df 100644
--- a/latex.c
+++ b/latex.c
@@ -249,23 +249,25 @@ latex_write_close_bracket(BracketType type, int subscript)
 }
 
 /*++++++++++++++++++++++++++++++
-  Make a string safe for setting with TeX.  Don't make $, \ and {/} safe
-  though, so that translations can include escape sequences.
+  Make a string safe for setting with TeX.  Unless 'all' is set, don't make $,
+  \ and ~ safe though, so that translations can include escape sequences.
 
-  static char * make_texsafe
+  static char * texsafe
 
   char *s
+
+  int all
   ++++++++++++++++++++++++++++++*/
 
-char *
-make_texsafe(char *s)
+static char *
+texsafe(char *s, int all)
 {
   static char *buf = NULL;
   static size_t max = 0;
   size_t need;
   char *p, *q;
 
-  need = 3 * strlen(s) + 1;
+  need = 16 * strlen(s) + 1; /* Room for \textbackslash{} */
   if (need > max) {
     if (buf) Free(buf);
     max = 2 * need;
@@ -275,12 +277,31 @@ make_texsafe(char *s)
   q = buf;
   while (*p) {
     switch (*p) {
-      case '^':
-      case '&':
-#if 0
       case '\\':
+        if (all) {
+          strcpy(q, "\\textbackslash{}");
+          q += strlen(q);
+          p++;
+        } else {
+          *q++ = *p++;
+        }
+        break;
+      case '^':
+      case '~':
+        if (all || (*p == '^')) {
+          *q++ = '\\';
+          *q++ = *p++;
+          *q++ = '{';
+          *q++ = '}';
+        } else {
+          *q++ = *p++;
+        }
+        break;
       case '$':
-#endif
+        if (all) *q++ = '\\';
+        *q++ = *p++;
+        break;
+      case '&':
       case '{':
       case '}':
       case '%':
@@ -306,6 +327,37 @@ make_texsafe(char *s)
 }
 
 
+/*++++++++++++++++++++++++++++++
+  Make a translation safe for setting with TeX.
+
+  char * make_texsafe
+
+  char *s
+  ++++++++++++++++++++++++++++++*/
+
+char *
+make_texsafe(char *s)
+{
+  return texsafe(s, 0);
+}
+
+
+/*++++++++++++++++++++++++++++++
+  Make Lojban text (which can include quoted text of any kind) safe for
+  setting with TeX.
+
+  char * make_lojban_texsafe
+
+  char *s
+  ++++++++++++++++++++++++++++++*/
+
+char *
+make_lojban_texsafe(char *s)
+{
+  return texsafe(s, 1);
+}
+
+
 /*++++++++++++++++++++++++++++++++++++++
   
 
@@ -326,7 +378,7 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("\\mbox{\\textbf{%s}\\/}", make_texsafe(text));
+  printf("\\mbox{\\textbf{%s}\\/}", make_lojban_texsafe(text));
 
   state = ST_TEXT;
 }
diff --git a/latex.h b/latex.h
index 9eba44f..742f7e5 100644
--- a/latex.h
+++ b/latex.h
@@ -13,6 +13,7 @@
 
 extern void latex_write_epilog(void);
 extern char *make_texsafe(char *s);
+extern char *make_lojban_texsafe(char *s);
 extern void latex_write_open_bracket(BracketType type, int subscript);
 extern void latex_write_close_bracket(BracketType type, int subscript);
 
diff --git a/latexblk.c b/latexblk.c
index 7ed377b..8808407 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -327,7 +327,7 @@ write_lojban_text(char *text)
   clear_eols();
 
   append(&loj_text, " ");
-  append(&loj_text, make_texsafe(text));
+  append(&loj_text, make_lojban_texsafe(text));
 
 }
 
-- 
2.43.0


From 0d22a21f00b0ab55a06e3bdf2cbc211d5dcd84bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:15 +0000
Subject: [PATCH 62/97] fix: place translations of me and moi were used as
 printf formats

---
 output.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/output.c b/output.c
index b079f99..6cfb0c3 100644
--- a/output.c
+++ b/output.c
@@ -872,6 +872,25 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
 
 }
 /*}}}*/
+static char *insert_number(char *trans, int number)/*{{{*/
+/* Make a copy of a translation in which each %d is replaced by a number.  The
+   result has to be freed by the caller */
+{
+  char *result, *q;
+
+  result = q = new_array(char, 16 * strlen(trans) + 1);
+  while (*trans) {
+    if ((trans[0] == '%') && (trans[1] == 'd')) {
+      q += sprintf(q, "%d", number);
+      trans += 2;
+    } else {
+      *q++ = *trans++;
+    }
+  }
+  *q = 0;
+  return result;
+}
+/*}}}*/
 static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
 {
   XTermTags *xtt;
@@ -931,17 +950,18 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
           case TTT_ME:/*{{{*/
             {
-              char *trans, transbuf[1024];
+              char *trans, *transbuf;
               (drv->start_tag)();
               trans = adv_translate("me", tag->pos, TCX_TAG);
-              sprintf(transbuf, trans ? trans : "", tag->me.sumti->data.nonterm.number);
+              transbuf = insert_number(trans ? trans : "", tag->me.sumti->data.nonterm.number);
               sprintf(tp, "%d..", tag->pos);
               (drv->write_tag_text)("me", tp, transbuf, YES);
+              Free(transbuf);
             }
           break;/*}}}*/
           case TTT_NUMBERMOI:/*{{{*/
             {
-              char *trans, lojbuf[1024], transbuf[1024];
+              char *trans, lojbuf[1024], *transbuf;
               int code;
               int norl_code;
               char *cmavo;
@@ -950,13 +970,10 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
               norl_code = tag->numbermoi.number_or_lerfu->data.nonterm.number;
               (drv->start_tag)();
               trans = adv_translate(cmavo, tag->pos, TCX_TAG);
-              if (trans) {
-                sprintf(transbuf, trans, norl_code);
-              } else {
-                transbuf[0] = 0;
-              }
+              transbuf = insert_number(trans ? trans : "", norl_code);
               sprintf(lojbuf, "#%d-%s%d", norl_code, cmavo, tag->pos);
               (drv->write_tag_text)(lojbuf, "", transbuf, YES);
+              Free(transbuf);
             }
             break;
             /*}}}*/
-- 
2.43.0


From a60aff49a7d5609b753b22e67964612103777840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:10 +0000
Subject: [PATCH 63/97] fix: glossed output lost nai and cai after fu'e, fu'o,
 da'o and y

---
 output.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/output.c b/output.c
index 6cfb0c3..ca6cf20 100644
--- a/output.c
+++ b/output.c
@@ -789,6 +789,18 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
           translate_indicator(x, loj, eng);
           break;
 
+        case Y:
+        case DAhO:
+        case FUhE:
+        case FUhO:
+          if (prop_neg_indicator(x, NO) || prop_cai_indicator(x, NO)) {
+            /* Show the NAI and CAI that belong to it */
+            translate_indicator(x, loj, eng);
+          } else {
+            translate_other_cmavo(x, eng);
+          }
+          break;
+
         case JAI:
           translate_jai(x, eng);
           break;
-- 
2.43.0


From 841ed903a50eef365c4242b97f24eb061b32de61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:05 +0000
Subject: [PATCH 64/97] fix: a dollar in a translation, such as that of zo lu,
 was not escaped in LaTeX output

---
 latex.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/latex.c b/latex.c
index c1460df..a3696aa 100644
--- a/latex.c
+++ b/latex.c
@@ -298,9 +298,7 @@ texsafe(char *s, int all)
         }
         break;
       case '$':
-        if (all) *q++ = '\\';
-        *q++ = *p++;
-        break;
+        /* (zo lu is translated as "$OPENQUOTE") */
       case '&':
       case '{':
       case '}':
-- 
2.43.0


From a8cb4e0168f013bdbdd58de115361f900f11878d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:46 +0000
Subject: [PATCH 65/97] fix: line ends inside a jai tag were repeated in the
 output at every place tag showing it

---
 output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/output.c b/output.c
index ca6cf20..29feab1 100644
--- a/output.c
+++ b/output.c
@@ -1526,7 +1526,7 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
         if (eng[0]) {
           (drv->write_tag_text)("", "", eng, NO);
         }
-        (drv->set_eols)(x->eols);
+        /* Its line ends count where the word itself is shown */
         break;
       default:
         break;
@@ -1594,7 +1594,7 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
         if (eng[0]) {
           (drv->write_tag_text)("", "", eng, NO);
         }
-        (drv->set_eols)(x->eols);
+        /* Its line ends count where the word itself is shown */
         break;
       default:
         break;
-- 
2.43.0


From 3969b4f5233109f908cd99f46db4e3f40f761ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:07 +0000
Subject: [PATCH 66/97] fix: a ke'e elided at the end of a text with gi'e ke
 was not shown by -ie nor required by -re

---
 rpc2x.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc2x.y b/rpc2x.y
index 1a04cd3..031c235 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -669,7 +669,7 @@ bridi_tail : bridi_tail_1
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          tail_terms
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          /* ET VAU */
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ tail_terms
-           | bridi_tail_1 gihek_stag_ke KE          bridi_tail               /* ET VAU */
+           | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ /* ET VAU */
            ;
 
 gihek_stag_ke : PRIVATE_GIHEK_KE gihek stag
-- 
2.43.0


From f02234648b69c3b2060dd61556d188f298208ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 67/97] fix: -se said that the ku of na ku could be omitted

---
 elide.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elide.c b/elide.c
index bb8ca0d..1a08518 100644
--- a/elide.c
+++ b/elide.c
@@ -170,6 +170,11 @@ token_is_elidable(YYSTYPE tok, int *is_boiveho)
   if (!tok) return 0; /* end of string */
   if (tok->type != N_CMAVO) return 0;
   
+  /* The KU of NA KU is not a terminator, it has to be there */
+  if ((tok->data.cmavo.selmao == KU) &&
+      (tok->prev->type == N_CMAVO) &&
+      (tok->prev->data.cmavo.selmao == NA)) return 0;
+
   switch (cmavo_table[tok->data.cmavo.code].code) {
     case CM_BEhO:
     case CM_CU:
-- 
2.43.0


From 726ef8c871e0e8fe172070171f6761213ef1d983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 68/97] fix: -se said that terminators emphasised by ba'e could
 be omitted

---
 elide.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elide.c b/elide.c
index 1a08518..22cd3a2 100644
--- a/elide.c
+++ b/elide.c
@@ -170,6 +170,9 @@ token_is_elidable(YYSTYPE tok, int *is_boiveho)
   if (!tok) return 0; /* end of string */
   if (tok->type != N_CMAVO) return 0;
   
+  /* Without the word its BAhE would fall on the next one */
+  if (tok->bahe) return 0;
+
   /* The KU of NA KU is not a terminator, it has to be there */
   if ((tok->data.cmavo.selmao == KU) &&
       (tok->prev->type == N_CMAVO) &&
-- 
2.43.0


From 5d0c1cac0570944bbed48e1faf96b51a34af82c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:05 +0000
Subject: [PATCH 69/97] fix: -se said that terminators followed by an utterance
 ordinal (number + mai) could be omitted

---
 categ.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/categ.c b/categ.c
index 26fe00f..dc33336 100644
--- a/categ.c
+++ b/categ.c
@@ -818,6 +818,8 @@ static void mark_cmavo_before_free(TreeNode *head)/*{{{*/
             x->data.cmavo.followed_by_free = 0;
             break;
         }
+      } else if (mkrtest(y, PRIVATE_NUMBER_MAI)) {
+        x->data.cmavo.followed_by_free = 1;
       } else {
         x->data.cmavo.followed_by_free = 0;
       }
-- 
2.43.0


From 2e3db6fde9cdfd9cbf0616e605c012298c05d241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:28 +0000
Subject: [PATCH 70/97] fix: -se said that ku or cu between two tenses that
 would run together could be omitted

---
 categ.c     | 23 +++++++++++++++++++++++
 elide.c     | 15 +++++++++++++++
 functions.h |  1 +
 3 files changed, 39 insertions(+)

diff --git a/categ.c b/categ.c
index dc33336..756f067 100644
--- a/categ.c
+++ b/categ.c
@@ -392,6 +392,29 @@ next_outer_loop:
   }
 }
 /*}}}*/
+int tenses_would_join(TreeNode *x, TreeNode *y)/*{{{*/
+/* Would the tense ending with marker x take in words of the tense starting
+   with marker y, if nothing was between them? */
+{
+  TreeNode *z;
+  int state = 0;
+
+  for (z=x; !mkrtest(z, PRIVATE_START_TENSE); z=z->prev) ;
+
+  for ( ; (state >= 0) && !mkrtest(z, PRIVATE_END_TENSE); z=z->next) {
+    if (z->type != N_MARKER) {
+      state = stag_next_state(state, (z->type == N_CMAVO) ? map_stag_token(z->data.cmavo.selmao) : ST_BU);
+    }
+  }
+  for (z=y; (state >= 0) && !mkrtest(z, PRIVATE_END_TENSE); z=z->next) {
+    if (z->type != N_MARKER) {
+      state = stag_next_state(state, (z->type == N_CMAVO) ? map_stag_token(z->data.cmavo.selmao) : ST_BU);
+      if ((state >= 0) && stag_exitval[state]) return 1;
+    }
+  }
+  return 0;
+}
+/*}}}*/
 static TreeNode *straddle_ek(TreeNode *x) /*{{{*/
 {
   /* Expect to be looking at the start of an ek, then scan over it */
diff --git a/elide.c b/elide.c
index 22cd3a2..95e4adc 100644
--- a/elide.c
+++ b/elide.c
@@ -500,6 +500,21 @@ elide_trace_shift(int yystate, int yychar)
      set_conflict(tokbuf.n - 1, 0);
     }
 
+    /* Likewise a tense, KU or CU, and another tense that would make up a
+       single tense with the first */
+    if (tokbuf.n > 1) {
+      TreeNode *x = tokbuf.buf[0].yylval;
+      TreeNode *next = tokbuf.buf[tokbuf.n - 1].yylval;
+      if (((x->data.cmavo.selmao == KU) || (x->data.cmavo.selmao == CU)) &&
+          (x->prev->type == N_MARKER) &&
+          (x->prev->data.marker.tok == PRIVATE_END_TENSE) &&
+          next && (next->type == N_MARKER) &&
+          (next->data.marker.tok == PRIVATE_START_TENSE) &&
+          tenses_would_join(x->prev, next)) {
+        set_conflict(tokbuf.n - 1, 0);
+      }
+    }
+
     if (show_elisions_verbose && (tokbuf.n > 1)) {
       printf("Early shift hazards for words ");
       emit_elidable_sequence();
diff --git a/functions.h b/functions.h
index 2d39981..505b908 100644
--- a/functions.h
+++ b/functions.h
@@ -97,6 +97,7 @@ extern char *make_uppercase(char *s);
 
 /* In categ.c */
 void categorize_tokens(TreeNode *head);
+int tenses_would_join(TreeNode *x, TreeNode *y);
 
 /* In lex2.c */
 void lex2_initialise(void);
-- 
2.43.0


From 02ab490da48e28a6f5d184fbb8fbed4bb5db5fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:28 +0000
Subject: [PATCH 71/97] fix: -se said that all words between a tense and gi
 could be omitted, which makes another connective of the two

---
 elide.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/elide.c b/elide.c
index 95e4adc..bb8c4c3 100644
--- a/elide.c
+++ b/elide.c
@@ -500,17 +500,20 @@ elide_trace_shift(int yystate, int yychar)
      set_conflict(tokbuf.n - 1, 0);
     }
 
-    /* Likewise a tense, KU or CU, and another tense that would make up a
-       single tense with the first */
+    /* Likewise if the words before and after the elidables are a tense and
+       another tense that would make up a single tense with the first, or a
+       tense and the GI with which it would make up a gek */
     if (tokbuf.n > 1) {
-      TreeNode *x = tokbuf.buf[0].yylval;
+      TreeNode *tense = tokbuf.buf[0].yylval->prev;
       TreeNode *next = tokbuf.buf[tokbuf.n - 1].yylval;
-      if (((x->data.cmavo.selmao == KU) || (x->data.cmavo.selmao == CU)) &&
-          (x->prev->type == N_MARKER) &&
-          (x->prev->data.marker.tok == PRIVATE_END_TENSE) &&
-          next && (next->type == N_MARKER) &&
-          (next->data.marker.tok == PRIVATE_START_TENSE) &&
-          tenses_would_join(x->prev, next)) {
+      if (next &&
+          (tense->type == N_MARKER) &&
+          (tense->data.marker.tok == PRIVATE_END_TENSE) &&
+          (((next->type == N_MARKER) &&
+            (next->data.marker.tok == PRIVATE_START_TENSE) &&
+            tenses_would_join(tense, next)) ||
+           ((next->type == N_CMAVO) &&
+            (next->data.cmavo.selmao == GI)))) {
         set_conflict(tokbuf.n - 1, 0);
       }
     }
-- 
2.43.0


From edf8caceff0b236f071ca2d98bc567accfa4d025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:46 +0000
Subject: [PATCH 72/97] fix: -se missed numbers that would run together when
 boi was elided before the words in between, and took any tense for a number

---
 elide.c | 56 +++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/elide.c b/elide.c
index bb8c4c3..e6f74aa 100644
--- a/elide.c
+++ b/elide.c
@@ -264,6 +264,10 @@ token_is_number_marker(TreeNode *x)
     if (x->type == N_MARKER) {
       switch (x->data.marker.tok) {
         case PRIVATE_START_TENSE:
+          /* Only a tense like RE ROI starts with a number */
+          result = (x->next->type == N_MARKER) &&
+                   (x->next->data.marker.tok == PRIVATE_NUMBER_ROI);
+          break;
         case PRIVATE_NUMBER_ROI:
         case PRIVATE_NUMBER_MAI:
         case PRIVATE_NUMBER_MOI:
@@ -487,13 +491,13 @@ elide_trace_shift(int yystate, int yychar)
            tokbuf.flags[tokbuf.n - 1].tok_is_number_marker);
 #endif
 
-    /* If non-elidable was a marker that precedes numbers, see whether first
-       elidable in the buffer is boi or ve'o, and whether this was preceded by
-       a token that would merge with the number if all the intervening
-       elidables were discarded.  If so, insert a synthetic conflict by
-       pretending that the marker is shiftable prior to the boi/ve'o.  This
-       will provide the required reporting later. */
-    if (tokbuf.flags[0].boiveho &&
+    /* If non-elidable was a marker that precedes numbers, see whether the
+       first elidable in the buffer (boi, ve'o, or a terminator before which
+       boi was elided) was preceded by a token that would merge with the number
+       if all the intervening elidables were discarded.  If so, insert a
+       synthetic conflict by pretending that the marker is shiftable prior to
+       the first elidable.  This will provide the required reporting later. */
+    if ((tokbuf.n > 1) &&
         prev_token_was_pa_etc &&
         tokbuf.flags[tokbuf.n - 1].tok_is_number_marker) {
         
@@ -644,6 +648,26 @@ elide_trace_reduce(int yystate, int yyn)
 /*++++++++++++++++++++++++++++++++++++++
   ++++++++++++++++++++++++++++++++++++++*/
 
+/*++++++++++++++++++++++++++++++++++++++
+  Detect whether a token would merge with a number coming right after it
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static int
+token_merges_with_number(int value)
+{
+  switch (value) {
+    case PA:
+    case BU:
+    case BY:
+    case LAU:
+    case TEI:
+    case FOI:
+      return 1;
+    default:
+      return 0;
+  }
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Provide the yylex function
   ++++++++++++++++++++++++++++++++++++++*/
@@ -684,6 +708,9 @@ yylex(void)
     result = tokbuf.buf[tokbuf.rp].value;
     tokbuf.sp = tokbuf.rp; /* Bison never has more than 1 lookahead token (!) */
     ++tokbuf.rp;
+    if (tokbuf.rp == tokbuf.n) {
+      cur_token_was_pa_etc = token_merges_with_number(result);
+    }
     return result;
     
   } else {
@@ -718,20 +745,7 @@ yylex(void)
 
     if (tokbuf.rp == tokbuf.n) {
       /* Single token, or non-elidable at end of tokbuf */
-      switch (result) {
-        case PA:
-        case BU:
-        case BY:
-        case LAU:
-        case TEI:
-        case FOI:
-          cur_token_was_pa_etc = 1;
-          break;
-        default:
-          cur_token_was_pa_etc = 0;
-          break;
-
-      }
+      cur_token_was_pa_etc = token_merges_with_number(result);
     }
     
     return result;
-- 
2.43.0


From db60a68278129c5d98533b8bf1cc31db706dd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:02 +0000
Subject: [PATCH 73/97] fix: -se said that a terminator between fragments whose
 words belong together could be omitted

"to na toi je" without the toi has a JEK "na je", and "to .e toi ke broda" an
EK_KE.
---
 elide.c | 47 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/elide.c b/elide.c
index e6f74aa..d884681 100644
--- a/elide.c
+++ b/elide.c
@@ -506,18 +506,45 @@ elide_trace_shift(int yystate, int yychar)
 
     /* Likewise if the words before and after the elidables are a tense and
        another tense that would make up a single tense with the first, or a
-       tense and the GI with which it would make up a gek */
+       tense and the GI with which it would make up a gek, or (as fragments) a
+       NA and a connective, or a connective and KE, that would belong together */
     if (tokbuf.n > 1) {
-      TreeNode *tense = tokbuf.buf[0].yylval->prev;
+      TreeNode *prev = tokbuf.buf[0].yylval->prev;
       TreeNode *next = tokbuf.buf[tokbuf.n - 1].yylval;
-      if (next &&
-          (tense->type == N_MARKER) &&
-          (tense->data.marker.tok == PRIVATE_END_TENSE) &&
-          (((next->type == N_MARKER) &&
-            (next->data.marker.tok == PRIVATE_START_TENSE) &&
-            tenses_would_join(tense, next)) ||
-           ((next->type == N_CMAVO) &&
-            (next->data.cmavo.selmao == GI)))) {
+      int next_marker = (next && (next->type == N_MARKER)) ? next->data.marker.tok : -1;
+      int next_selmao = (next && (next->type == N_CMAVO)) ? next->data.cmavo.selmao : -1;
+      int joined = 0;
+      if ((prev->type == N_MARKER) && (prev->data.marker.tok == PRIVATE_END_TENSE)) {
+        joined = (next_selmao == GI) ||
+                 ((next_marker == PRIVATE_START_TENSE) && tenses_would_join(prev, next));
+      } else if ((prev->type == N_CMAVO) && (prev->data.cmavo.selmao == NA)) {
+        switch (next_marker) {
+          case PRIVATE_START_EK: case PRIVATE_EK_KE: case PRIVATE_EK_BO:
+          case PRIVATE_START_JEK: case PRIVATE_JEK_KE: case PRIVATE_JEK_BO:
+          case PRIVATE_START_GIHEK: case PRIVATE_GIHEK_KE: case PRIVATE_GIHEK_BO:
+            joined = 1;
+            break;
+          default:
+            break;
+        }
+      } else if (next &&
+                 (((prev->type == N_MARKER) &&
+                   ((prev->data.marker.tok == PRIVATE_END_JEK) ||
+                    (prev->data.marker.tok == PRIVATE_END_JOIK))) ||
+                  ((prev->type == N_CMAVO) &&
+                   ((prev->data.cmavo.selmao == A) ||
+                    (prev->data.cmavo.selmao == GIhA) ||
+                    (prev->data.cmavo.selmao == NAI))))) {
+        /* There may be a tense between the connective and KE */
+        if (next_marker == PRIVATE_START_TENSE) {
+          while ((next->type != N_MARKER) || (next->data.marker.tok != PRIVATE_END_TENSE)) {
+            next = next->next;
+          }
+          next = next->next;
+        }
+        joined = (next->type == N_CMAVO) && (next->data.cmavo.selmao == KE);
+      }
+      if (joined) {
         set_conflict(tokbuf.n - 1, 0);
       }
     }
-- 
2.43.0


From 8eee6ffa069fe8372a81be3e22cd73e235d56ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:24 +0000
Subject: [PATCH 74/97] fix: a tense in a place without tense context
 (vocative, fi'o, ...) was not glossed

translate_time_offset looked the gloss up but dropped it.
---
 output.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/output.c b/output.c
index 29feab1..4ab2b73 100644
--- a/output.c
+++ b/output.c
@@ -602,6 +602,9 @@ static void translate_time_offset (TreeNode *x, char *loj, char *eng)/*{{{*/
     fprintf(stderr, "No context found for tense cmavo at line %d column %d\n",
             x->start_line, x->start_column);
     trans = translate(loj);
+    if (trans) {
+      strcpy(eng, trans);
+    }
   }
 
 }
-- 
2.43.0


From 53d69b1d777ab3cc27f91761a7280f3348fad089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:24 +0000
Subject: [PATCH 75/97] fix: zei compounds and jai with an indicator were
 glossed as if they were modifiers

---
 conversion.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conversion.c b/conversion.c
index 4fdac50..585523e 100644
--- a/conversion.c
+++ b/conversion.c
@@ -296,7 +296,7 @@ conv_mark_gloss_types(TreeNode *x, GlossState g)
       case JAI_TU2:
         {
           TreeNode *cjai;
-          cjai = child_ref(x, 0);
+          cjai = maybe_strip_attitudinal(child_ref(x, 0));
           if (g != GS_NONE) {
             gt = prop_glosstype(cjai, YES);
             if (g == GS_MAIN_SELBRI || g == GS_JAI) {
@@ -485,7 +485,7 @@ selbri_scan(TreeNode *x, int is_tertau)
                   {
                     TreeNode *cc;
                     cc = strip_attitudinal(c);
-                    if (cc->type == N_BRIVLA) {
+                    if (cc->type == N_BRIVLA || cc->type == N_ZEI) {
                       XGlosstype *gt;
                       gt = prop_glosstype(cc, YES);
                       gt->is_tertau = 1;
@@ -506,7 +506,7 @@ selbri_scan(TreeNode *x, int is_tertau)
                     TreeNode *cc, *cjai;
                     XGlosstype *gt;
 
-                    cjai = child_ref(c, 0);
+                    cjai = maybe_strip_attitudinal(child_ref(c, 0));
                     gt = prop_glosstype(cjai, YES);
                     gt->is_tertau = 1;
 
-- 
2.43.0


From 5caf10fcc91cacc0b02db613aa65c5c7a303ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:24 +0000
Subject: [PATCH 76/97] fix: tanru modifiers in vocatives and mekso were
 glossed with the raw dictionary text ("D;dog")

---
 conversion.c | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/conversion.c b/conversion.c
index 585523e..131ea5a 100644
--- a/conversion.c
+++ b/conversion.c
@@ -297,13 +297,11 @@ conv_mark_gloss_types(TreeNode *x, GlossState g)
         {
           TreeNode *cjai;
           cjai = maybe_strip_attitudinal(child_ref(x, 0));
-          if (g != GS_NONE) {
-            gt = prop_glosstype(cjai, YES);
-            if (g == GS_MAIN_SELBRI || g == GS_JAI) {
-              gt->in_selbri = 1;
-            } else {
-              gt->in_selbri = 0;
-            }
+          gt = prop_glosstype(cjai, YES);
+          if (g == GS_MAIN_SELBRI || g == GS_JAI) {
+            gt->in_selbri = 1;
+          } else {
+            gt->in_selbri = 0;
           }
         }
         ng = GS_JAI;
@@ -346,15 +344,13 @@ conv_mark_gloss_types(TreeNode *x, GlossState g)
         (x->type == N_ZEI) ||
         ((x->type == N_CMAVO) &&
          (x->data.cmavo.selmao == NU))) {
-      if (g != GS_NONE) {
-        gt = prop_glosstype(x, YES);
-        /* In something like 'le jai ca cusku' we want to treat
-           'cusku' as a 'verb' rather than a 'noun' when glossing */
-        if (g == GS_MAIN_SELBRI || g == GS_JAI) {
-          gt->in_selbri = 1;
-        } else {
-          gt->in_selbri = 0;
-        }
+      gt = prop_glosstype(x, YES);
+      /* In something like 'le jai ca cusku' we want to treat
+         'cusku' as a 'verb' rather than a 'noun' when glossing */
+      if (g == GS_MAIN_SELBRI || g == GS_JAI) {
+        gt->in_selbri = 1;
+      } else {
+        gt->in_selbri = 0;
       }
     }
       
-- 
2.43.0


From 05e76c917032538174dfa78d3ee8eaf1c22a8b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:48 +0000
Subject: [PATCH 77/97] fix: se, te, ... before a zei compound modifying a
 tanru were ignored in its gloss

---
 conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conversion.c b/conversion.c
index 131ea5a..5dba1bd 100644
--- a/conversion.c
+++ b/conversion.c
@@ -236,7 +236,7 @@ conv_mark_tu2s(TreeNode *x)
       c = nt->children[i];
       conv_mark_tu2s(c);
     }
-  } else if (x->type == N_BRIVLA) {
+  } else if ((x->type == N_BRIVLA) || (x->type == N_ZEI)) {
     compute_tu2_conv(x->parent, x);
 
   } else if ((x->type == N_CMAVO) &&
-- 
2.43.0


From f682eb28cb3987571cec49e06ea8c95dc550d39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:33 +0000
Subject: [PATCH 78/97] fix: cai, pei etc. and fu'e inside connectives and
 tenses spoiled or lost their glosses

---
 output.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/output.c b/output.c
index 4ab2b73..e748b7c 100644
--- a/output.c
+++ b/output.c
@@ -331,9 +331,11 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
     selmao = x->data.cmavo.selmao;
     switch (selmao) {
       case UI:
+      case CAI:
       case BAhE:
       case DAhO:
       case Y:
+      case FUhE:
       case FUhO:
         break;
 
@@ -1582,9 +1584,11 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
       case SHOW_LOJBAN_AND_INDICATORS:
         if ((x->type == N_CMAVO) && 
             ((x->data.cmavo.selmao == UI) ||
+             (x->data.cmavo.selmao == CAI) ||
              (x->data.cmavo.selmao == BAhE) ||
              (x->data.cmavo.selmao == Y) || 
              (x->data.cmavo.selmao == DAhO) ||
+             (x->data.cmavo.selmao == FUhE) ||
              (x->data.cmavo.selmao == FUhO))) {
           if (eng[0]) {
             (drv->translation)(eng);
-- 
2.43.0


From dd2964671f6d5c6444a36a0eff6b9bc3924938da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:14 +0000
Subject: [PATCH 79/97] fix: conversions outside ke .. ke'e and jai were
 ignored in glosses of tanru modifiers with linked sumti

---
 terms.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/terms.c b/terms.c
index 56cb178..6a071af 100644
--- a/terms.c
+++ b/terms.c
@@ -81,6 +81,9 @@ typedef struct {
 typedef struct {
   int n;
   int max; /* Number of entries allocated */
+  int modifier; /* The unit is not the tertau of a bridi : conversion.c works
+                   out which place its gloss is for, as it does for units
+                   without linked sumti. */
   LinkConvEntry *e;
 } LinkConv;
 /*}}}*/
@@ -149,6 +152,7 @@ static void lc_init(LinkConv *lc)/*{{{*/
   /* Initialise a linkconv list to empty */
   lc->n = 0;
   lc->max = 0;
+  lc->modifier = 0;
   lc->e = NULL;
 }
 /*}}}*/
@@ -220,6 +224,7 @@ static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
   int i;
 
   lc_init(dest);
+  dest->modifier = src->modifier;
   for (i=0; i<src->n; i++) {
     lc_grow(dest);
     dest->e[dest->n++] = src->e[i];
@@ -643,6 +648,8 @@ static void assign_conversion(LinkConv *lc, TreeNode *convertible)/*{{{*/
 
 loop_done:
   
+  if (lc->modifier) return;
+
   ext = prop_conversion(convertible, YES);
   ext->conv = place[1].pos;
 
@@ -1732,6 +1739,7 @@ static void scan_tu1_phase2(TreeNode *x)/*{{{*/
         tu2 = child_ref(x, 0);
         
         lc_init(&lc);
+        lc.modifier = 1;
         lc_append_links(&lc, xtv->vec);
         tv_init(&pre);
         tv_init(&post);
-- 
2.43.0


From 97010e0db9c86cd4f16b7085210aa64ccf47cd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:19 +0000
Subject: [PATCH 80/97] fix: se, te, ... before a BAI with an indicator were
 ignored in its gloss

---
 conversion.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conversion.c b/conversion.c
index 5dba1bd..f02a1ea 100644
--- a/conversion.c
+++ b/conversion.c
@@ -71,7 +71,7 @@ conv_tag_se_bai(TreeNode *x)
       case SE_BAI:
         c1 = strip_attitudinal(nt->children[0]);
         assert(c1->data.cmavo.selmao == SE);
-        c2 = nt->children[1];
+        c2 = maybe_strip_attitudinal(nt->children[1]);
         conv = lookup_converted_place(c1);
         ext = prop_bai_conversion(c2, YES);
         ext->conv = conv;
@@ -82,7 +82,7 @@ conv_tag_se_bai(TreeNode *x)
         break;
 
       case BAI1:
-        c1 = nt->children[0];
+        c1 = maybe_strip_attitudinal(nt->children[0]);
         ext = prop_bai_conversion(c1, YES);
         ext->conv = 1;
         break;
-- 
2.43.0


From c6bb9e20a3c4afbb42e8c30d5950d9bfd55d599a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:21 +0000
Subject: [PATCH 81/97] fix: ke'a of a relative clause inside "lo ko'a poi ..."
 was glossed with the number 0

---
 output.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/output.c b/output.c
index e748b7c..354c176 100644
--- a/output.c
+++ b/output.c
@@ -59,6 +59,7 @@ static void add_bracketing_internal(TreeNode *x, int *seq)/*{{{*/
 
       case SUMTI_5A:
       case SUMTI_5B:
+      case SUMTI_6:
       case NAME_SUMTI_6:
         if (prop_require_brac(x, NO)) {
           y->number = ++*seq;
-- 
2.43.0


From 20d44688e3a4a34636774ce36cf2b298b266ca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:53 +0000
Subject: [PATCH 82/97] fix: -bt showed the start state as rule "all <-", which
 the grammar does not have

---
 output2table.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/output2table.pl b/output2table.pl
index 5a9a52a..c982cf8 100644
--- a/output2table.pl
+++ b/output2table.pl
@@ -27,7 +27,6 @@ while (<>) {
     last if (/^Terminals, with rules/);
     next if (/^\s*$/);
     next if (/^\s*Number, Line, Rule/); # extra junk in recent bisons (1.31 onwards?)
-    next if (/^\s+0\s+/); # rule 0 in bison>=1.75 (confirmed in 1.875)?
 
     my $number = undef;
     my $lhs = undef;
@@ -43,7 +42,8 @@ while (<>) {
         $rhs = $3;
 
         # Now match the two types of rule entry generated by bison 1.875 onwards
-    } elsif (m{^\s+([0-9]+)\s+([a-zA-Z0-9_]+)\s*:\s+(.*)$}) {
+        # (rule 0, for $accept, is listed from bison 1.75 on)
+    } elsif (m{^\s+([0-9]+)\s+(\$?[a-zA-Z0-9_]+)\s*:\s+(.*)$}) {
         $number = $1;
         $latest_lhs = $lhs = $2;
         $rhs = $3;
-- 
2.43.0


From 3694dbdbfbf0496f151b966846c62c1f7b3c2b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:53 +0000
Subject: [PATCH 83/97] fix: -bt listed "error" as a word class that could come
 next

---
 tracebk.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tracebk.c b/tracebk.c
index 214754a..ff6295f 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -25,6 +25,14 @@ static int max_reductions=0;
 extern int show_backtrace;
 extern int require_elidables;
 
+/* Tokens that are not classes of words : the markers put in by categ.c, and the
+   token on which the parser resumes after an error */
+static int
+is_internal_token(const char *name)
+{
+  return !strncmp(name, "PRIVATE_", 8) || !strcmp(name, "error");
+}
+
 static void
 display_rule(int ruleno, int indent, int focus)
 {
@@ -115,7 +123,7 @@ report_trace_error(short *yyss, short *yyssp)
       if (r2 > r1) {
         for (r=r1; r<r2; r++) {
           int tokidx = shift_in_state[r];
-          if (strncmp("PRIVATE_", toknames[tokidx], 8)) {
+          if (!is_internal_token(toknames[tokidx])) {
             if (is_first) {
               fprintf(stderr,"   (Next word class could be :");
             }
@@ -147,7 +155,7 @@ report_trace_error(short *yyss, short *yyssp)
     is_first = 1;
     for (r=r1; r<r2; r++) {
       int tokidx = shift_in_state[r];
-      if (strncmp("PRIVATE_", toknames[tokidx], 8)) {
+      if (!is_internal_token(toknames[tokidx])) {
         fprintf(stderr,"%s%s", is_first ? "" : " ", toknames[tokidx]);
         is_first = 0;
       }
-- 
2.43.0


From 10808af5157a1e8b89ee1f0be2cfed2a1e016c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:53 +0000
Subject: [PATCH 84/97] fix: "Missing selbri before GIhA" gave the place of the
 word before

---
 categ.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/categ.c b/categ.c
index 756f067..d707077 100644
--- a/categ.c
+++ b/categ.c
@@ -100,8 +100,8 @@ static void categorize_gihek(TreeNode *head)/*{{{*/
       y = x->prev;
       if (cmtest(y, SE)) y = y->prev;
       if (cmtest(y, NA)) y = y->prev;
-      /* Need to insert new token after y */
-      insert_marker_after(y, PRIVATE_START_GIHEK, "PRIVATE_START_GIHEK");
+      /* Need to insert new token after y. (An error message may give its place.) */
+      insert_marker_before(y->next, PRIVATE_START_GIHEK, "PRIVATE_START_GIHEK");
     }
 
   }
-- 
2.43.0


From 7ec9310ab9575d42ed72abdfaa62233f6b1592aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:17 +0000
Subject: [PATCH 85/97] fix: -bt listed IMPOSSIBLE_TOKEN as a word class that
 could come next

---
 tracebk.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tracebk.c b/tracebk.c
index ff6295f..e8dced8 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -25,12 +25,14 @@ static int max_reductions=0;
 extern int show_backtrace;
 extern int require_elidables;
 
-/* Tokens that are not classes of words : the markers put in by categ.c, and the
-   token on which the parser resumes after an error */
+/* Tokens that are not classes of words : the markers put in by categ.c, the
+   token on which the parser resumes after an error, and the one that never
+   matches */
 static int
 is_internal_token(const char *name)
 {
-  return !strncmp(name, "PRIVATE_", 8) || !strcmp(name, "error");
+  return !strncmp(name, "PRIVATE_", 8) || !strcmp(name, "error") ||
+    !strcmp(name, "IMPOSSIBLE_TOKEN");
 }
 
 static void
-- 
2.43.0


From 7087ae6ab1a8895df9229f4ec7d87aa0595b2fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 86/97] fix: with -re, places in syntax error messages were
 always line 1 column 1

---
 elide.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/elide.c b/elide.c
index d884681..a7c4cf0 100644
--- a/elide.c
+++ b/elide.c
@@ -695,6 +695,18 @@ token_merges_with_number(int value)
   }
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Pass the place of a token to the parsers.  The parser for the full grammar has
+  a variable of its own for it.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static void
+set_location(YYLTYPE loc)
+{
+  extern YYLTYPE yylloc, full_yylloc;
+  yylloc = full_yylloc = loc;
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Provide the yylex function
   ++++++++++++++++++++++++++++++++++++++*/
@@ -703,7 +715,6 @@ int
 yylex(void)
 {
   extern YYSTYPE yylval;
-  extern YYLTYPE yylloc;
   int result;
   int old_n;
   int is_elidable;
@@ -714,7 +725,7 @@ yylex(void)
     TokenType tok;
     yylex1(&tok);
     yylval = tok.yylval;
-    yylloc = tok.yylloc;
+    set_location(tok.yylloc);
     return tok.value;
   } /* else ... */
 
@@ -731,7 +742,7 @@ yylex(void)
 
   if (tokbuf.rp < tokbuf.n) {
     yylval = tokbuf.buf[tokbuf.rp].yylval;
-    yylloc = tokbuf.buf[tokbuf.rp].yylloc;
+    set_location(tokbuf.buf[tokbuf.rp].yylloc);
     result = tokbuf.buf[tokbuf.rp].value;
     tokbuf.sp = tokbuf.rp; /* Bison never has more than 1 lookahead token (!) */
     ++tokbuf.rp;
@@ -765,7 +776,7 @@ yylex(void)
 #endif
 
     yylval = tokbuf.buf[0].yylval;
-    yylloc = tokbuf.buf[0].yylloc;
+    set_location(tokbuf.buf[0].yylloc);
     result = tokbuf.buf[0].value;
     tokbuf.sp = tokbuf.rp;
     ++tokbuf.rp;
-- 
2.43.0


From 47ac4dadda0863e079b4642f31bc7b71f6c6d53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:37 +0000
Subject: [PATCH 87/97] fix: with -g, converted words were glossed with the
 dictionary's internal notation

---
 tree.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/tree.c b/tree.c
index 8f01cc3..3dd4c2d 100644
--- a/tree.c
+++ b/tree.c
@@ -301,6 +301,26 @@ typedef enum {
   CV_5
 } Conversion;
 
+/*++++++++++++++++++++++++++++++
+  Gloss for what a word means when one of its places is converted to be the
+  first.  The dictionary text of a place is not fit to be shown as it is, it has
+  the class of the word, or a reference to another word, in it.
+  ++++++++++++++++++++++++++++++*/
+
+static char *
+translate_converted(char *word, int place)
+{
+  char *buffer, *english;
+  buffer = new_array(char, strlen(word) + 2);
+  sprintf(buffer, "%s%d", word, place);
+  english = translate(buffer);
+  if (english) {
+    english = adv_translate(word, place, TCX_NOUN);
+  }
+  Free(buffer);
+  return english;
+}
+
 /*++++++++++++++++++++++++++++++
   Print out 'raw' bracketed version of the text
   ++++++++++++++++++++++++++++++*/
@@ -472,29 +492,20 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
               printf(" /%s/", english);
             }
           } else {
-            buffer = new_array(char, strlen(x->data.brivla.word) + 2);
             switch (conv) {
               case CV_NORMAL:
                 abort();
               case CV_2:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "2");
-                english = translate(buffer);
+                english = translate_converted(x->data.brivla.word, 2);
                 break;
               case CV_3:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "3");
-                english = translate(buffer);
+                english = translate_converted(x->data.brivla.word, 3);
                 break;
               case CV_4:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "4");
-                english = translate(buffer);
+                english = translate_converted(x->data.brivla.word, 4);
                 break;
               case CV_5:
-                strcpy(buffer, x->data.brivla.word);
-                strcat(buffer, "5");
-                english = translate(buffer);
+                english = translate_converted(x->data.brivla.word, 5);
                 break;
             }
             if (english) {
@@ -508,7 +519,6 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 printf(" /%s/", english);
               }
             }
-            Free(buffer);
           }
         }
         break;
-- 
2.43.0


From b8096c003190c3e645e098397eee2f3d9f76f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 88/97] fix: a dictionary file that was cut short or is no
 dictionary made jbofihe and cmafihe crash or use all memory

---
 dictaccs.c | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/dictaccs.c b/dictaccs.c
index f2caff0..d3a85be 100644
--- a/dictaccs.c
+++ b/dictaccs.c
@@ -67,6 +67,17 @@ get_long(FILE *in)
   return (a << 24) | (b << 16) | (c << 8) | (d << 0);
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Give up on a file that is no dictionary, or only a part of one.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static void
+bad_dictionary(void)
+{
+  fprintf(stderr, "The dictionary file is damaged\n");
+  exit(1);
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Read the database to build the transaction list.
 
@@ -86,27 +97,40 @@ read_database(FILE *in)
   int i, len;
 
   struct stat sb;
-  off_t offset;
+  off_t offset, needed;
+  unsigned long count;
   char *dict_base = NULL;
 
-  n_entries = get_long(in);
+  if (fstat(fileno(in), &sb) < 0) {
+    fprintf(stderr, "Could not stat the dictionary file\n");
+    exit(1);
+  }
+
+  /* The file has 4 bytes for the count, then for each entry 2 bytes for the
+     lengths of key and value, then the keys and values */
+  count = get_long(in);
+  if (feof(in) || (count > (sb.st_size - 4) / 2)) {
+    bad_dictionary();
+  }
+
+  n_entries = count;
   entries = new_array(Entry, n_entries);
   dict = new_array(Keyval, n_entries);
 
+  offset = 4 + 2 * (off_t) n_entries;
+  needed = offset;
   for (i=0; i<n_entries; i++) {
     len = getc(in);
     entries[i].klen = len;
     len = getc(in);
     entries[i].vlen = len;
+    needed += entries[i].klen + entries[i].vlen + 2;
   }
 
-  if (fstat(fileno(in), &sb) < 0) {
-    fprintf(stderr, "Could not stat the dictionary file\n");
-    exit(1);
+  if (needed > sb.st_size) {
+    bad_dictionary();
   }
 
-  offset = ftell(in);
-
 #ifdef HAVE_MMAP
 
   {
@@ -145,6 +169,9 @@ read_database(FILE *in)
       dict[i].key = dict[i-1].val + entries[i-1].vlen + 1; /* Allow for null termination */
     }
     dict[i].val = dict[i].key + entries[i].klen + 1; /* Allow for null termination */
+    if (dict[i].key[entries[i].klen] || dict[i].val[entries[i].vlen]) {
+      bad_dictionary();
+    }
   }
 
   Free(entries);
-- 
2.43.0


From 3457e0b810bde031bdd9b9defa64fd796769cfe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 89/97] fix: smujajgau took a database file that was cut short
 or is no database as it was, and wrote over it

---
 smujajgau.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 15fa476..7a94426 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -28,6 +28,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <sys/stat.h>
 
 #include "version.h"
 
@@ -365,6 +366,18 @@ write_database(FILE *out)
 }
 
 
+/*++++++++++++++++++++++++++++++++++++++
+  Give up on an existing file that is no database, or only a part of one,
+  rather than to write over it.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static void
+bad_database(void)
+{
+  fprintf(stderr, "The existing database file is damaged\n");
+  exit(1);
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Read the database to build the transaction list.
 
@@ -384,8 +397,19 @@ read_database(FILE *in)
   Entry *entries;
   int i, len;
   char key[65536], val[65536];
+  struct stat sb;
+  unsigned long count;
+
+  if ((fstat(fileno(in), &sb) < 0) || (sb.st_size == 0)) {
+    /* Nothing in there yet */
+    return;
+  }
 
-  n_entries = get_long(in);
+  count = get_long(in);
+  if (feof(in) || (count > (sb.st_size - 4) / 2)) {
+    bad_database();
+  }
+  n_entries = count;
   entries = new_array(Entry, n_entries);
   for (i=0; i<n_entries; i++) {
     len = getc(in);
@@ -394,8 +418,11 @@ read_database(FILE *in)
     entries[i].vlen = len;
   }
   for (i=0; i<n_entries; i++) {
-    fread(key, sizeof(char), entries[i].klen + 1, in); /* Read null termination */
-    fread(val, sizeof(char), entries[i].vlen + 1, in); /* Read null termination .. */
+    /* Read null termination .. */
+    if ((fread(key, sizeof(char), entries[i].klen + 1, in) != entries[i].klen + 1) ||
+        (fread(val, sizeof(char), entries[i].vlen + 1, in) != entries[i].vlen + 1)) {
+      bad_database();
+    }
     key[entries[i].klen] = 0; /* ... but set it anyway for safety */
     val[entries[i].vlen] = 0;
     add_defn(key, val);
-- 
2.43.0


From 909ea7cb2dc2c5d02e3ea1c904f387af84e9b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:10 +0000
Subject: [PATCH 90/97] fix: smujajgau reported success when the database could
 not be written completely

---
 smujajgau.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 7a94426..48bfc31 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -662,7 +662,10 @@ main (int argc, char **argv) {
 
   write_database(out);
 
-  fclose(out);
+  if (ferror(out) | fclose(out)) {
+    fprintf(stderr, "Could not write all of the database\n");
+    exit(1);
+  }
 
   if (0) {
     print_histogram();
-- 
2.43.0


From b222412b5b92bf65c6072844f3473fb0fb171693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 91/97] fix: with --embed, entries with an empty gloss in later
 dictionary sources were ignored

---
 dict2inc.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dict2inc.pl b/dict2inc.pl
index 3b1626f..8e5aa40 100644
--- a/dict2inc.pl
+++ b/dict2inc.pl
@@ -16,7 +16,7 @@ chomp;
         next;
     }
 
-    if (/^([^:]+):([^:]+)/) {
+    if (/^\s*([^:]+):([^:]*)/) {
         my $word = $1;
         my $def = $2;
         $def =~ s/\"/\\"/go;
-- 
2.43.0


From 778fffbaa58b095b423e4229d10d8e378070a2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:26 +0000
Subject: [PATCH 92/97] fix: a dictionary entry that redirected to a long
 string of cmavo overran an array in translate_unknown

---
 translate.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/translate.c b/translate.c
index 17c825f..fe566d1 100644
--- a/translate.c
+++ b/translate.c
@@ -139,6 +139,16 @@ char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
   }   
   return buffer;
 }/*}}}*/
+static MorfType scan_word(char *w, struct morf_xtra *xtra)/*{{{*/
+/* Find what kind of word this is, however many cmavo it turns out to contain */
+{
+  char **word_starts, **end;
+  MorfType result;
+  word_starts = end = new_array(char *, strlen(w) + 1);
+  result = morf_scan(w, &end, xtra);
+  Free(word_starts);
+  return result;
+}/*}}}*/
 char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
 /* ================================================== */
 /* In principle, it would be nice to pass the word type through from the
@@ -151,7 +161,6 @@ char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
   char *ltrans;
   MorfType morf_type;
   struct morf_xtra xtra;
-  char *word_starts[64], **pws, **pwe;
 
   if (strchr(w, '+')) {
     /* If word has already been 'canonicalised', the lujvo translator
@@ -159,9 +168,7 @@ char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
     return translate_lujvo(w, place);
   }
 
-  pws = pwe = word_starts;
-
-  morf_type = morf_scan(w, &pwe, &xtra);
+  morf_type = scan_word(w, &xtra);
 
   switch (morf_type) {
     case MT_BOGUS:
-- 
2.43.0


From 1ab3d25f45429e6812a280fb8eb83bf8a4da6be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:11 +0000
Subject: [PATCH 93/97] fix: a fu'ivla whose beginning looks like a rafsi was
 glossed through the dictionary's lujvo patterns (nalrkokte as 'thing(s) other
 than ??-??')

---
 translate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/translate.c b/translate.c
index fe566d1..7beefdf 100644
--- a/translate.c
+++ b/translate.c
@@ -921,10 +921,14 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *canon;
   char *trans;
+  struct morf_xtra xtra;
 
   Component *comp;
   int ncomp;
 
+  /* A fu'ivla may look as if it began with rafsi, but is no lujvo. */
+  if (!strchr(w, '+') && (scan_word(w, &xtra) != MT_LUJVO)) return NULL;
+
   canon = canon_lujvo(w);
 
   /* Bail out now if it's not a lujvo that can be split up. */
-- 
2.43.0


From d3ff8bde80abd4cb7ab139ee990a37ee0ac028d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:40 +0000
Subject: [PATCH 94/97] fix: a dictionary entry that redirects to a lujvo made
 of the word itself several times kept the glosser busy for ever

---
 translate.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 7beefdf..0a34b32 100644
--- a/translate.c
+++ b/translate.c
@@ -1105,11 +1105,14 @@ static char * adv_translate_1(char *w, int place, TransContext ctx, char *buffer
 char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
 {
   static int depth = 0; /* Dictionary entries can refer to each other in circles */
+  static int steps = 0;
   char *buffer;
   char *result;
   size_t len;
 
-  if (depth >= 200) {
+  /* .. more than once each, so that the number of steps can be huge too */
+  steps = depth ? (steps + 1) : 0;
+  if ((depth >= 200) || (steps >= 10000)) {
     return "??";
   }
 
-- 
2.43.0


From 2589cb762ac76d13daa7d7f1546d904d0fdad704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:55 +0000
Subject: [PATCH 95/97] fix: dict2inc.pl made C that did not compile for
 glosses with backslashes, took comments with ! or ; for entries, and kept the
 variants of places defined again

---
 dict2inc.pl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dict2inc.pl b/dict2inc.pl
index 8e5aa40..7a55276 100644
--- a/dict2inc.pl
+++ b/dict2inc.pl
@@ -12,14 +12,19 @@
 
 while (<>) {
 chomp;
-    if (/^[ \t]*#/) {
+    # Blank lines and comments, as for smujajgau
+    if (/^\s*([#!;]|$)/) {
         next;
     }
 
     if (/^\s*([^:]+):([^:]*)/) {
         my $word = $1;
         my $def = $2;
-        $def =~ s/\"/\\"/go;
+        $def =~ s/([\\"])/\\$1/go;
+        if ($word =~ /[0-9]$/) {
+            # Drop variants of the earlier definition of this place
+            delete @def{map { $word.$_ } qw(n v a q t)};
+        }
         $def{$word} = $def;
     }
 }
-- 
2.43.0


From dfafee380669f37befb99ac98d3704830bbdefde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 96/97] fix: programs exited 0 although their output could not
 be written (full device, file size limit)

---
 cm_main.c    |  6 ++++++
 dfasyn/n2d.c | 11 ++++++++++-
 jvocuhadju.c |  6 ++++++
 main.c       |  5 +++++
 morf.c       |  6 ++++++
 5 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/cm_main.c b/cm_main.c
index 83295a6..fe52346 100644
--- a/cm_main.c
+++ b/cm_main.c
@@ -88,5 +88,11 @@ main (int argc, char **argv)
   do_output();
   end_output();
   output_newline();
+
+  if ((fflush(stdout) != 0) | ferror(stdout)) {
+    fprintf(stderr, "Could not write all of the output\n");
+    return 1;
+  }
+
   return 0;
 }
diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 43604b0..116df3b 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1605,9 +1605,18 @@ int main (int argc, char **argv)
   }
 
   if (report) {
-    fclose(report);
+    int failed = ferror(report);
+    if ((fclose(report) != 0) | failed) {
+      fprintf(stderr, "Could not write all of %s\n", report_name);
+      result = 1;
+    }
     report = NULL;
   }
+
+  if ((fflush(output) != 0) | ferror(output)) {
+    fprintf(stderr, "Could not write all of the output\n");
+    result = 1;
+  }
   
   return result;
 }
diff --git a/jvocuhadju.c b/jvocuhadju.c
index 82619f5..7d55825 100644
--- a/jvocuhadju.c
+++ b/jvocuhadju.c
@@ -1113,5 +1113,11 @@ int main (int argc, char **argv) {
   }
   *wp = NULL;
   makelujvo(words);
+
+  if ((fflush(stdout) != 0) | ferror(stdout)) {
+    fprintf(stderr, "Could not write all of the output\n");
+    return 1;
+  }
+
   return 0;
 }
diff --git a/main.c b/main.c
index 0cd320f..cc1cfce 100644
--- a/main.c
+++ b/main.c
@@ -340,5 +340,10 @@ main (int argc, char **argv)
     print_memory_statistics();
   }
   
+  if ((fflush(stdout) != 0) | ferror(stdout)) {
+    fprintf(stderr, "Could not write all of the output\n");
+    return 1;
+  }
+
   return result ? 1 : had_syntax_error ? 2 : 0;
 }
diff --git a/morf.c b/morf.c
index 7e2ecb9..854fddb 100644
--- a/morf.c
+++ b/morf.c
@@ -715,6 +715,12 @@ int main (int argc, char **argv) {/*{{{*/
       morf_scan(buffer, &pstart, NULL);
     }
   }
+
+  if ((fflush(stdout) != 0) | ferror(stdout)) {
+    fprintf(stderr, "Could not write all of the output\n");
+    return 1;
+  }
+
   return 0;
 }/*}}}*/
 #endif
-- 
2.43.0


From b1646500039039c26d2fe1b51988689953ecf2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 97/97] fix: jbofihe, smujajgau and vlatai took a read error
 for the end of the text

---
 main.c      | 5 +++++
 morf.c      | 4 ++++
 smujajgau.c | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/main.c b/main.c
index cc1cfce..7a054a2 100644
--- a/main.c
+++ b/main.c
@@ -261,6 +261,11 @@ main (int argc, char **argv)
 
   parse_file(in ? in : stdin);
 
+  if (ferror(in ? in : stdin)) {
+    fprintf(stderr, "Could not read all of %s\n", filename ? filename : "the input");
+    exit(1);
+  }
+
   if (in) fclose(in);
 
   if (had_bad_tokens) {
diff --git a/morf.c b/morf.c
index 854fddb..e31bb37 100644
--- a/morf.c
+++ b/morf.c
@@ -714,6 +714,10 @@ int main (int argc, char **argv) {/*{{{*/
       pstart = start;
       morf_scan(buffer, &pstart, NULL);
     }
+    if (ferror(stdin)) {
+      fprintf(stderr, "Could not read all of the input\n");
+      return 1;
+    }
   }
 
   if ((fflush(stdout) != 0) | ferror(stdout)) {
diff --git a/smujajgau.c b/smujajgau.c
index 48bfc31..66c6292 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -635,12 +635,18 @@ main (int argc, char **argv) {
         fprintf(stderr, "Could not open %s\n", *argv);
       } else {
         do_file(in);
+        if (ferror(in)) {
+          fprintf(stderr, "Could not read all of %s\n", *argv);
+        }
         fclose(in);
       }
       ++argv;
     }
   } else {
     do_file(stdin);
+    if (ferror(stdin)) {
+      fprintf(stderr, "Could not read all of the input\n");
+    }
   }
 
   /* Go through processing steps */
-- 
2.43.0

