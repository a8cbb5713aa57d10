From da4c83e6bfcc2339601cdaa0c4c7ca5b98051ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 01/56] fix: an empty lo'u le'u quotation ran off the token
 list

---
 lex2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index 133f5f4..710aec5 100644
--- a/lex2.c
+++ b/lex2.c
@@ -418,7 +418,7 @@ handle_lohu(void)
       } while (1);
 
       x->type = N_LOhU;
-      x->data.lohu.text = build_string_from_nodes(start, end);
+      x->data.lohu.text = (start == term) ? new_string("") : build_string_from_nodes(start, end);
 
       term->next->prev = x;
       x->next = term->next;
-- 
2.43.0


From f71a95026cfecaaf46fa88a9062e72967c298ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 02/56] fix: bu at the start of the text was applied to the
 list head

---
 lex2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex2.c b/lex2.c
index 710aec5..26a70be 100644
--- a/lex2.c
+++ b/lex2.c
@@ -585,6 +585,11 @@ handle_bu(void)
     if (x->type == N_CMAVO &&
         x->data.cmavo.selmao == BU) {
       y = x->prev;
+      if (y == &toks) {
+        fprintf(stderr, "Cannot have 'bu' at the start of the text\n");
+        had_bad_tokens = 1; /* flag back to main */
+        continue;
+      }
       x->type = N_BU;
       switch (y->type) {
         case N_CMAVO:
-- 
2.43.0


From 901d20bba7146feb158a49e61d2d4b51a0af7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 03/56] fix: a lo'u ... le'u quotation as part of a zei
 compound failed an assertion

---
 lex2.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index 26a70be..14277d0 100644
--- a/lex2.c
+++ b/lex2.c
@@ -228,13 +228,16 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         len += strlen(y->data.zei.sep_with_zei);
         break;
 
+      case N_LOhU:
+        len += 10 + strlen(y->data.lohu.text);
+        break;
+
       case N_BROKEN_ERASURE:
         len += strlen(DEFECTIVE_ERASURE);
         break;
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -281,13 +284,18 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         strcat(result, y->data.zei.sep_with_zei);
         break;
 
+      case N_LOhU:
+        strcat(result, "lo'u-");
+        strcat(result, y->data.lohu.text);
+        strcat(result, "-le'u");
+        break;
+
       case N_BROKEN_ERASURE:
         strcat(result, DEFECTIVE_ERASURE);
         break;
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
-- 
2.43.0


From f3d68909d9019b3e2468b778a67ad2d13bcc6712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 04/56] fix: zoi or la'o as the last word of the text was
 dropped silently

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 0042c2b..0407069 100644
--- a/lex1.c
+++ b/lex1.c
@@ -454,7 +454,7 @@ parse_file(FILE *f)
 
 done:
 
-  if (zoi_data) {
+  if (zoi_data || zoi_delim_next) {
     fprintf(stderr, "Unclosed %s construction at end of file\n", zoi_form);
     had_bad_tokens = 1;
   }
-- 
2.43.0


From 8c8c0ab714ccf2a53678dfcea914e35eda5edbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 05/56] fix: an unclosed comment made the lexer read past the
 end of file for ever

---
 lex1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex1.c b/lex1.c
index 0407069..70b16f1 100644
--- a/lex1.c
+++ b/lex1.c
@@ -409,6 +409,10 @@ parse_file(FILE *f)
       } else if (c == '\n') {
         line++;
         column=0;
+      } else if (c == EOF) {
+        fprintf(stderr, "Unclosed comment at end of file\n");
+        had_bad_tokens = 1;
+        goto done;
       }
       
     } else {
-- 
2.43.0


From 25fe60f09130ab607b6967a4d8a73da3056f2a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 06/56] fix: the word after a digit or colon was reported at
 the digit's position

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index 70b16f1..83823a8 100644
--- a/lex1.c
+++ b/lex1.c
@@ -424,11 +424,13 @@ parse_file(FILE *f)
         SET_START;
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else if (c == ':') {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else {               
         switch (c) {
           case ' ':
-- 
2.43.0


From bcf9adbca6305bc32dab74822a609f1d322efe77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 07/56] fix: a long zoi delimiter overflowed its buffer

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 83823a8..2100e61 100644
--- a/lex1.c
+++ b/lex1.c
@@ -20,7 +20,7 @@
 
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[64];
+static char zoi_delim[65536]; /* as long as the word buffer */
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
-- 
2.43.0


From 7d70800f3d9e5678a1861466413c15a6e3374977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:48 +0000
Subject: [PATCH 08/56] fix: a text ending in an unfinished tense dereferenced
 a null pointer

---
 categ.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/categ.c b/categ.c
index 4377bd1..08bbfcc 100644
--- a/categ.c
+++ b/categ.c
@@ -379,9 +379,13 @@ static void categorize_tenses(TreeNode *head)/*{{{*/
     }
     if (y == head) {
       /* Run to end of text */
-      insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
-      insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
-      next_tok = last_ok_token->next->next; /* marker->next */
+      if (last_ok_token) {
+        insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
+        insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
+        next_tok = last_ok_token->next->next; /* marker->next */
+      } else {
+        next_tok = x->next; /* Unfinished tense, e.g. just NAhE */
+      }
     }
 
 next_outer_loop:
-- 
2.43.0


From 16704308cc6d8811d802c610ef1003905f1153fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 09/56] fix: ba'e before a word followed by bu was lost

---
 lex2.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lex2.c b/lex2.c
index 14277d0..fdf8a81 100644
--- a/lex2.c
+++ b/lex2.c
@@ -665,6 +665,13 @@ handle_bu(void)
           break;
       }
 
+      /* Keep any BAhE which preceded the word */
+      if (y->bahe) {
+        TreeNode *b = x;
+        while (b->bahe) b = b->bahe;
+        b->bahe = y->bahe;
+      }
+
       /* Unlink y from the chain */
       y->prev->next = x;
       x->prev = y->prev;
-- 
2.43.0


From 6c47aef3c6c69a369c268725eb750e4f2c39f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:48 +0000
Subject: [PATCH 10/56] fix: nai and intensifiers after indicators other than
 UI were not printed in trees and bracketed text

---
 tree.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/tree.c b/tree.c
index 661d06a..306f102 100644
--- a/tree.c
+++ b/tree.c
@@ -125,7 +125,7 @@ print_tree(TreeNode *x, int indent)
         } else {
           printf("CMAVO : %s [%s]\n", cmavo_table[code].cmavo,
                                       selmao_names[cmavo_table[code].ssm_code]);
-          if (cmavo_table[code].selmao == UI) {
+          {
             XCaiIndicator *xci;
             if (prop_neg_indicator(x, NO)) {
               show_indent(indent);
@@ -171,10 +171,6 @@ print_tree(TreeNode *x, int indent)
                   printf("CMAVO : nai [NAI]\n"); break;
               }
             }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf("CMAVO : nai [NAI]\n");
-            }
           }
         }
       }
@@ -367,7 +363,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
         } else {
           int code = x->data.cmavo.code;
           printf("%s", cmavo_table[code].cmavo);
-          if (cmavo_table[code].selmao == UI) {
+          {
             XCaiIndicator *xci;
             if (prop_neg_indicator(x, NO)) {
               printf(" nai");
@@ -386,10 +382,6 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 case CC_PEINAI: printf(" pei"); break;
               }
             }
-          } else if (cmavo_table[code].selmao == CAI) {
-            if (prop_neg_indicator(x, NO)) {
-              printf(" nai");
-            }
           }
         }
         if (do_glossing) {
-- 
2.43.0


From 0fd0a5666924087ae16b05aab898275c3d723729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 11/56] fix: nai after cu'i was lost

---
 lex2.c   | 5 +++--
 nodes.h  | 3 ++-
 output.c | 4 ++++
 tree.c   | 6 ++++++
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lex2.c b/lex2.c
index fdf8a81..4a249e5 100644
--- a/lex2.c
+++ b/lex2.c
@@ -816,8 +816,9 @@ pair_off_indicator_suffixes(void)
               xci->code = CC_RUhENAI;
               break;
             case CC_CUhI:
-              /* Nothing to do, this is the neutral case so you
-                 can't invert it */
+              /* This is the neutral case so you can't invert it, but keep
+                 the word */
+              xci->code = CC_CUhINAI;
               break;
             case CC_PEI:
               xci->code = CC_PEINAI;
diff --git a/nodes.h b/nodes.h
index 0ae7430..186d59f 100644
--- a/nodes.h
+++ b/nodes.h
@@ -286,7 +286,8 @@ typedef struct x_caiindicator {
     CC_SAINAI,
     CC_CAINAI,
     CC_PEI,
-    CC_PEINAI
+    CC_PEINAI,
+    CC_CUhINAI
   } code;
 } XCaiIndicator;
 
diff --git a/output.c b/output.c
index dad7fd5..5185a1d 100644
--- a/output.c
+++ b/output.c
@@ -380,6 +380,7 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
         strcpy(buffer, translate("ru'e"));
         break;
       case CC_CUhI:
+      case CC_CUhINAI:
         strcpy(buffer, translate("cu'i"));
         break;
       case CC_RUhENAI:
@@ -431,6 +432,9 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
       case CC_CUhI:
         strcat(loj, " cu'i");
         break;
+      case CC_CUhINAI:
+        strcat(loj, " cu'inai");
+        break;
       case CC_RUhENAI:
         strcat(loj, " ru'enai");
         break;
diff --git a/tree.c b/tree.c
index 306f102..594f513 100644
--- a/tree.c
+++ b/tree.c
@@ -164,6 +164,11 @@ print_tree(TreeNode *x, int indent)
                   printf("CMAVO : ru'e [CAI]\n");
                   show_indent(indent);
                   printf("CMAVO : nai [NAI]\n"); break;
+                case CC_CUhINAI:
+                  show_indent(indent);
+                  printf("CMAVO : cu'i [CAI]\n");
+                  show_indent(indent);
+                  printf("CMAVO : nai [NAI]\n"); break;
                 case CC_PEINAI:
                   show_indent(indent);
                   printf("CMAVO : pei [CAI]\n");
@@ -380,6 +385,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
                 case CC_SAINAI: printf(" sai nai"); break;
                 case CC_RUhENAI: printf(" ru'e nai"); break;
                 case CC_PEINAI: printf(" pei"); break;
+                case CC_CUhINAI: printf(" cu'i nai"); break;
               }
             }
           }
-- 
2.43.0


From 625fd29c0e5f039a50d5797ea97a83c67cf62e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 12/56] fix: an intensifier without dictionary entry copied a
 null string

---
 output.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/output.c b/output.c
index 5185a1d..6ffca2c 100644
--- a/output.c
+++ b/output.c
@@ -369,36 +369,38 @@ static void translate_indicator (TreeNode *x, char *loj, char *eng)/*{{{*/
 
   xci = prop_cai_indicator(x, NO);
   if (xci) {
+    trans = NULL;
     switch (xci->code) {
       case CC_CAI:
-        strcpy(buffer, translate("cai"));
+        trans = translate("cai");
         break;
       case CC_SAI:
-        strcpy(buffer, translate("sai"));
+        trans = translate("sai");
         break;
       case CC_RUhE:
-        strcpy(buffer, translate("ru'e"));
+        trans = translate("ru'e");
         break;
       case CC_CUhI:
       case CC_CUhINAI:
-        strcpy(buffer, translate("cu'i"));
+        trans = translate("cu'i");
         break;
       case CC_RUhENAI:
-        strcpy(buffer, translate("ru'enai"));
+        trans = translate("ru'enai");
         break;
       case CC_SAINAI:
-        strcpy(buffer, translate("sainai"));
+        trans = translate("sainai");
         break;
       case CC_CAINAI:
-        strcpy(buffer, translate("cainai"));
+        trans = translate("cainai");
         break;
       case CC_PEI:
-        strcpy(buffer, translate("pei"));
+        trans = translate("pei");
         break;
       case CC_PEINAI:
-        strcpy(buffer, translate("peinai"));
+        trans = translate("peinai");
         break;
     }
+    strcpy(buffer, trans ? trans : "?");
     strcat(buffer, " ");
   } else {
     buffer[0] = 0;
-- 
2.43.0


From 89b905d8738c799e62bc2100874cfdd74f9b3f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:49 +0000
Subject: [PATCH 13/56] fix: bracketed text printed la'o quotations as zoi

---
 tree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.c b/tree.c
index 594f513..c6e3e63 100644
--- a/tree.c
+++ b/tree.c
@@ -432,7 +432,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
 
       case N_ZOI:
         SPACE_B4_TEXT;
-        printf("zoi %s %s %s", x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
+        printf("%s %s %s %s", x->data.zoi.form, x->data.zoi.term, x->data.zoi.text, x->data.zoi.term);
         break;
         
       case N_ZO:
-- 
2.43.0


From 7b4c0f7c7d13740ff6a9d68eae823aabc3372659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:50 +0000
Subject: [PATCH 14/56] fix: nai and intensifiers were swallowed after
 indicators that cannot take them

---
 lex2.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index 4a249e5..0140dbb 100644
--- a/lex2.c
+++ b/lex2.c
@@ -753,7 +753,9 @@ pair_off_indicator_suffixes(void)
 
     y = x->next;
 
-    if (is_indicator_cmavo(x)) {
+    /* Only UI and CAI take suffixes (FUhE, FUhO, DAhO and Y don't) */
+    if ((x->type == N_CMAVO) &&
+        ((x->data.cmavo.selmao == UI) || (x->data.cmavo.selmao == CAI))) {
       if ((y != &toks) &&
           (y->type == N_CMAVO) &&
           (y->data.cmavo.selmao == NAI)) {
-- 
2.43.0


From 3e557e2e97979a825b20c32bd1ba24aed30df8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:22 +0000
Subject: [PATCH 15/56] fix: mex operands were joined by jek instead of ek

---
 rpc2x.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpc2x.y b/rpc2x.y
index 1a04cd3..31b1ddb 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -1565,8 +1565,8 @@ operand-1<382> = operand-2 [joik-ek operand-2] ...
 operand_1 : operand_2
           | operand_1 joik free_seq operand_2
           | operand_1 joik          operand_2
-          | operand_1 jek  free_seq operand_2
-          | operand_1 jek           operand_2
+          | operand_1 ek   free_seq operand_2
+          | operand_1 ek            operand_2
           ;
 
 
-- 
2.43.0


From 88a15a1147c219be9b4298c71b95591cb155ff0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:22 +0000
Subject: [PATCH 16/56] fix: an elided ke'e before an elided vau was not shown

---
 rpc2x.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpc2x.y b/rpc2x.y
index 31b1ddb..003192b 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -669,7 +669,7 @@ bridi_tail : bridi_tail_1
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          tail_terms
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail KEhE          /* ET VAU */
            | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ tail_terms
-           | bridi_tail_1 gihek_stag_ke KE          bridi_tail               /* ET VAU */
+           | bridi_tail_1 gihek_stag_ke KE          bridi_tail /* ET KEhE */ /* ET VAU */
            ;
 
 gihek_stag_ke : PRIVATE_GIHEK_KE gihek stag
-- 
2.43.0


From 46945ff6badb2cd37ac9590a28841508d1c3b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:58 +0000
Subject: [PATCH 17/56] fix: gi'e bo could be attached on the left to a
 finished gi'e bo construct

---
 rpc2x.y |  4 ++--
 terms.c | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/rpc2x.y b/rpc2x.y
index 003192b..f4578ab 100644
--- a/rpc2x.y
+++ b/rpc2x.y
@@ -692,8 +692,8 @@ bridi-tail-2<52> = bridi-tail-3 [gihek [stag] BO # bridi-tail-2 tail-terms]
 */
 
 bridi_tail_2 : bridi_tail_3
-             | bridi_tail_2 gihek_stag_bo bridi_tail_2 tail_terms
-             | bridi_tail_2 gihek_stag_bo bridi_tail_2 /* ET VAU */
+             | bridi_tail_3 gihek_stag_bo bridi_tail_2 tail_terms
+             | bridi_tail_3 gihek_stag_bo bridi_tail_2 /* ET VAU */
              ;
 
 gihek_stag_bo : PRIVATE_GIHEK_BO gihek stag BO free_seq
diff --git a/terms.c b/terms.c
index af6a9cf..cb30dad 100644
--- a/terms.c
+++ b/terms.c
@@ -1192,14 +1192,14 @@ static void process_bridi_tail_3(TreeNode *bt3, TermVector *pre, TermVector *pos
 static void process_bridi_tail_2(TreeNode *bt2, TermVector *pre, TermVector *post)/*{{{*/
 {
 
-  TreeNode *bt3, *bt2a, *bt2b, *tt, *ttt; /* The children */
+  TreeNode *bt3, *bt2b, *tt, *ttt; /* The children */
   struct nonterm *nt;
   int nc;
 
   /* The structure of a bridi_tail_2 is, for this fn's purposes,
 
      bridi_tail_3
-   | bridi_tail_2 [CONNECTIVE bridi_tail_2 [tail_terms]]
+   | bridi_tail_3 [CONNECTIVE bridi_tail_2 [tail_terms]]
 
      */
 
@@ -1213,9 +1213,9 @@ static void process_bridi_tail_2(TreeNode *bt2, TermVector *pre, TermVector *pos
   } else {
     TermVector new_post, tail_terms;
 
-    bt2a = find_nth_child(bt2, 1, BRIDI_TAIL_2);
-    assert(bt2a);
-    bt2b = find_nth_child(bt2, 2, BRIDI_TAIL_2);
+    bt3 = find_nth_child(bt2, 1, BRIDI_TAIL_3);
+    assert(bt3);
+    bt2b = find_nth_child(bt2, 1, BRIDI_TAIL_2);
     assert(bt2b);
 
     tt = find_nth_child(bt2, 1, TAIL_TERMS);
@@ -1224,14 +1224,14 @@ static void process_bridi_tail_2(TreeNode *bt2, TermVector *pre, TermVector *pos
       if (ttt) {
         tv_build(&tail_terms, ttt);
         tv_catenate(&tail_terms, post, &new_post);
-        process_bridi_tail_2(bt2a, pre, &new_post);
+        process_bridi_tail_3(bt3, pre, &new_post);
         process_bridi_tail_2(bt2b, pre, &new_post);
       } else {
-        process_bridi_tail_2(bt2a, pre, post);
+        process_bridi_tail_3(bt3, pre, post);
         process_bridi_tail_2(bt2b, pre, post);
       }
     } else {
-      process_bridi_tail_2(bt2a, pre, post);
+      process_bridi_tail_3(bt3, pre, post);
       process_bridi_tail_2(bt2b, pre, post);
     }
   }
-- 
2.43.0


From 4662e51247ba4e267f93e87bfc32d3fd76d2e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:17 +0000
Subject: [PATCH 18/56] fix: -se said that the ku of na ku could be omitted

---
 elide.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elide.c b/elide.c
index bb8ca0d..ce25815 100644
--- a/elide.c
+++ b/elide.c
@@ -169,6 +169,12 @@ token_is_elidable(YYSTYPE tok, int *is_boiveho)
   
   if (!tok) return 0; /* end of string */
   if (tok->type != N_CMAVO) return 0;
+
+  /* The KU of 'na ku' is an integral part of that construction, so it can
+     never be omitted. */
+  if (tok->data.cmavo.selmao == KU &&
+      tok->prev->type == N_CMAVO &&
+      tok->prev->data.cmavo.selmao == NA) return 0;
   
   switch (cmavo_table[tok->data.cmavo.code].code) {
     case CM_BEhO:
-- 
2.43.0


From 46a62ccdec4b8695d46ede14986ae2bb56064f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:31 +0000
Subject: [PATCH 19/56] fix: -se said that a ku between two tenses could be
 omitted

---
 elide.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/elide.c b/elide.c
index ce25815..9e55d62 100644
--- a/elide.c
+++ b/elide.c
@@ -280,6 +280,16 @@ token_is_number_marker(TreeNode *x)
   return result;
 }
 
+/*++++++++++++++++++++++++++++++++++++++
+  Detect whether a token is a particular private marker
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static int
+token_is_marker(TreeNode *x, int marker)
+{
+  return x && (x->type == N_MARKER) && (x->data.marker.tok == marker);
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Emit the sequence of elidable cmavo + line/col no. information
   ++++++++++++++++++++++++++++++++++++++*/
@@ -498,6 +508,15 @@ elide_trace_shift(int yystate, int yychar)
      set_conflict(tokbuf.n - 1, 0);
     }
 
+    /* Likewise, if the elidables separate two tenses, these would merge into
+       one if all the elidables were discarded. */
+    if ((tokbuf.n > 1) &&
+        token_is_marker(tokbuf.buf[0].yylval->prev, PRIVATE_END_TENSE) &&
+        token_is_marker(tokbuf.buf[tokbuf.n - 1].yylval, PRIVATE_START_TENSE)) {
+
+     set_conflict(tokbuf.n - 1, 0);
+    }
+
     if (show_elisions_verbose && (tokbuf.n > 1)) {
       printf("Early shift hazards for words ");
       emit_elidable_sequence();
-- 
2.43.0


From b3ec8ce69c808787edb797dda878c4aa6a12438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:11 +0000
Subject: [PATCH 20/56] fix: -se said that the terminators between a tense and
 gi could be omitted

---
 elide.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elide.c b/elide.c
index 9e55d62..41698b6 100644
--- a/elide.c
+++ b/elide.c
@@ -509,10 +509,12 @@ elide_trace_shift(int yystate, int yychar)
     }
 
     /* Likewise, if the elidables separate two tenses, these would merge into
-       one if all the elidables were discarded. */
+       one if all the elidables were discarded, and a tense would merge with a
+       following GI into a forethought connective. */
     if ((tokbuf.n > 1) &&
         token_is_marker(tokbuf.buf[0].yylval->prev, PRIVATE_END_TENSE) &&
-        token_is_marker(tokbuf.buf[tokbuf.n - 1].yylval, PRIVATE_START_TENSE)) {
+        (token_is_marker(tokbuf.buf[tokbuf.n - 1].yylval, PRIVATE_START_TENSE) ||
+         (tokbuf.buf[tokbuf.n - 1].value == GI))) {
 
      set_conflict(tokbuf.n - 1, 0);
     }
-- 
2.43.0


From e2552c2391ed371bc2f579af3a62d0d9c376d3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 21/56] fix: names containing rnytc, rnyts, rnydj or rnydz were
 not recognised

---
 morf_nfa.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/morf_nfa.in b/morf_nfa.in
index 5d7bf23..b1852c5 100644
--- a/morf_nfa.in
+++ b/morf_nfa.in
@@ -920,7 +920,7 @@ BLOCK CMENE
         VY             -> v
         YY             -> y
         LCP|HS|H|CN|BT -> c
-        CP ; BT        -> c # deal with nytc, nyts, nydj, nydz
+        CP|H ; BT      -> c # deal with nytc, nyts, nydj, nydz (H after r)
     
     STATE exit
         = TAG_CMENE
-- 
2.43.0


From 79a23d4451386341a686effb2cd879f7407196c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:05 +0000
Subject: [PATCH 22/56] fix: Cy cmavo run on to a cmavo such as ia or ui were
 not recognised

---
 morf_nfa.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/morf_nfa.in b/morf_nfa.in
index b1852c5..010f6c8 100644
--- a/morf_nfa.in
+++ b/morf_nfa.in
@@ -485,7 +485,7 @@ BLOCK CMAVOSEQ
 
     STATE in2
             -> exit_prefixable
-        CNR -> main
+        CNR -> main, cy1
 
     STATE main
         V -> m2, mv
-- 
2.43.0


From 519080e30c899a7319f4d236e9f3e9742e2f76fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:20 +0000
Subject: [PATCH 23/56] fix: names with yy were taken for bad names because the
 la/doi automaton ran off its table

---
 bctables.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bctables.in b/bctables.in
index c090a8f..eaf1883 100644
--- a/bctables.in
+++ b/bctables.in
@@ -50,6 +50,7 @@ Block MAIN
 
     State y
         APOS -> a
+        Y -> y
         COMMA ; VOWEL|Y -> v
         CONS -> c
         -> nosplit.in
-- 
2.43.0


From 3133ec99166f62eab24ec892574342506b424421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:09 +0000
Subject: [PATCH 24/56] fix: zoi or la'o written together with the cmavo before
 it did not open a quotation

---
 lex1.c | 107 +++++++++++++++++++++++++++++++++------------------------
 1 file changed, 63 insertions(+), 44 deletions(-)

diff --git a/lex1.c b/lex1.c
index 2100e61..70cd2d3 100644
--- a/lex1.c
+++ b/lex1.c
@@ -93,6 +93,64 @@ hash_cmavo(char *buf) {
 }
 
 
+/*++++++++++++++++++++++++++++++++++++++
+  Handle a word that opens or closes a zoi or la'o quotation or lies inside
+  one.  Return 1 if it was such a word, 0 if it is to be handled like any other
+  word.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static int
+take_zoi(char *buf, int start_line, int start_column)
+{
+  TreeNode *tok;
+
+  if (zoi_data) {
+    if (!strcmp(buf, zoi_delim)) {
+      tok = new_node();
+      tok->start_line = zoi_start_line;
+      tok->start_column = zoi_start_col;
+      tok->type = N_ZOI;
+      tok->data.zoi.form = new_string(zoi_form);
+      tok->data.zoi.term = new_string(zoi_delim);
+      tok->data.zoi.text = zoi_data;
+      add_token(tok);
+      zoi_data = NULL;
+      zoi_delim[0] = 0;
+    } else {
+      if (zoi_data[0]) {
+        zoi_data = extend_string(zoi_data, " ");
+      }
+      zoi_data = extend_string(zoi_data, buf);
+    }
+    return 1;
+  }
+
+  if (zoi_delim_next) {
+    strcpy(zoi_delim, buf);
+    zoi_data = new_string("");
+    zoi_delim_next = 0;
+    return 1;
+  }
+
+  if (!strcmp(buf, "zoi")) {
+    strcpy(zoi_form, "zoi");
+    zoi_delim_next = 1;
+    zoi_start_line = start_line;
+    zoi_start_col = start_column;
+    return 1;
+  }
+
+  if (!strcmp(buf, "la'o")) {
+    strcpy(zoi_form, "la'o");
+    zoi_delim_next = 1;
+    zoi_start_line = start_line;
+    zoi_start_col = start_column;
+    return 1;
+  }
+
+  return 0;
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Process an individual cmavo.
 
@@ -106,6 +164,8 @@ process_cmavo(char *buf, int start_line, int start_column)
   TreeNode *node;
   int i, n, ok;
 
+  if (take_zoi(buf, start_line, start_column)) return;
+
   /* Check cmavo contains only valid characters */
   n = strlen(buf);
   ok = 1;
@@ -160,6 +220,8 @@ add_brivla_token(char *x, int start_line, int start_column, enum BrivlaType briv
 {
   TreeNode *tok;
 
+  if (take_zoi(x, start_line, start_column)) return;
+
   tok = new_node();
   tok->start_line = start_line;
   tok->start_column = start_column;
@@ -242,56 +304,13 @@ static int
 process_word(char *buf, int start_line, int start_column)
 {
   char buf2[65536];
-  TreeNode *tok;
   char *word_starts[65536];
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
   int column, incr;
 
-  if (zoi_data) {
-    if (!strcmp(buf, zoi_delim)) {
-      tok = new_node();
-      tok->start_line = zoi_start_line;
-      tok->start_column = zoi_start_col;
-      tok->type = N_ZOI;
-      tok->data.zoi.form = new_string(zoi_form);
-      tok->data.zoi.term = new_string(zoi_delim);
-      tok->data.zoi.text = zoi_data;
-      add_token(tok);
-      zoi_data = NULL;
-      zoi_delim[0] = 0;
-    } else {
-      if (zoi_data[0]) {
-        zoi_data = extend_string(zoi_data, " ");
-      }
-      zoi_data = extend_string(zoi_data, buf);
-    }
-    return 1;
-  }
-
-  if (zoi_delim_next) {
-    strcpy(zoi_delim, buf);
-    zoi_data = new_string("");
-    zoi_delim_next = 0;
-    return 1;
-  }
-
-  if (!strcmp(buf, "zoi")) {
-    strcpy(zoi_form, "zoi");
-    zoi_delim_next = 1;
-    zoi_start_line = start_line;
-    zoi_start_col = start_column;
-    return 1;
-  }
-
-  if (!strcmp(buf, "la'o")) {
-    strcpy(zoi_form, "la'o");
-    zoi_delim_next = 1;
-    zoi_start_line = start_line;
-    zoi_start_col = start_column;
-    return 1;
-  }
+  if (take_zoi(buf, start_line, start_column)) return 1;
 
   /* Analyse word type */
   
-- 
2.43.0


From 0fc4f6f1a40a1ff46b4d6abd756b1020404e9d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:28 +0000
Subject: [PATCH 25/56] fix: dictionary entries of a lujvo were not found for
 its other forms

---
 smujajgau.c |  4 ++--
 translate.c | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 2937bcb..a347bca 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -478,14 +478,14 @@ handle_mapping(char *src, char *dest)
     int baselen;
 
     /* Work out length of basic lujvo/gismu etc */
-    while (isalpha(*p)) p++;
+    while (isalpha(*p) || *p == '\'') p++;
     baselen = p - src;
 
     if ((baselen >= 6) && defines_place) {
       strncpy(buffer, src, baselen);
       buffer[baselen] = 0;
       canon = canon_lujvo(buffer);
-      if (canon) {
+      if (canon && !strchr(canon, '?')) {
         int lencanon = strlen(canon);
         strcpy(buffer2, canon);
         buffer2[lencanon++] = src[len-1];
diff --git a/translate.c b/translate.c
index 092811f..463c6de 100644
--- a/translate.c
+++ b/translate.c
@@ -946,6 +946,14 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
     /* OK, no full translation found.  Lookup the wn form */
     sprintf(buffer, "%s%1d", w, place);
     trans = translate(buffer);
+    if (!trans) {
+      /* It may be another form of a lujvo in the dictionary */
+      char *canon = canon_lujvo(w);
+      if (canon && strchr(canon, '+') && !strchr(canon, '?')) {
+        sprintf(buffer, "%s%1d", canon, place);
+        trans = translate(buffer);
+      }
+    }
     if (!trans) {
       /* Try to match sel..., ter..., ...mau etc */
       trans = translate_pattern(w, place, "");
@@ -963,7 +971,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       int pos;
       p = buffer;
       q = trans+1;
-      while (isalpha(*q)) {
+      while (isalpha(*q) || *q == '\'') {
         *p++ = *q++;
       }
       *p = 0;
-- 
2.43.0


From 6f1f5ffd4116b030240f0d8e385767a4a2e9a0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:40 +0000
Subject: [PATCH 26/56] fix: jvocuhadju overran its word table for arguments of
 more than five letters

---
 jvocuhadju.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jvocuhadju.c b/jvocuhadju.c
index c86c399..2ab0f32 100644
--- a/jvocuhadju.c
+++ b/jvocuhadju.c
@@ -717,6 +717,11 @@ static void makelujvo(char **tanru) {
 
   i=0;
   while (*tanru) {
+    if (strlen(*tanru) >= sizeof(t[i])) {
+      /* Too long for any gismu or cmavo */
+      fprintf(stderr, "Cannot use component [%s] in forming lujvo.\n", *tanru);
+      exit(1);
+    }
     strcpy(t[i], *tanru);
     for (j=0; ; j++) {
       if (!t[i][j]) break;
-- 
2.43.0


From 669044d2eb76166846a134c4528d806976136f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:40 +0000
Subject: [PATCH 27/56] fix: is_valid_lujvo used final_ccv uninitialised

---
 lujvofns.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lujvofns.c b/lujvofns.c
index 5206244..5bb359d 100644
--- a/lujvofns.c
+++ b/lujvofns.c
@@ -256,6 +256,7 @@ is_valid_lujvo(char *t)
   start_cvv = 0;
   had_rn_hyphen = 0;
   nrafsi = 0;
+  final_ccv = 0;
 
   for (;;) {
 
-- 
2.43.0


From 25d3a88109fa54e3f4869af840507a1601efd68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:55 +0000
Subject: [PATCH 28/56] fix: cmafihe glossed lujvo with a converted component
 by raw place entries, or the conversion twice

---
 cm_translate.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cm_translate.c b/cm_translate.c
index 7e2a8dd..6916b6f 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -71,7 +71,8 @@ translate_comp(char *w, int *conversion)
     buf2[1] = 0;
     strcat(buf, buf2);
     trans = translate(buf);
-    if (!trans) {
+    if (!trans || trans[0] == '@' || (trans[0] && trans[1] == ';')) {
+      /* No entry for the place, or one that is not a plain gloss */
       result[0] = 0;
       switch (*conversion) {
         case 2:
@@ -93,6 +94,7 @@ translate_comp(char *w, int *conversion)
       } else {
         strcat (result, "??");
       }
+      *conversion = 0;
       return result;
     }
   } else {
@@ -125,7 +127,7 @@ translate_lujvo(char *word)
     if (strlen(w) == 5) {
       /* trailing gismu */
       trans = translate_comp(w, &conversion);
-      append_trans(trans, result, initial);
+      append_trans(trans, result, !result[0]);
       break;
     } else {
       /* Not 5 letter, see what else */
@@ -137,12 +139,12 @@ translate_lujvo(char *word)
         strcat(buf,w);
         trans = translate_comp(buf, &conversion);
         if (trans) {
-          if (!initial) {
+          if (result[0]) {
             strcat(result, "-");
           }
           strcat(result, trans);
         } else {
-          if (!initial) {
+          if (result[0]) {
             strcat(result, "-");
           }
           strcat(result, "?");
@@ -169,7 +171,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,3);
             buf[4] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result, !result[0]);
           }
           w += 4; /* and go around again */
         } else if (yy && ypos == 4) {
@@ -178,7 +180,7 @@ translate_lujvo(char *word)
           strncpy(buf+1,w,4);
           buf[5] = 0;
           trans = translate_comp(buf, &conversion);
-          append_trans(trans, result, initial);
+          append_trans(trans, result, !result[0]);
           w += 5; /* and go around again */
 
         } else {
@@ -192,7 +194,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,4);
             buf[5] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, initial);
+            append_trans(trans, result, !result[0]);
 
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[3]) &&
@@ -217,7 +219,7 @@ translate_lujvo(char *word)
               strncpy(buf+1,w,3);
               buf[4] = 0;
               trans = translate_comp(buf, &conversion);
-              append_trans(trans, result, initial);
+              append_trans(trans, result, !result[0]);
             }
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[2]) &&
-- 
2.43.0


From 69f03c7f72377856ef0241b42445967077693e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 29/56] fix: lujvo of four or more components could crash the
 translator (buffers reused while in use)

---
 translate.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/translate.c b/translate.c
index 463c6de..6a8915c 100644
--- a/translate.c
+++ b/translate.c
@@ -44,10 +44,9 @@ char * translate(char *word)/*{{{*/
   char *buf;
   char *res;
 
-  buf = GETBUF();
-  
   res = dict_lookup(word);
   if (res) {
+    buf = GETBUF();
     strcpy(buf, res);
     return buf;
   } else {
-- 
2.43.0


From b16f8678e03a383849793f94bc69f7488fd47108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:50 +0000
Subject: [PATCH 30/56] fix: smujajgau kept the qualifier gloss (foo1q) of an
 earlier definition of foo1

---
 smujajgau.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index a347bca..ccb0d4e 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -7,7 +7,7 @@
   lojban:english
   
   and compiling them into a sorted database.  If the lojban is of the
-  form X1 (i.e. ends in a digit), the entries X1n, X1v, X1a and X1t
+  form X1 (i.e. ends in a digit), the entries X1n, X1v, X1q, X1a and X1t
   are deleted; they may be redefined by a later entry in the source
   dictionary.
 
@@ -404,7 +404,7 @@ read_database(FILE *in)
 
 /*++++++++++++++++++++++++++++++++++++++
   If we define an entry of the form abcde1, delete any entries of the form
-  abcde1[nvat].  These have to be redefined after, if required.
+  abcde1[nvqat].  These have to be redefined after, if required.
 
   char *s
   ++++++++++++++++++++++++++++++++++++++*/
@@ -412,9 +412,9 @@ read_database(FILE *in)
 static void
 preen(char *s) {
   char buffer[65536];
-  char *suffixes[] = {"n", "v", "a", "t"};
+  char *suffixes[] = {"n", "v", "q", "a", "t"};
   int i;
-  for (i=0; i<4; i++) {
+  for (i=0; i<5; i++) {
     strcpy(buffer, s);
     strcat(buffer, suffixes[i]);
     add_deletion(buffer);
-- 
2.43.0


From e420342e60e398444cea5d7c144987addc6ed898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:50 +0000
Subject: [PATCH 31/56] fix: smujajgau cut a character off a last line that
 does not end in a newline

---
 smujajgau.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index ccb0d4e..0752ce9 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -515,9 +515,11 @@ do_file(FILE *f)
   char src[65536];
   char dest[65536];
   char *p, *q, *r;
+  int len;
 
   while (fgets(line, sizeof(line), f)) {
-    line[strlen(line)-1] = 0;
+    len = strlen(line);
+    if (len > 0 && line[len-1] == '\n') line[len-1] = 0;
     p = line;
     while (*p && isspace(*p)) p++;
     if (!*p) {
-- 
2.43.0


From 2718625c0a95c003f56e258c6a60e7bdeda65d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 32/56] fix: smujajgau wrote a broken dictionary for an empty
 key, or a key or value over 255 characters

---
 smujajgau.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 0752ce9..57fdd7f 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -67,6 +67,9 @@ static int transord = 0;
 static Trans **transac;
 
 #define MKL 256
+
+/*+ The database holds the lengths of keys and values in a byte each +*/
+#define MAX_LEN 255
 static int wordlens[MKL];
 
 
@@ -439,7 +442,6 @@ handle_mapping(char *src, char *dest)
 {
   int len = strlen(src);
   int defines_place = isdigit(src[len-1]);
-  int specific = isdigit(src[len-2]);
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
@@ -487,6 +489,7 @@ handle_mapping(char *src, char *dest)
       canon = canon_lujvo(buffer);
       if (canon && !strchr(canon, '?')) {
         int lencanon = strlen(canon);
+        if (lencanon + 1 > MAX_LEN || len + 1 > MAX_LEN) return;
         strcpy(buffer2, canon);
         buffer2[lencanon++] = src[len-1];
         buffer2[lencanon] = 0;
@@ -545,9 +548,13 @@ do_file(FILE *f)
       }
       *r = 0;
 
-      handle_mapping(src, dest);
-
-
+      if (q == src) {
+        fprintf(stderr, "Line [%s] has nothing before the colon\n", line);
+      } else if (strlen(src) > MAX_LEN || strlen(dest) > MAX_LEN) {
+        fprintf(stderr, "Line [%s] is too long for the dictionary\n", line);
+      } else {
+        handle_mapping(src, dest);
+      }
     }
   }
 }
-- 
2.43.0


From b049dfb8a39415f37fc99f4b663a6445291e067f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 33/56] fix: the position given for a zei compound or a bu
 letteral was not where it begins

---
 lex2.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lex2.c b/lex2.c
index 0140dbb..d8bd436 100644
--- a/lex2.c
+++ b/lex2.c
@@ -518,6 +518,10 @@ handle_zei(void)
       }
       Free(components);
 
+      /* The compound begins where its first word does */
+      x->start_line = x->data.zei.children[0]->start_line;
+      x->start_column = x->data.zei.children[0]->start_column;
+
       left = x->prev->prev;
       right = y->prev;
 
@@ -599,6 +603,9 @@ handle_bu(void)
         continue;
       }
       x->type = N_BU;
+      /* The letteral begins where the word before bu does */
+      x->start_line = y->start_line;
+      x->start_column = y->start_column;
       switch (y->type) {
         case N_CMAVO:
           x->data.bu.word = new_string(cmavo_table[y->data.cmavo.code].cmavo);
-- 
2.43.0


From 6105a7da385fd297e830c0fe0b16d72bdfffe6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 34/56] fix: dfasyn's next_state function did not compile when
 no prefix was given

---
 dfasyn/n2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 453ef3c..31fa1dd 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1236,7 +1236,7 @@ static void write_next_state_function_uncompressed(int Nt)/*{{{*/
     fprintf(output, "  return %s_trans[%d*current_state + next_token];\n", prefix, Nt); 
     fprintf(output, "}\n");
   } else {
-    fprintf(output, "int next_state(int current_state, int token) {\n");
+    fprintf(output, "int next_state(int current_state, int next_token) {\n");
     fprintf(output, "  if (next_token < 0 || next_token >= %d) return -1;\n", Nt);
     fprintf(output, "  return trans[%d*current_state + next_token];\n", Nt); 
     fprintf(output, "}\n");
@@ -1313,7 +1313,7 @@ static void write_next_state_function_compressed(void)/*{{{*/
     fprintf(output, "return %s_nextstate[m];\n", prefix);
     fprintf(output, "}\n");
   } else {
-    fprintf(output, "int next_state(int current_state, int token) {\n");
+    fprintf(output, "int next_state(int current_state, int next_token) {\n");
     fprintf(output, "int h, l, m, xm;\n");
     fprintf(output, "while (current_state >= 0) {\n");
     fprintf(output, "  l = base[current_state], h = base[current_state+1];\n");
-- 
2.43.0


From d7c430af98619fb2baad556571d2ba9be7017dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 35/56] fix: dfasyn merged states without a result that differ
 in attribute

---
 dfasyn/compdfa.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dfasyn/compdfa.c b/dfasyn/compdfa.c
index c13290c..ff1e5b7 100644
--- a/dfasyn/compdfa.c
+++ b/dfasyn/compdfa.c
@@ -155,10 +155,8 @@ static int initial_compare(const void *a, const void *b)/*{{{*/
     return -1;
   } else if (aa->result && !bb->result) {
     return +1;
-  } else if (!aa->result && !bb->result) {
-    return 0;
   } else {
-    status = strcmp(aa->result, bb->result);
+    status = aa->result ? strcmp(aa->result, bb->result) : 0;
     if      (status < 0) return -1;
     else if (status > 0) return +1;
     else {
-- 
2.43.0


From c040179abae93c5e10224ca06cbc315ef5c46efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 36/56] fix: cmafihe did not know the class of xa'o and va'e

---
 extradict | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/extradict b/extradict
index 8efd9e3..4b6d161 100644
--- a/extradict
+++ b/extradict
@@ -345,6 +345,8 @@ re'u:nth time
 +ju'e:JOI
 +pe'e:PEhE
 +re'u:ROI
++va'e:MOI
++xa'o:ZAhO
 +pe'a:UI
 +po'a:UI
 
-- 
2.43.0


From a7d913919066324a6b8e317e9b718fdf5917d0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 37/56] fix: dfasyn's tables could not hold more than 256
 tokens, 32767 states or 65535 transitions

---
 dfasyn/n2d.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index 31fa1dd..bd39004 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -1243,6 +1243,12 @@ static void write_next_state_function_uncompressed(int Nt)/*{{{*/
   }
 }
 /*}}}*/
+static const char *state_type(void)/*{{{*/
+/* Type of table elements that hold the number of a state or -1 */
+{
+  return (ndfa > 32767) ? "int" : "short";
+}
+/*}}}*/
 static void print_uncompressed_tables(Block *b)/*{{{*/
 /* Print out the state/transition table uncompressed, i.e. every
    token has an array entry in every state.  This is fast to access
@@ -1256,9 +1262,9 @@ static void print_uncompressed_tables(Block *b)/*{{{*/
 
   n = 0;
   if (prefix) {
-    fprintf(output, "static short %s_trans[] = {", prefix);
+    fprintf(output, "static %s %s_trans[] = {", state_type(), prefix);
   } else {
-    fprintf(output, "static short trans[] = {");
+    fprintf(output, "static %s trans[] = {", state_type());
   }
   for (i=0; i<ndfa; i++) {
     for (j=0; j<Nt; j++) {
@@ -1345,13 +1351,16 @@ static void print_compressed_tables(Block *b)/*{{{*/
   int Nt = ntokens;
   int n, i, j;
   extern char *prefix;
+  /* Element types wide enough for the largest token and table index */
+  const char *token_type = (Nt > 256) ? "short" : "char";
+  const char *base_type;
 
 
   n = 0;
   if (prefix) {
-    fprintf(output, "static unsigned char %s_token[] = {", prefix);
+    fprintf(output, "static unsigned %s %s_token[] = {", token_type, prefix);
   } else {
-    fprintf(output, "static unsigned char token[] = {");
+    fprintf(output, "static unsigned %s token[] = {", token_type);
   }
   for (i=0; i<ndfa; i++) {
     for (j=0; j<Nt; j++) {
@@ -1371,9 +1380,9 @@ static void print_compressed_tables(Block *b)/*{{{*/
 
   n = 0;
   if (prefix) {
-    fprintf(output, "static short %s_nextstate[] = {", prefix);
+    fprintf(output, "static %s %s_nextstate[] = {", state_type(), prefix);
   } else {
-    fprintf(output, "static short nextstate[] = {");
+    fprintf(output, "static %s nextstate[] = {", state_type());
   }
   for (i=0; i<ndfa; i++) {
     basetab[i] = n;
@@ -1392,12 +1401,13 @@ static void print_compressed_tables(Block *b)/*{{{*/
   }
   fprintf(output, "\n};\n\n");
   basetab[ndfa] = n;
+  base_type = (n > 65535) ? "int" : "short";
 
   n = 0;
   if (prefix) {
-    fprintf(output, "static unsigned short %s_base[] = {", prefix);
+    fprintf(output, "static unsigned %s %s_base[] = {", base_type, prefix);
   } else {
-    fprintf(output, "static unsigned short base[] = {");
+    fprintf(output, "static unsigned %s base[] = {", base_type);
   }
   for (i=0; i<=ndfa; i++) {
     if (n>0) fputc (',', output);
@@ -1413,9 +1423,9 @@ static void print_compressed_tables(Block *b)/*{{{*/
   
   n = 0;
   if (prefix) {
-    fprintf(output, "static short %s_defstate[] = {", prefix);
+    fprintf(output, "static %s %s_defstate[] = {", state_type(), prefix);
   } else {
-    fprintf(output, "static short defstate[] = {");
+    fprintf(output, "static %s defstate[] = {", state_type());
   }
   for (i=0; i<ndfa; i++) {
     if (n>0) fputc (',', output);
-- 
2.43.0


From 53392cc2e9332a8ce4006ca8fa5ff14e39cf2d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:36 +0000
Subject: [PATCH 38/56] fix: -H looped for ever on & or <, and wrote the markup
 characters of a quotation as they are

---
 htmlout.c | 49 ++++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/htmlout.c b/htmlout.c
index 5340420..89c50ab 100644
--- a/htmlout.c
+++ b/htmlout.c
@@ -214,42 +214,31 @@ write_close_bracket(BracketType type, int subscript)
 }
 
 /*++++++++++++++++++++++++++++++
-  Make a string safe for setting with HTML.
-
-  static char * make_htmlsafe
+  Write a string, made safe for setting with HTML.
 
   char *s
   ++++++++++++++++++++++++++++++*/
 
-static char *
-make_htmlsafe(char *s)
+static void
+print_htmlsafe(char *s)
 {
-  static char buf[65536];
-  char *p, *q;
-  p = s;
-  q = buf;
-  while (*p) {
+  char *p;
+  for (p=s; *p; p++) {
     switch (*p) {
       case '&':
-        strcpy(q, "&amp;");
-        q += 5;
+        printf("&amp;");
         break;
       case '<':
-        strcpy(q, "&lt;");
-        q += 4;
+        printf("&lt;");
         break;
       case '>':
-        strcpy(q, "&gt;");
-        q += 4;
+        printf("&gt;");
         break;
       default:
-        *q++ = *p++;
+        putchar(*p);
         break;
     }
-  }        
-  *q = 0;
-
-  return buf;
+  }
 }
 
 
@@ -273,7 +262,9 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("<B>%s</B>", text);
+  printf("<B>");
+  print_htmlsafe(text);
+  printf("</B>");
 
   state = ST_TEXT;
 }
@@ -320,7 +311,9 @@ write_translation(char *text)
   if (text[0] == '$') {
     write_special(text);
   } else {
-    printf("<I>%s</I>", make_htmlsafe(text));
+    printf("<I>");
+    print_htmlsafe(text);
+    printf("</I>");
   }
 
   state = ST_TEXT;
@@ -378,16 +371,14 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  if (brac) {
-    printf("%s%s (%s)\n", brivla, place, make_htmlsafe(trans));
-  } else {
-    printf("%s%s %s\n", brivla, place, make_htmlsafe(trans));
-  }
+  printf("%s%s %s", brivla, place, brac ? "(" : "");
+  print_htmlsafe(trans);
+  printf("%s\n", brac ? ")" : "");
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("%s", t);
+  print_htmlsafe(t);
 }
 /*}}}*/
 
-- 
2.43.0


From 8369df66ca4169a1d4c764f70536133cea313e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:04 +0000
Subject: [PATCH 39/56] fix: LaTeX output: special characters of a quotation
 were not escaped, and -l -b lost the end of the text

---
 latex.c    | 60 +++++++++++++++++++++++++++++++++++----
 latex.h    |  1 +
 latexblk.c | 83 +++++++++++++++++++++++++++++++-----------------------
 3 files changed, 104 insertions(+), 40 deletions(-)

diff --git a/latex.c b/latex.c
index 815e344..608f94e 100644
--- a/latex.c
+++ b/latex.c
@@ -260,13 +260,19 @@ latex_write_close_bracket(BracketType type, int subscript)
 char *
 make_texsafe(char *s)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   char *p, *q;
+  buf = grow_array(char, 4*strlen(s) + 1, buf);
   p = s;
   q = buf;
   while (*p) {
     switch (*p) {
       case '^':
+        *q++ = '\\';
+        *q++ = *p++;
+        *q++ = '{';
+        *q++ = '}';
+        break;
       case '&':
 #if 0
       case '\\':
@@ -296,6 +302,46 @@ make_texsafe(char *s)
   return buf;
 }
 
+/*++++++++++++++++++++++++++++++
+  Write the words of the text being translated.  (Quotations can contain
+  anything.)
+
+  char *s
+  ++++++++++++++++++++++++++++++*/
+
+void
+latex_write_words(char *s)
+{
+  char *p;
+  for (p=s; *p; p++) {
+    switch (*p) {
+      case '\\':
+        printf("\\textbackslash{}");
+        break;
+      case '^':
+      case '~':
+        printf("\\%c{}", *p);
+        break;
+      case '&':
+      case '$':
+      case '{':
+      case '}':
+      case '%':
+      case '_':
+      case '#':
+        printf("\\%c", *p);
+        break;
+      case '<':
+      case '>':
+        printf("$%c$", *p);
+        break;
+      default:
+        putchar(*p);
+        break;
+    }
+  }
+}
+
 
 /*++++++++++++++++++++++++++++++++++++++
   
@@ -317,7 +363,9 @@ write_lojban_text(char *text)
       break;
   }
 
-  printf("\\mbox{\\textbf{%s}\\/}", text);
+  printf("\\mbox{\\textbf{");
+  latex_write_words(text);
+  printf("}\\/}");
 
   state = ST_TEXT;
 }
@@ -411,16 +459,18 @@ start_tag(void)
 
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
+  printf("\\textsl{\\footnotesize{}");
+  latex_write_words(brivla);
   if (brac) {
-    printf("\\textsl{\\footnotesize{}%s%s (%s)}\n", brivla, place, make_texsafe(trans));
+    printf("%s (%s)}\n", place, make_texsafe(trans));
   } else {
-    printf("\\textsl{\\footnotesize{}%s%s %s}\n", brivla, place, make_texsafe(trans));
+    printf("%s %s}\n", place, make_texsafe(trans));
   }
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  printf("\\textsl{\\footnotesize{}%s}\n", t);
+  printf("\\textsl{\\footnotesize{}%s}\n", make_texsafe(t));
 }
 /*}}}*/
 
diff --git a/latex.h b/latex.h
index 9eba44f..471a015 100644
--- a/latex.h
+++ b/latex.h
@@ -13,6 +13,7 @@
 
 extern void latex_write_epilog(void);
 extern char *make_texsafe(char *s);
+extern void latex_write_words(char *s);
 extern void latex_write_open_bracket(BracketType type, int subscript);
 extern void latex_write_close_bracket(BracketType type, int subscript);
 
diff --git a/latexblk.c b/latexblk.c
index 89aa936..4d9178f 100644
--- a/latexblk.c
+++ b/latexblk.c
@@ -25,9 +25,10 @@ typedef enum {
 
 static States state;
 
-static char tag_text[65536];
-static char loj_text[65536];
-static char eng_text[65536];
+/* The block being built.  These grow as needed. */
+static char *tag_text;
+static char *loj_text;
+static char *eng_text;
 
 /*++++++++++++++++++++++++++++++++++++++
   
@@ -37,9 +38,9 @@ static void
 initialise(void)
 {
   state = ST_START;
-  tag_text[0] = 0;
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  tag_text = new_string("");
+  loj_text = new_string("");
+  eng_text = new_string("");
 
 }
 
@@ -122,8 +123,9 @@ static void
 flush_block(void)
 {
   char *p;
-  printf("\\BT[t]{l}{\\bf %s}\\\\{\\it %s}\\\\[-3pt]",
-         loj_text, eng_text);
+  printf("\\BT[t]{l}{\\bf ");
+  latex_write_words(loj_text);
+  printf("}\\\\{\\it %s}\\\\[-3pt]", eng_text);
   printf("{\\ISS{}");
   for (p=tag_text; *p; p++) {
     if (*p == '\n') {
@@ -140,6 +142,19 @@ flush_block(void)
 
 }
 
+/*++++++++++++++++++++++++++++++
+  
+  ++++++++++++++++++++++++++++++*/
+
+static void
+write_epilog(void)
+{
+  if (loj_text[0] || eng_text[0] || tag_text[0]) {
+    flush_block();
+  }
+  latex_write_epilog();
+}
+
 /*++++++++++++++++++++++++++++++
   
   ++++++++++++++++++++++++++++++*/
@@ -313,8 +328,8 @@ write_lojban_text(char *text)
   }
   clear_eols();
 
-  strcat(loj_text, " ");
-  strcat(loj_text, text);
+  loj_text = extend_string(loj_text, " ");
+  loj_text = extend_string(loj_text, text);
 
 }
 
@@ -329,11 +344,11 @@ static void
 write_special(char *text)
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "{\\reflectbox{\\zd\\char233}}");
+    eng_text = extend_string(eng_text, "{\\reflectbox{\\zd\\char233}}");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "``");
+    eng_text = extend_string(eng_text, "``");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"''");
+    eng_text = extend_string(eng_text, "''");
   }
 }
 
@@ -349,8 +364,9 @@ write_translation(char *text)
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, " ");
-    strcat(eng_text, make_texsafe(text));
+    eng_text = extend_string(eng_text, " ");
+    text = make_texsafe(text);
+    eng_text = extend_string(eng_text, text);
   }
 }
 
@@ -368,7 +384,7 @@ start_tags(void)
     flush_block();
   }
   clear_eols();
-  strcat(tag_text, "[");
+  tag_text = extend_string(tag_text, "[");
   first_tag = 1;
 }
 
@@ -380,7 +396,7 @@ start_tags(void)
 static void
 end_tags(void)
 {
-  strcat(tag_text, ":]");
+  tag_text = extend_string(tag_text, ":]");
 }
 
 
@@ -392,7 +408,7 @@ static void
 start_tag(void)
 {
   if (!first_tag) {
-    strcat(tag_text, ", ");
+    tag_text = extend_string(tag_text, ", ");
   }
   first_tag = 0;
 }
@@ -411,28 +427,25 @@ start_tag(void)
 static void
 write_tag_text(char *brivla, char *place, char *trans, int brac)
 {
-  char buffer[65536];
-
-  if (brac) {
-    sprintf(buffer, "%s%s (%s)", brivla, place, make_texsafe(trans));
-  } else {
-    sprintf(buffer, "%s%s %s", brivla, place, make_texsafe(trans));
+  if (tag_text[0] && tag_text[1]) { /* '[' is pre-inserted by start_tags */
+    tag_text = extend_string(tag_text, "\n");
   }
-  if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
-    strcat(tag_text, "\n");
-  }
-  strcat(tag_text, buffer);
+  brivla = make_texsafe(brivla);
+  tag_text = extend_string(tag_text, brivla);
+  tag_text = extend_string(tag_text, place);
+  tag_text = extend_string(tag_text, brac ? " (" : " ");
+  trans = make_texsafe(trans);
+  tag_text = extend_string(tag_text, trans);
+  if (brac) tag_text = extend_string(tag_text, ")");
 }
 
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  char buffer[65536];
-
-  sprintf(buffer, "%s", t);
-  if (tag_text[1]) { /* '[' is pre-inserted by start_tags */
-    strcat(tag_text, "\n");
+  if (tag_text[0] && tag_text[1]) { /* '[' is pre-inserted by start_tags */
+    tag_text = extend_string(tag_text, "\n");
   }
-  strcat(tag_text, buffer);
+  t = make_texsafe(t);
+  tag_text = extend_string(tag_text, t);
 }
 /*}}}*/
 
@@ -440,7 +453,7 @@ DriverVector latex_block_driver =/*{{{*/
 {
   initialise,
   write_prologue,
-  latex_write_epilog,
+  write_epilog,
   write_open_bracket,
   write_close_bracket,
   set_eols,
-- 
2.43.0


From ab8965fd33a2f6f7511c6e0c8d15ebbc109d0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 40/56] fix: block output (-b) overran its buffers with long
 words, many tags on a sumti, or a width over 511

---
 textblk.c | 155 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 87 insertions(+), 68 deletions(-)

diff --git a/textblk.c b/textblk.c
index 3769388..c6ae57f 100644
--- a/textblk.c
+++ b/textblk.c
@@ -19,7 +19,6 @@
 extern int opt_output_width; /* Defined in main.c */
 static int max_width = MAX_WIDTH;
 
-#define BUFFER_SIZE 512
 
 typedef enum {
   ST_OPEN,
@@ -30,27 +29,48 @@ typedef enum {
 
 static States state;
 
-/* Largest number of tags supported on a single sumti */
-#define MAX_TAGS 32
+/* Number of tags on a single sumti that there is currently space for */
+static int max_tags;
 
-/* Variables to hold block being built */
+/* Variables to hold block being built.  The strings grow as needed. */
 static int tags_used;
-static char tag_text[MAX_TAGS][BUFFER_SIZE];
-static char loj_text[BUFFER_SIZE];
-static char eng_text[BUFFER_SIZE];
+static char **tag_text;
+static char *loj_text;
+static char *eng_text;
 
 /* Variables to hold line being constructed */
 static int current_width; /* The width of the line buffer currently occupied */
-static char tag_line[MAX_TAGS][BUFFER_SIZE];
+static char **tag_line;
 static int line_tags_used;
-static char loj_line[BUFFER_SIZE];
-static char eng_line[BUFFER_SIZE];
+static char *loj_line;
+static char *eng_line;
+
+static void append(char **dest, const char *src)/*{{{*/
+/* Append to a string that grows as needed */
+{
+  *dest = extend_string(*dest, src);
+}
+/*}}}*/
+static void need_tags(int n)/*{{{*/
+/* Make sure that there is space for n tags */
+{
+  if (n <= max_tags) return;
+
+  tag_text = grow_array(char *, n, tag_text);
+  tag_line = grow_array(char *, n, tag_line);
+  while (max_tags < n) {
+    tag_text[max_tags] = new_string("");
+    tag_line[max_tags] = new_string("");
+    max_tags++;
+  }
+}
+/*}}}*/
 
 static void clear_line_buffer(void)/*{{{*/
 {
   int i;
 
-  for (i=0; i<MAX_TAGS; i++) {
+  for (i=0; i<max_tags; i++) {
     tag_line[i][0] = 0;
   }
   line_tags_used = 0;
@@ -63,14 +83,11 @@ static void clear_line_buffer(void)/*{{{*/
 /*}}}*/
 static void initialise(void)/*{{{*/
 {
-  int i;
-
   state = ST_START;
-  for (i=0; i<MAX_TAGS; i++) {
-    tag_text[i][0] = 0;
-  }
-  loj_text[0] = 0;
-  eng_text[0] = 0;
+  loj_text = new_string("");
+  eng_text = new_string("");
+  loj_line = new_string("");
+  eng_line = new_string("");
   tags_used = 0;
 
   clear_line_buffer();
@@ -121,20 +138,22 @@ static void clear_eols(void)/*{{{*/
     pending_eols = 0;
   }
 }/*}}}*/
-static void append_to_width(char *src, char *dbuf, int wid)/*{{{*/
+static void append_to_width(char *src, char **dbuf, int wid)/*{{{*/
 /* Append a string onto a buffer, and right pad with spaces to bring up
   to a specific width */
 {
   int len, toadd, i;
-  char buffer[BUFFER_SIZE];
+  char *end;
   len = strlen(src);
   toadd = wid - len;
+  *dbuf = Realloc(*dbuf, strlen(*dbuf) + wid + 1);
+  end = *dbuf + strlen(*dbuf);
+  strcpy(end, src);
+  end += len;
   for (i=0; i<toadd; i++) {
-    buffer[i] = ' ';
+    *end++ = ' ';
   }
-  buffer[toadd] = '\0';
-  strcat(dbuf, src);
-  strcat(dbuf, buffer);
+  *end = '\0';
 }/*}}}*/
 static void flush_block(void)/*{{{*/
 /* Push current block onto line buffer */
@@ -159,20 +178,20 @@ static void flush_block(void)/*{{{*/
     flush_line();
   }
 
-  append_to_width(loj_text, loj_line, max_len);
-  append_to_width(eng_text, eng_line, max_len);
+  append_to_width(loj_text, &loj_line, max_len);
+  append_to_width(eng_text, &eng_line, max_len);
 
   for (i=0; i<tags_used; i++) {
     if (i >= line_tags_used) {
-      append_to_width("", tag_line[i], current_width);
+      append_to_width("", &tag_line[i], current_width);
     }
-    append_to_width(tag_text[i], tag_line[i], max_len);
+    append_to_width(tag_text[i], &tag_line[i], max_len);
   }
 
   /* Space-pad the tag lines on words that don't generate enough
      tags. */
   for (i=tags_used; i<line_tags_used; i++) {
-    append_to_width("", tag_line[i], max_len);
+    append_to_width("", &tag_line[i], max_len);
   }
   
   current_width += max_len;
@@ -180,7 +199,7 @@ static void flush_block(void)/*{{{*/
   if (tags_used > line_tags_used) line_tags_used = tags_used;
 
   /* Clear the block buffers for the next lot */
-  for (i=0; i<MAX_TAGS; i++) {
+  for (i=0; i<max_tags; i++) {
     tag_text[i][0] = 0;
   }
   loj_text[0] = 0;
@@ -202,6 +221,24 @@ static void write_epilog(void)/*{{{*/
   flush_line();
   return;
 }/*}}}*/
+static void set_bracket(char *loj, char *eng, char *tag, int subscript)/*{{{*/
+/* Make a block of a bracket */
+{
+  char number[32];
+
+  need_tags(2);
+  loj_text[0] = eng_text[0] = tag_text[0][0] = tag_text[1][0] = 0;
+  append(&loj_text, loj);
+  append(&loj_text, " ");
+  append(&eng_text, eng);
+  append(&eng_text, " ");
+  append(&tag_text[0], tag);
+  append(&tag_text[0], " ");
+  sprintf(number, "%d ", subscript);
+  append(&tag_text[1], number);
+  tags_used = 2;
+}
+/*}}}*/
 static void write_open_bracket(BracketType type, int subscript)/*{{{*/
 {
   char *brac;
@@ -249,17 +286,9 @@ static void write_open_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket(brac, brac, brac, subscript);
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket(brac1, brac2, brac3, subscript);
   }
 
   state = ST_OPEN;
@@ -311,17 +340,9 @@ static void write_close_bracket(BracketType type, int subscript)/*{{{*/
   }
 
   if (brac) {
-    sprintf(loj_text, "%s ", brac);
-    sprintf(eng_text, "%s ", brac);
-    sprintf(tag_text[0], "%s ", brac);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket(brac, brac, brac, subscript);
   } else if (brac1) {
-    sprintf(loj_text, "%s ", brac1);
-    sprintf(eng_text, "%s ", brac2);
-    sprintf(tag_text[0], "%s ", brac3);
-    sprintf(tag_text[1], "%d ", subscript);
-    tags_used = 2;
+    set_bracket(brac1, brac2, brac3, subscript);
   }
 
   state = ST_CLOSE;
@@ -336,18 +357,18 @@ static void write_lojban_text(char *text)/*{{{*/
 
   clear_eols();
 
-  strcat(loj_text, text);
-  strcat(loj_text, " ");
+  append(&loj_text, text);
+  append(&loj_text, " ");
 
 }/*}}}*/
 static void write_special(char *text)/*{{{*/
 {
   if (!strcmp(text, "$LEFTARROW")) {
-    strcat(eng_text, "<-");
+    append(&eng_text, "<-");
   } else if (!strcmp(text, "$OPENQUOTE")) {
-    strcat(eng_text, "\"");
+    append(&eng_text, "\"");
   } else if (!strcmp(text, "$CLOSEQUOTE")) {
-    strcat(eng_text,"\"");
+    append(&eng_text, "\"");
   }
 }/*}}}*/
 static void write_translation(char *text)/*{{{*/
@@ -355,8 +376,8 @@ static void write_translation(char *text)/*{{{*/
   if (text[0] == '$') {
     write_special(text);
   } else {
-    strcat(eng_text, text);
-    strcat(eng_text, " ");
+    append(&eng_text, text);
+    append(&eng_text, " ");
   }
 }
 /*}}}*/
@@ -374,6 +395,7 @@ static void start_tags(void)/*{{{*/
 }/*}}}*/
 static void end_tags(void)/*{{{*/
 {
+  need_tags(tags_used + 1);
   tags_used++;
 }/*}}}*/
 static void start_tag(void)/*{{{*/
@@ -386,21 +408,18 @@ static void start_tag(void)/*{{{*/
 /*}}}*/
 static void write_tag_text(char *brivla, char *place, char *trans, int brac)/*{{{*/
 {
-  char buffer1[65536], buffer2[65536];
-
-  sprintf(buffer1, "%s%s ", brivla, place);
-  if (brac) {
-    sprintf(buffer2, "(%s) ", trans);
-  } else {
-    sprintf(buffer2, "%s ", trans);
-  }
-  strcat(tag_text[tags_used], buffer1);
-  strcat(tag_text[tags_used], buffer2);
+  need_tags(tags_used + 1);
+  append(&tag_text[tags_used], brivla);
+  append(&tag_text[tags_used], place);
+  append(&tag_text[tags_used], brac ? " (" : " ");
+  append(&tag_text[tags_used], trans);
+  append(&tag_text[tags_used], brac ? ") " : " ");
 }
 /*}}}*/
 static void write_partial_tag_text(char *t)/*{{{*/
 {
-  strcat(tag_text[tags_used], t);
+  need_tags(tags_used + 1);
+  append(&tag_text[tags_used], t);
 }
 /*}}}*/
 
-- 
2.43.0


From fc4ba3830826a5a9ab3f622655d0aa84fcf3ee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 41/56] fix: more than 20 terms or conversions, or gi'e ke
 without terms, made the place tagging read and write stray memory

---
 terms.c | 199 +++++++++++++++++++++++++++-----------------------------
 1 file changed, 96 insertions(+), 103 deletions(-)

diff --git a/terms.c b/terms.c
index cb30dad..97252b3 100644
--- a/terms.c
+++ b/terms.c
@@ -19,8 +19,6 @@
 #include "cmavotab.h"
 /*}}}*/
 
-#define MAX_TERMS_IN_VECTOR 20
-
 /* Maximum argument position.  Even the most horrific abstraction or
    lujvo would be pushed to get this many args!!! */
 
@@ -46,9 +44,12 @@ typedef struct TermVectorEntry{
   TreeNode *node; /* The treenode corresponding to this term */
 } TermVectorEntry;
 
+/* A vector is not changed any more once it has been copied, so copies can
+   share the nodes. */
 typedef struct TermVector{
   int n_nodes;
-  TermVectorEntry nodes[MAX_TERMS_IN_VECTOR];
+  int max_nodes;
+  TermVectorEntry *nodes;
 } TermVector;
 
 /*+ Enumeration tags for the LinkConvEntry type. +*/
@@ -64,7 +65,8 @@ typedef struct {
   TreeNode *senode;
 } SeInfo;
 
-typedef struct {
+typedef struct LinkConvEntry {
+  struct LinkConvEntry *outer; /* The previous entry of the chain */
   LCType type;
   union {
     TermVector *links;
@@ -76,12 +78,11 @@ typedef struct {
   } data;
 } LinkConvEntry;
 
-/*+ Structure containing an array of linked sumti blocks and
-  conversions.  This is accumulated whilst drilling down into 'KE
+/*+ Structure containing a chain of linked sumti blocks and
+  conversions, the last one first.  This is accumulated whilst drilling down into 'KE
   selbri3 KE'E BE links' constructions, which could recurse a lot. +*/
 typedef struct {
-  int n;
-  LinkConvEntry e[MAX_TERMS_IN_VECTOR];
+  LinkConvEntry *last;
 } LinkConv;
 /*}}}*/
 /* Forward prototypes *//*{{{*/
@@ -93,30 +94,33 @@ static void process_selbri_3_args(TreeNode *s3, TermVector *pre, TermVector *pos
 static void tv_init(TermVector *tv)/*{{{*/
 {
   tv->n_nodes = 0;
+  tv->max_nodes = 0;
+  tv->nodes = NULL;
 }
 /*}}}*/
-static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
+static TermVectorEntry *tv_extend(TermVector *tv)/*{{{*/
 {
-  int tn;
-  int i, n1, n2;
-  tn = s1->n_nodes + s2->n_nodes;
-
-  /* If this is exceeded, we'll need to reassess the design.  Really
-     ought to make the arrays dynamic but that incurs hassle of
-     releasing them. */
-  assert(tn <= MAX_TERMS_IN_VECTOR);
+  /* Add an entry to the end of a vector */
+  if (tv->n_nodes == tv->max_nodes) {
+    tv->max_nodes += 16;
+    tv->nodes = grow_array(TermVectorEntry, tv->max_nodes, tv->nodes);
+  }
 
-  n1 = s1->n_nodes;
-  n2 = s2->n_nodes;
+  return &tv->nodes[tv->n_nodes++];
+}
+/*}}}*/
+static void tv_catenate(TermVector *s1, TermVector *s2, TermVector *r)/*{{{*/
+{
+  int i;
 
-  r->n_nodes = tn;
+  tv_init(r);
 
-  for (i=0; i<n1; i++) {
-    r->nodes[i] = s1->nodes[i];
+  for (i=0; i<s1->n_nodes; i++) {
+    *tv_extend(r) = s1->nodes[i];
   }
 
-  for (i=0; i<n2; i++) {
-    r->nodes[n1+i] = s2->nodes[i];
+  for (i=0; i<s2->n_nodes; i++) {
+    *tv_extend(r) = s2->nodes[i];
   }
 }
 /*}}}*/
@@ -127,67 +131,66 @@ static void tv_reverse(TermVector *dest, TermVector *src)/*{{{*/
 
   assert(dest != src); /* Not designed to cope with this case */
 
-  n = dest->n_nodes = src->n_nodes;
+  tv_init(dest);
+  n = src->n_nodes;
 
   for (i=0; i<n; i++) {
-    dest->nodes[i] = src->nodes[n-1-i];
+    *tv_extend(dest) = src->nodes[n-1-i];
   }
 }/*}}}*/
 static void lc_init(LinkConv *lc)/*{{{*/
 {
   /* Initialise a linkconv list to empty */
-  lc->n = 0;
+  lc->last = NULL;
+}
+/*}}}*/
+static LinkConvEntry *lc_append(LinkConv *lc, LCType type)/*{{{*/
+{
+  /* Append an entry to a linkconv chain.  The chains that this one was copied
+     from are not changed. */
+  LinkConvEntry *e = new(LinkConvEntry);
+
+  e->type = type;
+  e->outer = lc->last;
+  lc->last = e;
+  return e;
 }
 /*}}}*/
 static void lc_append_se(LinkConv *lc, int conv, TreeNode *senode)/*{{{*/
 {
   /* Append a SE conversion to a linkconv chain */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  LinkConvEntry *e = lc_append(lc, LC_SE);
 
-  lc->e[lc->n].data.se.conv = conv;
-  lc->e[lc->n].data.se.senode = senode;
-  lc->e[lc->n].type = LC_SE;
-  ++(lc->n);
+  e->data.se.conv = conv;
+  e->data.se.senode = senode;
 }
 /*}}}*/
 static void lc_append_jai_tag(LinkConv *lc, TreeNode *tag, TreeNode *inner_tu2)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
+  LinkConvEntry *e = lc_append(lc, LC_TAG);
 
-  lc->e[lc->n].data.jai_tag.tag = tag;
-  lc->e[lc->n].data.jai_tag.inner_tu2 = inner_tu2;
-  lc->e[lc->n].type = LC_TAG;
-  ++(lc->n);
-  
+  e->data.jai_tag.tag = tag;
+  e->data.jai_tag.inner_tu2 = inner_tu2;
 }
 /*}}}*/
 static void lc_append_jai(LinkConv *lc)/*{{{*/
 {
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
-
-  lc->e[lc->n].type = LC_JAI;
-  ++(lc->n);
-  
+  lc_append(lc, LC_JAI);
 }
 /*}}}*/
 static void lc_append_links(LinkConv *lc, TermVector *v)/*{{{*/
 {
   /* Append a set of linked sumti to a linkconv chain.  Note, a dynamic COPY is
      made of 'v'. */
-  assert(lc->n < MAX_TERMS_IN_VECTOR);
-  lc->e[lc->n].data.links = new(TermVector);
+  LinkConvEntry *e = lc_append(lc, LC_LINKS);
 
-  /* Deep structure copy */
-  *(lc->e[lc->n].data.links) = *v;
-  
-  lc->e[lc->n].type = LC_LINKS;
-  ++(lc->n);
+  e->data.links = new(TermVector);
+  *(e->data.links) = *v;
 }
 /*}}}*/
 static void lc_copy(const LinkConv *src, LinkConv *dest)/*{{{*/
 {
-/* Copy a link/conv vector.  A semi-deep structure copy is made, i.e. the
-  pointers to the vectors of linked sumti get aliased.  The intention is to
+/* Copy a link/conv chain.  The entries are shared.  The intention is to
   produce a local copy onto which extra terms can be appended, rather than to
   make a completely general copy.  */
   
@@ -271,6 +274,7 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
   to do about afterthought termsets to somewhere else.  */
 
   TermVector vv;
+  TermVectorEntry *term;
   TreeNode *xx, *t1, *t2, *t, *tc, *tcc;
   struct nonterm *ntx, *ntt;
   int nc, ntc;
@@ -327,32 +331,26 @@ static void tv_build(TermVector *r, TreeNode *x)/*{{{*/
 
     switch (tc->data.nonterm.type) {
       case TERM_PLAIN_SUMTI:
-        vv.nodes[vv.n_nodes].type = TRM_POS;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        term = tv_extend(&vv);
+        term->type = TRM_POS;
+        term->node = t;
         break;
       case TERM_PLACED_SUMTI:
         {
           int pos;
           tcc = child_ref(tc, 0);
           pos = recover_fa_conv(tcc);
-          if (pos == 0) {
-            vv.nodes[vv.n_nodes].type = TRM_FAhI;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = 0;
-          } else {            
-            vv.nodes[vv.n_nodes].type = TRM_FA;
-            vv.nodes[vv.n_nodes].node = t;
-            vv.nodes[vv.n_nodes].pos = pos;
-          }
-          vv.n_nodes++;
+          term = tv_extend(&vv);
+          term->type = (pos == 0) ? TRM_FAhI : TRM_FA;
+          term->node = t;
+          term->pos = pos;
         }
         break;
       case TERM_TAGGED_SUMTI:
       case TAGGED_TERMSET:
-        vv.nodes[vv.n_nodes].type = TRM_TAG;
-        vv.nodes[vv.n_nodes].node = t;
-        vv.n_nodes++;
+        term = tv_extend(&vv);
+        term->type = TRM_TAG;
+        term->node = t;
         break;
       case TERMSET:
         fprintf(stderr, "No place tagging for termset at line %d\n", t->start_line);
@@ -531,8 +529,8 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     switch (t->nodes[i].type) {
       case TRM_POS :
         /* Look for first unassigned place */
-        while (place[base].taken) ++base;
-        if (base > MAX_POS) {
+        while (base < MAX_POS && place[base].taken) ++base;
+        if (base >= MAX_POS) {
           fprintf(stderr, "Too many places assigned\n");
         } else {
           fixup_term_place(t->nodes[i].node, &place[base], tt);
@@ -562,7 +560,8 @@ static void assign_conversion(LinkConv *lc, TreeNode *convertible)/*{{{*/
   Place place[MAX_POS];
   XConversion *ext;
 
-  int i, n;
+  LinkConvEntry *e;
+  int i;
 
   /* Init the place and vectors */
   for (i=0; i<MAX_POS; i++) {
@@ -573,9 +572,8 @@ static void assign_conversion(LinkConv *lc, TreeNode *convertible)/*{{{*/
   }
 
   /* Work back through the linked sumti */
-  n = lc->n;
-  for (i=n-1; i>=0; i--) {
-    switch (lc->e[i].type) {
+  for (e = lc->last; e; e = e->outer) {
+    switch (e->type) {
       case LC_SE:
         /* Just swap 2 positions in the place[] array */
         {
@@ -583,7 +581,7 @@ static void assign_conversion(LinkConv *lc, TreeNode *convertible)/*{{{*/
           SeInfo *j;
           XDontGloss *dg;
 
-          j = &lc->e[i].data.se;
+          j = &e->data.se;
           temp = place[1];
           place[1] = place[j->conv];
           place[j->conv] = temp;
@@ -631,7 +629,8 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
     front, look in fai[2] to find what to do. +*/
 
   Place fai[MAX_POS];
-  int i, n;
+  LinkConvEntry *e;
+  int i;
 
   /* Init the place and fai vectors */
   for (i=0; i<MAX_POS; i++) {
@@ -645,15 +644,14 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
   }
 
   /* Work back through the linked sumti */
-  n = lc->n;
-  for (i=n-1; i>=0; i--) {
-    switch (lc->e[i].type) {
+  for (e = lc->last; e; e = e->outer) {
+    switch (e->type) {
       case LC_SE:
         /* Just swap 2 positions in the place[] array */
         {
           Place temp;
           SeInfo *j;
-          j = &lc->e[i].data.se;
+          j = &e->data.se;
           temp = place[1];
           place[1] = place[j->conv];
           place[j->conv] = temp;
@@ -664,7 +662,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j < MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -673,8 +671,8 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           fai[1] = place[1];
           place[1].type = PT_TAG;
           place[1].valid = 1;
-          place[1].tag.tag = lc->e[i].data.jai_tag.tag;
-          place[1].tag.inner_tu2 = lc->e[i].data.jai_tag.inner_tu2;
+          place[1].tag.tag = e->data.jai_tag.tag;
+          place[1].tag.inner_tu2 = e->data.jai_tag.inner_tu2;
         }
       break;
 
@@ -683,7 +681,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
           int j;
           /* Shift fai place array up (i.e. need subscripts if more
              than one fai place is in scope). */
-          for (j=1; ; j++) {
+          for (j=1; j < MAX_POS-1; j++) {
             if (!fai[j].valid) break;
           }
           for (; j>1; j--) {
@@ -696,7 +694,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
         break;
 
       case LC_LINKS:
-        assign_terms_to_places(lc->e[i].data.links, place, fai, 2, tt);
+        assign_terms_to_places(e->data.links, place, fai, 2, tt);
         break;
     }
   }
@@ -1343,11 +1341,11 @@ static void process_bridi_tail(TreeNode *bt, TermVector *pre, TermVector *post)/
         process_bridi_tail_1(bt1, pre, &new_post);
         process_bridi_tail(btc, pre, &new_post);
       } else {
-        process_bridi_tail_1(bt1, pre, &new_post);
+        process_bridi_tail_1(bt1, pre, post);
         process_bridi_tail(btc, pre, post);
       }
     } else {
-      process_bridi_tail_1(bt1, pre, &new_post);
+      process_bridi_tail_1(bt1, pre, post);
       process_bridi_tail(btc, pre, post);
     }
   }
@@ -1577,6 +1575,7 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
 
   TreeNode *la, *tm, *lk, *tc, *tcc;
   TermVector tv;
+  TermVectorEntry *term;
   XTermVector *xtv;
 
   type_check(tu1, TANRU_UNIT_1);
@@ -1597,32 +1596,26 @@ static void check_tu1_for_links(TreeNode *tu1)/*{{{*/
 
       switch (tc->data.nonterm.type) {
         case TERM_PLAIN_SUMTI:
-          tv.nodes[tv.n_nodes].type = TRM_POS;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          term = tv_extend(&tv);
+          term->type = TRM_POS;
+          term->node = tm;
           break;
         case TERM_PLACED_SUMTI:
           {
             int pos;
             tcc = child_ref(tc, 0);
             pos = recover_fa_conv(tcc);
-            if (pos == 0) {
-              tv.nodes[tv.n_nodes].type = TRM_FAhI;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = 0;
-            } else {
-              tv.nodes[tv.n_nodes].type = TRM_FA;
-              tv.nodes[tv.n_nodes].node = tm;
-              tv.nodes[tv.n_nodes].pos = pos;
-            }
-            tv.n_nodes++;
+            term = tv_extend(&tv);
+            term->type = (pos == 0) ? TRM_FAhI : TRM_FA;
+            term->node = tm;
+            term->pos = pos;
           }
           break;
         case TERM_TAGGED_SUMTI:
         case TAGGED_TERMSET:
-          tv.nodes[tv.n_nodes].type = TRM_TAG;
-          tv.nodes[tv.n_nodes].node = tm;
-          tv.n_nodes++;
+          term = tv_extend(&tv);
+          term->type = TRM_TAG;
+          term->node = tm;
           break;
         case TERMSET:
           fprintf(stderr, "Termset at line %d ignored, place tagging will be faulty\n", tm->start_line);
-- 
2.43.0


From ddf8c3c98937217c4cb824986f9f9f703a373d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 42/56] fix: cmafihe overran its buffers with long words or
 with -b -w over 511, and read before the start of a word of vowels

---
 cm_gather.c    | 39 +++++++++++++++---------------
 cm_output.c    | 24 ++++++++++++-------
 cm_translate.c | 64 +++++++++++++++++---------------------------------
 3 files changed, 57 insertions(+), 70 deletions(-)

diff --git a/cm_gather.c b/cm_gather.c
index f083068..2092609 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -135,10 +135,12 @@ try_cmavo_fragment(node *p)
 
 static char *
 translate_selmao(char *x) {
-  char buffer[64];
-  strcpy(buffer, "+");
-  strcat(buffer, x);
-  return translate(buffer);
+  char *buffer = new_string("+");
+  char *result;
+  buffer = extend_string(buffer, x);
+  result = translate(buffer);
+  free(buffer);
+  return result;
 }
 
 /* ================================================== */
@@ -146,15 +148,15 @@ translate_selmao(char *x) {
 static void
 try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 {
-  char buf[65536], buf2[65536];
+  char *buf, *buf2;
   char *pbuf;
   char *t, *e;
-  char bufout[65536];
+  char *bufout;
   int len;
 
-  bufout[0] = 0;
-
-  strcpy(buf, lojban);
+  bufout = new_string("");
+  buf = new_string(lojban);
+  buf2 = new_string(lojban);
 
   pbuf = buf;
   if (*pbuf == '.') {
@@ -179,9 +181,9 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
         fprintf(stderr, "Got trans %s for %s\n", t, buf2);
 #endif
         if (bufout[0]) {
-          strcat(bufout, " ");
+          bufout = extend_string(bufout, " ");
         }
-        strcat(bufout, t);
+        bufout = extend_string(bufout, t);
         pbuf += len;
 #if DIAG
         fprintf(stderr, "Now looking at %s\n", pbuf);
@@ -193,13 +195,13 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
 #endif
         do {
           e--;
-        } while (strchr("aeiuo'", *e));
+        } while (e > pbuf && strchr("aeiuo'", *e));
       }
     }
     if (bufout[0]) {
-      strcat(bufout, " ");
+      bufout = extend_string(bufout, " ");
     }
-    strcat(bufout, "?");
+    bufout = extend_string(bufout, "?");
     do {
       pbuf++;
     } while (*pbuf && strchr("aeiou'", *pbuf));
@@ -211,7 +213,9 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
     
   }
 
-  (*transbuf) = new_string(bufout);
+  free(buf);
+  free(buf2);
+  (*transbuf) = bufout;
 
 }
 
@@ -222,7 +226,6 @@ do_trans(void)
 {
   node *p;
   char *t, *x;
-  char buf[32];
 
   for (p=head.next; p!=&head; p=p->next) {
     switch (p->type) {
@@ -233,9 +236,7 @@ do_trans(void)
         if (t) {
           p->trans = new_string(t);
 
-          strcpy(buf, "+");
-          strcat(buf, x);
-          t = translate(buf);
+          t = translate_selmao(x);
           if (t) {
             p->selmao = new_string(t);
           } else {
diff --git a/cm_output.c b/cm_output.c
index 5880bd5..8f34429 100644
--- a/cm_output.c
+++ b/cm_output.c
@@ -19,13 +19,13 @@ int width;
 
 /* ================================================== */
 
-#define BUFFER_SIZE 512
-
 #ifdef PLIST
 static proplist_t dictionary = NULL;
 #endif
 
-static char lines[3][BUFFER_SIZE];
+/* The three lines of the block being built, each width_used long */
+static char *lines[3];
+static int line_size = 0;
 static int width_used;
 
 /* ================================================== */
@@ -39,7 +39,6 @@ block_newline(void)
     printf("%s\n", lines[2]);
     printf("\n");
   }
-  lines[0][0] = lines[1][0] = lines[2][0] = 0;
   width_used = 0;
 }
 
@@ -51,7 +50,7 @@ append_content(char *buf, const char *x, int len, int mlen)
   int i;
   int d;
   char *p;
-  strcat(buf, x);
+  strcpy(buf, x);
   d = mlen - len;
   p = buf;
   while (*p) p++;
@@ -78,9 +77,17 @@ do_block(const char *a1, const char *a2, const char *a3)
     block_newline();
   }
 
-  append_content(&lines[0][0], a1, l1, ml+1);
-  append_content(&lines[1][0], a2, l2, ml+1);
-  append_content(&lines[2][0], a3, l3, ml+1);
+  if (width_used + ml + 2 > line_size) {
+    int i;
+    line_size = 2 * (width_used + ml + 2);
+    for (i=0; i<3; i++) {
+      lines[i] = (char *) realloc(lines[i], line_size);
+    }
+  }
+
+  append_content(lines[0] + width_used, a1, l1, ml+1);
+  append_content(lines[1] + width_used, a2, l2, ml+1);
+  append_content(lines[2] + width_used, a3, l3, ml+1);
   
   width_used += (ml + 1);
   return;
@@ -108,7 +115,6 @@ start_output(void)
     case OF_TEXT:
       break;
     case OF_TEXTBLK:
-      lines[0][0] = lines[1][0] = lines[2][0] = 0;
       width_used = 0;
       break;
 #ifdef PLIST
diff --git a/cm_translate.c b/cm_translate.c
index 6916b6f..5b235a1 100644
--- a/cm_translate.c
+++ b/cm_translate.c
@@ -37,23 +37,13 @@ translate(char *word)
 
 /* ================================================== */
 
-static void
+static char *
 append_trans(char *trans, char *result, int initial)
 {
-  if (trans) {
-    if (initial) {
-      strcpy(result, trans);
-    } else {
-      strcat(result, "-");
-      strcat(result, trans);
-    }
-  } else {
-    if (initial) {
-      strcpy(result, "?");
-    } else {
-      strcat(result, "-?");
-    }
+  if (!initial) {
+    result = extend_string(result, "-");
   }
+  return extend_string(result, trans ? trans : "?");
 }
 
 
@@ -111,7 +101,7 @@ translate_comp(char *w, int *conversion)
 static char *
 translate_lujvo(char *word)
 {
-  static char result[65536];
+  static char *result = NULL;
   char buf[64];
   char *w, *trans;
   int initial;
@@ -120,14 +110,15 @@ translate_lujvo(char *word)
   int conversion=0;
 
   w = word;
-  result[0] = 0;
+  free(result);
+  result = new_string("");
   initial = 1;
 
   do {
     if (strlen(w) == 5) {
       /* trailing gismu */
       trans = translate_comp(w, &conversion);
-      append_trans(trans, result, !result[0]);
+      result = append_trans(trans, result, !result[0]);
       break;
     } else {
       /* Not 5 letter, see what else */
@@ -138,17 +129,7 @@ translate_lujvo(char *word)
         strcpy(buf,"%");
         strcat(buf,w);
         trans = translate_comp(buf, &conversion);
-        if (trans) {
-          if (result[0]) {
-            strcat(result, "-");
-          }
-          strcat(result, trans);
-        } else {
-          if (result[0]) {
-            strcat(result, "-");
-          }
-          strcat(result, "?");
-        }
+        result = append_trans(trans, result, !result[0]);
         break;
       } else {
         /* Try to pull off leading rafsi component and process remainder */
@@ -171,7 +152,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,3);
             buf[4] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, !result[0]);
+            result = append_trans(trans, result, !result[0]);
           }
           w += 4; /* and go around again */
         } else if (yy && ypos == 4) {
@@ -180,7 +161,7 @@ translate_lujvo(char *word)
           strncpy(buf+1,w,4);
           buf[5] = 0;
           trans = translate_comp(buf, &conversion);
-          append_trans(trans, result, !result[0]);
+          result = append_trans(trans, result, !result[0]);
           w += 5; /* and go around again */
 
         } else {
@@ -194,7 +175,7 @@ translate_lujvo(char *word)
             strncpy(buf+1,w,4);
             buf[5] = 0;
             trans = translate_comp(buf, &conversion);
-            append_trans(trans, result, !result[0]);
+            result = append_trans(trans, result, !result[0]);
 
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[3]) &&
@@ -219,7 +200,7 @@ translate_lujvo(char *word)
               strncpy(buf+1,w,3);
               buf[4] = 0;
               trans = translate_comp(buf, &conversion);
-              append_trans(trans, result, !result[0]);
+              result = append_trans(trans, result, !result[0]);
             }
             if (strchr("aeiou", w[1]) &&
                 strchr("aeiou", w[2]) &&
@@ -267,10 +248,9 @@ is_consonant_not_r(char c)
 char *
 translate_unknown(char *w)
 {
-  static char buf[65536];
+  static char *buf = NULL;
   int len, i;
   int hyph;
-  char *p, *q;
   char *ltrans;
 
   /* See whether the word is a fuivla.  If so, lookup the leading
@@ -305,15 +285,15 @@ translate_unknown(char *w)
   }
 
   if (hyph) {
-    for (p=w, q=buf, i=0; i<hyph; p++, q++, i++) {
-      *q = *p;
-    }
-    *q = 0;
+    free(buf);
+    buf = new_string(w);
+    buf[hyph] = 0;
     ltrans = translate_lujvo(buf);
-    strcpy(buf, ltrans);
-    strcat(buf, "-[");
-    strcat(buf, w + hyph + 1);
-    strcat(buf, "]");
+    free(buf);
+    buf = new_string(ltrans);
+    buf = extend_string(buf, "-[");
+    buf = extend_string(buf, w + hyph + 1);
+    buf = extend_string(buf, "]");
     return buf;
   } else {
     /* Need to try for a stage 4 fuivla */
-- 
2.43.0


From b2a94daeac9619c525adba446eff98d5b3216a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 43/56] fix: -w as the last argument crashed

---
 cm_main.c | 4 ++++
 main.c    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/cm_main.c b/cm_main.c
index e929ab0..83295a6 100644
--- a/cm_main.c
+++ b/cm_main.c
@@ -40,6 +40,10 @@ main (int argc, char **argv)
 #endif 
     } else if (!strcmp(*argv, "-w")) {
       ++argv, --argc;
+      if (!argc) {
+        fprintf(stderr, "The -w option needs a width\n");
+        exit(1);
+      }
       width = atoi(*argv);
     } else if (!strcmp(*argv, "-v")) {
       fprintf(stderr, "cmafihe version %s\n", version_string);
diff --git a/main.c b/main.c
index 0ab9ae2..db24b13 100644
--- a/main.c
+++ b/main.c
@@ -211,6 +211,10 @@ main (int argc, char **argv)
       } else {
         /* Get next argument */
         --argc, ++argv;
+        if (!argc) {
+          fprintf(stderr, "The -w option needs a width\n");
+          exit(1);
+        }
         opt_output_width = atoi(*argv);
       }
     } else if (!strcmp(*argv, "--help")) {
-- 
2.43.0


From b83e4e268a6b0e0ba2af240df1e5084af65ce3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 44/56] fix: words of more than 1000 letters overran buffers

---
 lex1.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/lex1.c b/lex1.c
index 70cd2d3..7d544b6 100644
--- a/lex1.c
+++ b/lex1.c
@@ -18,9 +18,12 @@
 #include "morf.h"
 #include "bccheck.h"
 
+/* Longer words are refused, except inside zoi and la'o quotations. */
+#define MAX_WORD 1000
+
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[65536]; /* as long as the word buffer */
+static char zoi_delim[MAX_WORD+1];
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
@@ -247,7 +250,7 @@ process_cmene(char *buf, int start_line, int start_column,
   TreeNode *tok;
 
   if (is_bad)  {
-    char prefix[65536], labuf[8];
+    char prefix[MAX_WORD+1], labuf[MAX_WORD+1];
     char *p, *q;
     int len1, len2;
     for (p=buf, q=prefix, len1=0; p!=ladoi; len1++) *q++ = *p++;
@@ -278,7 +281,7 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
   char **pw;
   char *p, *q;
   int incr;
-  char buf2[65536];
+  char buf2[MAX_WORD+1];
   for (pw=pws; pw<pwe; pw++) {
     incr = 0;
     for (p=*pw, q=buf2; p<*(pw+1);) {
@@ -303,13 +306,20 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
 static int
 process_word(char *buf, int start_line, int start_column)
 {
-  char buf2[65536];
-  char *word_starts[65536];
+  char buf2[MAX_WORD+1];
+  char *word_starts[MAX_WORD+1];
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
   int column, incr;
 
+  if (!zoi_data && strlen(buf) > MAX_WORD) {
+    fprintf(stderr, "Word of more than %d characters at line %d column %d\n",
+            MAX_WORD, start_line, start_column);
+    had_bad_tokens = 1;
+    return 1;
+  }
+
   if (take_zoi(buf, start_line, start_column)) return 1;
 
   /* Analyse word type */
@@ -398,7 +408,8 @@ process_word(char *buf, int start_line, int start_column)
 void
 parse_file(FILE *f)
 {
-  char buffer[65536]; /* buffer for words */
+  static char *buffer = NULL; /* buffer for words */
+  static int buffer_size = 0;
   char *p;
   int c;
   int line;
@@ -415,6 +426,11 @@ parse_file(FILE *f)
   column = 0;
   new_tok = 1;
 
+  if (!buffer) {
+    buffer_size = 2 * MAX_WORD;
+    buffer = new_array(char, buffer_size);
+  }
+
   p = buffer;
   do {
     c = fgetc(f);
@@ -470,6 +486,11 @@ parse_file(FILE *f)
             break;
           default:
             SET_START;
+            if (p + 1 == buffer + buffer_size) {
+              buffer_size *= 2;
+              buffer = grow_array(char, buffer_size, buffer);
+              p = buffer + buffer_size / 2 - 1;
+            }
             *p++ = c;
             break;
         }
-- 
2.43.0


From 7acf08f81526fca1493e23e52e9042d59fbab17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 45/56] fix: glossing a lujvo of more than 20 parts overran
 buffers or the stack

---
 translate.c | 99 ++++++++++++++++++++++++++---------------------------
 1 file changed, 49 insertions(+), 50 deletions(-)

diff --git a/translate.c b/translate.c
index 6a8915c..41969d1 100644
--- a/translate.c
+++ b/translate.c
@@ -30,13 +30,13 @@ static int bufptr=0;
 typedef struct Component {/*{{{*/
   int start; /* 0 for 1st, pos of + for others (before conversions) */
   int pure_start; /* likewise, but just the gismu/cmavo excl conversions) */
-  char text[6];
+  char *text;
   int places[6];
 } Component;/*}}}*/
 
 /*{{{ Forward prototype for place/context translater. */
 extern char *adv_translate(char *w, int place, TransContext ctx);
-static void split_into_comps(char *canon, Component *comp, int *ncomp);
+static Component *split_into_comps(char *canon, int *ncomp);
 /*}}}*/
 
 char * translate(char *word)/*{{{*/
@@ -58,7 +58,7 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 /* Lookup a lujvo that isn't matched in the ordinary dictionary, by
    smashing it into consituent rafsi and glueing these together. */
 {
-  Component comp[32];
+  Component *comp;
   int ncomp;
   char *canon;
   char *result;
@@ -69,23 +69,18 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
   canon = canon_lujvo(word);
   if (!canon) return "?";
   
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
   if (ncomp < 2) {
     /* Prevent infinite recursion */
     return NULL;
   }
-  result = GETBUF();
-  result[0] = 0;
+  result = new_string("");
   for (i=0; i<ncomp; i++) {
     int last = (i == (ncomp - 1));
     xplace = comp[i].places[last ? place : 1];
     trans = adv_translate(comp[i].text, xplace, last ? TCX_NOUN : TCX_QUAL);
-    if (i > 0) { strcat(result, "-"); }
-    if (trans) {
-      strcat(result, trans);
-    } else {
-      strcat(result, "?");
-    }
+    if (i > 0) { result = extend_string(result, "-"); }
+    result = extend_string(result, trans ? trans : "?");
   }
 
   return result;
@@ -94,14 +89,15 @@ static char * translate_lujvo(char *word, int place)/*{{{*/
 char * translate_fuivla_prefix(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *canon;
-  Component comp[32];
+  Component *comp;
   int n_comps;
   static char buffer[65536];
   char *trans;
   int i;
 
   canon = canon_lujvo(w);
-  split_into_comps(canon, comp, &n_comps);
+  if (!canon) return NULL;
+  comp = split_into_comps(canon, &n_comps);
   buffer[0] = 0;
   for (i=0; i<n_comps; i++) {
     int first = (i == 0);
@@ -128,7 +124,7 @@ char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
   char *ltrans;
   MorfType morf_type;
   struct morf_xtra xtra;
-  char *word_starts[64], **pws, **pwe;
+  char **word_starts, **pws, **pwe;
 
   if (strchr(w, '+')) {
     /* If word has already been 'canonicalised', the lujvo translator
@@ -136,6 +132,7 @@ char * translate_unknown(char *w, int place, TransContext ctx)/*{{{*/
     return translate_lujvo(w, place);
   }
 
+  word_starts = new_array(char *, strlen(w) + 1);
   pws = pwe = word_starts;
 
   morf_type = morf_scan(w, &pwe, &xtra);
@@ -703,11 +700,12 @@ char * fix_trans_in_context(char *src, char *trans, TransContext ctx, char *w1n,
 }/*}}}*/
 static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
 {
-  char *result = GETBUF();
-  char *p, *q, *r;
+  char *result = new_string("");
+  char *p;
   char *localtrans;
-  q = result;
-  p = trans;
+  char single[2] = " ";
+  /* The recursion may need the buffer of the pattern */
+  p = new_string(trans);
   while (*p) {
     if (*p == '%') {
       int place = *++p - '0';
@@ -726,32 +724,31 @@ static char * subst_base_in_pattern(char *trans, char *base)/*{{{*/
           break;
       }
       localtrans = adv_translate(base, place, ctx);
-      r = localtrans;
-      while (*r) {
-        *q++ = *r++;
-      }
+      result = extend_string(result, localtrans);
       ++p; /* onto the char beyond the context symbol */
     } else {
-      *q++ = *p++;
+      single[0] = *p++;
+      result = extend_string(result, single);
     }
   }
-  *q = 0;
   return result;
 }/*}}}*/
-static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
+static Component *split_into_comps(char *canon, int *ncomp)/*{{{*/
 /*
-  Take a string a+b+c and split it into an array of components separated by +
+  Take a string a+b+c and split it into a new array of components separated by +
   signs.  If any components are se, te etc, bind them as place exchanges to the
   following component.
   */
 {
   int i;
   int nc = 0;
-  char buffer[65536];
+  char *buffer;
   char *p, *q;
   int place = 0;
+  Component *comp;
 
-  strcpy(buffer, canon);
+  buffer = new_string(canon);
+  comp = new_array(Component, strlen(canon) + 1);
   p = buffer;
   while (*p) p++;
   while (p > buffer) {
@@ -762,7 +759,7 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
     else if (!strcmp(q, "te")) { place = 3; }
     else if (!strcmp(q, "ve")) { place = 4; }
     else if (!strcmp(q, "xe")) { place = 5; }
-    if (place > 0) {
+    if (place > 0 && nc > 0) {
       int t = comp[0].places[1];
       comp[0].places[1] = comp[0].places[place];
       comp[0].places[place] = t;
@@ -776,19 +773,20 @@ static void split_into_comps(char *canon, Component *comp, int *ncomp)/*{{{*/
       }
       nc++;
       comp[0].pure_start = comp[0].start = (p - buffer);
-      strcpy(comp[0].text, q);
+      comp[0].text = q;
     }
-    *p = 0;
+    if (p > buffer) *p = 0;
   }
 
   *ncomp = nc;
+  return comp;
 
 }/*}}}*/
 static char * lookup_template_match(int prec, int suffix, int gather, char *orig, Component *comp, int ncomp, int place, TransContext ctx)/*{{{*/
 {
-  char generic[65536]; /* the part that's found in the LHS of the dictionary pattern match */
-  char specific[65536]; /* the other part of the string */
-  char buffer[65536];
+  char *generic; /* the part that's found in the LHS of the dictionary pattern match */
+  char *specific; /* the other part of the string */
+  char *buffer;
   int cutg, cuts;
   int new_place;
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
@@ -796,6 +794,10 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
   int got_full_trans;
   char * subst;
 
+  generic = new_array(char, strlen(orig) + 1);
+  specific = new_array(char, strlen(orig) + 1);
+  buffer = new_array(char, strlen(orig) + 32);
+
   if (suffix) {
     cutg = comp[ncomp-gather].pure_start;
     cuts = comp[ncomp-gather].start;
@@ -835,12 +837,11 @@ static char * lookup_template_match(int prec, int suffix, int gather, char *orig
       if (got_full_trans) {
         return subst;
       } else {
-        char buffer1[65536], *trans1, w1n[65536];
+        char *buffer1, *trans1;
+        buffer1 = new_array(char, strlen(generic) + 32);
         sprintf(buffer1, "*%1d%s%1dn", prec, generic, new_place);
         trans1 = translate(buffer1);
-        if (trans1) { strcpy(w1n, trans1); }
-        else { w1n[0] = 0; }
-        return fix_trans_in_context(buffer, subst, ctx, w1n, got_full_trans);
+        return fix_trans_in_context(buffer, subst, ctx, trans1 ? trans1 : "", got_full_trans);
       }
     }
   } else {
@@ -856,7 +857,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   char *canon;
   char *trans;
 
-  Component comp[32];
+  Component *comp;
   int ncomp;
 
   canon = canon_lujvo(w);
@@ -868,7 +869,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
   if (!strchr(canon, '+')) return NULL;
 
   /* Split components into array. Work from the right. */
-  split_into_comps(canon, comp, &ncomp);
+  comp = split_into_comps(canon, &ncomp);
 
 #if 0
   {
@@ -918,8 +919,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
 {
   char *trans, *trans1;
-  char w1n[65536];
-  char buffer[65536], buffer1[65536];
+  char *buffer, *buffer1;
   static char result[65536];
   char ctx_suffix[4] = "nvqt";
   char *ctx_suf_as_string[4] = {"n", "v", "q", "t"};
@@ -934,6 +934,9 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
     ctx = TCX_VERB;
   }
 
+  buffer = new_array(char, strlen(w) + 32);
+  buffer1 = new_array(char, strlen(w) + 32);
+
   /* Try looking up the explicit gloss asked for */
   sprintf(buffer, "%s%1d%c", w, place, ctx_suffix[ctx]);
   trans = translate(buffer);
@@ -949,6 +952,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       /* It may be another form of a lujvo in the dictionary */
       char *canon = canon_lujvo(w);
       if (canon && strchr(canon, '+') && !strchr(canon, '?')) {
+        buffer = new_array(char, strlen(canon) + 32);
         sprintf(buffer, "%s%1d", canon, place);
         trans = translate(buffer);
       }
@@ -968,7 +972,7 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
     if (trans[0] == '@') {
       char *p, *q;
       int pos;
-      p = buffer;
+      p = buffer = new_string(trans);
       q = trans+1;
       while (isalpha(*q) || *q == '\'') {
         *p++ = *q++;
@@ -989,13 +993,8 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
 
     sprintf(buffer1, "%s%1dn", w, place);
     trans1 = translate(buffer1);
-    if (trans1) {
-      strcpy(w1n, trans1);
-    } else {
-      w1n[0] = 0;
-    }
 
-    strcpy(result, fix_trans_in_context(buffer, trans, ctx, w1n, found_full_trans));
+    strcpy(result, fix_trans_in_context(buffer, trans, ctx, trans1 ? trans1 : "", found_full_trans));
 
     return result;
 
-- 
2.43.0


From d2bfc246a355c3519f8a4f71f856b4a2a856aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 46/56] fix: long words and compounds overran the output
 buffers, and nesting 40 levels deep the stack

---
 output.c | 157 ++++++++++++++++++++++++++++++++++++++-----------------
 tree.c   |   2 +-
 2 files changed, 109 insertions(+), 50 deletions(-)

diff --git a/output.c b/output.c
index 6ffca2c..ac0d534 100644
--- a/output.c
+++ b/output.c
@@ -294,7 +294,7 @@ static void translate_koha (TreeNode *x, char *eng)/*{{{*/
   }
 }
 /*}}}*/
-static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
+static char * get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 {
   struct nonterm *nt;
   int i, n;
@@ -307,7 +307,7 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
     n = nt->nchildren;
     for (i=0; i<n; i++) {
       c = nt->children[i];
-      get_cmavo_text_inside_node_internal(c, sofar);
+      sofar = get_cmavo_text_inside_node_internal(c, sofar);
     }
   } else if (x->type == N_CMAVO) {
     selmao = x->data.cmavo.selmao;
@@ -321,25 +321,22 @@ static void get_cmavo_text_inside_node_internal(TreeNode *x, char *sofar)/*{{{*/
 
       default:
         t = cmavo_table[x->data.cmavo.code].cmavo;
-        strcat(sofar, t);
+        sofar = extend_string(sofar, t);
         break;
     }
 
   } else if (x->type == N_BU) {
-    strcat(sofar, x->data.bu.word);
+    sofar = extend_string(sofar, x->data.bu.word);
   
   }
 
-  return;
+  return sofar;
 
 }
 /*}}}*/
 static char * get_cmavo_text_inside_node(TreeNode *x)/*{{{*/
 {
-  static char buffer[1024];
-  buffer[0] = 0;
-  get_cmavo_text_inside_node_internal(x, buffer);
-  return buffer;
+  return get_cmavo_text_inside_node_internal(x, new_string(""));
 }
 /*}}}*/
 static void translate_other_cmavo (TreeNode *x, char *eng)/*{{{*/
@@ -719,8 +716,54 @@ static void attempt_translation(char *loj, char *eng)/*{{{*/
   }
 }
 /*}}}*/
-static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/*{{{*/
+static char * make_room(char *buffer, int *size, int need)/*{{{*/
+{
+  /* Return a buffer of at least the size needed */
+  if (need > *size) {
+    *size = 2 * need;
+    buffer = grow_array(char, *size, buffer);
+  }
+  return buffer;
+}
+/*}}}*/
+static void get_lojban_word_and_translation (TreeNode *x, char **lojp, char **engp)/*{{{*/
 {
+  /* The results are overwritten by the next call */
+  static char *loj = NULL, *eng = NULL;
+  static int loj_size = 0, eng_size = 0;
+  int need;
+
+  switch (x->type) {
+    case N_ZOI:
+      need = strlen(x->data.zoi.form) + 2*strlen(x->data.zoi.term) + strlen(x->data.zoi.text);
+      break;
+    case N_ZO:
+      need = strlen(x->data.zo.text);
+      break;
+    case N_ZEI:
+      need = strlen(x->data.zei.sep_with_zei);
+      break;
+    case N_LOhU:
+      need = strlen(x->data.lohu.text);
+      break;
+    case N_BU:
+      need = strlen(x->data.bu.word);
+      break;
+    case N_BRIVLA:
+      need = strlen(x->data.brivla.word);
+      break;
+    case N_CMENE:
+      need = strlen(x->data.cmene.word);
+      break;
+    default:
+      need = 0;
+      break;
+  }
+  *lojp = loj = make_room(loj, &loj_size, need + 64);
+
+  /* No single translation is longer than the buffers in translate.c */
+  *engp = eng = make_room(eng, &eng_size, 65536 + 64);
+  loj[0] = eng[0] = 0;
 
   switch (x->type) {
     
@@ -781,10 +824,10 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
       
     case N_ZO:
       {
-        char buffer[1024];
         sprintf(loj, "zo %s", x->data.zo.text);
-        attempt_translation(x->data.zo.text, buffer);
-        sprintf(eng, "\"%s\"", buffer);
+        strcpy(eng, "\"");
+        attempt_translation(x->data.zo.text, eng + 1);
+        strcat(eng, "\"");
       }
       break;
 
@@ -800,22 +843,29 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
 
         strcpy(loj, x->data.zei.sep_with_zei);
 
-        trans = translate_convertible(x->data.zei.sep_with_plus, x);
+        /* A compound of this many letters isn't in any dictionary */
+        if (strlen(x->data.zei.sep_with_plus) > 1000) {
+          trans = NULL;
+        } else {
+          trans = translate_convertible(x->data.zei.sep_with_plus, x);
+        }
 
         if (trans && trans[0] != '?') {
           strcpy(eng, trans);
         } else {
           /* A word at a time */
-          eng[0] = 0;
+          char *all = new_string("");
           for (i=0; i<N; i++) {
             char *temp;
-            if (i > 0) strcat(eng, " type-of ");
+            if (i > 0) all = extend_string(all, " type-of ");
             temp = build_string_from_node(x->data.zei.children[i]);
             trans = translate(temp);
             Free(temp);
-            if (trans) strcat(eng, trans);
-            else       strcat(eng, "?");
+            all = extend_string(all, trans ? trans : "?");
           }
+          *engp = eng = make_room(eng, &eng_size, strlen(all) + 1);
+          strcpy(eng, all);
+          Free(all);
         }
         
       }
@@ -847,6 +897,17 @@ static void get_lojban_word_and_translation (TreeNode *x, char *loj, char *eng)/
 
 }
 /*}}}*/
+static void put_number(char *result, char *format, int number)/*{{{*/
+{
+  /* Copy a translation, with the number in place of its (only) %d */
+  char *p = strstr(format, "%d");
+  if (p) {
+    sprintf(result, "%.*s%d%s", (int)(p - format), format, number, p + 2);
+  } else {
+    strcpy(result, format);
+  }
+}
+/*}}}*/
 static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
 {
   XTermTags *xtt;
@@ -875,7 +936,7 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
             break;/*}}}*/
           case TTT_JAITAG:/*{{{*/
             {
-              char transbuf[1024];
+              char transbuf[32];
               (drv->start_tag)();
               (drv->write_partial_tag_text)("jai+<tag>1: (");
               output_internal(tag->jaitag.tag, SHOW_TAG_TRANS);
@@ -906,17 +967,19 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
           case TTT_ME:/*{{{*/
             {
-              char *trans, transbuf[1024];
+              char *trans;
+              static char transbuf[65536 + 64];
               (drv->start_tag)();
               trans = adv_translate("me", tag->pos, TCX_TAG);
-              sprintf(transbuf, trans, tag->me.sumti->data.nonterm.number);
+              put_number(transbuf, trans, tag->me.sumti->data.nonterm.number);
               sprintf(tp, "%d..", tag->pos);
               (drv->write_tag_text)("me", tp, transbuf, YES);
             }
           break;/*}}}*/
           case TTT_NUMBERMOI:/*{{{*/
             {
-              char *trans, lojbuf[1024], transbuf[1024];
+              char *trans, lojbuf[64];
+              static char transbuf[65536 + 64];
               int code;
               int norl_code;
               char *cmavo;
@@ -926,7 +989,7 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
               (drv->start_tag)();
               trans = adv_translate(cmavo, tag->pos, TCX_TAG);
               if (trans) {
-                sprintf(transbuf, trans, norl_code);
+                put_number(transbuf, trans, norl_code);
               } else {
                 transbuf[0] = 0;
               }
@@ -966,7 +1029,8 @@ static void output_term(TreeNode *x, WhatToShow what)/*{{{*/
               char lojbuf[32];
               number = tag->zei.zei->data.zei.number;
               sprintf(lojbuf, "#%d-%d", number, tag->pos);
-              trans = adv_translate(tag->zei.zei->data.zei.sep_with_plus, tag->pos, TCX_TAG);
+              trans = (strlen(tag->zei.zei->data.zei.sep_with_plus) > 1000) ? NULL :
+                adv_translate(tag->zei.zei->data.zei.sep_with_plus, tag->pos, TCX_TAG);
               if (!trans) trans = "?";
               (drv->start_tag)();
               (drv->write_tag_text)(lojbuf, "", trans, YES);
@@ -1193,8 +1257,7 @@ static void output_fore_or_afterthought(TreeNode *x, WhatToShow what)/*{{{*/
 static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 {
   char *cluster, *trans;
-  char localtrans[65536];
-  char lojbuf[65536], lojbuf2[65536];
+  char *lojbuf;
   int i, n;
   TreeNode *c;
   struct nonterm *nt;
@@ -1203,8 +1266,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   ctx = prop_tense_ctx(x, NO);
 
   cluster = get_cmavo_text_inside_node(x);
-  strcpy(lojbuf, cluster);
-  strcpy(lojbuf2, cluster);
+  lojbuf = new_string(cluster);
 
   /* May eventually want context dependence here since many of the
      cases are tag/tense sorts of thing */
@@ -1226,22 +1288,22 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
       case TSC_OTHER:
         break;
       case TSC_TERM:
-        strcat(lojbuf, "@TERM");
+        lojbuf = extend_string(lojbuf, "@TERM");
         break;
       case TSC_NOUN:
-        strcat(lojbuf, "@NOUN");
+        lojbuf = extend_string(lojbuf, "@NOUN");
         break;
       case TSC_SELBRI:
-        strcat(lojbuf, "@SELBRI");
+        lojbuf = extend_string(lojbuf, "@SELBRI");
         break;
       case TSC_LINK:
-        strcat(lojbuf, "@LINK");
+        lojbuf = extend_string(lojbuf, "@LINK");
         break;
       case TSC_CONNECT:
-        strcat(lojbuf, "@CONNECT");
+        lojbuf = extend_string(lojbuf, "@CONNECT");
         break;
       case TSC_JAITAG:
-        strcat(lojbuf, "@JAI");
+        lojbuf = extend_string(lojbuf, "@JAI");
         break;
     }
   }
@@ -1250,11 +1312,12 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
   if (!trans) {
     /* If no form with the @SELBRI etc tacked on, try to translate
        just the plain cluster without the contextual information added */
-    trans = translate(lojbuf2);
+    trans = translate(cluster);
   }
 
   if (trans) {
-    strcpy(localtrans, trans);
+    /* The children may need the buffer of the translation */
+    trans = new_string(trans);
     if ((what == SHOW_LOJBAN) ||
         (what == SHOW_LOJBAN_AND_INDICATORS) ||
         (what == SHOW_BOTH)) {
@@ -1268,7 +1331,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
     
     if ((what == SHOW_ENGLISH) ||
         (what == SHOW_BOTH)) {
-      (drv->translation)(localtrans);
+      (drv->translation)(trans);
     }
 
   } else {
@@ -1283,7 +1346,7 @@ static void output_clustered(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
 static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 {
-  char loj[1024], eng[1024];
+  char *loj, *eng;
   int i, n;
 
   if (x->type == N_NONTERM) {/*{{{*/
@@ -1409,7 +1472,7 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
     }
 
     /* FIXME : Need to do lojban word and translation stuff here. */
-    get_lojban_word_and_translation(x, loj, eng);
+    get_lojban_word_and_translation(x, &loj, &eng);
     switch (what) {
       case SHOW_LOJBAN:
       case SHOW_LOJBAN_AND_INDICATORS:
@@ -1446,17 +1509,13 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
 /*}}}*/
   } else {/*{{{*/
     /* Terminal token */
-    char lojbuf[1024];
-
-    lojbuf[0] = 0;
+    char *lojbuf;
 
-    get_lojban_word_and_translation(x, loj, eng);
-    if (strchr("aeiou", loj[0])) {
-      strcat(lojbuf, ".");
-    }
-    strcat(lojbuf, loj);
+    get_lojban_word_and_translation(x, &loj, &eng);
+    lojbuf = new_string((loj[0] && strchr("aeiou", loj[0])) ? "." : "");
+    lojbuf = extend_string(lojbuf, loj);
     if (x->type == N_CMENE) {
-      strcat(lojbuf, ".");
+      lojbuf = extend_string(lojbuf, ".");
     }
 
     switch (what) {
@@ -1503,7 +1562,7 @@ static void output_internal(TreeNode *x, WhatToShow what)/*{{{*/
         break;
     }
 
-
+    Free(lojbuf);
   }
 /*}}}*/
 }
diff --git a/tree.c b/tree.c
index c6e3e63..801e676 100644
--- a/tree.c
+++ b/tree.c
@@ -311,7 +311,7 @@ print_bracketed(TreeNode *x, int depth, State *state, Conversion conv)
   TreeNode *c1, *c2;
   Conversion child_conv;
   char *english;
-  char buffer[65536];
+  static char buffer[65536];
 
   if (x->type == N_NONTERM) {
     clear_eols(state);
-- 
2.43.0


From 4745103898a289c07d4a597175da8bb2368719a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 47/56] fix: the list of reductions overflowed after 1024
 reductions of one token

---
 tracebk.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tracebk.c b/tracebk.c
index 3a8a022..8338357 100644
--- a/tracebk.c
+++ b/tracebk.c
@@ -17,8 +17,8 @@ typedef struct {
   int rule;
 } Reduction;
 
-static Reduction reductions[1024];
-static int n_reductions=0;
+static Reduction *reductions=NULL;
+static int n_reductions=0, max_reductions=0;
 
 /* command line options in main.c */
 extern int show_backtrace;
@@ -52,6 +52,10 @@ display_rule(int ruleno, int indent, int focus)
 void
 report_trace_reduce(int stateno, int ruleno)
 {
+  if (n_reductions == max_reductions) {
+    max_reductions += 1024;
+    reductions = grow_array(Reduction, max_reductions, reductions);
+  }
   reductions[n_reductions].rule = ruleno;
   reductions[n_reductions].state = stateno;
   n_reductions++;
-- 
2.43.0


From bc29a43a04008fccdec8de872109fabcf7d5f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 48/56] fix: whether a gloss is in a selbri was read
 uninitialised

---
 properties.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/properties.c b/properties.c
index 72eb283..48ad6dc 100644
--- a/properties.c
+++ b/properties.c
@@ -145,6 +145,7 @@ prop_glosstype(TreeNode *x, int create)
   result = (XGlosstype *) fetch_conversion(x, NO, EX_GLOSSTYPE);
   if (!result && create) {
     result = (XGlosstype *) fetch_conversion(x, YES, EX_GLOSSTYPE);
+    result->in_selbri = 0;
     result->is_tertau = 0;
   }
 
-- 
2.43.0


From 8e9b6966d95d8749a51ee570119f3b345761c7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 49/56] fix: a damaged or empty dictionary file crashed jbofihe
 and cmafihe

---
 dictaccs.c | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/dictaccs.c b/dictaccs.c
index f2caff0..c1856f3 100644
--- a/dictaccs.c
+++ b/dictaccs.c
@@ -70,11 +70,13 @@ get_long(FILE *in)
 /*++++++++++++++++++++++++++++++++++++++
   Read the database to build the transaction list.
 
+  Return 0 if the file is not a (complete) dictionary.
+
   FILE *in
   ++++++++++++++++++++++++++++++++++++++*/
 
 
-static void
+static int
 read_database(FILE *in)
 {
   typedef struct {
@@ -86,26 +88,37 @@ read_database(FILE *in)
   int i, len;
 
   struct stat sb;
-  off_t offset;
+  off_t offset, total;
   char *dict_base = NULL;
 
+  if (fstat(fileno(in), &sb) < 0) {
+    fprintf(stderr, "Could not stat the dictionary file\n");
+    exit(1);
+  }
+
   n_entries = get_long(in);
+  /* Each entry takes at least 4 bytes: 2 lengths and 2 terminators */
+  if (n_entries < 0 || sb.st_size < 4 || n_entries > (sb.st_size - 4) / 4) {
+    return 0;
+  }
+
   entries = new_array(Entry, n_entries);
   dict = new_array(Keyval, n_entries);
 
+  total = 0;
   for (i=0; i<n_entries; i++) {
     len = getc(in);
     entries[i].klen = len;
+    total += len + 1;
     len = getc(in);
     entries[i].vlen = len;
-  }
-
-  if (fstat(fileno(in), &sb) < 0) {
-    fprintf(stderr, "Could not stat the dictionary file\n");
-    exit(1);
+    total += len + 1;
   }
 
   offset = ftell(in);
+  if (total > sb.st_size - offset) {
+    return 0;
+  }
 
 #ifdef HAVE_MMAP
 
@@ -145,9 +158,13 @@ read_database(FILE *in)
       dict[i].key = dict[i-1].val + entries[i-1].vlen + 1; /* Allow for null termination */
     }
     dict[i].val = dict[i].key + entries[i].klen + 1; /* Allow for null termination */
+    if (dict[i].key[entries[i].klen] || dict[i].val[entries[i].vlen]) {
+      return 0;
+    }
   }
 
   Free(entries);
+  return 1;
 }
 
 /* ================================================== */
@@ -168,7 +185,10 @@ init(void)
     if (!in) {
       inited = -1;
     } else {
-      read_database(in);
+      if (!read_database(in)) {
+        fprintf(stderr, "Dictionary %s is damaged, doing without it\n", dname);
+        inited = -1;
+      }
       fclose(in);
     }
   }
-- 
2.43.0


From 8ab0756d63a229c057a51dbd7d58cae24de9ba35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 50/56] fix: circular redirections in a dictionary recursed
 until the stack overflowed

---
 translate.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/translate.c b/translate.c
index 41969d1..54eb7fb 100644
--- a/translate.c
+++ b/translate.c
@@ -979,16 +979,22 @@ char * adv_translate(char *w, int place, TransContext ctx)/*{{{*/
       }
       *p = 0;
       if (isdigit(*q)) {
+        static int n_redirections = 0;
         pos = *q - '0';
-        return adv_translate(buffer, pos, ctx);
+        if (n_redirections < 64) {
+          n_redirections++;
+          trans = adv_translate(buffer, pos, ctx);
+          n_redirections--;
+          return trans;
+        } else if (show_dictionary_defects) {
+          fprintf(stderr, "Circular dictionary entry for place %d of %s\n", place, w);
+        }
       } else {
         if (show_dictionary_defects) {
           fprintf(stderr, "Error in dictionary entry for place %d of %s\n", place, w);
         }
-        return "??";
       }
-
-      /* Never get here */
+      return "??";
     }
 
     sprintf(buffer1, "%s%1dn", w, place);
-- 
2.43.0


From d11ad01edba2e42a4951576858df71692d59cc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:23 +0000
Subject: [PATCH 51/56] fix: dfasyn crashed on a source without states, a block
 that contains itself, names over 1000 letters, a circular symbol, or -o
 without a name

---
 dfasyn/expr.c | 12 +++++++++++-
 dfasyn/n2d.c  | 51 +++++++++++++++++++++++++++++++++------------------
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/dfasyn/expr.c b/dfasyn/expr.c
index cdc27a3..e02fdb0 100644
--- a/dfasyn/expr.c
+++ b/dfasyn/expr.c
@@ -35,6 +35,7 @@ struct Expr {
 struct Symbol {
   char *name;
   int is_expr;
+  int in_eval; /* Set whilst the expression is being evaluated */
   union {
     Expr *e;
     int val;
@@ -213,6 +214,7 @@ static Symbol *  find_symbol_or_create(Evaluator *x, char *sym_name)/*{{{*/
   s = new(Symbol);
   add_new_symbol(x,s);
   s->is_expr = 0; /* Until proven otherwise */
+  s->in_eval = 0;
   s->name = new_string(sym_name);
   s->data.val = 0;
   return s;
@@ -334,7 +336,15 @@ static int eval(Evaluator *x, Expr *e)/*{{{*/
           e->data.symbol.s = s = find_symbol_or_create(x, e->data.symbol.name);
         }
         if (s->is_expr) {
-          return eval(x, s->data.e);
+          int result;
+          if (s->in_eval) {
+            fprintf(stderr, "Symbol '%s' is defined in terms of itself\n", s->name);
+            exit(2);
+          }
+          s->in_eval = 1;
+          result = eval(x, s->data.e);
+          s->in_eval = 0;
+          return result;
         } else {
           return s->data.val;
         }
diff --git a/dfasyn/n2d.c b/dfasyn/n2d.c
index bd39004..fae54d2 100644
--- a/dfasyn/n2d.c
+++ b/dfasyn/n2d.c
@@ -486,6 +486,13 @@ InlineBlockList *add_inline_block(InlineBlockList *existing, InlineBlock *nib)/*
   return result;
 }
 /*}}}*/
+static char * dotted(char *block_name, char *state_name)/*{{{*/
+{
+  char *result = malloc(strlen(block_name) + strlen(state_name) + 2);
+  sprintf(result, "%s.%s", block_name, state_name);
+  return result;
+}
+/*}}}*/
 State * add_inline_block_transitions(Block *curblock, State *addtostate, InlineBlockList *ibl)/*{{{*/
 {
   char result_name[1024];
@@ -497,21 +504,18 @@ State * add_inline_block_transitions(Block *curblock, State *addtostate, InlineB
   
   while (ibl) {
     InlineBlock *ib;
-    char block_name[1024];
-    char input_name[1024];
-    char output_name[1024];
+    char *block_name;
     State *output_state;
     
     ib = ibl->ib;
     if (ib) {
+      block_name = malloc(strlen(ib->type) + 32);
       sprintf(block_name, "%s#%d", ib->type, curblock->subblockcount++);
       instantiate_block(curblock, ib->type, block_name);
-      sprintf(input_name, "%s.%s", block_name, ib->in);
-      sprintf(output_name, "%s.%s", block_name, ib->out);
-      output_state = lookup_state(curblock, output_name, CREATE_OR_USE_OLD);
+      output_state = lookup_state(curblock, dotted(block_name, ib->out), CREATE_OR_USE_OLD);
 
       /* Now plumb in the input and output transitions */
-      add_transition(addtostate, NULL, new_string(input_name));
+      add_transition(addtostate, NULL, dotted(block_name, ib->in));
       add_transition(output_state, NULL, new_string(result_name));
     } else {
       /* Epsilon transition between input and output */
@@ -528,28 +532,26 @@ State * add_inline_block_transitions(Block *curblock, State *addtostate, InlineB
 void instantiate_block(Block *curblock, char *block_name, char *instance_name)/*{{{*/
 {
   Block *master = lookup_block(block_name, USE_OLD_MUST_EXIST);
-  char namebuf[1024];
   int i;
+
+  if (master == curblock) {
+    fprintf(stderr, "Block '%s' cannot contain itself\n", block_name);
+    exit(1);
+  }
+
   for (i=0; i<master->nstates; i++) {
     State *s = master->states[i];
     State *new_state;
     Translist *tl;
     Stringlist *sl, *ex;
     
-    strcpy(namebuf, instance_name);
-    strcat(namebuf, ".");
-    strcat(namebuf, s->name);
-    
     /* In perverse circumstances, we might already have a state called this */
-    new_state = lookup_state(curblock, namebuf, CREATE_OR_USE_OLD);
+    new_state = lookup_state(curblock, dotted(instance_name, s->name), CREATE_OR_USE_OLD);
     
     for (tl=s->transitions; tl; tl=tl->next) {
       Translist *new_tl = new(Translist);
       new_tl->token = tl->token;
-      strcpy(namebuf, instance_name);
-      strcat(namebuf, ".");
-      strcat(namebuf, tl->ds_name);
-      new_tl->ds_name = new_string(namebuf);
+      new_tl->ds_name = dotted(instance_name, tl->ds_name);
       new_tl->ds_ref = NULL;
       new_tl->next = new_state->transitions;
       new_state->transitions = new_tl;
@@ -1037,7 +1039,8 @@ static void build_dfa(Block *b, int start_index)/*{{{*/
   while (next_to_do < ndfa) {
 
     int t; /* token index */
-    int j0, j0_5, j1, j, mask, k, m;
+    int j0, j0_5, j1, j, k, m;
+    unsigned long mask;
     int idx;
     unsigned long *current_nfas;
     unsigned long block_bitmap;
@@ -1478,9 +1481,17 @@ int main (int argc, char **argv)
       verbose = 1;
     } else if (!strcmp(*argv, "-o") || !strcmp(*argv, "--output")) {
       ++argv, --argc;
+      if (!argc) {
+        fprintf(stderr, "The %s option needs a file name\n", argv[-1]);
+        exit(1);
+      }
       output_name = *argv;
     } else if (!strcmp(*argv, "-r") || !strcmp(*argv, "--report")) {
       ++argv, --argc;
+      if (!argc) {
+        fprintf(stderr, "The %s option needs a file name\n", argv[-1]);
+        exit(1);
+      }
       report_name = *argv;
     } else if (!strcmp(*argv, "-u") || !strcmp(*argv, "--uncompressed-tables")) {
       uncompressed_tables = 1;
@@ -1541,6 +1552,10 @@ int main (int argc, char **argv)
   if (verbose) fprintf(stderr, "\n");
 
   start_state = get_curstate(); /* The last state to be current in the input file is the entry state of the NFA */
+  if (!start_state) {
+    fprintf(stderr, "No states are defined\n");
+    exit(1);
+  }
   main_block = start_state->parent;
   if (verbose) fprintf(stderr, "Computing epsilon closure...\n");
   generate_epsilon_closure(main_block);
-- 
2.43.0


From ef31683378abf7bb4d41b1dfdfcf94446a58739b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:02 +0000
Subject: [PATCH 52/56] fix: glossing a lujvo of zi'o and one more part looked
 beyond its parts

---
 translate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/translate.c b/translate.c
index 54eb7fb..c31f54a 100644
--- a/translate.c
+++ b/translate.c
@@ -898,7 +898,7 @@ static char * attempt_pattern_match(char *w, int place, TransContext ctx)/*{{{*/
 
     for (prec = 5; prec >= 0; prec--) {
       for (suffix = 1; suffix >= 0; suffix--) {
-        for (gather = 1; gather <= 2; gather++) {
+        for (gather = 1; gather <= 2 && gather < ncomp; gather++) {
           trans = lookup_template_match(prec, suffix, gather, canon, comp, ncomp, place, ctx);
           if (trans) {
             if (strcmp(trans, "-")) {
-- 
2.43.0


From 02186fe7a2af04e82d724788e177792ec2f635dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:41 +0000
Subject: [PATCH 53/56] fix: smujajgau wrote outside its buffers, or took all
 the memory, when the existing database was damaged or empty

---
 smujajgau.c | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 57fdd7f..0905c14 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -25,6 +25,8 @@
 /* COPYRIGHT */
 
 #include <stdio.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
@@ -366,6 +368,17 @@ write_database(FILE *out)
 }
 
 
+/*++++++++++++++++++++++++++++++++++++++
+  Give up if the existing file is not a (complete) database.
+  ++++++++++++++++++++++++++++++++++++++*/
+
+static void
+database_damaged(void)
+{
+  fprintf(stderr, "The existing database is damaged, not changing it\n");
+  exit(1);
+}
+
 /*++++++++++++++++++++++++++++++++++++++
   Read the database to build the transaction list.
 
@@ -385,20 +398,37 @@ read_database(FILE *in)
   Entry *entries;
   int i, len;
   char key[65536], val[65536];
+  struct stat sb;
+
+  if (fstat(fileno(in), &sb) < 0) {
+    fprintf(stderr, "Could not stat the existing database\n");
+    exit(1);
+  }
+
+  /* Nothing in it yet */
+  if (sb.st_size == 0) return;
 
   n_entries = get_long(in);
+  /* Each entry takes at least 4 bytes: 2 lengths and 2 terminators */
+  if (n_entries < 0 || sb.st_size < 4 || n_entries > (sb.st_size - 4) / 4) {
+    database_damaged();
+  }
+
   entries = new_array(Entry, n_entries);
   for (i=0; i<n_entries; i++) {
-    len = getc(in);
-    entries[i].klen = len;
-    len = getc(in);
-    entries[i].vlen = len;
+    entries[i].klen = getc(in);
+    entries[i].vlen = getc(in);
   }
   for (i=0; i<n_entries; i++) {
-    fread(key, sizeof(char), entries[i].klen + 1, in); /* Read null termination */
-    fread(val, sizeof(char), entries[i].vlen + 1, in); /* Read null termination .. */
-    key[entries[i].klen] = 0; /* ... but set it anyway for safety */
-    val[entries[i].vlen] = 0;
+    /* Read null terminations */
+    len = entries[i].klen + 1;
+    if (len < 1 || fread(key, sizeof(char), len, in) != len || key[len-1]) {
+      database_damaged();
+    }
+    len = entries[i].vlen + 1;
+    if (len < 1 || fread(val, sizeof(char), len, in) != len || val[len-1]) {
+      database_damaged();
+    }
     add_defn(key, val);
   }
 
-- 
2.43.0


From b3ae02a94cabaf729d8d07af872206943c589448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 54/56] fix: after fi, fo or fu before the selbri the sumti
 after it were counted from x2 again

---
 terms.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/terms.c b/terms.c
index 97252b3..19ca55e 100644
--- a/terms.c
+++ b/terms.c
@@ -491,8 +491,9 @@ static void fixup_term_place(TreeNode *x, Place *pl, XTermTag *tt)/*{{{*/
   }
   
 }/*}}}*/
-static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int abase, XTermTag *tt)/*{{{*/
+static int assign_terms_to_places(TermVector *t, Place *place, Place *fai, int abase, XTermTag *tt)/*{{{*/
 {
+  /* Return the place where counting would go on */
   int i, n;
   int base;
   int pos;
@@ -553,6 +554,7 @@ static void assign_terms_to_places(TermVector *t, Place *place, Place *fai, int
     }
   }
 
+  return base;
 }
 /*}}}*/
 static void assign_conversion(LinkConv *lc, TreeNode *convertible)/*{{{*/
@@ -630,7 +632,7 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
 
   Place fai[MAX_POS];
   LinkConvEntry *e;
-  int i;
+  int i, base;
 
   /* Init the place and fai vectors */
   for (i=0; i<MAX_POS; i++) {
@@ -700,8 +702,10 @@ static void assign_places(TermVector *pre, TermVector *post, LinkConv *lc, XTerm
   }
 
   /* Do the pre and post terms */
-  assign_terms_to_places(pre, place, fai, 1, tt);
-  assign_terms_to_places(post, place, fai, 2, tt);
+  base = assign_terms_to_places(pre, place, fai, 1, tt);
+  /* Go on counting after the selbri, but x1 is skipped if it wasn't before it */
+  if (base < 2) base = 2;
+  assign_terms_to_places(post, place, fai, base, tt);
 
 }
 /*}}}*/
-- 
2.43.0


From 9da8071a3789a5eadb95bc0d75d8e22ec436aa89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 55/56] fix: sumti of a selbri with cei were not labelled with
 their places

---
 terms.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/terms.c b/terms.c
index 19ca55e..f93afd8 100644
--- a/terms.c
+++ b/terms.c
@@ -958,13 +958,11 @@ static void process_selbri_6_args(TreeNode *s6, TermVector *pre, TermVector *pos
   if (nch(s6) == 1) {
     tu = child_ref(s6, 0); /* Always first child */
 
-    if (nch(tu) > 1) {
-      fprintf(stderr, "tanru_unit at line %d column %d contains CEI, can't handle this yet\n",
-              tu->start_line, tu->start_column);
-    } else {
-      tu1 = child_ref(tu, 0);
-      process_tanru_unit_1_args(tu1, pre, post, lc);
+    /* With CEI, the first unit is the selbri, the others only get assigned */
+    while (tu1 = child_ref(tu, 0), tu1->data.nonterm.type == TANRU_UNIT) {
+      tu = tu1;
     }
+    process_tanru_unit_1_args(tu1, pre, post, lc);
     
   } else {
     tu = find_nth_child(s6, 1, TANRU_UNIT);
-- 
2.43.0


From e36d3cd4b01353956229dafc8baf6c52a105ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:18 +0000
Subject: [PATCH 56/56] fix: cmafihe did not know the words after a pause
 inside a run of cmavo

---
 cm_gather.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cm_gather.c b/cm_gather.c
index 2092609..c6f120b 100644
--- a/cm_gather.c
+++ b/cm_gather.c
@@ -166,6 +166,11 @@ try_cmavo_fragment(char *lojban, char **transbuf, char* (*transfn)(char *))
   fprintf(stderr, "Start with %s\n", pbuf);
 #endif
   while (*pbuf) {
+    if (*pbuf == '.') {
+      /* Pause before a word inside the run */
+      pbuf++;
+      continue;
+    }
     e = pbuf;
     while (*e) e++;
     while (e > pbuf) {
-- 
2.43.0

