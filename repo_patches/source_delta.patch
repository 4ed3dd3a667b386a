From 063cbce73fd4bde25d4a5b4f66585b727533b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:03 +0000
Subject: [PATCH 01/33] fix: keep syntax error positions non-negative

An error at the start of the input (or right after a newline) left Position
at -1 and SyntaxError.Error panicked making a slice of that length.
---
 v6/pkg/parser/tsl_parser.y  | 3 ++-
 v6/pkg/tsl/tsl_parser.tab.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..e7c5ba0 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -254,7 +254,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    int pos = yycolumn - 2;  // Subtract 2 to account for token start
+    set_error_position(pos < 0 ? 0 : pos);
     if (error_string) {
         free(error_string);
     }
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..8460b2b 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -1779,7 +1779,8 @@ void cleanup_parser_memory(void) {
 
 /* Enhanced error handling function */
 void yyerror(const char *s) {
-    set_error_position(yycolumn - 2);  // Subtract 2 to account for token start
+    int pos = yycolumn - 2;  // Subtract 2 to account for token start
+    set_error_position(pos < 0 ? 0 : pos);
     if (error_string) {
         free(error_string);
     }
-- 
2.43.0


From 85d2afef38c3d6a5cb051af9e94841037455c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:04 +0000
Subject: [PATCH 02/33] fix: reject unknown characters instead of ending the
 input there

The scanner returned -1 for them, which Bison takes for the end of input, so
'a = 1 # and b = 2' was accepted as 'a = 1'.
---
 v6/pkg/parser/tsl_lexer.l | 2 +-
 v6/pkg/tsl/lex.yy.c       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..bf22e26 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -191,7 +191,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 .                         { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; 
                           }
 
 %%
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..69d110b 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -1180,7 +1180,7 @@ YY_RULE_SETUP
 { 
                            fprintf(stderr, "Error: Unknown character '%s' at column %d\n", 
                                    yytext, yycolumn); 
-                           return -1; 
+                           return YYUNDEF; 
                           }
 	YY_BREAK
 case 47:
-- 
2.43.0


From 931577b477643cf7691fad3b137b1164a00efcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 03/33] fix: free the values a syntax error discards and the
 array elements copied

Tokens and subtrees on the parser stack were dropped without being freed when
the input had a syntax error, and each array element after the first was
cloned into the array while the original leaked.
---
 v6/pkg/parser/tsl_parser.y  |   7 +-
 v6/pkg/tsl/tsl_parser.tab.c | 324 ++++++++++++++++++++++++------------
 2 files changed, 224 insertions(+), 107 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index e7c5ba0..dc5ac35 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -64,6 +64,11 @@ char *error_string = NULL;
 %type <node> additive_expr multiplicative_expr not_expr unary_expr
 %type <node> primary array_elements array opt_array_elements
 
+/* Values discarded on a syntax error; a reduced input is owned by ast_root */
+%destructor { free($$); } <str>
+%destructor { ast_free($$); } <node>
+%destructor { } input
+
 %start input
 
 %%
@@ -188,7 +193,7 @@ array_elements:
                                       for(int i = 0; i < $1->data.array.size; i++) {
                                           elements[i] = ast_clone($1->data.array.elements[i]);
                                       }
-                                      elements[$1->data.array.size] = ast_clone($3);
+                                      elements[$1->data.array.size] = $3;
                                       $$ = ast_create_array($1->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free($1);
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 8460b2b..a45bd2a 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -574,12 +574,12 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,    99,   100,   101,
-     105,   109,   110,   114,   122,   131,   132,   139,   140,   141,
-     145,   146,   147,   148,   152,   153,   154,   155,   156,   157,
-     161,   162,   163,   164,   165,   169,   173,   174,   175,   179,
-     185,   199,   200,   201,   202,   203,   204,   205
+       0,    77,    77,    81,    85,    86,    90,    91,    95,    96,
+      97,    98,    99,   100,   101,   102,   103,   104,   105,   106,
+     110,   114,   115,   119,   127,   136,   137,   144,   145,   146,
+     150,   151,   152,   153,   157,   158,   159,   160,   161,   162,
+     166,   167,   168,   169,   170,   174,   178,   179,   180,   184,
+     190,   204,   205,   206,   207,   208,   209,   210
 };
 #endif
 
@@ -943,7 +943,119 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 952 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 958 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 964 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 970 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 68 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 976 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_input: /* input  */
+#line 70 "tsl_parser.y"
+            { }
+#line 982 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 988 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 994 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1000 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1006 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1012 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1018 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1024 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1030 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1036 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1042 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1048 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 69 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1054 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1206,118 +1318,118 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: expr  */
-#line 72 "tsl_parser.y"
+#line 77 "tsl_parser.y"
          { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+#line 1324 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
-#line 81 "tsl_parser.y"
+#line 86 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1330 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND comparison_expr  */
-#line 86 "tsl_parser.y"
+#line 91 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1336 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
-#line 91 "tsl_parser.y"
+#line 96 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+#line 1342 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* comparison_expr: comparison_expr NE additive_expr  */
-#line 92 "tsl_parser.y"
+#line 97 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+#line 1348 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* comparison_expr: comparison_expr LT additive_expr  */
-#line 93 "tsl_parser.y"
+#line 98 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+#line 1354 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* comparison_expr: comparison_expr LE additive_expr  */
-#line 94 "tsl_parser.y"
+#line 99 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+#line 1360 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* comparison_expr: comparison_expr GT additive_expr  */
-#line 95 "tsl_parser.y"
+#line 100 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+#line 1366 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* comparison_expr: comparison_expr GE additive_expr  */
-#line 96 "tsl_parser.y"
+#line 101 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+#line 1372 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
-#line 97 "tsl_parser.y"
+#line 102 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+#line 1378 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
-#line 98 "tsl_parser.y"
+#line 103 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+#line 1384 "../tsl/tsl_parser.tab.c"
     break;
 
   case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 99 "tsl_parser.y"
+#line 104 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1390 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 100 "tsl_parser.y"
+#line 105 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1396 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 101 "tsl_parser.y"
+#line 106 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1405 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 105 "tsl_parser.y"
+#line 110 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1414 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 109 "tsl_parser.y"
+#line 114 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1420 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 110 "tsl_parser.y"
+#line 115 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1429 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 114 "tsl_parser.y"
+#line 119 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1326,11 +1438,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1442 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 122 "tsl_parser.y"
+#line 127 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1340,203 +1452,203 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1456 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 131 "tsl_parser.y"
+#line 136 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1462 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 132 "tsl_parser.y"
+#line 137 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1471 "../tsl/tsl_parser.tab.c"
     break;
 
   case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 140 "tsl_parser.y"
+#line 145 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1477 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 141 "tsl_parser.y"
+#line 146 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1483 "../tsl/tsl_parser.tab.c"
     break;
 
   case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 146 "tsl_parser.y"
+#line 151 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1489 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 147 "tsl_parser.y"
+#line 152 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1495 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 148 "tsl_parser.y"
+#line 153 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1501 "../tsl/tsl_parser.tab.c"
     break;
 
   case 35: /* not_expr: K_NOT not_expr  */
-#line 153 "tsl_parser.y"
+#line 158 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1507 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_LEN not_expr  */
-#line 154 "tsl_parser.y"
+#line 159 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1513 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_ANY not_expr  */
-#line 155 "tsl_parser.y"
+#line 160 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1519 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ALL not_expr  */
-#line 156 "tsl_parser.y"
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1525 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_SUM not_expr  */
-#line 157 "tsl_parser.y"
+#line 162 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1531 "../tsl/tsl_parser.tab.c"
     break;
 
   case 41: /* unary_expr: MINUS unary_expr  */
-#line 162 "tsl_parser.y"
+#line 167 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: PLUS unary_expr  */
-#line 163 "tsl_parser.y"
+#line 168 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1543 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: LPAREN expr RPAREN  */
-#line 164 "tsl_parser.y"
+#line 169 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1549 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: array  */
-#line 165 "tsl_parser.y"
+#line 170 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1555 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 169 "tsl_parser.y"
+#line 174 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1561 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* opt_array_elements: %empty  */
-#line 173 "tsl_parser.y"
+#line 178 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1567 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: array_elements  */
-#line 174 "tsl_parser.y"
+#line 179 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1573 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements COMMA  */
-#line 175 "tsl_parser.y"
+#line 180 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1579 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* array_elements: expr  */
-#line 179 "tsl_parser.y"
+#line 184 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1590 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: array_elements COMMA expr  */
-#line 185 "tsl_parser.y"
+#line 190 "tsl_parser.y"
                                     {
                                       ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
                                       for(int i = 0; i < (yyvsp[-2].node)->data.array.size; i++) {
                                           elements[i] = ast_clone((yyvsp[-2].node)->data.array.elements[i]);
                                       }
-                                      elements[(yyvsp[-2].node)->data.array.size] = ast_clone((yyvsp[0].node));
+                                      elements[(yyvsp[-2].node)->data.array.size] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1606 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 199 "tsl_parser.y"
+#line 204 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1612 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 200 "tsl_parser.y"
+#line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1618 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 201 "tsl_parser.y"
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1624 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 202 "tsl_parser.y"
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1630 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 203 "tsl_parser.y"
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1636 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 204 "tsl_parser.y"
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1642 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 205 "tsl_parser.y"
+#line 210 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1648 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1652 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1729,7 +1841,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 208 "tsl_parser.y"
+#line 213 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From b0993c7550d99b9f1ea6bb5921b03058e55d4fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 04/33] fix: reject input holding a NUL byte

C.CString made the parser stop at the first NUL, so the rest of the filter was
silently dropped.
---
 v6/pkg/tsl/tsl.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..ace8cda 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,6 +23,7 @@ package tsl
 */
 import "C"
 import (
+	"strings"
 	"time"
 	"unsafe"
 )
@@ -45,6 +46,15 @@ type TSLArrayLiteral struct {
 
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
+	// A C string ends at the first NUL byte, the rest would be ignored
+	if i := strings.IndexByte(input, 0); i >= 0 {
+		return nil, &SyntaxError{
+			Message:  "syntax error, unexpected NUL character",
+			Position: i,
+			Input:    input,
+		}
+	}
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From 84c6a3ec30c98bc19c6ea69c9fa0e94372b77c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 05/33] fix: serialize use of the C parser

The scanner and parser keep their state in C globals; concurrent ParseTSL
calls corrupted each other's trees and memory.
---
 v6/pkg/tsl/tsl.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index ace8cda..3d424d8 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -24,6 +24,7 @@ package tsl
 import "C"
 import (
 	"strings"
+	"sync"
 	"time"
 	"unsafe"
 )
@@ -44,6 +45,9 @@ type TSLArrayLiteral struct {
 	Values []*TSLNode
 }
 
+// parserLock guards the global state of the C scanner and parser
+var parserLock sync.Mutex
+
 // ParseTSL parses a TSL expression and returns the AST root node
 func ParseTSL(input string) (*TSLNode, error) {
 	// A C string ends at the first NUL byte, the rest would be ignored
@@ -55,6 +59,9 @@ func ParseTSL(input string) (*TSLNode, error) {
 		}
 	}
 
+	parserLock.Lock()
+	defer parserLock.Unlock()
+
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
-- 
2.43.0


From d2b7a996c24f10e3beb25607b073da35cd05991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:18 +0000
Subject: [PATCH 06/33] fix: read an upper-case I in a size suffix as binary

The scanner accepts KI, MI, ... but they were evaluated as decimal suffixes.
---
 v6/pkg/tsl/tsl_ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..3c34410 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -24,7 +24,7 @@ ast_node *ast_create_number(const char *value_str) {
     
     if (*endptr != '\0') {  // Has suffix
         double multiplier = 1024.0;  // Default to binary (Ki)
-        if (*(endptr + 1) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
+        if (tolower(*(endptr + 1)) != 'i') {  // If not Ki/Mi/Gi, use decimal K/M/G
             multiplier = 1000.0;
         }
         switch(tolower(*endptr)) {
-- 
2.43.0


From 0f0da51a359f7e8e22bdcc2f6f7c1817685859be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 07/33] fix: do not panic on date literals in the SQL walker

Value() is the raw string for a date without a time and for quoted text that
only looks like a timestamp; the type assertion to time.Time panicked.
---
 v6/pkg/walkers/sql/walk.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 062a796..8e1ed9c 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -42,9 +42,14 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindNumericLiteral:
 		s = sq.Expr("?", n.Value().(float64))
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
-		// Format time value using SQL timestamp format
-		t := n.Value().(time.Time)
-		s = sq.Expr("?", t.Format("2006-01-02 15:04:05"))
+		switch v := n.Value().(type) {
+		case time.Time:
+			// Format time value using SQL timestamp format
+			s = sq.Expr("?", v.Format("2006-01-02 15:04:05"))
+		default:
+			// Dates without a time, and text that only looks like a date
+			s = sq.Expr("?", v)
+		}
 	case tsl.KindStringLiteral:
 		s = sq.Expr("?", n.Value().(string))
 	case tsl.KindBooleanLiteral:
-- 
2.43.0


From 9822c23a924cfbed45d29e390705c9da40964232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 08/33] fix: report a modulus by a fraction below one as
 division by zero

The operands are truncated to integers, so "a % 0.5" divided by zero and
panicked.
---
 v6/pkg/walkers/semantics/walk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index b386296..409611b 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -234,10 +234,11 @@ func evaluateMathExpression(operator tsl.Operator, leftVal, rightVal interface{}
 		}
 		return leftNum / rightNum, nil
 	case tsl.OpPercent:
-		if rightNum == 0 {
+		divisor := int64(rightNum)
+		if divisor == 0 {
 			return nil, tsl.DivisionByZeroError{Operation: "modulus"}
 		}
-		return float64(int64(leftNum) % int64(rightNum)), nil
+		return float64(int64(leftNum) % divisor), nil
 	default:
 		return nil, tsl.UnexpectedOperatorError{Operator: operator}
 	}
-- 
2.43.0


From 59840b09ec3cf3ac1cbd6e73413433da14ccb923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 09/33] fix: report uncomparable record values instead of
 panicking

Comparing two maps or slices of a record with = or != panicked.
---
 v6/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v6/pkg/walkers/semantics/walk.go b/v6/pkg/walkers/semantics/walk.go
index 409611b..9265439 100644
--- a/v6/pkg/walkers/semantics/walk.go
+++ b/v6/pkg/walkers/semantics/walk.go
@@ -21,6 +21,7 @@ package semantics
 
 import (
 	"fmt"
+	"reflect"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -207,6 +208,10 @@ func evaluateEquality(leftVal, rightVal interface{}) (bool, error) {
 			return leftStringValue == rightStringValue, nil
 		}
 	}
+	// Values such as maps and slices can not be compared, == would panic
+	if leftVal != nil && reflect.TypeOf(leftVal) == reflect.TypeOf(rightVal) && !reflect.ValueOf(leftVal).Comparable() {
+		return false, tsl.TypeMismatchError{Expected: "comparable value", Got: fmt.Sprintf("%T", leftVal)}
+	}
 	// Fallback to Go’s built‑in equality for identical types
 	return leftVal == rightVal, nil
 }
-- 
2.43.0


From cfd291216fe4eddc89efb782555e25a1ddb49d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 10/33] fix: match LIKE patterns literally except for % and _

Regular expression characters in a pattern were not quoted ('x.y' matched
'xzy', '(' matched nothing) and wildcards did not match a newline.
---
 v6/pkg/walkers/semantics/evaluators.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 8641a9f..764b692 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -176,10 +176,11 @@ func evaluateLikePattern(value interface{}, pattern interface{}) (bool, error) {
 		}
 	}
 
-	// Convert SQL LIKE pattern to regex pattern
+	// Convert SQL LIKE pattern to regex pattern, only % and _ are special
+	patternStr = regexp.QuoteMeta(patternStr)
 	patternStr = strings.ReplaceAll(patternStr, "%", ".*")
 	patternStr = strings.ReplaceAll(patternStr, "_", ".")
-	matched, _ := regexp.MatchString("^"+patternStr+"$", valueStr)
+	matched, _ := regexp.MatchString("(?s)^"+patternStr+"$", valueStr)
 	return matched, nil
 }
 
-- 
2.43.0


From 0bfda131fa960761443bb20cef9acb693a3f81a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 11/33] fix: accept date literals in IN lists and BETWEEN
 bounds

Dates without a time and quoted dates reach the evaluator as strings. The
comparison operators convert them but IN never matched one and BETWEEN
reported a type mismatch.
---
 v6/pkg/walkers/semantics/evaluators.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 764b692..530400e 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -90,7 +90,7 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 			}
 		case time.Time:
 			for _, item := range arr {
-				if t, ok := item.(time.Time); ok && t.Equal(v) {
+				if t, ok := toDate(item); ok && t.Equal(v) {
 					return true, nil
 				}
 			}
@@ -141,8 +141,8 @@ func isValueInRange(value, min, max interface{}) (bool, error) {
 		}
 		return v >= minVal && v <= maxVal, nil
 	case time.Time:
-		minTime, okMin := min.(time.Time)
-		maxTime, okMax := max.(time.Time)
+		minTime, okMin := toDate(min)
+		maxTime, okMax := toDate(max)
 		if !okMin || !okMax {
 			return false, &tsl.TypeMismatchError{
 				Expected: "time values",
-- 
2.43.0


From 248900d7d7861db1d5db8959052735d400515c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:56 +0000
Subject: [PATCH 12/33] fix: write valid SQL for an empty IN list

---
 v6/pkg/walkers/sql/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 8e1ed9c..f41a8cb 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -108,6 +108,10 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		if err != nil {
 			return nil, err
 		}
+		if len(values) == 0 {
+			// IN () is not valid SQL, nothing is in an empty list
+			return sq.Expr("(1=0)"), nil
+		}
 		return sq.Expr("? IN ("+placeholders(len(values))+")", append([]interface{}{l}, sqlizersToInterface(values)...)...), nil
 
 	case tsl.OpBetween:
-- 
2.43.0


From 11a9f4d6329b44255059737b7e2a2228f3446f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 13/33] fix: parenthesize comparisons used as operands in
 generated SQL

'(a = b) = c', 'a = (b = c)' and '(not a) = b' were written without
parentheses, and SQL grouped them in another way.
---
 v6/pkg/walkers/sql/walk.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index f41a8cb..1745861 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -101,6 +101,11 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// Comparisons do not nest in SQL without parentheses
+	if op.Operator != tsl.OpAnd && op.Operator != tsl.OpOr {
+		l = parenthesize(op.Left, l)
+	}
+
 	// Handle array operations specially
 	switch op.Operator {
 	case tsl.OpIn:
@@ -122,7 +127,10 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		if len(values) != 2 {
 			return nil, tsl.BetweenOperatorError{Message: "BETWEEN requires exactly two values"}
 		}
-		return sq.Expr("? BETWEEN ? AND ?", l, values[0], values[1]), nil
+		array := op.Right.Value().(tsl.TSLArrayLiteral)
+		lo := parenthesize(array.Values[0], values[0])
+		hi := parenthesize(array.Values[1], values[1])
+		return sq.Expr("? BETWEEN ? AND ?", l, lo, hi), nil
 	}
 
 	// For non-array operations, handle normally
@@ -131,6 +139,10 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	if op.Operator != tsl.OpAnd && op.Operator != tsl.OpOr {
+		r = parenthesize(op.Right, r)
+	}
+
 	switch op.Operator {
 	// Arithmetic operators
 	case tsl.OpPlus:
@@ -183,6 +195,20 @@ func binaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	}
 }
 
+// parenthesize wraps s, the SQL of n, if n is a comparison or a negation: as an
+// operand of another operator it would be regrouped by SQL's precedence.
+func parenthesize(n *tsl.TSLNode, s sq.Sqlizer) sq.Sqlizer {
+	op, ok := n.Value().(tsl.TSLExpressionOp)
+	if !ok {
+		return s
+	}
+	switch op.Operator {
+	case tsl.OpAnd, tsl.OpOr, tsl.OpPlus, tsl.OpMinus, tsl.OpStar, tsl.OpSlash, tsl.OpPercent, tsl.OpUMinus:
+		return s // already in parentheses
+	}
+	return sq.Expr("(?)", s)
+}
+
 // unaryStep handles minus and not operators first
 func unaryStep(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	op := n.Value().(tsl.TSLExpressionOp)
-- 
2.43.0


From 58ae21e2d344aad214950302478e2c078eab2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 14/33] fix: free the copied root when the ident walker
 replaces it

---
 v6/pkg/walkers/ident/walk.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..1e246c8 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -71,6 +71,10 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		return nil, err
 	}
 
+	if newTree != treeCopy {
+		treeCopy.Free() // The root was replaced
+	}
+
 	return newTree, nil
 }
 
-- 
2.43.0


From adf7cc18d7cb944128fbf14b2c84511bbace03ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:49 +0000
Subject: [PATCH 15/33] fix: check and map identifiers inside arrays in the
 ident walker

Identifiers in IN lists and BETWEEN bounds were neither given to the check
function nor replaced, so unknown names reached the generated SQL.
---
 v6/pkg/tsl/tsl.go            |  8 ++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 21 +++++++++++++++++++++
 4 files changed, 41 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 3d424d8..60a2518 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -211,3 +211,11 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement safely attaches a child node as the i-th element of an array literal node
+func (n *TSLNode) AttachElement(i int, child *TSLNode) bool {
+	if n == nil || child == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(i), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 3c34410..36a9e33 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -285,3 +285,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+    
+    if (node->data.array.elements[index]) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..3251c43 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -62,6 +62,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 1e246c8..388c692 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -150,6 +150,27 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		return n, nil
 
+	case tsl.KindArrayLiteral:
+		array := n.Value().(tsl.TSLArrayLiteral)
+
+		// Process the elements
+		for i, element := range array.Values {
+			if element.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(element, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(element, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
-- 
2.43.0


From cfef2ec42d2d7477d5d15335969afd18599f857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 16/33] fix: escape literal text in the graph labels

A quote, backslash, newline or record character in a string literal broke the
generated dot file.
---
 v6/pkg/walkers/graphviz/walk.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..72d2733 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -48,16 +48,34 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that end a quoted dot string or have a
+// meaning in a record label.
+func escapeLabel(s string) string {
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '"', '\\', '{', '}', '|', '<', '>':
+			b.WriteByte('\\')
+			b.WriteByte(s[i])
+		case '\n':
+			b.WriteString("\\n")
+		default:
+			b.WriteByte(s[i])
+		}
+	}
+	return b.String()
+}
+
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
 func formatLeafNodeWithInput(in string, nodeID string, style string, nodeType tsl.Kind, value interface{}) string {
 	if in != "" {
 		in = fmt.Sprintf("%s\n", in)
 	}
-	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %v\" ]",
+	nodeStr := fmt.Sprintf("%s [%s label=\"%s | %s\" ]",
 		nodeID,
 		style,
 		nodeType.String(),
-		value)
+		escapeLabel(fmt.Sprintf("%v", value)))
 	return fmt.Sprintf("%s%s", in, nodeStr)
 }
 
-- 
2.43.0


From b06cfef22ce8879154a32dde57ed0b4cbe3b15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 17/33] fix: write a node for a NULL literal in the graph

IS NULL linked its operator to a node that was never written.
---
 v6/pkg/walkers/graphviz/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 72d2733..baeb64e 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -35,6 +35,7 @@ const stringStyle = baseRecordStyle + " color=blue"
 const booleanStyle = baseRecordStyle + " color=purple"
 const dateStyle = baseRecordStyle + " color=orange"
 const timestampStyle = baseRecordStyle + " color=orange"
+const nullStyle = baseRecordStyle + " color=gray"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
@@ -141,6 +142,8 @@ func Walk(in string, n *tsl.TSLNode, nodeID string) (out string, err error) {
 		out = formatLeafNodeWithInput(in, nodeID, dateStyle, n.Type(), n.Value())
 	case tsl.KindTimestampLiteral:
 		out = formatLeafNodeWithInput(in, nodeID, timestampStyle, n.Type(), n.Value())
+	case tsl.KindNullLiteral:
+		out = formatLeafNodeWithInput(in, nodeID, nullStyle, n.Type(), n.Value())
 	case tsl.KindBinaryExpr:
 		expr := n.Value().(tsl.TSLExpressionOp)
 		st := formatOperatorNode(nodeID, expr.Operator.String())
-- 
2.43.0


From 0cb7fea11967cebf4af38bdc7e45d0d79009c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 18/33] fix: report a detached child as nil

Value() wrapped the missing native node, and marshalling or walking a tree
after DetachLeft, DetachRight or DetachChild dereferenced a null pointer.
---
 v6/pkg/tsl/tsl.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 60a2518..9d679d7 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -108,6 +108,14 @@ func (n *TSLNode) Type() Kind {
 	return Kind(n.cNode._type)
 }
 
+// wrap returns the node of a native node, nil for a child that was detached
+func wrap(cNode *C.ast_node) *TSLNode {
+	if cNode == nil {
+		return nil
+	}
+	return &TSLNode{cNode: cNode}
+}
+
 // Value returns the node's value based on its type
 func (n *TSLNode) Value() interface{} {
 	switch n.Type() {
@@ -129,14 +137,14 @@ func (n *TSLNode) Value() interface{} {
 	case KindBinaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_binary_op(n.cNode)),
-			Left:     &TSLNode{cNode: C.get_binary_left(n.cNode)},
-			Right:    &TSLNode{cNode: C.get_binary_right(n.cNode)},
+			Left:     wrap(C.get_binary_left(n.cNode)),
+			Right:    wrap(C.get_binary_right(n.cNode)),
 		}
 	case KindUnaryExpr:
 		return TSLExpressionOp{
 			Operator: Operator(C.get_unary_op(n.cNode)),
 			Left:     nil,
-			Right:    &TSLNode{cNode: C.get_unary_child(n.cNode)},
+			Right:    wrap(C.get_unary_child(n.cNode)),
 		}
 	case KindArrayLiteral:
 		size := int(C.get_array_size(n.cNode))
-- 
2.43.0


From 03ea4241a98e0958735c8df97275d881ee53813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 19/33] fix: compare date literals as dates on the left of IN
 and BETWEEN

---
 v6/pkg/walkers/semantics/evaluators.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/v6/pkg/walkers/semantics/evaluators.go b/v6/pkg/walkers/semantics/evaluators.go
index 530400e..2cfc2f0 100644
--- a/v6/pkg/walkers/semantics/evaluators.go
+++ b/v6/pkg/walkers/semantics/evaluators.go
@@ -65,6 +65,11 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 		return false, nil
 	}
 
+	// A date literal is a string until it is compared
+	if date, ok := toDate(value); ok {
+		value = date
+	}
+
 	switch value.(type) {
 	case string, float64, time.Time, bool:
 		// Continue with existing type-specific checks
@@ -113,6 +118,11 @@ func isValueInArray(value interface{}, arr []interface{}) (bool, error) {
 // isValueInRange checks if a value is within a range (inclusive)
 // Supports both numeric values and time.Time comparisons
 func isValueInRange(value, min, max interface{}) (bool, error) {
+	// A date literal is a string until it is compared
+	if date, ok := toDate(value); ok {
+		value = date
+	}
+
 	switch v := value.(type) {
 	case float64:
 		minVal, okMin := toFloat64(min)
-- 
2.43.0


From 8fc335803c2432bc6905abc9ffa9eb79c7ab6e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 20/33] fix: keep the instant of timestamp literals in SQL
 arguments

---
 v6/pkg/walkers/sql/walk.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v6/pkg/walkers/sql/walk.go b/v6/pkg/walkers/sql/walk.go
index 1745861..1d43b7e 100644
--- a/v6/pkg/walkers/sql/walk.go
+++ b/v6/pkg/walkers/sql/walk.go
@@ -44,8 +44,8 @@ func Walk(n *tsl.TSLNode) (s sq.Sqlizer, err error) {
 	case tsl.KindDateLiteral, tsl.KindTimestampLiteral:
 		switch v := n.Value().(type) {
 		case time.Time:
-			// Format time value using SQL timestamp format
-			s = sq.Expr("?", v.Format("2006-01-02 15:04:05"))
+			// Format time value using SQL timestamp format, which has no zone
+			s = sq.Expr("?", v.UTC().Format("2006-01-02 15:04:05.999999999"))
 		default:
 			// Dates without a time, and text that only looks like a date
 			s = sq.Expr("?", v)
-- 
2.43.0


From c6ddf7f75c1d8836ff1a952d359f55b276bfc4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 21/33] fix: compare v5 dates as instants

Dates of the same instant in two locations compared unequal.
---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..2d4391b 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -455,9 +455,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -684,7 +684,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -694,7 +694,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From 52d2413d0019b629c4778f1271e863785f2c0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 22/33] fix: include the end value in v4 and v5 BETWEEN

The SQL and mongo walkers select the end value, the in-memory walker did not.
---
 v4/pkg/walkers/semantics/walk.go |  8 ++++----
 v5/pkg/walkers/semantics/walk.go | 12 ++++++------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index b134180..06a81f5 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -277,11 +277,11 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(string)
 		end := right[1].Left.(string)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -310,11 +310,11 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 	case tsl.BetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin := right[0].Left.(float64)
 		end := right[1].Left.(float64)
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 2d4391b..b848a18 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -560,7 +560,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(string)
 		if !ok {
@@ -570,7 +570,7 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -613,7 +613,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left >= begin && left < end, nil
+		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(float64)
 		if !ok {
@@ -623,7 +623,7 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left < begin || left >= end, nil
+		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
@@ -666,7 +666,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return !left.Before(begin) && left.Before(end), nil
+		return !left.Before(begin) && !left.After(end), nil
 	case tsl.NotBetweenOp:
 		begin, ok := right[0].Left.(time.Time)
 		if !ok {
@@ -676,7 +676,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 		if !ok {
 			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 		}
-		return left.Before(begin) || !left.Before(end), nil
+		return left.Before(begin) || left.After(end), nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-- 
2.43.0


From ca6e605b8efcde291d510417d2c505578d7ab6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 23/33] fix: accept v5 booleans and dates in an IN list

The grammar allows them, the listener left them on its stack and failed.
---
 v5/pkg/tsl/listener.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index ba796ba..cad90a4 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -385,7 +385,8 @@ func (l *Listener) popLiterals(in []Node) (out []Node) {
 	p := l.pop()
 
 	// Run recurtion on literals.
-	if p.Func == StringOp || p.Func == NumberOp {
+	switch p.Func {
+	case StringOp, NumberOp, BooleanOp, DateOp:
 		return l.popLiterals(append(in, p))
 	}
 
-- 
2.43.0


From 6430193a80352eb44751d2e5d937b24cf23762a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 24/33] fix: evaluate nested v5 math expressions

An operand that is itself a math expression was an error, and a modulo
expression passed a null test unevaluated.
---
 v5/pkg/walkers/semantics/walk.go | 44 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index b848a18..fc1c76b 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -83,7 +83,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 	}
 
 	// Check for math ops.
-	if l.Func == tsl.AddOp || l.Func == tsl.SubtractOp || l.Func == tsl.MultiplyOp || l.Func == tsl.DivideOp {
+	if isMathOp(l.Func) {
 		newNode, err := handleMathOpLeft(n, eval)
 		if err != nil {
 			return false, err
@@ -105,7 +105,7 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		}
 
 		// Check for math ops.
-		if r.Func == tsl.AddOp || r.Func == tsl.SubtractOp || r.Func == tsl.MultiplyOp || r.Func == tsl.DivideOp {
+		if isMathOp(r.Func) {
 			newNode, err := handleMathOpRight(n, eval)
 			if err != nil {
 				return false, err
@@ -286,24 +286,34 @@ func evalIdentNode(node tsl.Node, eval EvalFunc) (tsl.Node, error) {
 	return n, nil
 }
 
-func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
-	var err error
+// isMathOp tells whether op is a math operator.
+func isMathOp(op string) bool {
+	switch op {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+	return false
+}
 
-	left := n.Left.(tsl.Node)
-	right := n.Right.(tsl.Node)
+// evalMathOperand returns the value of an operand of a math operator.
+func evalMathOperand(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	switch {
+	case n.Func == tsl.IdentOp:
+		return evalIdentNode(n, eval)
+	case isMathOp(n.Func):
+		return handleMathOp(n, eval)
+	}
+	return n, nil
+}
 
-	// Check for identifiers.
-	if left.Func == tsl.IdentOp {
-		left, err = evalIdentNode(left, eval)
-		if err != nil {
-			return n, err
-		}
+func handleMathOp(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
+	left, err := evalMathOperand(n.Left.(tsl.Node), eval)
+	if err != nil {
+		return n, err
 	}
-	if right.Func == tsl.IdentOp {
-		right, err = evalIdentNode(right, eval)
-		if err != nil {
-			return n, err
-		}
+	right, err := evalMathOperand(n.Right.(tsl.Node), eval)
+	if err != nil {
+		return n, err
 	}
 
 	// Check for null
-- 
2.43.0


From 9ac92a9b14f843f751de04c41636919045a4c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:01 +0000
Subject: [PATCH 25/33] fix: reject a list on the right of a v5 comparison

Comparing with a field that holds a list of strings panicked.
---
 v5/pkg/walkers/semantics/walk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index fc1c76b..3bf4a5c 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -205,6 +205,11 @@ func handleIdentRight(n tsl.Node, eval EvalFunc) (tsl.Node, error) {
 		return n, err
 	}
 
+	// A list of values can only be on the left hand side.
+	if r.Func == tsl.ArrayOp {
+		return n, tsl.UnexpectedLiteralError{Literal: fmt.Sprintf("%v", r.Left)}
+	}
+
 	n.Right = r
 	return n, nil
 }
-- 
2.43.0


From bec22949f36524ae010b7f877bf56ee41c136b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 26/33] fix: report a v4 list value of another type as an error

IN and BETWEEN panicked on a literal that is not of the field's type.
---
 v4/pkg/walkers/semantics/walk.go | 64 ++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 06a81f5..e6b3d0f 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -275,23 +275,43 @@ func handleStringArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(string)
-		end := right[1].Left.(string)
+		begin, ok := right[0].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(string)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == s
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(string)
+			s, ok := node.Left.(string)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != s
 		}
 		return b, nil
 	}
@@ -308,23 +328,43 @@ func handleNumberArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.BetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left >= begin && left <= end, nil
 	case tsl.NotBetweenOp:
-		begin := right[0].Left.(float64)
-		end := right[1].Left.(float64)
+		begin, ok := right[0].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
+		end, ok := right[1].Left.(float64)
+		if !ok {
+			return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+		}
 		return left < begin || left > end, nil
 	case tsl.InOp:
 		b := false
 		for _, node := range right {
-			b = b || left == node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b || left == f
 		}
 		return b, nil
 	case tsl.NotInOp:
 		b := true
 		for _, node := range right {
-			b = b && left != node.Left.(float64)
+			f, ok := node.Left.(float64)
+			if !ok {
+				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
+			}
+			b = b && left != f
 		}
 		return b, nil
 	}
-- 
2.43.0


From 6a85a98a40d316dbc4ae62d20c8f682fa9696f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 27/33] fix: match newlines with v4 and v5 LIKE wildcards

% and _ did not match a newline in the value.
---
 v4/pkg/walkers/semantics/walk.go | 2 +-
 v5/pkg/walkers/semantics/walk.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index e6b3d0f..984f7b8 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -410,7 +410,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index 3bf4a5c..04ca6cc 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -755,7 +755,7 @@ func likeToRegExp(l string) string {
 	e := regexp.QuoteMeta(l)
 	e = strings.Replace(e, "%", ".*", -1)
 	e = strings.Replace(e, "_", ".", -1)
-	e = fmt.Sprintf("^%s$", e)
+	e = fmt.Sprintf("(?s)^%s$", e)
 
 	return e
 }
-- 
2.43.0


From f9437456514fae46b51801a142bb08052a1522f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 28/33] fix: escape literal text in the v4 and v5 graph labels

A quote, backslash, newline or record character in a string or a quoted
identifier broke the generated dot file.
---
 v4/pkg/walkers/graphviz/walk.go | 22 ++++++++++++++++++++--
 v5/pkg/walkers/graphviz/walk.go | 22 ++++++++++++++++++++--
 2 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..85396a9 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -42,6 +42,24 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that end a quoted dot string or have a
+// meaning in a record label.
+func escapeLabel(s string) string {
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '"', '\\', '{', '}', '|', '<', '>':
+			b.WriteByte('\\')
+			b.WriteByte(s[i])
+		case '\n':
+			b.WriteString("\\n")
+		default:
+			b.WriteByte(s[i])
+		}
+	}
+	return b.String()
+}
+
 // Walk travel the TSL tree to create Graphviz dot nodes.
 //
 // Users can call the Walk method to get the dot file graph string.
@@ -77,7 +95,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -85,7 +103,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..caa8776 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -43,6 +43,24 @@ func randStr(l int) string {
 	return string(bytes)
 }
 
+// escapeLabel escapes the characters that end a quoted dot string or have a
+// meaning in a record label.
+func escapeLabel(s string) string {
+	var b strings.Builder
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '"', '\\', '{', '}', '|', '<', '>':
+			b.WriteByte('\\')
+			b.WriteByte(s[i])
+		case '\n':
+			b.WriteString("\\n")
+		default:
+			b.WriteByte(s[i])
+		}
+	}
+	return b.String()
+}
+
 // Walk travel the TSL tree to create Graphviz dot nodes.
 //
 // Users can call the Walk method to get the dot file graph string.
@@ -78,7 +96,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			identStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.StringOp:
 		// Add leaf label and value.
@@ -86,7 +104,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			nodeID,
 			stringStyle,
 			n.Func,
-			n.Left)
+			escapeLabel(n.Left.(string)))
 		out = fmt.Sprintf("%s%s", in, nodeLabel)
 	case tsl.NumberOp:
 		// Add leaf label and value.
-- 
2.43.0


From f6bc1a5bf31b6de07499bf34febef1941253b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 29/33] fix: write the v4 and v5 graph prefix once

Every child repeated the text that the caller had passed in.
---
 v4/pkg/walkers/graphviz/walk.go | 4 ++--
 v5/pkg/walkers/graphviz/walk.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index 85396a9..165a478 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -126,7 +126,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := randStr(4)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -149,7 +149,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := randStr(4)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index caa8776..33c1212 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -135,7 +135,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 			leftID := randStr(4)
 			childrens = append(childrens, leftID)
 
-			l, err := Walk(in, n.Left.(tsl.Node), leftID)
+			l, err := Walk("", n.Left.(tsl.Node), leftID)
 			if err != nil {
 				return "", err
 			}
@@ -158,7 +158,7 @@ func Walk(in string, n tsl.Node, nodeID string) (out string, err error) {
 				rightID := randStr(4)
 				childrens = append(childrens, rightID)
 
-				r, err := Walk(in, v, rightID)
+				r, err := Walk("", v, rightID)
 				if err != nil {
 					return "", err
 				}
-- 
2.43.0


From bc939c0e18b863f46b3086c9709205f922d70bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 30/33] fix: compare with columns on the right in v5 SQL

The name of a right hand column was bound as a string, and a math expression
was bound as a tree node.
---
 v5/pkg/walkers/sql/walk.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index d0c206b..5d87a7a 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -66,6 +66,26 @@ func nodesToStrings(in interface{}) (s []interface{}) {
 	return
 }
 
+// compareOps are the SQL operators that can compare two columns.
+var compareOps = map[string]string{
+	tsl.EqOp:    "=",
+	tsl.NotEqOp: "<>",
+	tsl.LtOp:    "<",
+	tsl.LteOp:   "<=",
+	tsl.GtOp:    ">",
+	tsl.GteOp:   ">=",
+}
+
+// isColumnExpr tells whether a node is an identifier or a math expression.
+func isColumnExpr(n tsl.Node) bool {
+	switch n.Func {
+	case tsl.IdentOp, tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return true
+	}
+
+	return false
+}
+
 // binaryStep handle a binary operator step for Walk.
 func binaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 	var l, r sq.Sqlizer
@@ -120,6 +140,24 @@ func unaryStep(n tsl.Node) (s sq.Sqlizer, err error) {
 		return
 	}
 
+	// Compare with identifiers and math expressions in the SQL text, they are not values.
+	if r, ok := n.Right.(tsl.Node); ok && isColumnExpr(r) {
+		op, ok := compareOps[n.Func]
+		if !ok {
+			err = tsl.UnexpectedLiteralError{Literal: r.Func}
+			return
+		}
+
+		var right sq.Sqlizer
+		right, err = Walk(r)
+		if err != nil {
+			return
+		}
+
+		s = sq.Expr(fmt.Sprintf("%s %s ?", sql, op), right)
+		return
+	}
+
 	right := nodesToStrings(n.Right)
 
 	switch n.Func {
-- 
2.43.0


From 10af87817fe4753a7a0f90bd17e0a4de54c84a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 31/33] fix: keep v5 dates whole in SQL

The fraction of a second was dropped, and a date in a math expression was
written without quotes.
---
 v5/pkg/walkers/sql/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v5/pkg/walkers/sql/walk.go b/v5/pkg/walkers/sql/walk.go
index 5d87a7a..6142f2a 100644
--- a/v5/pkg/walkers/sql/walk.go
+++ b/v5/pkg/walkers/sql/walk.go
@@ -56,7 +56,7 @@ func nodesToStrings(in interface{}) (s []interface{}) {
 			}
 			s = append(s, v)
 		case tsl.DateOp:
-			d := n.Left.(time.Time).Format(time.RFC3339)
+			d := n.Left.(time.Time).Format(time.RFC3339Nano)
 			s = append(s, d)
 		default:
 			s = append(s, n.Left)
@@ -227,8 +227,8 @@ func Walk(n tsl.Node) (s sq.Sqlizer, err error) {
 		f := strconv.FormatFloat(n.Left.(float64), 'g', -1, 64)
 		s = sq.Expr(f)
 	case tsl.DateOp:
-		f := n.Left.(time.Time).Format(time.RFC3339)
-		s = sq.Expr(f)
+		f := n.Left.(time.Time).Format(time.RFC3339Nano)
+		s = sq.Expr(fmt.Sprintf("'%s'", f))
 	case tsl.StringOp:
 		s = sq.Expr(n.Left.(string))
 	case tsl.BooleanOp:
-- 
2.43.0


From 054910fcb7cf44534d7eaa5550bab3a37e4f99f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 32/33] fix: reject v4 and v5 mongo filters on other than a
 field and literals

A math expression became a filter on the empty field name, and a right hand
field was compared with as if its name was the value.
---
 v4/pkg/walkers/mongo/walk.go | 27 +++++++++++++++++++++++++++
 v5/pkg/walkers/mongo/walk.go | 27 +++++++++++++++++++++++++++
 2 files changed, 54 insertions(+)

diff --git a/v4/pkg/walkers/mongo/walk.go b/v4/pkg/walkers/mongo/walk.go
index 58fc5a3..da25cb6 100644
--- a/v4/pkg/walkers/mongo/walk.go
+++ b/v4/pkg/walkers/mongo/walk.go
@@ -34,6 +34,25 @@ func identString(n interface{}) string {
 	return ""
 }
 
+// checkOperands checks that an operator compares a field with literals, mongo
+// filters can not compare with other fields or math expressions.
+func checkOperands(n tsl.Node) error {
+	if l := n.Left.(tsl.Node); l.Func != tsl.IdentOp {
+		return tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+
+	if n.Right == nil {
+		return nil
+	}
+
+	switch r := n.Right.(tsl.Node); r.Func {
+	case tsl.ArrayOp, tsl.StringOp, tsl.NumberOp:
+		return nil
+	default:
+		return tsl.UnexpectedLiteralError{Literal: r.Func}
+	}
+}
+
 // bsonFromArray helper method creates a slice of bson values from an interface,
 // supported values can be strings or floats.
 func bsonFromArray(a interface{}) (values []interface{}, err error) {
@@ -80,6 +99,14 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.InOp, tsl.NotInOp,
+		tsl.IsNilOp, tsl.IsNotNilOp, tsl.RegexOp, tsl.NotRegexOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		if err = checkOperands(n); err != nil {
+			return
+		}
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
diff --git a/v5/pkg/walkers/mongo/walk.go b/v5/pkg/walkers/mongo/walk.go
index ce84147..b02e523 100644
--- a/v5/pkg/walkers/mongo/walk.go
+++ b/v5/pkg/walkers/mongo/walk.go
@@ -34,6 +34,25 @@ func identString(n interface{}) string {
 	return ""
 }
 
+// checkOperands checks that an operator compares a field with literals, mongo
+// filters can not compare with other fields or math expressions.
+func checkOperands(n tsl.Node) error {
+	if l := n.Left.(tsl.Node); l.Func != tsl.IdentOp {
+		return tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+
+	if n.Right == nil {
+		return nil
+	}
+
+	switch r := n.Right.(tsl.Node); r.Func {
+	case tsl.ArrayOp, tsl.StringOp, tsl.NumberOp, tsl.BooleanOp, tsl.DateOp:
+		return nil
+	default:
+		return tsl.UnexpectedLiteralError{Literal: r.Func}
+	}
+}
+
 // bsonFromArray helper method creates a slice of bson values from an interface,
 // supported values can be strings or floats.
 func bsonFromArray(a interface{}) (values []interface{}, err error) {
@@ -80,6 +99,14 @@ func Walk(n tsl.Node) (b bson.D, err error) {
 	var values []interface{}
 	var l, r bson.D
 
+	switch n.Func {
+	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.InOp, tsl.NotInOp,
+		tsl.IsNilOp, tsl.IsNotNilOp, tsl.RegexOp, tsl.NotRegexOp, tsl.BetweenOp, tsl.NotBetweenOp:
+		if err = checkOperands(n); err != nil {
+			return
+		}
+	}
+
 	// Note: tsl function constants should be the same as mongo bson
 	// functions (e.g. tsl.AndOp is "$and" in tsl and in mongo bson),
 	// this is the reason we can use n.Func as a function name in the mongo
-- 
2.43.0


From af160e97c7a962050469895b4d9f12eb0192f768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 33/33] fix: report v4 null tests of arithmetic as an error

---
 v4/pkg/walkers/semantics/walk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/v4/pkg/walkers/semantics/walk.go b/v4/pkg/walkers/semantics/walk.go
index 984f7b8..e9f4154 100644
--- a/v4/pkg/walkers/semantics/walk.go
+++ b/v4/pkg/walkers/semantics/walk.go
@@ -81,6 +81,12 @@ func Walk(n tsl.Node, eval EvalFunc) (bool, error) {
 		return Walk(newNode, eval)
 	}
 
+	// Math operators have no value here.
+	switch l.Func {
+	case tsl.AddOp, tsl.SubtractOp, tsl.MultiplyOp, tsl.DivideOp, tsl.ModuloOp:
+		return false, tsl.UnexpectedLiteralError{Literal: l.Func}
+	}
+
 	// Implement tree semantics.
 	switch n.Func {
 	case tsl.EqOp, tsl.NotEqOp, tsl.LtOp, tsl.LteOp, tsl.GtOp, tsl.GteOp, tsl.RegexOp, tsl.NotRegexOp,
-- 
2.43.0

