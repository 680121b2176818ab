From e5def0615884a778a3491e6e10268980a9bc3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:21 +0000
Subject: [PATCH 01/44] fix: grow the include-edge buffer in lalr.c when
 several rules contribute the same goto

---
 byacc/lalr.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/byacc/lalr.c b/byacc/lalr.c
index 33c8e21..bf00db3 100644
--- a/byacc/lalr.c
+++ b/byacc/lalr.c
@@ -337,11 +337,13 @@ build_relations(byacc_t* S)
     int symbol2;
     Value_t *shortp;
     Value_t *edge;
+    int maxedges;
     Value_t *states;
     Value_t **new_includes;
 
     S->fs3_includes = NEW2(S->fs3_ngotos, Value_t *);
-    edge = NEW2(S->fs3_ngotos + 1, Value_t);
+    maxedges = S->fs3_ngotos + 1;
+    edge = NEW2(maxedges, Value_t);
     states = NEW2(S->fs3_maxrhs + 1, Value_t);
 
     for (i = 0; i < S->fs3_ngotos; i++)
@@ -383,6 +385,13 @@ build_relations(byacc_t* S)
 		if (ISVAR(*rp))
 		{
 		    stateno = states[--length];
+		    if (nedges >= maxedges)
+		    {
+			/* several rules may contribute the same goto */
+			maxedges *= 2;
+			edge = TREALLOC(Value_t, edge, maxedges);
+			NO_SPACE(edge);
+		    }
 		    edge[nedges++] = map_goto(S, stateno, *rp);
 		    if (S->nullable[*rp] && length > 0)
 			done_flag = 0;
-- 
2.43.0


From c3177f9fa62bb9448194b6e4449ff803223ebafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:06 +0000
Subject: [PATCH 02/44] fix: lemon.c: a %nonassoc error must survive table
 packing and default reductions

---
 lemon/lemon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3163026..d3358e0 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1321,7 +1321,10 @@ static int resolve_conflict(
     }else{
       assert( spx->prec==spy->prec && (spx->assoc==NONE || spx->assoc==PRECEDENCE));
       apx->type = ERROR;
+      apy->type = RD_RESOLVED;
     }
+  }else if( apx->type==ERROR && apy->type==REDUCE ){
+    apy->type = RD_RESOLVED;  /* the lookahead is already an error */
   }else if( apx->type==REDUCE && apy->type==REDUCE ){
     spx = apx->x.rp->precsym;
     spy = apy->x.rp->precsym;
@@ -5612,7 +5615,7 @@ void CompressTables(struct lemon *lemp)
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==SHIFT ) break;
+      if( ap->type==SHIFT || ap->type==ERROR ) break;
       if( ap->type==REDUCE && ap->x.rp!=rbest ) break;
     }
     if( ap==0 ){
-- 
2.43.0


From e5185efc1a91a0118e2ba886a6b0694119127dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 03/44] fix: lemon.c: close the header comment of the generated
 parser once, so that it compiles

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d3358e0..e2c94ca 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4958,7 +4958,7 @@ void ReportTable(
 
   fprintf(out,
      "/* This file is automatically generated by Lemon from input grammar\n"
-     "** source file \"%s\". */\n", lemp->filename); lineno += 2;
+     "** source file \"%s\"", lemp->filename); lineno++;
   if( lemp->nDefineUsed==0 ){
     fprintf(out, ".\n*/\n"); lineno += 2;
   }else{
-- 
2.43.0


From 567538acc1348838c74511ac188b5261f0b975a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:26 +0000
Subject: [PATCH 04/44] fix: lemon.c: tplt_print read the byte before an empty
 string

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e2c94ca..aad1048 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4068,7 +4068,7 @@ PRIVATE void tplt_linedir(FILE *out, int lineno, char *filename)
 /* Print a string to the file and keep the linenumber up to date */
 PRIVATE void tplt_print(FILE *out, struct lemon *lemp, char *str, int *lineno)
 {
-  if( str==0 ) return;
+  if( str==0 || str[0]==0 ) return;
   while( *str ){
     putc(*str,out);
     if( *str=='\n' ) (*lineno)++;
-- 
2.43.0


From 553ce4d68e0c5b0a4e22137c0098d02abb3c0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:53 +0000
Subject: [PATCH 05/44] fix: lemon.c: grammars with cyclic unit rules no longer
 stop at an assertion

---
 lemon/lemon.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index aad1048..88fcd7c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5649,7 +5649,11 @@ void CompressTables(struct lemon *lemp)
   */
   for(i=0; i<lemp->nstate; i++){
     stp = lemp->sorted[i];
+    struct action *prevap = 0;
+    int nhop = 0;
     for(ap=stp->ap; ap; ap=nextap){
+      if( ap!=prevap ) nhop = 0;
+      prevap = ap;
       nextap = ap->next;
       if( ap->type!=SHIFTREDUCE ) continue;
       rp = ap->x.rp;
@@ -5664,7 +5668,11 @@ void CompressTables(struct lemon *lemp)
       /* If we reach this point, it means the optimization can be applied */
       nextap = ap;
       for(ap2=stp->ap; ap2 && (ap2==ap || ap2->sp!=rp->lhs); ap2=ap2->next){}
-      assert( ap2!=0 );
+      if( ap2==0 || ++nhop>lemp->nsymbol ){
+        /* The unit rules form a cycle:  keep the reduction */
+        nextap = ap->next;
+        continue;
+      }
       ap->spOpt = ap2->sp;
       ap->type = ap2->type;
       ap->x = ap2->x;
-- 
2.43.0


From 74c1a60f052a20f0c3dcae6c5eed10019ed991ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:35 +0000
Subject: [PATCH 06/44] fix: lemon.c: yy_shift_ofst[] lacked trailing states
 without terminal actions

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 88fcd7c..fceeec5 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5240,9 +5240,9 @@ void ReportTable(
   if( j>0 ){ fprintf(out, "\n"); lineno++; }
   fprintf(out, "};\n"); lineno++;
 
-  /* Output the yy_shift_ofst[] table */
+  /* Output the yy_shift_ofst[] table.  The parser looks up every state in
+  ** it, those that have no terminal action of their own too. */
   n = lemp->nxstate;
-  while( n>0 && lemp->sorted[n-1]->iTknOfst==NO_OFFSET ) n--;
   fprintf(out, "#define YY_SHIFT_COUNT    (%d)\n", n-1); lineno++;
   fprintf(out, "#define YY_SHIFT_MIN      (%d)\n", mnTknOfst); lineno++;
   fprintf(out, "#define YY_SHIFT_MAX      (%d)\n", mxTknOfst); lineno++;
-- 
2.43.0


From 5351158acefceb00994f6498b5a6fe548aed9e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 07/44] fix: lemon.c: -r left the table generator without
 states

---
 lemon/lemon.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index fceeec5..af96b8f 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -226,7 +226,7 @@ void ReportOutput(struct lemon *);
 void ReportTable(struct lemon *, int);
 void ReportHeader(struct lemon *);
 void CompressTables(struct lemon *);
-void ResortStates(struct lemon *);
+void ResortStates(struct lemon *, int);
 
 /********** From the file "set.h" ****************************************/
 void  SetSize(struct lemon *, int);             /* All sets will be of size N */
@@ -1839,7 +1839,7 @@ int main(int argc, char **argv){
     /* Reorder and renumber the states so that states with fewer choices
     ** occur at the end.  This is an optimization that helps make the
     ** generated parser tables smaller. */
-    if( noResort==0 ) ResortStates(&lem);
+    ResortStates(&lem, noResort);
 
     /* Generate a report of the parser generated.  (the "y.output" file) */
     if( !quiet ) ReportOutput(&lem);
@@ -5707,8 +5707,9 @@ static int stateResortCompare(const void *a, const void *b){
 /*
 ** Renumber and resort states so that states with fewer choices
 ** occur at the end.  Except, keep state 0 as the first state.
+** With noResort, only count the actions and keep every state in place.
 */
-void ResortStates(struct lemon *lemp)
+void ResortStates(struct lemon *lemp, int noResort)
 {
   int i;
   struct state *stp;
@@ -5734,12 +5735,13 @@ void ResortStates(struct lemon *lemp)
       }
     }
   }
+  lemp->nxstate = lemp->nstate;
+  if( noResort ) return;
   qsort(&lemp->sorted[1], lemp->nstate-1, sizeof(lemp->sorted[0]),
         stateResortCompare);
   for(i=0; i<lemp->nstate; i++){
     lemp->sorted[i]->statenum = i;
   }
-  lemp->nxstate = lemp->nstate;
   while( lemp->nxstate>1 && lemp->sorted[lemp->nxstate-1]->autoReduce ){
     lemp->nxstate--;
   }
-- 
2.43.0


From 1549555eb6da4081fa7145c690c32097296303d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:00 +0000
Subject: [PATCH 08/44] fix: reader.c: argument lists without a declaration, or
 longer than declared, ran outside their arrays

---
 byacc/reader.c | 59 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 83ea4d5..a81346a 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1813,8 +1813,9 @@ declare_expect(byacc_t* S, int assoc)
 static void
 declare_argtypes(byacc_t* S, bucket *bp)
 {
-    char *tags[MAXARGS];
+    char **tags = NULL;
     int args = 0;
+    int maxargs = 0;
 
     if (bp->args >= 0)
 	retyped_warning(S, bp->name);
@@ -1826,6 +1827,12 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	    unexpected_EOF(S);
 	if (c != '<')
 	    syntax_error(S, S->lineno, S->line, S->cptr);
+	if (args >= maxargs)
+	{
+	    maxargs += MAXARGS;
+	    tags = TREALLOC(char *, tags, maxargs);
+	    NO_SPACE(tags);
+	}
 	tags[args++] = get_tag(S);
 	c = nextc(S);
 	if (c == R_PAREN)
@@ -1844,6 +1851,7 @@ declare_argtypes(byacc_t* S, bucket *bp)
 	bp->argtags[args] = tags[args];
 	bp->argnames[args] = NULL;
     }
+    FREE(tags);
 }
 #endif
 
@@ -2270,6 +2278,29 @@ parse_int(byacc_t* S, char *p, int *save)
     return p;
 }
 
+static void
+expand_args(byacc_t* S, bucket *bp, int args)
+{
+    int i = (bp->argtags != NULL) ? bp->args : 0;
+
+    bp->argnames = TREALLOC(char *, bp->argnames, args);
+    NO_SPACE(bp->argnames);
+    bp->argtags = TREALLOC(char *, bp->argtags, args);
+    NO_SPACE(bp->argtags);
+    for (; i < args; i++)
+    {
+	bp->argnames[i] = NULL;
+	bp->argtags[i] = NULL;
+    }
+    bp->args = args;
+}
+
+static char *
+arg_tag(bucket *bp, int i)
+{
+    return (bp->argtags != NULL && i < bp->args) ? bp->argtags[i] : NULL;
+}
+
 static void
 parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
 {
@@ -2280,16 +2311,16 @@ parse_arginfo(byacc_t* S, bucket *a, char *args, int argslen)
     {
 	if (a->args != argslen)
 	    arg_number_disagree_warning(S, S->rescan_lineno, a->name);
+	if (a->args < argslen)
+	    expand_args(S, a, argslen);
 	redec = 1;
     }
     else
     {
 	if ((a->args = argslen) == 0)
 	    return;
-	a->argnames = TMALLOC(char *, argslen);
-	NO_SPACE(a->argnames);
-	a->argtags = TMALLOC(char *, argslen);
-	NO_SPACE(a->argtags);
+	a->args = 0;
+	expand_args(S, a, argslen);
     }
     if (!args)
 	return;
@@ -2754,7 +2785,8 @@ insert_arg_rule(byacc_t* S, char *arg, char *tag)
 	fprintf(f, "%s;", code);
 	end_case(f);
 	insert_empty_rule(S);
-	S->plhs[rule]->tag = cache_tag(S, tag, strlen(tag));
+	if (tag != NULL)
+	    S->plhs[rule]->tag = cache_tag(S, tag, strlen(tag));
 	S->plhs[rule]->class = ARGUMENT;
     }
     else
@@ -2831,14 +2863,21 @@ add_symbol(byacc_t* S)
 
 #if defined(YYBTYACC)
     if (bp->args < 0)
+    {
 	bp->args = argslen;
+	if (argslen > 0)
+	{
+	    bp->args = 0;
+	    expand_args(S, bp, argslen);
+	}
+    }
     if (argslen == 0 && bp->args > 0 && S->pitem[S->nitems - 1] == NULL)
     {
 	int i;
 	if (S->plhs[S->nrules]->args != bp->args)
 	    wrong_number_args_warning(S, "default ", bp->name);
 	for (i = bp->args - 1; i >= 0; i--)
-	    if (S->plhs[S->nrules]->argtags[i] != bp->argtags[i])
+	    if (arg_tag(S->plhs[S->nrules], i) != arg_tag(bp, i))
 		wrong_type_for_arg_warning(S, i + 1, bp->name);
     }
     else if (bp->args != argslen)
@@ -2847,14 +2886,14 @@ add_symbol(byacc_t* S)
     {
 	char *ap = args;
 	int i = 0;
-	int elide_cnt = can_elide_arg(S, &ap, bp->argtags[0]);
+	int elide_cnt = can_elide_arg(S, &ap, arg_tag(bp, 0));
 
 	if (elide_cnt > argslen)
 	    elide_cnt = 0;
 	if (elide_cnt)
 	{
 	    for (i = 1; i < elide_cnt; i++)
-		if (can_elide_arg(S, &ap, bp->argtags[i]) != elide_cnt - i)
+		if (can_elide_arg(S, &ap, arg_tag(bp, i)) != elide_cnt - i)
 		{
 		    elide_cnt = 0;
 		    break;
@@ -2870,7 +2909,7 @@ add_symbol(byacc_t* S)
 	    i = 0;
 	}
 	for (; i < argslen; i++)
-	    ap = insert_arg_rule(S, ap, bp->argtags[i]);
+	    ap = insert_arg_rule(S, ap, arg_tag(bp, i));
 	free(args);
     }
 #endif /* defined(YYBTYACC) */
-- 
2.43.0


From 8cf70fa7e64dfa670db0cdf04a0f5ce04399fdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 09/44] fix: reader.c: a NUL byte in %destructor code sent
 process_destructor_XX past its end

---
 byacc/reader.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/byacc/reader.c b/byacc/reader.c
index a81346a..9eeef0b 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -3531,6 +3531,9 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
     mputc(new_code, c);
     switch (c)
     {
+    case '\0':
+	return msdone(new_code);
+
     case L_CURL:
 	++depth;
 	goto loop;
@@ -3554,6 +3557,8 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 		c = *codeptr++;
 		mputc(new_code, c);
 	    }
+	    if (c == '\0')
+		return msdone(new_code);
 	}
 
     case '/':
@@ -3572,6 +3577,8 @@ process_destructor_XX(byacc_t* S, char *code, char *tag)
 		    ++codeptr;
 		    goto loop;
 		}
+		if (c == '\0')
+		    return msdone(new_code);
 	    }
 	}
 	goto loop;
-- 
2.43.0


From 3fafd2b6c7d6f6c5f479f2ce7c57fa8029a331e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:01 +0000
Subject: [PATCH 10/44] fix: reader.c: byte 0xff in a grammar was taken for the
 end of the file

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 9eeef0b..d304d15 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -433,7 +433,7 @@ next_inline(byacc_t* S)
 
 	default:
 	    S->cptr = s;
-	    return (*s);
+	    return UCH(*s);
 	}
     }
 }
-- 
2.43.0


From 6127e84a3d5f4534e409149a1b7fbef08e782a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:58 +0000
Subject: [PATCH 11/44] fix: reader.c: lemon names of escaped and string
 literals (read outside the name table, '\\\\' and quote collided)

---
 byacc/reader.c | 60 ++++++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index d304d15..bca1b97 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4289,33 +4289,41 @@ typedef char char64_t[64];
 
 static const char *get_lemon_token_name(char64_t *buf, const char *tkname)
 {
-    int ch;
-    if(tkname[0] == '\'') {
-        if(tkname[2] == '\'') {
-            ch = tkname[1];
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        }            
-        else if(tkname[3] == '\'') {
-            ch = tkname[2];
-            switch(ch) {
-                case 'n': ch = '\n'; break;
-                case 't': ch = '\t'; break;
-                case 'f': ch = '\f'; break;
-                case 'r': ch = '\r'; break;
-                case 'v': ch = '\v'; break;
-                case '\\': ch = '\\'; break;
-                default:
-                    ch = -1;
+    if(tkname[0] == '\'' || tkname[0] == '"') {
+        /* a literal, in the form given to it by get_literal() */
+        const char *s = tkname + 1;
+        size_t len = 3;
+        strcpy(*buf, "Tk_");
+        while(*s && *s != tkname[0]) {
+            char item[32];
+            int ch = UCH(*s++);
+            if(ch == '\\') {
+                ch = UCH(*s++);
+                switch(ch) {
+                    case 'a': ch = 7; break;
+                    case 'b': ch = '\b'; break;
+                    case 'f': ch = '\f'; break;
+                    case 'n': ch = '\n'; break;
+                    case 'r': ch = '\r'; break;
+                    case 't': ch = '\t'; break;
+                    case 'v': ch = '\v'; break;
+                    default:
+                        if(IS_OCTAL(ch)) {
+                            ch = ((ch - '0') << 6) | ((s[0] - '0') << 3) | (s[1] - '0');
+                            s += 2;
+                        }
+                }
             }
-            if(ch < 127) snprintf(*buf, sizeof(char64_t), "Tk_%s", ygv_ascii_names_st[ch]);
-            else snprintf(*buf, sizeof(char64_t), "Tk_%d", ch);
-        } else
-            snprintf(*buf, sizeof(char64_t), "Tk_%*s", (int)strlen(tkname)-2, tkname+1);            
-    }
-    else if(tkname[0] == '"') {
-            snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname+1);
-            (*buf)[strlen(*buf)-1] = '\0';
+            if(tkname[0] == '"' && (isalnum(ch) || ch == '_'))
+                sprintf(item, "%c", ch);
+            else if(ch < 127)
+                sprintf(item, (tkname[0] == '"') ? "_%s_" : "%s", ygv_ascii_names_st[ch]);
+            else
+                sprintf(item, (tkname[0] == '"') ? "_%d_" : "%d", ch);
+            if(len + strlen(item) >= sizeof(char64_t)) break;
+            strcpy(*buf + len, item);
+            len += strlen(item);
+        }
     }
     else if(tkname[0] == '.' || tkname[0] == '_') {
             snprintf(*buf, sizeof(char64_t), "Tk_%s", tkname);
-- 
2.43.0


From d6da4b5210ba732a9c3972ee0bfa35c26e308ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:57 +0000
Subject: [PATCH 12/44] fix: reader.c: long names overflowed the buffer of the
 SQL export, or were cut short

---
 byacc/reader.c | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index bca1b97..8c62d5f 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4900,21 +4900,13 @@ print_grammar_carburetta(byacc_t* S)
     fprintf(f, "\t;\n"); /*last rule*/
 }
 
-static const char *escape_sql(char64_t *buf, const char *tkname)
+static void write_sql_escaped(FILE *f, const char *tkname)
 {
-    int i, i2;
-    for(i=0, i2 = 0; i<(int)(sizeof(char64_t)-1) && tkname[i2]; ++i, ++i2) {
-        switch(tkname[i2]) {
-            case '\'':
-                (*buf)[i++] = tkname[i2];
-                (*buf)[i] = tkname[i2];
-                break;
-            default:
-            (*buf)[i] = tkname[i2];
-        }
+    for(; *tkname; ++tkname) {
+        if(*tkname == '\'')
+            putc('\'', f);
+        putc(*tkname, f);
     }
-    (*buf)[i] = '\0';
-    return *buf;
 }
 
 static void
@@ -4923,7 +4915,6 @@ print_grammar_sql(byacc_t* S)
     int b, i, j, k;
     FILE *f = S->sql_file;
     bucket *bp;
-    char64_t buf;
 
     if (!S->sql_flag)
 	return;
@@ -4949,11 +4940,9 @@ print_grammar_sql(byacc_t* S)
                      "INSERT INTO symbol(id,name,isTerminal)"
                      " VALUES\n");
                 }
-                fprintf(f,
-                   " %s(%d,'%s',%s)\n",
-                   (b>0) ? "," : " ", bp->index, escape_sql(&buf, bp->name),
-                   (bp->class == TERM) ? "TRUE" : "FALSE"
-                );
+                fprintf(f, " %s(%d,'", (b>0) ? "," : " ", bp->index);
+                write_sql_escaped(f, bp->name);
+                fprintf(f, "',%s)\n", (bp->class == TERM) ? "TRUE" : "FALSE");
                 ++b;
                 break;
         }
-- 
2.43.0


From 4389fc6c751282d86cfb79417ce7891be07965c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:57 +0000
Subject: [PATCH 13/44] fix: lemon.c: code with an unfinished comment or string
 sent the scanner past the end of the file

---
 lemon/lemon.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index af96b8f..c1c24b8 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3070,7 +3070,6 @@ void Parse(struct lemon *gp)
   int lineno;
   int c;
   char *cp, *nextcp;
-  int startline = 0;
 
   memset(&ps, '\0', sizeof(ps));
   ps.gp = gp;
@@ -3143,7 +3142,7 @@ void Parse(struct lemon *gp)
         cp++;
       }
       if( c==0 ){
-        ErrorMsg(ps.filename,startline,
+        ErrorMsg(ps.filename,ps.tokenlineno,
             "String starting on this line is not terminated before "
             "the end of the file.");
         ps.errorcnt++;
@@ -3181,6 +3180,7 @@ void Parse(struct lemon *gp)
             else              prevc = c;
           }
         }
+        if( c==0 ) break;     /* end of the file inside a comment or string */
       }
       if( c==0 ){
         ErrorMsg(ps.filename,ps.tokenlineno,
-- 
2.43.0


From 65ddb834eb0d5d2b9aafe0e7e5a0ba0a25217456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:50 +0000
Subject: [PATCH 14/44] fix: lemon.c: a start symbol on a right-hand side is
 diagnosed instead of failing an assertion

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index c1c24b8..d1d97d6 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1345,6 +1345,7 @@ static int resolve_conflict(
       apx->type==SSCONFLICT ||
       apx->type==SRCONFLICT ||
       apx->type==RRCONFLICT ||
+      apy->type==ACCEPT ||    /* start symbol on a right-hand side */
       apy->type==SH_RESOLVED ||
       apy->type==RD_RESOLVED ||
       apy->type==SSCONFLICT ||
-- 
2.43.0


From d350d1dc587f5ab38257bf34236d95c2f2822528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:27 +0000
Subject: [PATCH 15/44] fix: lemon.c: long labels overflowed a fixed buffer in
 translate_code

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index d1d97d6..0763d0e 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4223,7 +4223,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
   char lhsdirect;        /* True if LHS writes directly into stack */
   char used[MAXRHS];     /* True for each RHS element which is used */
   char zLhs[50];         /* Convert the LHS symbol into this string */
-  char zOvwrt[900];      /* Comment that to allow LHS to overwrite RHS */
+  char *zOvwrt = 0;      /* Comment that to allow LHS to overwrite RHS */
   StrAppendBuffer sa_buf;
   memset(&sa_buf, 0, sizeof(sa_buf));
 
@@ -4271,6 +4271,9 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       lemp->errorcnt++;
     }
   }else{
+    zOvwrt = (char *)malloc( lemonStrlen(rp->lhsalias)
+                             + lemonStrlen(rp->rhsalias[0]) + 20 );
+    MemoryCheck( zOvwrt );
     lemon_sprintf(zOvwrt, "/*%s-overwrites-%s*/",
                   rp->lhsalias, rp->rhsalias[0]);
     zSkip = strstr(rp->code, zOvwrt);
@@ -4405,6 +4408,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     rp->noCode = 0;
   }
   free_StrAppendBuffer(&sa_buf);
+  free(zOvwrt);
 
   return rc;
 }
-- 
2.43.0


From 5be9991b91ce8d851fe53e497df18cd98c8e0cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:28 +0000
Subject: [PATCH 16/44] fix: lemon.c: code ending with a label was read past
 its end

---
 lemon/lemon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 0763d0e..3750b2a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4340,6 +4340,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         }
       }
       *xp = saved;
+      if( *cp==0 ) break;     /* the code ended with a label */
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From 72fd783b1f85414118ae08325bf8c616749cb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:57 +0000
Subject: [PATCH 17/44] fix: lemon.c: 256 errors (or a multiple) gave exit
 status 0

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 3750b2a..80430a5 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1757,7 +1757,7 @@ int main(int argc, char **argv){
 
   /* Parse the input file */
   Parse(&lem);
-  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt);
+  if( lem.printPreprocessed || lem.errorcnt ) exit(lem.errorcnt>255 ? 255 : lem.errorcnt);
   if( lem.nrule==0 ){
     fprintf(stderr,"Empty grammar.\n");
     exit(1);
-- 
2.43.0


From d735080963b09f2253f59f9fdbf7a5b1dbfa1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:39 +0000
Subject: [PATCH 18/44] fix: a reduction that conflicts with acceptance is a
 conflict, and never the default

---
 byacc/mkpar.c   |  9 +++++++--
 byacc/verbose.c | 33 ++++++++++++++++-----------------
 2 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/byacc/mkpar.c b/byacc/mkpar.c
index 65a0cc0..2674e73 100644
--- a/byacc/mkpar.c
+++ b/byacc/mkpar.c
@@ -232,13 +232,18 @@ remove_conflicts(byacc_t* S)
 		/* the first parse action for each symbol is the preferred action */
 		pref = p;
 		symbol = p->symbol;
+		if (i == S->final_state && symbol == 0)
+		{
+		    /* ... except that accepting is preferred to any reduction */
+		    S->fs8_SRcount++;
+		    p->suppressed = 2;
+		}
 	    }
 	    /* following conditions handle multiple, i.e., conflicting, parse actions */
 	    else if (i == S->final_state && symbol == 0)
 	    {
 		S->fs8_SRcount++;
-		p->suppressed = 1;
-		StartBacktrack(pref);
+		p->suppressed = 2;
 	    }
 	    else if (pref != 0 && pref->action_code == SHIFT)
 	    {
diff --git a/byacc/verbose.c b/byacc/verbose.c
index e2879a5..4b287c5 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -130,6 +130,13 @@ print_conflicts(byacc_t* S, int state)
     symbol = -1;
     for (p = S->parser[state]; p; p = p->next)
     {
+	if (state == S->final_state && p->symbol == 0)
+	{
+	    fprintf(S->verbose_file, "%d: shift/reduce conflict \
+(accept, reduce %ld [%s]) on $end\n", state, (long)(p->number - RULE_NUM_OFFSET), S->symbol_name[S->rlhs[p->number]]);
+	    continue;
+	}
+
 	if (p->suppressed == 2)
 	    continue;
 
@@ -144,29 +151,21 @@ print_conflicts(byacc_t* S, int state)
 	}
 	else if (p->suppressed == 1)
 	{
-            r2 = p->number - RULE_NUM_OFFSET;
-	    if (state == S->final_state && symbol == 0)
+	    r2 = p->number - RULE_NUM_OFFSET;
+	    if (act == SHIFT)
 	    {
 		fprintf(S->verbose_file, "%d: shift/reduce conflict \
-(accept, reduce %ld [%s]) on $end\n", state, (long)(r2), S->symbol_name[S->rlhs[p->number]]);
+(shift %ld, reduce %ld [%s]) on %s\n", state, (long)number, (long)(r2),
+			S->symbol_name[S->rlhs[p->number]], S->symbol_name[symbol]);
 	    }
 	    else
 	    {
-		if (act == SHIFT)
-		{
-		    fprintf(S->verbose_file, "%d: shift/reduce conflict \
-(shift %ld, reduce %ld [%s]) on %s\n", state, (long)number, (long)(r2),
-			    S->symbol_name[S->rlhs[p->number]], S->symbol_name[symbol]);
-		}
-		else
-		{
-                    r1 = number - RULE_NUM_OFFSET;
-		    fprintf(S->verbose_file, "%d: reduce/reduce conflict \
+		r1 = number - RULE_NUM_OFFSET;
+		fprintf(S->verbose_file, "%d: reduce/reduce conflict \
 (reduce %ld [%s], reduce %ld [%s]) on %s\n", state,
-                            (long)(r1), S->symbol_name[S->rlhs[r1]],
-                            (long)(r2), S->symbol_name[S->rlhs[p->number]],
-			    S->symbol_name[symbol]);
-		}
+			(long)(r1), S->symbol_name[S->rlhs[r1]],
+			(long)(r2), S->symbol_name[S->rlhs[p->number]],
+			S->symbol_name[symbol]);
 	    }
 	}
     }
-- 
2.43.0


From a1d22a0dda4f16f776cec1fa5808f9a78053ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 19/44] fix: name the left-hand side of the first rule in
 reduce/reduce conflict reports

---
 byacc/verbose.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/verbose.c b/byacc/verbose.c
index 4b287c5..27947fb 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -163,7 +163,7 @@ print_conflicts(byacc_t* S, int state)
 		r1 = number - RULE_NUM_OFFSET;
 		fprintf(S->verbose_file, "%d: reduce/reduce conflict \
 (reduce %ld [%s], reduce %ld [%s]) on %s\n", state,
-			(long)(r1), S->symbol_name[S->rlhs[r1]],
+			(long)(r1), S->symbol_name[S->rlhs[number]],
 			(long)(r2), S->symbol_name[S->rlhs[p->number]],
 			S->symbol_name[symbol]);
 	    }
-- 
2.43.0


From d409bbfd12fbe997e818a87068668e20130f0390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 20/44] fix: msprintf loops forever on text of 4096 characters
 or more

---
 byacc/mstring.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/byacc/mstring.c b/byacc/mstring.c
index a031744..6437f09 100644
--- a/byacc/mstring.c
+++ b/byacc/mstring.c
@@ -36,16 +36,18 @@ msprintf(byacc_t* S, struct mstring *s, const char *fmt, ...)
 	va_start(args, fmt);
 	len = (size_t)vsnprintf(S->fs5_buf_ptr, S->fs5_buf_len, fmt, args);
 	va_end(args);
-	if ((changed = (len > S->fs5_buf_len)) != 0)
+	if ((changed = (len >= S->fs5_buf_len)) != 0)
 	{
-	    char *new_ptr = realloc(S->fs5_buf_ptr, (S->fs5_buf_len * 3) / 2);
+	    char *new_ptr = realloc(S->fs5_buf_ptr, len + 1);
 	    if (new_ptr == 0)
 	    {
 		free(S->fs5_buf_ptr);
 		S->fs5_buf_ptr = 0;
+		S->fs5_buf_len = 0;
 		return;
 	    }
 	    S->fs5_buf_ptr = new_ptr;
+	    S->fs5_buf_len = len + 1;
 	}
     }
     while (changed);
-- 
2.43.0


From 80fd7e6d8b6ca2c5108d2ba2cee90653cce0461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 21/44] fix: tags are looked up with their terminating NUL,
 reading beyond the table's copies

---
 byacc/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 8c62d5f..2c6a8ec 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -1677,7 +1677,7 @@ get_tag(byacc_t* S)
 
     FREE(t_line);
     S->havetags = 1;
-    return cache_tag(S, S->cache, (size_t)S->cinc);
+    return cache_tag(S, S->cache, (size_t)(S->cinc - 1));	/* without the NUL */
 }
 
 #if defined(YYBTYACC)
-- 
2.43.0


From ca7840fab0dfbbadb15a828fd4b8d65e05c4c9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 22/44] fix: count the lines of the initial action, so that
 later #line directives are right

---
 byacc/output.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/byacc/output.c b/byacc/output.c
index 2867e5a..8c5fdf9 100644
--- a/byacc/output.c
+++ b/byacc/output.c
@@ -1938,7 +1938,14 @@ static void
 output_initial_action(byacc_t* S)
 {
     if (S->initial_action)
-	fprintf(S->code_file, "%s\n", S->initial_action);
+    {
+	const char *p;
+
+	for (p = S->initial_action; *p != '\0'; ++p)
+	    putc_code(S, S->code_file, *p);
+	putc_code(S, S->code_file, '\n');
+	write_code_lineno(S, S->code_file);
+    }
 }
 
 static void
-- 
2.43.0


From d6483a8ea057f17dd4aaf230e6fca5b648e4ee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 23/44] fix: with -r the #ident line does not count for the
 code file

---
 byacc/reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index 2c6a8ec..c6a71db 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -598,7 +598,8 @@ copy_ident(byacc_t* S)
 	unexpected_EOF(S);
     if (c != '"')
 	syntax_error(S, S->lineno, S->line, S->cptr);
-    ++S->outline;
+    if (f == S->code_file)
+	++S->outline;
     fprintf(f, "#ident \"");
     for (;;)
     {
-- 
2.43.0


From c4076d551d6de4ad7ccd7103d514dc13be46aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:21 +0000
Subject: [PATCH 24/44] fix: %code that starts on a new line gets the number of
 that line

---
 byacc/reader.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index c6a71db..f966f4b 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -791,7 +791,8 @@ copy_code(byacc_t* S)
     }
     cline++;
     if (!S->lflag)
-	msprintf(S, code_mstr, S->line_format, S->lineno, S->input_file_name);
+	msprintf(S, code_mstr, S->line_format,
+		 S->lineno + (*S->cptr == '\0'), S->input_file_name);
     for (;;)
     {
 	c = *S->cptr++;
-- 
2.43.0


From 41fa9b42e1b89f4b236d4792b5b8b868894df12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:54 +0000
Subject: [PATCH 25/44] fix: lemon.c: count the lines of the generated parser
 right for its #line directives

---
 lemon/lemon.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 80430a5..8e66e42 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3988,14 +3988,13 @@ PRIVATE void tplt_xfer(char *name, FILE *in, FILE *out, int *lineno)
   }
 }
 
-/* Skip forward past the header of the template file to the first "%%"
+/* Skip forward past the header of the template file to the first "%%".
+** Nothing is written, so the line number of the output stays as it is.
 */
-PRIVATE void tplt_skip_header(FILE *in, int *lineno)
+PRIVATE void tplt_skip_header(FILE *in)
 {
   char line[LINESIZE];
-  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){
-    (*lineno)++;
-  }
+  while( fgets(line,LINESIZE,in) && (line[0]!='%' || line[1]!='%') ){}
 }
 
 /* The next function finds the template file and opens it, returning
@@ -4572,6 +4571,7 @@ void print_stack_union(
   for(i=0; i<arraysize; i++){
     if( types[i]==0 ) continue;
     fprintf(out,"  %s yy%d;\n",types[i],i+1); lineno++;
+    for(j=0; types[i][j]; j++){ if( types[i][j]=='\n' ) lineno++; }
     free(types[i]);
   }
   if( lemp->errsym && lemp->errsym->useCnt ){
@@ -4987,7 +4987,7 @@ void ReportTable(
     }
   }
   if( lemp->include[0]=='/' ){
-    tplt_skip_header(in,&lineno);
+    tplt_skip_header(in);
   }else{
     tplt_xfer(lemp->name,in,out,&lineno);
   }
@@ -5008,6 +5008,7 @@ void ReportTable(
     fprintf(out,"#if INTERFACE\n"); lineno++;
   }else{
     fprintf(out,"#ifndef %s%s\n", prefix, lemp->symbols[1]->name);
+    lineno++;
   }
   for(i=1; i<lemp->nterminal; i++){
     fprintf(out,"#define %s%-30s %2d\n",prefix,lemp->symbols[i]->name,i);
-- 
2.43.0


From 43c071c4f06e0229de3e874914798a14af39a27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:54 +0000
Subject: [PATCH 26/44] fix: lemon.c: destroy unlabelled values of token
 classes and A|B

---
 lemon/lemon.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 8e66e42..a252495 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4137,7 +4137,7 @@ void emit_destructor_code(
 int has_destructor(struct symbol *sp, struct lemon *lemp)
 {
   int ret;
-  if( sp->type==TERMINAL ){
+  if( sp->type==TERMINAL || sp->type==MULTITERMINAL ){
     ret = lemp->tokendest!=0;
   }else{
     ret = lemp->vardest!=0 || sp->destructor!=0;
@@ -4145,6 +4145,15 @@ int has_destructor(struct symbol *sp, struct lemon *lemp)
   return ret;
 }
 
+/*
+** Return the index to give to yy_destructor() for a value of symbol sp.
+** Any member of a MULTITERMINAL does, as all tokens share one destructor.
+*/
+static int destructor_index(struct symbol *sp)
+{
+  return sp->type==MULTITERMINAL ? sp->subsym[0]->index : sp->index;
+}
+
 /*
 ** Append text to a dynamically allocated string.  If zText is 0 then
 ** reset the string to be empty again.  Always return the complete text
@@ -4249,7 +4258,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
     if( has_destructor(rp->rhs[0],lemp) ){
       append_str(&sa_buf, 0,0,0,0);
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-                 rp->rhs[0]->index,1-rp->nrhs);
+                 destructor_index(rp->rhs[0]),1-rp->nrhs);
       rp->codePrefix = Strsafe(lemp, append_str(&sa_buf, 0,0,0,0));
       rp->noCode = 0;
     }
@@ -4389,7 +4398,7 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
       }
     }else if( i>0 && has_destructor(rp->rhs[i],lemp) ){
       append_str(&sa_buf, "  yy_destructor(yypParser,%d,&yymsp[%d].minor);\n", 0,
-         rp->rhs[i]->index,i-rp->nrhs+1);
+         destructor_index(rp->rhs[i]),i-rp->nrhs+1);
     }
   }
 
-- 
2.43.0


From f78ac19100506fed741f467eb27f3c73fd485e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:54 +0000
Subject: [PATCH 27/44] fix: lemon.c: see the overwrites comment when it
 follows a label directly

---
 lemon/lemon.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index a252495..aebeff2 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4348,7 +4348,10 @@ PRIVATE int translate_code(struct lemon *lemp, struct rule *rp){
         }
       }
       *xp = saved;
-      if( *cp==0 ) break;     /* the code ended with a label */
+      if( cp==xp ){
+        cp--;                 /* what follows the label comes next */
+        continue;
+      }
     }
     append_str(&sa_buf, cp, 1, 0, 0);
   } /* End loop */
-- 
2.43.0


From 9dedd5a588828d0bb3365a1dbbc7a1e2110c7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:01 +0000
Subject: [PATCH 28/44] fix: lemon.c: in %default_destructor $$ is the member
 of each symbol's own type

---
 lemon/lemon.c | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index aebeff2..681b60c 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4154,6 +4154,14 @@ static int destructor_index(struct symbol *sp)
   return sp->type==MULTITERMINAL ? sp->subsym[0]->index : sp->index;
 }
 
+/*
+** Return true if sp is a non-terminal that %default_destructor destroys.
+*/
+static int has_default_destructor(struct symbol *sp)
+{
+  return sp!=0 && sp->type!=TERMINAL && sp->index>0 && sp->destructor==0;
+}
+
 /*
 ** Append text to a dynamically allocated string.  If zText is 0 then
 ** reset the string to be empty again.  Always return the complete text
@@ -5394,23 +5402,29 @@ void ReportTable(
     }
   }
   if( lemp->vardest ){
-    struct symbol *dflt_sp = 0;
     int once = 1;
     for(i=0; i<lemp->nsymbol; i++){
       struct symbol *sp = lemp->symbols[i];
-      if( sp==0 || sp->type==TERMINAL ||
-          sp->index<=0 || sp->destructor!=0 ) continue;
+      if( !has_default_destructor(sp) ) continue;
+      /* Symbols with one datatype share a case, as "$$" stands for the
+      ** member of the union with that type */
+      for(j=0; j<i; j++){
+        if( has_default_destructor(lemp->symbols[j])
+            && lemp->symbols[j]->dtnum==sp->dtnum ) break;
+      }
+      if( j<i ) continue;     /* Already emitted */
       if( once ){
         fprintf(out, "      /* Default NON-TERMINAL Destructor */\n");lineno++;
         once = 0;
       }
-      fprintf(out,"    case %d: /* %s */\n", sp->index, sp->name); lineno++;
-      dflt_sp = sp;
-    }
-    if( dflt_sp!=0 ){
-      emit_destructor_code(out,dflt_sp,lemp,&lineno);
+      for(j=i; j<lemp->nsymbol; j++){
+        struct symbol *sp2 = lemp->symbols[j];
+        if( !has_default_destructor(sp2) || sp2->dtnum!=sp->dtnum ) continue;
+        fprintf(out,"    case %d: /* %s */\n", sp2->index, sp2->name); lineno++;
+      }
+      emit_destructor_code(out,sp,lemp,&lineno);
+      fprintf(out,"      break;\n"); lineno++;
     }
-    fprintf(out,"      break;\n"); lineno++;
   }
   for(i=0; i<lemp->nsymbol; i++){
     struct symbol *sp = lemp->symbols[i];
-- 
2.43.0


From a7a5adc1b92be9af540e2b45230a21c6a4ef017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:46 +0000
Subject: [PATCH 29/44] fix: lemon.c: compare an existing header with what
 would be written, without overflow

---
 lemon/lemon.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 681b60c..8669fb1 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5559,15 +5559,25 @@ void ReportHeader(struct lemon *lemp)
   else                    prefix = "";
   in = file_open(lemp,".h","rb");
   if( in ){
-    int nextChar;
-    for(i=1; i<lemp->nterminal && fgets(line,LINESIZE,in); i++){
-      lemon_sprintf(pattern,"#define %s%-30s %3d\n",
-                    prefix,lemp->symbols[i]->name,i);
-      if( strcmp(line,pattern) ) break;
+    int n, same = 1;
+    for(i=0; same && i<=lemp->nterminal+1; i++){
+      if( i==0 ){
+        n = snprintf(pattern,LINESIZE,"enum %sLemonEnum {\n",prefix);
+      }else if( i<lemp->nterminal ){
+        n = snprintf(pattern,LINESIZE," %s%s = %3d,\n",
+                     prefix,lemp->symbols[i]->name,i);
+      }else if( i==lemp->nterminal ){
+        n = snprintf(pattern,LINESIZE," %s%s = %3d\n",
+                     prefix,"LEMON_LAST_TOKEN",i);
+      }else{
+        n = snprintf(pattern,LINESIZE,"};\n");
+      }
+      same = n<LINESIZE && fgets(line,LINESIZE,in)!=0
+             && strcmp(line,pattern)==0;
     }
-    nextChar = fgetc(in);
+    if( same ) same = fgetc(in)==EOF;
     fclose(in);
-    if( i==lemp->nterminal && nextChar==EOF ){
+    if( same ){
       /* No change in the file.  Don't rewrite it. */
       return;
     }
-- 
2.43.0


From 5ce41dc3dff1afe86de0a8ead95c212580374877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:46 +0000
Subject: [PATCH 30/44] fix: lemon.c: names of grammar files of 997 characters
 or more overflowed a buffer

---
 lemon/lemon.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 8669fb1..e5c9a6d 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4001,7 +4001,7 @@ PRIVATE void tplt_skip_header(FILE *in)
 ** a pointer to the opened file. */
 PRIVATE FILE *tplt_open(struct lemon *lemp)
 {
-  char buf[1000];
+  char *buf;
   FILE *in;
   char *tpltname;
   char *toFree = 0;
@@ -4025,6 +4025,8 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     return in;
   }
 
+  buf = (char*)malloc( lemonStrlen(lemp->filename) + 4 );
+  MemoryCheck( buf );
   cp = strrchr(lemp->filename,'.');
   if( cp ){
     lemon_sprintf(buf,"%.*s.lt",(int)(cp-lemp->filename),lemp->filename);
@@ -4042,6 +4044,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     fprintf(stderr,"Can't find the parser driver template file \"%s\".\n",
     lemp->templatename);
     lemp->errorcnt++;
+    free(buf);
     return 0;
   }
   in = fopen(tpltname,"rb");
@@ -4050,6 +4053,7 @@ PRIVATE FILE *tplt_open(struct lemon *lemp)
     lemp->errorcnt++;
   }
   free(toFree);
+  free(buf);
   return in;
 }
 
-- 
2.43.0


From fafe317255c290309fe6cf485dbe1263bdbe039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:43 +0000
Subject: [PATCH 31/44] fix: y.output names the action a reduction conflicts
 with, not whichever was listed before it

---
 byacc/defs.h    |  1 +
 byacc/mkpar.c   |  2 ++
 byacc/verbose.c | 43 ++++++++++++++-----------------------------
 3 files changed, 17 insertions(+), 29 deletions(-)

diff --git a/byacc/defs.h b/byacc/defs.h
index d0f441d..386041d 100644
--- a/byacc/defs.h
+++ b/byacc/defs.h
@@ -299,6 +299,7 @@ struct action
     Value_t prec;
     char action_code;
     Assoc_t assoc;
+    action *conflict;		/* the action this one conflicts with */
     char suppressed;
 };
 
diff --git a/byacc/mkpar.c b/byacc/mkpar.c
index 2674e73..a28fbe6 100644
--- a/byacc/mkpar.c
+++ b/byacc/mkpar.c
@@ -277,6 +277,7 @@ remove_conflicts(byacc_t* S)
 		{
 		    S->fs8_SRcount++;
 		    p->suppressed = 1;
+		    p->conflict = pref;
 		    StartBacktrack(pref);
 		}
 	    }
@@ -303,6 +304,7 @@ remove_conflicts(byacc_t* S)
 		{
 		    S->fs5_RRcount++;
 		    p->suppressed = 1;
+		    p->conflict = pref;
 		    StartBacktrack(pref);
 		}
 	    }
diff --git a/byacc/verbose.c b/byacc/verbose.c
index 27947fb..9620819 100644
--- a/byacc/verbose.c
+++ b/byacc/verbose.c
@@ -121,13 +121,9 @@ print_state(byacc_t* S, int state)
 static void
 print_conflicts(byacc_t* S, int state)
 {
-    int symbol, act, number;
     Value_t r1, r2;
-    action *p;
+    action *p, *q;
 
-    act = 0;			/* not shift/reduce... */
-    number = -1;
-    symbol = -1;
     for (p = S->parser[state]; p; p = p->next)
     {
 	if (state == S->final_state && p->symbol == 0)
@@ -137,36 +133,25 @@ print_conflicts(byacc_t* S, int state)
 	    continue;
 	}
 
-	if (p->suppressed == 2)
+	q = p->conflict;
+	if (q == 0)
 	    continue;
 
-	if (p->symbol != symbol)
+	r2 = p->number - RULE_NUM_OFFSET;
+	if (q->action_code == SHIFT)
 	{
-	    symbol = p->symbol;
-	    number = p->number;
-	    if (p->action_code == SHIFT)
-		act = SHIFT;
-	    else
-		act = REDUCE;
+	    fprintf(S->verbose_file, "%d: shift/reduce conflict \
+(shift %ld, reduce %ld [%s]) on %s\n", state, (long)q->number, (long)(r2),
+		    S->symbol_name[S->rlhs[p->number]], S->symbol_name[p->symbol]);
 	}
-	else if (p->suppressed == 1)
+	else
 	{
-	    r2 = p->number - RULE_NUM_OFFSET;
-	    if (act == SHIFT)
-	    {
-		fprintf(S->verbose_file, "%d: shift/reduce conflict \
-(shift %ld, reduce %ld [%s]) on %s\n", state, (long)number, (long)(r2),
-			S->symbol_name[S->rlhs[p->number]], S->symbol_name[symbol]);
-	    }
-	    else
-	    {
-		r1 = number - RULE_NUM_OFFSET;
-		fprintf(S->verbose_file, "%d: reduce/reduce conflict \
+	    r1 = q->number - RULE_NUM_OFFSET;
+	    fprintf(S->verbose_file, "%d: reduce/reduce conflict \
 (reduce %ld [%s], reduce %ld [%s]) on %s\n", state,
-			(long)(r1), S->symbol_name[S->rlhs[number]],
-			(long)(r2), S->symbol_name[S->rlhs[p->number]],
-			S->symbol_name[symbol]);
-	    }
+		    (long)(r1), S->symbol_name[S->rlhs[q->number]],
+		    (long)(r2), S->symbol_name[S->rlhs[p->number]],
+		    S->symbol_name[p->symbol]);
 	}
     }
 }
-- 
2.43.0


From 14045b9fbc91536efa245e3eaa61fe07202c37b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:05 +0000
Subject: [PATCH 32/44] fix: lemon.c: exports name the declared start symbol,
 not the first rule's

---
 lemon/lemon.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index e5c9a6d..f11421f 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -1789,6 +1789,11 @@ int main(int argc, char **argv){
     if( rp->iRule<0 ) rp->iRule = i++;
   }
   lem.startRule = lem.rule;
+  if( lem.start ){
+    /* the rules of the start symbol need not come first */
+    struct symbol *sp = Symbol_find(&lem, lem.start);
+    if( sp && sp->rule ) lem.startRule = sp->rule;
+  }
   
   /* Generate a reprint of the grammar, if requested on the command line */
   if( rpflag ){
-- 
2.43.0


From d990d721a729fb037e9002a5effa911f574261f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:05 +0000
Subject: [PATCH 33/44] fix: lemon.c: %if conditions: && binds tighter than ||,
 an unclosed parenthesis or missing operand is an error

---
 lemon/lemon.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index f11421f..5295df5 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -2906,6 +2906,8 @@ static void parseonetoken(struct lemon *lem, struct pstate *psp)
 static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
   int neg = 0;
   int res = 0;
+  int all = 1;     /* value of the terms joined by && so far */
+  int any = 0;     /* value of the operands of || before these */
   int okTerm = 1;
   int i;
   for(i=0; z[i]!=0; i++){
@@ -2917,14 +2919,15 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     if( z[i]=='|' && z[i+1]=='|' ){
       if( okTerm ) goto pp_syntax_error;
-      if( res ) return 1;
+      any = any || (all && res);
+      all = 1;
       i++;
       okTerm = 1;
       continue;
     }
     if( z[i]=='&' && z[i+1]=='&' ){
       if( okTerm ) goto pp_syntax_error;
-      if( !res ) return 0;
+      all = all && res;
       i++;
       okTerm = 1;
       continue;
@@ -2933,7 +2936,7 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
       int k;
       int n = 1;
       if( !okTerm ) goto pp_syntax_error;
-      for(k=i+1; z[k]; k++){
+      for(k=i+1; n>0; k++){
         if( z[k]==')' ){
           n--;
           if( n==0 ){
@@ -2987,7 +2990,8 @@ static int eval_preprocessor_boolean(struct lemon *lem, char *z, int lineno){
     }
     goto pp_syntax_error;
   }
-  return res;
+  if( okTerm ) goto pp_syntax_error;
+  return any || (all && res);
 
 pp_syntax_error:
   if( lineno>0 ){
-- 
2.43.0


From db42d562abe8f468f7eaa21b8b1f5191297bab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:05 +0000
Subject: [PATCH 34/44] fix: lemon.c: %endif at the end of the file without a
 newline

---
 lemon/lemon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 5295df5..25bf647 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3017,7 +3017,7 @@ static void preprocess_input(struct lemon *lem, char *z){
   for(i=0; z[i]; i++){
     if( z[i]=='\n' ) lineno++;
     if( z[i]!='%' || (i>0 && z[i-1]!='\n') ) continue;
-    if( strncmp(&z[i],"%endif",6)==0 && ISSPACE(z[i+6]) ){
+    if( strncmp(&z[i],"%endif",6)==0 && (ISSPACE(z[i+6]) || z[i+6]==0) ){
       if( exclude ){
         exclude--;
         if( exclude==0 ){
-- 
2.43.0


From 485c296e566e421622e27b72a498aad1d1319d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:14 +0000
Subject: [PATCH 35/44] fix: lemon.c: -g and the SQL grammar view print
 declarations lemon can read back, and none is lost

---
 lemon/lemon.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 25bf647..ed55f63 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3517,13 +3517,21 @@ void Reprint(struct lemon *lemp)
   Reprint_token_numbers(lemp);
   Reprint_tokens(lemp, " .", 0);
   if(lemp->stacksize) {
-    printf("\n%%stack_size %s .\n", lemp->stacksize);
+    printf("\n%%stack_size %s\n", lemp->stacksize);
   }
 
   if(lemp->wildcard) {
     printf("\n%%wildcard %s .\n", lemp->wildcard->name);
   }
 
+  if(lemp->yaccPrec) {
+    printf("\n%%yacc_prec\n");
+  }
+
+  if(lemp->expect) {
+    printf("\n%%expect %s\n", lemp->expect);
+  }
+
   printf("\n%%start_symbol %s\n\n", lemp->startRule->lhs->name);
 
   for(rp=lemp->rule, prev_rp=NULL; rp; prev_rp=rp, rp=rp->next){
@@ -4936,7 +4944,7 @@ void ReportSQL(
     "SELECT * FROM prec_view\n"
     "UNION ALL\n"
     "SELECT '\n"
-    "%%stack_size ' || stack_size || ' .\n"
+    "%%stack_size ' || stack_size || '\n"
     "'\n"
     "FROM directives\n"
     "UNION ALL\n"
-- 
2.43.0


From fc4b84dd37cb0e65c5a83cd9dcbd6a3075f9eeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:14 +0000
Subject: [PATCH 36/44] fix: lemon.c: -y and -Y write one rule for every choice
 of alternative terminals

---
 lemon/lemon.c | 40 +++++++++++++++++-----------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index ed55f63..62b43a5 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -3579,8 +3579,8 @@ void Reprint(struct lemon *lemp)
 
 /* Print the text of a rule
 */
-void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
-  int i, j;
+void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx, int mt_count){
+  int i;
   fprintf(out, "%s", rp->lhs->name);
   /*    if( rp->lhsalias ) fprintf(out,"(%s)",rp->lhsalias); */
   fprintf(out," :");
@@ -3591,9 +3591,11 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
     for(i=0; i<rp->nrhs; i++){
       struct symbol *sp = rp->rhs[i];
       if( sp->type==MULTITERMINAL ){
-        //fprintf(out," m_t_%d", sp->id);
-        fprintf(out," %s", sp->subsym[mt_idx]->name);
-        print_symbol_prec_commented(out, sp->subsym[mt_idx]);
+        struct symbol *sub;
+        mt_count /= sp->nsubsym;
+        sub = sp->subsym[mt_idx/mt_count%sp->nsubsym];
+        fprintf(out," %s", sub->name);
+        print_symbol_prec_commented(out, sub);
       }else{
         fprintf(out," %s", sp->name);
         print_symbol_prec_commented(out, sp);
@@ -3604,28 +3606,20 @@ void rule_print_yacc0(FILE *out, struct rule *rp, int mt_idx){
 }
 
 void rule_print_yacc(FILE *out, struct rule *rp){
-    int i, j;
+    int i, mt_count = 1;
+    /* one rule for every choice of terminals for A|B and token classes */
     for(i=0; i<rp->nrhs; i++){
       struct symbol *sp = rp->rhs[i];
-      if( sp->type==MULTITERMINAL ){
-        for(j=0; j<sp->nsubsym; j++){
-          rule_print_yacc0(out, rp, j);
-          if( rp->precsym ) {
-              fprintf(out, " %%prec %s",rp->precsym->name);
-              print_symbol_prec_commented(out, rp->precsym);
-          }
-          fprintf(out, " ;\n");
-        }
-        return;
-      }
-      /* if( rp->rhsalias[i] ) fprintf(out,"(%s)",rp->rhsalias[i]); */
+      if( sp->type==MULTITERMINAL ) mt_count *= sp->nsubsym;
     }
-    rule_print_yacc0(out, rp, -1);
-    if( rp->precsym ) {
-        fprintf(out, " %%prec %s",rp->precsym->name);
-        print_symbol_prec_commented(out, rp->precsym);
+    for(i=0; i<mt_count; i++){
+      rule_print_yacc0(out, rp, i, mt_count);
+      if( rp->precsym ) {
+          fprintf(out, " %%prec %s",rp->precsym->name);
+          print_symbol_prec_commented(out, rp->precsym);
+      }
+      fprintf(out, " ;\n");
     }
-    fprintf(out, " ;\n");
 }
 
 /* Duplicate the input file without comments and without actions
-- 
2.43.0


From 3a2ed827167e790408442b4cfc2fb342dbac4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 37/44] fix: -S: right-hand sides in the SQL script when the
 first rule is empty or starts with an action

---
 byacc/reader.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index f966f4b..c4115a0 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -5068,8 +5068,12 @@ print_grammar_sql(byacc_t* S)
                 }
                 ++k;
             }
-        } else { /* empty rule */
-            if(!skip_rule) fprintf(f,
+        } else if(!skip_rule) { /* empty rule */
+            if(b==0) {
+              fprintf(f,
+                "INSERT INTO rulerhs(ruleid,pos,sym) VALUES\n");
+            }
+            fprintf(f,
               " %s(%d,%d,NULL)",
               (b > 0) ? "," : " ", i, j++
             );
-- 
2.43.0


From 4544c6d9e3cecfa43a0de87a1783f30cb57fc6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:55 +0000
Subject: [PATCH 38/44] fix: -E: the lemon grammar keeps symbols apart, yacc's
 rule precedences, and has a start symbol lemon accepts

---
 byacc/reader.c | 73 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 11 deletions(-)

diff --git a/byacc/reader.c b/byacc/reader.c
index c4115a0..223b34b 100644
--- a/byacc/reader.c
+++ b/byacc/reader.c
@@ -4414,22 +4414,58 @@ get_prec_name(byacc_t* S, int sym_id) {
     return assoc_name;
 }
 
+/* names for lemon: made of letters, digits and underscores, and no two alike */
+static char64_t *
+get_lemon_names(byacc_t* S)
+{
+    int i, j, k, n;
+    char64_t buf;
+    char64_t *names = TMALLOC(char64_t, S->nsyms);
+    NO_SPACE(names);
+
+    for (i = 0; i < S->nsyms; ++i)
+    {
+	if (i < S->ntokens)
+	    get_lemon_token_name(&buf, S->symbol_name[i]);
+	else if (i == S->start_symbol)
+	    strcpy(buf, "x_start_rule_");
+	else
+	    get_lemon_rule_name(&buf, S->symbol_name[i]);
+	for (k = 0; buf[k]; ++k)
+	    if (!isalnum(UCH(buf[k])))
+		buf[k] = '_';
+	strcpy(names[i], buf);
+	for (n = 2, j = 0; j < i; ++j)
+	{
+	    if (strcmp(names[i], names[j]) == 0)
+	    {
+		sprintf(names[i], "%.48s_%d", buf, n++);
+		j = -1;
+	    }
+	}
+    }
+    return names;
+}
+
 static void
 print_grammar_lemon(byacc_t* S)
 {
     int i, k;
     FILE *f = S->lemon_file;
-    char64_t buf;
+    char64_t *names;
+    int goal;
 
     if (!S->lemon_flag)
 	return;
 
+    names = get_lemon_names(S);
+    goal = S->goal->index;
     for (i = 0; i < S->ntokens; ++i)
     {
         const char *sym_name = S->symbol_name[i];
         if(!(sym_name[0] == '$' || strcmp(sym_name, "error") == 0))
             if(sym_name[0] != '"')
-                fprintf(f, "%%token %s .\n", get_lemon_token_name(&buf, sym_name));
+                fprintf(f, "%%token %s .\n", names[i]);
     }
     fprintf(f, "\n");
 
@@ -4447,7 +4483,7 @@ print_grammar_lemon(byacc_t* S)
                         fprintf(f, "%%%s /*%d*/", assoc_name, prec);
                         sassoc = 1;
                     }
-                    fprintf(f, " %s", get_lemon_token_name(&buf, sym_name));
+                    fprintf(f, " %s", names[i]);
                 }
             }
         }
@@ -4455,17 +4491,26 @@ print_grammar_lemon(byacc_t* S)
             fprintf(f, " .\n");
         }
     }
-    fprintf(f, "\n%%start_symbol %s\n", get_lemon_rule_name(&buf, S->goal->name));
+    /* lemon wants a start symbol that is on no right-hand side */
+    for (k = 4; k < S->nitems; ++k)
+	if (S->ritem[k] == goal)
+	    goal = 0; /* this one is $accept's */
+    if (goal)
+	fprintf(f, "\n%%start_symbol %s\n", names[goal]);
+    else
+	fprintf(f, "\n%%start_symbol %s\n\n%s ::= %s .\n", names[S->start_symbol], names[S->start_symbol], names[S->goal->index]);
 
     k = 1;
     for (i = START_RULE_IDX; i < S->nrules; ++i)
     {
         const char *sym_name = S->symbol_name[S->rlhs[i]];
         int skip_rule = sym_name[0] == '$';
+        int first_prec = 0; /* of the terminal lemon would take it from */
+        int last = -1;
 	{
             if (S->rlhs[i] != S->rlhs[i - 1]) fprintf(f, "\n");
 	    if(!skip_rule)
-                fprintf(f, "%s ::=", (i == START_RULE_IDX) ? "x_start_rule_" : get_lemon_rule_name(&buf, sym_name));
+                fprintf(f, "%s ::=", names[S->rlhs[i]]);
 	}
 
         if(!(S->ritem[k] >= 0)) {
@@ -4479,13 +4524,12 @@ print_grammar_lemon(byacc_t* S)
                 Value_t symbol = S->ritem[k];
                 sym_name = S->symbol_name[symbol];
                 if(!skip_rule && sym_name[0] != '$') {
-                    bucket *bp = lookup(S, sym_name);
-                    if(bp->class == TERM) {
-                        fprintf(f, " %s", get_lemon_token_name(&buf, sym_name));
+                    fprintf(f, " %s", names[symbol]);
+                    if(symbol < S->ntokens) {
                         print_symbol_prec_commented(S, f, symbol);
+                        if(first_prec == 0) first_prec = S->symbol_prec[symbol];
+                        last = symbol;
                     }
-                    else
-                        fprintf(f, " %s", get_lemon_rule_name(&buf, sym_name));
                 }
                 ++k;
             }
@@ -4494,13 +4538,20 @@ print_grammar_lemon(byacc_t* S)
         if(!skip_rule) {
             bucket *prec_bucket = S->rprec_bucket[i];
             if(prec_bucket) {
-                fprintf(f, " . [%s]", get_lemon_token_name(&buf, prec_bucket->name));
+                fprintf(f, " . [%s]", names[prec_bucket->index]);
                 print_symbol_prec_assoc_commented(f, prec_bucket->prec, prec_bucket->assoc);
                 fprintf(f, "\n");
             }
+            else if(last >= 0 && !S->ignore_prec_flag && S->rprec[i] != first_prec) {
+                /* yacc takes it from the last terminal */
+                fprintf(f, " . [%s]", names[last]);
+                print_symbol_prec_commented(S, f, (Value_t)last);
+                fprintf(f, "\n");
+            }
             else fprintf(f, " .\n");
         }
     }
+    FREE(names);
 }
 
 static void
-- 
2.43.0


From 51bb5cedaa8da234f5631215c9ef5449689d08ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 39/44] fix: lemon.c: default reductions do not hide %fallback,
 nor stand in for other rules beside %wildcard

---
 lemon/lemon.c | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 62b43a5..7023d85 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -5656,20 +5656,38 @@ void CompressTables(struct lemon *lemp)
 
     /* Do not make a default if the number of rules to default
     ** is not at least 1 or if the wildcard token is a possible
-    ** lookahead.
+    ** lookahead for anything but the default rule.
     */
+    for(ap=stp->ap; ap && rbest; ap=ap->next){
+      if( ap->type==REDUCE && ap->sp==lemp->wildcard && ap->x.rp!=rbest ){
+        usesWildcard = 1;
+      }
+    }
     if( nbest<1 || usesWildcard ) continue;
 
 
-    /* Combine matching REDUCE actions into a single default */
-    for(ap=stp->ap; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) break;
-    }
-    assert( ap );
-    ap->sp = Symbol_new(lemp, "{default}");
-    for(ap=ap->next; ap; ap=ap->next){
-      if( ap->type==REDUCE && ap->x.rp==rbest ) ap->type = NOT_USED;
+    /* Combine matching REDUCE actions into a single default.  A token
+    ** whose fallback does something else keeps its own action:  the
+    ** parser tries the fallback before the default. */
+    for(ap=stp->ap, ap2=0; ap; ap=ap->next){
+      if( ap->type!=REDUCE || ap->x.rp!=rbest ) continue;
+      if( ap->sp->fallback ){
+        struct action *apf;
+        for(apf=stp->ap; apf; apf=apf->next){
+          if( apf->sp==ap->sp->fallback
+           && (apf->type==SHIFT || apf->type==ERROR
+               || (apf->type==REDUCE && apf->x.rp!=rbest)) ) break;
+        }
+        if( apf ) continue;
+      }
+      if( ap2==0 ){
+        ap2 = ap;
+      }else{
+        ap->type = NOT_USED;
+      }
     }
+    if( ap2==0 ) continue;
+    ap2->sp = Symbol_new(lemp, "{default}");
     stp->ap = Action_sort(stp->ap);
 
     for(ap=stp->ap; ap; ap=ap->next){
-- 
2.43.0


From 93ae015ad1e5476b60789a3addf92faab2b9f643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 40/44] fix: lemon.c: %default_destructor does not apply to the
 error symbol, whose value is the offending token's

---
 lemon/lemon.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lemon/lemon.c b/lemon/lemon.c
index 7023d85..edb246a 100644
--- a/lemon/lemon.c
+++ b/lemon/lemon.c
@@ -4171,10 +4171,12 @@ static int destructor_index(struct symbol *sp)
 
 /*
 ** Return true if sp is a non-terminal that %default_destructor destroys.
+** The error symbol is not:  it has no value of its own.
 */
-static int has_default_destructor(struct symbol *sp)
+static int has_default_destructor(struct symbol *sp, struct lemon *lemp)
 {
-  return sp!=0 && sp->type!=TERMINAL && sp->index>0 && sp->destructor==0;
+  return sp!=0 && sp->type!=TERMINAL && sp->index>0 && sp->destructor==0
+      && sp!=lemp->errsym;
 }
 
 /*
@@ -5420,11 +5422,11 @@ void ReportTable(
     int once = 1;
     for(i=0; i<lemp->nsymbol; i++){
       struct symbol *sp = lemp->symbols[i];
-      if( !has_default_destructor(sp) ) continue;
+      if( !has_default_destructor(sp, lemp) ) continue;
       /* Symbols with one datatype share a case, as "$$" stands for the
       ** member of the union with that type */
       for(j=0; j<i; j++){
-        if( has_default_destructor(lemp->symbols[j])
+        if( has_default_destructor(lemp->symbols[j], lemp)
             && lemp->symbols[j]->dtnum==sp->dtnum ) break;
       }
       if( j<i ) continue;     /* Already emitted */
@@ -5434,7 +5436,7 @@ void ReportTable(
       }
       for(j=i; j<lemp->nsymbol; j++){
         struct symbol *sp2 = lemp->symbols[j];
-        if( !has_default_destructor(sp2) || sp2->dtnum!=sp->dtnum ) continue;
+        if( !has_default_destructor(sp2, lemp) || sp2->dtnum!=sp->dtnum ) continue;
         fprintf(out,"    case %d: /* %s */\n", sp2->index, sp2->name); lineno++;
       }
       emit_destructor_code(out,sp,lemp,&lineno);
-- 
2.43.0


From ce9afb72257472153d083cc4b3c1309eaf4851ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 41/44] fix: lempar.c: YYNOERRORRECOVERY compiles for grammars
 with an error symbol

---
 lemon/lempar.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 8cc5789..824dc23 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -851,7 +851,7 @@ void Parse(
 #if !defined(YYERRORSYMBOL) && !defined(YYNOERRORRECOVERY)
   int yyendofinput;     /* True if we are at the end of input */
 #endif
-#ifdef YYERRORSYMBOL
+#if defined(YYERRORSYMBOL) && !defined(YYNOERRORRECOVERY)
   int yyerrorhit = 0;   /* True if yymajor has invoked an error */
 #endif
   yyParser *yypParser = (yyParser*)yyp;  /* The parser */
@@ -939,7 +939,7 @@ void Parse(
     }else{
       assert( yyact == YY_ERROR_ACTION );
       yyminorunion.yy0 = yyminor;
-#ifdef YYERRORSYMBOL
+#if defined(YYERRORSYMBOL) && !defined(YYNOERRORRECOVERY)
       int yymx;
 #endif
 #ifndef NDEBUG
@@ -947,7 +947,7 @@ void Parse(
         fprintf(yyTraceFILE,"%sSyntax Error!\n",yyTracePrompt);
       }
 #endif
-#ifdef YYERRORSYMBOL
+#if defined(YYERRORSYMBOL) && !defined(YYNOERRORRECOVERY)
       /* A syntax error has occurred.
       ** The response to an error depends upon whether or not the
       ** grammar defines an error token "ERROR".  
-- 
2.43.0


From d7f071abf1cc70efe4588ed1bdc79b17d904b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 42/44] fix: lempar.c: YYTRACKMAXSTACKDEPTH counts the entry an
 empty reduction pushes

---
 lemon/lempar.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 824dc23..7a01b47 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -905,10 +905,10 @@ void Parse(
       ** enough on the stack to push the LHS value */
       if( yyRuleInfoNRhs[yyruleno]==0 ){
 #ifdef YYTRACKMAXSTACKDEPTH
-        if( (int)(yypParser->yytos - yypParser->yystack)>yypParser->yyhwm ){
+        if( (int)(yypParser->yytos - yypParser->yystack)+1>yypParser->yyhwm ){
           yypParser->yyhwm++;
           assert( yypParser->yyhwm ==
-                  (int)(yypParser->yytos - yypParser->yystack));
+                  (int)(yypParser->yytos - yypParser->yystack)+1);
         }
 #endif
 #if YYSTACKDEPTH>0 
-- 
2.43.0


From 57d7adaa21b949980f4d8c3071de03fd6096cc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:08 +0000
Subject: [PATCH 43/44] fix: lempar.c: the token that does not fit on the stack
 is destroyed when the stack overflows

---
 lemon/lempar.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index 7a01b47..bed6902 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -596,9 +596,15 @@ static YYACTIONTYPE yy_find_reduce_action(
 }
 
 /*
-** The following routine is called if the stack overflows.
+** The following routine is called if the stack overflows.  The token
+** for which there is no room is destroyed together with the stack.
 */
-static void yyStackOverflow(yyParser *yypParser){
+static void yyStackOverflow(
+  yyParser *yypParser,          /* The parser */
+  YYCODETYPE yyMajor,           /* The major token that is lost */
+  ParseTOKENTYPE yyMinor        /* Its value */
+){
+   YYMINORTYPE yyminorunion;
    ParseARG_FETCH
    ParseCTX_FETCH
 #ifndef NDEBUG
@@ -607,6 +613,8 @@ static void yyStackOverflow(yyParser *yypParser){
    }
 #endif
    while( yypParser->yytos>yypParser->yystack ) yy_pop_parser_stack(yypParser);
+   yyminorunion.yy0 = yyMinor;
+   yy_destructor(yypParser, yyMajor, &yyminorunion);
    /* Here code is inserted which will execute if the parser
    ** stack every overflows */
 /******** Begin %stack_overflow code ******************************************/
@@ -657,14 +665,14 @@ static void yy_shift(
 #if YYSTACKDEPTH>0 
   if( yypParser->yytos>yypParser->yystackEnd ){
     yypParser->yytos--;
-    yyStackOverflow(yypParser);
+    yyStackOverflow(yypParser, yyMajor, yyMinor);
     return;
   }
 #else
   if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz] ){
     if( yyGrowStack(yypParser) ){
       yypParser->yytos--;
-      yyStackOverflow(yypParser);
+      yyStackOverflow(yypParser, yyMajor, yyMinor);
       return;
     }
   }
@@ -913,13 +921,13 @@ void Parse(
 #endif
 #if YYSTACKDEPTH>0 
         if( yypParser->yytos>=yypParser->yystackEnd ){
-          yyStackOverflow(yypParser);
+          yyStackOverflow(yypParser, (YYCODETYPE)yymajor, yyminor);
           break;
         }
 #else
         if( yypParser->yytos>=&yypParser->yystack[yypParser->yystksz-1] ){
           if( yyGrowStack(yypParser) ){
-            yyStackOverflow(yypParser);
+            yyStackOverflow(yypParser, (YYCODETYPE)yymajor, yyminor);
             break;
           }
         }
-- 
2.43.0


From b7ba2784631769bdee924c0e10a62b59741ba020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:08 +0000
Subject: [PATCH 44/44] fix: lempar.c: after a parse failure the first syntax
 error of the next input is reported again

---
 lemon/lempar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lemon/lempar.c b/lemon/lempar.c
index bed6902..3b7bbad 100644
--- a/lemon/lempar.c
+++ b/lemon/lempar.c
@@ -1001,7 +1001,7 @@ void Parse(
 #ifndef YYNOERRORRECOVERY
           yypParser->yyerrcnt = -1;
 #endif
-          yymajor = YYNOCODE;
+          break;
         }else if( yymx!=YYERRORSYMBOL ){
           yy_shift(yypParser,yyact,YYERRORSYMBOL,yyminor);
         }
-- 
2.43.0

