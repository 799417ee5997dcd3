From 4a9f2f712e8a17e71db291cc98af7cfd1fe6fbd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:03 +0000
Subject: [PATCH 01/72] fix: accept a unary operator after a lower precedence
 binary operator

Reducing the pending operator cleared the "last token was an operator"
state, so "6/2 - -1" or "7<<1 & ~1" were rejected as syntax errors.
---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index 8e818e6..46984e3 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -738,6 +738,7 @@ void doop(opfunc_t func, int pri)
         puts("doop: too many operators");
         Opi = Opibase;
     }
+    Lastwasop = 1;	/* evaltop() may have cleared it */
     return;
 }
 
-- 
2.43.0


From d720057a713ce24e439fd3e5f6a9be6b9ae05566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:03 +0000
Subject: [PATCH 02/72] fix: start every pass in the initial segment

The segment selected last stayed current at the start of the next pass,
so code before the first SEG moved into a different segment from pass 2
on and could vanish from the output altogether.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index b42be44..bb3e098 100644
--- a/src/main.c
+++ b/src/main.c
@@ -608,6 +608,10 @@ nextpass:
         printf("START OF PASS: %d\n", pass);
     }
 
+    /* every pass starts in the initial segment, the last one in the list */
+    for (Csegment = Seglist; Csegment->next; Csegment = Csegment->next)
+        ;
+
     Localindex = Lastlocalindex = 0;
 
     Localdollarindex = Lastlocaldollarindex = 0;
-- 
2.43.0


From 97a50f961b8f4f2d14c50d829402397abe436a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:03 +0000
Subject: [PATCH 03/72] fix: reset the ORG fill value at the start of every
 pass

A fill value given by a late ORG was used for earlier gaps as soon as
the source needed a second pass.
---
 src/asm.h  | 1 +
 src/main.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/asm.h b/src/asm.h
index 1d58a8f..14707fa 100644
--- a/src/asm.h
+++ b/src/asm.h
@@ -431,6 +431,7 @@ void    programlabel();
 
 /* ops.c */
 extern    unsigned char Gen[];
+extern    unsigned char OrgFill;
 extern    int Glen;
 void    v_set(char *str, MNEMONIC *);
 void    v_setstr(char *str, MNEMONIC *);
diff --git a/src/main.c b/src/main.c
index bb3e098..17fd7e4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -621,6 +621,7 @@ nextpass:
     FI_temp = fopen(F_outfile, "wb");
     /*_fmode = 0;*/
     Fisclear = 1;
+    OrgFill = DEFORGFILL;
     CheckSum = 0;
     if (FI_temp == NULL) {
         printf("Warning: Unable to [re]open '%s'\n", F_outfile);
-- 
2.43.0


From 1af27aa0d10cd7896db665091170b6fe6b913264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:03 +0000
Subject: [PATCH 04/72] fix: turn listing back on at the start of every pass

LIST OFF in effect at the end of the source suppressed the beginning of
the listing in all following passes.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index 17fd7e4..6fe9396 100644
--- a/src/main.c
+++ b/src/main.c
@@ -622,6 +622,7 @@ nextpass:
     /*_fmode = 0;*/
     Fisclear = 1;
     OrgFill = DEFORGFILL;
+    ListMode = 1;
     CheckSum = 0;
     if (FI_temp == NULL) {
         printf("Warning: Unable to [re]open '%s'\n", F_outfile);
-- 
2.43.0


From 7eaed4a87f146abde6302776d823978446ff7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 05/72] fix: reject F8 branches that are out of range

The error is not fatal by itself and nothing asked for another pass, so
the branch was assembled with a truncated displacement and dasm reported
success.
---
 src/mnef8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 5e9ae0b..8a9bb92 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -544,6 +544,9 @@ static void generate_branch(unsigned char opcode, char *str) {
                 char buf[64];
                 sprintf(buf, "%d", (int)disp);
                 asmerr(ERROR_BRANCH_OUT_OF_RANGE, false, buf);
+                ++Redo;
+                Redo_why |= REASON_BRANCH_OUT_OF_RANGE;
+                disp = 0;
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
-- 
2.43.0


From 35dc4e28246ab797509d957aa44c83c73f56cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 06/72] fix: take another pass after a branch at an unknown
 address

A relative branch assembled while the (relocatable) origin is still
unknown got displacement 0 in the expectation of another pass, but
nothing requested that pass.
---
 src/mnef8.c | 2 ++
 src/ops.c   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/mnef8.c b/src/mnef8.c
index 8a9bb92..279b29f 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -550,6 +550,8 @@ static void generate_branch(unsigned char opcode, char *str) {
         }
     } else {
         /* unknown pc, will be (hopefully) resolved in future passes */
+        ++Redo;
+        Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
         disp = 0;
     }
 
diff --git a/src/ops.c b/src/ops.c
index 3321bb2..e8a4154 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -489,6 +489,8 @@ void v_mnemonic(char *str, MNEMONIC *mne)
             else
             {
                 /* Don't bother - we'll take another pass */
+                ++Redo;
+                Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
                 dest = 0;
             }
             Gen[opidx-1] = dest & 0xFF;     /*	byte before end of inst.    */
-- 
2.43.0


From 9b20ec0afadac57d06bfb59d7c8e5fcb36b3e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 07/72] fix: close a macro's conditionals and loops when it is
 left

MEXIT inside an IF or REPEAT of the macro left the entry on the stack.
A following ELSE or ENDIF of the caller then applied to the wrong IF and
source lines were dropped silently.
---
 src/ops.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index e8a4154..286ab8e 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1390,6 +1390,12 @@ v_endm(char *str, MNEMONIC *dummy)
 
         Localdollarindex = inc->savedolidx;
 
+        /* leave the loops and conditionals opened inside the macro */
+        while (Reploop && Reploop->file == inc)
+            rmnode((void **)&Reploop, sizeof(REPLOOP));
+        while (Ifstack->file == inc)
+            rmnode((void **)&Ifstack, sizeof(IFSTACK));
+
         pIncfile = inc->next;
         free(inc);
         return;
-- 
2.43.0


From 1f1c93717be9fd2aea04d480c9697ab98220519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 08/72] fix: honour -R for errors that abort assembly
 immediately

Aborting errors and unbalanced macros leave through exit() and skipped
the removal of the output file.
---
 src/main.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6fe9396..0034cd6 100644
--- a/src/main.c
+++ b/src/main.c
@@ -401,6 +401,13 @@ static void DumpSymbolTable( int sortMode )
 }
 
 
+/* -R: don't leave a binary behind when assembly failed */
+static void RemoveOutBin(void)
+{
+    if (bRemoveOutBin)
+        unlink(F_outfile);
+}
+
 static int MainShadow(int ac, char **av, int *pSortMode )
 {
     int nError = ERROR_NONE;
@@ -791,6 +798,7 @@ nextpass:
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
 
+        RemoveOutBin();
         exit(ERROR_MISSING_ENDM);
     }
     printf( "Complete. (%d)\n", nError);
@@ -1698,6 +1706,7 @@ int asmerr(int err, bool bAbort, const char *sText )
             passbuffer_output(MSGBUF); // dump messages from this pass
             fprintf(error_file, "Aborting assembly\n");
             passbuffer_output(ERRORBUF); // time to dump the errors from this pass!
+            RemoveOutBin();
             exit(err);
         }
     }
@@ -1788,11 +1797,8 @@ int main(int ac, char **av)
 
     passbuffer_cleanup();
 
-    if (nError != 0) {
-    	if (bRemoveOutBin) {
-    		unlink(F_outfile);
-    	}
-    }
+    if (nError != 0)
+        RemoveOutBin();
     return nError;
 }
 
-- 
2.43.0


From c8a318ac4684db806bb434879abe99f684879846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 09/72] fix: do not write messages to the closed list file

The list file is closed at the end of each pass, but errors reported
after that (unbalanced macros, too many passes) were still written to
it.
---
 src/main.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 0034cd6..878226b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -734,7 +734,10 @@ nextpass:
     closegenerate();
     fclose(FI_temp);
     if (FI_listfile)
+    {
         fclose(FI_listfile);
+        FI_listfile = NULL;
+    }
 
     if (mlflag) // check if a multi-line comment is missing a terminator
         return ERROR_MISSING_COMMENT_END;
@@ -793,7 +796,7 @@ nextpass:
 
     if (nMacroClosings != nMacroDeclarations) {
         /* determine the file pointer to use */
-        FILE *error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        FILE *error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
     	fprintf(error_file, "premature end of file, macros opened:%d  closed:%d", nMacroDeclarations, nMacroClosings);
         fprintf(error_file, "Aborting assembly\n");
@@ -1638,7 +1641,7 @@ int asmerr(int err, bool bAbort, const char *sText )
         */
 
         /* determine the file pointer to use */
-        error_file = (F_listfile != NULL) ? FI_listfile : stdout;
+        error_file = (FI_listfile != NULL) ? FI_listfile : stdout;
 
         /* print first part of message, different formats offered */
 	if (pincfile != NULL)
-- 
2.43.0


From 9be601a067bddc7818d2d744dbc6c67a348385f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 10/72] fix: report expressions that overflow the evaluation
 stacks

Too many nested brackets, operators or arguments only printed a note,
then produced a wrong value or a crash.  Use the error that exists for
this.
---
 src/exp.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 46984e3..5313340 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -362,7 +362,7 @@ SYMBOL *eval(const char *str, int wantmode)
 	    } else {
 		ucasm_indexed_notation = false;
             if (Opi == MAXOPS)
-                puts("too many ops");
+                asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
             else
                 Oppri[Opi++] = 0;
             ++str;
@@ -693,7 +693,7 @@ static void stackarg(long val, int flags, const char *ptr1)
     Argstring[Argi] = str;
     Argflags[Argi] = flags;
     if (++Argi == MAXARGS) {
-        puts("stackarg: maxargs stacked");
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
         Argi = Argibase;
     }
     while (Opi != Opibase && Oppri[Opi-1] == 128)
@@ -729,15 +729,15 @@ void doop(opfunc_t func, int pri)
     if (Xdebug)
         printf("doop @ %d\n", Opi);
 
+    if (Opi >= MAXOPS)
+    {
+        asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
+        return;
+    }
+
     Opdis[Opi] = func;
     Oppri[Opi] = pri;
     ++Opi;
-
-    if (Opi == MAXOPS)
-    {
-        puts("doop: too many operators");
-        Opi = Opibase;
-    }
     Lastwasop = 1;	/* evaltop() may have cleared it */
     return;
 }
-- 
2.43.0


From 695a87fbfbdbdfee2b14370fe62d8a7056dc9de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 11/72] fix: report ALIGN 0 instead of crashing

---
 src/ops.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 286ab8e..0c05915 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1007,6 +1007,9 @@ v_align(char *str, MNEMONIC *dummy)
     unsigned char fill = 0;
     unsigned char rorg = Csegment->flags & SF_RORG;
 
+    if (!(sym->flags & SYM_UNKNOWN) && sym->value == 0)
+        asmerr( ERROR_DIVISION_BY_0, true, NULL );
+
     if (rorg)
         Csegment->rflags |= SF_REF;
     else
-- 
2.43.0


From c0199731e462dacdcadc5c425da95957faa6de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 12/72] fix: account for skipped bytes when sizing INCBIN

While another pass is pending INCBIN reserved the size of the whole file
even if leading bytes are to be skipped, so following labels moved in the
next pass.
---
 src/ops.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 0c05915..6774ebf 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -606,7 +606,9 @@ v_incbin(char *str, MNEMONIC *dummy)
         if (Redo) {
             /* optimize: don't actually read the file if not needed */
             fseek(binfile, 0, SEEK_END);
-            Glen = ftell(binfile);
+            Glen = ftell(binfile) - skip_bytes;
+            if (Glen < 0)
+                Glen = 0;
             generate();     /* does not access Gen[] if Redo is set */
         }
         else
-- 
2.43.0


From 52cdac255757157e2ac891e1574ba8b174258827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 13/72] fix: never emit code at an unknown origin

The check was done for the first byte of output only.  Later segments
without a (resolved) ORG were placed at whatever address was left over
from the previous pass.
---
 src/ops.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 6774ebf..15ac496 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1664,16 +1664,17 @@ generate(void)
             for (i = Glen - 1; i >= 0; --i)
                 CheckSum += Gen[i];
 
-            if (Fisclear)
+            if (Csegment->flags & SF_UNKNOWN)
             {
                 Fisclear = 0;
-                if (Csegment->flags & SF_UNKNOWN)
-                {
-                    ++Redo;
-                    Redo_why |= REASON_OBSCURE;
-                    return;
-                }
+                ++Redo;
+                Redo_why |= REASON_OBSCURE;
+                return;
+            }
 
+            if (Fisclear)
+            {
+                Fisclear = 0;
                 org = Csegment->org;
 
                 if ( F_format < FORMAT_RAW )
-- 
2.43.0


From 8b65b638ca8242737661f7286c902528803671fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 14/72] fix: IFCONST is true for string symbols

A symbol with a string value is defined, but IFCONST and IFNCONST treated
it as undefined.
---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 15ac496..7ea6eaa 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1421,7 +1421,7 @@ v_ifconst(char *str, MNEMONIC *dummy)
 
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags == 0);
+    pushif(!(sym->flags & SYM_UNKNOWN));
     FreeSymbolList(sym);
 }
 
@@ -1432,7 +1432,7 @@ v_ifnconst(char *str, MNEMONIC *dummy)
 
     programlabel();
     sym = eval(str, 0);
-    pushif(sym->flags != 0);
+    pushif((sym->flags & SYM_UNKNOWN) != 0);
     FreeSymbolList(sym);
 }
 
-- 
2.43.0


From a6422eb365d61fefacac2ba797a720618a082cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 15/72] fix: do not evaluate IFCONST and IFNCONST in skipped
 source

They defined their label and referenced symbols even inside a false
conditional.
---
 src/ops.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 7ea6eaa..3ed9e06 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1419,6 +1419,10 @@ v_ifconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif(!(sym->flags & SYM_UNKNOWN));
@@ -1430,6 +1434,10 @@ v_ifnconst(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym;
 
+    if (!Ifstack->xtrue || !Ifstack->acctrue) {
+        pushif(0);
+        return;
+    }
     programlabel();
     sym = eval(str, 0);
     pushif((sym->flags & SYM_UNKNOWN) != 0);
-- 
2.43.0


From e78919429acaa31ffac5bedd0d0da1a1cc5abed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 16/72] fix: strict mode ignores macro definitions in skipped
 source

Defining the same macro in both branches of a conditional aborted with
"definition is repeated".
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 878226b..caea8f4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1501,7 +1501,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     }
     else {
         mac = (MACRO *)mne;
-        if( (bStrictMode) && (mac != NULL) && (mac->defpass == pass) )
+        if( (bStrictMode) && !skipit && (mac != NULL) && (mac->defpass == pass) )
             asmerr( ERROR_MACRO_REPEATED, true, str );
     }
     while (fgets(buf, MAXLINE, pIncfile->fi)) {
-- 
2.43.0


From 4c937e094d7b2b8e3aa3763e033438b7bf75c172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 17/72] fix: an undefined REPEAT count is not resolved

The value of an undefined symbol is 0, so the loop was skipped and
assembly succeeded without it.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 3ed9e06..f3dbe22 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1510,6 +1510,10 @@ void v_repeat(char *str, MNEMONIC *dummy)
     programlabel();
     sym = eval(str, 0);
     if (sym->value == 0) {
+        if (sym->flags & SYM_UNKNOWN) {
+            ++Redo;
+            Redo_why |= REASON_REPEAT_NOT_RESOLVED;
+        }
         pushif(0);
         FreeSymbolList(sym);
         return;
-- 
2.43.0


From 59713638c4e5dce46042da59b4abb7954417662a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 18/72] fix: do not truncate dynamic symbol names on the right
 of SET

The name was terminated at the position reached in the source text, which
cut it short when an evaluated argument is longer than its spelling.
---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index f3dbe22..9fa6cb3 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1263,7 +1263,7 @@ void v_set(char *str, MNEMONIC *dummy)
 
             continue; // process any remaining arguments
         }
-        dynamicname[i++] = 0;
+        dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
             return;
-- 
2.43.0


From e56446b66248682a36bf899d6c95a08f2be1d7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 19/72] fix: take another pass when a SET had to be skipped

SET with a dynamic name and SETSYM do nothing while an argument is not
defined yet.  The symbol kept its old value and nothing requested another
pass.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 9fa6cb3..399e2e3 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1266,6 +1266,8 @@ void v_set(char *str, MNEMONIC *dummy)
         dynamicname[j] = 0;
         if (setundefined) // not all of the arguments are defined yet, so skip this SET
         {
+            ++Redo;
+            Redo_why |= REASON_OBSCURE;
             return;
         }
         sym = eval(dynamicname,0);
@@ -1297,6 +1299,8 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
     sym = eval(symstr,0);
     if (sym->flags & SYM_UNKNOWN)
     {
+        ++Redo;
+        Redo_why |= REASON_OBSCURE;
         FreeSymbolList(sym);
         return;
     }
-- 
2.43.0


From 5224059e7a8859a8abdc7f50385fde31aacb1865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 20/72] fix: report the right line for errors found while
 reading a line

Unbalanced quotes and spurious comment ends were reported for the line
before.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index caea8f4..bf44c3c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -669,8 +669,8 @@ nextpass:
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            comment = cleanup(buf, false);
             ++pIncfile->lineno;
+            comment = cleanup(buf, false);
             mne = parse(buf);
 
             if (Av[1][0])
-- 
2.43.0


From 121ebeb43753df41ec65ea45fb6fb8ce2837e4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 21/72] fix: end the last argument of a dynamic label at the
 end of the label

The rest of the line was evaluated as part of the argument, so a dynamic
label could not be followed by an operation.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index bf44c3c..82f4ebe 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1340,7 +1340,7 @@ MNEMONIC *parse(char *buf)
                 tempbuf[256]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
-                    if(tempbuf[t] == ',')
+                    if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
                         tempbuf[t]=0;
                 }
                 symarg = eval(tempbuf,0);
-- 
2.43.0


From 2a5ac71a460a4152ab761f36f0b1261e0530b7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 22/72] fix: do not crash on erroneous -D and -M expressions

Symbols are defined while options are parsed, before the initial segment
and the error state exist.
---
 src/main.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/main.c b/src/main.c
index 82f4ebe..3edc2bc 100644
--- a/src/main.c
+++ b/src/main.c
@@ -461,6 +461,15 @@ fail:
     return ERROR_COMMAND_LINE;
     }
 
+    /*    INITIAL SEGMENT */
+
+    {
+        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
+        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
+        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
+        Csegment = Seglist = seg;
+    }
+
     for (i = 2; i < ac; ++i)
     {
         if ( ( av[i][0] == '-' ) || ( av[i][0] == '/' ) )
@@ -583,14 +592,6 @@ nofile:
     bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
     memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
 
-    /*    INITIAL SEGMENT */
-
-    {
-        SEGMENT *seg = (SEGMENT *)permalloc(sizeof(SEGMENT));
-        seg->name = strcpy(permalloc(sizeof(ISEGNAME)), ISEGNAME);
-        seg->flags= seg->rflags = seg->initflags = seg->initrflags = SF_UNKNOWN;
-        Csegment = Seglist = seg;
-    }
     /*    TOP LEVEL IF    */
     {
         IFSTACK *ifs = (IFSTACK *)zmalloc(sizeof(IFSTACK));
@@ -1612,7 +1613,7 @@ int asmerr(int err, bool bAbort, const char *sText )
     else
     {
 
-        if (sErrorDef[err].bFatal)
+        if (sErrorDef[err].bFatal && bStopAtEnd)
             bStopAtEnd[pass] = true;
 
 	pincfile = pIncfile;
-- 
2.43.0


From c8a3bb6fb94348b8855f07b6e446b19e4498b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:13 +0000
Subject: [PATCH 23/72] fix: do not use an uninitialised F8 register number

It was or-ed into the opcode while the register expression is not
resolved yet.
---
 src/mnef8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mnef8.c b/src/mnef8.c
index 279b29f..1525e5b 100644
--- a/src/mnef8.c
+++ b/src/mnef8.c
@@ -369,7 +369,7 @@ static void v_lisu_lisl(char *str, MNEMONIC *mne) {
  */
 static void v_sreg_op(char *str, MNEMONIC *mne) {
 
-    unsigned char reg;
+    unsigned char reg = 0;
 
     programlabel();
     parse_scratchpad_register(str, &reg);
-- 
2.43.0


From 987796dc0509ee37ae54095253f323b44841e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:34 +0000
Subject: [PATCH 24/72] fix: report an empty list element instead of popping an
 empty argument stack

---
 src/exp.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 5313340..668e52e 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -461,6 +461,11 @@ SYMBOL *eval(const char *str, int wantmode)
                 cur->addrmode = AM_BYTEREL;
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
+                if (Argi == Argibase) {
+                    asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                    stackarg(0L, 0, NULL);
+                    Lastwasop = 1;
+                }
                 --Argi;
                 cur->value = Argstack[Argi];
                 cur->flags = Argflags[Argi];
@@ -515,9 +520,12 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 SYMBOL *pNewSymbol = allocsymbol();
                 cur->next = pNewSymbol;
-                --Argi;
-                if (Argi < Argibase)
+                if (Argi == Argibase) {
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                    stackarg(0L, 0, NULL);
+                    Lastwasop = 1;
+                }
+                --Argi;
                 if (Argi > Argibase)
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
                 cur->value = Argstack[Argi];
-- 
2.43.0


From 856160bed3aad8ad25adeb6481e95d6ff60a0172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:26 +0000
Subject: [PATCH 25/72] fix: reject SETSYM of a symbol without a string value

---
 src/ops.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 399e2e3..6992868 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1305,8 +1305,14 @@ void v_setsym(char *symstr, MNEMONIC *dummy)
         return;
     }
 
-    if (sym->flags & SYM_STRING)
-        strcpy(str,sym->string);
+    if (!(sym->flags & SYM_STRING))
+    {
+        asmerr( ERROR_TYPE_MISMATCH, false, NULL );
+        FreeSymbolList(sym);
+        return;
+    }
+
+    strcpy(str,sym->string);
 
     FreeSymbolList(sym);
 
-- 
2.43.0


From 2b32c4f3607f548e498faaccf11804a34482a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:19 +0000
Subject: [PATCH 26/72] fix: ignore REPEAT loops with a negative count as
 documented

---
 src/ops.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 6992868..1291081 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1529,11 +1529,9 @@ void v_repeat(char *str, MNEMONIC *dummy)
         return;
     }
 
-#ifdef DAD
-
     /* Don't allow negative values for REPEAT loops */
 
-    if ( sym->value < 0 )
+    if ( sym->value < 0 && !(sym->flags & SYM_UNKNOWN) )
     {
         pushif( 0 );
         FreeSymbolList( sym );
@@ -1542,8 +1540,6 @@ void v_repeat(char *str, MNEMONIC *dummy)
         return;
     }
 
-#endif
-
     rp = (REPLOOP *)zmalloc(sizeof(REPLOOP));
     rp->next = Reploop;
     rp->file = pIncfile;
-- 
2.43.0


From e9403b80041a08ac4ace4d59184c85cd21efb379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:19 +0000
Subject: [PATCH 27/72] fix: don't list bytes of an unlisted line with the next
 listed line

---
 src/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.c b/src/main.c
index 3edc2bc..884ba8d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -859,7 +859,10 @@ static void outlistfile(const char *comment)
 
 
     if ( pIncfile->flags & INF_NOLIST )
+    {
+        Glen = 0;
         return;
+    }
 
     xtrue = (Ifstack->xtrue && Ifstack->acctrue) ? ' ' : '-';
     c = (Pflags & SF_BSS) ? 'U' : ' ';
-- 
2.43.0


From a3ba9181530bb532518b3f2a7825c2be58e213df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:19 +0000
Subject: [PATCH 28/72] fix: make room for the stop flag of the pass beyond the
 limit

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 884ba8d..a67aef9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -589,8 +589,8 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+1) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+1);	// we dont count from zero ! (for fewer code changes)
+    bStopAtEnd = malloc((nMaxPasses+2) * sizeof(bool));
+    memset(bStopAtEnd, 0, nMaxPasses+2);	// we dont count from zero ! (for fewer code changes)
 
     /*    TOP LEVEL IF    */
     {
-- 
2.43.0


From 442153d53f3eea7a8863739358ff7e8a3f68156f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:19 +0000
Subject: [PATCH 29/72] fix: take the -m argument in kB as documented

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index a67aef9..f00790b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -577,7 +577,7 @@ nofile:
             	if (argVal <= 64) {
             		panic("-m Switch invalid argument, should be > 64");
             	} else {
-            		maxFileSize = argVal;
+            		maxFileSize = argVal * 1024UL;
             	}
                 break;
 
-- 
2.43.0


From 79c5b79a80f70a30465770fab54c43d82e8a668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:49 +0000
Subject: [PATCH 30/72] fix: ftohex: stop at the end of an empty RAS file

A RAS file of a source that generates nothing has no hunk length.
ftohex took EOF for the length and wrote garbage records without end.
---
 src/ftohex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ftohex.c b/src/ftohex.c
index a201983..1db2ead 100644
--- a/src/ftohex.c
+++ b/src/ftohex.c
@@ -106,6 +106,8 @@ convert(int format, FILE *in, FILE *out)
     org = getwlh(in);
     if (format == 2) {
 	len = getwlh(in);
+	if (feof(in))		/* nothing was assembled: no length, no data */
+	    len = 0;
     } else {
 	long begin = ftell(in);
 	fseek(in, 0, SEEK_END);
-- 
2.43.0


From 02dbfbeed7c5cfb1561a941ff83668025518772d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:02 +0000
Subject: [PATCH 31/72] fix: drop the reference to a missing macro argument

The line kept the text {n} after the error, and it was scanned again.
An argument text that is itself {n} made the assembler loop forever.
---
 src/main.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.c b/src/main.c
index f00790b..6971a26 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1138,6 +1138,7 @@ static const char *cleanup(char *buf, bool bDisable)
             else
             {
                 asmerr( ERROR_NOT_ENOUGH_ARGUMENTS_PASSED_TO_MACRO, false, NULL );
+                str += add; /*  drop the reference, it would be expanded again  */
                 goto br2;
             }
             break;
-- 
2.43.0


From 0df11b8139bbc18c540727fd236c0157fe065020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:26:43 +0000
Subject: [PATCH 32/72] fix: sort symbols by address beyond the range of int

The difference of two values was cut to an int.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 6971a26..938ed48 100644
--- a/src/main.c
+++ b/src/main.c
@@ -205,7 +205,7 @@ static int CompareAddress( const void *arg1, const void *arg2 )
     const SYMBOL *sym1 = *(SYMBOL * const *) arg1;
     const SYMBOL *sym2 = *(SYMBOL * const *) arg2;
 
-    return sym1->value - sym2->value;
+    return (sym1->value > sym2->value) - (sym1->value < sym2->value);
 }
 
 static int CompareOrder( const void *arg1, const void *arg2 )
-- 
2.43.0


From 400548207ee6b0c56bb454d2fae0d8b20480e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:54 +0000
Subject: [PATCH 33/72] fix: do not read past the end of an expression ending
 in '!'

---
 src/exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 668e52e..67f0031 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -282,7 +282,8 @@ SYMBOL *eval(const char *str, int wantmode)
             else
             {
                 doop((opfunc_t)op_noteq, 16);
-                ++str;
+                if (str[1])
+                    ++str;
             }
             ++str;
             break;
-- 
2.43.0


From 3ea32b5f7ad2d7649ae2b3a80ef9c1b1f77aa9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:54 +0000
Subject: [PATCH 34/72] fix: write no hunk length when the last pass generated
 nothing

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 1291081..199bac3 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1783,7 +1783,7 @@ void closegenerate(void)
 {
     if (!Redo)
     {
-        if ( F_format == FORMAT_RAS )
+        if ( F_format == FORMAT_RAS && !Fisclear )
         {
             fseek(FI_temp, Seekback, 0);
             putc((Seglen & 0xFF), FI_temp);
-- 
2.43.0


From c8f5845191f4e2de3228bf357bb7fb66a929086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:54 +0000
Subject: [PATCH 35/72] fix: make room for the end of the text in the message
 buffer

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 938ed48..5d45143 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1838,7 +1838,7 @@ void passbuffer_update(int mbindex,char *message)
     }
 
     // check if we need to grow the buffer...
-    newsizerequired=strlen(passbuffer[mbindex])+strlen(message);
+    newsizerequired=strlen(passbuffer[mbindex])+strlen(message)+1;
     if( newsizerequired > passbuffersize[mbindex])
     {
         char *tmpalloc;
-- 
2.43.0


From e696d4b9ce76163ea5da4b84be2f7ef3d1dcd9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:07:24 +0000
Subject: [PATCH 36/72] fix: do not assemble NOP with an operand as BRA, TSB or
 TRB on the 65C02

The opcodes of the 6502's undocumented NOPs are other instructions on
the 65C02.
---
 src/mne65c02.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mne65c02.c b/src/mne65c02.c
index 25167b1..ddee0e4 100644
--- a/src/mne65c02.c
+++ b/src/mne65c02.c
@@ -85,7 +85,7 @@ MNEMONIC Mne65c02[] = {
     { NULL, v_mnemonic, "ldx", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRY|AF_WORDADR|AF_WORDADRY, { 0xA2, 0xA6, 0xB6, 0xAE, 0xBE } },
     { NULL, v_mnemonic, "ldy", 0, AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xA0, 0xA4, 0xB4, 0xAC, 0xBC } },
     { NULL, v_mnemonic, "lsr", 0, AF_IMP|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0x4A, 0x46, 0x56, 0x4E, 0x5E } },
-    { NULL, v_mnemonic, "nop", 0, AF_IMP|AF_IMM8|AF_BYTEADR|AF_BYTEADRX|AF_WORDADR|AF_WORDADRX, { 0xEA, 0x80, 0x04, 0x14, 0x0c, 0x1c } },
+    { NULL, v_mnemonic, "nop", 0, AF_IMP, { 0xEA } },
     { NULL, v_mnemonic, "ora", 0, AF_IMM8|ASTD, { 0x09, 0x05, 0x15, 0x0D, 0x1D, 0x19, 0x01, 0x11, 0x12 } },
     { NULL, v_mnemonic, "pha", 0, AF_IMP, { 0x48 } },
     { NULL, v_mnemonic, "phx", 0, AF_IMP, { 0xda } },   /* PusH X */
-- 
2.43.0


From a8fb07f49c96c21512df3362f68052852e1de98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:10:52 +0000
Subject: [PATCH 37/72] fix: stop at a macro argument that refers to itself

An unmatched quote keeps references from being replaced in the arguments of a
call. An argument {3} that is the third one was then put in for itself for
ever. The number of arguments put into a line is now limited.
---
 src/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 5d45143..e053e60 100644
--- a/src/main.c
+++ b/src/main.c
@@ -979,7 +979,7 @@ static const char *cleanup(char *buf, bool bDisable)
 {
     char *str;
     STRLIST *strlist;
-    int arg, add;
+    int arg, add, count = 0;
     const char *comment = "";
 
     char *mlstart, *mlend, *semistart;
@@ -1112,6 +1112,10 @@ static const char *cleanup(char *buf, bool bDisable)
 
             if (strlist)
             {
+                /*  an argument may be a reference to itself  */
+                if (++count > MAXLINE)
+                    asmerr( ERROR_RECURSION_TOO_DEEP, true, "macro arguments" );
+
                 add += strlen(strlist->buf);
 
                 if (Xdebug)
-- 
2.43.0


From eda0b1438a74ee13f41b6cb68bbce7ad934195c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:11:19 +0000
Subject: [PATCH 38/72] fix: report the place of a line made too long by macro
 arguments

The assembler said failure1 and left with status 1. The messages so far were
lost, and -R was ignored.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index e053e60..0179463 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1126,7 +1126,7 @@ static const char *cleanup(char *buf, bool bDisable)
                     if (Xdebug)
                         printf("str %8ld buf %8ld (add/strlen(str)): %d %ld\n",
                         (unsigned long)str, (unsigned long)buf, add, (long)strlen(str));
-                    panic("failure1");
+                    asmerr( ERROR_AVOID_SEGFAULT, true, "macro arguments, line too long" );
                 }
 
                 memmove(str + add, str, strlen(str)+1);
-- 
2.43.0


From a31e431697d50329b49ab6bcf2b28c922d26c2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:23 +0000
Subject: [PATCH 39/72] fix: do not crash on the smallest number divided by -1

---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 67f0031..b1c656d 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -796,7 +796,8 @@ void op_div(long v1, long v2, int f1, int f2)
     }
     else
     {
-        stackarg(v1 / v2, 0, NULL);
+        /*  the quotient of the smallest number and -1 does not fit  */
+        stackarg(v2 == -1 ? (long)(0UL - v1) : v1 / v2, 0, NULL);
     }
 }
 
@@ -809,7 +810,7 @@ void op_mod(long v1, long v2, int f1, int f2)
     if (v2 == 0)
         stackarg(v1, 0, NULL);
     else
-        stackarg(v1 % v2, 0, NULL);
+        stackarg(v2 == -1 ? 0 : v1 % v2, 0, NULL);
     Lastwasop = 1;
 }
 
-- 
2.43.0


From 86fc32f70ea566587bf286228696103a1667cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:24 +0000
Subject: [PATCH 40/72] fix: shift everything out when the count is not less
 than the width

C leaves this undefined: 1<<64 was 1. Negative counts are taken as large ones.
---
 src/exp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index b1c656d..f6404c8 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -839,7 +839,7 @@ void op_shiftright(long v1, long v2, int f1, int f2)
     if (f1|f2)
         stackarg(0L, f1|f2, NULL);
     else
-        stackarg((long)(v1 >> v2), 0, NULL);
+        stackarg(v2 < 0 || v2 > 63 ? (v1 < 0 ? -1 : 0) : (long)(v1 >> v2), 0, NULL);
 }
 
 void op_shiftleft(long v1, long v2, int f1, int f2)
@@ -847,7 +847,7 @@ void op_shiftleft(long v1, long v2, int f1, int f2)
     if (f1|f2)
         stackarg(0L, f1|f2, NULL);
     else
-        stackarg((long)(v1 << v2), 0, NULL);
+        stackarg(v2 < 0 || v2 > 63 ? 0 : (long)((unsigned long)v1 << v2), 0, NULL);
 }
 
 void op_greater(long v1, long v2, int f1, int f2)
-- 
2.43.0


From 63de93153cd0ee47bae0e5c0f580c51c6737fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:25 +0000
Subject: [PATCH 41/72] fix: refuse a negative number of bytes to skip in
 INCBIN

The size assumed in the first passes was larger than the file.
---
 src/ops.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops.c b/src/ops.c
index 199bac3..7e8cc52 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -599,6 +599,10 @@ v_incbin(char *str, MNEMONIC *dummy)
             asmerr(ERROR_VALUE_UNDEFINED, true, NULL);
         }
         skip_bytes = sym->next->value;
+        if (skip_bytes < 0) {
+            asmerr(ERROR_SYNTAX_ERROR, false, str);
+            skip_bytes = 0;
+        }
     }
 
     binfile = pfopen(buf, "rb");
-- 
2.43.0


From b94cdc0cb2b0915fd1addd565ce32bb282c68a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:26 +0000
Subject: [PATCH 42/72] fix: make room for long lines in the buffer of fields

A line may have 1023 characters and values put into a label make it longer, the
buffer had room for 512. What follows it in memory was overwritten.
---
 src/globals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/globals.c b/src/globals.c
index 36c7bd3..b9023be 100644
--- a/src/globals.c
+++ b/src/globals.c
@@ -37,7 +37,7 @@ SEGMENT *Seglist;	    /*	segment list	    */
 SEGMENT *Csegment;	    /*	current segment     */
 IFSTACK *Ifstack;	    /*	IF/ELSE/ENDIF stack */
 char	*Av[256];	    /*	up to 256 arguments */
-char	Avbuf[512];
+char	Avbuf[MAXLINE*8];
 unsigned char	MsbOrder = 1;
 int	Mnext;
 char	Inclevel;
-- 
2.43.0


From 1670f32a030fb641e5f4fb3c4991395f056e9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:23:27 +0000
Subject: [PATCH 43/72] fix: make room for long operation names

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 0179463..5099464 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1436,7 +1436,7 @@ MNEMONIC *findmne(char *str)
     int i;
     char c;
     MNEMONIC *mne;
-    char buf[64];
+    char buf[MAXLINE];
 
 
     if (str[0] == '.') {    /* Allow .OP for OP */
-- 
2.43.0


From 716d9f2aa93c937d8112b76afb1ae18de681f527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:11 +0000
Subject: [PATCH 44/72] fix: make room for long texts in error messages

Messages quote names and operands, which may be as long as a line.
---
 src/exp.c  | 4 ----
 src/main.c | 4 ++--
 src/ops.c  | 4 ++--
 3 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index f6404c8..ffe0e2e 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -382,8 +382,6 @@ SYMBOL *eval(const char *str, int wantmode)
 		//FIX: detect illegal opc (zp),x syntax...
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'x')
                 {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
@@ -485,8 +483,6 @@ SYMBOL *eval(const char *str, int wantmode)
             //FIX: detect illegal opc (zp,y) syntax...
             else if ((cur->addrmode == AM_INDWORD && scr == 'y' && str[2]==')')&&(wantmode))
             {
-                   char sBuffer[128];
-                   sprintf( sBuffer, "%s", str );
                    asmerr( ERROR_ILLEGAL_ADDRESSING_MODE,false, pLine );
                    ++Redo;
                    Redo_why |= REASON_MNEMONIC_NOT_RESOLVED;
diff --git a/src/main.c b/src/main.c
index 5099464..5e1aca9 100644
--- a/src/main.c
+++ b/src/main.c
@@ -67,8 +67,8 @@ void passbuffer_cleanup(void);
 
 int mlflag = 0; // multi-line comments
 
-static char erroradd1[500]; // temp error holders
-static char erroradd2[500];
+static char erroradd1[MAXLINE*9]; // temp error holders
+static char erroradd2[MAXLINE*9];
 static char erroradd3[500];
 
 /* Table encapsulates errors, descriptions, and fatality flags. */
diff --git a/src/ops.c b/src/ops.c
index 7e8cc52..fa9210f 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -158,7 +158,7 @@ void v_mnemonic(char *str, MNEMONIC *mne)
     SYMBOL *symbase;
     int     opsize;
     bool	byteRequested;
-    char sBuffer[128];
+    char sBuffer[MAXLINE*2];
 
     Csegment->flags |= SF_REF;
     programlabel();
@@ -1334,7 +1334,7 @@ v_execmac(char *str, MACRO *mac)
     programlabel();
 
     if (Mlevel == MAXMACLEVEL) {
-        char errMsg[256];
+        char errMsg[MAXLINE*2];
         sprintf(errMsg, " macro [%s] recursion > %d", mac->name, MAXMACLEVEL);
         asmerr( ERROR_RECURSION_TOO_DEEP, true, errMsg );
         return;
-- 
2.43.0


From c78c827c75c97e8ecfdd6b8150b38ae9e38c162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:11 +0000
Subject: [PATCH 45/72] fix: make room for long lines in the list file

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 5e1aca9..ccafe80 100644
--- a/src/main.c
+++ b/src/main.c
@@ -851,8 +851,8 @@ static void outlistfile(const char *comment)
 {
     char xtrue;
     char c;
-    static char buf1[MAXLINE+32];
-    static char buf2[MAXLINE+32];
+    static char buf1[MAXLINE*10];
+    static char buf2[MAXLINE*10];
     const char *ptr;
     const char *dot;
     int i, j;
-- 
2.43.0


From 2f1b572ace0d557258060282db443dd97c372ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:12 +0000
Subject: [PATCH 46/72] fix: make room for the comment character put into a
 full line

---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index ccafe80..3ec512b 100644
--- a/src/main.c
+++ b/src/main.c
@@ -413,7 +413,7 @@ static int MainShadow(int ac, char **av, int *pSortMode )
     int nError = ERROR_NONE;
     bool bDoAllPasses = false;
 
-    char buf[MAXLINE];
+    char buf[MAXLINE+1];    /*  cleanup() may add a character  */
     int i;
     int argVal;
     MNEMONIC *mne;
@@ -1479,7 +1479,7 @@ void v_macro(char *str, MNEMONIC *dummy)
     MACRO *mac;    /* slp, mac: might be used uninitialised */
     MNEMONIC   *mne;
     unsigned int i;
-    char buf[MAXLINE];
+    char buf[MAXLINE+1];    /*  cleanup() may add a character  */
     int skipit = !(Ifstack->xtrue && Ifstack->acctrue);
 
     strlower(str);
-- 
2.43.0


From 9df9015ac7481318b4251db2186e2586961b98be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:13 +0000
Subject: [PATCH 47/72] fix: make room for long texts in ECHO

---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index fa9210f..4f589e7 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1169,12 +1169,12 @@ v_echo(char *str, MNEMONIC *dummy)
 {
     SYMBOL *sym = eval(str, 0);
     SYMBOL *s;
-    char buf[256];
+    char buf[MAXLINE];
 
     for (s = sym; s; s = s->next) {
         if (!(s->flags & SYM_UNKNOWN)) {
             if (s->flags & (SYM_MACRO|SYM_STRING))
-                sprintf(buf,"%s", s->string);
+                snprintf(buf, sizeof(buf), "%s", s->string);
             else
                 sprintf(buf,"$%lx", s->value);
             if (FI_listfile)
-- 
2.43.0


From f5b76f8a3d4ff6fac8c722cb3f609616896aaa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:14 +0000
Subject: [PATCH 48/72] fix: make room for long names put together in SET

---
 src/ops.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 4f589e7..5fc45a1 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1194,7 +1194,7 @@ void v_set(char *str, MNEMONIC *dummy)
 {
 
     SYMBOL *sym, *lab;
-    char dynamicname[257];
+    char dynamicname[MAXLINE*8];
     int i = 0,j;
     int setundefined = 0;
 
-- 
2.43.0


From 72eb641d6daf1cb4b5f88ba9a2b9434afca140ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:24:15 +0000
Subject: [PATCH 49/72] fix: make room for the data of a line

A line of long words or of text in long words may give 4 bytes for a character.
Text from symbols may be longer still and is refused then.
---
 src/ops.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 5fc45a1..94ac2ba 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -29,7 +29,7 @@
 
 #include "asm.h"
 
-unsigned char Gen[MAXLINE];
+unsigned char Gen[MAXLINE*4];
 unsigned char OrgFill = DEFORGFILL;
 int	 Glen;
 
@@ -773,6 +773,8 @@ v_dc(char *str, MNEMONIC *mne)
     }
     sym = eval(str, 0);
     for (; sym; sym = sym->next) {
+        if (Glen > (int)sizeof(Gen) - 4)
+            asmerr( ERROR_AVOID_SEGFAULT, true, "data, line too long" );
         value = sym->value;
         if (sym->flags & SYM_UNKNOWN) {
             ++Redo;
@@ -781,6 +783,8 @@ v_dc(char *str, MNEMONIC *mne)
         if (sym->flags & SYM_STRING) {
             unsigned char *ptr = (void *)sym->string;
             while ((value = *ptr) != 0) {
+                if (Glen > (int)sizeof(Gen) - 4)
+                    asmerr( ERROR_AVOID_SEGFAULT, true, "data, line too long" );
                 if (vmode) {
                     setspecial(value, 0);
                     tmp = eval(macstr, 0);
-- 
2.43.0


From 0ebb9ae0f25b2e00f6b513c0173bcc8d8a287cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:40 +0000
Subject: [PATCH 50/72] fix: make room for long directory names

---
 src/ops.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ops.c b/src/ops.c
index 94ac2ba..a59c346 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1649,6 +1649,7 @@ pfopen(const char *name, const char *mode)
     FILE *f;
     STRLIST *incdir;
     char *buf;
+    int len = 0;
 
     f = fopen(name, mode);
     if (f)
@@ -1658,7 +1659,11 @@ pfopen(const char *name, const char *mode)
     if (strchr(name, ':'))
         return NULL;
 
-    buf = zmalloc(512);
+    for (incdir = incdirlist; incdir; incdir = incdir->next) {
+        if (len < (int)strlen(incdir->buf))
+            len = strlen(incdir->buf);
+    }
+    buf = zmalloc(len + strlen(name) + 2);
 
     for (incdir = incdirlist; incdir; incdir = incdir->next) {
         addpart(buf, incdir->buf, name);
-- 
2.43.0


From 9a1a7c162f6c37986aaceb96ef9915b2e55cb904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:28:41 +0000
Subject: [PATCH 51/72] fix: report lines that are too long

The rest of a line of more than 1023 characters was taken as another line, even
if it was part of a comment, and lines were numbered wrong from there.
---
 src/main.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/main.c b/src/main.c
index 3ec512b..a8835d3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -46,6 +46,7 @@ static const char dasm_id[] = DASM_ID;
 #define atoi(x) ((int)strtol(x, (char **)NULL, 10))
 
 static const char *cleanup(char *buf, bool bDisable);
+static bool readline(char *buf);
 
 MNEMONIC *parse(char *buf);
 void panic(const char *str);
@@ -663,14 +664,15 @@ nextpass:
             }
             else
             {
-                if (fgets(buf, MAXLINE, pIncfile->fi) == NULL)
+                if (!readline(buf))
                     break;
             }
 
             if (Xdebug)
                 printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-            ++pIncfile->lineno;
+            if (pIncfile->flags & INF_MACRO)
+                ++pIncfile->lineno;
             comment = cleanup(buf, false);
             mne = parse(buf);
 
@@ -975,6 +977,27 @@ void clearrefs(void)
 
 
 
+/* read the next line of a file, the part of it that does not fit is an error */
+static bool readline(char *buf)
+{
+    int c;
+
+    if (fgets(buf, MAXLINE, pIncfile->fi) == NULL)
+        return false;
+    ++pIncfile->lineno;
+    if (strlen(buf) == MAXLINE - 1 && buf[MAXLINE - 2] != '\n')
+    {
+        c = getc(pIncfile->fi);
+        if (c != EOF && c != '\n')
+        {
+            asmerr( ERROR_SYNTAX_ERROR, false, "line too long" );
+            while (c != EOF && c != '\n')
+                c = getc(pIncfile->fi);
+        }
+    }
+    return true;
+}
+
 static const char *cleanup(char *buf, bool bDisable)
 {
     char *str;
@@ -1513,15 +1536,12 @@ void v_macro(char *str, MNEMONIC *dummy)
         if( (bStrictMode) && !skipit && (mac != NULL) && (mac->defpass == pass) )
             asmerr( ERROR_MACRO_REPEATED, true, str );
     }
-    while (fgets(buf, MAXLINE, pIncfile->fi)) {
+    while (readline(buf)) {
         const char *comment;
 
         if (Xdebug)
             printf("%08lx %s\n", (unsigned long) pIncfile, buf);
 
-        ++pIncfile->lineno;
-
-
         comment = cleanup(buf, true);
 
         mne = parse(buf);
-- 
2.43.0


From 764e99b7c1dc38fb1fe8417899b3b0e56425bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 52/72] fix: a DV line without its EQM label is an error

The line was left out with a message but the assembly ended with status 0.
---
 src/ops.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index a59c346..7204169 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -759,7 +759,7 @@ v_dc(char *str, MNEMONIC *mne)
         tmp = findsymbol(str, i);
         str += i;
         if (tmp == NULL) {
-            puts("EQM label not found");
+            asmerr( ERROR_SYNTAX_ERROR, false, "EQM label not found" );
             return;
         }
         if (tmp->flags & SYM_MACRO) {
@@ -767,7 +767,7 @@ v_dc(char *str, MNEMONIC *mne)
         }
         else
         {
-            puts("must specify EQM label for DV");
+            asmerr( ERROR_SYNTAX_ERROR, false, "must specify EQM label for DV" );
             return;
         }
     }
-- 
2.43.0


From 76c19d70a4555df6dd5f7bea6e7849a7738f53e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:27 +0000
Subject: [PATCH 53/72] fix: a missing end brace is an error

There was a message only, and the end of the line became part of a field.
---
 src/main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index a8835d3..9011757 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1116,9 +1116,9 @@ static const char *cleanup(char *buf, bool bDisable)
                 --add;
             if (*str != '}')
             {
-                puts("end brace required");
-                --str;
-                break;
+                asmerr( ERROR_SYNTAX_ERROR, false, "end brace required" );
+                str += add;
+                goto br2;
             }
             --add;
             ++str;
-- 
2.43.0


From 77c806845e8068008da5c8b6fb001d001a12a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:13:26 +0000
Subject: [PATCH 54/72] fix: take long parts whole in SET with several parts

A part of more than 256 characters was cut without a message.
---
 src/ops.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ops.c b/src/ops.c
index 7204169..b059505 100644
--- a/src/ops.c
+++ b/src/ops.c
@@ -1207,10 +1207,8 @@ void v_set(char *str, MNEMONIC *dummy)
 
     if(str[i] && str[i] == ',') // is this SET is using the "," eval-concat operator?
     {
-        strncpy(dynamicname, str,256);
-        if(i<256)
-            dynamicname[i]=0;
-        dynamicname[256]=0;
+        strncpy(dynamicname, str, i);
+        dynamicname[i]=0;
         j=strlen(dynamicname);
 
         // eval-concat argument processing loop...
@@ -1242,11 +1240,11 @@ void v_set(char *str, MNEMONIC *dummy)
             else // this argument is a symbol to be evaluated
             {
                 int t;
-                char tempbuf[257];
+                char tempbuf[MAXLINE*8];
                 char tempval[257];
                 SYMBOL *symarg;
-                strncpy(tempbuf,str+i+1,256);
-                tempbuf[256]=0;
+                strncpy(tempbuf,str+i+1,sizeof(tempbuf)-1);
+                tempbuf[sizeof(tempbuf)-1]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
                     if(tempbuf[t] == ',')
-- 
2.43.0


From 6afb58bcc19fed788c3f5f91e60101118c3df417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:33:58 +0000
Subject: [PATCH 55/72] fix: take long values whole in labels put together from
 parts

A part of more than 255 characters was cut without a message.
---
 src/main.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.c b/src/main.c
index 9011757..f6276c3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1365,11 +1365,11 @@ MNEMONIC *parse(char *buf)
             else // or else it's a symbol to be evaluated, and added to the label
             {
                 int t;
-                char tempbuf[257];
+                char tempbuf[MAXLINE];
                 char tempval[257];
                 SYMBOL *symarg;
-                strncpy(tempbuf,buf+i+1,256);
-                tempbuf[256]=0;
+                strncpy(tempbuf,buf+i+1,MAXLINE-1);
+                tempbuf[MAXLINE-1]=0;
                 for(t=0;t<strlen(tempbuf);t++)
                 {
                     if(tempbuf[t] == ',' || tempbuf[t] == ' ' || tempbuf[t] == '=' || tempbuf[t] == ':')
-- 
2.43.0


From 6334eabd4fea520d29296663c3b0a788c5ade8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:36:10 +0000
Subject: [PATCH 56/72] fix: do not read the character before an expression

It was printed for an illegal first character, and an EQM text has none before it.
---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index ffe0e2e..56cccbe 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1009,7 +1009,7 @@ const char *pushsymbol(const char *str)
         );
     if (ptr == str) {
         asmerr( ERROR_ILLEGAL_CHARACTER, false, str );
-        printf("char = '%c' %d (-1: %d)\n", *str, *str, *(str-1));
+        printf("char = '%c' %d\n", *str, *str);
         if (F_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
         return str+1;
-- 
2.43.0


From 188b7a37dc30d8fffb90d70c090c0ce4f0346f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:36:11 +0000
Subject: [PATCH 57/72] fix: do not count illegal characters as recursion

A thousand of them ended the assembly with 'Recursion too deep'.
---
 src/exp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/exp.c b/src/exp.c
index 56cccbe..ef3bf05 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -1012,6 +1012,7 @@ const char *pushsymbol(const char *str)
         printf("char = '%c' %d\n", *str, *str);
         if (F_listfile)
             fprintf(FI_listfile, "char = '%c' code %d\n", *str, *str);
+        symbolRecursionCount--;
         return str+1;
     }
 
-- 
2.43.0


From 5878c11486283485e8463b0e50f984b1e3028400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:32 +0000
Subject: [PATCH 58/72] fix: find the comment delimiters of a line outside
 quotes, whatever comments contain

A semicolon in a /* */ comment made dasm take the comment as unfinished: the
following lines were left out up to the next comment end. A quoted semicolon
hid the comments after it.
---
 src/main.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index f6276c3..ffb46b5 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1005,13 +1005,11 @@ static const char *cleanup(char *buf, bool bDisable)
     int arg, add, count = 0;
     const char *comment = "";
 
-    char *mlstart, *mlend, *semistart;
-    mlstart=strstr(buf,"/*");
-    mlend=strstr(buf,"*/");
-    semistart=strstr(buf,";");
+    char *mlstart=NULL, *mlend=NULL, *spurious=NULL;
 
     if (mlflag) // a previous multi-line comment is in progress...
     {
+        mlend=strstr(buf,"*/");
         if ( mlend )
         {
             mlflag=0; // turn off multiline comments
@@ -1037,12 +1035,25 @@ static const char *cleanup(char *buf, bool bDisable)
     }
     else // we're not presently in the middle of a multi-line comment...
     {
+        // the first comment delimiter that is not quoted counts, what a comment contains does not
+        for (str = buf; *str && *str != ';' && !mlstart; ++str)
+        {
+            if (*str == '\"' && strchr(str+1,'\"'))
+                str = strchr(str+1,'\"');
+            else if (*str == '\'' && str[1])
+                ++str;
+            else if (str[0] == '/' && str[1] == '*')
+                mlstart = str;
+            else if (str[0] == '*' && str[1] == '/' && !spurious)
+                spurious = str;
+        }
         // check for spurious comment close
-        if (mlend && ( (!semistart) || (mlend < semistart) ) && ( (!mlstart) ||  (mlend < mlstart) ) )
+        if (spurious)
             asmerr( ERROR_SPURIOUS_COMMENT_CLOSE, false, NULL );
-        if (mlstart && ((!semistart) || (mlstart < semistart)))
+        if (mlstart)
         {
-            if (mlend && (mlstart < mlend) && ((!semistart)||(mlend < semistart))) // single line /* */
+            mlend = strstr(mlstart+2,"*/");
+            if (mlend) // single line /* */
             {
 	        char tempbuf[MAXLINE];
                 char *tmpc;
-- 
2.43.0


From 67a9ef91a0d09800b51976192ba3fce01f2cc768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:01:06 +0000
Subject: [PATCH 59/72] fix: report brackets that are not closed

The operator of an earlier expression was applied in place of the bracket.
---
 src/exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index ef3bf05..2a8c1a5 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -365,7 +365,10 @@ SYMBOL *eval(const char *str, int wantmode)
             if (Opi == MAXOPS)
                 asmerr( ERROR_EXPRESSION_TABLE_OVERFLOW, true, NULL );
             else
+            {
+                Opdis[Opi] = NULL;
                 Oppri[Opi++] = 0;
+            }
             ++str;
 	    }
             break;
-- 
2.43.0


From 293948056b8518d9bfec2be94e2fa7de68384db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:56 +0000
Subject: [PATCH 60/72] fix: report closing brackets without an opening one and
 empty brackets

---
 src/exp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 2a8c1a5..2b75eca 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -142,6 +142,7 @@ SYMBOL *eval(const char *str, int wantmode)
     int oldargibase = Argibase;
     int oldopibase = Opibase;
     int scr;
+    int indexed = 0;    /*  [x+ or the like is open  */
 
     const char *pLine = str;
 
@@ -342,6 +343,7 @@ SYMBOL *eval(const char *str, int wantmode)
 		((Processor == 68705) || (Processor == 6811) || (Processor == 68908)))
 	    {
 		ucasm_indexed_notation = true;
+		indexed = 1;
 		// UCASM compatibility, allow notations [X+255], [Y+3], [SP+5]
 		switch(str[1]|0x20) {
 		    case 'x':
@@ -410,6 +412,10 @@ SYMBOL *eval(const char *str, int wantmode)
                 evaltop();
             if (Opi != Opibase)
                 --Opi;
+            else if (indexed)
+                indexed = 0;
+            else
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
             ++str;
 
 	    if (ucasm_indexed_notation) {
@@ -418,6 +424,8 @@ SYMBOL *eval(const char *str, int wantmode)
             if (Argi == Argibase)
             {
                 puts("']' error, no arg on stack");
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                Lastwasop = 0;
                 break;
             }
             }
-- 
2.43.0


From 5ad3c4f19ccf052cc3802fbcd90b57b2247004f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:56 +0000
Subject: [PATCH 61/72] fix: do not convert an operand that is not there to
 text

[x+]d changed memory before the operand stack.
---
 src/exp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 2b75eca..536be27 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -434,7 +434,7 @@ SYMBOL *eval(const char *str, int wantmode)
             {  /*  STRING CONVERSION   */
                 char buf[32];
                 ++str;
-                if (Argflags[Argi-1] == 0)
+                if (Argi != Argibase && Argflags[Argi-1] == 0)
                 {
                     sprintf(buf,"%ld",Argstack[Argi-1]);
                     Argstring[Argi-1] = strcpy(ckmalloc(strlen(buf)+1),buf);
-- 
2.43.0


From 23ef12768e67d29914842e07936b1bf56aa7f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:53:56 +0000
Subject: [PATCH 62/72] fix: report numbers without digits

$ and % on their own were taken as 0.
---
 src/exp.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 536be27..fb691ef 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -934,6 +934,7 @@ const char *pushchar(const char *str)
 const char *pushhex(const char *str)
 {
     long val = 0;
+    const char *start = str;
     for (;; ++str) {
         if (*str >= '0' && *str <= '9') {
             val = (val << 4) + (*str - '0');
@@ -945,6 +946,8 @@ const char *pushhex(const char *str)
         }
         break;
     }
+    if (str == start)
+        asmerr( ERROR_SYNTAX_ERROR, false, str );
     stackarg(val, 0, NULL);
     return str;
 }
@@ -974,10 +977,13 @@ const char *pushdec(const char *str)
 const char *pushbin(const char *str)
 {
     long val = 0;
+    const char *start = str;
     while (*str == '0' || *str == '1') {
         val = (val << 1) | (*str - '0');
         ++str;
     }
+    if (str == start)
+        asmerr( ERROR_SYNTAX_ERROR, false, str );
     stackarg(val, 0, NULL);
     return str;
 }
-- 
2.43.0


From 1cad0bedba106fb5d9e395f5197034d6868b3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:13 +0000
Subject: [PATCH 63/72] fix: report an exclamation mark that is not part of an
 operator

---
 src/exp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index fb691ef..bf0424f 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -280,11 +280,14 @@ SYMBOL *eval(const char *str, int wantmode)
             {
                 doop((opfunc_t)op_not, 128);
             }
-            else
+            else if (str[1] == '=')
             {
                 doop((opfunc_t)op_noteq, 16);
-                if (str[1])
-                    ++str;
+                ++str;
+            }
+            else
+            {
+                asmerr( ERROR_SYNTAX_ERROR, false, pLine );
             }
             ++str;
             break;
-- 
2.43.0


From 527924f181a8aaf5da9216edc9ac53d9ffdad799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:13 +0000
Subject: [PATCH 64/72] fix: report operands and brackets that directly follow
 an operand

---
 src/exp.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index bf0424f..093cc91 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -143,6 +143,7 @@ SYMBOL *eval(const char *str, int wantmode)
     int oldopibase = Opibase;
     int scr;
     int indexed = 0;    /*  [x+ or the like is open  */
+    int malformed = 0;  /*  reported at the end of the expression  */
 
     const char *pLine = str;
 
@@ -154,6 +155,9 @@ SYMBOL *eval(const char *str, int wantmode)
 
     while (*str)
     {
+        int afterop = Lastwasop;
+        int args = Argi;
+
         if (Xdebug)
             printf("char '%c'\n", *str);
 
@@ -339,6 +343,8 @@ SYMBOL *eval(const char *str, int wantmode)
             /* fall thru OK */
 
         case '[':   /*  eventually an argument      */
+            if (!afterop)
+                malformed = 1;
 	    ucasm_indexed_notation = false;
 
 	    if ((((((str[1]|0x20) == 'x') || ((str[1]|0x20) == 'y')) && (str[2] == '+')) ||     // X- or Y-indexed address mode
@@ -537,8 +543,9 @@ SYMBOL *eval(const char *str, int wantmode)
                     Lastwasop = 1;
                 }
                 --Argi;
-                if (Argi > Argibase)
+                if (Argi > Argibase || malformed)
                     asmerr( ERROR_SYNTAX_ERROR, false, pLine );
+                malformed = 0;
                 cur->value = Argstack[Argi];
                 cur->flags = Argflags[Argi];
 
@@ -595,6 +602,9 @@ SYMBOL *eval(const char *str, int wantmode)
             }
             break;
         }
+
+        if (!afterop && Argi > args)
+            malformed = 1;
     }
 
     while(Opi != Opibase)
@@ -618,7 +628,7 @@ SYMBOL *eval(const char *str, int wantmode)
             base->addrmode = AM_BYTEREL;
     }
 
-    if (Argi != Argibase || Opi != Opibase)
+    if (Argi != Argibase || Opi != Opibase || malformed)
         asmerr( ERROR_SYNTAX_ERROR, false, pLine );
 
 
-- 
2.43.0


From cde81977fc6193ce5c2e4d7270152d721414edce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:13 +0000
Subject: [PATCH 65/72] fix: report parentheses of an operand that are not
 paired

---
 src/exp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 093cc91..a180758 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -143,6 +143,7 @@ SYMBOL *eval(const char *str, int wantmode)
     int oldopibase = Opibase;
     int scr;
     int indexed = 0;    /*  [x+ or the like is open  */
+    int parens = 0;     /*  open parentheses of an addressing mode  */
     int malformed = 0;  /*  reported at the end of the expression  */
 
     const char *pLine = str;
@@ -336,6 +337,7 @@ SYMBOL *eval(const char *str, int wantmode)
             if (wantmode)
             {
                 cur->addrmode = AM_INDWORD;
+                ++parens;
                 ++str;
                 break;
             }
@@ -388,6 +390,10 @@ SYMBOL *eval(const char *str, int wantmode)
 
             if (wantmode)
             {
+                if (parens)
+                    --parens;
+                else
+                    malformed = 1;
                 if (cur->addrmode == AM_INDWORD && str[1] == ',' && (str[2]|0x20) == 'y')
                 {
                     cur->addrmode = AM_INDBYTEY;
@@ -628,7 +634,7 @@ SYMBOL *eval(const char *str, int wantmode)
             base->addrmode = AM_BYTEREL;
     }
 
-    if (Argi != Argibase || Opi != Opibase || malformed)
+    if (Argi != Argibase || Opi != Opibase || malformed || parens)
         asmerr( ERROR_SYNTAX_ERROR, false, pLine );
 
 
-- 
2.43.0


From 7c4ea169d530d9c61abb8d42c9a556a5df0b037f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:13 +0000
Subject: [PATCH 66/72] fix: report the sign of an immediate operand inside an
 operand

---
 src/exp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index a180758..9dd2f57 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -460,6 +460,8 @@ SYMBOL *eval(const char *str, int wantmode)
 
         case '#':
 
+            if (!Lastwasop || Opi != Opibase)
+                malformed = 1;
             cur->addrmode = AM_IMM8;
             ++str;
             /*
-- 
2.43.0


From f533dff0432d435446c5cc0cdd7291ad8c4bb22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:13 +0000
Subject: [PATCH 67/72] fix: report a list that ends in a comma

---
 src/exp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exp.c b/src/exp.c
index 9dd2f57..7c563ed 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -635,6 +635,10 @@ SYMBOL *eval(const char *str, int wantmode)
         if ((base->addrmode == 0) && (cur->addrmode == AM_BYTEREL))
             base->addrmode = AM_BYTEREL;
     }
+    else if (cur != base)
+    {
+        malformed = 1;
+    }
 
     if (Argi != Argibase || Opi != Opibase || malformed || parens)
         asmerr( ERROR_SYNTAX_ERROR, false, pLine );
-- 
2.43.0


From e04728bde531bc5cd54853eaeab0349444316436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:00:13 +0000
Subject: [PATCH 68/72] fix: read x, y and sp in lists of values as symbols

---
 src/exp.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exp.c b/src/exp.c
index 7c563ed..981683a 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -147,6 +147,7 @@ SYMBOL *eval(const char *str, int wantmode)
     int malformed = 0;  /*  reported at the end of the expression  */
 
     const char *pLine = str;
+    int operand = wantmode;
 
     Argibase = Argi;
     Opibase = Opi;
@@ -351,7 +352,7 @@ SYMBOL *eval(const char *str, int wantmode)
 
 	    if ((((((str[1]|0x20) == 'x') || ((str[1]|0x20) == 'y')) && (str[2] == '+')) ||     // X- or Y-indexed address mode
 	        (((str[1]|0x20) == 's') && ((str[2]|0x20) == 'p') && (str[3] == '+'))) &&	// SP-indexed address mode
-		((Processor == 68705) || (Processor == 6811) || (Processor == 68908)))
+		operand && ((Processor == 68705) || (Processor == 6811) || (Processor == 68908)))
 	    {
 		ucasm_indexed_notation = true;
 		indexed = 1;
@@ -476,7 +477,7 @@ SYMBOL *eval(const char *str, int wantmode)
             while(Opi != Opibase)
                 evaltop();
             Lastwasop = 1;
-            scr = str[1]|0x20;	  /* to lower case */
+            scr = operand ? str[1]|0x20 : 0;	  /* to lower case */
 
             if (cur->addrmode == AM_INDWORD && scr == 'x' && !IsAlphaNum( str[2] ))
             {
-- 
2.43.0


From cd31b4496961c6211ecc1a5bf3e5674322c3a139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:02:06 +0000
Subject: [PATCH 69/72] fix: report index brackets that are not closed

---
 src/exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 981683a..086362e 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -152,6 +152,7 @@ SYMBOL *eval(const char *str, int wantmode)
     Argibase = Argi;
     Opibase = Opi;
     Lastwasop = 1;
+    ucasm_indexed_notation = false;
     base = cur = allocsymbol();
 
 
@@ -641,7 +642,7 @@ SYMBOL *eval(const char *str, int wantmode)
         malformed = 1;
     }
 
-    if (Argi != Argibase || Opi != Opibase || malformed || parens)
+    if (Argi != Argibase || Opi != Opibase || malformed || parens || indexed)
         asmerr( ERROR_SYNTAX_ERROR, false, pLine );
 
 
-- 
2.43.0


From 294cf28dfe699446551015fc8891e6d4000d3d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:03:31 +0000
Subject: [PATCH 70/72] fix: report immediate and indirect operands without a
 value

---
 src/exp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exp.c b/src/exp.c
index 086362e..3e06055 100644
--- a/src/exp.c
+++ b/src/exp.c
@@ -637,7 +637,8 @@ SYMBOL *eval(const char *str, int wantmode)
         if ((base->addrmode == 0) && (cur->addrmode == AM_BYTEREL))
             base->addrmode = AM_BYTEREL;
     }
-    else if (cur != base)
+    else if (cur != base || cur->addrmode == AM_IMM8 || cur->addrmode == AM_INDWORD || cur->addrmode == AM_INDBYTE
+        || cur->addrmode == AM_INDBYTEX || cur->addrmode == AM_INDBYTEY)
     {
         malformed = 1;
     }
-- 
2.43.0


From 5bcc05d98c73ea07d2044a9e044ec1fe03f50fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:03:37 +0000
Subject: [PATCH 71/72] fix: refuse a negative number of passes instead of
 allocating too little for it

---
 src/main.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index ffb46b5..def3edb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -590,8 +590,12 @@ nofile:
         goto fail;
     }
 
-    bStopAtEnd = malloc((nMaxPasses+2) * sizeof(bool));
-    memset(bStopAtEnd, 0, nMaxPasses+2);	// we dont count from zero ! (for fewer code changes)
+    if (nMaxPasses < 0)
+        panic("Invalid number of passes, must not be negative");
+
+    bStopAtEnd = calloc((size_t)nMaxPasses + 2, sizeof(bool));	// we dont count from zero ! (for fewer code changes)
+    if (bStopAtEnd == NULL)
+        panic("unable to allocate memory for the passes");
 
     /*    TOP LEVEL IF    */
     {
-- 
2.43.0


From a16b85e4462c3f4b21051cd79cf37b252ef72439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:03:43 +0000
Subject: [PATCH 72/72] fix: leave every file alone when the command line is
 refused

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index def3edb..4d6e61d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1840,6 +1840,10 @@ int main(int ac, char **av)
         printf( "Fatal assembly error: %s\n", sErrorDef[nError].sDescription );
     }
 
+    // nothing was assembled if the command line was refused
+    if (nError == ERROR_COMMAND_LINE)
+        return nError;
+
     DumpSymbolTable( sortMode );
 
     passbuffer_cleanup();
-- 
2.43.0

