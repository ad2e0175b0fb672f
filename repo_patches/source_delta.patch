From 4a7800d5613841347c6a13b46a9a5e83ad8c2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 01/35] fix: append_text_node: re-enable signals when out of
 memory

---
 src/buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 3b958ce..11d7fca 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -674,7 +674,10 @@ append_text_node (ed_text_node_t *th, const char *tb, const size_t len)
 
   /* Allocate node to push onto text queue */
   if (!(tp = (ed_text_node_t *) malloc (ED_TEXT_NODE_T_SIZE)))
-    return NULL;
+    {
+      spl0 ();
+      return NULL;
+    }
   tp->text = (char *) tb;
   tp->text_i = len;
 
-- 
2.43.0


From 71945193b945a306dc82b4bfd91bea92e1a5fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 02/35] fix: init_frame_buffer: re-enable signals when out of
 memory

---
 src/page.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/page.c b/src/page.c
index 4e69962..61479a1 100644
--- a/src/page.c
+++ b/src/page.c
@@ -802,15 +802,23 @@ init_frame_buffer (ed_frame_buffer_t *fb, ed_buffer_t *ed)
             free (fb->row[n]->text);
             init_frame_node (fb->row[n]);
           }
-      REALLOC_THROW (fp, fp_size,
-                     (ed->display->ws_row - 1) * sizeof (ed_frame_node_t *),
-                     ERR, ed);
+      if (!realloc_buffer ((void **) &fp, &fp_size, (ed->display->ws_row - 1)
+                           * sizeof (ed_frame_node_t *), ed))
+        {
+          spl0 ();
+          return ERR;
+        }
       fb->row = (ed_frame_node_t **) fp;
       for (n = max (0, fb->rows - 1); n < ed->display->ws_row - 1; ++n)
         {
           size = 0;
           fb->row[n] = NULL;
-          REALLOC_THROW (fb->row[n], size, sizeof (ed_frame_node_t), ERR, ed);
+          if (!realloc_buffer ((void **) &fb->row[n], &size,
+                               sizeof (ed_frame_node_t), ed))
+            {
+              spl0 ();
+              return ERR;
+            }
           init_frame_node (fb->row[n]);
         }
 
-- 
2.43.0


From eda89a0b52e75142163e674221e02074ddf3ee69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:01 +0000
Subject: [PATCH 03/35] fix: handle_hup: don't read before the start of an
 empty HOME

---
 src/signal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.c b/src/signal.c
index 6929962..88634a1 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -60,7 +60,7 @@ handle_hup (int signo)
                      &addr, &size, "w", ed) < 0
       && (s = getenv ("HOME")))
     {
-      m = *(s + (len = strlen (s)) - 1) != '/';
+      m = (len = strlen (s)) && *(s + len - 1) != '/';
       if (!(hup = (char *) malloc ((size_t) (len + m + sizeof template))))
         quit (2, ed);
       memcpy (hup, s, len);
-- 
2.43.0


From 61d7b881d091d4e1c77d087af14f493f4a34dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:22 +0000
Subject: [PATCH 04/35] fix: append_lines, copy_lines: mark buffer modified
 before recording undo

---
 src/cmds.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index d8234ee..eef6cd6 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -72,10 +72,10 @@ append_lines (off_t after, ed_buffer_t *ed)
           spl0 ();
           return ERR;
         }
-      lp = get_line_node (ed->state->dot, ed);
-      APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
       ed->state->is_empty = 0;
       ed->state->is_modified = 1;
+      lp = get_line_node (ed->state->dot, ed);
+      APPEND_UNDO_NODE (lp, up, ed->state->dot, ed);
       spl0 ();
     }
   /* NOTREACHED */
@@ -108,8 +108,8 @@ copy_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
               return ERR;
             }
           ed->state->dot = ++after;
-          APPEND_UNDO_NODE (np, up, after, ed);
           ed->state->is_modified = 1;
+          APPEND_UNDO_NODE (np, up, after, ed);
           spl0 ();
         }
     }
-- 
2.43.0


From cb058ba321dd636304a6371760df8f69e0de82c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 05/35] fix: reopen_ed_buffer: keep old buffer file if new one
 cannot be opened; report failure

---
 src/buf.c  | 19 +++++++++++++++----
 src/exec.c |  2 +-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 11d7fca..6356771 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -234,12 +234,23 @@ init_ed_state (off_t addr, struct ed_state *state)
 int
 reopen_ed_buffer (ed_buffer_t *ed)
 {
+  FILE *fp = NULL;
+  char *name = NULL;
+  size_t name_size = 0;
   int status;
 
-  if ((status = close_ed_buffer (ed)) < 0
-      || (status = init_core_buffer (ed)) < 0)
-    return status;
-  return 0;
+  /* Keep the old buffer file unless a new one can be opened. */
+  if ((status = create_disk_buffer (&fp, &name, &name_size, ed)) < 0)
+    {
+      free (name);
+      return status;
+    }
+  status = close_ed_buffer (ed);
+  free (ed->core->pathname);
+  ed->core->fp = fp;
+  ed->core->pathname = name;
+  ed->core->pathname_size = name_size;
+  return status;
 }
 
 
diff --git a/src/exec.c b/src/exec.c
index 08d95eb..60428ba 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -516,7 +516,7 @@ E_cmd (ed_buffer_t *ed)
     }
   reset_undo_queue (ed);
   reset_global_queue (ed);
-  if (reopen_ed_buffer (ed) < 0)
+  if ((status = reopen_ed_buffer (ed)) < 0)
     {
       spl0 ();
       return status;
-- 
2.43.0


From dd8205942635658facd6e556aee1e6cec76e85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 06/35] fix: address_offset: reject offsets that overflow the
 address

---
 src/parse.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 2ea5fc9..106a2f8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -164,11 +164,26 @@ line_address (off_t *addr, ed_buffer_t *ed)
 }
 
 
+/*  add_offset: Add offset to address; return status. */
+static int
+add_offset (off_t *addr, off_t n, ed_buffer_t *ed)
+{
+  if (n > 0 ? *addr > OFF_T_MAX - n : *addr < OFF_T_MIN - n)
+    {
+      ed->exec->err = _("Address out of range");
+      return ERR;
+    }
+  *addr += n;
+  return 0;
+}
+
+
 /*  address_offset: Apply offset from command buffer to address. */
 int
 address_offset (off_t *addr, ed_buffer_t *ed)
 {
   off_t n = 1;
+  int status;
 
   for (;; n = 1)
     switch ((unsigned char) *ed->input)
@@ -184,18 +199,21 @@ address_offset (off_t *addr, ed_buffer_t *ed)
       case '8':
       case '9':
         STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr += n;
+        if ((status = add_offset (addr, n, ed)) < 0)
+          return status;
         break;
       case '+':
         if (isdigit ((unsigned char) *++ed->input))
           STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr += n;
+        if ((status = add_offset (addr, n, ed)) < 0)
+          return status;
         break;
       case '-':
       case '^':
         if (isdigit ((unsigned char) *++ed->input))
           STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-        *addr -= n;
+        if ((status = add_offset (addr, -n, ed)) < 0)
+          return status;
         break;
       case ' ':
       case '\t':
@@ -203,7 +221,8 @@ address_offset (off_t *addr, ed_buffer_t *ed)
         if (isdigit ((unsigned char) *ed->input))
           {
             STRTOLL_THROW (n, ed->input, &ed->input, ERR);
-            *addr += n;
+            if ((status = add_offset (addr, n, ed)) < 0)
+              return status;
           }
         break;
       default:
-- 
2.43.0


From 7aa9b1f9f46d2306db84b5312c8fc07277fe1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 07/35] fix: i_cmd: empty insert into empty buffer leaves
 current line 0

---
 src/exec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 60428ba..ebac685 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -788,7 +788,7 @@ i_cmd (ed_buffer_t *ed)
 
   /* Per SUSv4, 2013, empty insert sets dot to addressed line. */
   if (ed->state->dot == ed->exec->region->end - 1)
-    ed->state->dot = ed->exec->region->end;
+    ed->state->dot = min (ed->state->lines, ed->exec->region->end);
   return ed->display->io_f;
 }
 
-- 
2.43.0


From 030949d9999f40a1bb7a2ea525b1a6ab6f6433f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 08/35] fix: exec_command: don't take `}' for `='

---
 src/exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index ebac685..cf36a82 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -376,7 +376,8 @@ exec_command (ed_buffer_t *ed)
     case '#':
       return comment_cmd (ed);
     default:
-      return (c >= ED_KEY_FIRST ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
+      return (c >= ED_KEY_FIRST && c <= ED_KEY_FIRST + ED_KEY_MASK
+              ? ed_cmd[(c - ED_KEY_FIRST) & ED_KEY_MASK](ed)
               : invalid_cmd (ed));
     }
 }
-- 
2.43.0


From 60d383024ae51f5442ed6f6319bb9fc2e3b549bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 09/35] fix: append_to_register, inter_register_copy: return
 error if register cannot be reset

---
 src/io.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 36b2dd9..88c1cf6 100644
--- a/src/io.c
+++ b/src/io.c
@@ -985,7 +985,7 @@ append_to_register (off_t from, off_t to, int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = write_stream (write_fp, lp, n, &size, ed)) < 0)
@@ -1054,7 +1054,7 @@ inter_register_copy (int append, ed_buffer_t *ed)
           return ERR;
         }
     }
-  else if ((status = reset_register_buffer (write_idx, ed) < 0))
+  else if ((status = reset_register_buffer (write_idx, ed)) < 0)
     return status;
 
   if ((status = append_stream (write_fp, read_fp, &size, ed)) < 0)
-- 
2.43.0


From 91bdcf3b0cf8234d5a7b63e768139288e88290fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 10/35] fix: read_stream_r: keep text following NUL

---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 88c1cf6..015ca4e 100644
--- a/src/io.c
+++ b/src/io.c
@@ -312,7 +312,9 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   do                                                                          \
     {                                                                         \
       char *_t;                                                               \
-      if (!(_t = strdup (s)) || !append_text_node ((th), _t, (len)))          \
+      /* NB: Text may contain NULs. */                                        \
+      if (!(_t = (char *) malloc ((len) + 1))                                 \
+          || !append_text_node ((th), memcpy (_t, (s), (len) + 1), (len)))    \
         {                                                                     \
           fprintf (stderr, "%s\n", strerror (errno));                         \
           (ed)->exec->err = _("Memory exhausted");                            \
-- 
2.43.0


From f8e7a9d622fcf5a1bd16f301bb39f92e2236395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:17 +0000
Subject: [PATCH 11/35] fix: get_buffer_line, put_buffer_line: resynchronize
 file offset after an error

---
 src/buf.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 6356771..bea109a 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -361,6 +361,7 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
       ed->core->offset = lp->seek;
       if (FSEEK (ed->core->fp, ed->core->offset, SEEK_SET) == -1)
         {
+          ed->core->offset = -1;
           fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
           ed->exec->err = _("Buffer seek error");
           return NULL;
@@ -371,6 +372,7 @@ get_buffer_line (const ed_line_node_t *lp, ed_buffer_t *ed)
   REALLOC_THROW (tb, tb_size, lp->len + 1, NULL, ed);
   if (fread (tb, sizeof (char), lp->len, ed->core->fp) != lp->len)
     {
+      ed->core->offset = -1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer read error");
       return NULL;
@@ -418,12 +420,17 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
   if (fwrite (t, sizeof (char), len, ed->core->fp) != len)
     {
       ed->core->offset = -1;
+      ed->core->seek_on_write = 1;
       fprintf (stderr, "%s: %s\n", ed->core->pathname, strerror (errno));
       ed->exec->err = _("Buffer write error");
       return NULL;
     }
   if (!append_line_node (len, ed->core->offset, ed->state->dot, ed))
-    return NULL;
+    {
+      ed->core->offset = -1;
+      ed->core->seek_on_write = 1;
+      return NULL;
+    }
 
   ++ed->state->dot;
   ed->core->offset += len;      /* Update current offset in buffer file. */
-- 
2.43.0


From 4dfe7e6acc591789fde6c510a9a2f9beb8e67b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 12/35] fix: write_stream: report failure to flush output

---
 src/io.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/io.c b/src/io.c
index 015ca4e..2a2314d 100644
--- a/src/io.c
+++ b/src/io.c
@@ -738,12 +738,24 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
 #ifdef WANT_ED_ENCRYPTION
   if (ed->exec->have_key)
     {
-      flush_des_file (fp);
+      if (flush_des_file (fp) < 0)
+        {
+          fprintf (stderr, "%s\n", strerror (errno));
+          ed->exec->err = _("File write error");
+          clearerr (fp);
+          return ERR;
+        }
       if (*size)
         *size += 8 - *size % 8;
     }
 #endif
-  fflush (fp);
+  if (fflush (fp) == EOF)
+    {
+      fprintf (stderr, "%s\n", strerror (errno));
+      ed->exec->err = _("File write error");
+      clearerr (fp);
+      return ERR;
+    }
 
   return 0;
 }
-- 
2.43.0


From 754d867a9d1726b3f95e9e465d250652e0aeae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 13/35] fix: apply_subst_template: allocate case-change stack
 in units of its elements

---
 src/sub.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sub.c b/src/sub.c
index 6298d7a..dfd112d 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -660,8 +660,7 @@ apply_subst_template (const char *boln, const regmatch_t *rm,
   int n;
   int change_once = 0;
 
-  if (cc_size < rhs_i / 2 + 1)
-    REALLOC_THROW (cc, cc_size, rhs_i /  2 + 1, ERR, ed);
+  REALLOC_THROW (cc, cc_size, (rhs_i / 2 + 1) * sizeof *cc, ERR, ed);
   cc[cc_top++] = 0;
 
   for (; sub < rhs + rhs_i; ++sub)
-- 
2.43.0


From 88c73728a13f46e421f0d199f8f0b2694ceb6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 14/35] fix: substitute_matching: no division by zero if
 last-relative frequency exceeds matches

---
 src/sub.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sub.c b/src/sub.c
index dfd112d..1460a40 100644
--- a/src/sub.c
+++ b/src/sub.c
@@ -471,7 +471,8 @@ substitute_matching (const regex_t *re, const ed_line_node_t *lp,
      then nothing to do. */
   if ((n = count_matches (re, txt, lp->len, ed)) < 0)
     return ERR;
-  else if ((s_f & SNLR || s_f & SMLR) && n <= labs(s_nth))
+  else if (((s_f & SNLR || s_f & SMLR) && n <= labs(s_nth))
+           || (s_f & SMLR && n + s_mod <= 0))
     return *len = 0;
 
   /* Last match-relative s_nth?  */
-- 
2.43.0


From 6ce1eca8464040e7388effbc23abc01dc241d28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 15/35] fix: get_stream_line: accept empty lines in last block
 of encrypted file

---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 2a2314d..827f21c 100644
--- a/src/io.c
+++ b/src/io.c
@@ -530,7 +530,8 @@ get_stream_line (FILE *fp, size_t *len, ed_buffer_t *ed)
     }
   if (feof (fp))
     {
-      if (!*len)
+      /* NB: While decrypting, end of file is seen ahead of last block. */
+      if (c == EOF && !*len)
 
         /* Propagate stream status - don't call clearerr(3). */
         return NULL;
-- 
2.43.0


From 10469a6f26d72cd2accb476c08c425de1b4c207c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 16/35] fix: read_stream: mark buffer modified if reading fails
 or is interrupted midway

---
 src/io.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io.c b/src/io.c
index 827f21c..3e081c9 100644
--- a/src/io.c
+++ b/src/io.c
@@ -187,6 +187,7 @@ read_pipe (const char *fn, off_t after, off_t *addr,
           spl0 ();                                                            \
           return ERR;                                                         \
         }                                                                     \
+      ed->state->is_modified = 1;                                             \
       (lp) = (lp)->q_forw;                                                    \
       APPEND_UNDO_NODE ((lp), (up), (addr), ed);                              \
       spl0 ();                                                                \
@@ -206,6 +207,7 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   char *tb;
   size_t len;
   int newline_inserted = 0;
+  int is_modified = ed->state->is_modified;
   /*
    * int newline_appended_already = ed->state->newline_appended;
    */
@@ -255,6 +257,8 @@ read_stream (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    * ed->state->is_empty = (ed->state->is_empty
    *                        ? *size == ed->state->newline_missing : 0);
    */
+  /* Per read_stream callers, only a partial read modifies buffer. */
+  ed->state->is_modified = is_modified;
   ed->state->is_empty = ed->state->is_empty && !*size;
 
   /*
@@ -336,6 +340,7 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
   char *t;
   size_t len = 0;
   int newline_inserted = 0;
+  int is_modified = ed->state->is_modified;
   /*
    * int newline_appended_already = ed->state->newline_appended;
    */
@@ -395,6 +400,8 @@ read_stream_r (FILE *fp, off_t after, off_t *size, ed_buffer_t *ed)
    * ed->state->is_empty = (ed->state->is_empty
    *                        ? *size == ed->state->newline_missing : 0);
    */
+  /* Per read_stream callers, only a partial read modifies buffer. */
+  ed->state->is_modified = is_modified;
   ed->state->is_empty = ed->state->is_empty && !*size;
 
   /* If stream_appended, then nl_prev == 0  ==> nl_prev && binary_prev == 0. */
-- 
2.43.0


From 01e53a1ffde4871f1a5d7b51a86c82ae0875d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 17/35] fix: w_cmd: undo following write restores a modified
 buffer

---
 src/exec.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec.c b/src/exec.c
index cf36a82..8e59113 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1470,6 +1470,9 @@ w_cmd (ed_buffer_t *ed)
         {
           ed->state->is_modified = 0;
 
+          /* Buffer to which undo returns is not the one written. */
+          ed->state[1].is_modified = 1;
+
           /*
            * Per SUSv4, exit_status cannot be reset. We'll do it
            * anyhow ...
-- 
2.43.0


From 0109f4e37361ef39a3932c5f9afb3e4fe31d251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 18/35] fix: append_line_node: buffer is not empty once it
 holds a line

---
 src/buf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buf.c b/src/buf.c
index bea109a..312acf1 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -469,6 +469,7 @@ append_line_node (size_t len, off_t offset, off_t addr, ed_buffer_t *ed)
   np = get_line_node (addr, ed);
   APPEND_NODE (lp, np);
   ++ed->state->lines;
+  ed->state->is_empty = 0;
   return lp;
 }
 
-- 
2.43.0


From 26b45fc7b3d4523d712a41a0bdcaf217e396a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 19/35] fix: get_line_node_address: reject a line that is not
 in the buffer even if empty

---
 src/buf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index 312acf1..9df9e72 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -521,7 +521,7 @@ get_line_node_address (const ed_line_node_t *lp, off_t *addr, ed_buffer_t *ed)
   *addr = 0;
   while (cp != lp && (cp = cp->q_forw) != ed->core->line_head)
     ++*addr;
-  if (*addr && cp == ed->core->line_head)
+  if (cp != lp)
     {
       ed->exec->err = _("Address out of range");
       return ERR;
-- 
2.43.0


From f4f5b9491800c7c128e8244fb941442b75515c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 20/35] fix: exec_command: accept m and t in traditional and
 POSIX modes

---
 src/exec.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/exec.c b/src/exec.c
index 8e59113..2599560 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -326,14 +326,15 @@ exec_command (ed_buffer_t *ed)
   /* Validate command prefix, if any. */
   switch (c = *ed->input++)
     {
-    case 'm':
-    case 't':
 #ifdef WANT_ED_MACRO
     case '@':
-#endif
       if (ed->exec->opt & (POSIXLY_CORRECT | TRADITIONAL))
         return invalid_cmd (ed);
-      else if (ed->file->is_glob)
+      /* FALLTHROUGH */
+#endif
+    case 'm':
+    case 't':
+      if (ed->file->is_glob)
         {
           ed->exec->err = _("Command prefix unexpected");
           return ERR;
-- 
2.43.0


From cab5babe3e43cafcb46a5ea762dcca4932a6d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 21/35] fix: init_ed_buffer: use default window size if LINES
 or COLUMNS is out of range

---
 src/buf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buf.c b/src/buf.c
index 9df9e72..e41aa28 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -69,7 +69,7 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
     }
 
   /* !SIGWINCH */
-  else if (!ed->display->ws_row)
+  if (!ed->display->ws_row)
     ed->display->ws_row = WS_ROW;
 
   if ((cs = getenv ("COLUMNS")))
@@ -80,7 +80,7 @@ one_time_init (int argc, char *argv[], ed_buffer_t *ed)
     }
 
   /* !SIGWINCH */
-  else if (!ed->display->ws_col)
+  if (!ed->display->ws_col)
     ed->display->ws_col = WS_COL;
 
   /* Assign a default command prompt. */
-- 
2.43.0


From fed5ec2d6b959cee956f821e2a77b982460e1c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:19 +0000
Subject: [PATCH 22/35] fix: z_cmd: half a page is at least one line

---
 src/exec.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exec.c b/src/exec.c
index 2599560..06bb946 100644
--- a/src/exec.c
+++ b/src/exec.c
@@ -1693,7 +1693,8 @@ z_cmd (ed_buffer_t *ed)
        *     the screen.
        */
       addr = min (ed->state->lines, (ed->exec->region->end +
-                                     ((ed->display->ws_row - 1) >> 1) - 1));
+                                     max (1, (ed->display->ws_row - 1) >> 1)
+                                     - 1));
       ed->display->io_f |= ZFWD | ZHFW;
       break;
     }
-- 
2.43.0


From 29d14af4b78f7ebd79a69e75c1cee475253da091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:34 +0000
Subject: [PATCH 23/35] fix: read_file: mark buffer modified if close fails
 after lines were read

---
 src/io.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io.c b/src/io.c
index 3e081c9..9db2bd8 100644
--- a/src/io.c
+++ b/src/io.c
@@ -142,6 +142,10 @@ read_file (const char *fn, off_t after, off_t *addr,
       {
         fprintf (stderr, "%s: %s\n", fn, strerror (errno));
         ed->exec->err = _("File close error");
+
+        /* Callers don't get to account for lines already read. */
+        if (*addr)
+          ed->state->is_modified = 1;
         return ERR;
       }
   return 0;
-- 
2.43.0


From b5ee19504879abd9c0e4d0b24d4b5c1cb92973f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 24/35] fix: cbc_encode: report a short write as an error

---
 src/cbc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cbc.c b/src/cbc.c
index 655c80f..676f196 100644
--- a/src/cbc.c
+++ b/src/cbc.c
@@ -327,7 +327,7 @@ cbc_encode (unsigned char *msgbuf, int n, FILE *fp)
       DES_ecb_encrypt((DES_cblock *) msgbuf, (DES_cblock *) msgbuf,
                       &schedule, DES_ENCRYPT);
       MEMCPY (ivec, msgbuf, 8);
-      return WRITE (msgbuf, 8, fp);
+      return WRITE (msgbuf, 8, fp) == 8 ? 8 : EOF;
     }
 
   /*
@@ -344,7 +344,7 @@ cbc_encode (unsigned char *msgbuf, int n, FILE *fp)
     msgbuf[n] ^= ivec[n];
   DES_ecb_encrypt((DES_cblock *) msgbuf, (DES_cblock *) msgbuf,
                   &schedule, DES_ENCRYPT);
-  return WRITE (msgbuf, 8, fp);
+  return WRITE (msgbuf, 8, fp) == 8 ? 8 : EOF;
 }
 
 /* cbc_decode: Decrypt using DES Cipher Block Chaining mode. */
-- 
2.43.0


From ccf0449573bd8d32877a06f6e444bad9491810e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:41 +0000
Subject: [PATCH 25/35] fix: mark_line_node, get_marked_node_address: marks are
 a through z in every locale

---
 src/cmds.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index eef6cd6..c7f929a 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -246,7 +246,7 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
 int
 mark_line_node (const ed_line_node_t *lp, int n, ed_buffer_t *ed)
 {
-  if (!islower (n))
+  if (n < 'a' || n > 'z')
     {
       ed->exec->err = _("Invalid address mark");
       return ERR;
@@ -262,7 +262,7 @@ mark_line_node (const ed_line_node_t *lp, int n, ed_buffer_t *ed)
 int
 get_marked_node_address (int n, off_t *addr, ed_buffer_t *ed)
 {
-  if (!islower (n))
+  if (n < 'a' || n > 'z')
     {
       ed->exec->err = _("Invalid address mark");
       return ERR;
-- 
2.43.0


From d41dc5909c448f23d5a167044b9e7d4e4dc07049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 26/35] fix: get_compiled_regex: keep pattern saved for
 repeated substitution until replaced

---
 src/re.c | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/re.c b/src/re.c
index 6ac2173..c793be4 100644
--- a/src/re.c
+++ b/src/re.c
@@ -15,6 +15,7 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
   static const char *compile_err = NULL;
   static regex_t *re_search = NULL; /* search regex */
   static regex_t *re_subst = NULL;  /* substitution regex */
+  static regex_t *re_kept = NULL;   /* superseded, saved for repeat */
   regex_t *re = NULL;
 
 #ifndef HAVE_REG_SYNTAX_T
@@ -212,21 +213,40 @@ get_compiled_regex (unsigned dc, int re_type, ed_buffer_t *ed)
     }
 #endif  /* !defined (HAVE_REG_SYNTAX_T) */
 
+  /* A pattern saved for repeated substitution is freed only once no
+     longer saved. */
+  if (re_kept && re_kept != ed->exec->subst->lhs)
+    {
+      regfree (re_kept);
+      free (re_kept);
+      re_kept = NULL;
+    }
+
   switch (re_type)
     {
     case RE_SUBST:
       if (re_subst && re_subst != re_search)
         {
-          regfree (re_subst);
-          free (re_subst);
+          if (re_subst == ed->exec->subst->lhs)
+            re_kept = re_subst;
+          else
+            {
+              regfree (re_subst);
+              free (re_subst);
+            }
         }
       re_subst = re;
       break;
     case RE_SEARCH:
       if (re_search && re_search != re_subst)
         {
-          regfree (re_search);
-          free (re_search);
+          if (re_search == ed->exec->subst->lhs)
+            re_kept = re_search;
+          else
+            {
+              regfree (re_search);
+              free (re_search);
+            }
         }
       re_search = re;
       break;
-- 
2.43.0


From 7f0f696e8c3f10a660dea4dbee9a2b1d40ee1a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 27/35] fix: filter_lines: don't share buffer file offset with
 writing child

---
 src/aux.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aux.c b/src/aux.c
index 187027f..f9c2890 100644
--- a/src/aux.c
+++ b/src/aux.c
@@ -147,9 +147,12 @@ filter_lines (off_t from, off_t to, const char *sc, ed_buffer_t *ed)
 
       /*
        * Close unused pipe ends, then open and write to shell
-       * process's standard input.
+       * process's standard input. Reopen buffer file so as not to
+       * share its offset with parent, which appends to it meanwhile.
        */
+      ed->core->offset = -1;
       if (close (ip[0]) < 0 || close (op[0]) < 0
+          || !(ed->core->fp = fopen (ed->core->pathname, "r"))
           || !(ipp = fdopen (ip[1], "w"))
           || (ed->exec->region->addrs
               && (status = write_stream (ipp, lp, n, &size, ed)) < 0)
-- 
2.43.0


From 4914c6c834bf3b63c6aa05117dec720e48eb5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:10 +0000
Subject: [PATCH 28/35] fix: write_file: keep handle of current file open when
 it is named explicitly

---
 src/io.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 9db2bd8..d349eca 100644
--- a/src/io.c
+++ b/src/io.c
@@ -668,7 +668,9 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
   *addr = n;
 
 #ifdef WANT_FILE_LOCK
-  if (!is_default)
+
+  /* Handle of current file, even if named explicitly, stays open. */
+  if (fp != ed->file->handle)
 #endif
     if (fclose (fp) < 0)
       {
-- 
2.43.0


From 78246fea7ad391a7349ad30a1b017f8c2e223dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 29/35] fix: write_file: reopen read-only file that has become
 writable

---
 src/io.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/io.c b/src/io.c
index d349eca..23dd300 100644
--- a/src/io.c
+++ b/src/io.c
@@ -625,21 +625,28 @@ write_file (const char *fn, int is_default, off_t from, off_t to,
         }
     }
 
-  /*
-   * XXX Potential race: Reopening file for writing may lose lock.
-   *
-   * File-locking requires file write access, so this case should not
-   * be reached.
-   */
-  else if (file_already_open
-           && (fclose (ed->file->handle) < 0 || !(ed->file->handle = NULL)))
-    {
-      fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
-      ed->exec->err = _("File close error");
-      return ERR;
-    }
   else
     {
+      /*
+       * XXX Potential race: Reopening file for writing may lose lock.
+       *
+       * File-locking requires file write access, so this case should not
+       * be reached unless file has become writable.
+       */
+      if (file_already_open)
+        {
+          spl1 ();
+          fp = ed->file->handle;
+          ed->file->handle = NULL;
+          ed->file->inode = 0;
+          spl0 ();
+          if (fclose (fp) < 0)
+            {
+              fprintf (stderr, "%s: %s\n", ed->file->name, strerror (errno));
+              ed->exec->err = _("File close error");
+              return ERR;
+            }
+        }
 #endif  /* WANT_FILE_LOCK */
       if (!(fp = fopen (fn, mode)))
         {
-- 
2.43.0


From c2bfb1dd4570e33b6fee49934bda43654d1b4264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:41 +0000
Subject: [PATCH 30/35] fix: is_valid_name: refuse file that would be taken for
 a shell command in restricted mode

---
 src/parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 106a2f8..a59767a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -583,6 +583,13 @@ is_valid_name (const char *name, ed_buffer_t *ed)
   char *s;
   size_t len;
 
+  /* File whose name would be taken for a shell command. */
+  if (ed->exec->opt & RESTRICTED && *name == '!')
+    {
+      ed->exec->err = _("Shell access restricted");
+      return NULL;
+    }
+
   /* Push file name onto command buffer. Append newline if missing. */
   len = strlen (ed->input = (char *) name);
   if (name[len - 1] != '\n')
-- 
2.43.0


From fec8128675dd308406054947087bae684cb70cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 31/35] fix: move_lines: drop only the moved lines from the
 global queue

---
 src/cmds.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmds.c b/src/cmds.c
index c7f929a..be3777a 100644
--- a/src/cmds.c
+++ b/src/cmds.c
@@ -200,8 +200,10 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
   spl1 ();
   if (done)
     {
-      a2 = get_line_node (succ, ed);
-      b2 = get_line_node (prec, ed);
+      a1 = get_line_node (succ, ed);
+      b1 = get_line_node (prec, ed);
+      if (ed->exec->global)
+        delete_global_nodes (b1->q_forw, a1, ed);
       ed->state->dot = to;
     }
   else if (!append_undo_node (UMOV, prec, succ, ed)
@@ -228,14 +230,16 @@ move_lines (off_t from, off_t to, off_t after, ed_buffer_t *ed)
           /* this get_line_node last! */
           b1 = get_line_node (prec, ed);
         }
+
+      /* Global queue is still in the order of the lines. */
+      if (ed->exec->global)
+        delete_global_nodes (b1->q_forw, a1, ed);
       a2 = b2->q_forw;
       LINK_NODES (b2, b1->q_forw);
       LINK_NODES (a1->q_back, a2);
       LINK_NODES (b1, a1);
       ed->state->dot = after + (from > after ? to - from + 1 : 0);
     }
-  if (ed->exec->global)
-    delete_global_nodes (b2->q_forw, a2, ed);
   ed->state->is_modified = 1;
   spl0 ();
   return 0;
-- 
2.43.0


From 50a693400e1b2c43766f69a41dd55a359a5220ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 32/35] fix: write_stream: leave newline off only after the
 last line of the buffer

---
 src/io.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.c b/src/io.c
index 23dd300..e4beaaf 100644
--- a/src/io.c
+++ b/src/io.c
@@ -739,7 +739,8 @@ write_stream (FILE *fp, ed_line_node_t *lp, off_t n,
       if (!(s = get_buffer_line (lp, ed)))
         return ERR;
       len = lp->len;
-      append_newline = !(n == 1 && ed->state->is_binary
+      append_newline = !(lp->q_forw == ed->core->line_head
+                         && ed->state->is_binary
                          && ed->state->newline_appended);
       if (*size >= OFF_T_MAX - len - append_newline)
         {
-- 
2.43.0


From c071dd407e2d50920a805eee0320b17075916245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:10 +0000
Subject: [PATCH 33/35] fix: put_buffer_line: flush text of each line as it is
 stored

---
 src/buf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buf.c b/src/buf.c
index e41aa28..21161a4 100644
--- a/src/buf.c
+++ b/src/buf.c
@@ -417,7 +417,10 @@ put_buffer_line (const char *t, size_t len, ed_buffer_t *ed)
       ed->exec->err = _("Buffer full");
       return NULL;
     }
-  if (fwrite (t, sizeof (char), len, ed->core->fp) != len)
+
+  /* Flush, since text of lines already stored is lost if this fails later. */
+  if (fwrite (t, sizeof (char), len, ed->core->fp) != len
+      || fflush (ed->core->fp) == EOF)
     {
       ed->core->offset = -1;
       ed->core->seek_on_write = 1;
-- 
2.43.0


From 891f6c0876ad7b063fe15f98e3ed363772c0a9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:13 +0000
Subject: [PATCH 34/35] fix: utf8_char_size: a byte that is not UTF-8 counts as
 one character

After, e.g., s/./x/ in the C locale split a multibyte character, state->is_utf8
still holds, so that the (negative) status of utf8_char_size () was taken for a
size by substitute_matching () and fb_putwc () and the text buffers overrun.
---
 src/utf8.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utf8.c b/src/utf8.c
index 409ab8d..dd4f47b 100644
--- a/src/utf8.c
+++ b/src/utf8.c
@@ -223,7 +223,9 @@ utf8_char_size (const char *s, size_t len)
   unsigned char *t = (unsigned char *) s;
   int status;
 
-  return (status = decode_utf8_char (&t, len)) >= EOF ? (char *) t - s : status;
+  /* A byte that is not UTF-8, e.g., of a character split in the C locale by
+     substitution, counts as a character. */
+  return (status = decode_utf8_char (&t, len)) >= EOF ? (char *) t - s : 1;
 }
 
 int
-- 
2.43.0


From 09017665cdd97808d1a046ee9430e61819275518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:29 +0000
Subject: [PATCH 35/35] fix: getenv_init_argv: store nothing if the value has
 no words

With ED set to blanks only, the terminating NULL was stored through a null
pointer.
---
 src/main.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 6ca0d54..7414cbc 100644
--- a/src/main.c
+++ b/src/main.c
@@ -684,8 +684,13 @@ getenv_init_argv (const char *s, int *argc, ed_buffer_t *ed)
                          (*argc + 2) * sizeof (char *), NULL, ed);
           *((char **) argv + ++*argc) = v;
         }
-      *((char **) argv + ++*argc) = NULL;
-      *((char **) argv) = (char *) s;
+
+      /* Nothing is allocated if the value is but separators. */
+      if (*argc)
+        {
+          *((char **) argv + ++*argc) = NULL;
+          *((char **) argv) = (char *) s;
+        }
     }
   return (char **) (*argc ? argv : 0);
 }
-- 
2.43.0

