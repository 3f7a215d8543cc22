From 0e7c2a573ef6a3bd766d47eb62b0a93df4e0ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:50 +0000
Subject: [PATCH 01/41] fix: count past a vertical tab instead of ending the
 parse there

space includes \v, so the fallback token ^space does not match it, and
spaces did not either: every parser stopped at the first vertical tab.
---
 src/parsers/common.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index 23a8398..af07b58 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -5,7 +5,7 @@ machine common;
 
 # whitespace, non-printables
 ws = [\t ];
-spaces = [\t ]+;
+spaces = [\t\v ]+;
 newline = ('\r\n' | '\n' | '\f' | '\r' when { p+1 < pe && *(p+1) != '\n' });
 escaped_newline = '\\' newline;
 nonnewline = any - [\r\n\f];
-- 
2.43.0


From eef018b359c44da3086fc1f619acb6953bcec86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:50 +0000
Subject: [PATCH 02/41] fix: limbo reported entities with the C parser's index

C_ANY lies outside limbo_entities.
---
 src/parsers/limbo.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 8cd8650..227cb9c 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -109,7 +109,7 @@ enum {
     limbo_keyword_entity ${ entity = LIMBO_KEYWORD; } => limbo_ecallback;
     limbo_identifier_entity ${ entity = LIMBO_IDENTIFIER; } => limbo_ecallback;
     limbo_operator_entity ${ entity = LIMBO_OPERATOR; } => limbo_ecallback;
-    ^(space | digit)     ${ entity = C_ANY;         } => limbo_ecallback;
+    ^(space | digit)     ${ entity = LIMBO_ANY;     } => limbo_ecallback;
   *|;
 }%%
 
-- 
2.43.0


From 2baf8a7ac347f21d1e18ffe4a0cbce711fa09f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:11 +0000
Subject: [PATCH 03/41] fix: do not report lines twice when a multi-line token
 does not end

When a comment or string that spans lines fails to match (no closing
delimiter), the scanner goes back to its start although its lines have
been reported. The macros skip lines before line_start, but then moved
line_start back (or cleared it), so from the second line on everything
was counted again.
---
 src/parser_macros.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 4ff2988..8a314d1 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -187,7 +187,7 @@ void free_queue() {
   } \
   whole_line_comment = 0; \
   line_contains_code = 0; \
-  line_start = p; \
+  if (p > line_start) line_start = p; \
 }
 
 /**
@@ -224,7 +224,7 @@ void free_queue() {
   } \
   whole_line_comment = 0; \
   line_contains_code = 0; \
-  line_start = 0; \
+  if (te >= line_start) line_start = 0; \
 }
 
 /**
-- 
2.43.0


From 3750c3e40126787894e0cbc588050c14790510eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:08 +0000
Subject: [PATCH 04/41] fix: a line holding only the closing delimiter was
 counted as blank

In strings and comments that may span lines, the closing delimiter did
not mark its line as code or comment.
---
 src/parsers/autoconf.rl        | 2 +-
 src/parsers/bfpp.rl            | 2 +-
 src/parsers/c.rl               | 4 ++--
 src/parsers/chaiscript.rl      | 4 ++--
 src/parsers/clearsilverhtml.rl | 4 ++--
 src/parsers/coq.rl             | 2 +-
 src/parsers/cs_aspx.rl         | 4 ++--
 src/parsers/css.rl             | 4 ++--
 src/parsers/d.rl               | 6 +++---
 src/parsers/elm.rl             | 2 +-
 src/parsers/factor.rl          | 2 +-
 src/parsers/forth.rl           | 2 +-
 src/parsers/fortranfree.rl     | 4 ++--
 src/parsers/fsharp.rl          | 4 ++--
 src/parsers/glsl.rl            | 4 ++--
 src/parsers/golang.rl          | 4 ++--
 src/parsers/grace.rl           | 2 +-
 src/parsers/groovy.rl          | 4 ++--
 src/parsers/haskell.rl         | 2 +-
 src/parsers/jam.rl             | 4 ++--
 src/parsers/javascript.rl      | 4 ++--
 src/parsers/jsp.rl             | 4 ++--
 src/parsers/lisp.rl            | 2 +-
 src/parsers/lua.rl             | 4 ++--
 src/parsers/modula3.rl         | 4 ++--
 src/parsers/mxml.rl            | 4 ++--
 src/parsers/pascal.rl          | 4 ++--
 src/parsers/phphtml.rl         | 4 ++--
 src/parsers/powershell.rl      | 4 ++--
 src/parsers/puppet.rl          | 2 +-
 src/parsers/rhtml.rl           | 4 ++--
 src/parsers/rust.rl            | 2 +-
 src/parsers/shell.rl           | 4 ++--
 src/parsers/smalltalk.rl       | 2 +-
 src/parsers/sql.rl             | 2 +-
 src/parsers/stratego.rl        | 2 +-
 src/parsers/tcl.rl             | 2 +-
 src/parsers/unrealscript.rl    | 4 ++--
 src/parsers/vb_aspx.rl         | 4 ++--
 39 files changed, 64 insertions(+), 64 deletions(-)

diff --git a/src/parsers/autoconf.rl b/src/parsers/autoconf.rl
index 98721d1..065807a 100644
--- a/src/parsers/autoconf.rl
+++ b/src/parsers/autoconf.rl
@@ -61,7 +61,7 @@ enum {
       ']' @ac_str_nc_dec @code
       |
       (nonnewline - ws - [\[\]]) @code
-    )* :>> (']' when { nest_count == 0 });
+    )* :>> (']' when { nest_count == 0 }) @code;
 
   ac_line := |*
     spaces      ${ entity = AC_SPACE; } => ac_ccallback;
diff --git a/src/parsers/bfpp.rl b/src/parsers/bfpp.rl
index fcb029e..af71c35 100644
--- a/src/parsers/bfpp.rl
+++ b/src/parsers/bfpp.rl
@@ -58,7 +58,7 @@ enum {
       ws
       |
       (nonnewline - ws) @code
-    )* :>> ')';
+    )* :>> ')' @comment;
 
   bfpp_line := |*
     spaces             ${ entity = BFPP_SPACE;    } => bfpp_ccallback;
diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index 0ba4008..d0da598 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   c_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   c_string = c_sq_str | c_dq_str;
 
   c_line := |*
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 5491e36..b83cc4a 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -69,7 +69,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   chai_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
@@ -79,7 +79,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 2ff8dee..4135c70 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -80,7 +80,7 @@ enum {
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
-  )* '\'' @{ fgoto cshtml_line; };
+  )* '\'' @code @{ fgoto cshtml_line; };
   cshtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
     '<' !'?cs'
-  )* '"' @{ fgoto cshtml_line; };
+  )* '"' @code @{ fgoto cshtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
 
diff --git a/src/parsers/coq.rl b/src/parsers/coq.rl
index eaa3330..f1e141e 100644
--- a/src/parsers/coq.rl
+++ b/src/parsers/coq.rl
@@ -68,7 +68,7 @@ enum {
       ws
       |
       [^"] @code
-    )* '"';
+    )* '"' @code;
 
   coq_line := |*
     spaces          ${ entity = COQ_SPACE; } => coq_ccallback;
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index 911b730..b7f0f66 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -78,7 +78,7 @@ enum {
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto cs_aspx_line; };
+  )* '\'' @code @{ fgoto cs_aspx_line; };
   cs_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
     |
@@ -91,7 +91,7 @@ enum {
     '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto cs_aspx_line; };
+  )* '"' @code @{ fgoto cs_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
 
diff --git a/src/parsers/css.rl b/src/parsers/css.rl
index 12cd5e8..14736d9 100644
--- a/src/parsers/css.rl
+++ b/src/parsers/css.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   css_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %css_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   css_string = css_sq_str | css_dq_str;
 
   css_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 9ca52b8..1dac49d 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -87,7 +87,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   d_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -97,7 +97,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   d_bt_str =
     '`' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
@@ -107,7 +107,7 @@ enum {
       [^\t `\\] @code
       |
       '\\' nonnewline @code
-    )* '`';
+    )* '`' @code;
   d_string = d_sq_str | d_dq_str | d_bt_str;
 
   d_line := |*
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index 1d71ab2..bbc0ac5 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   elm_string = elm_char | elm_dq_str;
 
   elm_line := |*
diff --git a/src/parsers/factor.rl b/src/parsers/factor.rl
index c16aee9..06a11da 100644
--- a/src/parsers/factor.rl
+++ b/src/parsers/factor.rl
@@ -56,7 +56,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   factor_line := |*
     spaces        ${ entity = FACTOR_SPACE; } => factor_ccallback;
diff --git a/src/parsers/forth.rl b/src/parsers/forth.rl
index c7c53c0..ebfa526 100644
--- a/src/parsers/forth.rl
+++ b/src/parsers/forth.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> ')';
+    )* :>> ')' @comment;
   forth_comment = forth_line_comment | forth_block_comment;
 
   forth_string = '"' @code ([^\r\n\f"])* '"';
diff --git a/src/parsers/fortranfree.rl b/src/parsers/fortranfree.rl
index 0f1def1..f805a31 100644
--- a/src/parsers/fortranfree.rl
+++ b/src/parsers/fortranfree.rl
@@ -53,7 +53,7 @@ enum {
       ws
       |
       [^\r\n\f\t '] @code
-    )* '\'';
+    )* '\'' @code;
   ffree_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %ffree_ccallback
@@ -61,7 +61,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @code
-    )* '"';
+    )* '"' @code;
   ffree_string = ffree_sq_str | ffree_dq_str;
 
   ffree_line := |*
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index 64c85b1..cb6e492 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -74,7 +74,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
@@ -84,7 +84,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   fsharp_string = fsharp_sq_str | fsharp_dq_str;
 
   fsharp_line := |*
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 167364c..64e0cda 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -75,7 +75,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   glsl_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
@@ -85,7 +85,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   glsl_string = glsl_sq_str | glsl_dq_str;
 
   glsl_line := |*
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index f845ca0..fa9a227 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -73,7 +73,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   golang_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
@@ -83,7 +83,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   golang_string = golang_sq_str | golang_dq_str;
 
   golang_line := |*
diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index daf60dd..1d85813 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -54,7 +54,7 @@ enum {
       ws
       |
       [^\r\n\f\t "\\] @code
-    )* '"' @commit;
+    )* '"' @commit @code;
 
   grace_line := |*
     spaces         ${ entity = GRACE_SPACE; } => grace_ccallback;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index e1a6da4..caf6730 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -71,7 +71,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   groovy_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
@@ -81,7 +81,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   groovy_string = groovy_sq_str | groovy_dq_str;
 
   groovy_line := |*
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 1bb062d..9f4b445 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   haskell_string = haskell_char | haskell_dq_str;
 
   haskell_line := |*
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 3b4ccc7..0806347 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -55,7 +55,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   jam_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %jam_ccallback
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredocs; see ruby.rl for details
   jam_string = jam_sq_str | jam_dq_str;
 
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 172989e..723fbcf 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -68,7 +68,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   js_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
@@ -78,7 +78,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index f197d40..fec9774 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -80,7 +80,7 @@ enum {
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto jsp_line; };
+  )* '\'' @code @{ fgoto jsp_line; };
   jsp_dq_str := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto jsp_line; };
+  )* '"' @code @{ fgoto jsp_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
 
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 0698964..08bf62e 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -71,7 +71,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   lisp_string = lisp_empty_string | lisp_char_string | lisp_regular_string;
 
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 4092ecf..067413f 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -78,7 +78,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   lua_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   lua_string = lua_sq_str | lua_dq_str | lua_long_string;
 
   lua_line := |*
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 2166f0f..198b62c 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -78,7 +78,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
@@ -88,7 +88,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   modula3_string = modula3_singlequoted_string | modula3_doublequoted_string;
 
 
diff --git a/src/parsers/mxml.rl b/src/parsers/mxml.rl
index 7afe23b..f3604c0 100644
--- a/src/parsers/mxml.rl
+++ b/src/parsers/mxml.rl
@@ -72,7 +72,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   mxml_dq_str =
     '"' @code (
       newline %{ entity = INTERNAL_NL; } %mxml_ccallback
@@ -82,7 +82,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   mxml_string = mxml_sq_str | mxml_dq_str;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %mxml_ccallback);
diff --git a/src/parsers/pascal.rl b/src/parsers/pascal.rl
index 4dfdf17..4578123 100644
--- a/src/parsers/pascal.rl
+++ b/src/parsers/pascal.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   pascal_comment = pascal_line_comment | pascal_old_block_comment |
                    pascal_turbo_block_comment;
 
@@ -73,7 +73,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   pascal_line := |*
     spaces          ${ entity = PASCAL_SPACE; } => pascal_ccallback;
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 9dfe21e..a306568 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -80,7 +80,7 @@ enum {
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
-  )* '\'' @{ fgoto phtml_line; };
+  )* '\'' @code @{ fgoto phtml_line; };
   phtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
     '<' !'?php'
-  )* '"' @{ fgoto phtml_line; };
+  )* '"' @code @{ fgoto phtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
 
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 6b3947a..c309222 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -64,7 +64,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   powershell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback
@@ -76,7 +76,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredoc; see ruby.rl for details.
   powershell_string = powershell_sq_str | powershell_dq_str;
 
diff --git a/src/parsers/puppet.rl b/src/parsers/puppet.rl
index d862f7f..0abb695 100644
--- a/src/parsers/puppet.rl
+++ b/src/parsers/puppet.rl
@@ -65,7 +65,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
 
   puppet_line := |*
     spaces          ${ entity = PUPPET_SPACE; } => puppet_ccallback;
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 16b4b50..7ee2fcb 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -80,7 +80,7 @@ enum {
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto rhtml_line; };
+  )* '\'' @code @{ fgoto rhtml_line; };
   rhtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
     |
@@ -93,7 +93,7 @@ enum {
     '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto rhtml_line; };
+  )* '"' @code @{ fgoto rhtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
 
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index e3b17c3..0dedd14 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   rust_string = rust_dq_str;
 
   rust_line := |*
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 567afa1..ecfaf97 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -57,7 +57,7 @@ enum {
       [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'' @commit;
+    )* '\'' @commit @code;
   shell_dq_str =
     '"' @enqueue @code (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback
@@ -69,7 +69,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"' @commit;
+    )* '"' @commit @code;
   # TODO: heredocs; see ruby.rl for details
   shell_string = shell_sq_str | shell_dq_str;
 
diff --git a/src/parsers/smalltalk.rl b/src/parsers/smalltalk.rl
index bffb167..fd59f35 100644
--- a/src/parsers/smalltalk.rl
+++ b/src/parsers/smalltalk.rl
@@ -51,7 +51,7 @@ enum {
       ws
       |
       [^\r\n\f\t "] @comment
-    )* '"';
+    )* '"' @comment;
 
   smalltalk_string = '\'' @code [^\r\n\f']* '\'';
 
diff --git a/src/parsers/sql.rl b/src/parsers/sql.rl
index 8f20433..09eb40d 100644
--- a/src/parsers/sql.rl
+++ b/src/parsers/sql.rl
@@ -60,7 +60,7 @@ enum {
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> '}';
+    )* :>> '}' @comment;
   sql_comment = sql_line_comment | sql_c_block_comment | sql_block_comment;
 
   sql_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 56d76c6..976480d 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -71,7 +71,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   stratego_char_str =
     '\'' (
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index cef3df1..79fb391 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -62,7 +62,7 @@ enum {
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
 
   tcl_line := |*
     spaces       ${ entity = TCL_SPACE; } => tcl_ccallback;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 7e6d8e4..13d2aee 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -64,7 +64,7 @@ enum {
       [^\t '\\] @code
       |
       '\\' nonnewline @code
-    )* '\'';
+    )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
       escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
@@ -74,7 +74,7 @@ enum {
       [^\t "\\] @code
       |
       '\\' nonnewline @code
-    )* '"';
+    )* '"' @code;
   unrealscript_string = unrealscript_sq_str | unrealscript_dq_str;
 
   unrealscript_line := |*
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index 37dd9a0..d6b987d 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -78,7 +78,7 @@ enum {
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
-  )* '\'' @{ fgoto vb_aspx_line; };
+  )* '\'' @code @{ fgoto vb_aspx_line; };
   vb_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
     |
@@ -91,7 +91,7 @@ enum {
     '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
     '<' !'%'
-  )* '"' @{ fgoto vb_aspx_line; };
+  )* '"' @code @{ fgoto vb_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
 
-- 
2.43.0


From 6d510f7a13604a2700255c34d3edf2bb583d5136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:36 +0000
Subject: [PATCH 05/41] fix: lines swallowed by strings that take a newline as
 an ordinary character

[^\t '\\] and friends match a newline, and no line was reported for it:
several lines were counted as one. Strings now end there, or count the
newline where the language allows it (d, fsharp, rust).
---
 src/parsers/c.rl            |  4 ++--
 src/parsers/chaiscript.rl   |  6 +++---
 src/parsers/d.rl            | 10 +++++-----
 src/parsers/elm.rl          |  2 +-
 src/parsers/fsharp.rl       |  6 +++---
 src/parsers/glsl.rl         |  4 ++--
 src/parsers/golang.rl       |  4 ++--
 src/parsers/groovy.rl       |  4 ++--
 src/parsers/haskell.rl      |  2 +-
 src/parsers/javascript.rl   |  6 +++---
 src/parsers/lisp.rl         |  4 ++--
 src/parsers/mathematica.rl  |  2 +-
 src/parsers/modula3.rl      |  4 ++--
 src/parsers/rebol.rl        |  2 +-
 src/parsers/rust.rl         |  4 ++--
 src/parsers/stratego.rl     |  4 ++--
 src/parsers/unrealscript.rl |  4 ++--
 src/parsers/vim.rl          |  4 ++--
 18 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index d0da598..cfc8ab3 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -70,7 +70,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -80,7 +80,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index b83cc4a..1eaa6cf 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -66,7 +66,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -76,11 +76,11 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
-  chai_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  chai_regex_str = '/' [^\r\n\f/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   chai_string = chai_sq_str | chai_dq_str | chai_regex_str;
 
   chai_line := |*
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 1dac49d..6e82d96 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -84,27 +84,27 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
   d_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
   d_bt_str =
     '`' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
-      [^\t `\\] @code
+      [^\r\n\f\t `\\] @code
       |
       '\\' nonnewline @code
     )* '`' @code;
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index bbc0ac5..ddf711d 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index cb6e492..d9e5d85 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -71,17 +71,17 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 64e0cda..3a5f853 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -72,7 +72,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -82,7 +82,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index fa9a227..144c4ab 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -70,7 +70,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -80,7 +80,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index caf6730..6650e06 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -68,7 +68,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -78,7 +78,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 9f4b445..5b4e469 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 723fbcf..52f6990 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -65,7 +65,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -75,11 +75,11 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
-  js_regex_str = '/' [^/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
+  js_regex_str = '/' [^\r\n\f/*] ([^\r\n\f/\\] | '\\' nonnewline)* '/' @code;
   js_string = js_sq_str | js_dq_str | js_regex_str;
 
   js_line := |*
diff --git a/src/parsers/lisp.rl b/src/parsers/lisp.rl
index 08bf62e..b2f7e9b 100644
--- a/src/parsers/lisp.rl
+++ b/src/parsers/lisp.rl
@@ -60,10 +60,10 @@ enum {
     '"'{2} [^"] @{fhold;} @code;
 
   lisp_char_string =
-    '"' [^"] '"' @code;
+    '"' [^\r\n\f"] '"' @code;
 
   lisp_regular_string =
-    '"' ([^"]{2}) @code (
+    '"' ([^\r\n\f"]{2}) @code (
       newline %{ entity = INTERNAL_NL; } %lisp_ccallback
       |
       ws
diff --git a/src/parsers/mathematica.rl b/src/parsers/mathematica.rl
index 72b5957..0fee918 100644
--- a/src/parsers/mathematica.rl
+++ b/src/parsers/mathematica.rl
@@ -63,7 +63,7 @@ enum {
 
   mathematica_comment = mathematica_nested_block_comment;
 
-  mathematica_string = '"' @code ([^"]) '"';
+  mathematica_string = '"' @code ([^\r\n\f"]) '"';
 
   mathematica_line := |*
     spaces               ${ entity = MATHEMATICA_SPACE; } => mathematica_ccallback;
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 198b62c..5633f91 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -75,7 +75,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -85,7 +85,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/rebol.rl b/src/parsers/rebol.rl
index eb7fc59..e4dcfaa 100644
--- a/src/parsers/rebol.rl
+++ b/src/parsers/rebol.rl
@@ -54,7 +54,7 @@ enum {
   rebol_line_comment = ';' @comment nonnewline*;
   rebol_comment = rebol_line_comment;
 
-  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* [\r\n\f"];
+  rebol_dq_str = '"' @code ([^\r\n\f"] | '^"')* '"';
   rebol_cb_str_inner = [^{}] | '^{' | '^}'
                      | newline %{ entity = INTERNAL_NL; } %rebol_ccallback
                      | rebol_cb_str_nest;
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index 0dedd14..7ac55f8 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -67,11 +67,11 @@ enum {
 
   rust_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %rust_ccallback
+      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %rust_ccallback
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 976480d..5d4107c 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -68,7 +68,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
@@ -77,7 +77,7 @@ enum {
     '\'' (
       ('\\' [.] '\'') @code
       |
-      ([^'\\] '\'') @code
+      ([^\r\n\f'\\] '\'') @code
     );
 
   stratego_string = stratego_dq_str | stratego_char_str;
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 13d2aee..4e753ff 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -61,7 +61,7 @@ enum {
       |
       ws
       |
-      [^\t '\\] @code
+      [^\r\n\f\t '\\] @code
       |
       '\\' nonnewline @code
     )* '\'' @code;
@@ -71,7 +71,7 @@ enum {
       |
       ws
       |
-      [^\t "\\] @code
+      [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
     )* '"' @code;
diff --git a/src/parsers/vim.rl b/src/parsers/vim.rl
index 3d278f2..9dff60f 100644
--- a/src/parsers/vim.rl
+++ b/src/parsers/vim.rl
@@ -46,8 +46,8 @@ enum {
 
   vim_comment = '"' when no_code  @comment nonnewline*;
 
-  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' any)* '\'';
-  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' any)* '"';
+  vim_sq_str = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline)* '\'';
+  vim_dq_str = '"' when !no_code @code ([^\r\n\f"\\] | '\\' nonnewline)* '"';
   vim_string = vim_sq_str | vim_dq_str;
 
   vim_line := |*
-- 
2.43.0


From 0e5d142f8c0f6f52672633d6c8d9a90523ff2269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:02 +0000
Subject: [PATCH 06/41] fix: lines lost or merged after a string that is not
 closed

A string that turns out not to end is scanned again as ordinary code, but the
queued lines were dropped only if the last entity was not a newline, and the
queue was opened before the opening quote's own line was marked.
---
 src/parsers/cmake.rl        |  4 ++--
 src/parsers/coffeescript.rl |  8 ++++----
 src/parsers/common.rl       |  1 +
 src/parsers/crystal.rl      | 20 ++++++++++----------
 src/parsers/grace.rl        |  4 ++--
 src/parsers/jam.rl          |  8 ++++----
 src/parsers/limbo.rl        |  2 +-
 src/parsers/lua.rl          | 12 ++++++------
 src/parsers/perl.rl         | 14 +++++++-------
 src/parsers/php.rl          |  8 ++++----
 src/parsers/powershell.rl   | 12 ++++++------
 src/parsers/ruby.rl         | 24 ++++++++++++------------
 src/parsers/shell.rl        | 12 ++++++------
 13 files changed, 65 insertions(+), 64 deletions(-)

diff --git a/src/parsers/cmake.rl b/src/parsers/cmake.rl
index 00ea34f..f67e6db 100644
--- a/src/parsers/cmake.rl
+++ b/src/parsers/cmake.rl
@@ -56,8 +56,8 @@ enum {
   cmake_comment = '#' @comment nonnewline*;
 
   cmake_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %cmake_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %cmake_ccallback %{ entity = CMAKE_ANY; }
       |
       ws
       |
diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index b08a653..10285f6 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -57,8 +57,8 @@ enum {
   coffeescript_comment = coffeescript_line_comment | coffeescript_block_comment;
 
   coffeescript_sq_str =
-    '\'' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
+    '\'' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback %{ entity = COFFEESCRIPT_ANY; }
       |
       ws
       |
@@ -67,8 +67,8 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit @code;
   coffeescript_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %coffeescript_ccallback %{ entity = COFFEESCRIPT_ANY; }
       |
       ws
       |
diff --git a/src/parsers/common.rl b/src/parsers/common.rl
index af07b58..69de645 100644
--- a/src/parsers/common.rl
+++ b/src/parsers/common.rl
@@ -28,6 +28,7 @@ dq_str_with_escapes = '"' ([^"\\] | '\\' any)* '"';
 # common actions
 
 action enqueue {
+  if (inqueue) { dequeue; } // the previous entity failed
   inqueue = 1;
   if (callback_list_head) free_queue(); // free the current queue
   callback_list_head = NULL;
diff --git a/src/parsers/crystal.rl b/src/parsers/crystal.rl
index 31b582f..645794f 100644
--- a/src/parsers/crystal.rl
+++ b/src/parsers/crystal.rl
@@ -48,8 +48,8 @@ enum {
   # TODO: detect =begin and =end at start of their lines
   # Can't do that now because using 'when starts_line' fails a Ragel assertion.
   crystal_block_comment =
-    '=begin' @enqueue @comment (
-      newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+    '=begin' @comment @enqueue (
+      newline %{ entity = INTERNAL_NL; } %crystal_ccallback %{ entity = CRYSTAL_ANY; }
       |
       ws
       |
@@ -58,8 +58,8 @@ enum {
   crystal_comment = crystal_line_comment | crystal_block_comment;
 
   crystal_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %crystal_ccallback %{ entity = CRYSTAL_ANY; }
       |
       ws
       |
@@ -77,8 +77,8 @@ enum {
   # let Ragel know what it is (currently unsupported), and put its respective
   # closing char in the literal string below.
   crystal_lit_str =
-    '%' [qQ]? [(\[{] @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+    '%' [qQ]? [(\[{] @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %crystal_ccallback %{ entity = CRYSTAL_ANY; }
       |
       ws
       |
@@ -87,8 +87,8 @@ enum {
       '\\' nonnewline @code
     )* [)\]}] @commit @code;
   crystal_cmd_str =
-    '`' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+    '`' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %crystal_ccallback %{ entity = CRYSTAL_ANY; }
       |
       ws
       |
@@ -100,8 +100,8 @@ enum {
   # TODO: true literal array and command detection
   # See TODO above about literal string detection
   crystal_lit_other =
-    '%' [wrx] [(\[{] @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %crystal_ccallback
+    '%' [wrx] [(\[{] @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %crystal_ccallback %{ entity = CRYSTAL_ANY; }
       |
       ws
       |
diff --git a/src/parsers/grace.rl b/src/parsers/grace.rl
index 1d85813..356da66 100644
--- a/src/parsers/grace.rl
+++ b/src/parsers/grace.rl
@@ -48,8 +48,8 @@ enum {
   grace_comment = '//' @comment nonnewline*;
 
   grace_string =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %grace_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %grace_ccallback %{ entity = GRACE_ANY; }
       |
       ws
       |
diff --git a/src/parsers/jam.rl b/src/parsers/jam.rl
index 0806347..a50b040 100644
--- a/src/parsers/jam.rl
+++ b/src/parsers/jam.rl
@@ -47,8 +47,8 @@ enum {
   jam_comment = '#' @comment nonnewline*;
 
   jam_sq_str =
-    '\'' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %jam_ccallback
+    '\'' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %jam_ccallback %{ entity = JAM_ANY; }
       |
       ws
       |
@@ -57,8 +57,8 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit @code;
   jam_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %jam_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %jam_ccallback %{ entity = JAM_ANY; }
       |
       ws
       |
diff --git a/src/parsers/limbo.rl b/src/parsers/limbo.rl
index 227cb9c..b0c802f 100644
--- a/src/parsers/limbo.rl
+++ b/src/parsers/limbo.rl
@@ -56,7 +56,7 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit;
   limbo_dq_str =
-    '"' @enqueue @code (
+    '"' @code @enqueue (
       [^\r\n\f\t "\\] @code
       |
       '\\' nonnewline @code
diff --git a/src/parsers/lua.rl b/src/parsers/lua.rl
index 067413f..23a7a2e 100644
--- a/src/parsers/lua.rl
+++ b/src/parsers/lua.rl
@@ -51,24 +51,24 @@ enum {
   action lua_long_ec_dec { equal_count--; }
 
   lua_long_comment =
-    '--' ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @enqueue @comment (
-      newline %{ entity = INTERNAL_NL; } %lua_ccallback
+    '--' ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @comment @enqueue (
+      newline %{ entity = INTERNAL_NL; } %lua_ccallback %{ entity = LUA_ANY; }
       |
       ws
       |
       (nonnewline - ws) @comment
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit @comment;
   lua_line_comment = '--' @comment nonnewline*;
   lua_comment = lua_long_comment | lua_line_comment;
 
   lua_long_string =
-    ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %lua_ccallback
+    ('[' >lua_long_ec_res '='* $lua_long_ec_inc '[') @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %lua_ccallback %{ entity = LUA_ANY; }
       |
       ws
       |
       (nonnewline - ws) @code
-    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit;
+    )* :>> (']' '='* $lua_long_ec_dec ']' when { equal_count == 0 }) @commit @code;
   lua_sq_str =
     '\'' @code (
       newline %{ entity = INTERNAL_NL; } %lua_ccallback
diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index b3bebc4..8f53dc7 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -46,7 +46,7 @@ enum {
 
   perl_line_comment = '#' @comment nonnewline*;
   perl_block_comment =
-    '=' when starts_line @enqueue @comment nonnewline+ (
+    '=' when starts_line @comment @enqueue nonnewline+ (
       '=' when starts_line 'cut' @commit @comment @{ fgoto perl_line; }
       |
       newline %{ entity = INTERNAL_NL; } %perl_ccallback
@@ -58,8 +58,8 @@ enum {
   perl_comment = perl_line_comment | perl_block_comment;
 
   perl_sq_str =
-    '\'' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %perl_ccallback
+    '\'' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %perl_ccallback %{ entity = PERL_ANY; }
       |
       ws
       |
@@ -68,8 +68,8 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit @code;
   perl_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %perl_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %perl_ccallback %{ entity = PERL_ANY; }
       |
       ws
       |
@@ -78,8 +78,8 @@ enum {
       '\\' nonnewline @code
     )* '"' @commit @code;
   perl_cmd_str =
-    '`' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %perl_ccallback
+    '`' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %perl_ccallback %{ entity = PERL_ANY; }
       |
       ws
       |
diff --git a/src/parsers/php.rl b/src/parsers/php.rl
index e949794..60ebc76 100644
--- a/src/parsers/php.rl
+++ b/src/parsers/php.rl
@@ -60,8 +60,8 @@ enum {
   php_comment = php_line_comment | php_block_comment;
 
   php_sq_str =
-    '\'' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %php_ccallback
+    '\'' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %php_ccallback %{ entity = PHP_ANY; }
       |
       ws
       |
@@ -70,8 +70,8 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit @code;
   php_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %php_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %php_ccallback %{ entity = PHP_ANY; }
       |
       ws
       |
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index c309222..1352235 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -54,10 +54,10 @@ enum {
   powershell_comment = powershell_line_comment | powershell_block_comment;
 
   powershell_sq_str =
-    '\'' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+    '\'' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
       ws
       |
@@ -66,10 +66,10 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit @code;
   powershell_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback
+      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
       ws
       |
diff --git a/src/parsers/ruby.rl b/src/parsers/ruby.rl
index 8426900..2a94497 100644
--- a/src/parsers/ruby.rl
+++ b/src/parsers/ruby.rl
@@ -48,8 +48,8 @@ enum {
   # TODO: detect =begin and =end at start of their lines
   # Can't do that now because using 'when starts_line' fails a Ragel assertion.
   ruby_block_comment =
-    '=begin' @enqueue @comment (
-      newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+    '=begin' @comment @enqueue (
+      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
       |
       ws
       |
@@ -58,8 +58,8 @@ enum {
   ruby_comment = ruby_line_comment | ruby_block_comment;
 
   ruby_sq_str =
-    '\'' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+    '\'' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
       |
       ws
       |
@@ -68,8 +68,8 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit @code;
   ruby_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
       |
       ws
       |
@@ -87,8 +87,8 @@ enum {
   # let Ragel know what it is (currently unsupported), and put its respective
   # closing char in the literal string below.
   ruby_lit_str =
-    '%' [qQ]? [(\[{] @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+    '%' [qQ]? [(\[{] @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
       |
       ws
       |
@@ -97,8 +97,8 @@ enum {
       '\\' nonnewline @code
     )* [)\]}] @commit @code;
   ruby_cmd_str =
-    '`' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+    '`' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
       |
       ws
       |
@@ -110,8 +110,8 @@ enum {
   # TODO: true literal array and command detection
   # See TODO above about literal string detection
   ruby_lit_other =
-    '%' [wrx] [(\[{] @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %ruby_ccallback
+    '%' [wrx] [(\[{] @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %ruby_ccallback %{ entity = RUBY_ANY; }
       |
       ws
       |
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index ecfaf97..0595a21 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -47,10 +47,10 @@ enum {
   shell_comment = '#' @comment nonnewline*;
 
   shell_sq_str =
-    '\'' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %shell_ccallback
+    '\'' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
       ws
       |
@@ -59,10 +59,10 @@ enum {
       '\\' nonnewline @code
     )* '\'' @commit @code;
   shell_dq_str =
-    '"' @enqueue @code (
-      newline %{ entity = INTERNAL_NL; } %shell_ccallback
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback
+      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
       ws
       |
-- 
2.43.0


From 89af407d5a3fc629c8cc5b0e97617bd3727bdf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:39 +0000
Subject: [PATCH 07/41] fix: lines of html-like pages lost, doubled or given a
 wrong range around embedded code

Tags that span lines, <% %> inside strings and comments, strings with an
escaped newline and a closing tag split over lines reported the wrong
number of lines or a range that does not belong to a line.
---
 src/parser_macros.h            | 12 ++++----
 src/parsers/clearsilverhtml.rl | 44 ++++++++++++++++++----------
 src/parsers/cs_aspx.rl         | 50 ++++++++++++++++++++------------
 src/parsers/html.rl            | 25 +++++++++++-----
 src/parsers/jsp.rl             | 44 ++++++++++++++++++----------
 src/parsers/phphtml.rl         | 53 ++++++++++++++++++++++------------
 src/parsers/rhtml.rl           | 44 ++++++++++++++++++----------
 src/parsers/vb_aspx.rl         | 50 ++++++++++++++++++++------------
 8 files changed, 210 insertions(+), 112 deletions(-)

diff --git a/src/parser_macros.h b/src/parser_macros.h
index 8a314d1..ceb3cfd 100644
--- a/src/parser_macros.h
+++ b/src/parser_macros.h
@@ -263,17 +263,19 @@ void free_queue() {
  * Determines whether or not the rest of the line is blank.
  * This is typically used when entering an embedded language.
  * @param p The position of entry into the emebedded language.
+ * @param end The end of the buffer.
  * @return 0 if the rest of the line is not blank, the position at the end of
  *   the newline otherwise (inclusive).
  * @note Applies only to line counting parsers.
  */
-int is_blank_entry(char **p) {
+int is_blank_entry(char **p, char *end) {
   char *pos = *p+1;
-  while (*pos != '\n' && *pos != '\r' && *pos != '\f') {
-    if (*pos != '\t' && *pos != ' ') return 0;
+  while (pos < end && *pos != '\n' && *pos != '\r' && *pos != '\f') {
+    if (*pos != '\t' && *pos != '\v' && *pos != ' ') return 0;
     pos++;
   }
-  if (*pos == '\r' && *(pos+1) == '\n') pos++;
+  if (pos == end) pos--; // no newline at EOF
+  else if (*pos == '\r' && *(pos+1) == '\n') pos++;
   *p = pos;
   return 1;
 }
@@ -289,7 +291,7 @@ int is_blank_entry(char **p) {
  * @note Applies only to line counting parsers.
  */
 #define check_blank_entry(lang) { \
-  if (is_blank_entry(&p)) { \
+  if (is_blank_entry(&p, pe)) { \
     te = p + 1; \
     std_newline(lang) \
   } \
diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index 4135c70..cfd150a 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -61,11 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws - '<') @comment
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @comment @{ entity = CHECK_BLANK_ENTRY; }
+      @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto cshtml_line; };
 
   cshtml_sq_str := (
@@ -75,11 +76,12 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %cshtml_ccallback )
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @code
   )* '\'' @code @{ fgoto cshtml_line; };
   cshtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
@@ -88,17 +90,29 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %cshtml_ccallback )
     |
-    '<' '?cs' @{ saw(CS_LANG); fcall cshtml_cs_line; }
+    '<' '?cs' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cshtml_ccallback @{ saw(CS_LANG); fcall cshtml_cs_line; }
     |
-    '<' !'?cs'
+    '<' @code
   )* '"' @code @{ fgoto cshtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cshtml_ccallback);
+  cshtml_close = ws* (
+    newline >check_blank_outry >code %{ entity = INTERNAL_NL; } %cshtml_ccallback
+    ws_or_inl*
+  )?;
 
-  cshtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cshtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_tag =
+    ws
+    |
+    newline %{ entity = INTERNAL_NL; } %cshtml_ccallback
+    |
+    (nonnewline - ws - '>') @code;
+
+  cshtml_css_entry = '<' /style/i @code cshtml_tag+ :>> 'text/css' cshtml_tag+ '>' @code;
+  cshtml_css_outry = '</' /style/i cshtml_close '>' @check_blank_outry @code;
   cshtml_css_line := |*
     cshtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -109,8 +123,8 @@ enum {
     ^space       ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  cshtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cshtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cshtml_js_entry = '<' /script/i @code cshtml_tag+ :>> 'text/javascript' cshtml_tag+ '>' @code;
+  cshtml_js_outry = '</' /script/i cshtml_close '>' @check_blank_outry @code;
   cshtml_js_line := |*
     cshtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -157,7 +171,7 @@ enum {
   }
 
   cshtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cshtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cshtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cshtml_css_entity := |*
     cshtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -168,7 +182,7 @@ enum {
   *|;
 
   cshtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cshtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cshtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cshtml_js_entity := |*
     cshtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index b7f0f66..c6161dc 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -59,11 +59,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws - '<') @comment
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; }
+      @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto cs_aspx_line; };
 
   cs_aspx_sq_str := (
@@ -73,11 +74,12 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback )
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto cs_aspx_line; };
   cs_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
@@ -86,17 +88,29 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback )
     |
-    '<' '%' @{ saw(C_LANG); fcall cs_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @cs_aspx_ccallback @{ saw(C_LANG); fcall cs_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto cs_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %cs_aspx_ccallback);
+  cs_aspx_close = ws* (
+    newline >check_blank_outry >code %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
+    ws_or_inl*
+  )?;
 
-  cs_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  cs_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_tag =
+    ws
+    |
+    newline %{ entity = INTERNAL_NL; } %cs_aspx_ccallback
+    |
+    (nonnewline - ws - '>') @code;
+
+  cs_aspx_css_entry = '<' /style/i @code cs_aspx_tag+ :>> 'text/css' cs_aspx_tag+ '>' @code;
+  cs_aspx_css_outry = '</' /style/i cs_aspx_close '>' @check_blank_outry @code;
   cs_aspx_css_line := |*
     cs_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -107,8 +121,8 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  cs_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  cs_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  cs_aspx_js_entry = '<' /script/i @code cs_aspx_tag+ :>> 'text/javascript' cs_aspx_tag+ '>' @code;
+  cs_aspx_js_outry = '</' /script/i cs_aspx_close '>' @check_blank_outry @code;
   cs_aspx_js_line := |*
     cs_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -119,8 +133,8 @@ enum {
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
   *|;
 
-  cs_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_entry = ('<%' | '<' /script/i @code cs_aspx_tag+ :>> 'server' cs_aspx_tag+ '>') @code;
+  cs_aspx_cs_outry = ('%>' | '</' /script/i cs_aspx_close '>' @check_blank_outry) @code;
   cs_aspx_cs_line := |*
     cs_aspx_cs_outry @{ p = ts; fret; };
     # unmodified C patterns
@@ -155,7 +169,7 @@ enum {
   }
 
   cs_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  cs_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  cs_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   cs_aspx_css_entity := |*
     cs_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -166,7 +180,7 @@ enum {
   *|;
 
   cs_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  cs_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  cs_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   cs_aspx_js_entity := |*
     cs_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -177,7 +191,7 @@ enum {
   *|;
 
   cs_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  cs_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>' @check_blank_outry) @code;
   cs_aspx_cs_entity := |*
     cs_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index 13a155a..b7c972d 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -68,9 +68,20 @@ enum {
   html_string = html_sq_str | html_dq_str;
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %html_ccallback);
-
-  html_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  html_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  html_close = ws* (
+    newline >check_blank_outry >code %{ entity = INTERNAL_NL; } %html_ccallback
+    ws_or_inl*
+  )?;
+
+  html_tag =
+    ws
+    |
+    newline %{ entity = INTERNAL_NL; } %html_ccallback
+    |
+    (nonnewline - ws - '>') @code;
+
+  html_css_entry = '<' /style/i @code html_tag+ :>> 'text/css' html_tag+ '>' @code;
+  html_css_outry = '</' /style/i html_close '>' @check_blank_outry @code;
   html_css_line := |*
     html_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -81,8 +92,8 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  html_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  html_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  html_js_entry = '<' /script/i @code html_tag+ :>> 'text/javascript' html_tag+ '>' @code;
+  html_js_outry = '</' /script/i html_close '>' @check_blank_outry @code;
   html_js_line := |*
     html_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -113,7 +124,7 @@ enum {
   }
 
   html_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  html_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  html_css_outry_entity = '</' /style/i (ws | newline)* '>';
   html_css_entity := |*
     html_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -124,7 +135,7 @@ enum {
   *|;
 
   html_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  html_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  html_js_outry_entity = '</' /script/i (ws | newline)* '>';
   html_js_entity := |*
     html_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index fec9774..dd32fc9 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -61,11 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws - '<') @comment
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; }
+      @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto jsp_line; };
 
   jsp_sq_str := (
@@ -75,11 +76,12 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %jsp_ccallback )
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto jsp_line; };
   jsp_dq_str := (
     newline %{ entity = INTERNAL_NL; } %jsp_ccallback
@@ -88,17 +90,29 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %jsp_ccallback )
     |
-    '<' '%' @{ saw(JAVA_LANG); fcall jsp_java_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @jsp_ccallback @{ saw(JAVA_LANG); fcall jsp_java_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto jsp_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %jsp_ccallback);
+  jsp_close = ws* (
+    newline >check_blank_outry >code %{ entity = INTERNAL_NL; } %jsp_ccallback
+    ws_or_inl*
+  )?;
 
-  jsp_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  jsp_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_tag =
+    ws
+    |
+    newline %{ entity = INTERNAL_NL; } %jsp_ccallback
+    |
+    (nonnewline - ws - '>') @code;
+
+  jsp_css_entry = '<' /style/i @code jsp_tag+ :>> 'text/css' jsp_tag+ '>' @code;
+  jsp_css_outry = '</' /style/i jsp_close '>' @check_blank_outry @code;
   jsp_css_line := |*
     jsp_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -109,8 +123,8 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  jsp_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  jsp_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  jsp_js_entry = '<' /script/i @code jsp_tag+ :>> 'text/javascript' jsp_tag+ '>' @code;
+  jsp_js_outry = '</' /script/i jsp_close '>' @check_blank_outry @code;
   jsp_js_line := |*
     jsp_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -156,7 +170,7 @@ enum {
   }
 
   jsp_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  jsp_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  jsp_css_outry_entity = '</' /style/i (ws | newline)* '>';
   jsp_css_entity := |*
     jsp_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +181,7 @@ enum {
   *|;
 
   jsp_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  jsp_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  jsp_js_outry_entity = '</' /script/i (ws | newline)* '>';
   jsp_js_entity := |*
     jsp_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index a306568..331c8f9 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -61,11 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws - '<') @comment
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @comment @{ entity = CHECK_BLANK_ENTRY; }
+      @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto phtml_line; };
 
   phtml_sq_str := (
@@ -75,11 +76,12 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %phtml_ccallback )
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @code
   )* '\'' @code @{ fgoto phtml_line; };
   phtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %phtml_ccallback
@@ -88,17 +90,29 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %phtml_ccallback )
     |
-    '<' '?php' @{ saw(PHP_LANG); fcall phtml_php_line; }
+    '<' '?php' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @phtml_ccallback @{ saw(PHP_LANG); fcall phtml_php_line; }
     |
-    '<' !'?php'
+    '<' @code
   )* '"' @code @{ fgoto phtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %phtml_ccallback);
+  phtml_close = ws* (
+    newline >check_blank_outry >code %{ entity = INTERNAL_NL; } %phtml_ccallback
+    ws_or_inl*
+  )?;
 
-  phtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  phtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_tag =
+    ws
+    |
+    newline %{ entity = INTERNAL_NL; } %phtml_ccallback
+    |
+    (nonnewline - ws - '>') @code;
+
+  phtml_css_entry = '<' /style/i @code phtml_tag+ :>> 'text/css' phtml_tag+ '>' @code;
+  phtml_css_outry = '</' /style/i phtml_close '>' @check_blank_outry @code;
   phtml_css_line := |*
     phtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -109,8 +123,8 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  phtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  phtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  phtml_js_entry = '<' /script/i @code phtml_tag+ :>> 'text/javascript' phtml_tag+ '>' @code;
+  phtml_js_outry = '</' /script/i phtml_close '>' @check_blank_outry @code;
   phtml_js_line := |*
     phtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -122,9 +136,10 @@ enum {
   *|;
 
   phtml_php_entry = ('<?' 'php'?) @code;
-  phtml_php_outry = '?>' @check_blank_outry @code;
+  phtml_php_outry = '?>';
   phtml_php_line := |*
-    phtml_php_outry ${ p = ts; fret; };
+    # a line with nothing but the closing tag is a line of PHP
+    phtml_php_outry @{ if (!line_start) line_start = ts + 1; p = ts; fret; };
     # unmodified PHP patterns
     spaces       ${ entity = PHP_SPACE; } => php_ccallback;
     php_comment;
@@ -138,8 +153,8 @@ enum {
       @{ saw(CSS_LANG); } => { fcall phtml_css_line; };
     phtml_js_entry @{ entity = CHECK_BLANK_ENTRY; } @phtml_ccallback
       @{ saw(JS_LANG); } => { fcall phtml_js_line; };
-    phtml_php_entry @{ entity = CHECK_BLANK_ENTRY; } @php_ccallback
-      @{ saw(PHP_LANG); } => { fcall phtml_php_line; };
+    phtml_php_entry
+      => { check_blank_entry(PHP_LANG) saw(PHP_LANG); fcall phtml_php_line; };
     # standard PHTML patterns
     spaces       ${ entity = PHTML_SPACE; } => phtml_ccallback;
     '<!--'       @comment                   => { fgoto phtml_comment; };
@@ -156,7 +171,7 @@ enum {
   }
 
   phtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  phtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  phtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   phtml_css_entity := |*
     phtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +182,7 @@ enum {
   *|;
 
   phtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  phtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  phtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   phtml_js_entity := |*
     phtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index 7ee2fcb..bf51c84 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -61,11 +61,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws - '<') @comment
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; }
+      @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto rhtml_line; };
 
   rhtml_sq_str := (
@@ -75,11 +76,12 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %rhtml_ccallback )
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto rhtml_line; };
   rhtml_dq_str := (
     newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
@@ -88,17 +90,29 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %rhtml_ccallback )
     |
-    '<' '%' @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @rhtml_ccallback @{ saw(RUBY_LANG); fcall rhtml_ruby_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto rhtml_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %rhtml_ccallback);
+  rhtml_close = ws* (
+    newline >check_blank_outry >code %{ entity = INTERNAL_NL; } %rhtml_ccallback
+    ws_or_inl*
+  )?;
 
-  rhtml_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  rhtml_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_tag =
+    ws
+    |
+    newline %{ entity = INTERNAL_NL; } %rhtml_ccallback
+    |
+    (nonnewline - ws - '>') @code;
+
+  rhtml_css_entry = '<' /style/i @code rhtml_tag+ :>> 'text/css' rhtml_tag+ '>' @code;
+  rhtml_css_outry = '</' /style/i rhtml_close '>' @check_blank_outry @code;
   rhtml_css_line := |*
     rhtml_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -109,8 +123,8 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  rhtml_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  rhtml_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  rhtml_js_entry = '<' /script/i @code rhtml_tag+ :>> 'text/javascript' rhtml_tag+ '>' @code;
+  rhtml_js_outry = '</' /script/i rhtml_close '>' @check_blank_outry @code;
   rhtml_js_line := |*
     rhtml_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -156,7 +170,7 @@ enum {
   }
 
   rhtml_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  rhtml_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  rhtml_css_outry_entity = '</' /style/i (ws | newline)* '>';
   rhtml_css_entity := |*
     rhtml_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -167,7 +181,7 @@ enum {
   *|;
 
   rhtml_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  rhtml_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  rhtml_js_outry_entity = '</' /script/i (ws | newline)* '>';
   rhtml_js_entity := |*
     rhtml_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index d6b987d..f704ff0 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -59,11 +59,12 @@ enum {
     |
     ws
     |
-    ^(space | [\-<]) @comment
+    (nonnewline - ws - '<') @comment
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @comment @{ entity = CHECK_BLANK_ENTRY; }
+      @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @comment
   )* :>> '-->' @comment @{ fgoto vb_aspx_line; };
 
   vb_aspx_sq_str := (
@@ -73,11 +74,12 @@ enum {
     |
     [^\r\n\f\t '\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback )
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '\'' @code @{ fgoto vb_aspx_line; };
   vb_aspx_dq_str := (
     newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
@@ -86,17 +88,29 @@ enum {
     |
     [^\r\n\f\t "\\<] @code
     |
-    '\\' nonnewline @code
+    '\\' @code ( nonnewline | newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback )
     |
-    '<' '%' @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
+    '<' '%' @code @{ entity = CHECK_BLANK_ENTRY; }
+      @vb_aspx_ccallback @{ saw(VB_LANG); fcall vb_aspx_cs_line; }
     |
-    '<' !'%'
+    '<' @code
   )* '"' @code @{ fgoto vb_aspx_line; };
 
   ws_or_inl = (ws | newline @{ entity = INTERNAL_NL; } %vb_aspx_ccallback);
+  vb_aspx_close = ws* (
+    newline >check_blank_outry >code %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
+    ws_or_inl*
+  )?;
 
-  vb_aspx_css_entry = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>' @code;
-  vb_aspx_css_outry = '</' /style/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_tag =
+    ws
+    |
+    newline %{ entity = INTERNAL_NL; } %vb_aspx_ccallback
+    |
+    (nonnewline - ws - '>') @code;
+
+  vb_aspx_css_entry = '<' /style/i @code vb_aspx_tag+ :>> 'text/css' vb_aspx_tag+ '>' @code;
+  vb_aspx_css_outry = '</' /style/i vb_aspx_close '>' @check_blank_outry @code;
   vb_aspx_css_line := |*
     vb_aspx_css_outry @{ p = ts; fret; };
     # unmodified CSS patterns
@@ -107,8 +121,8 @@ enum {
     ^space      ${ entity = CSS_ANY;   } => css_ccallback;
   *|;
 
-  vb_aspx_js_entry = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>' @code;
-  vb_aspx_js_outry = '</' /script/i ws_or_inl* '>' @check_blank_outry @code;
+  vb_aspx_js_entry = '<' /script/i @code vb_aspx_tag+ :>> 'text/javascript' vb_aspx_tag+ '>' @code;
+  vb_aspx_js_outry = '</' /script/i vb_aspx_close '>' @check_blank_outry @code;
   vb_aspx_js_line := |*
     vb_aspx_js_outry @{ p = ts; fret; };
     # unmodified Javascript patterns
@@ -119,8 +133,8 @@ enum {
     ^space     ${ entity = JS_ANY;   } => js_ccallback;
   *|;
 
-  vb_aspx_cs_entry = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_entry = ('<%' | '<' /script/i @code vb_aspx_tag+ :>> 'server' vb_aspx_tag+ '>') @code;
+  vb_aspx_cs_outry = ('%>' | '</' /script/i vb_aspx_close '>' @check_blank_outry) @code;
   vb_aspx_cs_line := |*
     vb_aspx_cs_outry @{ p = ts; fret; };
     # unmodified VB patterns
@@ -155,7 +169,7 @@ enum {
   }
 
   vb_aspx_css_entry_entity = '<' /style/i [^>]+ :>> 'text/css' [^>]+ '>';
-  vb_aspx_css_outry_entity = '</' /style/i ws_or_inl* '>';
+  vb_aspx_css_outry_entity = '</' /style/i (ws | newline)* '>';
   vb_aspx_css_entity := |*
     vb_aspx_css_outry_entity @{ fret; };
     # unmodified CSS patterns
@@ -166,7 +180,7 @@ enum {
   *|;
 
   vb_aspx_js_entry_entity = '<' /script/i [^>]+ :>> 'text/javascript' [^>]+ '>';
-  vb_aspx_js_outry_entity = '</' /script/i ws_or_inl* '>';
+  vb_aspx_js_outry_entity = '</' /script/i (ws | newline)* '>';
   vb_aspx_js_entity := |*
     vb_aspx_js_outry_entity @{ fret; };
     # unmodified Javascript patterns
@@ -177,7 +191,7 @@ enum {
   *|;
 
   vb_aspx_cs_entry_entity = ('<%' | '<' /script/i [^>]+ :>> 'server' [^>]+ '>') @code;
-  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i ws_or_inl* '>' @check_blank_outry) @code;
+  vb_aspx_cs_outry_entity = ('%>' | '</' /script/i (ws | newline)* '>' @check_blank_outry) @code;
   vb_aspx_cs_entity := |*
     vb_aspx_cs_outry_entity @{ fret; };
     # unmodified C patterns
-- 
2.43.0


From 4e81e37b8fcd7c465a91f84e4dd39c67f977e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:38 +0000
Subject: [PATCH 08/41] fix: text the vim, perl, coffeescript, modelica and
 factor parsers could not get past

An unmatched quote in Vim script, '=' at the start of a Perl line, a lone
backtick in CoffeeScript and a string with an unusual escape in Modelica
stopped the parse or reported lines twice; the entity pass of Vim and Factor
stopped at the first character.
---
 src/parsers/coffeescript.rl |  7 +++++--
 src/parsers/factor.rl       |  9 ++++++++-
 src/parsers/modelica.rl     | 36 ++++++++++++++++--------------------
 src/parsers/perl.rl         |  3 +--
 src/parsers/vim.rl          | 10 ++++++----
 5 files changed, 36 insertions(+), 29 deletions(-)

diff --git a/src/parsers/coffeescript.rl b/src/parsers/coffeescript.rl
index 10285f6..e0b81a8 100644
--- a/src/parsers/coffeescript.rl
+++ b/src/parsers/coffeescript.rl
@@ -108,8 +108,11 @@ enum {
   *|;
 
   coffeescript_line := |*
-		coffeescript_js_entry @coffeescript_ccallback
-			@{ saw(JS_LANG); } => { fcall coffeescript_js_line; };
+    coffeescript_js_entry => {
+      check_blank_entry(COFFEESCRIPT_LANG)
+      saw(JS_LANG);
+      fcall coffeescript_js_line;
+    };
     spaces          ${ entity = COFFEESCRIPT_SPACE; } => coffeescript_ccallback;
     coffeescript_comment;
     coffeescript_string;
diff --git a/src/parsers/factor.rl b/src/parsers/factor.rl
index 06a11da..214283e 100644
--- a/src/parsers/factor.rl
+++ b/src/parsers/factor.rl
@@ -73,7 +73,14 @@ enum {
              userdata);
   }
 
-  factor_entity := 'TODO:';
+  factor_comment_entity = '!' nonnewline*;
+
+  factor_entity := |*
+    space+                ${ entity = FACTOR_SPACE;   } => factor_ecallback;
+    factor_comment_entity ${ entity = FACTOR_COMMENT; } => factor_ecallback;
+    # TODO:
+    ^space;
+  *|;
 }%%
 
 /* Parses a string buffer with Factor code.
diff --git a/src/parsers/modelica.rl b/src/parsers/modelica.rl
index f6c5cd2..f85851f 100644
--- a/src/parsers/modelica.rl
+++ b/src/parsers/modelica.rl
@@ -57,19 +57,23 @@ enum {
 
   modelica_comment = modelica_line_comment | modelica_block_comment;
   identifier = (alpha | '_') (alnum | '_')*;
-  string = '\"' @code
-    (newline %{ entity = INTERNAL_NL; } %modelica_ccallback
-    |ws
-    |[^ \t\n"\\] @code
-    |'\\\"' @code
-    )* '\"' @code;
+  modelica_string =
+    '"' @code @enqueue (
+      newline %{ entity = INTERNAL_NL; } %modelica_ccallback %{ entity = MODELICA_ANY; }
+      |
+      ws
+      |
+      [^\r\n\f\t "\\] @code
+      |
+      '\\' nonnewline @code
+    )* '"' @commit @code;
 
   modelica_line := |*
     spaces       ${ entity = MODELICA_SPACE; } => modelica_ccallback;
     modelica_comment;
+    modelica_string;
     newline      ${ entity = NEWLINE;   } => modelica_ccallback;
     identifier   ${ entity = MODELICA_ANY; } => modelica_ccallback;
-    string       ${ entity = MODELICA_ANY; } => modelica_ccallback;
     ^space       ${ entity = MODELICA_ANY;   } => modelica_ccallback;
   *|;
 
@@ -79,24 +83,16 @@ enum {
     callback(MODELICA_LANG, modelica_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  modelica_eline_comment = '//' @comment nonnewline*;
-
-  modelica_eblock_comment =
-    '/*' @comment (
-      newline %{ entity = INTERNAL_NL; } %modelica_ccallback
-      |
-      ws
-      |
-      (nonnewline - ws) @comment
-    )* :>> '*/';
-
-  modelica_ecomment = modelica_line_comment | modelica_block_comment;
+  modelica_eline_comment = '//' nonnewline*;
+  modelica_eblock_comment = '/*' any* :>> '*/';
+  modelica_ecomment = modelica_eline_comment | modelica_eblock_comment;
+  modelica_estring = '"' ([^"\\] | '\\' any)* '"';
 
   modelica_entity := |*
     space+             ${ entity = MODELICA_SPACE;   } => modelica_ecallback;
     modelica_ecomment ${ entity = MODELICA_COMMENT; } => modelica_ecallback;
     identifier   ${ entity = MODELICA_ANY; } => modelica_ecallback;
-    string       ${ entity = MODELICA_ANY; } => modelica_ecallback;
+    modelica_estring ${ entity = MODELICA_ANY; } => modelica_ecallback;
     ^space;
   *|;
 }%%
diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index 8f53dc7..7069c2d 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -99,8 +99,7 @@ enum {
     perl_comment;
     perl_string;
     newline        ${ entity = NEWLINE;    } => perl_ccallback;
-    '=' when !starts_line;
-    ^(space | '=') ${ entity = PERL_ANY;   } => perl_ccallback;
+    ^space         ${ entity = PERL_ANY;   } => perl_ccallback;
   *|;
 
   # Entity machine
diff --git a/src/parsers/vim.rl b/src/parsers/vim.rl
index 9dff60f..198e078 100644
--- a/src/parsers/vim.rl
+++ b/src/parsers/vim.rl
@@ -55,9 +55,7 @@ enum {
     vim_comment;
     vim_string;
     newline        ${ entity = NEWLINE;   } => vim_ccallback;
-    #'"';
-    ^(space | '"') ${ entity = VIM_ANY;   } => vim_ccallback;
-
+    ^space         ${ entity = VIM_ANY;   } => vim_ccallback;
   *|;
 
   # Entity machine
@@ -66,7 +64,11 @@ enum {
     callback(VIM_LANG, vim_entities[entity], cint(ts), cint(te), userdata);
   }
 
-  vim_entity := 'TODO:';
+  vim_entity := |*
+    space+ ${ entity = VIM_SPACE; } => vim_ecallback;
+    # TODO:
+    ^space;
+  *|;
 }%%
 
 /************************* Required for every parser *************************/
-- 
2.43.0


From e36bab197a96543a6b815e5b6858724c37434bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:40 +0000
Subject: [PATCH 09/41] fix: coffeescript and tex_dtx could not be looked up by
 their own names

---
 src/hash/languages.gperf | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hash/languages.gperf b/src/hash/languages.gperf
index 20e57c0..86bd34b 100755
--- a/src/hash/languages.gperf
+++ b/src/hash/languages.gperf
@@ -24,7 +24,7 @@ clearsilver, LANG_CLEARSILVER, "ClearSilver", 0
 clearsilver_template, LANG_CLEARSILVER_TEMPLATE, "ClearSilver", 0
 clojure, LANG_CLOJURE, "Clojure", 0
 cmake, LANG_CMAKE, "Cmake script", 2
-coffescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
+coffeescript, LANG_COFFEESCRIPT, "CoffeeScript", 0
 coq, LANG_COQ, "Coq", 0
 cpp, LANG_CPP, "C++", 0
 crystal, LANG_CRYSTAL, "Crystal", 0
@@ -115,6 +115,7 @@ sql, LANG_SQL, "SQL", 0
 swift, LANG_SWIFT, "Swift", 0
 tcl, LANG_TCL, "TCL", 0
 tex, LANG_TEX, "TeX/LaTeX", 1
+tex_dtx, LANG_TEX_DTX, "DTX for TeX/LaTeX", 1
 umple, LANG_UMPLE, "Umple", 0
 unrealscript, LANG_UNREALSCRIPT, "UnrealScript", 0
 typescript, LANG_TYPESCRIPT, "TypeScript", 0
-- 
2.43.0


From e3cd35b367ef7d31e949cfc87be7792eced70330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:20 +0000
Subject: [PATCH 10/41] fix: documentation block lost when a vertical tab or a
 final carriage return ends it early

---
 src/parsers/perl.rl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/perl.rl b/src/parsers/perl.rl
index 7069c2d..e02e741 100644
--- a/src/parsers/perl.rl
+++ b/src/parsers/perl.rl
@@ -53,9 +53,8 @@ enum {
       |
       ws
       |
-      ^space @comment
-    )* %/commit;
-  perl_comment = perl_line_comment | perl_block_comment;
+      (nonnewline - ws) @comment
+    )*;
 
   perl_sq_str =
     '\'' @code @enqueue (
@@ -96,7 +95,8 @@ enum {
 
   perl_line := |*
     spaces         ${ entity = PERL_SPACE; } => perl_ccallback;
-    perl_comment;
+    perl_line_comment;
+    perl_block_comment => commit;
     perl_string;
     newline        ${ entity = NEWLINE;    } => perl_ccallback;
     ^space         ${ entity = PERL_ANY;   } => perl_ccallback;
-- 
2.43.0


From ef0b756c4753c8d6a28107355e02757c33943263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 11/41] fix: a file disambiguated as binary was given the
 internal binary marker as its language

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 1611c5b..91b7368 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -219,7 +219,8 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
         ohcount_hash_disambiguate_func_from_id(DISAMBIGUATEWHAT(language),
                                                length);
       if (rd) language = rd->value(sourcefile);
-    } else language = ISBINARY(language) ? NULL : language;
+    }
+    if (language && ISBINARY(language)) language = NULL;
   }
   return language;
 }
-- 
2.43.0


From c3ec08f1b01a95c27499f7b8dc4896629609ad8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 12/41] fix: a delta list got a second entry for a language it
 already held

---
 src/loc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loc.c b/src/loc.c
index bd43934..af2e7d8 100644
--- a/src/loc.c
+++ b/src/loc.c
@@ -258,7 +258,7 @@ void ohcount_loc_delta_list_add_loc_delta(LocDeltaList *list, LocDelta *delta) {
   } else {
     LocDeltaList *iter = list->head;
     while (iter) {
-      if (list->delta && strcmp(list->delta->language, delta->language) == 0) break;
+      if (iter->delta && strcmp(iter->delta->language, delta->language) == 0) break;
       iter = iter->next;
     }
     if (iter == NULL) { // new language
-- 
2.43.0


From 239ab694e360d37084b1705c8fce94e628cdc49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 13/41] fix: -d listed files that are not source code, with a
 null language name

---
 src/ohcount.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ohcount.c b/src/ohcount.c
index ccf7c35..38f4f8d 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -31,8 +31,9 @@ void annotate(SourceFileList *list) {
 void detect(SourceFileList *list) {
   SourceFileList *iter = list->head;
   while (iter) {
-    printf("%s\t%s\n", ohcount_sourcefile_get_language(iter->sf),
-           iter->sf->filepath);
+    const char *language = ohcount_sourcefile_get_language(iter->sf);
+    if (language)
+      printf("%s\t%s\n", language, iter->sf->filepath);
     iter = iter->next;
   }
 }
-- 
2.43.0


From 39112dd6b17adfc85d9ee4c657a8cff9be1b61c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 14/41] fix: a file disambiguated as binary was given the
 internal binary marker as its language

Undoes ef0b756, which changed ohcount_detect_language() itself: its callers
may ask whether a file is binary. The marker must only not become the language
of a file.
---
 src/detector.c   | 3 +--
 src/sourcefile.c | 5 ++++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 91b7368..1611c5b 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -219,8 +219,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
         ohcount_hash_disambiguate_func_from_id(DISAMBIGUATEWHAT(language),
                                                length);
       if (rd) language = rd->value(sourcefile);
-    }
-    if (language && ISBINARY(language)) language = NULL;
+    } else language = ISBINARY(language) ? NULL : language;
   }
   return language;
 }
diff --git a/src/sourcefile.c b/src/sourcefile.c
index 27a7327..28ba5ed 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -125,7 +125,10 @@ void ohcount_sourcefile_set_language(SourceFile *sourcefile,
 
 const char *ohcount_sourcefile_get_language(SourceFile *sourcefile) {
   if (!sourcefile->language_detected) {
-    sourcefile->language = ohcount_detect_language(sourcefile);
+    const char *language = ohcount_detect_language(sourcefile);
+    // A file recognized as binary ("\1") has no language.
+    if (language && language[0] == '\1') language = NULL;
+    sourcefile->language = language;
     sourcefile->language_detected = 1;
   }
   return sourcefile->language;
-- 
2.43.0


From 37e21de10246233b6ce483959a715157c8d36d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 15/41] fix: detecting licenses leaked a copy of the comments
 of every language

---
 src/licenses.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/licenses.c b/src/licenses.c
index 6cbaae6..16c9b56 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -853,6 +853,7 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
           }
         }
       }
+      free(buffer);
       iter_language = iter_language->next;
     }
 
-- 
2.43.0


From 6da04c6bcb86b69f9bab6bd9aa37642de2f61bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 16/41] fix: only the licenses of the last language in a file
 were reported

---
 src/licenses.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/licenses.c b/src/licenses.c
index 16c9b56..aaa2629 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -767,7 +767,7 @@ void compile_regexps() {
 #define OVERRIDE_LICENSE(l, with) { \
   if (strcmp(license_map[i].name, l) == 0) { \
     for (j = 0; j < license_map_length; j++) \
-      if (potential_licenses_s[j] > -1 && \
+      if (found[j] && \
           strcmp(license_map[j].name, with) == 0) { \
         overridden = 1; \
         break; \
@@ -794,6 +794,8 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
   if (iter_language) {
     int potential_licenses_s[license_map_length];
     int potential_licenses_e[license_map_length];
+    int found[license_map_length]; // in any of the languages
+    for (i = 0; i < license_map_length; i++) found[i] = 0;
 
     while (iter_language) {
       // Before looking for licenses, strip whitespace and newlines
@@ -854,12 +856,14 @@ LicenseList *ohcount_detect_license(SourceFile *sourcefile) {
         }
       }
       free(buffer);
+      for (j = 0; j < license_map_length; j++)
+        if (potential_licenses_s[j] > -1) found[j] = 1;
       iter_language = iter_language->next;
     }
 
     // Create the list of licenses from potential licenses.
     for (i = 0; i < license_map_length; i++) {
-      if (potential_licenses_s[i] > -1) {
+      if (found[i]) {
         int overridden = 0;
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3);
         OVERRIDE_LICENSE(LIC_GPL, LIC_GPL3_OR_LATER);
-- 
2.43.0


From bf237eb60978f1c42acb83a4fbf6a3250d210f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 17/41] fix: comparing large texts leaked the names of the
 temporary files

---
 src/diff.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index bbb96ab..7de8965 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -658,14 +658,16 @@ void ohcount_calc_diff_with_disk(
 			if (line[0] == '<')
 				(*removed)++;
 		}
+		pclose(f);
 	}
-	pclose(f);
 	if (unlink(from_tmp)) {
 		printf("error unlinking %s: %d", from_tmp, errno);
 	}
 	if (unlink(to_tmp)) {
-		printf("error unlinking %s: %d", from_tmp, errno);
+		printf("error unlinking %s: %d", to_tmp, errno);
 	}
+	free(from_tmp);
+	free(to_tmp);
 }
 
 #define USE_DISK_IF_LARGER 100000
-- 
2.43.0


From a5ff525f90700a0842ab156a88e0c5ed03539b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 18/41] fix: the inside of a very long line could be counted as
 a changed line

---
 src/diff.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/diff.c b/src/diff.c
index 7de8965..ac67065 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -652,11 +652,13 @@ void ohcount_calc_diff_with_disk(
 	FILE *f = popen(command, "r");
 	if (f) {
 		char line[10000];
+		int line_start = 1; // fgets() returns long lines in several parts
 		while(fgets(line, sizeof(line), f)) {
-			if (line[0] == '>')
+			if (line_start && line[0] == '>')
 			 	(*added)++;
-			if (line[0] == '<')
+			if (line_start && line[0] == '<')
 				(*removed)++;
+			line_start = strchr(line, '\n') != NULL;
 		}
 		pclose(f);
 	}
-- 
2.43.0


From a43f91c8d2d138999afd35ec567de78b04dcbc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 19/41] fix: comparing texts wrote one byte past the end of a
 buffer

---
 src/diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.c b/src/diff.c
index ac67065..5968be3 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -315,7 +315,7 @@ static int hash(char *line) {
 void prepare(int i, const char *buf) {
   struct line *p;
   int j;
-  char bufcpy[strlen(buf)];
+  char bufcpy[strlen(buf) + 1];
   char *l;
 
   p = malloc(3*sizeof(struct line));
-- 
2.43.0


From 81fdb66d74f9ea24ec653f311ac52266da3fb386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:49 +0000
Subject: [PATCH 20/41] fix: a temporary file that could not be created was
 written to and closed

---
 src/diff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diff.c b/src/diff.c
index 5968be3..586e877 100644
--- a/src/diff.c
+++ b/src/diff.c
@@ -626,7 +626,7 @@ char *tmp_file_from_buf(const char *buf) {
 	char *path = strdup(template);
 
 	int fd = mkstemp(path);
-  if (write(fd, buf, strlen(buf)) != strlen(buf)) {
+  if (fd == -1 || write(fd, buf, strlen(buf)) != strlen(buf)) {
     fprintf(stderr, "src/diff.c: Could not write temporary file %s.\n", path);
     exit(1);
   }
-- 
2.43.0


From 1041f25d5f0b6daef920854712848a1a42bae478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 21/41] fix: detection wrote past its line buffer for lines
 longer than 80 characters

---
 src/detector.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 1611c5b..af17017 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -146,7 +146,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
     while (pe < eof) {
       // Get the contents of the first line.
       while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-      length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+      length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
       strncpy(line, p, length);
       line[length] = '\0';
       if (*line == '#' && *(line + 1) == '!') {
@@ -166,7 +166,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
       }
       pe = p;
       while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
-      length = (pe - p <= sizeof(buf)) ? pe - p : sizeof(buf);
+      length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
 
@@ -323,7 +323,7 @@ const char *disambiguate_basic(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *line_end = pe;
@@ -572,7 +572,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -741,7 +741,7 @@ const char *disambiguate_m(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
@@ -1029,7 +1029,7 @@ const char *disambiguate_st(SourceFile *sourcefile) {
   while (pe < eof) {
     // Get a line at a time.
     while (pe < eof && *pe != '\r' && *pe != '\n') pe++;
-    length = (pe - p <= sizeof(line)) ? pe - p : sizeof(line);
+    length = (pe - p < sizeof(line)) ? pe - p : sizeof(line) - 1;
     strncpy(line, p, length);
     line[length] = '\0';
     char *eol = line + strlen(line);
-- 
2.43.0


From d848f02bf7d28be0ba7cf1e8d09c64e0e5b5ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 22/41] fix: strings were terminated one byte past the end of
 their buffers

---
 src/detector.c | 8 ++++----
 src/ohcount.c  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index af17017..11d2b0a 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -236,7 +236,7 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     if (p && pe) {
       p += 3;
       const int length = pe - p;
-      char buf[length];
+      char buf[length + 1];
       strncpy(buf, p, length);
       buf[length] = '\0';
       char *eol = buf + strlen(buf);
@@ -550,7 +550,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
   // If the directory contains a matching *.m file, likely Objective C.
   length = strlen(sourcefile->filename);
   if (strcmp(sourcefile->ext, "h") == 0) {
-    char path[length];
+    char path[length + 1];
     strncpy(path, sourcefile->filename, length);
     path[length] = '\0';
     *(path + length - 1) = 'm';
@@ -650,7 +650,7 @@ const char *disambiguate_in(SourceFile *sourcefile) {
   if (strstr(p, ".") <= pe) {
     // Only if the filename has an extension prior to the .in
     length = pe - p;
-    char buf[length];
+    char buf[length + 1];
     strncpy(buf, p, length);
     buf[length] = '\0';
     p = ohcount_sourcefile_get_contents(sourcefile);
@@ -1066,7 +1066,7 @@ int ohcount_is_binary_filename(const char *filename) {
     re = ohcount_hash_language_from_ext(p, length);
     if (re) return ISBINARY(re->value);
     // Try the lower-case version of this extension.
-    char lowerext[length];
+    char lowerext[length + 1];
     strncpy(lowerext, p, length);
     lowerext[length] = '\0';
     for (p = lowerext; p < lowerext + length; p++) *p = tolower(*p);
diff --git a/src/ohcount.c b/src/ohcount.c
index 38f4f8d..3237e09 100644
--- a/src/ohcount.c
+++ b/src/ohcount.c
@@ -13,7 +13,7 @@ void annotate_callback(const char *language, const char *entity, int start,
                        int end, void *userdata) {
   SourceFile *sf = (SourceFile *)userdata;
   int length = end - start;
-  char buf[length];
+  char buf[length + 1];
   strncpy(buf, (const char*)sf->contents + start, length); // field exists
   buf[length] = '\0';
   printf("%s\t%s\t%s", language, entity, buf);
-- 
2.43.0


From 037fa93b17d956aeec52060630946785fe749939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 23/41] fix: an unfinished Emacs mode line was read past its
 end

---
 src/detector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 11d2b0a..4743d93 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -165,7 +165,7 @@ const char *ohcount_detect_language(SourceFile *sourcefile) {
         while (*p == ' ' || *p == '\t' || *p == ':') p++;
       }
       pe = p;
-      while (!isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
+      while (*pe && !isspace(*pe) && *pe != ';' && pe != strstr(pe, "-*-")) pe++;
       length = (pe - p < sizeof(buf)) ? pe - p : sizeof(buf) - 1;
       strncpy(buf, p, length);
       buf[length] = '\0';
-- 
2.43.0


From 6900b9d69160d98ee83b9e708885dbff23b555ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 24/41] fix: libmagic's answer was read before its start

---
 src/detector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 4743d93..f8bd9d5 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -55,12 +55,12 @@ const char *magic_parse(char *line) {
   p = strstr(line, "script"); // Example: "PHP script, ASCII text"
   if (p) {
     do {
-      p--;
+      if (p > line) p--;
       pe = p;
-      while (*p == ' ') p--;
+      while (p > line && *p == ' ') p--;
       while (p != line && isalnum(*(p - 1))) p--;
       if (p != line && *(p - 1) == '-') p--;
-    } while (*p == '-'); // Skip over any switches.
+    } while (p > line && *p == '-'); // Skip over any switches.
     length = pe - p;
     strncpy(buf, p, length);
     buf[length] = '\0';
-- 
2.43.0


From d45a8be2e2322defb9d2d85d7877fe2572ebc906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 25/41] fix: a C++ keyword at the start of a line was judged by
 the byte before the buffer

---
 src/detector.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index f8bd9d5..82d58bf 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -544,7 +544,7 @@ const char *disambiguate_fortran(SourceFile *sourcefile) {
 }
 
 const char *disambiguate_h(SourceFile *sourcefile) {
-  char *p, *pe, *bof;
+  char *p, *pe;
   int length;
 
   // If the directory contains a matching *.m file, likely Objective C.
@@ -565,8 +565,7 @@ const char *disambiguate_h(SourceFile *sourcefile) {
 
   // Attempt to detect based on file contents.
   char line[81], buf[81];
-  bof = ohcount_sourcefile_get_contents(sourcefile);
-  p = bof;
+  p = ohcount_sourcefile_get_contents(sourcefile);
   pe = p;
   char *eof = p + ohcount_sourcefile_get_contents_size(sourcefile);
   while (pe < eof) {
@@ -613,7 +612,8 @@ const char *disambiguate_h(SourceFile *sourcefile) {
     // Look for C++ keywords.
     p = line;
     while (p < eol) {
-      if (islower(*p) && p != bof && !isalnum(*(p - 1)) && *(p - 1) != '_') {
+      if (islower(*p) &&
+          (p == line || !isalnum(*(p - 1)) && *(p - 1) != '_')) {
         pe = p;
         while (islower(*pe)) pe++;
         if (!isalnum(*pe) && *pe != '_') {
-- 
2.43.0


From c7ea7eecb1c35d01cabff81317b154cc4312a622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 26/41] fix: a short file name with the mode line "in" gave a
 buffer of negative size

---
 src/detector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 82d58bf..1661d87 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -647,7 +647,8 @@ const char *disambiguate_in(SourceFile *sourcefile) {
 
   p = sourcefile->filepath;
   pe = p + strlen(p) - 3;
-  if (strstr(p, ".") <= pe) {
+  char *dot = strstr(p, ".");
+  if (dot && dot <= pe) {
     // Only if the filename has an extension prior to the .in
     length = pe - p;
     char buf[length + 1];
-- 
2.43.0


From eebf79fd47a43a4d0d32ccd436e32c2019bcb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 27/41] fix: only the first directive of an aspx page was
 examined

---
 src/detector.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/detector.c b/src/detector.c
index 1661d87..205ab63 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -235,6 +235,7 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
     char *pe = strstr(p, "%>");
     if (p && pe) {
       p += 3;
+      char *directive = p;
       const int length = pe - p;
       char buf[length + 1];
       strncpy(buf, p, length);
@@ -248,6 +249,7 @@ const char *disambiguate_aspx(SourceFile *sourcefile) {
         if (strstr(p, "language=\"vb\""))
           return LANG_VB_ASPX;
       }
+      p = directive;
     }
   }
   return LANG_CS_ASPX;
-- 
2.43.0


From a5aeb853a184728ed3f44f2acf2882188ed19064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 28/41] fix: the libmagic cookie was leaked for a file without
 contents

---
 src/detector.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/detector.c b/src/detector.c
index 205ab63..3705a6e 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -98,7 +98,10 @@ const char *detect_language_magic(SourceFile *sourcefile) {
     line[sizeof(line)-1] = '\0';
   } else {
     char *p = ohcount_sourcefile_get_contents(sourcefile);
-    if (!p) return NULL;
+    if (!p) {
+      magic_close(cookie);
+      return NULL;
+    }
 
     const char *magic = magic_buffer(cookie, p, strlen(p));
     if (magic == NULL) {
-- 
2.43.0


From 7eaba93ad2c7b5abfc8965bc7235cf8d22b56d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 29/41] fix: compiled regular expressions were leaked by
 detection

---
 src/detector.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/detector.c b/src/detector.c
index 3705a6e..be28e8c 100644
--- a/src/detector.c
+++ b/src/detector.c
@@ -920,7 +920,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	keyword = pcre_compile("^\\s*(ensure|content|notify|require|source)\\s+=>",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	int found = pcre_exec(keyword, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0);
+	pcre_free(keyword);
+	if (found > -1)
 		return LANG_PUPPET;
 
 	/* check for standard puppet constructs */
@@ -928,7 +930,9 @@ const char *disambiguate_pp(SourceFile *sourcefile) {
 	construct = pcre_compile("^\\s*(define\\s+[\\w:-]+\\s*\\(|class\\s+[\\w:-]+(\\s+inherits\\s+[\\w:-]+)?\\s*[\\({]|node\\s+\\'?[\\w:\\.-]+\\'?\\s*{|import\\s+\"|include\\s+[\"']?[\\w:-][\"']?)",
 			PCRE_MULTILINE, &error, &erroffset, NULL);
 
-	if (pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0) > -1)
+	found = pcre_exec(construct, NULL, p, mystrnlen(p, 10000), 0, 0, NULL, 0);
+	pcre_free(construct);
+	if (found > -1)
 		return LANG_PUPPET;
 
 	return LANG_PASCAL;
@@ -943,7 +947,9 @@ const char *disambiguate_pl(SourceFile *sourcefile) {
 	const char *error;
 	int erroffset;
 	pcre *re = pcre_compile("#![^\\n]*perl", PCRE_CASELESS, &error, &erroffset, NULL);
-  if (pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0) > -1)
+  int found = pcre_exec(re, NULL, contents, mystrnlen(contents, 100), 0, PCRE_ANCHORED, NULL, 0);
+  pcre_free(re);
+  if (found > -1)
     return LANG_PERL;
 
   // Check for prolog :- rules
-- 
2.43.0


From ec789e77404ff46b41ec8d95f3d351a5d392dae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 30/41] fix: the byte before the path was read for a path
 without dots and slashes

---
 src/sourcefile.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 28ba5ed..acb7b66 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -30,7 +30,7 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   while (p > sourcefile->filepath && *(p - 1) != '.' &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-  sourcefile->ext = (*(p - 1) == '.') ? p : sourcefile->filepath + length;
+  sourcefile->ext = (p > sourcefile->filepath && *(p - 1) == '.') ? p : sourcefile->filepath + length;
 
   while (p > sourcefile->filepath &&
          *(p - 1) != '/' && *(p - 1) != '\\') p--;
-- 
2.43.0


From f9fb2b2bbc9a427a8f95589643860c0a56ef9110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 31/41] fix: each comparison leaked an empty language record

---
 src/sourcefile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index acb7b66..6b8833c 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -323,6 +323,7 @@ LocDelta *ohcount_sourcefile_calc_loc_delta(SourceFile *from_file,
   else
     delta->blanks_added = to->blanks_count - from->blanks_count;
 
+  ohcount_parsed_language_free(blank);
   return delta;
 }
 
-- 
2.43.0


From e86bc19560ec1f15be6d422653668c12cf9f1df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 32/41] fix: leading blanks were skipped beyond the end of the
 reported line

---
 src/sourcefile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 6b8833c..5fbf70f 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -182,10 +182,10 @@ void parser_callback(const char *language, const char *entity, int start,
   }
 
   if (strcmp(entity, "lcode") == 0) {
-    while (*p == ' ' || *p == '\t') p++;
+    while (p < pe && (*p == ' ' || *p == '\t')) p++;
     ohcount_parsed_language_add_code(lang, p, pe - p);
   } else if (strcmp(entity, "lcomment") == 0) {
-    while (*p == ' ' || *p == '\t') p++;
+    while (p < pe && (*p == ' ' || *p == '\t')) p++;
     ohcount_parsed_language_add_comment(lang, p, pe - p);
   } else if (strcmp(entity, "lblank") == 0) {
     lang->blanks_count++;
-- 
2.43.0


From 6884291144fefe142e60bd73f9fdfff5a3fa79d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 33/41] fix: a file too large for its size field overran the
 buffer for its contents

---
 src/sourcefile.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index 5fbf70f..c3cc957 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -2,6 +2,7 @@
 // See COPYING for license information.
 
 #include <dirent.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -87,8 +88,10 @@ char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
     FILE *f = fopen(path, "rb");
     if (f) {
       fseek(f, 0, SEEK_END);
-      int size = ftell(f);
+      long size = ftell(f);
       rewind(f);
+      // The size must fit in sourcefile->size.
+      if (size < 0 || size >= INT_MAX) size = 0;
       sourcefile->contents = malloc(size + 1);
       if (fread(sourcefile->contents, size, 1, f) != 1) {
         free(sourcefile->contents);
-- 
2.43.0


From 4866f4936321c69ae7f5095b65acf3a6a32b78b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:52 +0000
Subject: [PATCH 34/41] fix: a deep directory tree overran the path buffer, and
 a vanished file was judged by leftovers

---
 src/sourcefile.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index c3cc957..f739744 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -377,6 +377,7 @@ void ohcount_sourcefile_list_add_file(SourceFileList *list,
 void ohcount_sourcefile_list_add_directory(SourceFileList *list,
                                            const char *directory) {
   char filepath[FILENAME_MAX];
+  if (strlen(directory) + 1 >= sizeof(filepath)) return; // path too long
   strncpy(filepath, directory, strlen(directory));
   *(filepath + strlen(directory)) = '/';
   char *f_p = filepath + strlen(directory) + 1;
@@ -388,11 +389,11 @@ void ohcount_sourcefile_list_add_directory(SourceFileList *list,
     while ((file = readdir(d))) {
       struct stat st;
       int length = strlen(file->d_name);
+      if (length >= filepath + sizeof(filepath) - f_p) continue; // path too long
       strncpy(f_p, (const char *)file->d_name, length);
       *(f_p + length) = '\0';
 
-      lstat(filepath, &st);
-      if(S_ISLNK(st.st_mode))
+      if (lstat(filepath, &st) != 0 || S_ISLNK(st.st_mode))
         continue;
 
       if (S_ISDIR(st.st_mode) && *file->d_name != '.') // no hidden dirs
-- 
2.43.0


From 871a6ce272743ee6bde334e952b6dc2d32282678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 35/41] fix: comparing files crashed when the log file could
 not be opened

---
 src/log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log.c b/src/log.c
index d28686d..99116d4 100644
--- a/src/log.c
+++ b/src/log.c
@@ -4,6 +4,7 @@
 #define LOG_FILE "/tmp/ohcount.log"
 void log_it(char *log) {
 	FILE *f = fopen(LOG_FILE, "a");
+	if (!f) return;
 	fputs(log, f);
 	fclose(f);
 }
-- 
2.43.0


From 8bb86ac87cdfc00df22450eba7f58ffa89c6db83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:15 +0000
Subject: [PATCH 36/41] fix: contents given by the caller survived only until
 the file was parsed

ohcount_sourcefile_parse() released the contents even when they had been given
by ohcount_sourcefile_set_contents(), so that licenses (or contents, or
entities) asked for afterwards were those of a file on disk, or of nothing.
---
 src/sourcefile.c | 10 ++++++++--
 src/structs.h    |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sourcefile.c b/src/sourcefile.c
index f739744..48bc76a 100644
--- a/src/sourcefile.c
+++ b/src/sourcefile.c
@@ -56,6 +56,8 @@ SourceFile *ohcount_sourcefile_new(const char *filepath) {
 
   sourcefile->filenames = NULL;
 
+  sourcefile->contents_set = 0;
+
   return sourcefile;
 }
 
@@ -78,6 +80,7 @@ void ohcount_sourcefile_set_contents(SourceFile *sourcefile,
   strncpy(sourcefile->contents, contents, size);
   sourcefile->contents[size] = '\0';
   sourcefile->size = size;
+  sourcefile->contents_set = 1;
 }
 
 char *ohcount_sourcefile_get_contents(SourceFile *sourcefile) {
@@ -205,8 +208,11 @@ void ohcount_sourcefile_parse(SourceFile *sourcefile) {
     // undesirable build-up of memory until the SourceFileList is 'free'd.
     // While it is expensive to re-read the contents from the disk, it is
     // unlikely they will need to be accessed again after parsing.
-    free(sourcefile->contents); // field is guaranteed to exist
-    sourcefile->contents = NULL;
+    // Contents that are not on disk have to stay.
+    if (!sourcefile->contents_set) {
+      free(sourcefile->contents); // field is guaranteed to exist
+      sourcefile->contents = NULL;
+    }
   }
 }
 
diff --git a/src/structs.h b/src/structs.h
index 82cdfc0..190db11 100644
--- a/src/structs.h
+++ b/src/structs.h
@@ -306,6 +306,13 @@ typedef struct {
   /** A string array of all filenames in this file's directory. */
   char **filenames;
 
+  /**
+   * Flag used internally for keeping track of whether or not the contents were
+   * given by ohcount_sourcefile_set_contents(). Such contents cannot be read
+   * again from disk.
+   */
+  int contents_set;
+
 } SourceFile;
 
 /**
-- 
2.43.0


From be314471d511ec416e0c89adfa5de1b99172b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:01 +0000
Subject: [PATCH 37/41] fix: the WTF Public License was never found by its full
 name (form feed in its pattern)

---
 src/licenses.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/licenses.c b/src/licenses.c
index aaa2629..d0659e8 100644
--- a/src/licenses.c
+++ b/src/licenses.c
@@ -724,7 +724,7 @@ License license_map[] = {
     LIC_WTFPL2,
     "",
     "WTF Public License",
-    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*\\fuck\\s*public\\s*license\\b)",
+    "(\\bwtfpl\\b)|(\\bwtf\\s*public\\s*license\\b)|(\\b(do\\s*)?what\\s*the\\s*fuck\\s*public\\s*license\\b)",
     PCRE_CASELESS,
     NULL,
     0,
-- 
2.43.0


From a429855cc756342565a2e9922dadc35a15c3a957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:20 +0000
Subject: [PATCH 38/41] fix: a line holding only a bracket inside haml
 attributes was counted as blank

---
 src/parsers/haml.rl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index d65ce2c..b20adb7 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -74,9 +74,9 @@ enum {
       |
       (nonnewline - ws - [{}]) @code
       |
-      '{' @bracket_inc
+      '{' @bracket_inc @code
       |
-      '}' @bracket_dec
+      '}' @bracket_dec @code
     )* :>> ('}' when { bracket_level == 0 }) @code)
     |
     ('[' >bracket_level_res @code (
@@ -84,9 +84,9 @@ enum {
       |
       ws
       |
-      '[' @bracket_inc
+      '[' @bracket_inc @code
       |
-      ']' @bracket_dec
+      ']' @bracket_dec @code
       |
       (nonnewline - ws - '[' - ']') @code
     )* :>> (']' when { bracket_level == 0 }) @code);
-- 
2.43.0


From 0f2ec879517d8d3ac6e47d24694cbf5cd3e45bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:20 +0000
Subject: [PATCH 39/41] fix: a line holding only the backslash that escapes its
 end was counted as blank

---
 src/parsers/c.rl            | 4 ++--
 src/parsers/chaiscript.rl   | 4 ++--
 src/parsers/d.rl            | 6 +++---
 src/parsers/elm.rl          | 2 +-
 src/parsers/fsharp.rl       | 4 ++--
 src/parsers/glsl.rl         | 4 ++--
 src/parsers/golang.rl       | 4 ++--
 src/parsers/groovy.rl       | 4 ++--
 src/parsers/haskell.rl      | 2 +-
 src/parsers/javascript.rl   | 4 ++--
 src/parsers/modula3.rl      | 4 ++--
 src/parsers/powershell.rl   | 4 ++--
 src/parsers/rust.rl         | 2 +-
 src/parsers/shell.rl        | 4 ++--
 src/parsers/stratego.rl     | 2 +-
 src/parsers/tcl.rl          | 2 +-
 src/parsers/unrealscript.rl | 4 ++--
 17 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/parsers/c.rl b/src/parsers/c.rl
index cfc8ab3..9036529 100755
--- a/src/parsers/c.rl
+++ b/src/parsers/c.rl
@@ -66,7 +66,7 @@ enum {
 
   c_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
@@ -76,7 +76,7 @@ enum {
     )* '\'' @code;
   c_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %c_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %c_ccallback
       |
       ws
       |
diff --git a/src/parsers/chaiscript.rl b/src/parsers/chaiscript.rl
index 1eaa6cf..9600f69 100644
--- a/src/parsers/chaiscript.rl
+++ b/src/parsers/chaiscript.rl
@@ -62,7 +62,7 @@ enum {
   # I can't find a definitive answer.
   chai_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
@@ -72,7 +72,7 @@ enum {
     )* '\'' @code;
   chai_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %chai_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %chai_ccallback
       |
       ws
       |
diff --git a/src/parsers/d.rl b/src/parsers/d.rl
index 6e82d96..05795b7 100644
--- a/src/parsers/d.rl
+++ b/src/parsers/d.rl
@@ -80,7 +80,7 @@ enum {
 
   d_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %d_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
@@ -90,7 +90,7 @@ enum {
     )* '\'' @code;
   d_dq_str =
     '"' @code (
-      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %d_ccallback
+      (newline | '\\' @code newline) %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
@@ -100,7 +100,7 @@ enum {
     )* '"' @code;
   d_bt_str =
     '`' @code (
-      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %d_ccallback
+      (newline | '\\' @code newline) %{ entity = INTERNAL_NL; } %d_ccallback
       |
       ws
       |
diff --git a/src/parsers/elm.rl b/src/parsers/elm.rl
index ddf711d..3a05803 100644
--- a/src/parsers/elm.rl
+++ b/src/parsers/elm.rl
@@ -67,7 +67,7 @@ enum {
   elm_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   elm_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %elm_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %elm_ccallback
       |
       ws
       |
diff --git a/src/parsers/fsharp.rl b/src/parsers/fsharp.rl
index d9e5d85..611a3f1 100644
--- a/src/parsers/fsharp.rl
+++ b/src/parsers/fsharp.rl
@@ -67,7 +67,7 @@ enum {
 
   fsharp_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
@@ -77,7 +77,7 @@ enum {
     )* '\'' @code;
   fsharp_dq_str =
     '"' @code (
-      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %fsharp_ccallback
+      (newline | '\\' @code newline) %{ entity = INTERNAL_NL; } %fsharp_ccallback
       |
       ws
       |
diff --git a/src/parsers/glsl.rl b/src/parsers/glsl.rl
index 3a5f853..6b6f7d5 100644
--- a/src/parsers/glsl.rl
+++ b/src/parsers/glsl.rl
@@ -68,7 +68,7 @@ enum {
 
   glsl_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
@@ -78,7 +78,7 @@ enum {
     )* '\'' @code;
   glsl_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %glsl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %glsl_ccallback
       |
       ws
       |
diff --git a/src/parsers/golang.rl b/src/parsers/golang.rl
index 144c4ab..50aa6ee 100644
--- a/src/parsers/golang.rl
+++ b/src/parsers/golang.rl
@@ -66,7 +66,7 @@ enum {
 
   golang_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
@@ -76,7 +76,7 @@ enum {
     )* '\'' @code;
   golang_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %golang_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %golang_ccallback
       |
       ws
       |
diff --git a/src/parsers/groovy.rl b/src/parsers/groovy.rl
index 6650e06..febda71 100644
--- a/src/parsers/groovy.rl
+++ b/src/parsers/groovy.rl
@@ -64,7 +64,7 @@ enum {
 
   groovy_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
@@ -74,7 +74,7 @@ enum {
     )* '\'' @code;
   groovy_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %groovy_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %groovy_ccallback
       |
       ws
       |
diff --git a/src/parsers/haskell.rl b/src/parsers/haskell.rl
index 5b4e469..459e949 100644
--- a/src/parsers/haskell.rl
+++ b/src/parsers/haskell.rl
@@ -67,7 +67,7 @@ enum {
   haskell_char = '\'' @code ([^\r\n\f'\\] | '\\' nonnewline) '\'';
   haskell_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %haskell_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %haskell_ccallback
       |
       ws
       |
diff --git a/src/parsers/javascript.rl b/src/parsers/javascript.rl
index 52f6990..caca8f0 100644
--- a/src/parsers/javascript.rl
+++ b/src/parsers/javascript.rl
@@ -61,7 +61,7 @@ enum {
   # I can't find a definitive answer.
   js_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
@@ -71,7 +71,7 @@ enum {
     )* '\'' @code;
   js_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %js_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %js_ccallback
       |
       ws
       |
diff --git a/src/parsers/modula3.rl b/src/parsers/modula3.rl
index 5633f91..e250811 100644
--- a/src/parsers/modula3.rl
+++ b/src/parsers/modula3.rl
@@ -71,7 +71,7 @@ enum {
 
   modula3_singlequoted_string =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
@@ -81,7 +81,7 @@ enum {
     )* '\'' @code;
   modula3_doublequoted_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %modula3_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %modula3_ccallback
       |
       ws
       |
diff --git a/src/parsers/powershell.rl b/src/parsers/powershell.rl
index 1352235..20f7134 100644
--- a/src/parsers/powershell.rl
+++ b/src/parsers/powershell.rl
@@ -57,7 +57,7 @@ enum {
     '\'' @code @enqueue (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
       ws
       |
@@ -69,7 +69,7 @@ enum {
     '"' @code @enqueue (
       newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
+      '\\' @code newline %{ entity = INTERNAL_NL; } %powershell_ccallback %{ entity = POWERSHELL_ANY; }
       |
       ws
       |
diff --git a/src/parsers/rust.rl b/src/parsers/rust.rl
index 7ac55f8..bf3dd19 100644
--- a/src/parsers/rust.rl
+++ b/src/parsers/rust.rl
@@ -67,7 +67,7 @@ enum {
 
   rust_dq_str =
     '"' @code (
-      (newline | escaped_newline) %{ entity = INTERNAL_NL; } %rust_ccallback
+      (newline | '\\' @code newline) %{ entity = INTERNAL_NL; } %rust_ccallback
       |
       ws
       |
diff --git a/src/parsers/shell.rl b/src/parsers/shell.rl
index 0595a21..821f421 100644
--- a/src/parsers/shell.rl
+++ b/src/parsers/shell.rl
@@ -50,7 +50,7 @@ enum {
     '\'' @code @enqueue (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
       ws
       |
@@ -62,7 +62,7 @@ enum {
     '"' @code @enqueue (
       newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
-      '\\' newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
+      '\\' @code newline %{ entity = INTERNAL_NL; } %shell_ccallback %{ entity = SHELL_ANY; }
       |
       ws
       |
diff --git a/src/parsers/stratego.rl b/src/parsers/stratego.rl
index 5d4107c..1d3c4c7 100644
--- a/src/parsers/stratego.rl
+++ b/src/parsers/stratego.rl
@@ -64,7 +64,7 @@ enum {
 
   stratego_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %stratego_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %stratego_ccallback
       |
       ws
       |
diff --git a/src/parsers/tcl.rl b/src/parsers/tcl.rl
index 79fb391..7db30a6 100644
--- a/src/parsers/tcl.rl
+++ b/src/parsers/tcl.rl
@@ -55,7 +55,7 @@ enum {
 
   tcl_string =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %tcl_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %tcl_ccallback
       |
       ws
       |
diff --git a/src/parsers/unrealscript.rl b/src/parsers/unrealscript.rl
index 4e753ff..dbba895 100644
--- a/src/parsers/unrealscript.rl
+++ b/src/parsers/unrealscript.rl
@@ -57,7 +57,7 @@ enum {
 
   unrealscript_sq_str =
     '\'' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
@@ -67,7 +67,7 @@ enum {
     )* '\'' @code;
   unrealscript_dq_str =
     '"' @code (
-      escaped_newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
+      '\\' @code newline %{ entity = INTERNAL_NL; } %unrealscript_ccallback
       |
       ws
       |
-- 
2.43.0


From a56f423dc6417128e7c9f044870d0fb029a4c71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 40/41] fix: a line holding only the end of a style or script
 tag was counted as blank

---
 src/parsers/clearsilverhtml.rl | 4 ++--
 src/parsers/cs_aspx.rl         | 6 +++---
 src/parsers/html.rl            | 4 ++--
 src/parsers/jsp.rl             | 4 ++--
 src/parsers/phphtml.rl         | 4 ++--
 src/parsers/rhtml.rl           | 4 ++--
 src/parsers/vb_aspx.rl         | 6 +++---
 7 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/parsers/clearsilverhtml.rl b/src/parsers/clearsilverhtml.rl
index cfd150a..9355114 100644
--- a/src/parsers/clearsilverhtml.rl
+++ b/src/parsers/clearsilverhtml.rl
@@ -148,9 +148,9 @@ enum {
   *|;
 
   cshtml_line := |*
-    cshtml_css_entry @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+    cshtml_css_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(CSHTML_LANG) }
       @{ saw(CSS_LANG); } => { fcall cshtml_css_line; };
-    cshtml_js_entry @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
+    cshtml_js_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(CSHTML_LANG) }
       @{ saw(JS_LANG); } => { fcall cshtml_js_line; };
     cshtml_cs_entry @{ entity = CHECK_BLANK_ENTRY; } @cshtml_ccallback
       @{ saw(CS_LANG); } => { fcall cshtml_cs_line; };
diff --git a/src/parsers/cs_aspx.rl b/src/parsers/cs_aspx.rl
index c6161dc..e004cee 100644
--- a/src/parsers/cs_aspx.rl
+++ b/src/parsers/cs_aspx.rl
@@ -146,11 +146,11 @@ enum {
   *|;
 
   cs_aspx_line := |*
-    cs_aspx_css_entry @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+    cs_aspx_css_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(CS_ASPX_LANG) }
       @{ saw(CSS_LANG); } => { fcall cs_aspx_css_line; };
-    cs_aspx_js_entry @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+    cs_aspx_js_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(CS_ASPX_LANG) }
       @{ saw(JS_LANG); } => { fcall cs_aspx_js_line; };
-    cs_aspx_cs_entry @{ entity = CHECK_BLANK_ENTRY; } @cs_aspx_ccallback
+    cs_aspx_cs_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(CS_ASPX_LANG) }
       @{ saw(C_LANG); } => { fcall cs_aspx_cs_line; };
     # standard CS_ASPX patterns
     spaces       ${ entity = CS_ASPX_SPACE; } => cs_aspx_ccallback;
diff --git a/src/parsers/html.rl b/src/parsers/html.rl
index b7c972d..c4ba5b2 100644
--- a/src/parsers/html.rl
+++ b/src/parsers/html.rl
@@ -105,9 +105,9 @@ enum {
   *|;
 
   html_line := |*
-    html_css_entry @{ entity = CHECK_BLANK_ENTRY; } @html_ccallback
+    html_css_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(HTML_LANG) }
       @{ saw(CSS_LANG); } => { fcall html_css_line; };
-    html_js_entry @{ entity = CHECK_BLANK_ENTRY; } @html_ccallback
+    html_js_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(HTML_LANG) }
       @{ saw(JS_LANG); } => { fcall html_js_line; };
     # standard HTML patterns
     spaces       ${ entity = HTML_SPACE; } => html_ccallback;
diff --git a/src/parsers/jsp.rl b/src/parsers/jsp.rl
index dd32fc9..7db1093 100644
--- a/src/parsers/jsp.rl
+++ b/src/parsers/jsp.rl
@@ -148,9 +148,9 @@ enum {
   *|;
 
   jsp_line := |*
-    jsp_css_entry @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+    jsp_css_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(JSP_LANG) }
       @{ saw(CSS_LANG); } => { fcall jsp_css_line; };
-    jsp_js_entry @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
+    jsp_js_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(JSP_LANG) }
       @{ saw(JS_LANG); } => { fcall jsp_js_line; };
     jsp_java_entry @{ entity = CHECK_BLANK_ENTRY; } @jsp_ccallback
       @{ saw(JAVA_LANG); } => { fcall jsp_java_line; };
diff --git a/src/parsers/phphtml.rl b/src/parsers/phphtml.rl
index 331c8f9..9939b66 100644
--- a/src/parsers/phphtml.rl
+++ b/src/parsers/phphtml.rl
@@ -149,9 +149,9 @@ enum {
   *|;
 
   phtml_line := |*
-    phtml_css_entry @{ entity = CHECK_BLANK_ENTRY; } @phtml_ccallback
+    phtml_css_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(PHTML_LANG) }
       @{ saw(CSS_LANG); } => { fcall phtml_css_line; };
-    phtml_js_entry @{ entity = CHECK_BLANK_ENTRY; } @phtml_ccallback
+    phtml_js_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(PHTML_LANG) }
       @{ saw(JS_LANG); } => { fcall phtml_js_line; };
     phtml_php_entry
       => { check_blank_entry(PHP_LANG) saw(PHP_LANG); fcall phtml_php_line; };
diff --git a/src/parsers/rhtml.rl b/src/parsers/rhtml.rl
index bf51c84..70b7352 100644
--- a/src/parsers/rhtml.rl
+++ b/src/parsers/rhtml.rl
@@ -148,9 +148,9 @@ enum {
   *|;
 
   rhtml_line := |*
-    rhtml_css_entry @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+    rhtml_css_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(RHTML_LANG) }
       @{ saw(CSS_LANG); } => { fcall rhtml_css_line; };
-    rhtml_js_entry @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
+    rhtml_js_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(RHTML_LANG) }
       @{ saw(JS_LANG); } => { fcall rhtml_js_line; };
     rhtml_ruby_entry @{ entity = CHECK_BLANK_ENTRY; } @rhtml_ccallback
       @{ saw(RUBY_LANG); } => { fcall rhtml_ruby_line; };
diff --git a/src/parsers/vb_aspx.rl b/src/parsers/vb_aspx.rl
index f704ff0..4629794 100644
--- a/src/parsers/vb_aspx.rl
+++ b/src/parsers/vb_aspx.rl
@@ -146,11 +146,11 @@ enum {
   *|;
 
   vb_aspx_line := |*
-    vb_aspx_css_entry @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+    vb_aspx_css_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(VB_ASPX_LANG) }
       @{ saw(CSS_LANG); } => { fcall vb_aspx_css_line; };
-    vb_aspx_js_entry @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+    vb_aspx_js_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(VB_ASPX_LANG) }
       @{ saw(JS_LANG); } => { fcall vb_aspx_js_line; };
-    vb_aspx_cs_entry @{ entity = CHECK_BLANK_ENTRY; } @vb_aspx_ccallback
+    vb_aspx_cs_entry @{ entity = CHECK_BLANK_ENTRY; } @{ check_blank_entry(VB_ASPX_LANG) }
       @{ saw(VB_LANG); } => { fcall vb_aspx_cs_line; };
     # standard VB_ASPX patterns
     spaces       ${ entity = VB_ASPX_SPACE; } => vb_aspx_ccallback;
-- 
2.43.0


From 0e64baabcb4bbc8e1dc074642abc00fc13109770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 41/41] fix: haml lines joined by | were reported as one, and a
 lone ruby marker as blank

---
 src/parsers/haml.rl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parsers/haml.rl b/src/parsers/haml.rl
index b20adb7..32ac710 100644
--- a/src/parsers/haml.rl
+++ b/src/parsers/haml.rl
@@ -119,7 +119,7 @@ enum {
       - "#"
       - "%"
       - [ ]) @code
-    (nonnewline @code | ("|" @code newline %{ entity = INTERNAL_NL;}))*;
+    (nonnewline @code | ("|" @code newline %{ entity = INTERNAL_NL;} %haml_ccallback ws* (nonnewline-ws) @code))*;
 
   haml_ruby_entry =
     ([ ]{2})*
@@ -140,7 +140,7 @@ enum {
   *|;
 
   haml_line := |*
-    haml_ruby_entry @{entity = CHECK_BLANK_ENTRY; } @{saw(RUBY_LANG)} => {fcall haml_ruby_line; };
+    haml_ruby_entry @{ char *q = p; if (!is_blank_entry(&q, pe)) saw(RUBY_LANG) } => {fcall haml_ruby_line; };
     spaces          ${ entity = HAML_SPACE; } => haml_ccallback;
     haml_comment;
     haml_string;
-- 
2.43.0

