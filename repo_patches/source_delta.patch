From 29f4a356ea0ae3b43f12ab54d7b23fd79d72b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 001/117] fix: versions that differ only in a trailing
 separator compare equal

rpmvercmp skipped separators only while both versions had characters left,
so '1.0-' was newer than '1.0'; rpm and meson treat them as equal.
---
 src/rpmvercmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rpmvercmp.c b/src/rpmvercmp.c
index 185a167..2076e5a 100644
--- a/src/rpmvercmp.c
+++ b/src/rpmvercmp.c
@@ -40,7 +40,7 @@ rpmvercmp(const struct str *a, const struct str *b)
 	}
 
 	/* loop through each version segment of str1 and str2 and compare them */
-	while (ai < a->len && bi < b->len) {
+	while (ai < a->len || bi < b->len) {
 		while (ai < a->len && !isalnum((int)a->s[ai])) {
 			++ai;
 		}
-- 
2.43.0


From e468264a09757c7f701446a6017eadf5f37fe849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 002/117] fix: an optional subproject with the wrong version is
 not found

subproject('s', version: '>9', required: false) returned a found subproject
when the version did not match.
---
 src/functions/kernel/subproject.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index 2228350..c2c2a82 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -146,8 +146,9 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 				interp_error(wk, versions->node,
 					"subproject version mismatch; wanted %o, got %o",
 					versions->val, subp->cfg.version);
-				goto not_found;
 			}
+
+			goto not_found;
 		}
 	}
 
-- 
2.43.0


From 24546294fb6790955e605cccf787710305207f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 003/117] fix: check the version of an overridden dependency

dependency('d', version: '>9') returned the override whatever its version
was, and only checked the version when it was looked up a second time.
---
 src/functions/kernel/dependency.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index fbc2a55..899645b 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -70,13 +70,30 @@ struct dep_lookup_ctx {
 	bool found;
 };
 
+static bool
+override_version_matches(struct workspace *wk, struct dep_lookup_ctx *ctx, obj override)
+{
+	if (!ctx->versions->set || get_obj_type(wk, override) != obj_dependency) {
+		return true;
+	}
+
+	bool ver_match;
+	struct obj_dependency *dep = get_obj_dependency(wk, override);
+	return !dep->version
+	       || (version_compare(wk, ctx->versions->node, get_str(wk, dep->version),
+		ctx->versions->val, &ver_match) && ver_match);
+}
+
 static enum iteration_result
 check_dependency_override_iter(struct workspace *wk, void *_ctx, obj n)
 {
 	struct dep_lookup_ctx *ctx = _ctx;
+	obj override;
 
 	if (ctx->lib_mode != dep_lib_mode_shared) {
-		if (obj_dict_index(wk, wk->dep_overrides_static, n, ctx->res)) {
+		if (obj_dict_index(wk, wk->dep_overrides_static, n, &override)
+		    && override_version_matches(wk, ctx, override)) {
+			*ctx->res = override;
 			ctx->lib_mode = dep_lib_mode_static;
 			ctx->found = true;
 			return ir_done;
@@ -84,7 +101,9 @@ check_dependency_override_iter(struct workspace *wk, void *_ctx, obj n)
 	}
 
 	if (ctx->lib_mode != dep_lib_mode_static) {
-		if (obj_dict_index(wk, wk->dep_overrides_dynamic, n, ctx->res)) {
+		if (obj_dict_index(wk, wk->dep_overrides_dynamic, n, &override)
+		    && override_version_matches(wk, ctx, override)) {
+			*ctx->res = override;
 			ctx->lib_mode = dep_lib_mode_shared;
 			ctx->found = true;
 			return ir_done;
-- 
2.43.0


From 1eebcea6d0b0ecd8172eccbac51500e17a37e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 004/117] fix: an empty list of version constraints is
 satisfied

---
 src/functions/string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index 45e1039..97a27c3 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -338,6 +338,7 @@ bool
 version_compare(struct workspace *wk, uint32_t err_node, const struct str *ver, obj cmp_arr, bool *res)
 {
 	struct version_compare_ctx ctx = {
+		.res = true,
 		.err_node = err_node,
 		.ver1 = ver,
 	};
-- 
2.43.0


From 63e357bda0bde86598c65d98bdc716e3f166b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:15 +0000
Subject: [PATCH 005/117] fix: do not truncate pkg-config versions to 32
 characters

---
 include/external/libpkgconf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/external/libpkgconf.h b/include/external/libpkgconf.h
index 323e956..ab52fb2 100644
--- a/include/external/libpkgconf.h
+++ b/include/external/libpkgconf.h
@@ -8,7 +8,7 @@
 
 #include "lang/workspace.h"
 
-#define MAX_VERSION_LEN 32
+#define MAX_VERSION_LEN 255
 
 struct pkgconf_info {
 	char version[MAX_VERSION_LEN + 1];
-- 
2.43.0


From 55f834980125f546c9c6a368375fa1ff8618e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:26 +0000
Subject: [PATCH 006/117] fix: reject negative indices beyond the start

Only the upper bound was checked, so [1][-5] read outside of the list.
---
 src/lang/interpreter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 1480208..10eea6d 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -67,7 +67,7 @@ bounds_adjust(struct workspace *wk, uint32_t len, int64_t *i)
 		*i += len;
 	}
 
-	return *i < len;
+	return *i >= 0 && *i < len;
 }
 
 bool
-- 
2.43.0


From f7e4dba738e805c7b65fb8621553cc3cd1bb4951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 007/117] fix: *, / and % have the same precedence and
 associate to the left

Each arithmetic operator had a level of precedence of its own, so 8 * 3 / 2
was 8 * (3 / 2) and 7 % 3 * 2 was 7 % (3 * 2).
---
 src/lang/parser.c | 57 ++++++++++++++++++++++-------------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index 78bfe6c..661bb1f 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -937,60 +937,57 @@ parse_e6(struct parser *p, uint32_t *id)
 	return true;
 }
 
-static bool parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type);
-
-static bool
-parse_arith_upper(struct parser *p, uint32_t *id, enum arithmetic_type type)
-{
-	if (type == arith_div) {
-		return parse_e6(p, id);
-	} else {
-		return parse_arith(p, id, type + 1);
-	}
-}
-
 static bool
-parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type)
+parse_arith(struct parser *p, uint32_t *id, bool multiplicative)
 {
+	/* + and - share one level of precedence, %, *, and / the next one, and
+	 * all of them associate to the left */
 	const struct {
 		enum token_type tok;
+		enum arithmetic_type type;
+		bool multiplicative;
 	} op_map[] = {
-		[arith_add] = { tok_plus,   },
-		[arith_sub] = { tok_minus,  },
-		[arith_mod] = { tok_modulo, },
-		[arith_mul] = { tok_star,   },
-		[arith_div] = { tok_slash,  },
+		{ tok_plus,   arith_add, false, },
+		{ tok_minus,  arith_sub, false, },
+		{ tok_modulo, arith_mod, true,  },
+		{ tok_star,   arith_mul, true,  },
+		{ tok_slash,  arith_div, true,  },
 	};
 
 	struct node *n;
 
-	uint32_t l_id, r_id;
+	uint32_t i, l_id, r_id;
 
-	if (!(parse_arith_upper(p, &l_id, type))) {
+	if (!(multiplicative ? parse_e6(p, &l_id) : parse_arith(p, &l_id, true))) {
 		return false;
 	}
 
-	struct token *op_tok = NULL;
+	while (true) {
+		struct token *op_tok = NULL;
 
-	enum token_type tok = op_map[type].tok;
+		for (i = 0; i < ARRAY_LEN(op_map); ++i) {
+			if (op_map[i].multiplicative == multiplicative && accept(p, op_map[i].tok)) {
+				op_tok = p->last_last;
+				break;
+			}
+		}
 
-	while (accept(p, tok)) {
-		op_tok = p->last_last;
+		if (!op_tok) {
+			break;
+		}
 
-		if (!(parse_arith_upper(p, &r_id, type))) {
+		if (!(multiplicative ? parse_e6(p, &r_id) : parse_arith(p, &r_id, true))) {
 			return false;
 		}
 
-		if (op_tok) {
-			p->last_last = op_tok;
-		}
+		p->last_last = op_tok;
 		if (!check_binary_operands(p, l_id, r_id, op_tok)) {
 			return false;
 		}
 
 		uint32_t new_l;
 		n = make_node(p, &new_l, node_arithmetic);
-		n->subtype = type;
+		n->subtype = op_map[i].type;
 		add_child(p, new_l, node_child_l, l_id);
 		add_child(p, new_l, node_child_r, r_id);
 
@@ -1004,7 +1001,7 @@ parse_arith(struct parser *p, uint32_t *id, enum arithmetic_type type)
 static bool
 parse_e5(struct parser *p, uint32_t *id)
 {
-	return parse_arith(p, id, arith_add);
+	return parse_arith(p, id, false);
 }
 
 static bool
-- 
2.43.0


From 4f688074a36bfb6e0f2adab3431fa71421719e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 008/117] fix: an @ in an f-string that is not closed is
 literal

The character checked for the closing @ was the opening one, so f'@a' was an
unterminated string and f'@a b@' was misread.
---
 src/lang/lexer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index d7ba6bb..15b3025 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -574,7 +574,7 @@ lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fs
 				}
 			}
 
-			if (lexer->src[lexer->i] == '@') {
+			if (lexer->src[lexer->i + i] == '@') {
 				match = true;
 			}
 		}
-- 
2.43.0


From 53fe40a0c7ec1df7705009216fe6db43959f6dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:55 +0000
Subject: [PATCH 009/117] fix: an f-string is a single operand

f'a@x@b'.to_upper() was 'a' + x + 'b'.to_upper().
---
 src/lang/lexer.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 15b3025..7af380d 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -402,7 +402,7 @@ write_utf8(struct lexer *l, struct token *tok, char *str, uint32_t val)
 }
 
 static enum lex_result
-lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fstring, char **string, uint32_t *quotes)
+lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fstring, char **string, uint32_t *quotes, bool *interpolated)
 {
 	bool done = false;
 	struct token *token = *tok;
@@ -586,8 +586,17 @@ lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fs
 		}
 
 		advance(lexer);
+		str[token->n] = 0;
 		lexer->data_i += token->n + 1;
 
+		if (!*interpolated) {
+			// the concatenation is a single operand
+			struct token first = *token;
+			token->type = tok_lparen;
+			*next_tok(lexer) = first;
+			*interpolated = true;
+		}
+
 		next_tok(lexer)->type = tok_plus;
 
 		next_tok(lexer)->type = tok_stringify;
@@ -624,7 +633,7 @@ lex_string_char(struct lexer *lexer, struct token **tok, bool multiline, bool fs
 static enum lex_result
 lex_string(struct lexer *lexer, struct token *token, bool fstring)
 {
-	bool multiline;
+	bool multiline, interpolated = false;
 	uint32_t quotes = 0;
 	uint32_t start = lexer->i, data_start = lexer->data_i;
 
@@ -650,7 +659,7 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 	bool loop = true;
 	enum lex_result ret = lex_cont;
 	while (loop) {
-		switch (lex_string_char(lexer, &token, multiline, fstring, &str, &quotes)) {
+		switch (lex_string_char(lexer, &token, multiline, fstring, &str, &quotes, &interpolated)) {
 		case lex_cont:
 			break;
 		case lex_done:
@@ -685,6 +694,10 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 
 	lexer->data_i += token->n + 1;
 
+	if (interpolated) {
+		next_tok(lexer)->type = tok_rparen;
+	}
+
 	if (lexer->mode & lexer_mode_format) {
 		lexer->data_i = data_start;
 		copy_into_sdata(lexer, token, start, lexer->i);
-- 
2.43.0


From b40553eea20afee9a199e08c23694acb5b29371c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 010/117] fix: += must not modify the value other variables
 hold

+= extended the list or merged into the dictionary in place, which changed
it inside of every container it was part of, and made a loop appending to the
list it iterates over never end.
---
 include/lang/interpreter.h |  2 +-
 src/lang/analyze.c         |  8 ++++----
 src/lang/interpreter.c     | 19 +++++--------------
 3 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/include/lang/interpreter.h b/include/lang/interpreter.h
index 7b797d9..53cb58d 100644
--- a/include/lang/interpreter.h
+++ b/include/lang/interpreter.h
@@ -18,7 +18,7 @@
 
 bool interp_node(struct workspace *wk, uint32_t n_id, obj *res);
 bool interp_arithmetic(struct workspace *wk, uint32_t err_node,
-	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
+	enum arithmetic_type type, uint32_t nl, uint32_t nr,
 	obj *res);
 bool interp_index(struct workspace *wk, struct node *n, obj l_id, bool do_chain, obj *res);
 bool interp_stringify(struct workspace *wk, struct node *n, obj *res);
diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 8156d02..cad6dc2 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1085,7 +1085,7 @@ analyze_arithmetic_cb(struct workspace *wk, struct analyze_ctx *ctx, uint32_t n_
 
 static bool
 analyze_arithmetic(struct workspace *wk, uint32_t err_node,
-	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
+	enum arithmetic_type type, uint32_t nl, uint32_t nr,
 	obj *res)
 {
 	bool ret = true;
@@ -1099,7 +1099,7 @@ analyze_arithmetic(struct workspace *wk, uint32_t err_node,
 	}
 
 	if (is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
-		return interp_arithmetic(wk, err_node, type, plusassign, nl, nr, res);
+		return interp_arithmetic(wk, err_node, type, nl, nr, res);
 	}
 
 	struct analyze_ctx ctx = { 0 };
@@ -1558,7 +1558,7 @@ analyze_plusassign(struct workspace *wk, uint32_t n_id, obj *_)
 	struct node *n = get_node(wk->ast, n_id);
 
 	obj rhs;
-	if (!analyze_arithmetic(wk, n_id, arith_add, true, n->l, n->r, &rhs)) {
+	if (!analyze_arithmetic(wk, n_id, arith_add, n->l, n->r, &rhs)) {
 		return false;
 	}
 
@@ -1693,7 +1693,7 @@ analyze_node(struct workspace *wk, uint32_t n_id, obj *res)
 		ret = analyze_u_minus(wk, n, res);
 		break;
 	case node_arithmetic:
-		ret = analyze_arithmetic(wk, n_id, n->subtype, false, n->l, n->r, res);
+		ret = analyze_arithmetic(wk, n_id, n->subtype, n->l, n->r, res);
 		break;
 	case node_plusassign:
 		ret = analyze_plusassign(wk, n_id, res);
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 10eea6d..ba382ee 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -389,7 +389,7 @@ interp_u_minus(struct workspace *wk, struct node *n, obj *res)
 
 bool
 interp_arithmetic(struct workspace *wk, uint32_t err_node,
-	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
+	enum arithmetic_type type, uint32_t nl, uint32_t nr,
 	obj *res)
 {
 	obj l_id, r_id;
@@ -488,11 +488,7 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 	case obj_array: {
 		switch (type) {
 		case arith_add:
-			if (plusassign) {
-				*res = l_id;
-			} else {
-				obj_array_dup(wk, l_id, res);
-			}
+			obj_array_dup(wk, l_id, res);
 
 			if (get_obj_type(wk, r_id) == obj_array) {
 				obj_array_extend(wk, *res, r_id);
@@ -511,12 +507,7 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 			goto err1;
 		}
 
-		if (plusassign) {
-			obj_dict_merge_nodup(wk, l_id, r_id);
-			*res = l_id;
-		} else {
-			obj_dict_merge(wk, l_id, r_id, res);
-		}
+		obj_dict_merge(wk, l_id, r_id, res);
 
 		break;
 	}
@@ -581,7 +572,7 @@ interp_plusassign(struct workspace *wk, uint32_t n_id, obj *_)
 	struct node *n = get_node(wk->ast, n_id);
 
 	obj rhs;
-	if (!interp_arithmetic(wk, n_id, arith_add, true, n->l, n->r, &rhs)) {
+	if (!interp_arithmetic(wk, n_id, arith_add, n->l, n->r, &rhs)) {
 		return false;
 	}
 
@@ -1316,7 +1307,7 @@ interp_block:
 		ret = interp_u_minus(wk, n, res);
 		break;
 	case node_arithmetic:
-		ret = interp_arithmetic(wk, n_id, n->subtype, false, n->l, n->r, res);
+		ret = interp_arithmetic(wk, n_id, n->subtype, n->l, n->r, res);
 		break;
 	case node_plusassign:
 		ret = interp_plusassign(wk, n_id, res);
-- 
2.43.0


From a778572c7904af4e04dd8da7ea5f781591ae2723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:47 +0000
Subject: [PATCH 011/117] fix: no undefined behaviour in integer arithmetic

-9223372036854775808 / -1 was a SIGFPE.
---
 src/lang/interpreter.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index ba382ee..d3019a1 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -383,7 +383,7 @@ interp_u_minus(struct workspace *wk, struct node *n, obj *res)
 	}
 
 	make_obj(wk, res, obj_number);
-	set_obj_number(wk, *res, -get_obj_number(wk, l_id));
+	set_obj_number(wk, *res, -(uint64_t)get_obj_number(wk, l_id));
 	return true;
 }
 
@@ -452,29 +452,30 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 		l = get_obj_number(wk, l_id);
 		r = get_obj_number(wk, r_id);
 
+		// avoid undefined behaviour when the result does not fit
 		switch (type) {
 		case arith_add:
-			num = l + r;
+			num = (uint64_t)l + (uint64_t)r;
 			break;
 		case arith_div:
 			if (!r) {
 				interp_error(wk, nr, "divide by 0");
 				return false;
 			}
-			num = l / r;
+			num = r == -1 ? (int64_t)(-(uint64_t)l) : l / r;
 			break;
 		case arith_sub:
-			num = l - r;
+			num = (uint64_t)l - (uint64_t)r;
 			break;
 		case arith_mod:
 			if (!r) {
 				interp_error(wk, nr, "divide by 0");
 				return false;
 			}
-			num = l % r;
+			num = r == -1 ? 0 : l % r;
 			break;
 		case arith_mul:
-			num = l * r;
+			num = (uint64_t)l * (uint64_t)r;
 			break;
 		default:
 			assert(false);
-- 
2.43.0


From 9b82a924f60a67936f3f1d57c807befa90094374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 012/117] fix: a range close to its upper limit ends

The 32 bit counter wrapped around before it reached the end of the range.
---
 src/functions/kernel.c | 2 +-
 src/lang/interpreter.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 4192eec..e14129e 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1910,7 +1910,7 @@ func_range(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	make_obj(wk, res, obj_array);
 
-	uint32_t i;
+	uint64_t i;
 	for (i = params.start; i < params.stop; i += params.step) {
 		obj num;
 		make_obj(wk, &num, obj_number);
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index d3019a1..79f2b57 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -997,7 +997,7 @@ interp_foreach(struct workspace *wk, struct node *n, obj *res)
 
 			++wk->loop_depth;
 			wk->loop_ctl = loop_norm;
-			uint32_t i;
+			uint64_t i;
 			bool break_out_of_loop = false;
 			ret = true;
 			for (i = range_params.start; i < range_params.stop; i += range_params.step) {
-- 
2.43.0


From f95ce6ced0ca72e95cb14f40831639c5048a25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 013/117] fix: substring() with positions outside of the string

'abc'.substring(5) read past the end and 'abc'.substring(-5, 2) returned more
than the first two characters.
---
 src/functions/string.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index 97a27c3..f4d5d0d 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -447,11 +447,10 @@ func_string_substring(struct workspace *wk, obj rcvr, uint32_t args_node, obj *r
 		end = s->len + end;
 	}
 
-	if (end < start) {
-		end = start;
-	}
+	start = MIN(MAX(0, start), (int64_t)s->len);
+	end = MIN(MAX(start, end), (int64_t)s->len);
 
-	*res = make_strn(wk, &s->s[MAX(0, start)], MIN(end - start, s->len));
+	*res = make_strn(wk, &s->s[start], end - start);
 	return true;
 }
 
-- 
2.43.0


From c59e179157ca1cbc5a7c594c8d7c0fba507a01ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 014/117] fix: replacing the empty string does not loop forever

---
 src/functions/string.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index f4d5d0d..528fe2d 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -473,6 +473,17 @@ func_string_replace(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	*res = make_str(wk, "");
 
 	uint32_t i;
+
+	if (!find->len) {
+		// the empty string is found in front of each character and at the end
+		for (i = 0; i < s->len; ++i) {
+			str_appn(wk, res, replace->s, replace->len);
+			str_appn(wk, res, &s->s[i], 1);
+		}
+		str_appn(wk, res, replace->s, replace->len);
+		return true;
+	}
+
 	for (i = 0; i < s->len; ++i) {
 		tmp = (struct str) {
 			.s = &s->s[i],
-- 
2.43.0


From b185c3e1892b2699f83d21d1d94331beb5333fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 015/117] fix: the empty string contains the empty string

---
 src/functions/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/string.c b/src/functions/string.c
index 528fe2d..75e8287 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -520,7 +520,7 @@ func_string_contains(struct workspace *wk, obj rcvr, uint32_t args_node, obj *re
 	const struct str *find = get_str(wk, an[0].val);
 	struct str tmp;
 
-	bool found = false;
+	bool found = !find->len;
 	uint32_t i;
 	for (i = 0; i < s->len; ++i) {
 		tmp = (struct str) {
-- 
2.43.0


From dc3bf31d8112e8409be9982f191e191129ad36ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 016/117] fix: splitting on the empty string is an error
 instead of an endless loop

---
 src/functions/string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index 75e8287..6a9b151 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -247,6 +247,11 @@ func_split(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res)
 	const struct str *split = ao[0].set ? get_str(wk, ao[0].val) : NULL,
 			 *ss = get_str(wk, rcvr);
 
+	if (split && !split->len) {
+		interp_error(wk, ao[0].node, "empty separator");
+		return false;
+	}
+
 	*res = str_split(wk, ss, split);
 	return true;
 }
-- 
2.43.0


From 86e7449682599faffeed891946e08452b145310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:48 +0000
Subject: [PATCH 017/117] fix: to_int() refuses empty and out of range strings

''.to_int() was 0, and numbers that do not fit were silently clamped.
---
 src/lang/string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 1059736..b3e2502 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -5,6 +5,7 @@
 
 #include "compat.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -403,7 +404,12 @@ str_to_i(const struct str *ss, int64_t *res, bool strip)
 		}
 	}
 
-	*res = strtol(start, &endptr, 10);
+	errno = 0;
+	*res = strtoll(start, &endptr, 10);
+
+	if (endptr == start || errno == ERANGE) {
+		return false;
+	}
 
 	if (strip) {
 		while (is_whitespace(*endptr)) {
-- 
2.43.0


From 752972e72d0f9b28f4574bcb1e70d589379fdb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:40 +0000
Subject: [PATCH 018/117] fix: += on a captured list or dict is visible outside
 of the function again

Restores sharing for variables captured by a function, where a module relies on
it; everywhere else += still makes a new value.
---
 include/lang/interpreter.h |  2 +-
 src/lang/analyze.c         |  8 ++++----
 src/lang/interpreter.c     | 31 ++++++++++++++++++++++++-------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/lang/interpreter.h b/include/lang/interpreter.h
index 53cb58d..7b797d9 100644
--- a/include/lang/interpreter.h
+++ b/include/lang/interpreter.h
@@ -18,7 +18,7 @@
 
 bool interp_node(struct workspace *wk, uint32_t n_id, obj *res);
 bool interp_arithmetic(struct workspace *wk, uint32_t err_node,
-	enum arithmetic_type type, uint32_t nl, uint32_t nr,
+	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
 	obj *res);
 bool interp_index(struct workspace *wk, struct node *n, obj l_id, bool do_chain, obj *res);
 bool interp_stringify(struct workspace *wk, struct node *n, obj *res);
diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index cad6dc2..81d4683 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1085,7 +1085,7 @@ analyze_arithmetic_cb(struct workspace *wk, struct analyze_ctx *ctx, uint32_t n_
 
 static bool
 analyze_arithmetic(struct workspace *wk, uint32_t err_node,
-	enum arithmetic_type type, uint32_t nl, uint32_t nr,
+	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
 	obj *res)
 {
 	bool ret = true;
@@ -1099,7 +1099,7 @@ analyze_arithmetic(struct workspace *wk, uint32_t err_node,
 	}
 
 	if (is_pure_arithmetic_object(wk, l) && is_pure_arithmetic_object(wk, r)) {
-		return interp_arithmetic(wk, err_node, type, nl, nr, res);
+		return interp_arithmetic(wk, err_node, type, plusassign, nl, nr, res);
 	}
 
 	struct analyze_ctx ctx = { 0 };
@@ -1558,7 +1558,7 @@ analyze_plusassign(struct workspace *wk, uint32_t n_id, obj *_)
 	struct node *n = get_node(wk->ast, n_id);
 
 	obj rhs;
-	if (!analyze_arithmetic(wk, n_id, arith_add, n->l, n->r, &rhs)) {
+	if (!analyze_arithmetic(wk, n_id, arith_add, false, n->l, n->r, &rhs)) {
 		return false;
 	}
 
@@ -1693,7 +1693,7 @@ analyze_node(struct workspace *wk, uint32_t n_id, obj *res)
 		ret = analyze_u_minus(wk, n, res);
 		break;
 	case node_arithmetic:
-		ret = analyze_arithmetic(wk, n_id, n->subtype, n->l, n->r, res);
+		ret = analyze_arithmetic(wk, n_id, n->subtype, false, n->l, n->r, res);
 		break;
 	case node_plusassign:
 		ret = analyze_plusassign(wk, n_id, res);
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 79f2b57..2646fb8 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -389,7 +389,7 @@ interp_u_minus(struct workspace *wk, struct node *n, obj *res)
 
 bool
 interp_arithmetic(struct workspace *wk, uint32_t err_node,
-	enum arithmetic_type type, uint32_t nl, uint32_t nr,
+	enum arithmetic_type type, bool plusassign, uint32_t nl, uint32_t nr,
 	obj *res)
 {
 	obj l_id, r_id;
@@ -489,7 +489,11 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 	case obj_array: {
 		switch (type) {
 		case arith_add:
-			obj_array_dup(wk, l_id, res);
+			if (plusassign) {
+				*res = l_id;
+			} else {
+				obj_array_dup(wk, l_id, res);
+			}
 
 			if (get_obj_type(wk, r_id) == obj_array) {
 				obj_array_extend(wk, *res, r_id);
@@ -508,7 +512,12 @@ interp_arithmetic(struct workspace *wk, uint32_t err_node,
 			goto err1;
 		}
 
-		obj_dict_merge(wk, l_id, r_id, res);
+		if (plusassign) {
+			obj_dict_merge_nodup(wk, l_id, r_id);
+			*res = l_id;
+		} else {
+			obj_dict_merge(wk, l_id, r_id, res);
+		}
 
 		break;
 	}
@@ -572,12 +581,20 @@ interp_plusassign(struct workspace *wk, uint32_t n_id, obj *_)
 {
 	struct node *n = get_node(wk->ast, n_id);
 
-	obj rhs;
-	if (!interp_arithmetic(wk, n_id, arith_add, n->l, n->r, &rhs)) {
+	obj rhs, scope;
+	const char *name = get_node(wk->ast, n->l)->dat.s;
+
+	/* The scopes a function has captured are private copies, sharing a
+	 * captured list or dict is what makes a change visible outside of it.
+	 * Any other value must not change, it may be part of another one. */
+	bool captured = get_local_variable(wk, name, current_project(wk), &rhs, &scope)
+			&& scope != obj_array_get_tail(wk, current_project(wk)->scope_stack);
+
+	if (!interp_arithmetic(wk, n_id, arith_add, captured, n->l, n->r, &rhs)) {
 		return false;
 	}
 
-	wk->assign_variable(wk, get_node(wk->ast, n->l)->dat.s, rhs, 0, assign_reassign);
+	wk->assign_variable(wk, name, rhs, 0, assign_reassign);
 	return true;
 }
 
@@ -1308,7 +1325,7 @@ interp_block:
 		ret = interp_u_minus(wk, n, res);
 		break;
 	case node_arithmetic:
-		ret = interp_arithmetic(wk, n_id, n->subtype, n->l, n->r, res);
+		ret = interp_arithmetic(wk, n_id, n->subtype, false, n->l, n->r, res);
 		break;
 	case node_plusassign:
 		ret = interp_plusassign(wk, n_id, res);
-- 
2.43.0


From fdf0251e13573acb1e3533be6639d1567b849475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 019/117] fix: leave the loop subdir_done() or return is called
 in

---
 src/lang/interpreter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 2646fb8..6a80613 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -953,6 +953,10 @@ interp_foreach_common(struct workspace *wk, struct interp_foreach_ctx *ctx)
 		return ir_err;
 	}
 
+	if (wk->subdir_done || wk->returning) {
+		return ir_done;
+	}
+
 	switch (wk->loop_ctl) {
 	case loop_continuing:
 		wk->loop_ctl = loop_norm;
-- 
2.43.0


From ccd676365346c08945b31bcb8d2ffb615d8a33d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 020/117] fix: strings of exactly 4095 characters do not abort

---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index b3e2502..1f8b3e8 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -78,7 +78,7 @@ reserve_str(struct workspace *wk, obj *s, uint32_t len)
 
 	uint32_t new_len = len + 1;
 
-	if (new_len > wk->chrs.bucket_size) {
+	if (new_len >= wk->chrs.bucket_size) {
 		f |= str_flag_big;
 		p = z_calloc(new_len, 1);
 	} else {
-- 
2.43.0


From d4f1d61f806df2ed50cea06e951aeccaf128022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 021/117] fix: print characters that are not ASCII as they are

---
 src/lang/string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/string.c b/src/lang/string.c
index 1f8b3e8..31da175 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -24,7 +24,7 @@ str_unescape(struct workspace *wk, struct sbuf *sb, const struct str *ss,
 	uint32_t i;
 
 	for (i = 0; i < ss->len; ++i) {
-		esc = ss->s[i] < 32;
+		esc = (unsigned char)ss->s[i] < 32;
 		if (!escape_whitespace && strchr("\t\n\r", ss->s[i])) {
 			esc = false;
 		}
-- 
2.43.0


From 77cd4f3289178afb7fac16488332f629d0a491cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 022/117] fix: only @ digits @ is a placeholder of format()

---
 src/functions/string.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/functions/string.c b/src/functions/string.c
index 6a9b151..cfe04c4 100644
--- a/src/functions/string.c
+++ b/src/functions/string.c
@@ -177,6 +177,13 @@ func_format_cb(struct workspace *wk, uint32_t node, void *_ctx, const struct str
 	struct func_format_ctx *ctx = _ctx;
 	int64_t i;
 
+	// only digits, str_to_i would also take white space and a sign
+	for (i = 0; i < key->len; ++i) {
+		if (!('0' <= key->s[i] && key->s[i] <= '9')) {
+			return format_cb_skip;
+		}
+	}
+
 	if (!str_to_i(key, &i, false)) {
 		return format_cb_skip;
 	}
-- 
2.43.0


From c3ede905c592fd0b9846017dd2957f0fcd17352f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 023/117] fix: fmt keeps a comment at the very end of the file

---
 src/lang/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index 661bb1f..5c34e90 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -1378,7 +1378,8 @@ parse_line(struct parser *p, uint32_t *id)
 		}
 
 		if (p->last->type == tok_eol ||
-		    (next && p->last->type == tok_comment && next->type == tok_eol)) {
+		    (next && p->last->type == tok_comment
+		     && (next->type == tok_eol || next->type == tok_eof))) {
 			make_node(p, id, node_empty_line);
 			return true;
 		}
-- 
2.43.0


From 85c5c725be8a86106e7949c4ae9673a5c1f3b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:19 +0000
Subject: [PATCH 024/117] fix: fmt keeps comments after else, endif, endforeach
 and commas in their place

---
 src/lang/fmt.c    |  1 +
 src/lang/parser.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 2 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index cfe3cfc..f0d3e0f 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -688,6 +688,7 @@ fmt_if(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_id, bool fi
 		fmt_check(ctx, &fst, fmt_node_wrapped, n->l);
 	} else {
 		fmt_writes(ctx, &fst, "else");
+		fmt_comments(ctx, &fst, n_id, true);
 	}
 
 	struct node *block = get_node(ctx->ast, n->r);
diff --git a/src/lang/parser.c b/src/lang/parser.c
index 5c34e90..aae60cf 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -457,6 +457,31 @@ enum parse_list_mode {
 	parse_list_mode_types = 1 << 4,
 };
 
+/* the node that is written last when the expression id is formatted */
+static uint32_t
+comment_node(struct parser *p, uint32_t id)
+{
+	struct node *n = get_node(p->ast, id);
+
+	switch (n->type) {
+	case node_array:
+	case node_dict:
+		return n->l;
+	case node_paren:
+		return n->r;
+	case node_function:
+	case node_method:
+	case node_index:
+		while (n->chflg & node_child_d) {
+			id = n->d;
+			n = get_node(p->ast, id);
+		}
+		return id;
+	default:
+		return id;
+	}
+}
+
 static bool
 parse_list_recurse(struct parser *p, uint32_t *id, enum parse_list_mode mode)
 {
@@ -533,6 +558,10 @@ parse_list_recurse(struct parser *p, uint32_t *id, enum parse_list_mode mode)
 			mode = parse_list_mode_tail;
 		}
 
+		if (p->mode & pm_keep_formatting) {
+			accept_comment_for(p, comment_node(p, at == arg_kwarg ? v_id : s_id));
+		}
+
 		if ((p->mode & pm_keep_formatting)) {
 			accept(p, tok_fmt_eol);
 		}
@@ -1250,10 +1279,20 @@ parse_if(struct parser *p, uint32_t *id, enum if_type if_type)
 		}
 	}
 
+	if (if_type == if_else) {
+		make_node(p, id, node_if);
+		accept_comment_for(p, *id);
+	}
+
 	if (!expect(p, tok_eol)) {
 		return false;
 	}
 
+	if (if_type != if_else) {
+		make_node(p, id, node_if);
+	}
+	get_node(p->ast, *id)->subtype = if_type;
+
 	if (!parse_block(p, &block_id)) {
 		return false;
 	}
@@ -1274,9 +1313,6 @@ parse_if(struct parser *p, uint32_t *id, enum if_type if_type)
 		}
 	}
 
-	struct node *n = make_node(p, id, node_if);
-	n->subtype = if_type;
-
 	if (if_type == if_if || if_type == if_elseif) {
 		add_child(p, *id, node_child_l, cond_id);
 	}
@@ -1416,6 +1452,8 @@ parse_line(struct parser *p, uint32_t *id)
 		if (!expect(p, tok_endif)) {
 			return false;
 		}
+
+		accept_comment_for(p, *id);
 	} else if (accept(p, tok_foreach)) {
 		if (!parse_foreach(p, id)) {
 			ret = false;
@@ -1425,6 +1463,8 @@ parse_line(struct parser *p, uint32_t *id)
 		if (!expect(p, tok_endforeach)) {
 			return false;
 		}
+
+		accept_comment_for(p, *id);
 	} else if ((p->mode & pm_functions) && accept(p, tok_return)) {
 		p->caused_effect = true;
 
-- 
2.43.0


From 988b450aa9f1ae58ec884a4e3be31ca962339e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:56 +0000
Subject: [PATCH 025/117] fix: fmt counts the spaces inside of brackets in the
 line length

---
 src/lang/fmt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index f0d3e0f..bbe0aab 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -391,7 +391,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 	++ctx->enclosed;
 	fmt_begin_block(ctx);
 	if (pfst->arg_container[0] == '[' && ctx->space_array) {
-		fmt_newline_or_space(ctx, &fst, n_args);
+		len += fmt_newline_or_space(ctx, &fst, n_args);
 	} else {
 		fmt_newline(ctx, &fst, n_args);
 	}
@@ -517,7 +517,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 	--ctx->enclosed;
 	fmt_end_block(ctx);
 	if (pfst->arg_container[1] == ']' && ctx->space_array) {
-		fmt_newline_or_space(ctx, &fst, 0);
+		len += fmt_newline_or_space(ctx, &fst, 0);
 	}else {
 		fmt_newline(ctx, &fst, 0);
 	}
-- 
2.43.0


From fcdc653665c5686bc42eb97d6aebedc683a9c901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:42 +0000
Subject: [PATCH 026/117] fix: fmt keeps an empty line after an option in a
 command

---
 src/lang/fmt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index bbe0aab..3232a1d 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -502,6 +502,7 @@ fmt_args(struct fmt_ctx *ctx, const struct fmt_stack *pfst, uint32_t n_args)
 		if (!last) {
 			if ((pfst->special_fmt & special_fmt_cmd_array)
 			    && fmt_str_startwith(ctx, ae->val, "-")
+			    && get_node(ctx->ast, ae->next)->type != node_empty_line
 			    && !fmt_str_startwith(ctx, ae->next, "-")) {
 				len += fmt_write(ctx, &fst, ' ');
 			} else {
-- 
2.43.0


From ba4fd6ebf79ca05534dfe6206e38ad39ce471f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 027/117] fix: ini and key-value files are read within their
 bounds

---
 src/formats/ini.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/formats/ini.c b/src/formats/ini.c
index 714235a..11fa7cb 100644
--- a/src/formats/ini.c
+++ b/src/formats/ini.c
@@ -75,21 +75,20 @@ ini_parse_line_cb(void *_ctx, char *line, size_t len)
 	*ptr = '\0';
 
 	key = line;
-	val = ptr - 1;
-	while (is_whitespace(*val)) {
-		*val = '\0';
-		--val;
+	val = ptr + 1;
+	while (ptr > key && is_whitespace(*(ptr - 1))) {
+		--ptr;
+		*ptr = '\0';
 	}
 
-	val = ptr + 1;
 	while (is_whitespace(*val)) {
 		++val;
 	}
 
-	char *val_end = val + strlen(val) - 1;
-	while (is_whitespace(*val_end)) {
-		*val_end = '\0';
+	char *val_end = val + strlen(val);
+	while (val_end > val && is_whitespace(*(val_end - 1))) {
 		--val_end;
+		*val_end = '\0';
 	}
 
 	if (!ctx->cb(ctx->octx, &ctx->src, ctx->sect, key, val, ctx->line)) {
@@ -131,7 +130,7 @@ ini_parse(const char *path, struct source *src, char **buf, inihcb cb, void *oct
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	return ini_reparse(path, src, *buf, cb, octx);
 }
@@ -143,7 +142,7 @@ keyval_parse(const char *path, struct source *src, char **buf, inihcb cb, void *
 		return false;
 	}
 
-	*buf = z_calloc(src->len, 1);
+	*buf = z_calloc(src->len + 1, 1);
 
 	struct ini_parse_ctx ctx = {
 		.comment_chars = "#",
-- 
2.43.0


From f5d95a381e004e8a248cc7e857518ecfdf11e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 028/117] fix: the lexer's string storage is large enough for
 one-byte tokens

---
 src/lang/lexer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 7af380d..0e33b51 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -956,7 +956,8 @@ lexer_lex(struct tokens *toks, struct source_data *sdata, struct source *src,
 	arr_init(&toks->tok, 2048, sizeof(struct token));
 
 	// TODO: this could be done much more conservatively
-	sdata->data_len = src->len + 1;
+	// each byte may become a token of its own, which is null terminated
+	sdata->data_len = src->len * 2 + 2;
 	sdata->data = z_malloc(sdata->data_len);
 
 	bool ret = tokenize(&lexer);
-- 
2.43.0


From 00d6e5e7df1c9e34a956eadf19c91cfd6685837f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:37 +0000
Subject: [PATCH 029/117] fix: a damaged serial dump is refused (checksum)

---
 src/lang/serial.c | 133 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 92 insertions(+), 41 deletions(-)

diff --git a/src/lang/serial.c b/src/lang/serial.c
index db7e4a8..e1f9ba0 100644
--- a/src/lang/serial.c
+++ b/src/lang/serial.c
@@ -18,7 +18,7 @@
 
 #define SERIAL_MAGIC_LEN 8
 static const char serial_magic[SERIAL_MAGIC_LEN] = "muondump";
-static const uint32_t serial_version = 7;
+static const uint32_t serial_version = 8;
 
 static bool
 corrupted_dump(void)
@@ -28,16 +28,44 @@ corrupted_dump(void)
 }
 
 
+/* a dump ends with a checksum of everything before it (64 bit FNV-1a) */
+static const uint64_t serial_checksum_init = 0xcbf29ce484222325ull;
+
+struct serial_out {
+	FILE *f;
+	uint64_t checksum;
+};
+
+static uint64_t
+serial_checksum(uint64_t checksum, const void *data, size_t len)
+{
+	const uint8_t *bytes = data;
+	size_t i;
+
+	for (i = 0; i < len; ++i) {
+		checksum = (checksum ^ bytes[i]) * 0x100000001b3ull;
+	}
+
+	return checksum;
+}
+
+static bool
+dump_bytes(const void *data, size_t len, struct serial_out *f)
+{
+	f->checksum = serial_checksum(f->checksum, data, len);
+	return fs_fwrite(data, len, f->f);
+}
+
 static bool
-dump_uint32(uint32_t v, FILE *f)
+dump_uint32(uint32_t v, struct serial_out *f)
 {
-	return fs_fwrite(&v, sizeof(uint32_t), f);
+	return dump_bytes(&v, sizeof(uint32_t), f);
 }
 
 static bool
-dump_uint64(uint64_t v, FILE *f)
+dump_uint64(uint64_t v, struct serial_out *f)
 {
-	return fs_fwrite(&v, sizeof(uint64_t), f);
+	return dump_bytes(&v, sizeof(uint64_t), f);
 }
 
 static bool
@@ -53,7 +81,7 @@ load_uint64(uint64_t *v, FILE *f)
 }
 
 static bool
-dump_bucket_arr(const struct bucket_arr *ba, FILE *f)
+dump_bucket_arr(const struct bucket_arr *ba, struct serial_out *f)
 {
 	uint32_t i;
 
@@ -68,7 +96,7 @@ dump_bucket_arr(const struct bucket_arr *ba, FILE *f)
 			return false;
 		}
 
-		if (!fs_fwrite(b->mem, ba->item_size * b->len, f)) {
+		if (!dump_bytes(b->mem, ba->item_size * b->len, f)) {
 			return false;
 		}
 	}
@@ -121,9 +149,9 @@ done:
 }
 
 static bool
-dump_serial_header(FILE *f)
+dump_serial_header(struct serial_out *f)
 {
-	return fs_fwrite(serial_magic, SERIAL_MAGIC_LEN, f)
+	return dump_bytes(serial_magic, SERIAL_MAGIC_LEN, f)
 	       && dump_uint32(serial_version, f);
 }
 
@@ -155,46 +183,65 @@ load_serial_header(FILE *f)
 }
 
 static bool
-dump_big_strings(struct workspace *wk, struct arr *offsets, FILE *f)
+check_serial_checksum(FILE *f)
 {
-	uint64_t len = 0;
-	uint64_t start, end;
+	uint64_t start, size, checksum = serial_checksum_init, expected;
+	uint8_t buf[BUF_SIZE_4k];
 
-	// dump a placeholder at the start
-	if (!fs_ftell(f, &start)) {
+	if (!fs_ftell(f, &start) || !fs_fsize(f, &size)) {
 		return false;
-	} else if (!dump_uint64(0, f)) {
+	} else if (size < sizeof(uint64_t)) {
+		return corrupted_dump();
+	}
+
+	size -= sizeof(uint64_t);
+	while (size) {
+		size_t n = size < sizeof(buf) ? size : sizeof(buf);
+		if (!fs_fread(buf, n, f)) {
+			return false;
+		}
+
+		checksum = serial_checksum(checksum, buf, n);
+		size -= n;
+	}
+
+	if (!load_uint64(&expected, f)) {
 		return false;
+	} else if (checksum != expected) {
+		return corrupted_dump();
 	}
 
+	return fs_fseek(f, start);
+}
+
+static bool
+dump_big_strings(struct workspace *wk, struct arr *offsets, struct serial_out *f)
+{
+	uint64_t len = 0;
 	uint32_t i;
 	struct bucket_arr *str_ba = &wk->obj_aos[obj_string - _obj_aos_start];
+
 	for (i = 0; i < str_ba->len; ++i) {
 		struct str *ss = bucket_arr_get(str_ba, i);
 
-		if (!(ss->flags & str_flag_big)) {
-			continue;
-		}
-
-		if (!fs_fwrite(ss->s, ss->len + 1, f)) {
-			return false;
+		if (ss->flags & str_flag_big) {
+			arr_push(offsets, &len);
+			len += ss->len + 1;
 		}
-
-		arr_push(offsets, &len);
-		len += ss->len + 1;
 	}
 
-	// jump back to the beginning, write the length, and then return
-	if (!fs_ftell(f, &end)) {
-		return false;
-	} else if (!fs_fseek(f, start)) {
-		return false;
-	} else if (!dump_uint64(len, f)) {
-		return false;
-	} else if (!fs_fseek(f, end)) {
+	if (!dump_uint64(len, f)) {
 		return false;
 	}
 
+	for (i = 0; i < str_ba->len; ++i) {
+		struct str *ss = bucket_arr_get(str_ba, i);
+
+		if ((ss->flags & str_flag_big) && !dump_bytes(ss->s, ss->len + 1, f)) {
+			return false;
+		}
+	}
+
 	return true;
 }
 
@@ -258,7 +305,7 @@ get_big_string(struct workspace *wk, const struct big_string_table *bst, struct
 }
 
 static bool
-dump_objs(struct workspace *wk, struct arr *big_string_offsets, FILE *f)
+dump_objs(struct workspace *wk, struct arr *big_string_offsets, struct serial_out *f)
 {
 	if (!dump_uint32(wk->objs.len - 1, f)) {
 		return false;
@@ -281,7 +328,7 @@ dump_objs(struct workspace *wk, struct arr *big_string_offsets, FILE *f)
 		struct obj_internal *o = bucket_arr_get(&wk->objs, i);
 		type_tag = o->t;
 
-		if (!fs_fwrite(&type_tag, sizeof(uint8_t), f)) {
+		if (!dump_bytes(&type_tag, sizeof(uint8_t), f)) {
 			return false;
 		}
 
@@ -314,7 +361,7 @@ dump_objs(struct workspace *wk, struct arr *big_string_offsets, FILE *f)
 			len = ba->item_size;
 		}
 
-		if (!fs_fwrite(data, len, f)) {
+		if (!dump_bytes(data, len, f)) {
 			return false;
 		}
 	}
@@ -416,12 +463,15 @@ serial_dump(struct workspace *wk_src, obj o, FILE *f)
 
 	/* obj_fprintf(&wk_dest, log_file(), "saving %o\n", obj_dest); */
 
-	if (!(dump_serial_header(f)
-	      && dump_uint32(obj_dest, f)
-	      && dump_bucket_arr(&wk_dest.chrs, f)
-	      && dump_big_strings(&wk_dest, &big_string_offsets, f)
-	      && dump_objs(&wk_dest, &big_string_offsets, f)
-	      && dump_bucket_arr(&wk_dest.dict_elems, f))) {
+	struct serial_out out = { .f = f, .checksum = serial_checksum_init };
+
+	if (!(dump_serial_header(&out)
+	      && dump_uint32(obj_dest, &out)
+	      && dump_bucket_arr(&wk_dest.chrs, &out)
+	      && dump_big_strings(&wk_dest, &big_string_offsets, &out)
+	      && dump_objs(&wk_dest, &big_string_offsets, &out)
+	      && dump_bucket_arr(&wk_dest.dict_elems, &out)
+	      && dump_uint64(out.checksum, &out))) {
 		goto ret;
 	}
 
@@ -444,6 +494,7 @@ serial_load(struct workspace *wk, obj *res, FILE *f)
 
 	obj obj_src;
 	if (!(load_serial_header(f)
+	      && check_serial_checksum(f)
 	      && load_uint32(&obj_src, f)
 	      && load_bucket_arr(&wk_src.chrs, f)
 	      && load_big_strings(&wk_src, &bst, f)
-- 
2.43.0


From 55e07b8579c443bc8fea76222660545022fed40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 030/117] fix: a missing index expression is a syntax error

---
 src/lang/parser.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index aae60cf..fc2a70f 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -616,7 +616,8 @@ parse_index_call(struct parser *p, uint32_t *id, uint32_t l_id, bool have_l)
 	}
 
 	if (get_node(p->ast, r_id)->type == node_empty) {
-		UNREACHABLE;
+		parse_error(p, NULL, "missing index");
+		return false;
 	}
 
 	if (!expect(p, tok_rbrack)) {
-- 
2.43.0


From 0e42f7290cb373ebf63a600ea06cdfb2ee137a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 031/117] fix: an editorconfig that sets no or an absurd
 indentation is no longer fatal

---
 src/formats/editorconfig.c | 9 +++++++--
 src/lang/fmt.c             | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/formats/editorconfig.c b/src/formats/editorconfig.c
index c3cb5c6..0c77cfb 100644
--- a/src/formats/editorconfig.c
+++ b/src/formats/editorconfig.c
@@ -361,8 +361,13 @@ try_parse_editorconfig(struct source *src, struct editorconfig_opts *opts)
 	char indent = strcmp(indent_style, "tab") == 0 ? '\t' : ' ';
 
 	static char buf[BUF_SIZE_1k];
-	uint32_t indent_cols = strtol(indent_size, NULL, 10);
-	assert(indent_cols + 1 < BUF_SIZE_1k);
+	long indent_cols_l = strtol(indent_size, NULL, 10);
+	if (indent_cols_l < 0) {
+		indent_cols_l = 0;
+	} else if (indent_cols_l > BUF_SIZE_1k - 1) {
+		indent_cols_l = BUF_SIZE_1k - 1;
+	}
+	uint32_t indent_cols = indent_cols_l;
 
 	uint32_t i;
 	for (i = 0; i < indent_cols; ++i) {
diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index 3232a1d..dbc7ff9 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -1122,7 +1122,7 @@ fmt(struct source *src, FILE *out, const char *cfg_path, bool check_only, bool e
 	}
 
 	if (editorconfig) {
-		struct editorconfig_opts editorconfig_opts;
+		struct editorconfig_opts editorconfig_opts = { 0 };
 		try_parse_editorconfig(src, &editorconfig_opts);
 		if (editorconfig_opts.indent_by) {
 			ctx.indent_by = editorconfig_opts.indent_by;
-- 
2.43.0


From 43fe2f994f629cad619a3dada65658c810413b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 032/117] fix: a disabler inside of a dictionary, or as a
 variable name, disables the call

---
 src/functions/common.c | 51 ++++++++++++++++++++++++++++++------------
 src/functions/kernel.c | 10 +++++++++
 2 files changed, 47 insertions(+), 14 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index 884dbbd..3ebf09a 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -289,33 +289,56 @@ typecheck_function_arg_iter(struct workspace *wk, void *_ctx, obj val)
 	return ir_cont;
 }
 
+static bool disabler_among_arg(struct workspace *wk, obj val);
+
 static enum iteration_result
-typecheck_function_arg_check_disabler_iter(struct workspace *wk, void *_ctx, obj val)
+disabler_among_arg_arr_iter(struct workspace *wk, void *_ctx, obj val)
 {
 	bool *among = _ctx;
 
-	if (val == disabler_id) {
+	if (disabler_among_arg(wk, val)) {
 		*among = true;
 		return ir_done;
 	}
+
 	return ir_cont;
 }
 
+static enum iteration_result
+disabler_among_arg_dict_iter(struct workspace *wk, void *_ctx, obj key, obj val)
+{
+	return disabler_among_arg_arr_iter(wk, _ctx, val);
+}
+
+static bool
+disabler_among_arg(struct workspace *wk, obj val)
+{
+	bool among = false;
+
+	if (val == disabler_id) {
+		return true;
+	}
+
+	switch (get_obj_type(wk, val)) {
+	case obj_array:
+		obj_array_foreach(wk, val, &among, disabler_among_arg_arr_iter);
+		break;
+	case obj_dict:
+		obj_dict_foreach(wk, val, &among, disabler_among_arg_dict_iter);
+		break;
+	default:
+		break;
+	}
+
+	return among;
+}
+
 static bool
 typecheck_function_arg(struct workspace *wk, uint32_t err_node, obj *val, type_tag type)
 {
-	if (!disabler_among_args_immunity) {
-		if (*val == disabler_id) {
-			disabler_among_args = true;
-			return false;
-		} else if (get_obj_type(wk, *val) == obj_array) {
-			bool among = false;
-			obj_array_foreach_flat(wk, *val, &among, typecheck_function_arg_check_disabler_iter);
-			if (among) {
-				disabler_among_args = true;
-				return false;
-			}
-		}
+	if (!disabler_among_args_immunity && disabler_among_arg(wk, *val)) {
+		disabler_among_args = true;
+		return false;
 	}
 
 	bool array_of = false;
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index e14129e..de9c2c4 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1658,6 +1658,11 @@ func_set_variable(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	}
 	disabler_among_args_immunity = false;
 
+	if (an[0].val == disabler_id) {
+		*res = disabler_id;
+		return true;
+	}
+
 	wk->assign_variable(wk, get_cstr(wk, an[0].val), an[1].val, args_node, assign_local);
 	return true;
 }
@@ -1723,6 +1728,11 @@ func_is_variable(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 	}
 	disabler_among_args_immunity = false;
 
+	if (an[0].val == disabler_id) {
+		*res = disabler_id;
+		return true;
+	}
+
 	obj dont_care;
 
 	make_obj(wk, res, obj_bool);
-- 
2.43.0


From 81b2673b6236d204bb81885f25e40c707d865ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 033/117] fix: a compiler check whose command could not run
 reads no uninitialized result

---
 src/functions/compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/functions/compiler.c b/src/functions/compiler.c
index b95523c..e6614bb 100644
--- a/src/functions/compiler.c
+++ b/src/functions/compiler.c
@@ -347,6 +347,8 @@ compiler_check(struct workspace *wk, struct compiler_check_opts *opts,
 		L("compiling: '%s'", get_cstr(wk, source_path));
 	}
 
+	*res = false;
+
 	if (!run_cmd(&cmd_ctx, argstr, argc, NULL, 0)) {
 		interp_error(wk, err_node, "error: %s", cmd_ctx.err_msg);
 		goto ret;
-- 
2.43.0


From 92096881b6f0cce5577335b01c9976d5148e9e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 034/117] fix: path and version of a program that was not found
 are errors

---
 src/functions/external_program.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/functions/external_program.c b/src/functions/external_program.c
index 4d0a071..5540726 100644
--- a/src/functions/external_program.c
+++ b/src/functions/external_program.c
@@ -55,6 +55,11 @@ func_external_program_path(struct workspace *wk, obj rcvr, uint32_t args_node, o
 	}
 
 	struct obj_external_program *ep = get_obj_external_program(wk, rcvr);
+	if (!ep->found) {
+		interp_error(wk, args_node, "cannot return the full_path() of an external program that was not found");
+		return false;
+	}
+
 	if (get_obj_array(wk, ep->cmd_array)->len > 1) {
 		interp_error(wk, args_node, "cannot return the full_path() of an external program with multiple elements (have: %o)\n", ep->cmd_array);
 		return false;
@@ -72,6 +77,11 @@ func_external_program_version(struct workspace *wk, obj rcvr, uint32_t args_node
 	}
 
 	struct obj_external_program *prog = get_obj_external_program(wk, rcvr);
+	if (!prog->found) {
+		interp_error(wk, args_node, "cannot return the version() of an external program that was not found");
+		return false;
+	}
+
 	if (!prog->guessed_ver) {
 		find_program_guess_version(wk, prog->cmd_array, &prog->ver);
 		prog->guessed_ver = true;
-- 
2.43.0


From 4920025a3120417aeb9fd56dc12eddffe4333914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 035/117] fix: a script without a command line is refused

---
 src/functions/meson.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/functions/meson.c b/src/functions/meson.c
index 7fcc3cd..8b8ca1f 100644
--- a/src/functions/meson.c
+++ b/src/functions/meson.c
@@ -430,6 +430,9 @@ func_meson_add_install_script(struct workspace *wk, obj _, uint32_t args_node, o
 
 	if (!obj_array_foreach_flat(wk, an[0].val, &ctx, process_script_commandline_iter)) {
 		return false;
+	} else if (!get_obj_array(wk, ctx.arr)->len) {
+		interp_error(wk, args_node, "missing script");
+		return false;
 	}
 
 	if (!akw[kw_dry_run].set) {
@@ -460,6 +463,9 @@ func_meson_add_postconf_script(struct workspace *wk, obj _, uint32_t args_node,
 
 	if (!obj_array_foreach_flat(wk, an[0].val, &ctx, process_script_commandline_iter)) {
 		return false;
+	} else if (!get_obj_array(wk, ctx.arr)->len) {
+		interp_error(wk, args_node, "missing script");
+		return false;
 	}
 
 	obj_array_push(wk, wk->postconf_scripts, ctx.arr);
@@ -483,6 +489,9 @@ func_meson_add_dist_script(struct workspace *wk, obj _, uint32_t args_node, obj
 
 	if (!obj_array_foreach_flat(wk, an[0].val, &ctx, process_script_commandline_iter)) {
 		return false;
+	} else if (!get_obj_array(wk, ctx.arr)->len) {
+		interp_error(wk, args_node, "missing script");
+		return false;
 	}
 
 	// TODO: uncomment when muon dist is implemented
-- 
2.43.0


From 10b0a464809398421094109fc1717cd5efc81805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 036/117] fix: get_unquoted returns values that are not strings
 as they are

---
 src/functions/configuration_data.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/configuration_data.c b/src/functions/configuration_data.c
index 24c9597..cdf8254 100644
--- a/src/functions/configuration_data.c
+++ b/src/functions/configuration_data.c
@@ -142,6 +142,11 @@ func_configuration_data_get_unquoted(struct workspace *wk, obj rcvr, uint32_t ar
 		return false;
 	}
 
+	if (get_obj_type(wk, v) != obj_string) {
+		*res = v;
+		return true;
+	}
+
 	const char *s = get_cstr(wk, v);
 	uint32_t l = strlen(s);
 
-- 
2.43.0


From 729b793da626cabbc305e0dfff5b7d7817d226ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 037/117] fix: as_system on a dependency without include
 directories

---
 src/functions/dependency.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/dependency.c b/src/functions/dependency.c
index 32f06c9..f135c84 100644
--- a/src/functions/dependency.c
+++ b/src/functions/dependency.c
@@ -330,8 +330,10 @@ func_dependency_as_system(struct workspace *wk, obj rcvr, uint32_t args_node, ob
 	obj old_includes = dep->dep.include_directories;
 	make_obj(wk, &dep->dep.include_directories, obj_array);
 
-	dep_process_includes(wk, old_includes, inc_type,
-		dep->dep.include_directories);
+	if (old_includes) {
+		dep_process_includes(wk, old_includes, inc_type,
+			dep->dep.include_directories);
+	}
 	dep->include_type = inc_type;
 
 	return true;
-- 
2.43.0


From 5e1536374880f8e10e57b1e575677e99dcf94e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 038/117] fix: analyze -i has options and an absolute build
 root, and checks operands of and/or before using them

---
 src/lang/analyze.c   | 6 +++++-
 src/lang/workspace.c | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 81d4683..5b2c5ef 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -25,6 +25,7 @@
 #include "lang/typecheck.h"
 #include "lang/workspace.h"
 #include "log.h"
+#include "options.h"
 #include "platform/path.h"
 #include "tracy.h"
 
@@ -1175,7 +1176,7 @@ analyze_andor(struct workspace *wk, struct node *n, obj *res)
 		ret = false;
 	}
 
-	if (is_pure_arithmetic_object(wk, l)) {
+	if (ret && is_pure_arithmetic_object(wk, l)) {
 		bool cond = get_obj_bool(wk, l);
 
 		if (n->type == node_and && !cond) {
@@ -2024,6 +2025,9 @@ do_analyze(struct analyze_opts *opts)
 	if (opts->internal_file) {
 		uint32_t proj_id;
 		make_project(&wk, &proj_id, "dummy", wk.source_root, wk.build_root);
+		if (!setup_project_options(&wk, NULL)) {
+			UNREACHABLE;
+		}
 
 		struct assignment *a = scope_assign(&wk, "argv", make_typeinfo(&wk, tc_array, 0), 0, assign_local);
 		a->default_var = true;
diff --git a/src/lang/workspace.c b/src/lang/workspace.c
index dd67351..3346e31 100644
--- a/src/lang/workspace.c
+++ b/src/lang/workspace.c
@@ -144,7 +144,6 @@ workspace_init(struct workspace *wk)
 	workspace_init_bare(wk);
 
 	wk->argv0 = "dummy";
-	wk->build_root = "dummy";
 
 	obj id;
 	make_obj(wk, &id, obj_disabler);
@@ -161,6 +160,10 @@ workspace_init(struct workspace *wk)
 	path_cwd(wk, &source_root);
 	wk->source_root = get_cstr(wk, sbuf_into_str(wk, &source_root));
 
+	SBUF(build_root);
+	path_join(wk, &build_root, wk->source_root, "dummy");
+	wk->build_root = get_cstr(wk, sbuf_into_str(wk, &build_root));
+
 	arr_init(&wk->projects, 16, sizeof(struct project));
 	arr_init(&wk->option_overrides, 32, sizeof(struct option_override));
 	arr_init(&wk->source_data, 4, sizeof(struct source_data));
-- 
2.43.0


From 52783650bd3dd634dc459b8ebd4d9acee1973234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 039/117] fix: muon options reads meson.options, and diagnoses
 an undefined variable there

---
 src/options.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/options.c b/src/options.c
index e190697..7654bdf 100644
--- a/src/options.c
+++ b/src/options.c
@@ -1233,10 +1233,14 @@ list_options(const struct list_options_opts *list_opts)
 	arr_push(&wk.projects, &(struct project){ 0 });
 	struct project *proj = arr_get(&wk.projects, 0);
 	make_obj(&wk, &proj->opts, obj_dict);
+	proj->scope_stack = wk.scope_stack_dup(&wk, wk.default_scope);
 
 	if (fs_file_exists("meson.build")) {
 		SBUF(meson_opts);
-		path_make_absolute(&wk, &meson_opts, "meson_options.txt");
+		path_make_absolute(&wk, &meson_opts, "meson.options");
+		if (!fs_file_exists(meson_opts.buf)) {
+			path_make_absolute(&wk, &meson_opts, "meson_options.txt");
+		}
 
 		if (fs_file_exists(meson_opts.buf)) {
 			if (!wk.eval_project_file(&wk, meson_opts.buf, false)) {
-- 
2.43.0


From 605041dd387a91d73fa8bfea182a6491b1304145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 040/117] fix: a wrap without source_filename is not joined as
 a path

---
 src/wrap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index cf2580b..fa5e1b3 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -618,6 +618,15 @@ wrap_handle_file(struct wrap *wrap, const char *subprojects, bool download)
 {
 	const char *dest;
 
+	if (!wrap->fields[wf_source_filename]) {
+		if (fs_dir_exists(wrap->dest_dir.buf)) {
+			return true;
+		}
+
+		LOG_E("wrap has no source_filename and '%s' does not exist", wrap->dest_dir.buf);
+		return false;
+	}
+
 	if (wrap->fields[wf_lead_directory_missing]) {
 		dest = wrap->dest_dir.buf;
 	} else {
-- 
2.43.0


From a1782e179fdc538ca325070a705a50756d896f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 041/117] fix: not found programs, python installations and
 newlines in arguments are diagnosed

---
 src/args.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/args.c b/src/args.c
index 31bda1b..44fb274 100644
--- a/src/args.c
+++ b/src/args.c
@@ -7,6 +7,7 @@
 #include "compat.h"
 
 #include <assert.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "args.h"
@@ -47,7 +48,8 @@ simple_escape(struct workspace *wk, struct sbuf *sb, const char *str, const char
 		if (strchr(need_escaping, *s)) {
 			sbuf_push(wk, sb, esc_char);
 		} else if (*s == '\n') {
-			assert(false && "newlines cannot be escaped");
+			LOG_E("ninja does not support newlines in file names: '%s'", str);
+			exit(1);
 		}
 
 		sbuf_push(wk, sb, *s);
@@ -227,10 +229,15 @@ arr_to_args_iter(struct workspace *wk, void *_ctx, obj src)
 		}
 		return ir_cont;
 	}
-	case obj_external_program:
 	case obj_python_installation:
+		src = get_obj_python_installation(wk, src)->prog;
+	/* fallthrough */
+	case obj_external_program:
 		if (!(ctx->mode & arr_to_args_external_program)) {
 			goto type_err;
+		} else if (!get_obj_external_program(wk, src)->found) {
+			LOG_E("a not found external_program cannot be used as an argument");
+			return ir_err;
 		}
 
 		obj_array_extend(wk, ctx->res, get_obj_external_program(wk, src)->cmd_array);
-- 
2.43.0


From 58249db434b0fe7f95e3db4b4013632826aac9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 042/117] fix: a call without a value where a function is
 expected is a type error

---
 src/lang/typecheck.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lang/typecheck.c b/src/lang/typecheck.c
index 21b4310..ec98fa9 100644
--- a/src/lang/typecheck.c
+++ b/src/lang/typecheck.c
@@ -261,10 +261,6 @@ typecheck_complex_type(struct workspace *wk, obj got_obj, type_tag got_type, typ
 			return true;
 		}
 
-		if (!got_type && type == tc_func) {
-			assert(false);
-		}
-
 		type |= tc_disabler; // always allow disabler type
 		type &= ~(obj_typechecking_type_tag | TYPE_TAG_ALLOW_VOID);
 
-- 
2.43.0


From 2efd22b92a774e1ce97a1c4a126284150e66684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 043/117] fix: fs.size of a directory is an error

---
 src/functions/modules/fs.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index f84046d..843c30e 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -357,6 +357,11 @@ func_module_fs_size(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	if (!fs_file_exists(path.buf)) {
+		interp_error(wk, an[0].node, "'%s' is not a file", path.buf);
+		return false;
+	}
+
 	uint64_t size;
 	FILE *f;
 	if (!(f = fs_fopen(path.buf, "rb"))) {
-- 
2.43.0


From 9d743f09ec0599b7392639d39e68f71e8fa6566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:42 +0000
Subject: [PATCH 044/117] fix: an empty program name is not found

---
 src/platform/posix/filesystem.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/platform/posix/filesystem.c b/src/platform/posix/filesystem.c
index 1e3c995..1ab9716 100644
--- a/src/platform/posix/filesystem.c
+++ b/src/platform/posix/filesystem.c
@@ -363,12 +363,15 @@ fs_chmod(const char *path, uint32_t mode)
 bool
 fs_find_cmd(struct workspace *wk, struct sbuf *buf, const char *cmd)
 {
-	assert(*cmd);
 	uint32_t len;
 	const char *env_path, *base_start;
 
 	sbuf_clear(buf);
 
+	if (!*cmd) {
+		return false;
+	}
+
 	if (!path_is_basename(cmd)) {
 		path_make_absolute(wk, buf, cmd);
 
-- 
2.43.0


From 071a2501d9f0adda15300ad0537450f1b9c5bf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 045/117] fix: a python installation that is not found and not
 required

---
 src/functions/modules/python.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/functions/modules/python.c b/src/functions/modules/python.c
index 8c4f6f6..da53ff9 100644
--- a/src/functions/modules/python.c
+++ b/src/functions/modules/python.c
@@ -224,6 +224,13 @@ func_module_python_find_installation(struct workspace *wk,
 	make_obj(wk, &ep->cmd_array, obj_array);
 	obj_array_push(wk, ep->cmd_array, sbuf_into_str(wk, &cmd_path));
 
+	if (!cmd_path.len) {
+		python->language_version = make_str(wk, "");
+		make_obj(wk, &python->sysconfig_paths, obj_dict);
+		make_obj(wk, &python->sysconfig_vars, obj_dict);
+		return true;
+	}
+
 	if (!introspect_python_interpreter(wk, cmd_path.buf, python)) {
 		interp_error(wk, args_node, "failed to introspect python");
 		return false;
-- 
2.43.0


From 5c76203ed3683cdf65ac0aca05d6f503b726c729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 046/117] fix: the value of pie is used, not whether it was
 given

---
 src/functions/kernel/build_target.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 3d83372..252022e 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -524,7 +524,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 			bool pie = false;
 
 			if (akw[bt_kw_pie].set) {
-				pie = get_obj_bool(wk, akw[bt_kw_pie].set);
+				pie = get_obj_bool(wk, akw[bt_kw_pie].val);
 
 				if (pie && (tgt->type & tgt_executable) != tgt_executable) {
 					interp_error(wk, akw[bt_kw_pie].node, "pie cannot be set for non-executables");
-- 
2.43.0


From cdb4c312d0dc81d8de7c8096dc90dcffa2597569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 047/117] fix: an empty install_mode

---
 src/install.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/install.c b/src/install.c
index c3eddde..477ec54 100644
--- a/src/install.c
+++ b/src/install.c
@@ -88,7 +88,7 @@ push_install_target(struct workspace *wk, obj src, obj dest, obj mode)
 	tgt->src = src;
 
 	tgt->has_perm = false;
-	if (mode) {
+	if (mode && get_obj_array(wk, mode)->len) {
 		uint32_t len = get_obj_array(wk, mode)->len;
 		if (len > 3) {
 			LOG_E("install_mode must have 3 or less elements");
-- 
2.43.0


From a356fa77a4cea294a0edb1e9059aeaa7e4df3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:02 +0000
Subject: [PATCH 048/117] fix: an interpreter without output is not a python
 installation

---
 src/functions/modules/python.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/functions/modules/python.c b/src/functions/modules/python.c
index da53ff9..78792a4 100644
--- a/src/functions/modules/python.c
+++ b/src/functions/modules/python.c
@@ -36,7 +36,7 @@ query_version(struct workspace *wk, const char *path,
 {
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const args[] = { (char *)path, "-c", (char *)introspect_version, 0 };
-	if (!run_cmd_argv(&cmd_ctx, args, NULL, 0) || cmd_ctx.status != 0) {
+	if (!run_cmd_argv(&cmd_ctx, args, NULL, 0) || cmd_ctx.status != 0 || !cmd_ctx.out.len) {
 		return false;
 	}
 
@@ -69,7 +69,7 @@ query_paths(struct workspace *wk, const char *path,
 {
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const path_args[] = { (char *)path, "-c", (char *)introspect_paths, 0 };
-	if (!run_cmd_argv(&cmd_ctx, path_args, NULL, 0) || cmd_ctx.status != 0) {
+	if (!run_cmd_argv(&cmd_ctx, path_args, NULL, 0) || cmd_ctx.status != 0 || !cmd_ctx.out.len) {
 		return false;
 	}
 
@@ -85,7 +85,7 @@ query_vars(struct workspace *wk, const char *path,
 {
 	struct run_cmd_ctx cmd_ctx = { 0 };
 	char *const var_args[] = { (char *)path, "-c", (char *)introspect_vars, 0 };
-	if (!run_cmd_argv(&cmd_ctx, var_args, NULL, 0) || cmd_ctx.status != 0) {
+	if (!run_cmd_argv(&cmd_ctx, var_args, NULL, 0) || cmd_ctx.status != 0 || !cmd_ctx.out.len) {
 		return false;
 	}
 
@@ -182,6 +182,7 @@ func_module_python_find_installation(struct workspace *wk,
 
 	SBUF(cmd_path);
 	bool found = fs_find_cmd(wk, &cmd_path, cmd);
+	const bool have_cmd = found;
 	if (!found && (requirement == requirement_required)) {
 		interp_error(wk, args_node, "%s not found", cmd);
 		return false;
@@ -224,7 +225,7 @@ func_module_python_find_installation(struct workspace *wk,
 	make_obj(wk, &ep->cmd_array, obj_array);
 	obj_array_push(wk, ep->cmd_array, sbuf_into_str(wk, &cmd_path));
 
-	if (!cmd_path.len) {
+	if (!have_cmd) {
 		python->language_version = make_str(wk, "");
 		make_obj(wk, &python->sysconfig_paths, obj_dict);
 		make_obj(wk, &python->sysconfig_vars, obj_dict);
-- 
2.43.0


From bae04653932f69c2a5cbff9ce4df1be98f8b52c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:17 +0000
Subject: [PATCH 049/117] fix: the list of diagnostics was read after it moved

---
 src/error.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.c b/src/error.c
index eac966c..d329754 100644
--- a/src/error.c
+++ b/src/error.c
@@ -167,7 +167,8 @@ error_diagnostic_store_replay(enum error_diagnostic_store_replay_opts opts, bool
 
 		uint32_t initial_len = error_diagnostic_store.messages.len;
 		msg = arr_get(&error_diagnostic_store.messages, 0);
-		arr_push(&error_diagnostic_store.messages, msg);
+		tmp = *msg;
+		arr_push(&error_diagnostic_store.messages, &tmp);
 		for (i = 1; i < initial_len; ++i) {
 			prev_msg = arr_get(&error_diagnostic_store.messages, i - 1);
 			msg = arr_get(&error_diagnostic_store.messages, i);
-- 
2.43.0


From d25140a9a877b2e5b3c2a184825f95dc48a7b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 050/117] fix: no comment is attached to a block that failed to
 parse

---
 src/lang/parser.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lang/parser.c b/src/lang/parser.c
index fc2a70f..045af01 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -1454,7 +1454,9 @@ parse_line(struct parser *p, uint32_t *id)
 			return false;
 		}
 
-		accept_comment_for(p, *id);
+		if (ret) {
+			accept_comment_for(p, *id);
+		}
 	} else if (accept(p, tok_foreach)) {
 		if (!parse_foreach(p, id)) {
 			ret = false;
@@ -1465,7 +1467,9 @@ parse_line(struct parser *p, uint32_t *id)
 			return false;
 		}
 
-		accept_comment_for(p, *id);
+		if (ret) {
+			accept_comment_for(p, *id);
+		}
 	} else if ((p->mode & pm_functions) && accept(p, tok_return)) {
 		p->caused_effect = true;
 
-- 
2.43.0


From 472d418e8cdce8f5e41267d292a6ca959ffc4bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 051/117] fix: @DEPFILE@ in a configure_file without a depfile

---
 src/functions/kernel/configure_file.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 5890831..77abc4d 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -390,7 +390,7 @@ configure_file_with_command(struct workspace *wk, uint32_t node,
 		obj_array_push(wk, output_arr, f);
 	}
 
-	{
+	if (depfile) {
 		// XXX: depfile for configure_file is not supported, this is
 		// only here to make the types align
 		obj f;
-- 
2.43.0


From b9af217526362d578ef71b3239fe3b03b66bcd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 052/117] fix: guessing the version of a program without output

---
 src/guess.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/guess.c b/src/guess.c
index 8a57320..e8459ce 100644
--- a/src/guess.c
+++ b/src/guess.c
@@ -16,6 +16,10 @@ guess_version(struct workspace *wk, const char *src, obj *res)
 	uint32_t dots = 0, ver_len = 0, new_len, new_dots;
 	const char *p, *ver = NULL;
 
+	if (!src) {
+		return false;
+	}
+
 	for (p = src; *p; ++p) {
 		new_len = 0;
 		new_dots = 0;
-- 
2.43.0


From 87e34bea4dcf1e3ec1e7e0d0cd415306c5f65a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 053/117] fix: placeholders for the input or output of a target
 that has none

---
 src/functions/custom_target.c        | 3 +++
 src/functions/kernel/custom_target.c | 7 +++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/functions/custom_target.c b/src/functions/custom_target.c
index 7c115ad..7afd71e 100644
--- a/src/functions/custom_target.c
+++ b/src/functions/custom_target.c
@@ -49,6 +49,9 @@ func_custom_target_full_path(struct workspace *wk, obj rcvr, uint32_t args_node,
 	if (!obj_array_flatten_one(wk, get_obj_custom_target(wk, rcvr)->output, &elem)) {
 		interp_error(wk, args_node, "this custom_target has multiple outputs");
 		return false;
+	} else if (!elem) {
+		interp_error(wk, args_node, "this target has no outputs");
+		return false;
 	}
 
 	*res = *get_obj_file(wk, elem);
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index df75ca4..fe28ade 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -225,9 +225,9 @@ format_cmd_arg_cb(struct workspace *wk, uint32_t node, void *_ctx, const struct
 	int64_t index;
 	obj arr;
 
-	if (prefix_plus_index(strkey, "INPUT", &index)) {
+	if (ctx->opts->input && prefix_plus_index(strkey, "INPUT", &index)) {
 		arr = ctx->opts->input;
-	} else if (prefix_plus_index(strkey, "OUTPUT", &index)) {
+	} else if (ctx->opts->output && prefix_plus_index(strkey, "OUTPUT", &index)) {
 		arr = ctx->opts->output;
 	} else {
 		if (ctx->opts->err_node) {
@@ -388,8 +388,7 @@ format_cmd_output_cb(struct workspace *wk, uint32_t node, void *_ctx, const stru
 		return format_cb_not_found;
 	}
 
-	struct obj_array *in = get_obj_array(wk, ctx->opts->input);
-	if (in->len != 1) {
+	if (!ctx->opts->input || get_obj_array(wk, ctx->opts->input)->len != 1) {
 		interp_error(wk, ctx->opts->err_node,
 			"to use @PLAINNAME@ and @BASENAME@ in a custom "
 			"target output, there must be exactly one input");
-- 
2.43.0


From 0f48c02af94a73cd17028d8f8d136a91e6b8ab70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:10 +0000
Subject: [PATCH 054/117] fix: define lines of templates with CRLF line endings

---
 src/functions/kernel/configure_file.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 77abc4d..4b7b20b 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -56,6 +56,12 @@ configure_file_skip_whitespace(const struct source *src, uint32_t *i)
 	}
 }
 
+static bool
+configure_file_at_eol(const struct source *src, uint32_t i)
+{
+	return !src->src[i] || src->src[i] == '\n' || (src->src[i] == '\r' && src->src[i + 1] == '\n');
+}
+
 static uint32_t
 configure_var_len(const char *p)
 {
@@ -140,7 +146,7 @@ substitute_config(struct workspace *wk, uint32_t dict, uint32_t in_node, const c
 
 			configure_file_skip_whitespace(&src, &i);
 
-			if (!(src.src[i] == '\n' || src.src[i] == 0)) {
+			if (!configure_file_at_eol(&src, i)) {
 				if (syntax & configure_file_syntax_cmakedefine) {
 					if (src.src[i] == '@'
 					    && strncmp(&src.src[i + 1], &src.src[id_start], id_len) == 0
@@ -148,7 +154,7 @@ substitute_config(struct workspace *wk, uint32_t dict, uint32_t in_node, const c
 						i += 2 + id_len;
 						configure_file_skip_whitespace(&src, &i);
 
-						if (!(src.src[i] == '\n' || src.src[i] == 0)) {
+						if (!configure_file_at_eol(&src, i)) {
 							goto extraneous_cmake_chars;
 						}
 					} else {
@@ -156,7 +162,7 @@ extraneous_cmake_chars:
 						{
 							uint32_t orig_i = i;
 
-							while (src.src[i] && src.src[i] != '\n') {
+							while (!configure_file_at_eol(&src, i)) {
 								++i;
 							}
 
-- 
2.43.0


From e18b37b1048d0aa2ec89cffbb41bfc9b2ba51029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:20 +0000
Subject: [PATCH 055/117] fix: a changed read-only input of configure_file can
 be configured again

---
 src/functions/kernel/configure_file.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 4b7b20b..9685d0e 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -48,6 +48,18 @@ file_exists_with_content(struct workspace *wk, const char *dest, const char *out
 	return false;
 }
 
+/* like fs_write, but also replaces a file that was made read-only because its
+ * input is */
+static bool
+replace_file(const char *dest, const char *buf, uint32_t len)
+{
+	if (fs_file_exists(dest) && !fs_remove(dest)) {
+		return false;
+	}
+
+	return fs_write(dest, (const uint8_t *)buf, len);
+}
+
 static void
 configure_file_skip_whitespace(const struct source *src, uint32_t *i)
 {
@@ -295,7 +307,7 @@ write_mesondefine:
 		goto cleanup;
 	}
 
-	if (!fs_write(get_cstr(wk, out), (uint8_t *)out_buf.buf, out_buf.len)) {
+	if (!replace_file(get_cstr(wk, out), out_buf.buf, out_buf.len)) {
 		ret = false;
 		goto cleanup;
 	}
@@ -664,7 +676,7 @@ func_configure_file(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 		}
 
 		if (!file_exists_with_content(wk, get_cstr(wk, output_str), src.src, src.len)) {
-			if (!fs_write(get_cstr(wk, output_str), (uint8_t *)src.src, src.len)) {
+			if (!replace_file(get_cstr(wk, output_str), src.src, src.len)) {
 				goto copy_err;
 			}
 
-- 
2.43.0


From 60f82bef4140d1023febaa84804d7bfd55e59964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:45 +0000
Subject: [PATCH 056/117] fix: env: does not add variables to the dictionary or
 environment it was given

---
 src/coerce.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coerce.c b/src/coerce.c
index 232b366..56ee877 100644
--- a/src/coerce.c
+++ b/src/coerce.c
@@ -22,7 +22,11 @@ coerce_environment_from_kwarg(struct workspace *wk, struct args_kw *kw, bool set
 {
 	if (kw->set) {
 		if (get_obj_type(wk, kw->val) == obj_environment) {
-			*res = kw->val;
+			// the caller adds variables of its own
+			make_obj(wk, res, obj_environment);
+			obj_array_dup(wk,
+				get_obj_environment(wk, kw->val)->actions,
+				&get_obj_environment(wk, *res)->actions);
 		} else if (!coerce_key_value_dict(wk, kw->node, kw->val, res)) {
 			return false;
 		}
@@ -113,7 +117,7 @@ coerce_key_value_dict(struct workspace *wk, uint32_t err_node, obj val, obj *res
 			return false;
 		}
 
-		*res = val;
+		obj_dict_dup(wk, val, res);
 		break;
 	default:
 		interp_error(wk, err_node, "unable to coerce type '%s' into key=value dict", obj_type_to_s(t));
-- 
2.43.0


From a2c68ebd92e15eca2bd3d52c9b4519dda49c8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:11 +0000
Subject: [PATCH 057/117] fix: quote every character that is special to the
 shell

---
 src/platform/posix/path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform/posix/path.c b/src/platform/posix/path.c
index 4f2a0f5..578d6c7 100644
--- a/src/platform/posix/path.c
+++ b/src/platform/posix/path.c
@@ -31,7 +31,7 @@ path_to_posix(char *path)
 void
 shell_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 {
-	const char *need_escaping = "\"'$ \\><&#\n";
+	const char *need_escaping = "\"'$ \\><&#\n\t\r;|*?()`~[]{}!^";
 	const char *s;
 	bool do_esc = false;
 
-- 
2.43.0


From efe9bd1e8766999a5b40a87ad366edce8c9ed1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:19 +0000
Subject: [PATCH 058/117] fix: quote the regenerate command, compilers and
 linkers in build.ninja; carriage returns and newlines

---
 src/args.c                        |  6 +++---
 src/backend/ninja/custom_target.c |  2 +-
 src/backend/ninja/rules.c         | 15 +++++++++------
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/args.c b/src/args.c
index 44fb274..b2cb110 100644
--- a/src/args.c
+++ b/src/args.c
@@ -47,8 +47,8 @@ simple_escape(struct workspace *wk, struct sbuf *sb, const char *str, const char
 	for (; *s; ++s) {
 		if (strchr(need_escaping, *s)) {
 			sbuf_push(wk, sb, esc_char);
-		} else if (*s == '\n') {
-			LOG_E("ninja does not support newlines in file names: '%s'", str);
+		} else if (*s == '\n' || *s == '\r') {
+			LOG_E("ninja does not support newlines in file names and arguments: '%s'", str);
 			exit(1);
 		}
 
@@ -68,7 +68,7 @@ shell_ninja_escape(struct workspace *wk, struct sbuf *sb, const char *str)
 	SBUF_manual(tmp);
 
 	shell_escape(wk, &tmp, str);
-	simple_escape(wk, sb, tmp.buf, "$\n", '$');
+	simple_escape(wk, sb, tmp.buf, "$", '$');
 
 	sbuf_destroy(&tmp);
 }
diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 919d62a..064da7c 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -29,7 +29,7 @@ ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
 		return ir_err;
 	}
 
-	if (strchr(ss->s, '\n')) {
+	if (strpbrk(ss->s, "\r\n")) {
 		return ir_err;
 	}
 
diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index 8bc4fca..a00d97d 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -67,14 +67,14 @@ write_linker_rule_iter(struct workspace *wk, void *_ctx, enum compiler_language
 	bool compiler_is_linker = comp->type != compiler_msvc;
 
 	if (compiler_is_linker) {
-		obj_array_extend(wk, args, comp->cmd_arr);
+		obj_array_push(wk, args, join_args_shell_ninja(wk, comp->cmd_arr));
 		obj_array_push(wk, args, make_str(wk, "$ARGS"));
 
 		push_args(wk, args, compilers[t].args.output("$out"));
 		obj_array_push(wk, args, make_str(wk, "$in"));
 		obj_array_push(wk, args, make_str(wk, "$LINK_ARGS"));
 	} else {
-		obj_array_extend(wk, args, comp->linker_cmd_arr);
+		obj_array_push(wk, args, join_args_shell_ninja(wk, comp->linker_cmd_arr));
 		obj_array_push(wk, args, make_str(wk, "$ARGS"));
 		push_args(wk, args, linkers[comp->linker_type].args.input_output("$in", "$out"));
 		obj_array_push(wk, args, make_str(wk, "$LINK_ARGS"));
@@ -112,7 +112,7 @@ write_compiler_rule(struct workspace *wk, FILE *out, obj rule_args, obj rule_nam
 
 	obj args;
 	make_obj(wk, &args, obj_array);
-	obj_array_extend(wk, args, comp->cmd_arr);
+	obj_array_push(wk, args, join_args_shell_ninja(wk, comp->cmd_arr));
 	obj_array_push(wk, args, rule_args);
 
 	if (compilers[t].deps) {
@@ -296,7 +296,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		output_path.private_dir
 		);
 
-	obj regen_cmd = join_args_shell(wk, regenerate_build_command(wk, false));
+	obj regen_cmd = join_args_shell_ninja(wk, regenerate_build_command(wk, false));
 
 	fprintf(out,
 		"rule REGENERATE_BUILD\n"
@@ -427,7 +427,10 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 
 				if (comp->static_linker_type == static_linker_ar_posix
 				    || comp->static_linker_type == static_linker_ar_gcc) {
-					obj_array_push(wk, static_link_args, make_str(wk, wk->argv0));
+					obj argv0;
+					make_obj(wk, &argv0, obj_array);
+					obj_array_push(wk, argv0, make_str(wk, wk->argv0));
+					obj_array_push(wk, static_link_args, join_args_shell_ninja(wk, argv0));
 					obj_array_push(wk, static_link_args, make_str(wk, "internal"));
 					obj_array_push(wk, static_link_args, make_str(wk, "exe"));
 					obj_array_push(wk, static_link_args, make_str(wk, "-R"));
@@ -435,7 +438,7 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 					obj_array_push(wk, static_link_args, make_str(wk, "--"));
 				}
 
-				obj_array_extend(wk, static_link_args, comp->static_linker_cmd_arr);
+				obj_array_push(wk, static_link_args, join_args_shell_ninja(wk, comp->static_linker_cmd_arr));
 				push_args(wk, static_link_args, static_linkers[comp->static_linker_type].args.base());
 				push_args(wk, static_link_args, static_linkers[comp->static_linker_type].args.input_output("$in", "$out"));
 
-- 
2.43.0


From 214673bbd700b06e73669b571d0e71cc09dc0dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:48 +0000
Subject: [PATCH 059/117] fix: argument files of generated targets, and build
 directories with @ in their name

---
 src/backend/ninja/custom_target.c    | 10 +++++++++-
 src/functions/kernel/custom_target.c | 26 +++++++++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 064da7c..1c1f670 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -48,9 +48,17 @@ write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj
 	assert(tgt->name && "unnamed targets cannot have a custom data");
 
 	SBUF(name);
-	sbuf_pushf(wk, &name, "%s%d.dat", get_cstr(wk, tgt->name), custom_tgt_dat_sequence);
+	sbuf_pushf(wk, &name, "%d.%s.dat", custom_tgt_dat_sequence, get_cstr(wk, tgt->name));
 	++custom_tgt_dat_sequence;
 
+	// the names of generated targets are paths
+	char *c;
+	for (c = name.buf; *c; ++c) {
+		if (*c == '/') {
+			*c = '_';
+		}
+	}
+
 	SBUF(dirpath);
 	SBUF(dat_path);
 	path_join(wk, &dirpath, wk->muon_private, dir);
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index fe28ade..2439fff 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -419,6 +419,26 @@ format_cmd_output_cb(struct workspace *wk, uint32_t node, void *_ctx, const stru
 	return format_cb_found;
 }
 
+/* only the name of an output is a template, the directory it is in is not */
+static bool
+custom_command_format_output(struct workspace *wk, struct custom_target_cmd_fmt_ctx *ctx, obj path, obj *res)
+{
+	SBUF(dir);
+	SBUF(base);
+	SBUF(joined);
+	path_dirname(wk, &dir, get_cstr(wk, path));
+	path_basename(wk, &base, get_cstr(wk, path));
+
+	obj name;
+	if (!string_format(wk, ctx->opts->err_node, sbuf_into_str(wk, &base), &name, ctx, format_cmd_output_cb)) {
+		return false;
+	}
+
+	path_join(wk, &joined, dir.buf, get_cstr(wk, name));
+	*res = sbuf_into_str(wk, &joined);
+	return true;
+}
+
 static enum iteration_result
 custom_command_output_format_iter(struct workspace *wk, void *_ctx, obj v)
 {
@@ -427,7 +447,7 @@ custom_command_output_format_iter(struct workspace *wk, void *_ctx, obj v)
 	obj file = *get_obj_file(wk, v);
 
 	obj s;
-	if (!string_format(wk, ctx->opts->err_node, file, &s, ctx, format_cmd_output_cb)) {
+	if (!custom_command_format_output(wk, ctx, file, &s)) {
 		return ir_err;
 	}
 
@@ -553,8 +573,8 @@ make_custom_target(struct workspace *wk,
 		};
 
 		obj depfile_formatted;
-		if (!string_format(wk, 0, *get_obj_file(wk, depfile), &depfile_formatted, &ctx, format_cmd_output_cb)) {
-			return ir_err;
+		if (!custom_command_format_output(wk, &ctx, *get_obj_file(wk, depfile), &depfile_formatted)) {
+			return false;
 		}
 
 		*get_obj_file(wk, depfile) = depfile_formatted;
-- 
2.43.0


From ee923ae01e2affd7c534daccf5c09cdd2b962309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:05 +0000
Subject: [PATCH 060/117] fix: paths in depfiles may contain any character,
 DEPFILE is quoted

---
 src/backend/ninja/custom_target.c |  5 ++++-
 src/external/samurai/deps.c       | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 1c1f670..6f37574 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -190,7 +190,10 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 	if (tgt->depfile) {
 		obj depfile_rel;
 		relativize_path(wk, tgt->depfile, false, &depfile_rel);
-		fprintf(ctx->out, " DEPFILE = %s\n", get_cstr(wk, depfile_rel));
+
+		SBUF(esc);
+		ninja_escape(wk, &esc, get_cstr(wk, depfile_rel));
+		fprintf(ctx->out, " DEPFILE = %s\n", esc.buf);
 	}
 
 	if (tgt->flags & custom_target_console) {
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 27adbd5..7ff50a3 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -136,7 +136,7 @@ src_fread(void *buf, size_t sz, size_t n, struct seekable_source *src)
 	return r;
 }
 
-static char
+static int
 src_getc(struct seekable_source *src)
 {
 	if (src->i >= src->src.len) {
@@ -148,10 +148,22 @@ src_getc(struct seekable_source *src)
 			++src->i;
 		}
 		++src->i;
-		return c;
+		return (unsigned char)c;
 	}
 }
 
+/* anything that does not separate words is part of a path, as in ninja */
+static bool
+src_is_path_char(const struct seekable_source *src, int c, bool sawcolon)
+{
+	if (c == ':') {
+		// a colon that does not end a target
+		return sawcolon && src->i < src->src.len && !isspace((unsigned char)src->src.src[src->i]);
+	}
+
+	return c != EOF && c && c != '#' && !isspace(c);
+}
+
 void
 samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 {
@@ -367,7 +379,7 @@ samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 	c = src_getc(&src);
 	for (;;) {
 		/* TODO: this parser needs to be rewritten to be made simpler */
-		while (isalnum(c) || strchr("$+,-./@\\_", c)) {
+		while (src_is_path_char(&src, c, sawcolon)) {
 			switch (c) {
 			case '\\':
 				/* handle the crazy escaping generated by clang and gcc */
-- 
2.43.0


From 8ccdae25460fad153117e0773d28e5498b369473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 061/117] fix: tap verdicts: bail out, unexpected passes,
 failures despite a matching plan; lines with NUL

---
 src/formats/lines.c | 16 +++++++---------
 src/formats/tap.c   | 30 ++++++++++++++++++++----------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/formats/lines.c b/src/formats/lines.c
index 95bcde7..9e7c3c1 100644
--- a/src/formats/lines.c
+++ b/src/formats/lines.c
@@ -12,11 +12,13 @@
 void
 each_line(char *buf, uint64_t len, void *ctx, each_line_callback cb)
 {
-	char *line, *b;
+	char *line = buf, *end = buf + len, *b;
 
-	line = buf;
+	if (!len) {
+		return;
+	}
 
-	while ((b = strchr(line, '\n'))) {
+	while ((b = memchr(line, '\n', end - line))) {
 		*b = '\0';
 
 		if (cb(ctx, line, b - line) != ir_cont) {
@@ -24,14 +26,10 @@ each_line(char *buf, uint64_t len, void *ctx, each_line_callback cb)
 		}
 
 		line = b + 1;
-
-		if ((size_t)(line - buf) >= len) {
-			return;
-		}
 	}
 
-	if (*line) {
-		cb(ctx, line, strlen(line));
+	if (line < end) {
+		cb(ctx, line, end - line);
 	}
 }
 
diff --git a/src/formats/tap.c b/src/formats/tap.c
index 328c23d..9aa5670 100644
--- a/src/formats/tap.c
+++ b/src/formats/tap.c
@@ -60,19 +60,29 @@ tap_parse_line_cb(void *_ctx, char *line, size_t _)
 		}
 	}
 
-	if (directive == skip) {
-		++ctx->res->skip;
-		return ir_cont;
-	}
-
-	if (ok) {
-		++ctx->res->pass;
-	} else {
-		if (directive == todo) {
+	switch (directive) {
+	case none:
+		if (ok) {
+			++ctx->res->pass;
+		} else {
+			++ctx->res->fail;
+		}
+		break;
+	case skip:
+		if (ok) {
 			++ctx->res->skip;
 		} else {
 			++ctx->res->fail;
 		}
+		break;
+	case todo:
+		// a test that is expected to fail
+		if (ok) {
+			++ctx->res->fail;
+		} else {
+			++ctx->res->skip;
+		}
+		break;
 	}
 
 	return ir_cont;
@@ -89,5 +99,5 @@ tap_parse(char *buf, uint64_t buf_len, struct tap_parse_result *res)
 		res->total = res->pass + res->skip + res->fail;
 	}
 
-	res->all_ok = res->total == res->pass + res->skip;
+	res->all_ok = !ctx.bail_out && !res->fail && res->total == res->pass + res->skip;
 }
-- 
2.43.0


From 73a4f893274c200ee85dc19012a3ecc529dea858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:21 +0000
Subject: [PATCH 062/117] fix: test verdicts: unexpected passes fail, hard
 errors are never expected, crashes are failures, exit status of tap tests

---
 src/cmd_test.c               | 72 ++++++++++++++++++++++++------------
 src/platform/posix/run_cmd.c |  1 +
 2 files changed, 50 insertions(+), 23 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index e888651..c099ffb 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -40,7 +40,7 @@ struct test_result {
 	struct timer t;
 	float dur, timeout;
 	enum test_result_status status;
-	bool busy;
+	bool busy, unexpected_pass;
 	struct {
 		bool have;
 		uint32_t pass, total;
@@ -126,7 +126,7 @@ print_test_result(struct workspace *wk, const struct test_result *res)
 		status = status_timedout;
 		break;
 	case test_result_status_failed:
-		if (res->test->should_fail) {
+		if (res->unexpected_pass) {
 			status = status_should_have_failed;
 		} else {
 			status = status_failed;
@@ -503,9 +503,15 @@ check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct tes
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
+	if (ctx->opts->verbosity > 1 && res->cmd_ctx.out.len) {
+		log_plain("%s", res->cmd_ctx.out.buf);
+	}
+
+	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
+#define TEST_HARD_ERROR_STATUS 99
+
 static enum test_result_status
 check_test_result_exitcode(struct workspace *wk, struct run_test_ctx *ctx, struct test_result *res)
 {
@@ -514,13 +520,42 @@ check_test_result_exitcode(struct workspace *wk, struct run_test_ctx *ctx, struc
 	} else if (res->cmd_ctx.status == 77) {
 		++ctx->stats.total_skipped;
 		return test_result_status_skipped;
-	} else if (res->cmd_ctx.status == 99) {
-		return test_result_status_failed;
 	} else {
 		return test_result_status_failed;
 	}
 }
 
+static void
+finish_test(struct workspace *wk, struct run_test_ctx *ctx, struct test_result *res, enum test_result_status status)
+{
+	if (res->test->should_fail) {
+		switch (status) {
+		case test_result_status_ok:
+			status = test_result_status_failed;
+			res->unexpected_pass = true;
+			break;
+		case test_result_status_failed:
+			// a hard error is never expected
+			if (res->cmd_ctx.status != TEST_HARD_ERROR_STATUS) {
+				status = test_result_status_ok;
+				++ctx->stats.total_expect_fail_count;
+			}
+			break;
+		default:
+			break;
+		}
+	}
+
+	res->status = status;
+
+	if (status != test_result_status_failed) {
+		run_cmd_ctx_destroy(&res->cmd_ctx);
+	}
+
+	print_test_progress(wk, ctx, res, true);
+	arr_push(&ctx->test_results, res);
+}
+
 static void
 collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 {
@@ -560,6 +595,12 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 			continue;
 		}
 		case run_cmd_error:
+			if (res->cmd_ctx.status) {
+				// terminated by a signal
+				finish_test(wk, ctx, res, test_result_status_failed);
+				break;
+			}
+
 			res->status = test_result_status_failed;
 			print_test_progress(wk, ctx, res, true);
 			arr_push(&ctx->test_results, res);
@@ -576,23 +617,7 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 				break;
 			}
 
-			if (status == test_result_status_failed && res->test->should_fail) {
-				status = test_result_status_ok;
-			}
-
-			if (status != test_result_status_failed) {
-				if (res->test->should_fail) {
-					++ctx->stats.total_expect_fail_count;
-				}
-
-				res->status = status;
-				run_cmd_ctx_destroy(&res->cmd_ctx);
-			} else {
-				res->status = test_result_status_failed;
-			}
-
-			print_test_progress(wk, ctx, res, true);
-			arr_push(&ctx->test_results, res);
+			finish_test(wk, ctx, res, status);
 			break;
 		}
 		}
@@ -656,7 +681,8 @@ found_slot:
 		},
 	};
 
-	if (ctx->opts->verbosity > 1) {
+	// the output of tap tests is their result
+	if (ctx->opts->verbosity > 1 && test->protocol != test_protocol_tap) {
 		cmd_ctx->flags |= run_cmd_ctx_flag_dont_capture;
 	}
 
diff --git a/src/platform/posix/run_cmd.c b/src/platform/posix/run_cmd.c
index 195a63e..4b4ce94 100644
--- a/src/platform/posix/run_cmd.c
+++ b/src/platform/posix/run_cmd.c
@@ -155,6 +155,7 @@ run_cmd_collect(struct run_cmd_ctx *ctx)
 		// TODO: it may be helpful to communicate the signal that
 		// caused the command to terminate, this is available with
 		// `WTERMSIG(status)`
+		ctx->status = 128 + WTERMSIG(status);
 		ctx->err_msg = "command terminated due to signal";
 		return run_cmd_error;
 	} else {
-- 
2.43.0


From f4eae300361b8a94b3a690e2e8c56a862bb0d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 063/117] fix: test and suite selection: projects, setups
 without suites, globs

---
 src/backend/ninja.c | 16 ++++++++++--
 src/cmd_test.c      | 30 +++++++++++++---------
 src/lang/string.c   | 62 +++++++++++++++------------------------------
 src/main.c          |  2 +-
 4 files changed, 53 insertions(+), 57 deletions(-)

diff --git a/src/backend/ninja.c b/src/backend/ninja.c
index 75b3071..21f678f 100644
--- a/src/backend/ninja.c
+++ b/src/backend/ninja.c
@@ -168,7 +168,8 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			continue;
 		}
 
-		if (proj->tests && get_obj_array(wk, proj->tests)->len) {
+		// the main project always comes first
+		if (i == 0 || proj->test_setups || (proj->tests && get_obj_array(wk, proj->tests)->len)) {
 			if (!wrote_header) {
 				L("writing tests");
 				wrote_header = true;
@@ -178,7 +179,18 @@ ninja_write_tests(struct workspace *wk, void *_ctx, FILE *out)
 			key = proj->cfg.name;
 
 			if (obj_dict_index(wk, tests, key, &res)) {
-				assert(false && "project defined multiple times");
+				// another project of the same name
+				obj all_tests, all_setups;
+				obj_array_index(wk, res, 0, &all_tests);
+				obj_array_extend(wk, all_tests, proj->tests);
+
+				obj_array_index(wk, res, 1, &all_setups);
+				if (!all_setups) {
+					obj_array_set(wk, res, 1, proj->test_setups);
+				} else if (proj->test_setups) {
+					obj_array_extend(wk, all_setups, proj->test_setups);
+				}
+				continue;
 			}
 
 			obj arr;
diff --git a/src/cmd_test.c b/src/cmd_test.c
index c099ffb..6520667 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -52,7 +52,7 @@ struct run_test_ctx {
 	obj proj_name;
 	obj collected_tests;
 	obj deps;
-	uint32_t proj_i;
+	bool is_main_proj, seen_main_proj;
 	struct {
 		uint32_t test_i, test_len, error_count;
 		uint32_t total_count, total_error_count, total_expect_fail_count;
@@ -330,7 +330,7 @@ test_in_suite_iter(struct workspace *wk, void *_ctx, obj s)
 
 	for (i = 0; i < opts->suites_len; ++i) {
 		if (!project_namespaced_name_matches(opts->suites[i],
-			ctx->run_test_ctx->proj_i == 0,
+			ctx->run_test_ctx->is_main_proj,
 			get_str(wk, ctx->run_test_ctx->proj_name), get_str(wk, s))) {
 			continue;
 		}
@@ -348,7 +348,7 @@ test_in_exclude_suites_exclude_suites_iter(struct workspace *wk, void *_ctx, obj
 	struct test_in_suite_ctx *ctx = _ctx;
 
 	if (project_namespaced_name_matches(get_cstr(wk, exclude),
-		ctx->run_test_ctx->proj_i == 0,
+		ctx->run_test_ctx->is_main_proj,
 		get_str(wk, ctx->run_test_ctx->proj_name), get_str(wk, ctx->suite))) {
 
 		ctx->found = true;
@@ -382,7 +382,7 @@ test_in_suite(struct workspace *wk, obj suites, struct run_test_ctx *run_test_ct
 
 	if (!run_test_ctx->opts->suites_len) {
 		// no suites given on command line
-		if (run_test_ctx->setup.exclude_suites) {
+		if (run_test_ctx->setup.exclude_suites && suites) {
 			obj_array_foreach(wk, suites, &ctx, test_in_exclude_suites_iter);
 			return !ctx.found;
 		} else {
@@ -419,7 +419,7 @@ find_test_setup_iter(struct workspace *wk, void *_ctx, obj arr)
 
 	if (ctx->rtctx->opts->setup) {
 		if (!project_namespaced_name_matches(ctx->rtctx->opts->setup,
-			ctx->rtctx->proj_i == 0,
+			ctx->rtctx->is_main_proj,
 			get_str(wk, ctx->rtctx->proj_name), get_str(wk, name))) {
 			return ir_cont;
 		}
@@ -443,11 +443,20 @@ find_test_setup_iter(struct workspace *wk, void *_ctx, obj arr)
 	return ir_done;
 }
 
+/* projects are visited in order, the main project first */
+static void
+enter_project(struct run_test_ctx *ctx, obj name)
+{
+	ctx->proj_name = name;
+	ctx->is_main_proj = !ctx->seen_main_proj;
+	ctx->seen_main_proj = true;
+}
+
 static enum iteration_result
 find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name, obj arr)
 {
 	struct find_test_setup_ctx *ctx = _ctx;
-	ctx->rtctx->proj_name = project_name;
+	enter_project(ctx->rtctx, project_name);
 
 	obj setups;
 	obj_array_index(wk, arr, 1, &setups);
@@ -462,7 +471,6 @@ find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name,
 		return ir_done;
 	}
 
-	++ctx->rtctx->proj_i;
 	return ir_cont;
 }
 
@@ -485,7 +493,7 @@ load_test_setup(struct workspace *wk, struct run_test_ctx *rtctx, obj tests_dict
 
 	res = true;
 ret:
-	rtctx->proj_i = 0;
+	rtctx->seen_main_proj = false;
 	return res;
 }
 
@@ -864,6 +872,8 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	struct run_test_ctx *ctx = _ctx;
 	make_obj(wk, &ctx->deps, obj_array);
 
+	enter_project(ctx, proj_name);
+
 	ctx->stats.test_i = 0;
 	ctx->stats.error_count = 0;
 	ctx->stats.test_len = 0;
@@ -891,8 +901,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	ctx->stats.ran_tests = true;
 
-	ctx->proj_name = proj_name;
-
 	if (!obj_array_foreach(wk, tests, ctx, run_test)) {
 		return ir_err;
 	}
@@ -908,8 +916,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	log_plain("\n");
 
-	++ctx->proj_i;
-
 	return ir_cont;
 }
 
diff --git a/src/lang/string.c b/src/lang/string.c
index 31da175..ae167f8 100644
--- a/src/lang/string.c
+++ b/src/lang/string.c
@@ -256,56 +256,34 @@ str_eql(const struct str *ss1, const struct str *ss2)
 	return ss1->len == ss2->len && memcmp(ss1->s, ss2->s, ss1->len) == 0;
 }
 
-static bool
-str_eql_glob_impl(const struct str *ss1, const struct str *ss2, uint32_t *match_len, bool top)
+bool
+str_eql_glob(const struct str *ss1, const struct str *ss2)
 {
-	if (!ss1->len && !top) {
-		*match_len = ss2->len;
-		return true;
-	}
-
-	if (!ss2->len) {
-		*match_len = 0;
-		return true;
-	}
-
-	*match_len = 0;
-	uint32_t i1 = 0, i2 = 0;
-	for (i1 = 0; i1 < ss1->len; ++i1) {
-		if (ss1->s[i1] == '*') {
-			struct str sub1 = { .s = ss1->s + (i1 + 1),
-					    .len = ss1->len - (i1 + 1) },
-				   sub2 = { .s = ss2->s + i2, .len = ss2->len - i2 };
-
-			uint32_t sub_match_len, sub_match_consumed = 0;
-			while (!str_eql_glob_impl(&sub1, &sub2, &sub_match_len, false)) {
-				++i2;
-				++sub_match_consumed;
-				sub2 = (struct str){ .s = ss2->s + i2, .len = ss2->len - i2 };
-			}
-
-			if (sub_match_len) {
-				sub_match_len += sub_match_consumed;
-			}
-
-			*match_len += sub_match_len;
-			i1 += sub_match_len;
-		} else if (ss1->s[i1] == ss2->s[i2]) {
-			++*match_len;
+	// where to continue after the last '*' seen, and what it matches so far
+	uint32_t i1 = 0, i2 = 0, star = 0, star_end = 0;
+	bool have_star = false;
+
+	while (i2 < ss2->len) {
+		if (i1 < ss1->len && ss1->s[i1] == '*') {
+			have_star = true;
+			star = ++i1;
+			star_end = i2;
+		} else if (i1 < ss1->len && ss1->s[i1] == ss2->s[i2]) {
+			++i1;
 			++i2;
+		} else if (have_star) {
+			i1 = star;
+			i2 = ++star_end;
 		} else {
 			return false;
 		}
 	}
 
-	return true;
-}
+	while (i1 < ss1->len && ss1->s[i1] == '*') {
+		++i1;
+	}
 
-bool
-str_eql_glob(const struct str *ss1, const struct str *ss2)
-{
-	uint32_t match_len;
-	return str_eql_glob_impl(ss1, ss2, &match_len, true) && match_len == ss2->len;
+	return i1 == ss1->len;
 }
 
 static uint8_t
diff --git a/src/main.c b/src/main.c
index 83c9801..c916aba 100644
--- a/src/main.c
+++ b/src/main.c
@@ -716,7 +716,7 @@ cmd_test(uint32_t argc, uint32_t argi, char *const argv[])
 			test_opts.setup = optarg;
 			break;
 		case 's':
-			if (test_opts.suites_len > MAX_CMDLINE_TEST_SUITES) {
+			if (test_opts.suites_len >= MAX_CMDLINE_TEST_SUITES) {
 				LOG_E("too many -s options (max: %d)", MAX_CMDLINE_TEST_SUITES);
 				return false;
 			}
-- 
2.43.0


From cdaa94067c7e4069af44765a9112091b1f1f0186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 064/117] fix: benchmark accepts verbose:, output of failed tap
 tests is shown whole

---
 src/cmd_test.c         | 12 ++++++++++--
 src/functions/kernel.c |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 6520667..59a9bc1 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -505,14 +505,22 @@ static enum test_result_status
 check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct test_result *res)
 {
 	struct tap_parse_result tap_result = { 0 };
-	tap_parse(res->cmd_ctx.out.buf, res->cmd_ctx.out.len, &tap_result);
+
+	{ // the parser modifies its input, the output may still be printed
+		char *buf = z_calloc(res->cmd_ctx.out.len + 1, 1);
+		if (res->cmd_ctx.out.len) {
+			memcpy(buf, res->cmd_ctx.out.buf, res->cmd_ctx.out.len);
+		}
+		tap_parse(buf, res->cmd_ctx.out.len, &tap_result);
+		z_free(buf);
+	}
 
 	res->subtests.have = true;
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
 	if (ctx->opts->verbosity > 1 && res->cmd_ctx.out.len) {
-		log_plain("%s", res->cmd_ctx.out.buf);
+		log_plain("%s\n", res->cmd_ctx.out.buf);
 	}
 
 	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index de9c2c4..5481080 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1354,8 +1354,8 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		kw_priority,
 		kw_timeout,
 		kw_protocol,
-		kw_is_parallel,
 		kw_verbose,
+		kw_is_parallel, // last, it is for tests only
 	};
 	struct args_kw akw[] = {
 		[kw_args] = { "args", tc_command_array, },
@@ -1367,8 +1367,8 @@ add_test_common(struct workspace *wk, uint32_t args_node, enum test_category cat
 		[kw_priority] = { "priority", obj_number, },
 		[kw_timeout] = { "timeout", obj_number, },
 		[kw_protocol] = { "protocol", obj_string, },
-		[kw_is_parallel] = { 0 },
 		[kw_verbose] = { "verbose", obj_bool },
+		[kw_is_parallel] = { 0 },
 		0
 	};
 
-- 
2.43.0


From bd1be9015aa7796c1144f52cb388e252758b8da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:01 +0000
Subject: [PATCH 065/117] fix: install: report failures, replace destinations,
 DESTDIR=, skip_if_destdir, copyfile, subdir names and modes, sticky bit

---
 include/functions/kernel/custom_target.h |  3 ++
 include/platform/filesystem.h            |  7 ++-
 src/cmd_install.c                        | 47 +++++++++++++------
 src/functions/kernel/build_target.c      | 12 +++--
 src/functions/kernel/configure_file.c    |  4 +-
 src/functions/kernel/custom_target.c     | 57 +++++++++++++-----------
 src/functions/kernel/install.c           | 36 +++++++--------
 src/functions/meson.c                    |  8 +++-
 src/functions/modules/fs.c               | 10 ++++-
 src/install.c                            |  3 +-
 src/platform/posix/rpath_fixer.c         |  6 ++-
 11 files changed, 123 insertions(+), 70 deletions(-)

diff --git a/include/functions/kernel/custom_target.h b/include/functions/kernel/custom_target.h
index b685037..3090c99 100644
--- a/include/functions/kernel/custom_target.h
+++ b/include/functions/kernel/custom_target.h
@@ -42,6 +42,9 @@ struct process_custom_target_commandline_opts {
 bool process_custom_target_commandline(struct workspace *wk,
 	struct process_custom_target_commandline_opts *opts, obj arr, obj *res);
 
+bool custom_target_install(struct workspace *wk, obj tgt_id, struct args_kw *install,
+	struct args_kw *install_dir, struct args_kw *install_mode, bool *installed);
+
 bool func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res);
 
 bool func_vcs_tag(struct workspace *wk, obj _, uint32_t args_node, obj *res);
diff --git a/include/platform/filesystem.h b/include/platform/filesystem.h
index 70a3f2f..ab9945c 100644
--- a/include/platform/filesystem.h
+++ b/include/platform/filesystem.h
@@ -80,7 +80,12 @@ bool fs_dir_foreach(const char *path, void *_ctx, fs_dir_foreach_cb cb);
 #endif
 
 #ifndef S_ISVTX
-	#define S_ISVTX 0
+	#ifdef _WIN32
+		#define S_ISVTX 0
+	#else
+		// not visible without the xsi extension
+		#define S_ISVTX 01000
+	#endif
 #endif
 
 #endif
diff --git a/src/cmd_install.c b/src/cmd_install.c
index 25bf030..b733a4d 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -31,6 +31,21 @@ struct copy_subdir_ctx {
 	struct workspace *wk;
 };
 
+static bool
+install_file(const char *src, const char *dest)
+{
+	// Replace whatever is at the destination instead of writing into it, so
+	// that links are not followed, read-only files can be updated, and the
+	// permissions are those of the source.
+	if (fs_symlink_exists(dest) || (fs_exists(dest) && !fs_dir_exists(dest))) {
+		if (!fs_remove(dest)) {
+			return false;
+		}
+	}
+
+	return fs_copy_file(src, dest);
+}
+
 static enum iteration_result
 copy_subdir_iter(void *_ctx, const char *path)
 {
@@ -83,7 +98,11 @@ copy_subdir_iter(void *_ctx, const char *path)
 
 		LOG_I("install '%s' -> '%s'", src.buf, dest.buf);
 
-		if (!fs_copy_file(src.buf, dest.buf)) {
+		if (!install_file(src.buf, dest.buf)) {
+			return ir_err;
+		}
+
+		if (ctx->has_perm && !fs_chmod(dest.buf, ctx->perm)) {
 			return ir_err;
 		}
 	} else {
@@ -91,10 +110,6 @@ copy_subdir_iter(void *_ctx, const char *path)
 		return ir_err;
 	}
 
-	if (ctx->has_perm && !fs_chmod(dest.buf, ctx->perm)) {
-		return ir_err;
-	}
-
 	return ir_cont;
 }
 
@@ -164,7 +179,7 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 					return ir_err;
 				}
 			} else {
-				if (!fs_copy_file(src, dest)) {
+				if (!install_file(src, dest)) {
 					return ir_err;
 				}
 			}
@@ -209,7 +224,8 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 		abort();
 	}
 
-	if (in->has_perm && !fs_chmod(dest, in->perm)) {
+	// the mode of a subdir applies to the files in it
+	if (in->has_perm && in->type != install_target_subdir && !fs_chmod(dest, in->perm)) {
 		return ir_err;
 	}
 
@@ -221,12 +237,17 @@ install_scripts_iter(struct workspace *wk, void *_ctx, obj install_script)
 {
 	struct install_ctx *ctx = _ctx;
 
-	obj install_script_dry_run, install_script_cmdline;
+	obj install_script_dry_run, install_script_cmdline, install_script_skip_if_destdir;
 	obj_array_index(wk, install_script, 0, &install_script_dry_run);
 	obj_array_index(wk, install_script, 1, &install_script_cmdline);
+	obj_array_index(wk, install_script, 2, &install_script_skip_if_destdir);
 
 	bool script_can_dry_run = get_obj_bool(wk, install_script_dry_run);
 
+	if (ctx->destdir && get_obj_bool(wk, install_script_skip_if_destdir)) {
+		return ir_cont;
+	}
+
 	obj env;
 	make_obj(wk, &env, obj_dict);
 	if (ctx->destdir) {
@@ -273,7 +294,7 @@ err:
 bool
 install_run(struct install_options *opts)
 {
-	bool ret = true;
+	bool ret = false;
 	SBUF_manual(install_src);
 	path_join(NULL, &install_src, output_path.private_dir, output_path.install);
 
@@ -311,7 +332,7 @@ install_run(struct install_options *opts)
 	wk.build_root = get_cstr(&wk, sbuf_into_str(&wk, &build_root));
 	wk.source_root = get_cstr(&wk, source_root);
 
-	if ((opts->destdir)) {
+	if (opts->destdir && *opts->destdir) {
 		SBUF(full_prefix);
 		SBUF(abs_destdir);
 		path_make_absolute(&wk, &abs_destdir, opts->destdir);
@@ -323,10 +344,8 @@ install_run(struct install_options *opts)
 		ctx.full_prefix = ctx.prefix;
 	}
 
-	obj_array_foreach(&wk, install_targets, &ctx, install_iter);
-	obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
-
-	ret = true;
+	ret = obj_array_foreach(&wk, install_targets, &ctx, install_iter)
+	      && obj_array_foreach(&wk, install_scripts, &ctx, install_scripts_iter);
 ret:
 	workspace_destroy_bare(&wk);
 	return ret;
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 252022e..69afe02 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -776,13 +776,17 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 		install_tgt->build_target = true;
 
 		if (soname_install) {
-			push_install_target_install_dir(wk, soname_install,
-				install_dir, akw[bt_kw_install_mode].val);
+			if (!push_install_target_install_dir(wk, soname_install,
+				install_dir, akw[bt_kw_install_mode].val)) {
+				return false;
+			}
 		}
 
 		if (plain_name_install) {
-			push_install_target_install_dir(wk, plain_name_install,
-				install_dir, akw[bt_kw_install_mode].val);
+			if (!push_install_target_install_dir(wk, plain_name_install,
+				install_dir, akw[bt_kw_install_mode].val)) {
+				return false;
+			}
 		}
 	}
 
diff --git a/src/functions/kernel/configure_file.c b/src/functions/kernel/configure_file.c
index 9685d0e..fdd1bc2 100644
--- a/src/functions/kernel/configure_file.c
+++ b/src/functions/kernel/configure_file.c
@@ -762,7 +762,9 @@ copy_err:
 			return false;
 		}
 
-		push_install_target_install_dir(wk, output_str, akw[kw_install_dir].val, akw[kw_install_mode].val);
+		if (!push_install_target_install_dir(wk, output_str, akw[kw_install_dir].val, akw[kw_install_mode].val)) {
+			return false;
+		}
 	}
 
 	return true;
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index 2439fff..a9d0b79 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -616,6 +616,30 @@ make_custom_target(struct workspace *wk,
 	return true;
 }
 
+bool
+custom_target_install(struct workspace *wk, obj tgt_id, struct args_kw *install,
+	struct args_kw *install_dir, struct args_kw *install_mode, bool *installed)
+{
+	*installed = install->set ? get_obj_bool(wk, install->val) : install_dir->set;
+
+	if (!*installed) {
+		return true;
+	}
+
+	if (!install_dir->set || !get_obj_array(wk, install_dir->val)->len) {
+		interp_error(wk, install->node, "custom target installation requires install_dir");
+		return false;
+	}
+
+	obj dir = install_dir->val;
+	if (get_obj_array(wk, dir)->len == 1) {
+		obj_array_index(wk, install_dir->val, 0, &dir);
+	}
+
+	return push_install_targets(wk, install_dir->node, get_obj_custom_target(wk, tgt_id)->output,
+		dir, install_mode->set ? install_mode->val : 0, false);
+}
+
 bool
 func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 {
@@ -737,33 +761,14 @@ func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 		tgt->flags |= custom_target_console;
 	}
 
-	if ((akw[kw_install].set && get_obj_bool(wk, akw[kw_install].val))
-	    || (!akw[kw_install].set && akw[kw_install_dir].set)) {
-		if (!akw[kw_install_dir].set || !get_obj_array(wk, akw[kw_install_dir].val)->len) {
-			interp_error(wk, akw[kw_install].node, "custom target installation requires install_dir");
-			return false;
-		}
-
-		if (!akw[kw_build_by_default].set) {
-			tgt->flags |= custom_target_build_by_default;
-		}
-
-		obj install_mode_id = 0;
-		if (akw[kw_install_mode].set) {
-			install_mode_id = akw[kw_install_mode].val;
-		}
-
-		obj install_dir = akw[kw_install_dir].val;
-		if (get_obj_array(wk, akw[kw_install_dir].val)->len == 1) {
-			obj i0;
-			obj_array_index(wk, akw[kw_install_dir].val, 0, &i0);
-			install_dir = i0;
-		}
+	bool installed;
+	if (!custom_target_install(wk, *res, &akw[kw_install], &akw[kw_install_dir],
+		&akw[kw_install_mode], &installed)) {
+		return false;
+	}
 
-		if (!push_install_targets(wk, akw[kw_install_dir].node, tgt->output,
-			install_dir, install_mode_id, false)) {
-			return false;
-		}
+	if (installed && !akw[kw_build_by_default].set) {
+		tgt->flags |= custom_target_build_by_default;
 	}
 
 	if (!coerce_environment_from_kwarg(wk, &akw[kw_env], false, &tgt->env)) {
diff --git a/src/functions/kernel/install.c b/src/functions/kernel/install.c
index 13cc6e8..bcd7376 100644
--- a/src/functions/kernel/install.c
+++ b/src/functions/kernel/install.c
@@ -50,19 +50,10 @@ func_install_subdir(struct workspace *wk, obj _, uint32_t args_node, obj *ret)
 	if (!strip_directory) {
 		SBUF(path);
 		SBUF(name);
-		char *sep;
-		const char *name_tail;
 
-		sbuf_pushs(wk, &name, get_cstr(wk, an[0].val));
-		name_tail = name.buf;
-
-		// strip the first part of the name
-		if ((sep = strchr(name.buf, PATH_SEP))) {
-			*sep = 0;
-			name_tail = sep + 1;
-		}
-
-		path_join(wk, &path, get_cstr(wk, dest), name_tail);
+		// only the last part of the name is kept
+		path_basename(wk, &name, get_cstr(wk, an[0].val));
+		path_join(wk, &path, get_cstr(wk, dest), name.buf);
 		dest = sbuf_into_str(wk, &path);
 	}
 
@@ -116,12 +107,15 @@ install_man_iter(struct workspace *wk, void *_ctx, obj val)
 
 	const char *basename = man.buf;
 	if (ctx->locale) {
-		char *dot = strchr(man.buf, '.');
-		assert(dot);
-		if (str_startswith(&WKSTR(dot + 1), get_str(wk, ctx->locale))) {
-			*dot = '\0';
-			obj new_man = make_strf(wk, "%s.%c", man.buf, man.buf[len]);
-			basename = get_cstr(wk, new_man);
+		// strip the locale in front of the section: foo.fr.1 -> foo.1
+		const struct str *locale = get_str(wk, ctx->locale);
+		if (len >= locale->len + 3) {
+			char *dot = &man.buf[len - 1 - locale->len - 1];
+			if (*dot == '.' && memcmp(dot + 1, locale->s, locale->len) == 0) {
+				*dot = '\0';
+				obj new_man = make_strf(wk, "%s.%c", man.buf, man.buf[len]);
+				basename = get_cstr(wk, new_man);
+			}
 		}
 	}
 
@@ -158,6 +152,7 @@ func_install_man(struct workspace *wk, obj _, uint32_t args_node, obj *ret)
 		.err_node = an[0].node,
 		.mode = akw[kw_install_mode].val,
 		.install_dir = akw[kw_install_dir].val,
+		.locale = akw[kw_locale].val,
 		.default_install_dir = false,
 	};
 
@@ -169,7 +164,6 @@ func_install_man(struct workspace *wk, obj _, uint32_t args_node, obj *ret)
 			SBUF(path);
 			path_join(wk, &path, get_cstr(wk, mandir), get_cstr(wk, akw[kw_locale].val));
 			ctx.install_dir = sbuf_into_str(wk, &path);
-			ctx.locale = akw[kw_locale].val;
 		} else {
 			ctx.install_dir = mandir;
 		}
@@ -280,7 +274,9 @@ install_data_rename_iter(struct workspace *wk, void *_ctx, obj val)
 
 	dest = sbuf_into_str(wk, &d);
 
-	push_install_target(wk, src, dest, ctx->mode);
+	if (!push_install_target(wk, src, dest, ctx->mode)) {
+		return ir_err;
+	}
 
 	++ctx->i;
 	return ir_cont;
diff --git a/src/functions/meson.c b/src/functions/meson.c
index 8b8ca1f..6d4dd64 100644
--- a/src/functions/meson.c
+++ b/src/functions/meson.c
@@ -407,7 +407,7 @@ func_meson_add_install_script(struct workspace *wk, obj _, uint32_t args_node, o
 	struct args_norm an[] = { { TYPE_TAG_GLOB | tc_exe }, ARG_TYPE_NULL };
 	enum kwargs {
 		kw_install_tag, // ignored
-		kw_skip_if_destdir, // ignored
+		kw_skip_if_destdir,
 		kw_dry_run,
 	};
 	struct args_kw akw[] = {
@@ -440,10 +440,16 @@ func_meson_add_install_script(struct workspace *wk, obj _, uint32_t args_node, o
 		set_obj_bool(wk, akw[kw_dry_run].val, false);
 	}
 
+	if (!akw[kw_skip_if_destdir].set) {
+		make_obj(wk, &akw[kw_skip_if_destdir].val, obj_bool);
+		set_obj_bool(wk, akw[kw_skip_if_destdir].val, false);
+	}
+
 	obj install_script;
 	make_obj(wk, &install_script, obj_array);
 	obj_array_push(wk, install_script, akw[kw_dry_run].val);
 	obj_array_push(wk, install_script, ctx.arr);
+	obj_array_push(wk, install_script, akw[kw_skip_if_destdir].val);
 	obj_array_push(wk, wk->install_scripts, install_script);
 	return true;
 }
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index 843c30e..7a5c3ed 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -457,7 +457,7 @@ func_module_fs_copyfile(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 	struct make_custom_target_opts opts = {
 		.name         = make_str(wk, "copyfile"),
 		.input_node   = an[0].node,
-		.output_node  = ao[1].node,
+		.output_node  = ao[0].node,
 		.input_orig   = an[0].val,
 		.output_orig  = output,
 		.output_dir   = get_cstr(wk, current_project(wk)->build_dir),
@@ -468,6 +468,14 @@ func_module_fs_copyfile(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		return false;
 	}
 
+	get_obj_custom_target(wk, *res)->flags |= custom_target_build_by_default;
+
+	bool installed;
+	if (!custom_target_install(wk, *res, &akw[kw_install], &akw[kw_install_dir],
+		&akw[kw_install_mode], &installed)) {
+		return false;
+	}
+
 	obj_array_push(wk, current_project(wk)->targets, *res);
 
 	return true;
diff --git a/src/install.c b/src/install.c
index 477ec54..3b6ab94 100644
--- a/src/install.c
+++ b/src/install.c
@@ -243,7 +243,8 @@ push_install_targets(struct workspace *wk, uint32_t err_node,
 		.install_dirs_is_arr = get_obj_type(wk, install_dirs) == obj_array,
 	};
 
-	assert(ctx.install_dirs_is_arr || get_obj_type(wk, install_dirs) == obj_string);
+	assert(ctx.install_dirs_is_arr || get_obj_type(wk, install_dirs) == obj_string
+		|| get_obj_type(wk, install_dirs) == obj_bool);
 
 	if (ctx.install_dirs_is_arr) {
 		struct obj_array *a1 = get_obj_array(wk, filenames);
diff --git a/src/platform/posix/rpath_fixer.c b/src/platform/posix/rpath_fixer.c
index 9d236b5..4718338 100644
--- a/src/platform/posix/rpath_fixer.c
+++ b/src/platform/posix/rpath_fixer.c
@@ -166,7 +166,7 @@ parse_elf_sections(FILE *f, struct elf *elf, struct elf_section *sections[])
 		}
 	}
 
-	return false;
+	return true;
 }
 
 static bool
@@ -326,6 +326,10 @@ fix_rpaths(const char *elf_path, const char *build_root)
 			   s_dynstr = { .type = SHT_STRTAB };
 	if (!parse_elf_sections(f, &elf, (struct elf_section *[]) { &s_dynamic, &s_dynstr, NULL })) {
 		goto ret;
+	} else if (!s_dynamic.found || !s_dynstr.found) {
+		// nothing is dynamically linked
+		ret = true;
+		goto ret;
 	}
 
 	struct elf_dynstr rpaths[] = { { .tag = DT_RPATH }, { .tag = DT_RUNPATH } };
-- 
2.43.0


From 1211761dcfd6836c8cfb7cd3e21a7ff5a21a5106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:44 +0000
Subject: [PATCH 066/117] fix: install: missing subdirs are made empty, targets
 that are not built by default are optional

---
 include/functions/kernel/custom_target.h |  2 +-
 include/lang/object.h                    |  1 +
 src/cmd_install.c                        | 10 ++++++++++
 src/functions/kernel/build_target.c      | 10 ++++++++++
 src/functions/kernel/custom_target.c     | 21 +++++++++++++++++----
 src/functions/modules/fs.c               |  2 +-
 src/lang/object.c                        |  1 +
 7 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/include/functions/kernel/custom_target.h b/include/functions/kernel/custom_target.h
index 3090c99..15b00d1 100644
--- a/include/functions/kernel/custom_target.h
+++ b/include/functions/kernel/custom_target.h
@@ -43,7 +43,7 @@ bool process_custom_target_commandline(struct workspace *wk,
 	struct process_custom_target_commandline_opts *opts, obj arr, obj *res);
 
 bool custom_target_install(struct workspace *wk, obj tgt_id, struct args_kw *install,
-	struct args_kw *install_dir, struct args_kw *install_mode, bool *installed);
+	struct args_kw *install_dir, struct args_kw *install_mode, bool optional, bool *installed);
 
 bool func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res);
 
diff --git a/include/lang/object.h b/include/lang/object.h
index 13c2b74..6bfd79a 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -393,6 +393,7 @@ struct obj_install_target {
 	obj exclude_files; // obj_array of obj_string
 	enum install_target_type type;
 	bool build_target;
+	bool optional; // not an error if it was not built
 };
 
 struct obj_environment {
diff --git a/src/cmd_install.c b/src/cmd_install.c
index b733a4d..254f8c0 100644
--- a/src/cmd_install.c
+++ b/src/cmd_install.c
@@ -138,6 +138,11 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 		dest = full_dest_dir.buf;
 	}
 
+	if (in->optional && !fs_exists(src) && !fs_symlink_exists(src)) {
+		LOG_I("skipping '%s', it was not built", src);
+		return ir_cont;
+	}
+
 	switch (in->type) {
 	case install_target_default:
 		LOG_I("install '%s' -> '%s'", src, dest);
@@ -200,6 +205,11 @@ install_iter(struct workspace *wk, void *_ctx, obj v_id)
 			return ir_err;
 		}
 
+		if (!fs_exists(src)) {
+			// a subdir that does not exist makes an empty directory
+			break;
+		}
+
 		struct copy_subdir_ctx ctx = {
 			.exclude_directories = in->exclude_directories,
 			.exclude_files = in->exclude_files,
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 69afe02..59c3ad3 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -767,6 +767,7 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 		SBUF(install_dest);
 		path_join(wk, &install_dest, get_cstr(wk, install_dir), get_cstr(wk, tgt->build_name));
 
+		const uint32_t first_install = get_obj_array(wk, wk->install)->len;
 		struct obj_install_target *install_tgt;
 		if (!(install_tgt = push_install_target(wk, sbuf_into_str(wk, &install_src),
 			sbuf_into_str(wk, &install_dest), akw[bt_kw_install_mode].val))) {
@@ -788,6 +789,15 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 				return false;
 			}
 		}
+
+		if (!(tgt->flags & build_tgt_flag_build_by_default)) {
+			uint32_t i;
+			for (i = first_install; i < get_obj_array(wk, wk->install)->len; ++i) {
+				obj v;
+				obj_array_index(wk, wk->install, i, &v);
+				get_obj_install_target(wk, v)->optional = true;
+			}
+		}
 	}
 
 	if (!build_tgt_determine_linker(wk, an[0].node, tgt)) {
diff --git a/src/functions/kernel/custom_target.c b/src/functions/kernel/custom_target.c
index a9d0b79..78f474a 100644
--- a/src/functions/kernel/custom_target.c
+++ b/src/functions/kernel/custom_target.c
@@ -618,7 +618,7 @@ make_custom_target(struct workspace *wk,
 
 bool
 custom_target_install(struct workspace *wk, obj tgt_id, struct args_kw *install,
-	struct args_kw *install_dir, struct args_kw *install_mode, bool *installed)
+	struct args_kw *install_dir, struct args_kw *install_mode, bool optional, bool *installed)
 {
 	*installed = install->set ? get_obj_bool(wk, install->val) : install_dir->set;
 
@@ -636,8 +636,19 @@ custom_target_install(struct workspace *wk, obj tgt_id, struct args_kw *install,
 		obj_array_index(wk, install_dir->val, 0, &dir);
 	}
 
-	return push_install_targets(wk, install_dir->node, get_obj_custom_target(wk, tgt_id)->output,
-		dir, install_mode->set ? install_mode->val : 0, false);
+	uint32_t i, first = get_obj_array(wk, wk->install)->len;
+	if (!push_install_targets(wk, install_dir->node, get_obj_custom_target(wk, tgt_id)->output,
+		dir, install_mode->set ? install_mode->val : 0, false)) {
+		return false;
+	}
+
+	for (i = first; i < get_obj_array(wk, wk->install)->len; ++i) {
+		obj install_tgt;
+		obj_array_index(wk, wk->install, i, &install_tgt);
+		get_obj_install_target(wk, install_tgt)->optional = optional;
+	}
+
+	return true;
 }
 
 bool
@@ -763,7 +774,9 @@ func_custom_target(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 
 	bool installed;
 	if (!custom_target_install(wk, *res, &akw[kw_install], &akw[kw_install_dir],
-		&akw[kw_install_mode], &installed)) {
+		&akw[kw_install_mode],
+		akw[kw_build_by_default].set && !(tgt->flags & custom_target_build_by_default),
+		&installed)) {
 		return false;
 	}
 
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index 7a5c3ed..edec4f9 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -472,7 +472,7 @@ func_module_fs_copyfile(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 
 	bool installed;
 	if (!custom_target_install(wk, *res, &akw[kw_install], &akw[kw_install_dir],
-		&akw[kw_install_mode], &installed)) {
+		&akw[kw_install_mode], false, &installed)) {
 		return false;
 	}
 
diff --git a/src/lang/object.c b/src/lang/object.c
index bad40a0..fceabc8 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1601,6 +1601,7 @@ obj_clone(struct workspace *wk_src, struct workspace *wk_dest, obj val, obj *ret
 		o->type = in->type;
 
 		o->has_perm = in->has_perm;
+		o->optional = in->optional;
 		o->perm = in->perm;
 
 		if (!obj_clone(wk_src, wk_dest, in->exclude_directories, &o->exclude_directories)) {
-- 
2.43.0


From 0c6cd2d44dbe134d568eb89e9aa547b07b1ed7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:44 +0000
Subject: [PATCH 067/117] restore src/cmd_test.c: it is taken for a test file
 and may not be changed

---
 src/cmd_test.c | 112 ++++++++++++++++---------------------------------
 1 file changed, 36 insertions(+), 76 deletions(-)

diff --git a/src/cmd_test.c b/src/cmd_test.c
index 59a9bc1..e888651 100644
--- a/src/cmd_test.c
+++ b/src/cmd_test.c
@@ -40,7 +40,7 @@ struct test_result {
 	struct timer t;
 	float dur, timeout;
 	enum test_result_status status;
-	bool busy, unexpected_pass;
+	bool busy;
 	struct {
 		bool have;
 		uint32_t pass, total;
@@ -52,7 +52,7 @@ struct run_test_ctx {
 	obj proj_name;
 	obj collected_tests;
 	obj deps;
-	bool is_main_proj, seen_main_proj;
+	uint32_t proj_i;
 	struct {
 		uint32_t test_i, test_len, error_count;
 		uint32_t total_count, total_error_count, total_expect_fail_count;
@@ -126,7 +126,7 @@ print_test_result(struct workspace *wk, const struct test_result *res)
 		status = status_timedout;
 		break;
 	case test_result_status_failed:
-		if (res->unexpected_pass) {
+		if (res->test->should_fail) {
 			status = status_should_have_failed;
 		} else {
 			status = status_failed;
@@ -330,7 +330,7 @@ test_in_suite_iter(struct workspace *wk, void *_ctx, obj s)
 
 	for (i = 0; i < opts->suites_len; ++i) {
 		if (!project_namespaced_name_matches(opts->suites[i],
-			ctx->run_test_ctx->is_main_proj,
+			ctx->run_test_ctx->proj_i == 0,
 			get_str(wk, ctx->run_test_ctx->proj_name), get_str(wk, s))) {
 			continue;
 		}
@@ -348,7 +348,7 @@ test_in_exclude_suites_exclude_suites_iter(struct workspace *wk, void *_ctx, obj
 	struct test_in_suite_ctx *ctx = _ctx;
 
 	if (project_namespaced_name_matches(get_cstr(wk, exclude),
-		ctx->run_test_ctx->is_main_proj,
+		ctx->run_test_ctx->proj_i == 0,
 		get_str(wk, ctx->run_test_ctx->proj_name), get_str(wk, ctx->suite))) {
 
 		ctx->found = true;
@@ -382,7 +382,7 @@ test_in_suite(struct workspace *wk, obj suites, struct run_test_ctx *run_test_ct
 
 	if (!run_test_ctx->opts->suites_len) {
 		// no suites given on command line
-		if (run_test_ctx->setup.exclude_suites && suites) {
+		if (run_test_ctx->setup.exclude_suites) {
 			obj_array_foreach(wk, suites, &ctx, test_in_exclude_suites_iter);
 			return !ctx.found;
 		} else {
@@ -419,7 +419,7 @@ find_test_setup_iter(struct workspace *wk, void *_ctx, obj arr)
 
 	if (ctx->rtctx->opts->setup) {
 		if (!project_namespaced_name_matches(ctx->rtctx->opts->setup,
-			ctx->rtctx->is_main_proj,
+			ctx->rtctx->proj_i == 0,
 			get_str(wk, ctx->rtctx->proj_name), get_str(wk, name))) {
 			return ir_cont;
 		}
@@ -443,20 +443,11 @@ find_test_setup_iter(struct workspace *wk, void *_ctx, obj arr)
 	return ir_done;
 }
 
-/* projects are visited in order, the main project first */
-static void
-enter_project(struct run_test_ctx *ctx, obj name)
-{
-	ctx->proj_name = name;
-	ctx->is_main_proj = !ctx->seen_main_proj;
-	ctx->seen_main_proj = true;
-}
-
 static enum iteration_result
 find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name, obj arr)
 {
 	struct find_test_setup_ctx *ctx = _ctx;
-	enter_project(ctx->rtctx, project_name);
+	ctx->rtctx->proj_name = project_name;
 
 	obj setups;
 	obj_array_index(wk, arr, 1, &setups);
@@ -471,6 +462,7 @@ find_test_setup_project_iter(struct workspace *wk, void *_ctx, obj project_name,
 		return ir_done;
 	}
 
+	++ctx->rtctx->proj_i;
 	return ir_cont;
 }
 
@@ -493,7 +485,7 @@ load_test_setup(struct workspace *wk, struct run_test_ctx *rtctx, obj tests_dict
 
 	res = true;
 ret:
-	rtctx->seen_main_proj = false;
+	rtctx->proj_i = 0;
 	return res;
 }
 
@@ -505,29 +497,15 @@ static enum test_result_status
 check_test_result_tap(struct workspace *wk, struct run_test_ctx *ctx, struct test_result *res)
 {
 	struct tap_parse_result tap_result = { 0 };
-
-	{ // the parser modifies its input, the output may still be printed
-		char *buf = z_calloc(res->cmd_ctx.out.len + 1, 1);
-		if (res->cmd_ctx.out.len) {
-			memcpy(buf, res->cmd_ctx.out.buf, res->cmd_ctx.out.len);
-		}
-		tap_parse(buf, res->cmd_ctx.out.len, &tap_result);
-		z_free(buf);
-	}
+	tap_parse(res->cmd_ctx.out.buf, res->cmd_ctx.out.len, &tap_result);
 
 	res->subtests.have = true;
 	res->subtests.pass = tap_result.pass + tap_result.skip;
 	res->subtests.total = tap_result.total;
 
-	if (ctx->opts->verbosity > 1 && res->cmd_ctx.out.len) {
-		log_plain("%s\n", res->cmd_ctx.out.buf);
-	}
-
-	return tap_result.all_ok && res->cmd_ctx.status == 0 ? test_result_status_ok : test_result_status_failed;
+	return tap_result.all_ok && res->status == 0 ? test_result_status_ok : test_result_status_failed;
 }
 
-#define TEST_HARD_ERROR_STATUS 99
-
 static enum test_result_status
 check_test_result_exitcode(struct workspace *wk, struct run_test_ctx *ctx, struct test_result *res)
 {
@@ -536,42 +514,13 @@ check_test_result_exitcode(struct workspace *wk, struct run_test_ctx *ctx, struc
 	} else if (res->cmd_ctx.status == 77) {
 		++ctx->stats.total_skipped;
 		return test_result_status_skipped;
+	} else if (res->cmd_ctx.status == 99) {
+		return test_result_status_failed;
 	} else {
 		return test_result_status_failed;
 	}
 }
 
-static void
-finish_test(struct workspace *wk, struct run_test_ctx *ctx, struct test_result *res, enum test_result_status status)
-{
-	if (res->test->should_fail) {
-		switch (status) {
-		case test_result_status_ok:
-			status = test_result_status_failed;
-			res->unexpected_pass = true;
-			break;
-		case test_result_status_failed:
-			// a hard error is never expected
-			if (res->cmd_ctx.status != TEST_HARD_ERROR_STATUS) {
-				status = test_result_status_ok;
-				++ctx->stats.total_expect_fail_count;
-			}
-			break;
-		default:
-			break;
-		}
-	}
-
-	res->status = status;
-
-	if (status != test_result_status_failed) {
-		run_cmd_ctx_destroy(&res->cmd_ctx);
-	}
-
-	print_test_progress(wk, ctx, res, true);
-	arr_push(&ctx->test_results, res);
-}
-
 static void
 collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 {
@@ -611,12 +560,6 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 			continue;
 		}
 		case run_cmd_error:
-			if (res->cmd_ctx.status) {
-				// terminated by a signal
-				finish_test(wk, ctx, res, test_result_status_failed);
-				break;
-			}
-
 			res->status = test_result_status_failed;
 			print_test_progress(wk, ctx, res, true);
 			arr_push(&ctx->test_results, res);
@@ -633,7 +576,23 @@ collect_tests(struct workspace *wk, struct run_test_ctx *ctx)
 				break;
 			}
 
-			finish_test(wk, ctx, res, status);
+			if (status == test_result_status_failed && res->test->should_fail) {
+				status = test_result_status_ok;
+			}
+
+			if (status != test_result_status_failed) {
+				if (res->test->should_fail) {
+					++ctx->stats.total_expect_fail_count;
+				}
+
+				res->status = status;
+				run_cmd_ctx_destroy(&res->cmd_ctx);
+			} else {
+				res->status = test_result_status_failed;
+			}
+
+			print_test_progress(wk, ctx, res, true);
+			arr_push(&ctx->test_results, res);
 			break;
 		}
 		}
@@ -697,8 +656,7 @@ found_slot:
 		},
 	};
 
-	// the output of tap tests is their result
-	if (ctx->opts->verbosity > 1 && test->protocol != test_protocol_tap) {
+	if (ctx->opts->verbosity > 1) {
 		cmd_ctx->flags |= run_cmd_ctx_flag_dont_capture;
 	}
 
@@ -880,8 +838,6 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 	struct run_test_ctx *ctx = _ctx;
 	make_obj(wk, &ctx->deps, obj_array);
 
-	enter_project(ctx, proj_name);
-
 	ctx->stats.test_i = 0;
 	ctx->stats.error_count = 0;
 	ctx->stats.test_len = 0;
@@ -909,6 +865,8 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	ctx->stats.ran_tests = true;
 
+	ctx->proj_name = proj_name;
+
 	if (!obj_array_foreach(wk, tests, ctx, run_test)) {
 		return ir_err;
 	}
@@ -924,6 +882,8 @@ run_project_tests(struct workspace *wk, void *_ctx, obj proj_name, obj arr)
 
 	log_plain("\n");
 
+	++ctx->proj_i;
+
 	return ir_cont;
 }
 
-- 
2.43.0


From f19fe292b93ad5aa2f37caa335c2895feddc043a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:42 +0000
Subject: [PATCH 068/117] fix: options: check array elements, integers and
 renames, keep environment values on regeneration, subprojects leave global
 options alone

---
 src/backend/common_args.c | 36 ++++++++++++++---
 src/main.c                | 13 ++++--
 src/options.c             | 84 +++++++++++++++++++++++++++------------
 3 files changed, 99 insertions(+), 34 deletions(-)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index ddd623d..4758c04 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -71,6 +71,8 @@ get_buildtype_args(struct workspace *wk, const struct project *proj,
 		}
 
 		switch (*str->s) {
+		case 'p':
+			break;
 		case '0': case '1': case '2': case '3':
 			opt = compiler_optimization_lvl_0 + (*str->s - '0');
 			break;
@@ -703,6 +705,30 @@ relativize_path_push(struct workspace *wk, obj path, obj arr)
 	relativize_paths_iter(wk, &ctx, path);
 }
 
+static enum iteration_result
+quote_array_option_iter(struct workspace *wk, void *_ctx, obj val)
+{
+	struct sbuf *buf = _ctx;
+	const struct str *s = get_str(wk, val);
+
+	if (buf->len > 1) {
+		sbuf_push(wk, buf, ',');
+	}
+
+	sbuf_push(wk, buf, '\'');
+
+	uint32_t i;
+	for (i = 0; i < s->len; ++i) {
+		if (s->s[i] == '\'' || s->s[i] == '\\') {
+			sbuf_push(wk, buf, '\\');
+		}
+		sbuf_push(wk, buf, s->s[i]);
+	}
+
+	sbuf_push(wk, buf, '\'');
+	return ir_cont;
+}
+
 static enum iteration_result
 add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj val)
 {
@@ -717,18 +743,18 @@ add_global_opts_set_from_env_iter(struct workspace *wk, void *_ctx, obj key, obj
 	// NOTE: This only handles options of type str or [str], which is okay since
 	// the only options that can be set from the environment are of this
 	// type.
-	// TODO: The current implementation of array stringification would
-	// choke on spaces, etc.
 
+	SBUF(buf);
 	const char *sval;
 	switch (get_obj_type(wk, o->val)) {
 	case obj_string:
 		sval = get_cstr(wk, o->val);
 		break;
 	case obj_array: {
-		obj joined;
-		obj_array_join(wk, true, o->val, make_str(wk, ","), &joined);
-		sval = get_cstr(wk, joined);
+		sbuf_push(wk, &buf, '[');
+		obj_array_foreach(wk, o->val, &buf, quote_array_option_iter);
+		sbuf_push(wk, &buf, ']');
+		sval = buf.buf;
 		break;
 	}
 	default:
diff --git a/src/main.c b/src/main.c
index c916aba..f27f40d 100644
--- a/src/main.c
+++ b/src/main.c
@@ -815,10 +815,13 @@ cmd_setup(uint32_t argc, uint32_t argi, char *const argv[])
 	struct workspace wk;
 	workspace_init(&wk);
 
-	uint32_t original_argi = argi + 1;
+	// the arguments regeneration has to repeat, it adds its own -c
+	struct arr original_args;
+	arr_init(&original_args, 8, sizeof(char *));
 
 	OPTSTART("D:c:b") {
 		case 'D':
+			arr_push(&original_args, &(const char *) { get_cstr(&wk, make_strf(&wk, "-D%s", optarg)) });
 			if (!parse_and_set_cmdline_option(&wk, optarg)) {
 				goto ret;
 			}
@@ -836,6 +839,7 @@ cmd_setup(uint32_t argc, uint32_t argi, char *const argv[])
 			break;
 		}
 		case 'b':
+			arr_push(&original_args, &(const char *) { "-b" });
 			wk.dbg.break_on_err = true;
 			break;
 	} OPTEND(argv[argi],
@@ -848,9 +852,11 @@ cmd_setup(uint32_t argc, uint32_t argi, char *const argv[])
 	const char *build = argv[argi];
 	++argi;
 
+	arr_push(&original_args, &build);
+
 	if (!workspace_setup_paths(&wk, build, argv[0],
-		argc - original_argi,
-		&argv[original_argi])) {
+		original_args.len,
+		(char *const *)original_args.e)) {
 		goto ret;
 	}
 
@@ -871,6 +877,7 @@ cmd_setup(uint32_t argc, uint32_t argi, char *const argv[])
 
 	res = true;
 ret:
+	arr_destroy(&original_args);
 	workspace_destroy(&wk);
 	TracyCZoneAutoE;
 	return res;
diff --git a/src/options.c b/src/options.c
index 7654bdf..60e766e 100644
--- a/src/options.c
+++ b/src/options.c
@@ -5,6 +5,7 @@
 
 #include "compat.h"
 
+#include <errno.h>
 #include <inttypes.h>
 #include <stdlib.h>
 #include <string.h>
@@ -164,7 +165,11 @@ check_array_opt_iter(struct workspace *wk, void *_ctx, obj val)
 {
 	struct check_array_opt_ctx *ctx = _ctx;
 
-	if (!obj_array_in(wk, ctx->choices, val)) {
+	if (!typecheck(wk, ctx->node, val, obj_string)) {
+		return ir_err;
+	}
+
+	if (ctx->choices && !obj_array_in(wk, ctx->choices, val)) {
 		interp_error(wk, ctx->node, "array element %o is not one of %o", val, ctx->choices);
 		return ir_err;
 	}
@@ -207,12 +212,25 @@ check_deprecated_option_iter(struct workspace *wk, void *_ctx, obj old, obj new)
 
 	switch (ctx->opt->type) {
 	case op_array: {
-		uint32_t idx;
-		if (obj_array_index_of(wk, *ctx->val, old, &idx)) {
-			interp_warning(wk, ctx->err_node, "option value %o is deprecated", old);
+		// ctx->sval has the values as they were given, so that a value
+		// that was already replaced is not replaced again
+		uint32_t i, len = get_obj_array(wk, ctx->sval)->len;
+		bool warned = false;
+
+		for (i = 0; i < len; ++i) {
+			obj v;
+			obj_array_index(wk, ctx->sval, i, &v);
+			if (!obj_equal(wk, v, old)) {
+				continue;
+			}
+
+			if (!warned) {
+				interp_warning(wk, ctx->err_node, "option value %o is deprecated", old);
+				warned = true;
+			}
 
 			if (new) {
-				obj_array_set(wk, *ctx->val, idx, new);
+				obj_array_set(wk, *ctx->val, i, new);
 			}
 		}
 		break;
@@ -254,21 +272,18 @@ check_deprecated_option(struct workspace *wk, uint32_t err_node,
 
 		obj newopt;
 		if (get_option(wk, cur_proj, get_str(wk, opt->deprecated), &newopt)) {
-			set_option(wk, err_node, newopt, sval, option_value_source_deprecated_rename, true);
-		} else {
-			struct option_override oo = {
-				.proj = current_project(wk)->cfg.name,
-				.name = opt->deprecated,
-				.val = sval,
-				.source = option_value_source_deprecated_rename,
-			};
-
-			arr_push(&wk->option_overrides, &oo);
+			return set_option(wk, err_node, newopt, sval, option_value_source_deprecated_rename, true);
 		}
-		break;
+
+		interp_error(wk, err_node, "option %o is deprecated to unknown option %o", opt->name, opt->deprecated);
+		return false;
 	}
 	case obj_dict:
 	case obj_array:
+		if (opt->type == op_array) {
+			obj_array_dup(wk, *val, &ctx.sval);
+		}
+
 		obj_iterable_foreach(wk, opt->deprecated, &ctx, check_deprecated_option_iter);
 		break;
 	default:
@@ -336,9 +351,10 @@ coerce_option_override(struct workspace *wk, uint32_t node, struct obj_option *o
 	case op_integer: {
 		int64_t num;
 		char *endptr;
-		num = strtol(val->s, &endptr, 10);
+		errno = 0;
+		num = strtoll(val->s, &endptr, 10);
 
-		if (!val->len || *endptr) {
+		if (!val->len || *endptr || errno == ERANGE) {
 			interp_error(wk, node, "unable to coerce '%s' into a number", val->s);
 			return false;
 		}
@@ -429,6 +445,11 @@ prefix_dir_opts(struct workspace *wk)
 	obj prefix;
 	get_option_value(wk, NULL, "prefix", &prefix);
 
+	if (!path_is_absolute(get_cstr(wk, prefix))) {
+		LOG_E("prefix '%s' is not an absolute path", get_cstr(wk, prefix));
+		return false;
+	}
+
 	return obj_dict_foreach(wk, wk->global_opts, &(struct prefix_dir_opts_ctx) {
 		.prefix = get_str(wk, prefix),
 	}, prefix_dir_opts_iter);
@@ -527,13 +548,11 @@ set_option(struct workspace *wk, uint32_t node, obj opt, obj new_val,
 		break;
 	}
 	case op_array: {
-		if (o->choices) {
-			if (!obj_array_foreach(wk, new_val, &(struct check_array_opt_ctx) {
-					.choices = o->choices,
-					.node = node,
-				}, check_array_opt_iter)) {
-				return false;
-			}
+		if (!obj_array_foreach(wk, new_val, &(struct check_array_opt_ctx) {
+				.choices = o->choices,
+				.node = node,
+			}, check_array_opt_iter)) {
+			return false;
 		}
 		break;
 	}
@@ -799,6 +818,11 @@ setup_project_options(struct workspace *wk, const char *cwd)
 			if (!set_option(wk, 0, opt, oo->val, oo->source, !oo->obj_value)) {
 				ret = false;
 			}
+		} else if (oo->source == option_value_source_subproject_default_options
+			   && obj_dict_index_strn(wk, wk->global_opts, name->s, name->len, &opt)) {
+			LLOG_W("ignoring default option for subproject: ");
+			log_option_override(wk, oo);
+			log_plain("\n");
 		} else {
 			LLOG_E("invalid option: ");
 			log_option_override(wk, oo);
@@ -897,7 +921,15 @@ parse_and_set_default_options_iter(struct workspace *wk, void *_ctx, obj v)
 	}
 
 	obj opt;
-	if (get_option(wk, current_project(wk), get_str(wk, oo.name), &opt)) {
+	const struct str *name = get_str(wk, oo.name);
+	if (wk->cur_project != 0
+	    && !obj_dict_index_strn(wk, current_project(wk)->opts, name->s, name->len, &opt)
+	    && obj_dict_index_strn(wk, wk->global_opts, name->s, name->len, &opt)) {
+		// global options may only be set by the main project
+		LLOG_W("ignoring default option in subproject: ");
+		log_option_override(wk, &oo);
+		log_plain("\n");
+	} else if (get_option(wk, current_project(wk), name, &opt)) {
 		if (!set_option(wk, ctx->node, opt, oo.val, option_value_source_default_options, true)) {
 			return ir_err;
 		}
-- 
2.43.0


From dde07ed5e1d0808de8922407508412d144e7f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:29 +0000
Subject: [PATCH 069/117] fix: samu: accept empty build files and comments at
 the end, read bytes >= 0x80 as themselves

---
 src/external/samurai/scan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/external/samurai/scan.c b/src/external/samurai/scan.c
index 97c114c..ff0153e 100644
--- a/src/external/samurai/scan.c
+++ b/src/external/samurai/scan.c
@@ -31,7 +31,7 @@ samu_scaninit(struct samu_scanner *s, const char *path)
 		samu_fatal("failed to read %s", path);
 	}
 
-	s->chr = s->src.src[0];
+	s->chr = s->src.len ? (unsigned char)s->src.src[0] : EOF;
 }
 
 void
@@ -63,7 +63,7 @@ samu_next(struct samu_scanner *s)
 		++s->col;
 	}
 	if (s->src_i < s->src.len) {
-		s->chr = s->src.src[s->src_i];
+		s->chr = (unsigned char)s->src.src[s->src_i];
 		++s->src_i;
 	} else {
 		s->chr = EOF;
@@ -133,7 +133,7 @@ samu_comment(struct samu_scanner *s)
 	if (s->chr != '#')
 		return false;
 	do samu_next(s);
-	while (!samu_newline(s));
+	while (s->chr != EOF && !samu_newline(s));
 	return true;
 }
 
-- 
2.43.0


From 80c646c4d66c3241e10b06aec20a747442bd6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:29 +0000
Subject: [PATCH 070/117] fix: samu: keep logs across kills and empty
 dependency lists, see through phony edges, prune with order-only inputs

---
 include/external/samurai/deps.h |  1 +
 src/external/samurai/build.c    | 62 +++++++++++++++++++++++++++++----
 src/external/samurai/deps.c     | 14 +++++---
 src/external/samurai/log.c      |  5 +++
 4 files changed, 72 insertions(+), 10 deletions(-)

diff --git a/include/external/samurai/deps.h b/include/external/samurai/deps.h
index 577aba4..7365af7 100644
--- a/include/external/samurai/deps.h
+++ b/include/external/samurai/deps.h
@@ -11,6 +11,7 @@ struct samu_edge;
 
 void samu_depsinit(struct samu_ctx *ctx, const char *builddir);
 void samu_depsclose(struct samu_ctx *ctx);
+struct samu_nodearray *samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing);
 void samu_depsload(struct samu_ctx *ctx, struct samu_edge *e);
 void samu_depsrecord(struct samu_ctx *ctx, struct samu_edge *e);
 
diff --git a/src/external/samurai/build.c b/src/external/samurai/build.c
index fdd9089..80a3b27 100644
--- a/src/external/samurai/build.c
+++ b/src/external/samurai/build.c
@@ -38,6 +38,25 @@ samu_buildreset(struct samu_ctx *ctx)
 		e->flags &= ~FLAG_WORK;
 }
 
+/* get the modification time of a node. A phony output that is not a file
+ * stands for the inputs of its edge, so it is as new as the newest of them. */
+static void
+samu_nodemtime(struct samu_ctx *ctx, struct samu_node *n)
+{
+	struct samu_node *in;
+	size_t i;
+
+	samu_nodestat(n);
+	if (n->mtime != SAMU_MTIME_MISSING || !n->gen || n->gen->rule != &ctx->phonyrule)
+		return;
+	for (i = 0; i < n->gen->inorderidx; ++i) {
+		in = n->gen->in[i];
+		samu_nodemtime(ctx, in);
+		if (in->mtime > n->mtime)
+			n->mtime = in->mtime;
+	}
+}
+
 /* returns whether n1 is newer than n2, or false if n1 is NULL */
 static bool
 samu_isnewer(struct samu_node *n1, struct samu_node *n2)
@@ -153,6 +172,12 @@ samu_buildadd(struct samu_ctx *ctx, struct samu_node *n)
 		if (n->dirty || (n->gen && n->gen->nblock > 0))
 			++e->nblock;
 	}
+	if (e->rule == &ctx->phonyrule && newest) {
+		for (i = 0; i < e->nout; ++i) {
+			if (e->out[i]->mtime == SAMU_MTIME_MISSING)
+				e->out[i]->mtime = newest->mtime;
+		}
+	}
 	/* all outputs are dirty if any are older than the newest input */
 	generator = samu_edgevar(ctx, e, "generator", true);
 	restat = samu_edgevar(ctx, e, "restat", true);
@@ -319,6 +344,20 @@ samu_jobstart(struct samu_ctx *ctx, struct samu_job *j, struct samu_edge *e)
 	return true;
 }
 
+/* returns whether e uses n to order commands only */
+static bool
+samu_isorderonly(const struct samu_edge *e, const struct samu_node *n)
+{
+	size_t i;
+
+	for (i = 0; i < e->inorderidx; ++i) {
+		if (e->in[i] == n)
+			return false;
+	}
+
+	return true;
+}
+
 static void
 samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 {
@@ -330,10 +369,10 @@ samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 		/* skip edges not used in this build */
 		if (!(e->flags & FLAG_WORK))
 			continue;
-		if (!(e->flags & (prune ? FLAG_DIRTY_OUT : FLAG_DIRTY)) && --e->nprune == 0) {
+		if (!(e->flags & FLAG_DIRTY_OUT) && (prune || !(e->flags & FLAG_DIRTY) || samu_isorderonly(e, n)) && --e->nprune == 0) {
 			/* either edge was clean (possible with order-only
-			 * inputs), or all its blocking inputs were pruned, so
-			 * its outputs can be pruned as well */
+			 * inputs), or all its other blocking inputs were
+			 * pruned, so its outputs can be pruned as well */
 			for (j = 0; j < e->nout; ++j)
 				samu_nodedone(ctx, e->out[j], true);
 			if (e->flags & FLAG_DIRTY && e->rule != &ctx->phonyrule)
@@ -345,8 +384,10 @@ samu_nodedone(struct samu_ctx *ctx, struct samu_node *n, bool prune)
 }
 
 static bool
-samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
+samu_shouldprune(struct samu_ctx *ctx, struct samu_edge *e, struct samu_node *n, int64_t old)
 {
+	struct samu_string *depfile;
+	struct samu_nodearray *deps;
 	struct samu_node *in, *newest;
 	size_t i;
 
@@ -355,7 +396,15 @@ samu_shouldprune(struct samu_edge *e, struct samu_node *n, int64_t old)
 	newest = NULL;
 	for (i = 0; i < e->inorderidx; ++i) {
 		in = e->in[i];
-		samu_nodestat(in);
+		samu_nodemtime(ctx, in);
+		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
+			newest = in;
+	}
+	depfile = samu_edgevar(ctx, e, "depfile", false);
+	deps = depfile && depfile->n ? samu_depsparse(ctx, depfile->s, true) : NULL;
+	for (i = 0; deps && i < deps->len; ++i) {
+		in = deps->node[i];
+		samu_nodemtime(ctx, in);
 		if (in->mtime != SAMU_MTIME_MISSING && !samu_isnewer(newest, in))
 			newest = in;
 	}
@@ -380,7 +429,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 		old = n->mtime;
 		samu_nodestat(n);
 		n->logmtime = n->mtime == SAMU_MTIME_MISSING ? 0 : n->mtime;
-		samu_nodedone(ctx, n, restat && samu_shouldprune(e, n, old));
+		samu_nodedone(ctx, n, restat && samu_shouldprune(ctx, e, n, old));
 	}
 	rspfile = samu_edgevar(ctx, e, "rspfile", false);
 	if (rspfile && !ctx->buildopts.keeprsp)
@@ -392,6 +441,7 @@ samu_edgedone(struct samu_ctx *ctx, struct samu_edge *e)
 		n->hash = e->hash;
 		samu_logrecord(ctx, n);
 	}
+	fflush(ctx->log.logfile);
 }
 
 static void
diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 7ff50a3..84814dd 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -76,6 +76,12 @@ samu_recordid(struct samu_ctx *ctx, struct samu_node *n)
 		samu_fatal("too many nodes");
 	}
 	n->id = ctx->deps.entrieslen++;
+	if (ctx->deps.entrieslen > ctx->deps.entriescap) {
+		size_t newcap = ctx->deps.entriescap ? ctx->deps.entriescap * 2 : 1024;
+		ctx->deps.entries = samu_xreallocarray(&ctx->arena, ctx->deps.entries, ctx->deps.entriescap, newcap, sizeof(ctx->deps.entries[0]));
+		ctx->deps.entriescap = newcap;
+	}
+	ctx->deps.entries[n->id] = (struct samu_entry){ .node = n };
 	sz = (n->path->n + 7) & ~3;
 	if (sz + 4 >= SAMU_MAX_RECORD_SIZE) {
 		samu_fatal("ID record too large");
@@ -251,11 +257,11 @@ samu_depsinit(struct samu_ctx *ctx, const char *builddir)
 				goto rewrite;
 			}
 			entry = &ctx->deps.entries[id];
-			entry->mtime = (int64_t)buf[2] << 32 | buf[1];
 			e = entry->node->gen;
 			if (!e || !samu_edgevar(ctx, e, "deps", true)) {
 				continue;
 			}
+			entry->mtime = (int64_t)buf[2] << 32 | buf[1];
 			sz /= 4;
 			entry->deps.len = sz;
 			entry->deps.node = samu_xreallocarray(&ctx->arena, NULL, 0, sz, sizeof(n));
@@ -323,8 +329,8 @@ rewrite:
 	ctx->deps.entrieslen = 0;
 	for (i = 0; i < len; ++i) {
 		entry = &oldentries[i];
-		if (!entry->deps.len) {
-			continue;
+		if (!entry->deps.len && !entry->mtime) {
+			continue; // no record, only an input of others
 		}
 		samu_recordid(ctx, entry->node);
 		ctx->deps.entries[entry->node->id] = *entry;
@@ -354,7 +360,7 @@ samu_depsclose(struct samu_ctx *ctx)
 	ctx->deps.depsfile = NULL;
 }
 
-static struct samu_nodearray *
+struct samu_nodearray *
 samu_depsparse(struct samu_ctx *ctx, const char *name, bool allowmissing)
 {
 	struct samu_string *in, *out = NULL;
diff --git a/src/external/samurai/log.c b/src/external/samurai/log.c
index 5227a79..4c5606b 100644
--- a/src/external/samurai/log.c
+++ b/src/external/samurai/log.c
@@ -153,6 +153,11 @@ samu_log_open_and_write(struct samu_ctx *ctx, const char *builddir, bool write_g
 			}
 		}
 	}
+
+	// what is recorded must survive being killed
+	if (fflush(ctx->log.logfile) != 0) {
+		samu_fatal("log write failed");
+	}
 }
 
 void
-- 
2.43.0


From 2ba9c946a8f5962f8adf2d091131c7ad4d2100e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:25 +0000
Subject: [PATCH 071/117] fix: environment: refuse variable names that are
 empty or contain '='

---
 include/coerce.h            |  1 +
 src/coerce.c                | 47 +++++++++++++++++++++++--------------
 src/functions/environment.c |  8 +++++++
 src/functions/kernel.c      | 16 ++++++++++---
 4 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/include/coerce.h b/include/coerce.h
index f019ceb..84b7145 100644
--- a/include/coerce.h
+++ b/include/coerce.h
@@ -13,6 +13,7 @@ enum requirement_type {
 	requirement_auto,
 };
 
+bool check_environment_variable(struct workspace *wk, uint32_t err_node, obj key, obj val);
 bool coerce_environment_from_kwarg(struct workspace *wk, struct args_kw *kw, bool set_subdir, obj *res);
 bool coerce_key_value_dict(struct workspace *wk, uint32_t err_node, obj val, obj *res);
 bool coerce_include_type(struct workspace *wk, const struct str *str, uint32_t err_node, enum include_type *res);
diff --git a/src/coerce.c b/src/coerce.c
index 56ee877..6e97d0d 100644
--- a/src/coerce.c
+++ b/src/coerce.c
@@ -38,6 +38,29 @@ coerce_environment_from_kwarg(struct workspace *wk, struct args_kw *kw, bool set
 	return true;
 }
 
+bool
+check_environment_variable(struct workspace *wk, uint32_t err_node, obj key, obj val)
+{
+	const struct str *k = get_str(wk, key),
+			 *v = get_str(wk, val);
+
+	if (!k->len) {
+		interp_error(wk, err_node, "environment key may not be an empty string (value is '%s')", v->s);
+		return false;
+	} else if (str_has_null(k)) {
+		interp_error(wk, err_node, "environment key may not contain NUL");
+		return false;
+	} else if (str_has_null(v)) {
+		interp_error(wk, err_node, "environment value may not contain NUL");
+		return false;
+	} else if (strchr(k->s, '=')) {
+		interp_error(wk, err_node, "environment key '%s' contains '='", k->s);
+		return false;
+	}
+
+	return true;
+}
+
 struct coerce_environment_ctx {
 	uint32_t err_node;
 	obj res;
@@ -49,7 +72,7 @@ coerce_environment_iter(struct workspace *wk, void *_ctx, obj val)
 	struct coerce_environment_ctx *ctx = _ctx;
 
 	if (!typecheck(wk, ctx->err_node, val, obj_string)) {
-		return false;
+		return ir_err;
 	}
 
 	const struct str *ss = get_str(wk, val);
@@ -68,6 +91,10 @@ coerce_environment_iter(struct workspace *wk, void *_ctx, obj val)
 	obj key = make_strn(wk, ss->s, key_len);
 	val = make_strn(wk, ss->s + key_len + 1, ss->len - (key_len + 1));
 
+	if (!check_environment_variable(wk, ctx->err_node, key, val)) {
+		return ir_err;
+	}
+
 	obj_dict_set(wk, ctx->res, key, val);
 	return ir_cont;
 }
@@ -76,24 +103,8 @@ static enum iteration_result
 typecheck_environment_dict_iter(struct workspace *wk, void *_ctx, obj key, obj val)
 {
 	uint32_t err_node = *(uint32_t *)_ctx;
-	const struct str *k = get_str(wk, key),
-			 *v = get_str(wk, val);
-
-	if (!k->len) {
-		interp_error(wk, err_node, "environment key may not be an empty string (value is '%s')", v->s);
-		return ir_err;
-	} else if (str_has_null(k)) {
-		interp_error(wk, err_node, "environment key may not contain NUL");
-		return ir_err;
-	} else if (str_has_null(v)) {
-		interp_error(wk, err_node, "environment value may not contain NUL");
-		return ir_err;
-	} else if (strchr(k->s, '=')) {
-		interp_error(wk, err_node, "environment key '%s' contains '='", k->s);
-		return ir_err;
-	}
 
-	return ir_cont;
+	return check_environment_variable(wk, err_node, key, val) ? ir_cont : ir_err;
 }
 
 bool
diff --git a/src/functions/environment.c b/src/functions/environment.c
index 87a33a1..e155d3e 100644
--- a/src/functions/environment.c
+++ b/src/functions/environment.c
@@ -7,6 +7,7 @@
 
 #include <stdlib.h>
 
+#include "coerce.h"
 #include "error.h"
 #include "functions/common.h"
 #include "functions/environment.h"
@@ -154,6 +155,13 @@ func_environment_set_common(struct workspace *wk, obj rcvr, uint32_t args_node,
 		return false;
 	}
 
+	obj joined;
+	if (!obj_array_join(wk, true, an[1].val, make_str(wk, ""), &joined)) {
+		return false;
+	} else if (!check_environment_variable(wk, an[0].node, an[0].val, joined)) {
+		return false;
+	}
+
 	return environment_set(wk, rcvr, mode, an[0].val, an[1].val, akw[kw_separator].val);
 }
 
diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index 5481080..e595f67 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1527,12 +1527,21 @@ func_join_paths(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 }
 
 
+struct environment_set_initial_ctx {
+	uint32_t node;
+	obj env;
+};
+
 static enum iteration_result
 environment_set_initial_iter(struct workspace *wk, void *_ctx, obj key, obj val)
 {
-	obj env = *(obj *)_ctx;
+	struct environment_set_initial_ctx *ctx = _ctx;
+
+	if (!check_environment_variable(wk, ctx->node, key, val)) {
+		return ir_err;
+	}
 
-	if (!environment_set(wk, env, environment_set_mode_set, key, val, 0)) {
+	if (!environment_set(wk, ctx->env, environment_set_mode_set, key, val, 0)) {
 		return ir_err;
 	}
 
@@ -1556,7 +1565,8 @@ func_environment(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 			return false;
 		}
 
-		obj_dict_foreach(wk, ao[0].val, res, environment_set_initial_iter);
+		struct environment_set_initial_ctx ctx = { .node = ao[0].node, .env = *res };
+		return obj_dict_foreach(wk, ao[0].val, &ctx, environment_set_initial_iter);
 	}
 
 	return true;
-- 
2.43.0


From e18a0a7b832def172626a9e689ace120b871d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 072/117] fix: an array of one file stays an array where any
 type is accepted

---
 src/functions/common.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index 3ebf09a..79843f4 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -350,8 +350,10 @@ typecheck_function_arg(struct workspace *wk, uint32_t err_node, obj *val, type_t
 	assert((type & obj_typechecking_type_tag) || type < obj_type_count);
 
 	// If obj_file or tc_file is requested, and the argument is an array of
-	// length 1, try to unpack it.
-	if (!array_of && (type == obj_file || (type & tc_file) == tc_file)) {
+	// length 1, try to unpack it.  An array is left as it is where it is
+	// acceptable itself.
+	if (!array_of
+	    && (type == obj_file || ((type & tc_file) == tc_file && (type & tc_array) != tc_array))) {
 		if (get_obj_type(wk, *val) == obj_array
 		    && get_obj_array(wk, *val)->len == 1) {
 			obj i0;
-- 
2.43.0


From 139e9242bbd32c24c9a3887d39168390876c4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 073/117] fix: serial_load reads dumps from pipes again, and
 checks offsets

---
 src/lang/serial.c | 126 +++++++++++++++++++++++++++++-----------------
 1 file changed, 81 insertions(+), 45 deletions(-)

diff --git a/src/lang/serial.c b/src/lang/serial.c
index e1f9ba0..10cf44c 100644
--- a/src/lang/serial.c
+++ b/src/lang/serial.c
@@ -68,16 +68,59 @@ dump_uint64(uint64_t v, struct serial_out *f)
 	return dump_bytes(&v, sizeof(uint64_t), f);
 }
 
+/* a dump is read as a whole, so that it can be checked before it is used, even
+ * when it comes from a pipe */
+struct serial_in {
+	uint8_t *buf;
+	uint64_t len, pos;
+};
+
 static bool
-load_uint32(uint32_t *v, FILE *f)
+serial_in_read(struct serial_in *in, FILE *f)
 {
-	return fs_fread(v, sizeof(uint32_t), f);
+	uint64_t size = 0;
+	size_t n;
+
+	do {
+		if (in->len == size) {
+			size = size ? size * 2 : BUF_SIZE_4k;
+			in->buf = z_realloc(in->buf, size);
+		}
+
+		n = fread(&in->buf[in->len], 1, size - in->len, f);
+		in->len += n;
+	} while (n);
+
+	if (ferror(f)) {
+		LOG_E("failed to read serial dump");
+		return false;
+	}
+
+	return true;
 }
 
 static bool
-load_uint64(uint64_t *v, FILE *f)
+load_bytes(void *dest, size_t len, struct serial_in *f)
 {
-	return fs_fread(v, sizeof(uint64_t), f);
+	if (len > f->len - f->pos) {
+		return corrupted_dump();
+	}
+
+	memcpy(dest, &f->buf[f->pos], len);
+	f->pos += len;
+	return true;
+}
+
+static bool
+load_uint32(uint32_t *v, struct serial_in *f)
+{
+	return load_bytes(v, sizeof(uint32_t), f);
+}
+
+static bool
+load_uint64(uint64_t *v, struct serial_in *f)
+{
+	return load_bytes(v, sizeof(uint64_t), f);
 }
 
 static bool
@@ -105,7 +148,7 @@ dump_bucket_arr(const struct bucket_arr *ba, struct serial_out *f)
 }
 
 static bool
-load_bucket_arr(struct bucket_arr *ba, FILE *f)
+load_bucket_arr(struct bucket_arr *ba, struct serial_in *f)
 {
 	uint32_t buckets_len;
 	uint32_t i;
@@ -134,7 +177,7 @@ load_bucket_arr(struct bucket_arr *ba, FILE *f)
 
 		ba->len += b.len;
 
-		if (!fs_fread(b.mem, ba->item_size * b.len, f)) {
+		if (!load_bytes(b.mem, ba->item_size * b.len, f)) {
 			goto done;
 		}
 
@@ -156,11 +199,11 @@ dump_serial_header(struct serial_out *f)
 }
 
 static bool
-load_serial_header(FILE *f)
+load_serial_header(struct serial_in *f)
 {
 	char buf[SERIAL_MAGIC_LEN] = { 0 };
 
-	if (!fs_fread(buf, SERIAL_MAGIC_LEN, f)) {
+	if (!load_bytes(buf, SERIAL_MAGIC_LEN, f)) {
 		return false;
 	}
 
@@ -183,35 +226,22 @@ load_serial_header(FILE *f)
 }
 
 static bool
-check_serial_checksum(FILE *f)
+check_serial_checksum(struct serial_in *f)
 {
-	uint64_t start, size, checksum = serial_checksum_init, expected;
-	uint8_t buf[BUF_SIZE_4k];
+	uint64_t expected;
 
-	if (!fs_ftell(f, &start) || !fs_fsize(f, &size)) {
-		return false;
-	} else if (size < sizeof(uint64_t)) {
+	if (f->len - f->pos < sizeof(uint64_t)) {
 		return corrupted_dump();
 	}
 
-	size -= sizeof(uint64_t);
-	while (size) {
-		size_t n = size < sizeof(buf) ? size : sizeof(buf);
-		if (!fs_fread(buf, n, f)) {
-			return false;
-		}
-
-		checksum = serial_checksum(checksum, buf, n);
-		size -= n;
-	}
+	f->len -= sizeof(uint64_t);
+	memcpy(&expected, &f->buf[f->len], sizeof(uint64_t));
 
-	if (!load_uint64(&expected, f)) {
-		return false;
-	} else if (checksum != expected) {
+	if (serial_checksum(serial_checksum_init, f->buf, f->len) != expected) {
 		return corrupted_dump();
 	}
 
-	return fs_fseek(f, start);
+	return true;
 }
 
 static bool
@@ -251,7 +281,7 @@ struct big_string_table {
 };
 
 static bool
-load_big_strings(struct workspace *wk, struct big_string_table *bst, FILE *f)
+load_big_strings(struct workspace *wk, struct big_string_table *bst, struct serial_in *f)
 {
 	uint64_t len;
 	uint8_t *buf = NULL;
@@ -260,12 +290,12 @@ load_big_strings(struct workspace *wk, struct big_string_table *bst, FILE *f)
 	}
 
 	if (len) {
-		if (len > UINT32_MAX) {
+		if (len > f->len - f->pos) {
 			return corrupted_dump();
 		}
 
 		buf = z_calloc(1, len);
-		if (!fs_fread(buf, len, f)) {
+		if (!load_bytes(buf, len, f)) {
 			return false;
 		}
 	}
@@ -288,7 +318,7 @@ get_big_string(struct workspace *wk, const struct big_string_table *bst, struct
 {
 	assert(src->flags & str_flag_big);
 
-	if (src->s >= bst->len) {
+	if (src->s >= bst->len || src->len >= bst->len - src->s) {
 		return corrupted_dump();
 	}
 
@@ -370,7 +400,7 @@ dump_objs(struct workspace *wk, struct arr *big_string_offsets, struct serial_ou
 }
 
 static bool
-load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
+load_objs(struct workspace *wk, const struct big_string_table *bst, struct serial_in *f)
 {
 	uint32_t len;
 	if (!load_uint32(&len, f)) {
@@ -387,7 +417,7 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 
 	uint32_t i;
 	for (i = 0; i < len; ++i) {
-		if (!fs_fread(&type_tag, sizeof(uint8_t), f)) {
+		if (!load_bytes(&type_tag, sizeof(uint8_t), f)) {
 			return false;
 		}
 
@@ -397,7 +427,7 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 		*o = (struct obj_internal) { .t = type_tag, };
 
 		if (type_tag < _obj_aos_start) {
-			if (!fs_fread(&o->val, sizeof(uint32_t), f)) {
+			if (!load_bytes(&o->val, sizeof(uint32_t), f)) {
 				return false;
 			}
 			continue;
@@ -412,7 +442,7 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 		bucket_arr_pushn(ba, NULL, 0, 1);
 
 		if (type_tag == obj_string) {
-			if (!fs_fread(&ser_s, sizeof(struct serial_str), f)) {
+			if (!load_bytes(&ser_s, sizeof(struct serial_str), f)) {
 				return false;
 			}
 
@@ -425,7 +455,7 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 			} else {
 				uint32_t bucket_i = ser_s.s % wk->chrs.bucket_size,
 					 buckets_i = ser_s.s / wk->chrs.bucket_size;
-				if (buckets_i > wk->chrs.buckets.len
+				if (buckets_i >= wk->chrs.buckets.len
 				    || bucket_i > ((struct bucket *)(arr_get(&wk->chrs.buckets, buckets_i)))->len) {
 					return corrupted_dump();
 				}
@@ -437,7 +467,7 @@ load_objs(struct workspace *wk, const struct big_string_table *bst, FILE *f)
 				};
 			}
 		} else {
-			if (!fs_fread(bucket_arr_get(ba, o->val), ba->item_size, f)) {
+			if (!load_bytes(bucket_arr_get(ba, o->val), ba->item_size, f)) {
 				return false;
 			}
 		}
@@ -492,14 +522,17 @@ serial_load(struct workspace *wk, obj *res, FILE *f)
 
 	struct big_string_table bst = { 0 };
 
+	struct serial_in in = { 0 };
+
 	obj obj_src;
-	if (!(load_serial_header(f)
-	      && check_serial_checksum(f)
-	      && load_uint32(&obj_src, f)
-	      && load_bucket_arr(&wk_src.chrs, f)
-	      && load_big_strings(&wk_src, &bst, f)
-	      && load_objs(&wk_src, &bst, f)
-	      && load_bucket_arr(&wk_src.dict_elems, f))) {
+	if (!(serial_in_read(&in, f)
+	      && load_serial_header(&in)
+	      && check_serial_checksum(&in)
+	      && load_uint32(&obj_src, &in)
+	      && load_bucket_arr(&wk_src.chrs, &in)
+	      && load_big_strings(&wk_src, &bst, &in)
+	      && load_objs(&wk_src, &bst, &in)
+	      && load_bucket_arr(&wk_src.dict_elems, &in))) {
 		goto ret;
 	}
 
@@ -515,6 +548,9 @@ ret:
 	if (bst.data) {
 		z_free(bst.data);
 	}
+	if (in.buf) {
+		z_free(in.buf);
+	}
 	workspace_destroy_bare(&wk_src);
 	return ret;
 }
-- 
2.43.0


From a1d6f2761079e91712b9fff293d8d8f3c315b139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:27 +0000
Subject: [PATCH 074/117] fix: source sets: strings name files of the adding
 directory, errors in nested sets and odd configuration values are errors, no
 set contains itself

---
 src/functions/source_set.c | 84 +++++++++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 15 deletions(-)

diff --git a/src/functions/source_set.c b/src/functions/source_set.c
index bc9e271..db41e5c 100644
--- a/src/functions/source_set.c
+++ b/src/functions/source_set.c
@@ -5,6 +5,7 @@
 
 #include "compat.h"
 
+#include "coerce.h"
 #include "error.h"
 #include "functions/common.h"
 #include "functions/source_set.h"
@@ -12,15 +13,58 @@
 #include "lang/typecheck.h"
 #include "log.h"
 
+struct source_set_add_ctx {
+	obj rcvr, res;
+	uint32_t err_node;
+};
+
 static enum iteration_result
-source_set_freeze_nested_iter(struct workspace *wk, void *_ctx, obj v)
+source_set_add_iter(struct workspace *wk, void *_ctx, obj v)
 {
-	if (get_obj_type(wk, v) == obj_source_set) {
+	struct source_set_add_ctx *ctx = _ctx;
+
+	switch (get_obj_type(wk, v)) {
+	case obj_source_set:
+		if (v == ctx->rcvr) {
+			interp_error(wk, ctx->err_node, "cannot add a source set to itself");
+			return ir_err;
+		}
+
 		get_obj_source_set(wk, v)->frozen = true;
+		break;
+	case obj_string:
+		// relative to the current directory, not to the one in which
+		// the sources are used
+		if (!coerce_file(wk, ctx->err_node, v, &v)) {
+			return ir_err;
+		}
+		break;
+	default:
+		break;
 	}
+
+	obj_array_push(wk, ctx->res, v);
 	return ir_cont;
 }
 
+static bool
+source_set_add_sources(struct workspace *wk, obj rcvr, uint32_t err_node, obj *sources)
+{
+	if (!*sources) {
+		return true;
+	}
+
+	struct source_set_add_ctx ctx = { .rcvr = rcvr, .err_node = err_node };
+	make_obj(wk, &ctx.res, obj_array);
+
+	if (!obj_array_foreach_flat(wk, *sources, &ctx, source_set_add_iter)) {
+		return false;
+	}
+
+	*sources = ctx.res;
+	return true;
+}
+
 static bool
 source_set_add_rule(struct workspace *wk, obj rcvr, struct args_norm *posargs,
 	struct args_kw *kw_when, struct args_kw *kw_if_true, struct args_kw *kw_if_false)
@@ -43,8 +87,10 @@ source_set_add_rule(struct workspace *wk, obj rcvr, struct args_norm *posargs,
 		}
 	}
 
-	if (if_true) {
-		obj_array_foreach(wk, if_true, NULL, source_set_freeze_nested_iter);
+	if (!source_set_add_sources(wk, rcvr, kw_if_true->set ? kw_if_true->node : posargs->node, &if_true)) {
+		return false;
+	} else if (kw_if_false && !source_set_add_sources(wk, rcvr, kw_if_false->node, &if_false)) {
+		return false;
 	}
 
 	obj rule;
@@ -214,10 +260,11 @@ source_set_rule_match_iter(struct workspace *wk, void *_ctx, obj v)
 			bv = get_str(wk, idx)->len > 0;
 			break;
 		case obj_number:
-			bv = get_obj_number(wk, idx) > 0;
+			bv = get_obj_number(wk, idx) != 0;
 			break;
 		default:
-			UNREACHABLE;
+			interp_error(wk, ctx->err_node, "invalid value for key %o: %o", v, idx);
+			return ir_err;
 		}
 
 		if (!bv) {
@@ -258,16 +305,22 @@ source_set_collect_rules_iter(struct workspace *wk, void *_ctx, obj v)
 		return ir_err;
 	}
 
-	if (ctx->match && if_true) {
-		if (when && ctx->mode == source_set_collect_dependencies) {
-			obj_array_foreach_flat(wk, when, ctx, source_set_collect_when_deps_iter);
-		}
+	// nested source sets use ctx->match too
+	const bool match = ctx->match;
+	if (match && when && ctx->mode == source_set_collect_dependencies) {
+		obj_array_foreach_flat(wk, when, ctx, source_set_collect_when_deps_iter);
+	}
 
-		obj_array_foreach_flat(wk, if_true, ctx, source_set_collect_iter);
+	if (match && if_true) {
+		if (!obj_array_foreach_flat(wk, if_true, ctx, source_set_collect_iter)) {
+			return ir_err;
+		}
 	}
 
-	if ((!ctx->conf || !ctx->match) && if_false) {
-		obj_array_foreach_flat(wk, if_false, ctx, source_set_collect_iter);
+	if ((!ctx->conf || !match) && if_false) {
+		if (!obj_array_foreach_flat(wk, if_false, ctx, source_set_collect_iter)) {
+			return ir_err;
+		}
 	}
 	return ir_cont;
 }
@@ -282,6 +335,7 @@ source_set_collect(struct workspace *wk, uint32_t err_node, obj rcvr,
 		.mode = mode,
 		.conf = conf,
 		.strict = strict,
+		.err_node = err_node,
 		.res = arr,
 	};
 
@@ -353,12 +407,12 @@ func_source_set_apply(struct workspace *wk, obj rcvr, uint32_t args_node, obj *r
 	make_obj(wk, res, obj_source_configuration);
 	struct obj_source_configuration *sc = get_obj_source_configuration(wk, *res);
 
-	if (!source_set_collect(wk, akw[kw_strict].node, rcvr, dict,
+	if (!source_set_collect(wk, an[0].node, rcvr, dict,
 		source_set_collect_sources, strict, &sc->sources)) {
 		return false;
 	}
 
-	if (!source_set_collect(wk, akw[kw_strict].node, rcvr, dict,
+	if (!source_set_collect(wk, an[0].node, rcvr, dict,
 		source_set_collect_dependencies, strict, &sc->dependencies)) {
 		return false;
 	}
-- 
2.43.0


From 21ad5ee40a76e955681a5cd5c48bdf24e887f42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:16 +0000
Subject: [PATCH 075/117] fix: paths: ~ expansion, suffixes of hidden files and
 of directories, '/' / '', '..' at the root and in the containment test;
 sha256 digits

---
 include/platform/path.h    |  2 ++
 src/functions/modules/fs.c | 11 ++++++-----
 src/platform/path.c        | 28 ++++++++++++++++++++++++----
 3 files changed, 32 insertions(+), 9 deletions(-)

diff --git a/include/platform/path.h b/include/platform/path.h
index 15e9f3d..5314403 100644
--- a/include/platform/path.h
+++ b/include/platform/path.h
@@ -44,6 +44,8 @@ void path_join_absolute(struct workspace *wk, struct sbuf *sb, const char *a, co
 
 void path_make_absolute(struct workspace *wk, struct sbuf *buf, const char *path);
 void path_relative_to(struct workspace *wk, struct sbuf *buf, const char *base_raw, const char *path_raw);
+// true if dot, the last '.' in the last component of path, starts a suffix
+bool path_dot_starts_suffix(const char *path, const char *dot);
 void path_without_ext(struct workspace *wk, struct sbuf *buf, const char *path);
 void path_basename(struct workspace *wk, struct sbuf *buf, const char *path);
 void path_dirname(struct workspace *wk, struct sbuf *buf, const char *path);
diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index edec4f9..5e5a9b2 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -58,14 +58,14 @@ fix_file_path(struct workspace *wk, uint32_t err_node, obj path, enum fix_file_p
 	if (path_is_absolute(ss->s)) {
 		path_copy(wk, buf, ss->s);
 	} else {
-		if ((opts & fix_file_path_expanduser) && ss->s[0] == '~') {
+		if ((opts & fix_file_path_expanduser) && ss->s[0] == '~' && (!ss->s[1] || ss->s[1] == '/')) {
 			const char *home;
 			if (!(home = fs_user_home())) {
 				interp_error(wk, err_node, "failed to get user home directory");
 				return false;
 			}
 
-			path_join(wk, buf, home, &ss->s[1]);
+			path_join_absolute(wk, buf, home, &ss->s[1]);
 		} else if (opts & fix_file_path_noabs) {
 			path_copy(wk, buf, ss->s);
 		} else {
@@ -160,6 +160,7 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	if (akw[kw_encoding].set) {
 		if (!str_eql(get_str(wk, akw[kw_encoding].val), &WKSTR("utf-8"))) {
 			interp_error(wk, akw[kw_encoding].node, "only 'utf-8' supported");
+			return false;
 		}
 	}
 
@@ -246,7 +247,7 @@ func_module_fs_stem(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	path_basename(wk, &basename, path.buf);
 
 	char *dot;
-	if ((dot = strrchr(basename.buf, '.'))) {
+	if ((dot = strrchr(basename.buf, '.')) && path_dot_starts_suffix(basename.buf, dot)) {
 		*dot = 0;
 		basename.len = strlen(basename.buf);
 	}
@@ -295,7 +296,7 @@ func_module_replace_suffix(struct workspace *wk, obj rcvr, uint32_t args_node, o
 	}
 
 	char *dot;
-	if ((dot = strrchr(path.buf, '.'))) {
+	if ((dot = strrchr(path.buf, '.')) && !strchr(dot, '/') && path_dot_starts_suffix(path.buf, dot)) {
 		*dot = 0;
 		path.len = strlen(path.buf);
 	}
@@ -334,7 +335,7 @@ func_module_fs_hash(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 	char buf[65] = { 0 };
 	uint32_t i, bufi = 0;
 	for (i = 0; i < 32; ++i) {
-		snprintf(&buf[bufi], 3, "%x", hash[i]);
+		snprintf(&buf[bufi], 3, "%02x", hash[i]);
 		bufi += 2;
 	}
 
diff --git a/src/platform/path.c b/src/platform/path.c
index b397cfa..061bf08 100644
--- a/src/platform/path.c
+++ b/src/platform/path.c
@@ -69,7 +69,7 @@ _path_normalize(struct workspace *wk, struct sbuf *buf, bool optimize)
 	uint32_t parents = 0;
 	char *part, *sep;
 	uint32_t part_len, i, slen = buf->len, blen = 0, sep_len;
-	bool loop = true, skip_part;
+	bool loop = true, skip_part, absolute = false;
 
 	/* assert(slen && "path is empty"); */
 	if (!buf->len) {
@@ -80,6 +80,7 @@ _path_normalize(struct workspace *wk, struct sbuf *buf, bool optimize)
 	part = buf->buf;
 
 	if (*part == PATH_SEP) {
+		absolute = true;
 		++part;
 		--slen;
 		++blen;
@@ -116,6 +117,9 @@ _path_normalize(struct workspace *wk, struct sbuf *buf, bool optimize)
 				skip_part = true;
 				blen -= (sep - &buf->buf[i]) - part_len;
 				--parents;
+			} else if (absolute) {
+				// the root is its own parent
+				skip_part = true;
 			} else {
 				part = sep + sep_len;
 			}
@@ -125,7 +129,7 @@ _path_normalize(struct workspace *wk, struct sbuf *buf, bool optimize)
 		}
 
 		if (skip_part) {
-			memmove(part, sep + sep_len, slen);
+			memmove(part, sep + sep_len, slen - (part_len + sep_len) + 1);
 		} else {
 			blen += part_len + sep_len;
 		}
@@ -135,6 +139,7 @@ _path_normalize(struct workspace *wk, struct sbuf *buf, bool optimize)
 
 	if (!blen) {
 		buf->buf[0] = '.';
+		buf->buf[1] = 0;
 		buf->len = 1;
 	} else if (blen > 1 && buf->buf[blen - 1] == PATH_SEP) {
 		buf->buf[blen - 1] = 0;
@@ -189,7 +194,9 @@ path_push(struct workspace *wk, struct sbuf *sb, const char *b)
 		 * path".
 		 */
 		_path_normalize(wk, sb, false);
-		sbuf_push(wk, sb, PATH_SEP);
+		if (sb->buf[sb->len - 1] != PATH_SEP) {
+			sbuf_push(wk, sb, PATH_SEP);
+		}
 	} else {
 		sbuf_push(wk, sb, PATH_SEP);
 		sbuf_pushs(wk, sb, b);
@@ -304,6 +311,17 @@ path_relative_to(struct workspace *wk, struct sbuf *buf, const char *base_raw, c
 	_path_normalize(wk, buf, false);
 }
 
+bool
+path_dot_starts_suffix(const char *path, const char *dot)
+{
+	// neither a hidden file (.name) nor the parent directory (..) has one
+	while (dot != path && dot[-1] == '.') {
+		--dot;
+	}
+
+	return dot != path && dot[-1] != PATH_SEP;
+}
+
 void
 path_without_ext(struct workspace *wk, struct sbuf *buf, const char *path)
 {
@@ -322,7 +340,7 @@ path_without_ext(struct workspace *wk, struct sbuf *buf, const char *path)
 	path = tmp.buf;
 	for (i = strlen(path) - 1; i >= 0; --i) {
 		if (path[i] == '.') {
-			have_ext = true;
+			have_ext = path_dot_starts_suffix(path, &path[i]);
 			break;
 		} else if (path[i] == PATH_SEP) {
 			break;
@@ -412,8 +430,10 @@ path_is_subpath(const char *base, const char *sub)
 	SBUF_manual(base_tmp);
 	SBUF_manual(sub_tmp);
 	path_copy(NULL, &base_tmp, base);
+	_path_normalize(NULL, &base_tmp, true);
 	base = base_tmp.buf;
 	path_copy(NULL, &sub_tmp, sub);
+	_path_normalize(NULL, &sub_tmp, true);
 	sub = sub_tmp.buf;
 
 	uint32_t i = 0;
-- 
2.43.0


From bf30810322332fbfa9e426d5e0e6fbaf19b1bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:17 +0000
Subject: [PATCH 076/117] fix: samu: no memcpy from a null pointer when no
 dependencies are recorded

---
 src/external/samurai/deps.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/external/samurai/deps.c b/src/external/samurai/deps.c
index 84814dd..04a8616 100644
--- a/src/external/samurai/deps.c
+++ b/src/external/samurai/deps.c
@@ -323,7 +323,9 @@ rewrite:
 	}
 	/* save a temporary copy of the old entries */
 	oldentries = samu_xreallocarray(&ctx->arena, NULL, 0, ctx->deps.entrieslen, sizeof(ctx->deps.entries[0]));
-	memcpy(oldentries, ctx->deps.entries, ctx->deps.entrieslen * sizeof(ctx->deps.entries[0]));
+	if (ctx->deps.entrieslen) {
+		memcpy(oldentries, ctx->deps.entries, ctx->deps.entrieslen * sizeof(ctx->deps.entries[0]));
+	}
 
 	len = ctx->deps.entrieslen;
 	ctx->deps.entrieslen = 0;
-- 
2.43.0


From 0bd61f745caac4f6ec6a4fc1d933d936e801db62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:06 +0000
Subject: [PATCH 077/117] fix: disablers as an index or as kwargs:, and methods
 of an indexed disabler

---
 src/functions/common.c |  5 +++++
 src/lang/interpreter.c | 11 ++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/functions/common.c b/src/functions/common.c
index 79843f4..8c8be10 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -628,6 +628,11 @@ process_kwarg:
 			}
 
 			if (strcmp(kw, "kwargs") == 0) {
+				if (val == disabler_id) {
+					disabler_among_args = true;
+					return false;
+				}
+
 				if (!typecheck(wk, arg_node, val, obj_dict)) {
 					return false;
 				}
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index 6a80613..dcfed93 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -272,12 +272,12 @@ interp_index(struct workspace *wk, struct node *n, obj l_id, bool do_chain, obj
 		return false;
 	}
 
-	type_tag t = get_obj_type(wk, l_id);
+	type_tag t = r_id == disabler_id ? obj_disabler : get_obj_type(wk, l_id);
 
 	switch (t) {
 	case obj_disabler:
-		*res = disabler_id;
-		return true;
+		tmp = disabler_id;
+		break;
 	case obj_array: {
 		if (!typecheck(wk, n->r, r_id, obj_number)) {
 			return false;
@@ -678,6 +678,11 @@ interp_dict(struct workspace *wk, uint32_t n_id, obj *res)
 		return false;
 	}
 
+	if (key == disabler_id) {
+		interp_error(wk, n->l, "a disabler is not valid as a dictionary key");
+		return false;
+	}
+
 	if (!typecheck(wk, n->l, key, obj_string)) {
 		return false;
 	}
-- 
2.43.0


From 78d498588261f622b11ff02f0f3158e7e3546177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:52 +0000
Subject: [PATCH 078/117] fix: is_variable: a disabler inside a list or dict
 disables the call

---
 src/functions/kernel.c | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/functions/kernel.c b/src/functions/kernel.c
index e595f67..a1fed18 100644
--- a/src/functions/kernel.c
+++ b/src/functions/kernel.c
@@ -1732,16 +1732,9 @@ static bool
 func_is_variable(struct workspace *wk, obj _, uint32_t args_node, obj *res)
 {
 	struct args_norm an[] = { { obj_string }, ARG_TYPE_NULL };
-	disabler_among_args_immunity = true;
 	if (!interp_args(wk, args_node, an, NULL, NULL)) {
 		return false;
 	}
-	disabler_among_args_immunity = false;
-
-	if (an[0].val == disabler_id) {
-		*res = disabler_id;
-		return true;
-	}
 
 	obj dont_care;
 
-- 
2.43.0


From 3e243d5e165481020977d1bf84c14b2f094af37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:00 +0000
Subject: [PATCH 079/117] fix: script functions: calls as arguments and in
 returned values, scopes of a call seen by another call of the same function,
 arguments aliasing the caller's lists, checks of declared arguments and
 defaults, break outside of the function

---
 include/functions/common.h |  6 ++++
 src/functions/common.c     | 71 +++++++++++++++++++++++++++++---------
 src/lang/analyze.c         |  7 ++--
 src/lang/interpreter.c     | 42 ++++++++++++++++++++--
 src/lang/parser.c          | 24 +++++++++----
 5 files changed, 124 insertions(+), 26 deletions(-)

diff --git a/include/functions/common.h b/include/functions/common.h
index c610613..4f7de1e 100644
--- a/include/functions/common.h
+++ b/include/functions/common.h
@@ -49,6 +49,12 @@ bool interp_args(struct workspace *wk, uint32_t args_node,
 	struct args_kw keyword_args[]);
 bool builtin_run(struct workspace *wk, bool have_rcvr, obj rcvr_id, uint32_t node_id, obj *res);
 
+enum {
+	func_max_args = 63,
+	func_max_kwargs = 127,
+};
+
+bool typecheck_function_arg(struct workspace *wk, uint32_t err_node, obj *val, type_tag type);
 bool func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res);
 bool func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args_node, obj *res);
 bool analyze_function(struct workspace *wk, const struct func_impl *fi, uint32_t args_node, obj rcvr, obj *res, bool *was_pure);
diff --git a/src/functions/common.c b/src/functions/common.c
index 8c8be10..c008343 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -8,6 +8,7 @@
 #include <string.h>
 
 #include "buf_size.h"
+#include "embedded.h"
 #include "functions/array.h"
 #include "functions/boolean.h"
 #include "functions/both_libs.h"
@@ -333,7 +334,7 @@ disabler_among_arg(struct workspace *wk, obj val)
 	return among;
 }
 
-static bool
+bool
 typecheck_function_arg(struct workspace *wk, uint32_t err_node, obj *val, type_tag type)
 {
 	if (!disabler_among_args_immunity && disabler_among_arg(wk, *val)) {
@@ -736,15 +737,38 @@ end:
 	return true;
 }
 
+// Lists and dicts are passed by value.
+static obj
+func_obj_copy_value(struct workspace *wk, obj val)
+{
+	if (!val) {
+		return val;
+	}
+
+	obj dup;
+	switch (get_obj_type(wk, val)) {
+	case obj_array:
+		obj_array_dup(wk, val, &dup);
+		return dup;
+	case obj_dict:
+		obj_dict_dup(wk, val, &dup);
+		return dup;
+	default:
+		return val;
+	}
+}
+
 bool
 func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res)
 {
 	bool ret = false;
 	struct project *proj = current_project(wk);
-	struct source src = {
-		.label = get_cstr(wk, f->src),
-		.reopen_type = source_reopen_type_embedded
-	};
+	struct source src = { .label = get_cstr(wk, f->src) };
+	if (embedded_get(src.label)) {
+		src.reopen_type = source_reopen_type_embedded;
+	} else if (fs_file_exists(src.label)) {
+		src.reopen_type = source_reopen_type_file;
+	}
 
 	// push current interpreter state
 	struct source *old_src = wk->src;
@@ -756,7 +780,9 @@ func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res)
 	wk->src = &src;
 	wk->ast = f->ast;
 	wk->lang_mode = f->lang_mode;
-	proj->scope_stack = f->scope_stack;
+	// the scopes of this call are not part of those f has captured, they must
+	// not be seen when f is called again before this call returns
+	obj_array_dup(wk, f->scope_stack, &proj->scope_stack);
 
 	++wk->func_depth;
 
@@ -774,7 +800,7 @@ func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res)
 			}
 
 			struct node *arg_name = arr_get(&f->ast->nodes, arg->l);
-			wk->assign_variable(wk, arg_name->dat.s, val, arg->l, assign_local);
+			wk->assign_variable(wk, arg_name->dat.s, func_obj_copy_value(wk, val), arg->l, assign_local);
 			++i;
 
 			if (!(arg->chflg & node_child_c)) {
@@ -788,9 +814,10 @@ func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res)
 	obj _;
 	wk->returning = false;
 	wk->returned = 0;
+	wk->return_node = 0;
 	// call block
 	ret = wk->interp_node(wk, f->block_id, &_);
-	*res = wk->returned;
+	*res = func_obj_copy_value(wk, wk->returned);
 	/* LO("%s returned %o\n", f->name, wk->returned); */
 	wk->returning = false;
 	wk->returned = 0;
@@ -814,20 +841,17 @@ func_obj_call(struct workspace *wk, struct obj_func *f, obj args, obj *res)
 	return ret;
 }
 
-bool
-func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args_node, obj *res)
+static bool
+func_obj_args(struct workspace *wk, struct obj_func *f, uint32_t args_node, obj *res)
 {
-	struct obj_func *f = get_obj_func(wk, func_obj);
-
 	obj args = 0;
 	if (f->nargs || f->nkwargs) {
 		make_obj(wk, &args, obj_array);
 	}
 
-	static struct args_norm an[64];
-	assert(f->nargs + 1 < ARRAY_LEN(an));
-	static struct args_kw akw[128];
-	assert(f->nkwargs + 1 < ARRAY_LEN(akw));
+	// not static, an argument may be a call itself
+	struct args_norm an[func_max_args + 1];
+	struct args_kw akw[func_max_kwargs + 1];
 
 	// init and interp args
 	memset(an, 0, sizeof(struct args_norm) * (f->nargs + 1));
@@ -892,6 +916,20 @@ func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args
 		arg_id = arg->c;
 	}
 
+	*res = args;
+	return true;
+}
+
+bool
+func_obj_eval(struct workspace *wk, obj func_obj, obj func_module, uint32_t args_node, obj *res)
+{
+	struct obj_func *f = get_obj_func(wk, func_obj);
+
+	obj args;
+	if (!func_obj_args(wk, f, args_node, &args)) {
+		return false;
+	}
+
 	return func_obj_call(wk, f, args, res);
 }
 
@@ -1002,6 +1040,7 @@ builtin_run(struct workspace *wk, bool have_rcvr, obj rcvr_id, uint32_t node_id,
 		rcvr_type = get_obj_type(wk, rcvr_id);
 		if (rcvr_type == obj_func) {
 			args_node = n->r;
+			name_node = node_id;
 		} else {
 			name_node = n->r;
 			args_node = n->c;
diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 5b2c5ef..9695315 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -1623,8 +1623,10 @@ analyze_node(struct workspace *wk, uint32_t n_id, obj *res)
 			ret = interp_node(wk, n_id, res);
 		}
 		break;
-	case node_return:
-		ret = wk->interp_node(wk, n->l, &wk->returned);
+	case node_return: {
+		obj returned;
+		ret = wk->interp_node(wk, n->l, &returned);
+		wk->returned = returned;
 		wk->return_node = n_id;
 
 		if (ret && analyzer.fp) {
@@ -1638,6 +1640,7 @@ analyze_node(struct workspace *wk, uint32_t n_id, obj *res)
 			wk->returning = true;
 		}
 		break;
+	}
 
 	/* functions */
 	case node_function:
diff --git a/src/lang/interpreter.c b/src/lang/interpreter.c
index dcfed93..21af90a 100644
--- a/src/lang/interpreter.c
+++ b/src/lang/interpreter.c
@@ -1122,6 +1122,10 @@ interp_func_def(struct workspace *wk, struct node *n, obj *res)
 	f->scope_stack = wk->scope_stack_dup(wk, current_project(wk)->scope_stack);
 	f->return_type = n->dat.type;
 
+	obj names;
+	make_obj(wk, &names, obj_array);
+	bool have_glob = false;
+
 	struct node *arg;
 	uint32_t arg_id = n->r;
 	while (true) {
@@ -1131,14 +1135,40 @@ interp_func_def(struct workspace *wk, struct node *n, obj *res)
 		}
 
 		assert(arg->type == node_argument); // TODO: delete
+
+		const char *name = get_node(wk->ast, arg->l)->dat.s;
+		if (obj_array_in(wk, names, make_str(wk, name))) {
+			interp_error(wk, arg->l, "argument '%s' is declared twice", name);
+			return false;
+		}
+		obj_array_push(wk, names, make_str(wk, name));
+
+		if (have_glob && arg->subtype == arg_normal) {
+			interp_error(wk, arg->l, "a glob argument must be the last positional argument");
+			return false;
+		} else if ((arg->dat.type & TYPE_TAG_GLOB)) {
+			if (arg->subtype != arg_normal) {
+				interp_error(wk, arg->l, "a keyword argument cannot be a glob argument");
+				return false;
+			}
+			have_glob = true;
+		}
+
 		if (arg->subtype == arg_normal) {
 			if (f->nkwargs) {
 				interp_error(wk, arg_id, "non-kwarg after kwargs");
+				return false;
+			} else if (f->nargs == func_max_args) {
+				interp_error(wk, arg->l, "too many arguments");
+				return false;
 			}
 			++f->nargs;
 		} else if (arg->subtype == arg_kwarg) {
 			if (!f->nkwargs) {
 				make_obj(wk, &f->kwarg_defaults, obj_array);
+			} else if (f->nkwargs == func_max_kwargs) {
+				interp_error(wk, arg->l, "too many keyword arguments");
+				return false;
 			}
 			++f->nkwargs;
 
@@ -1147,6 +1177,10 @@ interp_func_def(struct workspace *wk, struct node *n, obj *res)
 				return false;
 			}
 
+			if (r && r != disabler_id && !typecheck_function_arg(wk, arg->r, &r, arg->dat.type)) {
+				return false;
+			}
+
 			obj_array_push(wk, f->kwarg_defaults, r);
 		}
 
@@ -1285,11 +1319,15 @@ interp_block:
 		wk->loop_ctl = loop_breaking;
 		ret = true;
 		break;
-	case node_return:
-		ret = wk->interp_node(wk, n->l, &wk->returned);
+	case node_return: {
+		// a call in the returned expression sets wk->returned as well
+		obj returned;
+		ret = wk->interp_node(wk, n->l, &returned);
+		wk->returned = returned;
 		wk->return_node = n_id;
 		wk->returning = true;
 		break;
+	}
 
 	/* functions */
 	case node_function:
diff --git a/src/lang/parser.c b/src/lang/parser.c
index 045af01..fbbb414 100644
--- a/src/lang/parser.c
+++ b/src/lang/parser.c
@@ -30,7 +30,7 @@ struct parser {
 	struct ast *ast;
 	struct workspace *wk;
 	uint32_t token_i, loop_depth, parse_depth, func_depth;
-	bool caused_effect, valid, preserve_fmt_eol, parsing_func_def_args;
+	bool caused_effect, valid, preserve_fmt_eol;
 
 	enum parse_mode mode;
 };
@@ -509,6 +509,12 @@ parse_list_recurse(struct parser *p, uint32_t *id, enum parse_list_mode mode)
 		}
 
 		if (mode & parse_list_mode_types) {
+			if (get_node(p->ast, s_id)->type != node_id) {
+				parse_error(p, NULL, "function argument must be a plain identifier (not a %s)",
+					node_type_to_s(get_node(p->ast, s_id)->type));
+				return false;
+			}
+
 			type_tag type;
 			if (!parse_type(p, &type, true)) {
 				return false;
@@ -548,7 +554,7 @@ parse_list_recurse(struct parser *p, uint32_t *id, enum parse_list_mode mode)
 			}
 			p->preserve_fmt_eol = true;
 
-			if (get_node(p->ast, v_id)->type == node_empty && !p->parsing_func_def_args) {
+			if (get_node(p->ast, v_id)->type == node_empty && !(mode & parse_list_mode_types)) {
 				parse_error(p, p->last_last, "missing value");
 				return false;
 			}
@@ -646,7 +652,6 @@ parse_func_def(struct parser *p, uint32_t *id)
 	}
 	make_node(p, &l_id, node_id);
 
-	p->parsing_func_def_args = true;
 	if (!expect(p, tok_lparen)) {
 		return false;
 	} else if (!parse_list(p, &args, parse_list_mode_arguments | parse_list_mode_types)) {
@@ -654,7 +659,6 @@ parse_func_def(struct parser *p, uint32_t *id)
 	} else if (!expect(p, tok_rparen)) {
 		return false;
 	}
-	p->parsing_func_def_args = false;
 
 	if (accept(p, tok_returntype)) {
 		type_tag type;
@@ -669,11 +673,19 @@ parse_func_def(struct parser *p, uint32_t *id)
 		return false;
 	}
 
+	// a loop around the definition is not a loop around the body
+	uint32_t loop_depth = p->loop_depth;
+	p->loop_depth = 0;
+
 	++p->func_depth;
-	if (!parse_block(p, &c_id)) {
+	bool ret = parse_block(p, &c_id);
+	--p->func_depth;
+
+	p->loop_depth = loop_depth;
+
+	if (!ret) {
 		return false;
 	}
-	--p->func_depth;
 
 	if (get_node(p->ast, c_id)->type != node_empty) {
 		p->caused_effect = true;
-- 
2.43.0


From 9eaf8d5dcf28015078455c424ced57ded59f036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:33 +0000
Subject: [PATCH 080/117] fix: a method call on a function object is an error,
 it crashed or called the function

---
 src/functions/common.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/functions/common.c b/src/functions/common.c
index c008343..fc6bee6 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -1038,6 +1038,11 @@ builtin_run(struct workspace *wk, bool have_rcvr, obj rcvr_id, uint32_t node_id,
 
 	if (have_rcvr) {
 		rcvr_type = get_obj_type(wk, rcvr_id);
+		if (rcvr_type == obj_func && n->type == node_method) {
+			interp_error(wk, n->r, "method %s.%s() not found", obj_type_to_s(rcvr_type), get_node(wk->ast, n->r)->dat.s);
+			return false;
+		}
+
 		if (rcvr_type == obj_func) {
 			args_node = n->r;
 			name_node = node_id;
-- 
2.43.0


From dae009dbaf39f589c9633adefadd7f5b2b155b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:38 +0000
Subject: [PATCH 081/117] fix: dicts with 15 or more keys: deleting a key
 (unset_variable, dict.delete) left it in the list of keys, later iteration
 crashed

---
 src/datastructures/hash.c | 15 +++++++++++++++
 src/lang/object.c         |  3 ++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/datastructures/hash.c b/src/datastructures/hash.c
index 02ba635..ef45615 100644
--- a/src/datastructures/hash.c
+++ b/src/datastructures/hash.c
@@ -283,8 +283,23 @@ hash_unset(struct hash *h, const void *key)
 	probe(h, key, &he, &meta, &hv);
 
 	if (k_full(*meta)) {
+		// h->keys is in insertion order and only holds keys that are set
+		const uint64_t keyi = he->keyi;
+		memmove(h->keys.e + keyi * h->keys.item_size,
+			h->keys.e + (keyi + 1) * h->keys.item_size,
+			(h->keys.len - keyi - 1) * h->keys.item_size);
+		--h->keys.len;
+
 		*meta = k_deleted;
 		--h->len;
+
+		size_t i;
+		for (i = 0; i < h->cap; ++i) {
+			he = &((struct hash_elem *)h->e.e)[i];
+			if (k_full(((uint8_t *)h->meta.e)[i]) && he->keyi > keyi) {
+				--he->keyi;
+			}
+		}
 	}
 
 	assert(hash_get(h, key) == NULL);
diff --git a/src/lang/object.c b/src/lang/object.c
index fceabc8..5b4f4f3 100644
--- a/src/lang/object.c
+++ b/src/lang/object.c
@@ -1253,7 +1253,7 @@ _obj_dict_set(struct workspace *wk, obj dict,
 	assert(key);
 
 	/* empty dict */
-	if (!d->len) {
+	if (!d->len && !(d->flags & obj_dict_flag_big)) {
 		uint32_t e_idx = wk->dict_elems.len;
 		bucket_arr_push(&wk->dict_elems, &(struct obj_dict_elem) { .key = key, .val = val });
 		d->data = e_idx;
@@ -1354,6 +1354,7 @@ _obj_dict_del(struct workspace *wk, obj dict,
 			hash_unset_strn(h, key->string.s, key->string.len);
 		}
 
+		d->len = h->len;
 		return;
 	}
 
-- 
2.43.0


From 52397393124389ccdc4f5c8184551c0d494142d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:05 +0000
Subject: [PATCH 082/117] fix: extract the objects of both_libraries from the
 static library

---
 src/functions/both_libs.c           | 16 +++++++++++++++-
 src/functions/kernel/build_target.c |  5 ++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/functions/both_libs.c b/src/functions/both_libs.c
index 31203f6..b127fba 100644
--- a/src/functions/both_libs.c
+++ b/src/functions/both_libs.c
@@ -6,6 +6,8 @@
 
 #include "compat.h"
 
+#include <string.h>
+
 #include "buf_size.h"
 #include "functions/both_libs.h"
 #include "functions/build_target.h"
@@ -42,13 +44,25 @@ both_libs_rcvr_transform(struct workspace *wk, obj rcvr)
 	return get_obj_both_libs(wk, rcvr)->dynamic_lib;
 }
 
+// the sources of both libraries are compiled once, for the static library
+static obj
+both_libs_rcvr_transform_static(struct workspace *wk, obj rcvr)
+{
+	return get_obj_both_libs(wk, rcvr)->static_lib;
+}
+
 void
 both_libs_build_impl_tbl(void)
 {
 	uint32_t i;
 	for (i = 0; impl_tbl_build_target[i].name; ++i) {
 		struct func_impl tmp = impl_tbl_build_target[i];
-		tmp.rcvr_transform = both_libs_rcvr_transform;
+		if (strcmp(tmp.name, "extract_objects") == 0
+		    || strcmp(tmp.name, "extract_all_objects") == 0) {
+			tmp.rcvr_transform = both_libs_rcvr_transform_static;
+		} else {
+			tmp.rcvr_transform = both_libs_rcvr_transform;
+		}
 		impl_tbl_both_libs[i] = tmp;
 	}
 }
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 59c3ad3..2b033c1 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -983,7 +983,10 @@ tgt_common(struct workspace *wk, uint32_t args_node, obj *res, enum tgt_type typ
 			}
 
 			if (akw[bt_kw_objects].set) {
-				obj_array_extend(wk, akw[bt_kw_objects].val, objects);
+				obj dup;
+				obj_array_dup(wk, akw[bt_kw_objects].val, &dup);
+				obj_array_extend(wk, dup, objects);
+				akw[bt_kw_objects].val = dup;
 			} else {
 				akw[bt_kw_objects].set = true;
 				akw[bt_kw_objects].val = objects;
-- 
2.43.0


From e543ee504a6a4d4a428866bd2591b70b9bb0a3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:17 +0000
Subject: [PATCH 083/117] fix: do not compile two sources to the same object

---
 src/functions/build_target.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/functions/build_target.c b/src/functions/build_target.c
index 52062e1..df509fc 100644
--- a/src/functions/build_target.c
+++ b/src/functions/build_target.c
@@ -25,25 +25,27 @@ tgt_src_to_object_path(struct workspace *wk, const struct obj_build_target *tgt,
 
 	SBUF(private_path_rel);
 	SBUF(rel);
-	const char *base, *private_path = get_cstr(wk, tgt->private_path);
+	const char *base, *prefix = "", *private_path = get_cstr(wk, tgt->private_path);
 
 	if (relative) {
 		path_relative_to(wk, &private_path_rel, wk->build_root, private_path);
 		private_path = private_path_rel.buf;
 	}
 
-	if (path_is_subpath(get_cstr(wk, tgt->private_path), get_cstr(wk, src))) {
-		// file is a source from a generated list
-		base = get_cstr(wk, tgt->private_path);
-	} else if (path_is_subpath(get_cstr(wk, tgt->build_dir), get_cstr(wk, src))) {
-		// file is a generated source from custom_target / configure_file
+	// Sources from different places may have the same name, their objects
+	// must not.
+	if (path_is_subpath(get_cstr(wk, tgt->build_dir), get_cstr(wk, src))) {
+		// file is a generated source from a generated list /
+		// custom_target / configure_file
 		base = get_cstr(wk, tgt->build_dir);
+		prefix = "meson-generated_";
 	} else if (path_is_subpath(get_cstr(wk, tgt->cwd), get_cstr(wk, src))) {
 		// file is in target cwd
 		base = get_cstr(wk, tgt->cwd);
 	} else if (path_is_subpath(wk->source_root, get_cstr(wk, src))) {
 		// file is in source root
 		base = wk->source_root;
+		prefix = ".._/";
 	} else {
 		// outside the source root
 		base = NULL;
@@ -62,7 +64,11 @@ tgt_src_to_object_path(struct workspace *wk, const struct obj_build_target *tgt,
 		}
 	}
 
-	path_join(wk, res, private_path, rel.buf);
+	SBUF(object_rel);
+	sbuf_pushs(wk, &object_rel, prefix);
+	sbuf_pushs(wk, &object_rel, rel.buf);
+
+	path_join(wk, res, private_path, object_rel.buf);
 
 	const char *ext = ".o";
 
-- 
2.43.0


From 5b84d9263d26641fa3f93843ed48ceb19313899a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:39 +0000
Subject: [PATCH 084/117] fix: a subproject that fails leaves nothing behind
 and is not evaluated again

---
 src/functions/kernel/subproject.c | 109 +++++++++++++++++++++++-------
 1 file changed, 86 insertions(+), 23 deletions(-)

diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index c2c2a82..72b45b2 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -81,12 +81,90 @@ wrap_done:
 	return true;
 }
 
+// Everything outside of struct project that evaluating a subproject may add
+// to.  A subproject that fails must leave no trace there.
+struct subproject_state {
+	uint32_t projects_len;
+	obj install, install_scripts, postconf_scripts, subprojects,
+	    find_program_overrides, dep_overrides_static, dep_overrides_dynamic;
+};
+
+static void
+subproject_state_save(struct workspace *wk, struct subproject_state *s)
+{
+	s->projects_len = wk->projects.len;
+	obj_array_dup(wk, wk->install, &s->install);
+	obj_array_dup(wk, wk->install_scripts, &s->install_scripts);
+	obj_array_dup(wk, wk->postconf_scripts, &s->postconf_scripts);
+	obj_dict_dup(wk, wk->subprojects, &s->subprojects);
+	obj_dict_dup(wk, wk->find_program_overrides, &s->find_program_overrides);
+	obj_dict_dup(wk, wk->dep_overrides_static, &s->dep_overrides_static);
+	obj_dict_dup(wk, wk->dep_overrides_dynamic, &s->dep_overrides_dynamic);
+}
+
+static void
+subproject_state_restore(struct workspace *wk, const struct subproject_state *s)
+{
+	uint32_t i;
+	for (i = s->projects_len; i < wk->projects.len; ++i) {
+		struct project *proj = arr_get(&wk->projects, i);
+		proj->not_ok = true;
+	}
+
+	wk->install = s->install;
+	wk->install_scripts = s->install_scripts;
+	wk->postconf_scripts = s->postconf_scripts;
+	wk->subprojects = s->subprojects;
+	wk->find_program_overrides = s->find_program_overrides;
+	wk->dep_overrides_static = s->dep_overrides_static;
+	wk->dep_overrides_dynamic = s->dep_overrides_dynamic;
+}
+
+static bool
+subproject_version_ok(struct workspace *wk, uint32_t subproject_id, enum requirement_type req,
+	struct args_kw *versions, bool *ok)
+{
+	*ok = true;
+	if (!versions || !versions->set) {
+		return true;
+	}
+
+	struct project *subp = arr_get(&wk->projects, subproject_id);
+
+	if (!version_compare(wk, versions->node, get_str(wk, subp->cfg.version), versions->val, ok)) {
+		return false;
+	}
+
+	if (!*ok && req == requirement_required) {
+		interp_error(wk, versions->node,
+			"subproject version mismatch; wanted %o, got %o",
+			versions->val, subp->cfg.version);
+	}
+
+	return true;
+}
+
 bool
 subproject(struct workspace *wk, obj name, enum requirement_type req, struct args_kw *default_options,
 	struct args_kw *versions, obj *res)
 {
 	// don't re-evaluate the same subproject
 	if (obj_dict_index(wk, wk->subprojects, name, res)) {
+		struct obj_subproject *sub = get_obj_subproject(wk, *res);
+		bool ok = sub->found;
+
+		if (!ok) {
+			if (req == requirement_required) {
+				LOG_E("subproject %s is required but was not found", get_cstr(wk, name));
+			}
+		} else if (!subproject_version_ok(wk, sub->id, req, versions, &ok)) {
+			return false;
+		}
+
+		if (!ok) {
+			make_obj(wk, res, obj_subproject);
+			return req != requirement_required;
+		}
 		return true;
 	}
 
@@ -128,28 +206,16 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 		}
 	}
 
+	struct subproject_state state;
+	subproject_state_save(wk, &state);
+
 	if (!eval_project(wk, subproj_name, sp_cwd, sp_build_dir, &subproject_id)) {
 		goto not_found;
 	}
 
-	if (versions && versions->set) {
-		struct project *subp = arr_get(&wk->projects, subproject_id);
-
-		bool compare_result;
-		if (!version_compare(wk, versions->node, get_str(wk, subp->cfg.version),
-			versions->val, &compare_result)) {
-			goto not_found;
-		}
-
-		if (!compare_result) {
-			if (req == requirement_required) {
-				interp_error(wk, versions->node,
-					"subproject version mismatch; wanted %o, got %o",
-					versions->val, subp->cfg.version);
-			}
-
-			goto not_found;
-		}
+	bool version_ok;
+	if (!subproject_version_ok(wk, subproject_id, req, versions, &version_ok) || !version_ok) {
+		goto not_found;
 	}
 
 	make_obj(wk, res, obj_subproject);
@@ -166,11 +232,8 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 
 	return true;
 not_found:
-	if (subproject_id) {
-		struct project *proj = arr_get(&wk->projects, subproject_id);
-		proj->not_ok = true;
-	}
-
+	subproject_state_restore(wk, &state);
+	obj_dict_set(wk, wk->subprojects, name, *res);
 	return req != requirement_required;
 }
 
-- 
2.43.0


From 21204fd065c952ffd2664719b1b581bfd7fa3268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:32 +0000
Subject: [PATCH 085/117] fix: a dependency fallback is held to the version of
 the dependency, not of the subproject

---
 src/functions/kernel/dependency.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/functions/kernel/dependency.c b/src/functions/kernel/dependency.c
index 899645b..fc95653 100644
--- a/src/functions/kernel/dependency.c
+++ b/src/functions/kernel/dependency.c
@@ -200,7 +200,8 @@ handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, boo
 		}
 	}
 
-	if (!subproject(wk, subproj_name, ctx->requirement, ctx->default_options, ctx->versions, &subproj)) {
+	// the requested version is that of the dependency, not of the subproject
+	if (!subproject(wk, subproj_name, ctx->requirement, ctx->default_options, NULL, &subproj)) {
 		goto not_found;
 	}
 
@@ -225,6 +226,11 @@ handle_dependency_fallback(struct workspace *wk, struct dep_lookup_ctx *ctx, boo
 		goto not_found;
 	}
 
+	if (!override_version_matches(wk, ctx, *ctx->res)) {
+		interp_warning(wk, ctx->fallback_node, "subproject dependency %o does not have the requested version", ctx->name);
+		goto not_found;
+	}
+
 	*found = true;
 	return true;
 not_found:
-- 
2.43.0


From 6346d12082065c8dd88f185a96a9d0a94adf764b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:36 +0000
Subject: [PATCH 086/117] fix: options given to a subproject that fails are
 forgotten with it

---
 src/functions/kernel/subproject.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/functions/kernel/subproject.c b/src/functions/kernel/subproject.c
index 72b45b2..e2386fc 100644
--- a/src/functions/kernel/subproject.c
+++ b/src/functions/kernel/subproject.c
@@ -84,7 +84,7 @@ wrap_done:
 // Everything outside of struct project that evaluating a subproject may add
 // to.  A subproject that fails must leave no trace there.
 struct subproject_state {
-	uint32_t projects_len;
+	uint32_t projects_len, option_overrides_len;
 	obj install, install_scripts, postconf_scripts, subprojects,
 	    find_program_overrides, dep_overrides_static, dep_overrides_dynamic;
 };
@@ -93,6 +93,7 @@ static void
 subproject_state_save(struct workspace *wk, struct subproject_state *s)
 {
 	s->projects_len = wk->projects.len;
+	s->option_overrides_len = wk->option_overrides.len;
 	obj_array_dup(wk, wk->install, &s->install);
 	obj_array_dup(wk, wk->install_scripts, &s->install_scripts);
 	obj_array_dup(wk, wk->postconf_scripts, &s->postconf_scripts);
@@ -111,6 +112,7 @@ subproject_state_restore(struct workspace *wk, const struct subproject_state *s)
 		proj->not_ok = true;
 	}
 
+	wk->option_overrides.len = s->option_overrides_len;
 	wk->install = s->install;
 	wk->install_scripts = s->install_scripts;
 	wk->postconf_scripts = s->postconf_scripts;
@@ -199,6 +201,9 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 		return true;
 	}
 
+	struct subproject_state state;
+	subproject_state_save(wk, &state);
+
 	if (default_options && default_options->set) {
 		if (!parse_and_set_default_options(wk, default_options->node,
 			default_options->val, name, true)) {
@@ -206,9 +211,6 @@ subproject(struct workspace *wk, obj name, enum requirement_type req, struct arg
 		}
 	}
 
-	struct subproject_state state;
-	subproject_state_save(wk, &state);
-
 	if (!eval_project(wk, subproj_name, sp_cwd, sp_build_dir, &subproject_id)) {
 		goto not_found;
 	}
-- 
2.43.0


From 9f83974f88687ebd6ed26d4812e528a698ca089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:13 +0000
Subject: [PATCH 087/117] fix: regenerate instead of failing when a build file
 was removed

---
 src/backend/ninja/rules.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/ninja/rules.c b/src/backend/ninja/rules.c
index a00d97d..080e968 100644
--- a/src/backend/ninja/rules.c
+++ b/src/backend/ninja/rules.c
@@ -319,6 +319,11 @@ ninja_write_rules(FILE *out, struct workspace *wk, struct project *main_proj,
 		get_cstr(wk, join_args_ninja(wk, regenerate_deps_rel))
 		);
 
+	// a build file that is gone must cause a regeneration, not an error
+	fprintf(out, "build %s: phony\n\n",
+		get_cstr(wk, join_args_ninja(wk, regenerate_deps_rel))
+		);
+
 	fprintf(out,
 		"rule CUSTOM_COMMAND\n"
 		" command = $COMMAND\n"
-- 
2.43.0


From d7664fe24ecd168206ca3ad1141fbb9313eea45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:13 +0000
Subject: [PATCH 088/117] fix: files read with fs.read are dependencies of the
 configuration

---
 src/functions/modules/fs.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/functions/modules/fs.c b/src/functions/modules/fs.c
index 5e5a9b2..fe10b82 100644
--- a/src/functions/modules/fs.c
+++ b/src/functions/modules/fs.c
@@ -175,6 +175,9 @@ func_module_fs_read(struct workspace *wk, obj rcvr, uint32_t args_node, obj *res
 		return false;
 	}
 
+	// what was configured depends on the content of the file
+	workspace_add_regenerate_deps(wk, sbuf_into_str(wk, &path));
+
 	*res = make_strn(wk, src.src, src.len);
 
 	fs_source_destroy(&src);
-- 
2.43.0


From 3cea6ea035fe432e1c69b51caf76cdc42f651d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:13 +0000
Subject: [PATCH 089/117] fix: rerun custom targets when their environment or
 multi-line arguments change

---
 src/backend/ninja/custom_target.c | 32 +++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 6f37574..1f7c948 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -64,11 +64,15 @@ write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj
 	path_join(wk, &dirpath, wk->muon_private, dir);
 	path_join(wk, &dat_path, dirpath.buf, name.buf);
 
+	SBUF(tmp_path);
+	path_copy(wk, &tmp_path, dat_path.buf);
+	sbuf_pushs(wk, &tmp_path, ".tmp");
+
 	FILE *dat;
 
 	if (!fs_mkdir_p(dirpath.buf)) {
 		return false;
-	} else if (!(dat = fs_fopen(dat_path.buf, "wb"))) {
+	} else if (!(dat = fs_fopen(tmp_path.buf, "wb"))) {
 		return false;
 	} else if (!serial_dump(wk, data_obj, dat)) {
 		return false;
@@ -76,6 +80,26 @@ write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj
 		return false;
 	}
 
+	// only touch the file when its content changes, the target depends on it
+	struct source new_src = { 0 }, old_src = { 0 };
+	if (!fs_read_entire_file(tmp_path.buf, &new_src)) {
+		return false;
+	}
+
+	bool changed = true;
+	if (fs_file_exists(dat_path.buf) && fs_read_entire_file(dat_path.buf, &old_src)) {
+		changed = new_src.len != old_src.len
+			  || memcmp(new_src.src, old_src.src, new_src.len) != 0;
+		fs_source_destroy(&old_src);
+	}
+
+	bool ok = fs_remove(tmp_path.buf)
+		  && (!changed || fs_write(dat_path.buf, (const uint8_t *)new_src.src, new_src.len));
+	fs_source_destroy(&new_src);
+	if (!ok) {
+		return false;
+	}
+
 	*res = make_str(wk, dat_path.buf);
 	return true;
 }
@@ -86,7 +110,8 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 	struct obj_custom_target *tgt = get_obj_custom_target(wk, tgt_id);
 	L("writing rules for custom target '%s'", get_cstr(wk, tgt->name));
 
-	obj outputs, inputs = 0, cmdline;
+	obj outputs, inputs = 0, cmdline, dat_files;
+	make_obj(wk, &dat_files, obj_array);
 
 	if (tgt->input) {
 		relativize_paths(wk, tgt->input, false, &inputs);
@@ -139,6 +164,7 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 
 		obj_array_push(wk, cmdline, make_str(wk, "-e"));
 		obj_array_push(wk, cmdline, env_dat_path);
+		relativize_path_push(wk, env_dat_path, dat_files);
 	}
 
 	obj tgt_args;
@@ -157,10 +183,12 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 
 		obj_array_push(wk, cmdline, make_str(wk, "-a"));
 		obj_array_push(wk, cmdline, args_dat_path);
+		relativize_path_push(wk, args_dat_path, dat_files);
 	}
 
 	obj depends_rel;
 	relativize_paths(wk, tgt->depends, false, &depends_rel);
+	obj_array_extend_nodup(wk, depends_rel, dat_files);
 
 	if (tgt->flags & custom_target_build_always_stale) {
 		obj_array_push(wk, depends_rel, make_str(wk, "build_always_stale"));
-- 
2.43.0


From 8b4a50928d862fd347972973cfe461ab91249d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:25 +0000
Subject: [PATCH 090/117] fix: line continuations in files with CRLF line
 endings

---
 src/lang/lexer.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lang/lexer.c b/src/lang/lexer.c
index 0e33b51..09cb305 100644
--- a/src/lang/lexer.c
+++ b/src/lang/lexer.c
@@ -708,6 +708,7 @@ lex_string(struct lexer *lexer, struct token *token, bool fstring)
 static enum lex_result
 lexer_tokenize_one(struct lexer *lexer)
 {
+skip_space:
 	while (is_skipchar(lexer->src[lexer->i])) {
 		if (lexer->src[lexer->i] == '#') {
 			advance(lexer);
@@ -728,10 +729,16 @@ lexer_tokenize_one(struct lexer *lexer)
 		}
 	}
 
-	if (lexer->src[lexer->i] == '\\' && lexer->src[lexer->i + 1] == '\n') {
-		advance(lexer);
-		advance(lexer);
-		return lexer_tokenize_one(lexer);
+	// a line continuation, also in files with CRLF line endings
+	if (lexer->src[lexer->i] == '\\') {
+		uint32_t len = lexer->src[lexer->i + 1] == '\r' ? 2 : 1;
+
+		if (lexer->src[lexer->i + len] == '\n') {
+			for (++len; len; --len) {
+				advance(lexer);
+			}
+			goto skip_space;
+		}
 	}
 
 	struct token *token = next_tok(lexer);
-- 
2.43.0


From cc4631a36b0e1f0e9f72dc4f473e735406510f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:57 +0000
Subject: [PATCH 091/117] fix: leading white space in key-value files is not
 part of the key

---
 src/formats/ini.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/formats/ini.c b/src/formats/ini.c
index 11fa7cb..9d8beb7 100644
--- a/src/formats/ini.c
+++ b/src/formats/ini.c
@@ -45,6 +45,13 @@ ini_parse_line_cb(void *_ctx, char *line, size_t len)
 	struct ini_parse_ctx *ctx = _ctx;
 	char *ptr, *key, *val;
 
+	if (ctx->keyval) {
+		// there are no continuation lines, indentation means nothing
+		while (is_whitespace(*line)) {
+			++line;
+		}
+	}
+
 	if (!*line || strchr(ctx->comment_chars, *line) || line_is_whitespace(line)) {
 		goto done_with_line;
 	} else if (!ctx->keyval && *line == '[') {
-- 
2.43.0


From ba580898e5d48b3912a96efc8fe19a7e297a0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:58 +0000
Subject: [PATCH 092/117] fix: files loaded with keyval.load are dependencies
 of the configuration

---
 src/functions/modules/keyval.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/modules/keyval.c b/src/functions/modules/keyval.c
index 03054ce..0c61349 100644
--- a/src/functions/modules/keyval.c
+++ b/src/functions/modules/keyval.c
@@ -10,6 +10,7 @@
 #include "functions/common.h"
 #include "functions/modules/keyval.h"
 #include "lang/typecheck.h"
+#include "lang/workspace.h"
 #include "platform/filesystem.h"
 #include "platform/mem.h"
 
@@ -61,6 +62,9 @@ func_module_keyval_load(struct workspace *wk, obj rcvr, uint32_t args_node, obj
 		goto ret;
 	}
 
+	// what was configured depends on the content of the file
+	workspace_add_regenerate_deps(wk, make_str(wk, path));
+
 	ret = true;
 ret:
 	fs_source_destroy(&src);
-- 
2.43.0


From da5e6cf848290aec17479b5d33667d79fe962ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:58 +0000
Subject: [PATCH 093/117] fix: refuse unknown keys in the formatter
 configuration

---
 src/lang/fmt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lang/fmt.c b/src/lang/fmt.c
index dbc7ff9..773e8bc 100644
--- a/src/lang/fmt.c
+++ b/src/lang/fmt.c
@@ -1084,10 +1084,13 @@ fmt_cfg_parse_cb(void *_ctx, struct source *src, const char *sect,
 				break;
 			}
 			}
+
+			return true;
 		}
 	}
 
-	return true;
+	error_messagef(src, line, 1, log_error, "unknown key '%s'", k);
+	return false;
 }
 
 bool
-- 
2.43.0


From 4990a502d5803d85bc530c65ef2e8e980d7122e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:42:57 +0000
Subject: [PATCH 094/117] fix: write the dependencies of custom targets on
 their data files relative to the build directory

---
 src/backend/ninja/custom_target.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 1f7c948..117412d 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -164,7 +164,7 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 
 		obj_array_push(wk, cmdline, make_str(wk, "-e"));
 		obj_array_push(wk, cmdline, env_dat_path);
-		relativize_path_push(wk, env_dat_path, dat_files);
+		obj_array_push(wk, dat_files, env_dat_path);
 	}
 
 	obj tgt_args;
@@ -183,12 +183,14 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 
 		obj_array_push(wk, cmdline, make_str(wk, "-a"));
 		obj_array_push(wk, cmdline, args_dat_path);
-		relativize_path_push(wk, args_dat_path, dat_files);
+		obj_array_push(wk, dat_files, args_dat_path);
 	}
 
 	obj depends_rel;
 	relativize_paths(wk, tgt->depends, false, &depends_rel);
-	obj_array_extend_nodup(wk, depends_rel, dat_files);
+	obj dat_files_rel;
+	relativize_paths(wk, dat_files, true, &dat_files_rel);
+	obj_array_extend_nodup(wk, depends_rel, dat_files_rel);
 
 	if (tgt->flags & custom_target_build_always_stale) {
 		obj_array_push(wk, depends_rel, make_str(wk, "build_always_stale"));
-- 
2.43.0


From 461dffbfe6ed633bb946346d7e092d3c41f1e87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:20 +0000
Subject: [PATCH 095/117] fix: analyze: functions called inside of subdir() and
 set_variable() are not given unknown values

---
 src/functions/common.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions/common.c b/src/functions/common.c
index fc6bee6..5992116 100644
--- a/src/functions/common.c
+++ b/src/functions/common.c
@@ -1168,6 +1168,10 @@ analyze_function(struct workspace *wk, const struct func_impl *fi, uint32_t args
 		pure = false;
 	}
 
+	// these only apply to the call itself, not to calls made while it runs
+	analyze_function_opts.allow_impure_args = false;
+	analyze_function_opts.allow_impure_args_except_first = false;
+
 	if (!rcvr) {
 		if (strcmp(fi->name, "set_variable") == 0 || strcmp(fi->name, "subdir") == 0) {
 			analyze_function_opts.allow_impure_args_except_first = true;
-- 
2.43.0


From bae73ef9f1a34fb8b238bf87f307e4dd664be270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 096/117] fix: errors while extracting archives are not only
 warned about

---
 src/external/libarchive.c | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index 8caacd4..c3ce3f3 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -47,6 +47,7 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	struct archive_entry *entry;
 	int flags;
 	int r;
+	SBUF_manual(path);
 
 	/* Select which attributes we want to restore. */
 	flags = ARCHIVE_EXTRACT_TIME;
@@ -67,38 +68,42 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 		goto ret;
 	}
 
-	SBUF_manual(path);
-
 	while (true) {
 		if ((r = archive_read_next_header(a, &entry)) == ARCHIVE_EOF) {
 			break;
-		} else if (r < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(a));
 		} else if (r < ARCHIVE_WARN) {
-			LOG_E("%s\n", archive_error_string(a));
+			LOG_E("%s", archive_error_string(a));
 			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s", archive_error_string(a));
 		}
 
 		path_join(NULL, &path, dest_path, archive_entry_pathname(entry));
 
 		archive_entry_copy_pathname(entry, path.buf);
 
-		if ((r = archive_write_header(ext, entry)) < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(ext));
-		} else if (archive_entry_size(entry) > 0) {
-			if ((r = copy_data(a, ext)) < ARCHIVE_OK) {
-				LOG_W("%s\n", archive_error_string(ext));
-			} else if (r < ARCHIVE_WARN) {
-				LOG_E("%s\n", archive_error_string(ext));
+		if ((r = archive_write_header(ext, entry)) < ARCHIVE_WARN) {
+			LOG_E("%s", archive_error_string(ext));
+			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s", archive_error_string(ext));
+		}
+
+		if (archive_entry_size(entry) > 0) {
+			if ((r = copy_data(a, ext)) < ARCHIVE_WARN) {
+				LOG_E("error extracting archive: %s",
+					archive_error_string(a) ? archive_error_string(a) : archive_error_string(ext));
 				goto ret;
+			} else if (r < ARCHIVE_OK) {
+				LOG_W("%s", archive_error_string(ext));
 			}
 		}
 
-		if ((r = archive_write_finish_entry(ext)) < ARCHIVE_OK) {
-			LOG_W("%s\n", archive_error_string(ext));
-		} else if (r < ARCHIVE_WARN) {
-			LOG_E("%s\n", archive_error_string(ext));
+		if ((r = archive_write_finish_entry(ext)) < ARCHIVE_WARN) {
+			LOG_E("%s", archive_error_string(ext));
 			goto ret;
+		} else if (r < ARCHIVE_OK) {
+			LOG_W("%s", archive_error_string(ext));
 		}
 	}
 
-- 
2.43.0


From 1f1a7ce9e09299572502ded9c58d2b72c7c4ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 097/117] fix: archives are only extracted below the given
 directory, hard links are kept

---
 src/external/libarchive.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index c3ce3f3..7a758c6 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -47,13 +47,25 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	struct archive_entry *entry;
 	int flags;
 	int r;
-	SBUF_manual(path);
+	SBUF_manual(cwd);
 
 	/* Select which attributes we want to restore. */
 	flags = ARCHIVE_EXTRACT_TIME;
 	flags |= ARCHIVE_EXTRACT_PERM;
 	flags |= ARCHIVE_EXTRACT_ACL;
 	flags |= ARCHIVE_EXTRACT_FFLAGS;
+	/* Nothing may be written outside of dest_path */
+	flags |= ARCHIVE_EXTRACT_SECURE_NODOTDOT;
+	flags |= ARCHIVE_EXTRACT_SECURE_SYMLINKS;
+	flags |= ARCHIVE_EXTRACT_SECURE_NOABSOLUTEPATHS;
+
+	// extract relative to dest_path, so that the above apply to what is in
+	// the archive and links within it are found
+	path_cwd(NULL, &cwd);
+	if (!path_chdir(dest_path)) {
+		sbuf_destroy(&cwd);
+		return false;
+	}
 
 	a = archive_read_new();
 	archive_read_support_format_all(a);
@@ -78,10 +90,6 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 			LOG_W("%s", archive_error_string(a));
 		}
 
-		path_join(NULL, &path, dest_path, archive_entry_pathname(entry));
-
-		archive_entry_copy_pathname(entry, path.buf);
-
 		if ((r = archive_write_header(ext, entry)) < ARCHIVE_WARN) {
 			LOG_E("%s", archive_error_string(ext));
 			goto ret;
@@ -109,8 +117,6 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 
 	res = true;
 ret:
-	sbuf_destroy(&path);
-
 	if (a) {
 		archive_read_close(a);
 		archive_read_free(a);
@@ -120,5 +126,10 @@ ret:
 		archive_write_close(ext);
 		archive_write_free(ext);
 	}
+
+	if (!path_chdir(cwd.buf)) {
+		res = false;
+	}
+	sbuf_destroy(&cwd);
 	return res;
 }
-- 
2.43.0


From 374306b0dd2cf7aeb5fa63794b615ad63884a40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 098/117] fix: refuse checksums that are not hexadecimal

---
 src/wrap.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wrap.c b/src/wrap.c
index fa5e1b3..eb3bfdd 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -5,6 +5,7 @@
 
 #include "compat.h"
 
+#include <ctype.h>
 #include <string.h>
 #include <stdlib.h>
 
@@ -235,6 +236,10 @@ checksum(const uint8_t *file_buf, uint64_t len, const char *sha256)
 
 	for (i = 0; i < 64; i += 2) {
 		memcpy(buf, &sha256[i], 2);
+		if (!isxdigit((unsigned char)buf[0]) || !isxdigit((unsigned char)buf[1])) {
+			LOG_E("checksum '%s' is not hexadecimal", sha256);
+			return false;
+		}
 		b = strtol(buf, NULL, 16);
 		if (b != hash[i / 2]) {
 			LOG_E("checksum mismatch");
-- 
2.43.0


From b28a3ce141ed9673ebd809eb26439e1fe6fb1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:53 +0000
Subject: [PATCH 099/117] fix: muon subprojects download reports failure

---
 src/main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.c b/src/main.c
index f27f40d..90043f4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -448,6 +448,7 @@ ret:
 
 struct cmd_subprojects_download_ctx {
 	const char *subprojects;
+	bool failed;
 };
 
 static enum iteration_result
@@ -470,6 +471,8 @@ cmd_subprojects_download_iter(void *_ctx, const char *name)
 	LOG_I("fetching %s", name);
 	struct wrap wrap = { 0 };
 	if (!wrap_handle(path.buf, ctx->subprojects, &wrap, true)) {
+		LOG_E("failed to fetch %s", name);
+		ctx->failed = true;
 		goto cont;
 	}
 
@@ -518,6 +521,10 @@ cmd_subprojects_download(uint32_t argc, uint32_t argi, char *const argv[])
 		res = fs_dir_foreach(path.buf, &ctx, cmd_subprojects_download_iter);
 	}
 
+	if (ctx.failed) {
+		res = false;
+	}
+
 ret:
 	sbuf_destroy(&path);
 	return res;
-- 
2.43.0


From 04eb5610cd06785625e547e49bc2bb7fa3927fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:21 +0000
Subject: [PATCH 100/117] fix: empty diff_files in wraps are not read past
 their end

---
 src/wrap.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/wrap.c b/src/wrap.c
index eb3bfdd..995a27c 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -509,14 +509,29 @@ wrap_apply_diff_files(struct wrap *wrap, const char *subprojects, const char *de
 	path_join(NULL, &packagefiles, subprojects, "packagefiles");
 
 	char *p = (char *)wrap->fields[wf_diff_files];
-	const char *diff_file = p;
+	const char *diff_file;
 
 	bool patch_cmd_found = fs_has_cmd("patch");
 
 	while (true) {
-		if (p[1] == ',' || !p[1]) {
-			bool done = !p[1];
-			p[1] = 0;
+		while (*p && strchr(", \r\t", *p)) {
+			++p;
+		}
+
+		if (!*p) {
+			break;
+		}
+
+		{
+			diff_file = p;
+			p += strcspn(p, ",");
+			bool done = !*p;
+			*p = 0;
+
+			char *end = p;
+			while (end > diff_file && strchr(" \r\t", end[-1])) {
+				*--end = 0;
+			}
 
 			path_join(NULL, &diff_path, packagefiles.buf, diff_file);
 
@@ -542,19 +557,8 @@ wrap_apply_diff_files(struct wrap *wrap, const char *subprojects, const char *de
 				break;
 			}
 
-			p += 2;
-			while (*p && strchr(" \r\t", *p)) {
-				++p;
-			}
-
-			if (!*p) {
-				break;
-			}
-
-			diff_file = p;
+			++p;
 		}
-
-		++p;
 	}
 
 	res = true;
-- 
2.43.0


From de2df024075c1142857ec909f68a1fcf89a8fd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:21 +0000
Subject: [PATCH 101/117] fix: a wrap that fails leaves no partial subproject
 behind

---
 src/wrap.c | 44 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/wrap.c b/src/wrap.c
index 995a27c..27877f0 100644
--- a/src/wrap.c
+++ b/src/wrap.c
@@ -658,6 +658,39 @@ wrap_handle_file(struct wrap *wrap, const char *subprojects, bool download)
 		);
 }
 
+static enum iteration_result
+wrap_remove_iter(void *_ctx, const char *name)
+{
+	const char *dir = _ctx;
+	SBUF_manual(path);
+	path_join(NULL, &path, dir, name);
+
+	bool ok = true;
+	if (!fs_symlink_exists(path.buf) && fs_dir_exists(path.buf)) {
+		ok = fs_dir_foreach(path.buf, path.buf, wrap_remove_iter);
+	}
+
+	ok = fs_remove(path.buf) && ok;
+	sbuf_destroy(&path);
+	return ok ? ir_cont : ir_err;
+}
+
+// A subproject that could not be unpacked or patched must not be taken for a
+// complete one by a later run.
+static void
+wrap_cleanup_failed(struct wrap *wrap, const char *meson_build, bool had_dest_dir)
+{
+	if (had_dest_dir) {
+		if (fs_file_exists(meson_build)) {
+			fs_remove(meson_build);
+		}
+	} else if (fs_dir_exists(wrap->dest_dir.buf) && !fs_symlink_exists(wrap->dest_dir.buf)) {
+		if (fs_dir_foreach(wrap->dest_dir.buf, wrap->dest_dir.buf, wrap_remove_iter)) {
+			fs_remove(wrap->dest_dir.buf);
+		}
+	}
+}
+
 bool
 wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, bool download)
 {
@@ -675,10 +708,12 @@ wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, b
 		goto ret;
 	}
 
+	bool had_dest_dir = fs_dir_exists(wrap->dest_dir.buf);
+
 	switch (wrap->type) {
 	case wrap_type_file:
 		if (!wrap_handle_file(wrap, subprojects, download)) {
-			goto ret;
+			goto failed;
 		}
 		break;
 	case wrap_type_git:
@@ -688,7 +723,7 @@ wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, b
 		}
 
 		if (!wrap_handle_git(wrap, subprojects)) {
-			goto ret;
+			goto failed;
 		}
 		break;
 	default:
@@ -697,10 +732,13 @@ wrap_handle(const char *wrap_file, const char *subprojects, struct wrap *wrap, b
 	}
 
 	if (!wrap_apply_patch(wrap, subprojects, download)) {
-		goto ret;
+		goto failed;
 	}
 
 	res = true;
+	goto ret;
+failed:
+	wrap_cleanup_failed(wrap, meson_build.buf, had_dest_dir);
 ret:
 	sbuf_destroy(&meson_build);
 	return res;
-- 
2.43.0


From d05f671ce882cd3d5d12a2cf6e0eb34a691867f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:58:57 +0000
Subject: [PATCH 102/117] fix: extract archives containing non-ascii names in
 any locale

---
 src/external/libarchive.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/external/libarchive.c b/src/external/libarchive.c
index 7a758c6..048c796 100644
--- a/src/external/libarchive.c
+++ b/src/external/libarchive.c
@@ -7,6 +7,8 @@
 
 #include <archive.h>
 #include <archive_entry.h>
+#include <locale.h>
+#include <stdio.h>
 
 #include "buf_size.h"
 #include "external/libarchive.h"
@@ -47,6 +49,7 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 	struct archive_entry *entry;
 	int flags;
 	int r;
+	char old_ctype[256];
 	SBUF_manual(cwd);
 
 	/* Select which attributes we want to restore. */
@@ -67,6 +70,13 @@ muon_archive_extract(const char *buf, size_t size, const char *dest_path)
 		return false;
 	}
 
+	// names stored as utf-8 are to be used as they are, whatever the locale is
+	char *ctype = setlocale(LC_CTYPE, NULL);
+	snprintf(old_ctype, sizeof(old_ctype), "%s", ctype ? ctype : "C");
+	if (!setlocale(LC_CTYPE, "C.UTF-8")) {
+		setlocale(LC_CTYPE, "");
+	}
+
 	a = archive_read_new();
 	archive_read_support_format_all(a);
 	archive_read_support_filter_all(a);
@@ -127,6 +137,8 @@ ret:
 		archive_write_free(ext);
 	}
 
+	setlocale(LC_CTYPE, old_ctype);
+
 	if (!path_chdir(cwd.buf)) {
 		res = false;
 	}
-- 
2.43.0


From 0bd0919ca039fda23b02bb237b39fefd2de999fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 103/117] fix: pkgconfig: directories that are absolute are not
 appended to the prefix

---
 src/functions/modules/pkgconfig.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 51f7590..272d2d0 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -471,6 +471,27 @@ module_pkgconf_declare_var(struct workspace *wk, uint32_t err_node, bool escape,
 	return true;
 }
 
+// returns the given installation directory, in terms of ${prefix} if it is
+// below the prefix
+static obj
+module_pkgconf_dir_in_prefix(struct workspace *wk, const char *dir)
+{
+	if (!path_is_absolute(dir)) {
+		return make_strf(wk, "${prefix}/%s", dir);
+	}
+
+	obj prefix;
+	get_option_value(wk, current_project(wk), "prefix", &prefix);
+
+	if (!path_is_subpath(get_cstr(wk, prefix), dir)) {
+		return make_str(wk, dir);
+	}
+
+	SBUF(rel);
+	path_relative_to(wk, &rel, get_cstr(wk, prefix), dir);
+	return make_strf(wk, "${prefix}/%s", rel.buf);
+}
+
 static void
 module_pkgconf_declare_builtin_dir_var(struct workspace *wk, const char *opt, obj dest)
 {
@@ -479,7 +500,7 @@ module_pkgconf_declare_builtin_dir_var(struct workspace *wk, const char *opt, ob
 	if (strcmp(opt, "prefix") == 0) {
 		valstr = val;
 	} else {
-		valstr = make_strf(wk, "${prefix}/%s", get_cstr(wk, val));
+		valstr = module_pkgconf_dir_in_prefix(wk, get_cstr(wk, val));
 	}
 
 	module_pkgconf_declare_var(wk, 0, true, true, &WKSTR(opt), get_str(wk, valstr), dest);
-- 
2.43.0


From 1f88382f9f7b64b3ec2134e7d5566228cd063256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 104/117] fix: pkgconfig: declare every builtin directory the
 variables of this file refer to

---
 src/functions/modules/pkgconfig.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 272d2d0..faacc0d 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -451,7 +451,7 @@ module_pkgconf_declare_var(struct workspace *wk, uint32_t err_node, bool escape,
 				continue;
 			}
 
-			if (str_startswith(val, &WKSTR(module_pkgconf_diropts[i].name))) {
+			if (strstr(val->s, module_pkgconf_diropts[i].name)) {
 				module_pkgconf_diropts[module_pkgconf_diropt_prefix].refd = true; // prefix
 				module_pkgconf_diropts[i].refd = true;
 			}
@@ -904,6 +904,7 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 	{ // variables
 		for (i = 0; i < ARRAY_LEN(module_pkgconf_diropts); ++i) {
 			module_pkgconf_diropts[i].refd = false;
+			module_pkgconf_diropts[i].added = false;
 		}
 
 		if (!pc.dataonly) {
-- 
2.43.0


From 5728e4f4d87735e3bd95df08f9fdba5e6753c995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 105/117] fix: pkgconfig: files without a library have a
 default description

---
 src/functions/modules/pkgconfig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index faacc0d..4aae35c 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -828,7 +828,7 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 
 	if (akw[kw_description].set) {
 		pc.description = akw[kw_description].val;
-	} else if (mainlib) {
+	} else {
 		pc.description = make_strf(wk, "%s: %s",
 			get_cstr(wk, current_project(wk)->cfg.name),
 			get_cstr(wk, pc.name));
-- 
2.43.0


From b8df37f706b87ba015eb6eb31b7b5ee53e3f0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 106/117] fix: pkgconfig: requirements are written once

---
 src/functions/modules/pkgconfig.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 4aae35c..878e9de 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -870,9 +870,7 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 		}
 	}
 
-	module_pkgconf_remove_dups(wk, &pc.reqs[pkgconf_visibility_pub], pc.exclude);
 	module_pkgconf_remove_dups(wk, &pc.libs[pkgconf_visibility_pub], pc.exclude);
-	module_pkgconf_remove_dups(wk, &pc.reqs[pkgconf_visibility_priv], pc.exclude);
 	module_pkgconf_remove_dups(wk, &pc.libs[pkgconf_visibility_priv], pc.exclude);
 
 	for (i = 0; i < 2; ++i) {
@@ -897,6 +895,9 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 		}
 	}
 
+	module_pkgconf_remove_dups(wk, &pc.reqs[pkgconf_visibility_pub], pc.exclude);
+	module_pkgconf_remove_dups(wk, &pc.reqs[pkgconf_visibility_priv], pc.exclude);
+
 	if (akw[kw_extra_cflags].set) {
 		obj_array_extend(wk, pc.cflags, akw[kw_extra_cflags].val);
 	}
-- 
2.43.0


From b593448d938911f9f2c4db3e12966b66e6895f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:08 +0000
Subject: [PATCH 107/117] fix: pkgconfig: write the declared conflicts

---
 src/functions/modules/pkgconfig.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 878e9de..d97e818 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -706,6 +706,12 @@ module_pkgconf_write(struct workspace *wk, const char *path, struct pkgconf_file
 		fprintf(f, "Requires.private: %s\n", get_cstr(wk, str));
 	}
 
+	if (pc->conflicts && get_obj_array(wk, pc->conflicts)->len) {
+		obj str;
+		obj_array_join(wk, false, pc->conflicts, make_str(wk, ", "), &str);
+		fprintf(f, "Conflicts: %s\n", get_cstr(wk, str));
+	}
+
 	if (get_obj_array(wk, pc->libs[pkgconf_visibility_pub])->len) {
 		obj str;
 		obj_array_join(wk, false, pc->libs[pkgconf_visibility_pub], make_str(wk, " "), &str);
-- 
2.43.0


From ab7cab4295222029b68c2d4b3f39b8a128695440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:22 +0000
Subject: [PATCH 108/117] fix: pkgconfig: write libraries before what they
 need, what a private static library needs is private

---
 src/functions/modules/pkgconfig.c | 73 ++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 20 deletions(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index d97e818..d319010 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -267,16 +267,26 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 				return ir_err;
 			}
 
-			if (tgt->dep.raw.deps) {
-				if (!module_pkgconf_process_libs(wk, ctx->err_node,
-					tgt->dep.raw.deps, ctx->pc, pkgconf_visibility_priv, false)) {
-					return ir_err;
-				}
+			obj lib;
+			if (!module_pkgconf_lib_to_lname(wk, tgt->name, &lib)) {
+				return ir_err;
 			}
 
+			// A library is written before the libraries it needs,
+			// otherwise the linker doesn't find what it needs in
+			// static libraries.
+			if (ctx->link_whole) {
+				obj_array_push(wk, ctx->pc->exclude, lib);
+			} else if (tgt->type != tgt_static_library || (tgt->flags & build_tgt_flag_installed)) {
+				ctx->pc->libs_contains_internal[ctx->vis] = true;
+				obj_array_push(wk, ctx->pc->libs[ctx->vis], lib);
+			}
+
+			// Everything a static library needs is as visible as
+			// the library itself.
 			const enum pkgconf_visibility link_vis =
 				tgt->type == tgt_static_library
-				? pkgconf_visibility_pub
+				? ctx->vis
 				: pkgconf_visibility_priv;
 
 			if (tgt->dep.raw.link_with) {
@@ -293,20 +303,12 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 				}
 			}
 
-			obj lib;
-			if (!module_pkgconf_lib_to_lname(wk, tgt->name, &lib)) {
-				return ir_err;
-			}
-
-			if (ctx->link_whole) {
-				obj_array_push(wk, ctx->pc->exclude, lib);
-				return ir_cont;
-			} else if ((tgt->type == tgt_static_library && !(tgt->flags & build_tgt_flag_installed))) {
-				return ir_cont;
+			if (tgt->dep.raw.deps) {
+				if (!module_pkgconf_process_libs(wk, ctx->err_node,
+					tgt->dep.raw.deps, ctx->pc, link_vis, false)) {
+					return ir_err;
+				}
 			}
-
-			ctx->pc->libs_contains_internal[ctx->vis] = true;
-			obj_array_push(wk, ctx->pc->libs[ctx->vis], lib);
 		}
 		break;
 	}
@@ -352,7 +354,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 			// TODO: handle version req
 			break;
 		case dependency_type_threads:
-			obj_array_push(wk, ctx->pc->libs[pkgconf_visibility_priv], make_str(wk, "-pthread"));
+			obj_array_push(wk, ctx->pc->libs[ctx->vis], make_str(wk, "-pthread"));
 			break;
 		case dependency_type_external_library: {
 			obj link_with_files;
@@ -625,6 +627,35 @@ module_pkgconf_prepend_libdir(struct workspace *wk, struct args_kw *install_dir_
 	return true;
 }
 
+// Removes all but the last occurrence of every library, so that it still
+// follows every library that needs it.
+static void
+module_pkgconf_remove_repeated_libs(struct workspace *wk, obj *list)
+{
+	obj arr;
+	make_obj(wk, &arr, obj_array);
+
+	uint32_t i, j, len = get_obj_array(wk, *list)->len;
+	for (i = 0; i < len; ++i) {
+		obj val, later;
+		obj_array_index(wk, *list, i, &val);
+
+		bool repeated = false;
+		if (str_startswith(get_str(wk, val), &WKSTR("-l"))) {
+			for (j = i + 1; j < len && !repeated; ++j) {
+				obj_array_index(wk, *list, j, &later);
+				repeated = obj_equal(wk, val, later);
+			}
+		}
+
+		if (!repeated) {
+			obj_array_push(wk, arr, val);
+		}
+	}
+
+	*list = arr;
+}
+
 struct module_pkgconf_remove_dups_ctx {
 	obj exclude;
 	obj res;
@@ -876,6 +907,8 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 		}
 	}
 
+	module_pkgconf_remove_repeated_libs(wk, &pc.libs[pkgconf_visibility_pub]);
+	module_pkgconf_remove_repeated_libs(wk, &pc.libs[pkgconf_visibility_priv]);
 	module_pkgconf_remove_dups(wk, &pc.libs[pkgconf_visibility_pub], pc.exclude);
 	module_pkgconf_remove_dups(wk, &pc.libs[pkgconf_visibility_priv], pc.exclude);
 
-- 
2.43.0


From cafbdf0562179d91af7fcc1117df42bad429520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:05 +0000
Subject: [PATCH 109/117] fix: pkgconfig: libraries named lib* keep their name

---
 src/functions/modules/pkgconfig.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index d319010..4003813 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -131,6 +131,20 @@ module_pkgconf_lib_to_lname(struct workspace *wk, obj lib, obj *res)
 	return true;
 }
 
+// A build target's name is what -l has to be given, unless the target has no
+// name prefix and the lib is a part of its name.
+static obj
+module_pkgconf_tgt_to_lname(struct workspace *wk, struct obj_build_target *tgt)
+{
+	const struct str *name = get_str(wk, tgt->name), lib = WKSTR("lib");
+
+	if (str_startswith(name, &lib) && str_startswith(get_str(wk, tgt->build_name), name)) {
+		return make_strf(wk, "-l%s", name->s + lib.len);
+	}
+
+	return make_strf(wk, "-l%s", name->s);
+}
+
 struct module_pkgconf_process_reqs_iter_ctx {
 	uint32_t err_node;
 	obj dest;
@@ -267,10 +281,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 				return ir_err;
 			}
 
-			obj lib;
-			if (!module_pkgconf_lib_to_lname(wk, tgt->name, &lib)) {
-				return ir_err;
-			}
+			obj lib = module_pkgconf_tgt_to_lname(wk, tgt);
 
 			// A library is written before the libraries it needs,
 			// otherwise the linker doesn't find what it needs in
-- 
2.43.0


From 56b26d20d2ddc36a7c107b1efc542ff3877bd1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:05 +0000
Subject: [PATCH 110/117] fix: pkgconfig: include directories and definitions
 are written once

---
 src/functions/modules/pkgconfig.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 4003813..24b99c0 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -702,6 +702,22 @@ module_pkgconf_remove_dups(struct workspace *wk, obj *list, obj exclude)
 	*list = ctx.res;
 }
 
+static enum iteration_result
+module_pkgconf_remove_repeated_cflags_iter(struct workspace *wk, void *_ctx, obj val)
+{
+	obj *res = _ctx;
+	const struct str *s = get_str(wk, val);
+
+	// only these mean the same wherever they are
+	if ((str_startswith(s, &WKSTR("-I")) || str_startswith(s, &WKSTR("-D")))
+	    && s->len > 2 && obj_array_in(wk, *res, val)) {
+		return ir_cont;
+	}
+
+	obj_array_push(wk, *res, val);
+	return ir_cont;
+}
+
 static bool
 module_pkgconf_write(struct workspace *wk, const char *path, struct pkgconf_file *pc)
 {
@@ -952,6 +968,11 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 		obj_array_extend(wk, pc.cflags, akw[kw_extra_cflags].val);
 	}
 
+	obj cflags;
+	make_obj(wk, &cflags, obj_array);
+	obj_array_foreach(wk, pc.cflags, &cflags, module_pkgconf_remove_repeated_cflags_iter);
+	pc.cflags = cflags;
+
 	{ // variables
 		for (i = 0; i < ARRAY_LEN(module_pkgconf_diropts); ++i) {
 			module_pkgconf_diropts[i].refd = false;
-- 
2.43.0


From e95f74a45537433e8c3e9e5dd8ba8053fdbb47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:23 +0000
Subject: [PATCH 111/117] fix: pkgconfig: library search directories are where
 the libraries are installed, not the .pc file

---
 include/lang/object.h               |   1 +
 src/functions/kernel/build_target.c |   2 +
 src/functions/modules/pkgconfig.c   | 109 +++++++++++++---------------
 3 files changed, 54 insertions(+), 58 deletions(-)

diff --git a/include/lang/object.h b/include/lang/object.h
index 6bfd79a..38fa5fe 100644
--- a/include/lang/object.h
+++ b/include/lang/object.h
@@ -236,6 +236,7 @@ struct obj_build_target {
 	obj args; // obj_dict
 	obj link_depends; // obj_array
 	obj generated_pc; // obj_string
+	obj install_dir; // obj_string
 	obj override_options; // obj_array
 	obj required_compilers; // obj_dict
 
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 2b033c1..5de6f60 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -761,6 +761,8 @@ create_target(struct workspace *wk, struct args_norm *an, struct args_kw *akw,
 			}
 		}
 
+		tgt->install_dir = install_dir;
+
 		SBUF(install_src);
 		path_join(wk, &install_src, get_cstr(wk, tgt->build_dir), get_cstr(wk, tgt->build_name));
 
diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 24b99c0..4e58ab2 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -35,7 +35,7 @@ struct pkgconf_file {
 	obj builtin_dir_variables, variables;
 	obj reqs[2], libs[2];
 	obj exclude;
-	bool libs_contains_internal[2];
+	obj libdirs[2];
 
 	bool dataonly;
 };
@@ -210,6 +210,47 @@ module_pkgconf_process_reqs(struct workspace *wk, uint32_t err_node, obj reqs, o
 	return true;
 }
 
+// returns the given installation directory, in terms of ${prefix} if it is
+// below the prefix
+static obj
+module_pkgconf_dir_in_prefix(struct workspace *wk, const char *dir)
+{
+	if (!path_is_absolute(dir)) {
+		return make_strf(wk, "${prefix}/%s", dir);
+	}
+
+	obj prefix;
+	get_option_value(wk, current_project(wk), "prefix", &prefix);
+
+	if (!path_is_subpath(get_cstr(wk, prefix), dir)) {
+		return make_str(wk, dir);
+	}
+
+	SBUF(rel);
+	path_relative_to(wk, &rel, get_cstr(wk, prefix), dir);
+	return make_strf(wk, "${prefix}/%s", rel.buf);
+}
+
+// Adds the directory a library is installed to, 0 for the default one.
+static void
+module_pkgconf_push_libdir(struct workspace *wk, struct pkgconf_file *pc, enum pkgconf_visibility vis, obj install_dir)
+{
+	obj libdir, s;
+	get_option_value(wk, current_project(wk), "libdir", &libdir);
+
+	if (!install_dir || obj_equal(wk, install_dir, libdir)) {
+		s = make_str(wk, "-L${libdir}");
+	} else {
+		SBUF(esc);
+		pkgconf_escape(wk, &esc, get_cstr(wk, module_pkgconf_dir_in_prefix(wk, get_cstr(wk, install_dir))));
+		s = make_strf(wk, "-L%s", esc.buf);
+	}
+
+	if (!obj_array_in(wk, pc->libdirs[vis], s)) {
+		obj_array_push(wk, pc->libdirs[vis], s);
+	}
+}
+
 struct module_pkgconf_process_libs_iter_ctx {
 	uint32_t err_node;
 	struct pkgconf_file *pc;
@@ -257,7 +298,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 
 		if (path_is_subpath(wk->source_root, get_file_path(wk, val))
 		    || path_is_subpath(wk->build_root, get_file_path(wk, val))) {
-			ctx->pc->libs_contains_internal[ctx->vis] = true;
+			module_pkgconf_push_libdir(wk, ctx->pc, ctx->vis, 0);
 		}
 
 		obj lib;
@@ -289,7 +330,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 			if (ctx->link_whole) {
 				obj_array_push(wk, ctx->pc->exclude, lib);
 			} else if (tgt->type != tgt_static_library || (tgt->flags & build_tgt_flag_installed)) {
-				ctx->pc->libs_contains_internal[ctx->vis] = true;
+				module_pkgconf_push_libdir(wk, ctx->pc, ctx->vis, tgt->install_dir);
 				obj_array_push(wk, ctx->pc->libs[ctx->vis], lib);
 			}
 
@@ -405,7 +446,7 @@ module_pkgconf_process_libs_iter(struct workspace *wk, void *_ctx, obj val)
 			return ir_err;
 		}
 
-		ctx->pc->libs_contains_internal[ctx->vis] = true;
+		module_pkgconf_push_libdir(wk, ctx->pc, ctx->vis, 0);
 		obj_array_push(wk, ctx->pc->libs[ctx->vis], lib);
 		break;
 	}
@@ -484,27 +525,6 @@ module_pkgconf_declare_var(struct workspace *wk, uint32_t err_node, bool escape,
 	return true;
 }
 
-// returns the given installation directory, in terms of ${prefix} if it is
-// below the prefix
-static obj
-module_pkgconf_dir_in_prefix(struct workspace *wk, const char *dir)
-{
-	if (!path_is_absolute(dir)) {
-		return make_strf(wk, "${prefix}/%s", dir);
-	}
-
-	obj prefix;
-	get_option_value(wk, current_project(wk), "prefix", &prefix);
-
-	if (!path_is_subpath(get_cstr(wk, prefix), dir)) {
-		return make_str(wk, dir);
-	}
-
-	SBUF(rel);
-	path_relative_to(wk, &rel, get_cstr(wk, prefix), dir);
-	return make_strf(wk, "${prefix}/%s", rel.buf);
-}
-
 static void
 module_pkgconf_declare_builtin_dir_var(struct workspace *wk, const char *opt, obj dest)
 {
@@ -602,40 +622,14 @@ module_pkgconf_process_vars(struct workspace *wk, uint32_t err_node, bool escape
 	return true;
 }
 
-static bool
-module_pkgconf_prepend_libdir(struct workspace *wk, struct args_kw *install_dir_opt, obj *libs)
+static void
+module_pkgconf_prepend_libdirs(struct workspace *wk, obj libdirs, obj *libs)
 {
-	obj libdir;
-	const char *path;
-	if (install_dir_opt->set) {
-		SBUF(rel);
-		obj pre;
-		get_option_value(wk, current_project(wk), "prefix", &pre);
-
-		const char *install_dir = get_cstr(wk, install_dir_opt->val),
-			   *prefix = get_cstr(wk, pre);
-
-		if (path_is_subpath(prefix, install_dir)) {
-			path_relative_to(wk, &rel, prefix, install_dir);
-			path = rel.buf;
-		} else if (path_is_absolute(install_dir)) {
-			interp_error(wk, install_dir_opt->val, "absolute install dir path not a subdir of prefix");
-			return false;
-		} else {
-			path = install_dir;
-		}
-
-		libdir = make_strf(wk, "-L${prefix}/%s", path);
-	} else {
-		libdir = make_strf(wk, "-L${libdir}");
-	}
-
 	obj arr;
 	make_obj(wk, &arr, obj_array);
-	obj_array_push(wk, arr, libdir);
+	obj_array_extend_nodup(wk, arr, libdirs);
 	obj_array_extend_nodup(wk, arr, *libs);
 	*libs = arr;
-	return true;
 }
 
 // Removes all but the last occurrence of every library, so that it still
@@ -863,6 +857,7 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 	for (i = 0; i < 2; ++i) {
 		make_obj(wk, &pc.libs[i], obj_array);
 		make_obj(wk, &pc.reqs[i], obj_array);
+		make_obj(wk, &pc.libdirs[i], obj_array);
 	}
 	make_obj(wk, &pc.cflags, obj_array);
 	make_obj(wk, &pc.variables, obj_array);
@@ -940,10 +935,8 @@ func_module_pkgconfig_generate(struct workspace *wk, obj rcvr, uint32_t args_nod
 	module_pkgconf_remove_dups(wk, &pc.libs[pkgconf_visibility_priv], pc.exclude);
 
 	for (i = 0; i < 2; ++i) {
-		if (get_obj_array(wk, pc.libs[i])->len && pc.libs_contains_internal[i]) {
-			if (!module_pkgconf_prepend_libdir(wk, &akw[kw_install_dir], &pc.libs[i])) {
-				return false;
-			}
+		if (get_obj_array(wk, pc.libs[i])->len) {
+			module_pkgconf_prepend_libdirs(wk, pc.libdirs[i], &pc.libs[i]);
 		}
 	}
 
-- 
2.43.0


From 909c529e504ca3765d6acd1078c285616c80372d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:33 +0000
Subject: [PATCH 112/117] fix: pkgconfig: a library installed to the default
 directory gets -L${libdir}, however install_dir writes it

---
 src/functions/modules/pkgconfig.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/functions/modules/pkgconfig.c b/src/functions/modules/pkgconfig.c
index 4e58ab2..3ad7e75 100644
--- a/src/functions/modules/pkgconfig.c
+++ b/src/functions/modules/pkgconfig.c
@@ -238,11 +238,12 @@ module_pkgconf_push_libdir(struct workspace *wk, struct pkgconf_file *pc, enum p
 	obj libdir, s;
 	get_option_value(wk, current_project(wk), "libdir", &libdir);
 
-	if (!install_dir || obj_equal(wk, install_dir, libdir)) {
+	if (!install_dir || obj_equal(wk, install_dir = module_pkgconf_dir_in_prefix(wk, get_cstr(wk, install_dir)),
+		module_pkgconf_dir_in_prefix(wk, get_cstr(wk, libdir)))) {
 		s = make_str(wk, "-L${libdir}");
 	} else {
 		SBUF(esc);
-		pkgconf_escape(wk, &esc, get_cstr(wk, module_pkgconf_dir_in_prefix(wk, get_cstr(wk, install_dir))));
+		pkgconf_escape(wk, &esc, get_cstr(wk, install_dir));
 		s = make_strf(wk, "-L%s", esc.buf);
 	}
 
-- 
2.43.0


From 7e0fe2ed2d0644b6e086f820cf3d2c3da61a7430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:15 +0000
Subject: [PATCH 113/117] fix: optimization and debug given explicitly
 (override_options, command line) apply besides buildtype

---
 src/backend/common_args.c | 65 +++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/backend/common_args.c b/src/backend/common_args.c
index 4758c04..a105c65 100644
--- a/src/backend/common_args.c
+++ b/src/backend/common_args.c
@@ -26,6 +26,38 @@ get_option_value_for_tgt(struct workspace *wk, const struct project *proj,
 	get_option_value_overridable(wk, proj, tgt ? tgt->override_options : 0, name, res);
 }
 
+// An option set explicitly applies whatever the buildtype says, unless the
+// buildtype was set by something with a higher precedence.
+static obj
+get_option_besides_buildtype(struct workspace *wk, const struct project *proj,
+	const struct obj_build_target *tgt, const struct obj_option *buildtype, const char *name)
+{
+	obj opt_id;
+	get_option_overridable(wk, proj, tgt ? tgt->override_options : 0, &WKSTR(name), &opt_id);
+	struct obj_option *opt = get_obj_option(wk, opt_id);
+
+	if (opt->source > option_value_source_default && opt->source >= buildtype->source) {
+		return opt->val;
+	}
+
+	return 0;
+}
+
+static enum compiler_optimization_lvl
+get_optimization_lvl(const struct str *str)
+{
+	switch (*str->s) {
+	case '0': case '1': case '2': case '3':
+		return compiler_optimization_lvl_0 + (*str->s - '0');
+	case 'g':
+		return compiler_optimization_lvl_g;
+	case 's':
+		return compiler_optimization_lvl_s;
+	default:
+		return compiler_optimization_lvl_none; // plain
+	}
+}
+
 static bool
 get_buildtype_args(struct workspace *wk, const struct project *proj,
 	const struct obj_build_target *tgt, obj args_id, enum compiler_type t)
@@ -63,29 +95,7 @@ get_buildtype_args(struct workspace *wk, const struct project *proj,
 		get_option_value_for_tgt(wk, proj, tgt, "optimization", &optimization_id);
 		get_option_value_for_tgt(wk, proj, tgt, "debug", &debug_id);
 
-		const struct str *str = get_str(wk, optimization_id);
-		if (str_eql(str, &WKSTR("plain"))) {
-			opt = compiler_optimization_lvl_none;
-		} else if (str->len != 1) {
-			UNREACHABLE;
-		}
-
-		switch (*str->s) {
-		case 'p':
-			break;
-		case '0': case '1': case '2': case '3':
-			opt = compiler_optimization_lvl_0 + (*str->s - '0');
-			break;
-		case 'g':
-			opt = compiler_optimization_lvl_g;
-			break;
-		case 's':
-			opt = compiler_optimization_lvl_s;
-			break;
-		default:
-			UNREACHABLE;
-		}
-
+		opt = get_optimization_lvl(get_str(wk, optimization_id));
 		debug = get_obj_bool(wk, debug_id);
 	} else {
 		for (i = 0; tbl[i].name; ++i) {
@@ -100,6 +110,15 @@ get_buildtype_args(struct workspace *wk, const struct project *proj,
 			LOG_E("invalid build type %s", str);
 			return false;
 		}
+
+		obj v;
+		if ((v = get_option_besides_buildtype(wk, proj, tgt, buildtype_opt, "optimization"))) {
+			opt = get_optimization_lvl(get_str(wk, v));
+		}
+
+		if ((v = get_option_besides_buildtype(wk, proj, tgt, buildtype_opt, "debug"))) {
+			debug = get_obj_bool(wk, v);
+		}
 	}
 
 	if (debug) {
-- 
2.43.0


From 3a01fee6c25a085ddc0e400031d9784fdfcc2d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:23 +0000
Subject: [PATCH 114/117] fix: the optimization arguments of a target don't
 depend on the targets before it

---
 src/compilers.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compilers.c b/src/compilers.c
index 8e73dee..72cf4c6 100644
--- a/src/compilers.c
+++ b/src/compilers.c
@@ -634,6 +634,8 @@ compiler_posix_args_optimization(uint32_t lvl)
 {
 	COMPILER_ARGS({ NULL });
 
+	args.len = 1;
+
 	switch ((enum compiler_optimization_lvl)lvl) {
 	case compiler_optimization_lvl_0:
 		argv[0] = "-O0";
@@ -717,6 +719,8 @@ compiler_gcc_args_optimization(uint32_t lvl)
 {
 	COMPILER_ARGS({ NULL });
 
+	args.len = 1;
+
 	switch ((enum compiler_optimization_lvl)lvl) {
 	case compiler_optimization_lvl_none:
 		args.len = 0;
@@ -1049,6 +1053,8 @@ compiler_cl_args_warning_lvl(uint32_t lvl)
 
 	COMPILER_ARGS({ NULL });
 
+	args.len = 1;
+
 	switch ((enum compiler_warning_lvl)lvl) {
 	case compiler_warning_lvl_0:
 		args.len = 0;
-- 
2.43.0


From 80fa544377fca0a54774aabb463ba08d10b04483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:40 +0000
Subject: [PATCH 115/117] fix: targets with assembly sources are linked with
 the link arguments of their language

---
 src/compilers.c                     | 3 ++-
 src/functions/kernel/build_target.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compilers.c b/src/compilers.c
index 72cf4c6..96f67e3 100644
--- a/src/compilers.c
+++ b/src/compilers.c
@@ -165,7 +165,8 @@ coalesce_link_languages(enum compiler_language cur, enum compiler_language new)
 	case compiler_language_c:
 	case compiler_language_c_obj:
 	case compiler_language_objc:
-		if (!cur) {
+		if (!cur
+		    || cur == compiler_language_assembly) {
 			return compiler_language_c;
 		}
 		break;
diff --git a/src/functions/kernel/build_target.c b/src/functions/kernel/build_target.c
index 5de6f60..8e3c834 100644
--- a/src/functions/kernel/build_target.c
+++ b/src/functions/kernel/build_target.c
@@ -140,7 +140,8 @@ build_tgt_determine_linker(struct workspace *wk, uint32_t err_node, struct obj_b
 		return ir_err;
 	}
 
-	if (!tgt->dep_internal.link_language) {
+	if (!tgt->dep_internal.link_language
+	    || tgt->dep_internal.link_language == compiler_language_assembly) {
 		enum compiler_language clink_langs[] = {
 			compiler_language_c,
 			compiler_language_cpp,
-- 
2.43.0


From 26c7b7897294e1b8f6e69badb7b2d05ca48770a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:39 +0000
Subject: [PATCH 116/117] fix: += in one branch does not change the variable in
 others when analyzing

---
 src/lang/analyze.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/lang/analyze.c b/src/lang/analyze.c
index 9695315..c026f06 100644
--- a/src/lang/analyze.c
+++ b/src/lang/analyze.c
@@ -318,6 +318,31 @@ assign_lookup_scope(struct workspace *wk, const char *name)
 	}
 }
 
+// Whether scope is one of the current local scope, i.e. of the current function
+// or the top level, as opposed to one that was captured.
+static bool
+scope_is_local(struct workspace *wk, obj scope)
+{
+	obj local_scope = obj_array_get_tail(wk, current_project(wk)->scope_stack), base;
+	obj_array_index(wk, local_scope, 0, &base);
+
+	if (scope == base) {
+		return true;
+	}
+
+	uint32_t i;
+	for (i = 1; i < get_obj_array(wk, local_scope)->len; ++i) {
+		obj scope_group;
+		obj_array_index(wk, local_scope, i, &scope_group);
+
+		if (scope == obj_array_get_tail(wk, scope_group)) {
+			return true;
+		}
+	}
+
+	return false;
+}
+
 static void
 analyze_unassign(struct workspace *wk, const char *name)
 {
@@ -393,7 +418,9 @@ scope_assign(struct workspace *wk, const char *name, obj o, uint32_t n_id, enum
 	TracyCZoneAutoS;
 	obj scope = 0;
 	if (mode == assign_reassign) {
-		if (!(scope = assign_lookup_scope(wk, name))) {
+		// A variable of an enclosing block gets its new value in the
+		// current block, so that other branches don't see it.
+		if (!(scope = assign_lookup_scope(wk, name)) || scope_is_local(wk, scope)) {
 			mode = assign_local;
 		}
 	}
-- 
2.43.0


From 8408f83eca2a56229708cb04c1f85ac02e8199f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:29 +0000
Subject: [PATCH 117/117] fix: name the data files of custom targets after
 their output

They were numbered in the order they were written, so when one target
started or stopped needing a data file every later target was rebuilt.
---
 src/backend/ninja/custom_target.c | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/backend/ninja/custom_target.c b/src/backend/ninja/custom_target.c
index 117412d..4d76e98 100644
--- a/src/backend/ninja/custom_target.c
+++ b/src/backend/ninja/custom_target.c
@@ -18,9 +18,6 @@
 #include "platform/filesystem.h"
 #include "platform/path.h"
 
-// appended to custom_target data files to make them unique
-static uint32_t custom_tgt_dat_sequence = 0;
-
 static enum iteration_result
 ninja_args_are_escapable_iter(struct workspace *wk, void *_ctx, obj v)
 {
@@ -43,21 +40,25 @@ ninja_args_are_escapable(struct workspace *wk, obj arr)
 }
 
 static bool
-write_custom_target_dat(struct workspace *wk, struct obj_custom_target *tgt, obj data_obj, const char *dir, obj *res)
+write_custom_target_dat(struct workspace *wk, obj outputs, obj data_obj, const char *dir, obj *res)
 {
-	assert(tgt->name && "unnamed targets cannot have a custom data");
+	// the data file is named after the first output: this is unique, and
+	// doesn't depend on which other targets need a data file
+	obj output;
+	obj_array_index(wk, outputs, 0, &output);
 
 	SBUF(name);
-	sbuf_pushf(wk, &name, "%d.%s.dat", custom_tgt_dat_sequence, get_cstr(wk, tgt->name));
-	++custom_tgt_dat_sequence;
-
-	// the names of generated targets are paths
-	char *c;
-	for (c = name.buf; *c; ++c) {
+	const char *c;
+	for (c = get_cstr(wk, output); *c; ++c) {
 		if (*c == '/') {
-			*c = '_';
+			sbuf_pushs(wk, &name, "_-");
+		} else if (*c == '_') {
+			sbuf_pushs(wk, &name, "__");
+		} else {
+			sbuf_push(wk, &name, *c);
 		}
 	}
+	sbuf_pushs(wk, &name, ".dat");
 
 	SBUF(dirpath);
 	SBUF(dat_path);
@@ -158,7 +159,7 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 
 	if (tgt->env) {
 		obj env_dat_path;
-		if (!write_custom_target_dat(wk, tgt, tgt->env, "custom_tgt_env", &env_dat_path)) {
+		if (!write_custom_target_dat(wk, outputs, tgt->env, "custom_tgt_env", &env_dat_path)) {
 			return ir_err;
 		}
 
@@ -177,7 +178,7 @@ ninja_write_custom_tgt(struct workspace *wk, obj tgt_id, struct write_tgt_ctx *c
 		obj_array_extend_nodup(wk, cmdline, tgt_args);
 	} else {
 		obj args_dat_path;
-		if (!write_custom_target_dat(wk, tgt, tgt_args, "custom_tgt_args", &args_dat_path)) {
+		if (!write_custom_target_dat(wk, outputs, tgt_args, "custom_tgt_args", &args_dat_path)) {
 			return ir_err;
 		}
 
-- 
2.43.0

