From bb68d6d77bace27ea31369ef1cbc88e0afa3217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:20 +0000
Subject: [PATCH 01/63] fix: do not parse an empty string as the integer 0

---
 src/ecoli_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..7d6b717 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -146,7 +146,7 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 	if (*val > max)
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0)
 		return -1;
 
 	errno = save_errno;
-- 
2.43.0


From 7323a70f5667c273853c3dd73feb71fad31bffe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:30 +0000
Subject: [PATCH 02/63] fix: set errno on all failures of ec_str_parse_ullint()

---
 src/ecoli_string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 7d6b717..947f925 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -130,8 +130,10 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, base);
@@ -140,14 +142,20 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*val < min)
+	if (*val < min) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*val > max)
+	if (*val > max) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (endptr == str || *endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From e2c5b0ddc9a446d5f3398283a529bc7209507110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:26 +0000
Subject: [PATCH 03/63] fix: infinite recursion when freeing a grammar with
 nested loops

---
 src/ecoli_node.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..497f16a 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -187,6 +187,10 @@ static void mark_freeable(struct ec_node *node, enum ec_node_free_state mark)
 	if (mark == node->free.state)
 		return;
 
+	/* never go back: the children are already marked as unfreeable */
+	if (node->free.state == EC_NODE_FREE_STATE_NOT_FREEABLE)
+		return;
+
 	if (node->refcnt > node->free.refcnt)
 		mark = EC_NODE_FREE_STATE_NOT_FREEABLE;
 	assert(node->refcnt >= node->free.refcnt);
-- 
2.43.0


From f7dc22caf933fa05d5948b47e53b02636bb2abba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:33 +0000
Subject: [PATCH 04/63] fix: keep exactly the selected nodes in the parse tree
 of a subset

---
 src/ecoli_node_subset.c | 44 ++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..d10011a 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -33,8 +33,17 @@ struct parse_result {
 	size_t len;                 /* consumed strings */
 };
 
-/* recursively find the longest list of nodes that matches: the state is
- * updated accordingly. */
+/* free the nodes of a selection that is not the best one */
+static void
+free_selection(struct ec_pnode **selection, size_t n)
+{
+	while (n > 0)
+		ec_pnode_free(selection[--n]);
+}
+
+/* recursively find the longest list of nodes that matches: on success,
+ * out->parse_len children are appended to the state, in the order in which
+ * they match. */
 static int
 __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 		size_t table_len, struct ec_pnode *pstate,
@@ -44,7 +53,7 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	struct ec_strvec *childvec = NULL;
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
-	struct ec_pnode *best_parse = NULL;
+	struct ec_pnode **best_parse = NULL;
 	int ret;
 
 	if (table_len == 0)
@@ -52,10 +61,14 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 	memset(&best_result, 0, sizeof(best_result));
 
-	child_table = ec_calloc(table_len - 1, sizeof(*child_table));
+	child_table = ec_calloc(table_len, sizeof(*child_table));
 	if (child_table == NULL)
 		goto fail;
 
+	best_parse = ec_calloc(table_len, sizeof(*best_parse));
+	if (best_parse == NULL)
+		goto fail;
+
 	for (i = 0; i < table_len; i++) {
 		/* try to parse elt i */
 		ret = ec_parse_child(table[i], pstate, strvec);
@@ -90,31 +103,34 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
-			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
+			for (j = 0; j < result.parse_len + 1; j++)
+				ec_pnode_del_last_child(pstate);
 			continue;
 		}
 
 		/* replace the previous best result */
-		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		free_selection(best_parse, best_result.parse_len);
+		for (j = result.parse_len + 1; j > 0; j--) {
+			best_parse[j - 1] = ec_pnode_get_last_child(pstate);
+			ec_pnode_unlink_child(best_parse[j - 1]);
+		}
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
-
-		memset(&result, 0, sizeof(result));
 	}
 
 	*out = best_result;
 	ec_free(child_table);
-	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+	for (j = 0; j < best_result.parse_len; j++)
+		ec_pnode_link_child(pstate, best_parse[j]);
+	ec_free(best_parse);
 
 	return 0;
 
  fail:
-	ec_pnode_free(best_parse);
+	if (best_parse != NULL)
+		free_selection(best_parse, best_result.parse_len);
+	ec_free(best_parse);
 	ec_strvec_free(childvec);
 	ec_free(child_table);
 	return -1;
-- 
2.43.0


From 5fd48807dc073e35eeb879a132ea5c5ed0692477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:04 +0000
Subject: [PATCH 05/63] fix: re_lex: an input that cannot be tokenized does not
 match

It was reported as an error, failing the parsing of the whole grammar, and
without any pattern, it was looping forever.
---
 src/ecoli_node_re_lex.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..36fb006 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1;
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
@@ -99,8 +100,11 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) {
+			/* no pattern matches at this position */
+			errno = EBADMSG;
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
@@ -136,8 +140,11 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		str = ec_strvec_val(strvec, 0);
 		new_vec = tokenize(priv->table, priv->len, str);
 	}
-	if (new_vec == NULL)
+	if (new_vec == NULL) {
+		if (errno == EBADMSG) /* input cannot be tokenized */
+			return EC_PARSE_NOMATCH;
 		goto fail;
+	}
 
 	ret = ec_parse_child(priv->child, pstate, new_vec);
 	if (ret < 0)
-- 
2.43.0


From 5583083cd17c7867a57824597c1ecf28700efb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:06 +0000
Subject: [PATCH 06/63] fix: re_lex: leak of attributes on allocation failure

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 36fb006..335d405 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -113,6 +113,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 	return strvec;
 
 fail:
+	ec_dict_free(attrs);
 	ec_free(dup);
 	ec_strvec_free(strvec);
 	return NULL;
-- 
2.43.0


From 5bb11cb876429f9655d53da440edf10f21f3cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:17 +0000
Subject: [PATCH 07/63] fix: lexer nodes cannot consume a string of an empty
 string vector

---
 src/ecoli_node_re_lex.c | 3 ++-
 src/ecoli_node_sh_lex.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 335d405..914bcf1 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -152,7 +152,8 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		/* nothing is consumed in an empty string vector */
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..8d9ef0b 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,8 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		/* nothing is consumed in an empty string vector */
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From b67b7b43ce0fd49a62bbfc5f3c846052758892da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:47 +0000
Subject: [PATCH 08/63] fix: cond: evaluate the condition if and only if the
 child matches

The condition was also evaluated when the child does not match, which
dereferences a NULL pointer if it is false, and it was ignored when the child
matches an empty string vector.
---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..23613df 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -706,7 +706,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From 4cb95b292b6e3dd3557488f773462db826b6fe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:49 +0000
Subject: [PATCH 09/63] fix: cond: identical node sets are equal

---
 src/ecoli_node_cond.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 23613df..3bf2ae4 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,10 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
-- 
2.43.0


From 9ced7ba2229eafffe48569ae0e019d4e3d367c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:51 +0000
Subject: [PATCH 10/63] fix: cond: check the allocation of the function
 arguments

---
 src/ecoli_node_cond.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 3bf2ae4..bb999c0 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -616,7 +616,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **new_args;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -635,7 +635,10 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			new_args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			if (new_args == NULL)
+				goto fail;
+			args = new_args;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From 3ff014f72b725c040c5870c984b291b52f3da10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:52 +0000
Subject: [PATCH 11/63] fix: cond: set errno when the child is missing in the
 configuration

---
 src/ecoli_node_cond.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index bb999c0..b524283 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -786,8 +786,10 @@ static int ec_node_cond_set_config(struct ec_node *node,
 		goto fail;
 
 	child = ec_config_dict_get(config, "child");
-	if (child == NULL)
+	if (child == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	/* parse expression to build the cmd child node */
 	parsed_cond = ec_node_cond_build(cond_str);
-- 
2.43.0


From 5ba9bfb531d6852ebf94641df088e30e290d82c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:21 +0000
Subject: [PATCH 12/63] fix: shell lexing: keep an empty quoted string at the
 end of the input

---
 src/ecoli_strvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..ccf6797 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -460,7 +460,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 		}
 		state = IN_WORD;
 	}
-	if (state == IN_WORD && t > 0) {
+	if (state == IN_WORD) {
 		token[t] = '\0';
 		if (ec_strvec_add(strvec, token) < 0)
 			goto fail;
-- 
2.43.0


From 7baf6dfb91d45a7ded119a82a842f9c939ea2dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:23 +0000
Subject: [PATCH 13/63] fix: shell lexing: report the quote that is really
 unclosed

A quote opened in the middle of a token was not reported, and a quote that is
properly closed could be reported.
---
 src/ecoli_strvec.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ccf6797..1d124d4 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -392,9 +392,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 				break;
 			case DOUBLE_QUOTE:
 				state = IN_DOUBLE_QUOTES;
+				quote = c;
 				break;
 			case SINGLE_QUOTE:
 				state = IN_SINGLE_QUOTES;
+				quote = c;
 				break;
 			case BACKSLASH:
 				state = ESCAPING;
@@ -416,6 +418,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case DOUBLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			case BACKSLASH:
 				state = ESCAPING_QUOTED;
@@ -429,6 +432,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SINGLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			default:
 				append(token, t, c);
-- 
2.43.0


From 2d3897c714fca0f54206fd9ae371e1b8b8e75014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:35 +0000
Subject: [PATCH 14/63] fix: an unlinked parsing tree node has no next sibling

---
 src/ecoli_parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index e4153c0..6663a9c 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -327,6 +327,9 @@ ec_pnode_get_last_child(const struct ec_pnode *pnode)
 
 struct ec_pnode *ec_pnode_next(const struct ec_pnode *pnode)
 {
+	if (pnode->parent == NULL)
+		return NULL;
+
 	return TAILQ_NEXT(pnode, next);
 }
 
-- 
2.43.0


From bd9df1096f1fe8ee6ced565e3456b6a396c5c967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:14 +0000
Subject: [PATCH 15/63] fix: infinite loop when iterating on the items of a
 completion

It happens when no item of the next group has the requested type.
---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..5ba4fb0 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -652,6 +652,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From 08a729aed8a63482de106c4524bec86ec687ba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:49 +0000
Subject: [PATCH 16/63] fix: do not count a completion item that is not added

When the completion group cannot be allocated, the item was counted.
---
 src/ecoli_complete.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 5ba4fb0..d069b30 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -378,17 +378,8 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		return -1;
 	}
 
-	switch (item->type) {
-	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
-		break;
-	case EC_COMP_FULL:
-		comp->count_full++;
-		break;
-	case EC_COMP_PARTIAL:
-		comp->count_partial++;
-		break;
-	default:
+	if (item->type != EC_COMP_UNKNOWN && item->type != EC_COMP_FULL &&
+			item->type != EC_COMP_PARTIAL) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -403,6 +394,17 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		comp->cur_group = grp;
 	}
 
+	switch (item->type) {
+	case EC_COMP_UNKNOWN:
+		comp->count_unknown++;
+		break;
+	case EC_COMP_FULL:
+		comp->count_full++;
+		break;
+	default:
+		comp->count_partial++;
+		break;
+	}
 	comp->count++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
-- 
2.43.0


From 483003562e9ef393d36af4fff2805ec6db6358ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:24 +0000
Subject: [PATCH 17/63] fix: use after free of dynamic nodes after a completion
 list merge

The items of the source list may reference nodes owned by its attributes,
which were freed with it.
---
 src/ecoli_complete.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index d069b30..8c322d1 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -587,14 +587,35 @@ void ec_comp_dump(FILE *out, const struct ec_comp *comp)
 	}
 }
 
+static void
+free_merged_attrs(void *ptr)
+{
+	ec_dict_free(ptr);
+}
+
 int ec_comp_merge(struct ec_comp *to,
 		struct ec_comp *from)
 {
 	struct ec_comp_group *grp;
+	char key[64];
+
+	/* The attributes may reference objects that are used by the items
+	 * (ex: the nodes created by a dynamic node): keep them alive. */
+	if (ec_dict_len(from->attrs) != 0) {
+		snprintf(key, sizeof(key), "_merged_%p", from->attrs);
+		if (ec_dict_set(to->attrs, key, from->attrs,
+				free_merged_attrs) < 0) {
+			from->attrs = NULL; /* freed */
+			ec_comp_free(from);
+			return -1;
+		}
+		from->attrs = NULL;
+	}
 
 	while (!TAILQ_EMPTY(&from->groups)) {
 		grp = TAILQ_FIRST(&from->groups);
 		TAILQ_REMOVE(&from->groups, grp, next);
+		grp->comp = to;
 		TAILQ_INSERT_TAIL(&to->groups, grp, next);
 	}
 	to->count += from->count;
-- 
2.43.0


From 15d39aa2a790dc7306c5fcfc33c14824bde52326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:40 +0000
Subject: [PATCH 18/63] fix: many: infinite recursion at completion if the
 child matches nothing

---
 src/ecoli_node_many.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..a58c250 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,9 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest (skip the empty match, as done when parsing: it
+	 * would recurse forever) */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From e1c7d5319ac97cbc534dd1ff3f8e5b84ce1d68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:09 +0000
Subject: [PATCH 19/63] fix: subset: crash at completion if the grammar has a
 loop

---
 src/ecoli_node_subset.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index d10011a..3d04219 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -244,9 +244,23 @@ ec_node_subset_complete(const struct ec_node *node,
 			const struct ec_strvec *strvec)
 {
 	struct ec_node_subset *priv = ec_node_priv(node);
+	struct ec_node **table;
+	int ret;
+
+	if (priv->len == 0)
+		return 0;
 
-	return __ec_node_subset_complete(priv->table, priv->len, comp,
-					strvec);
+	/* work on a copy, since elements are removed from the table while
+	 * completing, and the node can be reached again if there is a loop */
+	table = ec_malloc(priv->len * sizeof(*table));
+	if (table == NULL)
+		return -1;
+	memcpy(table, priv->table, priv->len * sizeof(*table));
+
+	ret = __ec_node_subset_complete(table, priv->len, comp, strvec);
+	ec_free(table);
+
+	return ret;
 }
 
 static void ec_node_subset_free_priv(struct ec_node *node)
-- 
2.43.0


From d1e0ebb9f373015279ed1c6c78c904ffefc424b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:58 +0000
Subject: [PATCH 20/63] fix: ec_node_any(): the attribute is optional

---
 src/ecoli_node_any.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_any.c b/src/ecoli_node_any.c
index 06e92f4..c325cc7 100644
--- a/src/ecoli_node_any.c
+++ b/src/ecoli_node_any.c
@@ -111,9 +111,12 @@ ec_node_any(const char *id, const char *attr)
 	if (config == NULL)
 		goto fail;
 
-	ret = ec_config_dict_set(config, "attr", ec_config_string(attr));
-	if (ret < 0)
-		goto fail;
+	if (attr != NULL) {
+		ret = ec_config_dict_set(config, "attr",
+					ec_config_string(attr));
+		if (ret < 0)
+			goto fail;
+	}
 
 	ret = ec_node_set_config(node, config);
 	config = NULL;
-- 
2.43.0


From 185603f230d91639d45cbc852786cd886e6ba5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:02 +0000
Subject: [PATCH 21/63] fix: int, uint: honour the bounds present in the
 configuration

---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From e2c48ca1f349d36fd224d245650dd992b795e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:49 +0000
Subject: [PATCH 22/63] fix: expr: free the operands when an evaluation
 callback fails

---
 src/ecoli_node_expr.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..a679bdd 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -470,6 +470,8 @@ static int merge_results(void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	struct result *x, const struct result *y)
 {
+	void *val;
+
 	if (y->has_val == 0 && y->op == NULL)
 		return 0;
 	if (x->has_val == 0 && x->op == NULL) {
@@ -479,10 +481,11 @@ static int merge_results(void *userctx,
 
 	if (x->has_val && y->has_val && y->op != NULL) {
 		if (y->op_type == BIN_OP) {
-			if (ops->eval_bin_op(&x->val, userctx, x->val,
+			if (ops->eval_bin_op(&val, userctx, x->val,
 					y->op, y->val) < 0)
 				return -1;
 
+			x->val = val;
 			return 0;
 		}
 	}
@@ -504,9 +507,10 @@ static int merge_results(void *userctx,
 	}
 
 	if (x->has_val && x->op == NULL && y->has_val == 0 && y->op != NULL) {
-		if (ops->eval_post_op(&x->val, userctx, x->val, y->op) < 0)
+		if (ops->eval_post_op(&val, userctx, x->val, y->op) < 0)
 			return -1;
 
+		x->val = val;
 		return 0;
 	}
 
@@ -525,6 +529,7 @@ static int eval_expression(struct result *result,
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
+	void *val;
 
 	memset(result, 0, sizeof(*result));
 	memset(&child_result, 0, sizeof(child_result));
@@ -561,9 +566,10 @@ static int eval_expression(struct result *result,
 	}
 
 	if (open != NULL && close != NULL) {
-		if (ops->eval_parenthesis(&result->val, userctx, open, close,
+		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
 			goto fail;
+		result->val = val;
 	}
 
 	return 0;
-- 
2.43.0


From 912c864d780e574801f06cf84f3bef1e91f041e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:01 +0000
Subject: [PATCH 23/63] fix: expr: evaluate several operators of the same
 level, left to right

Two consecutive suffix operators (a^^) triggered an assertion, and
a - b - c was evaluated as a - (b - c).
---
 src/ecoli_node_expr.c | 83 +++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index a679bdd..a314f4a 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -522,31 +522,26 @@ static int eval_expression(struct result *result,
 	void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	const struct ec_node *expr_node,
-	const struct ec_pnode *parse)
+	const struct ec_pnode *parse);
 
+/* evaluate the children of parse, from left to right, merging in result */
+static int eval_children(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
 {
 	struct ec_pnode *open = NULL, *close = NULL;
+	const struct ec_node *child_node;
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
 	void *val;
 
-	memset(result, 0, sizeof(*result));
-	memset(&child_result, 0, sizeof(child_result));
-
-	type = get_node_type(expr_node, ec_pnode_get_node(parse));
-	if (type == VAL) {
-		if (ops->eval_var(&result->val, userctx, parse) < 0)
-			goto fail;
-		result->has_val = 1;
-	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
-		result->op = parse;
-		result->op_type = type;
-	}
-
 	EC_PNODE_FOREACH_CHILD(child, parse) {
 
-		type = get_node_type(expr_node, ec_pnode_get_node(child));
+		child_node = ec_pnode_get_node(child);
+		type = get_node_type(expr_node, child_node);
 		if (type == PAREN_OPEN) {
 			open = child;
 			continue;
@@ -555,33 +550,67 @@ static int eval_expression(struct result *result,
 			continue;
 		}
 
+		/* a list of operators: apply them one after the other */
+		if (type == NONE && !strcmp(ec_node_get_type_name(child_node),
+						"many")) {
+			if (eval_children(result, userctx, ops, expr_node,
+						child) < 0)
+				return -1;
+			continue;
+		}
+
 		if (eval_expression(&child_result, userctx, ops,
 			expr_node, child) < 0)
-			goto fail;
-
-		if (merge_results(userctx, ops, result, &child_result) < 0)
-			goto fail;
+			return -1;
 
-		memset(&child_result, 0, sizeof(child_result));
+		if (merge_results(userctx, ops, result, &child_result) < 0) {
+			if (child_result.has_val)
+				ops->eval_free(child_result.val, userctx);
+			return -1;
+		}
 	}
 
 	if (open != NULL && close != NULL) {
 		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
-			goto fail;
+			return -1;
 		result->val = val;
 	}
 
 	return 0;
+}
+
+static int eval_expression(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+
+{
+	enum expr_node_type type;
 
-fail:
-	if (result->has_val)
-		ops->eval_free(result->val, userctx);
-	if (child_result.has_val)
-		ops->eval_free(child_result.val, userctx);
 	memset(result, 0, sizeof(*result));
 
-	return -1;
+	type = get_node_type(expr_node, ec_pnode_get_node(parse));
+	if (type == VAL) {
+		if (ops->eval_var(&result->val, userctx, parse) < 0)
+			return -1;
+		result->has_val = 1;
+		return 0;
+	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
+		result->op = parse;
+		result->op_type = type;
+		return 0;
+	}
+
+	if (eval_children(result, userctx, ops, expr_node, parse) < 0) {
+		if (result->has_val)
+			ops->eval_free(result->val, userctx);
+		memset(result, 0, sizeof(*result));
+		return -1;
+	}
+
+	return 0;
 }
 
 int ec_node_expr_eval(void **user_result, const struct ec_node *node,
-- 
2.43.0


From 0fe61b8758f0a1393b840ff1d3691057076ae41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:59 +0000
Subject: [PATCH 24/63] fix: cmd: free the nodes when the expression cannot be
 evaluated

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..0f45d79 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -260,7 +260,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
-- 
2.43.0


From c2d41f2bcc1c7ca26e1af5f36a1c8408470ae3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 25/63] fix: cmd: check that the parenthesis operator is added

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 0f45d79..fcad6df 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -305,7 +305,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
-- 
2.43.0


From 50205338e68d023d655860978711a22e0de894e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:06 +0000
Subject: [PATCH 26/63] fix: cmd: support the documented '+' operator

---
 src/ecoli_node_cmd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index fcad6df..c7f323c 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -129,6 +129,13 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 			return -1;
 		ec_node_free(in);
 		*result = out;
+	} else if (!strcmp(ec_strvec_val(vec, 0), "+")) {
+		out = ec_node_many(EC_NO_ID,
+				ec_node_clone(in), 1, 0);
+		if (out == NULL)
+			return -1;
+		ec_node_free(in);
+		*result = out;
 	} else {
 		errno = EINVAL;
 		return -1;
@@ -331,7 +338,7 @@ ec_node_cmd_build_parser(struct ec_node *expr)
 	ret = ec_node_re_lex_add(lex, "[a-zA-Z0-9_-]+", 1, NULL);
 	if (ret < 0)
 		goto fail;
-	ret = ec_node_re_lex_add(lex, "[*|,()]", 1, NULL);
+	ret = ec_node_re_lex_add(lex, "[+*|,()]", 1, NULL);
 	if (ret < 0)
 		goto fail;
 	ret = ec_node_re_lex_add(lex, "\\[", 1, NULL);
-- 
2.43.0


From 21146119eabcf272619d92b4db45d006f6e50f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:21 +0000
Subject: [PATCH 27/63] fix: cmd: do not modify the nodes provided by the user

---
 src/ecoli_node_cmd.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c7f323c..1ab4f36 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -5,6 +5,7 @@
 #include <sys/queue.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <stdbool.h>
 #include <string.h>
 #include <stdarg.h>
 #include <errno.h>
@@ -144,6 +145,15 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 	return 0;
 }
 
+/* true if the node was created by the evaluation of the expression: in this
+ * case it can be modified, unlike the nodes provided by the user. */
+static bool
+is_cmd_node(const struct ec_node *node, const char *type_name)
+{
+	return !strcmp(ec_node_id(node), EC_NO_ID) &&
+		!strcmp(ec_node_get_type_name(node), type_name);
+}
+
 static int
 ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	const struct ec_pnode *operator, void *operand2)
@@ -164,7 +174,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	}
 
 	if (ec_strvec_len(vec) == 0) {
-		if (!strcmp(ec_node_get_type_name(in1), "seq")) {
+		if (is_cmd_node(in1, "seq")) {
 			if (ec_node_seq_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -179,12 +189,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (!strcmp(ec_node_get_type_name(in2), "or")) {
+		if (is_cmd_node(in2, "or")) {
 			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "or")) {
+		} else if (is_cmd_node(in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -199,12 +209,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (!strcmp(ec_node_get_type_name(in2), "subset")) {
+		if (is_cmd_node(in2, "subset")) {
 			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "subset")) {
+		} else if (is_cmd_node(in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From 76084d6377a64b25651ccea78755af346688fc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:24 +0000
Subject: [PATCH 28/63] fix: cmd: keep the order of the alternatives

---
 src/ecoli_node_cmd.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 1ab4f36..bf5665f 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -189,12 +189,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (is_cmd_node(in2, "or")) {
-			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (is_cmd_node(in1, "or")) {
+		if (is_cmd_node(in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From 567e315ffdf6393664296da4476ed6ef3410430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:32 +0000
Subject: [PATCH 29/63] fix: cond: leak of the child if the grammar has a loop

---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index b524283..1167434 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -832,7 +832,7 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	*refs = 2; /* one in private data, one in configuration */
 	return 0;
 }
 
-- 
2.43.0


From 27ffc87a647b08c253d49d5246a7292424be1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:35 +0000
Subject: [PATCH 30/63] fix: cmd: leak of the referenced nodes if the grammar
 has a loop

---
 src/ecoli_node_cmd.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index bf5665f..180ed6b 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -525,7 +525,7 @@ ec_node_cmd_get_children_count(const struct ec_node *node)
 
 	if (priv->cmd == NULL)
 		return 0;
-	return 1;
+	return 1 + priv->len;
 }
 
 static int
@@ -534,11 +534,16 @@ ec_node_cmd_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 
-	if (i > 0)
+	if (i > priv->len)
 		return -1;
 
-	*child = priv->cmd;
-	*refs = 1;
+	if (i == 0) {
+		*child = priv->cmd;
+		*refs = 1;
+	} else {
+		*child = priv->table[i - 1];
+		*refs = 2; /* one in private data, one in configuration */
+	}
 	return 0;
 }
 
-- 
2.43.0


From 96982b4200b3fe162ab1364ece0a8b5fe452a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:39 +0000
Subject: [PATCH 31/63] fix: expr: leak of the configured nodes if the grammar
 has a loop

---
 src/ecoli_node_expr.c | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index a314f4a..ba19bb1 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -228,9 +228,9 @@ ec_node_expr_get_children_count(const struct ec_node *node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (priv->child)
-		return 1;
-	return 0;
+	return (priv->child != NULL) + (priv->val_node != NULL) +
+		priv->bin_ops_len + priv->pre_ops_len + priv->post_ops_len +
+		2 * priv->paren_len;
 }
 
 static int
@@ -238,13 +238,30 @@ ec_node_expr_get_child(const struct ec_node *node, size_t i,
 		struct ec_node **child, unsigned int *refs)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct {
+		struct ec_node **table;
+		size_t len;
+	} lists[] = {
+		{ &priv->child, priv->child != NULL },
+		{ &priv->val_node, priv->val_node != NULL },
+		{ priv->bin_ops, priv->bin_ops_len },
+		{ priv->pre_ops, priv->pre_ops_len },
+		{ priv->post_ops, priv->post_ops_len },
+		{ priv->open_ops, priv->paren_len },
+		{ priv->close_ops, priv->paren_len },
+	};
+	size_t l;
+
+	for (l = 0; l < sizeof(lists) / sizeof(*lists); l++) {
+		if (i < lists[l].len) {
+			*child = lists[l].table[i];
+			*refs = 1;
+			return 0;
+		}
+		i -= lists[l].len;
+	}
 
-	if (i >= 1)
-		return -1;
-
-	*child = priv->child;
-	*refs = 1;
-	return 0;
+	return -1;
 }
 
 static struct ec_node_type ec_node_expr_type = {
-- 
2.43.0


From 9803a48935536a661c5cd555c2db3d9160d8fb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:42 +0000
Subject: [PATCH 32/63] fix: subset: double free on allocation failure

---
 src/ecoli_node_subset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 3d04219..d5fd4c0 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -356,10 +356,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed */
 		}
 	}
 
-- 
2.43.0


From c8cd0307b53e1c94a29cff37e13f18c601a9c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:22 +0000
Subject: [PATCH 33/63] fix: infinite recursion in ec_node_find() if the
 grammar has a loop

---
 src/ecoli_node.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 497f16a..62e2124 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -12,6 +12,7 @@
 #include <ecoli_string.h>
 #include <ecoli_strvec.h>
 #include <ecoli_dict.h>
+#include <ecoli_htable.h>
 #include <ecoli_log.h>
 #include <ecoli_config.h>
 #include <ecoli_test.h>
@@ -334,7 +335,8 @@ const struct ec_config *ec_node_get_config(struct ec_node *node)
 	return node->config;
 }
 
-struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+static struct ec_node *
+__ec_node_find(struct ec_node *node, const char *id, struct ec_htable *visited)
 {
 	struct ec_node *child, *retnode;
 	const char *node_id = ec_node_id(node);
@@ -345,11 +347,17 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	if (id != NULL && node_id != NULL && !strcmp(node_id, id))
 		return node;
 
+	/* there can be loops in the node graph */
+	if (ec_htable_has_key(visited, &node, sizeof(node)))
+		return NULL;
+	if (ec_htable_set(visited, &node, sizeof(node), NULL, NULL) < 0)
+		return NULL;
+
 	n = ec_node_get_children_count(node);
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		retnode = ec_node_find(child, id);
+		retnode = __ec_node_find(child, id, visited);
 		if (retnode != NULL)
 			return retnode;
 	}
@@ -357,6 +365,21 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	return NULL;
 }
 
+struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+{
+	struct ec_htable *visited;
+	struct ec_node *retnode;
+
+	visited = ec_htable();
+	if (visited == NULL)
+		return NULL;
+
+	retnode = __ec_node_find(node, id, visited);
+	ec_htable_free(visited);
+
+	return retnode;
+}
+
 const struct ec_node_type *ec_node_type(const struct ec_node *node)
 {
 	return node->type;
-- 
2.43.0


From fb3ca9d7aeea2a68346817d7f337ba481ce8ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:49 +0000
Subject: [PATCH 34/63] fix: htable: free the value if the key or the table is
 invalid

---
 src/ecoli_htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..8240c5a 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -188,7 +188,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From 4227ae6ed2c64268beef1164fe97ce19ee9d7d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:53 +0000
Subject: [PATCH 35/63] fix: htable: set errno to 0 when the value found is
 NULL

---
 src/ecoli_htable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 8240c5a..23b6689 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -97,6 +97,9 @@ void *ec_htable_get(const struct ec_htable *htable, const void *key,
 	if (ref == NULL)
 		return NULL;
 
+	if (ref->elt->val == NULL)
+		errno = 0;
+
 	return ref->elt->val;
 }
 
-- 
2.43.0


From 019d5dfdfe91cf1abdc7ca0efc8259e42e870f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:56 +0000
Subject: [PATCH 36/63] fix: htable: crash when looking up in a NULL table

---
 src/ecoli_htable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 23b6689..5d4f893 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
-- 
2.43.0


From 1e3dbb76a30004ecf9a31a4660573738ee3330b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:51 +0000
Subject: [PATCH 37/63] fix: node: detach the previous children before
 releasing them

When a node is reconfigured and its previous child references it (loop),
the child is released while it is still visible through the node: the
references are counted twice, which triggers an assertion or frees the
node being configured.
---
 src/ecoli_node_bypass.c |  7 +++++--
 src/ecoli_node_cmd.c    | 21 +++++++++++++--------
 src/ecoli_node_cond.c   |  6 +++++-
 src/ecoli_node_many.c   |  7 +++++--
 src/ecoli_node_once.c   |  7 +++++--
 src/ecoli_node_option.c |  7 +++++--
 src/ecoli_node_or.c     | 14 +++++++++-----
 src/ecoli_node_re_lex.c |  7 +++++--
 src/ecoli_node_seq.c    | 14 +++++++++-----
 9 files changed, 61 insertions(+), 29 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..22f8ddb 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -91,6 +91,7 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 {
 	struct ec_node_bypass *priv = ec_node_priv(node);
 	const struct ec_config *child;
+	struct ec_node *prev;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -100,9 +101,11 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the previous child before releasing it: it may reference
+	 * this node */
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(prev);
 
 	return 0;
 
diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 180ed6b..8b4ab58 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -468,10 +468,10 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 	const struct ec_config *expr = NULL;
-	struct ec_node *cmd = NULL;
-	struct ec_node **table = NULL;
+	struct ec_node *cmd = NULL, *prev_cmd;
+	struct ec_node **table = NULL, **prev_table;
 	char *cmd_str = NULL;
-	size_t len = 0, i;
+	size_t len = 0, prev_len, i;
 
 	/* retrieve config locally */
 	expr = ec_config_dict_get(config, "expr");
@@ -495,15 +495,20 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 		goto fail;
 
 	/* ok, store the config */
-	ec_node_free(priv->cmd);
-	priv->cmd = cmd;
 	ec_free(priv->cmd_str);
 	priv->cmd_str = cmd_str;
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	/* detach the previous nodes before releasing them: they may reference
+	 * this node */
+	prev_cmd = priv->cmd;
+	priv->cmd = cmd;
+	prev_table = priv->table;
+	prev_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	ec_node_free(prev_cmd);
+	for (i = 0; i < prev_len; i++)
+		ec_node_free(prev_table[i]);
+	ec_free(prev_table);
 
 	return 0;
 
diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 1167434..e12db2b 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -773,6 +773,7 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	const struct ec_config *cond = NULL;
 	struct ec_pnode *parsed_cond = NULL;
 	const struct ec_config *child;
+	struct ec_node *prev;
 	char *cond_str = NULL;
 
 	cond = ec_config_dict_get(config, "expr");
@@ -801,8 +802,11 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	priv->parsed_cond = parsed_cond;
 	ec_free(priv->cond_str);
 	priv->cond_str = cond_str;
-	ec_node_free(priv->child);
+	/* detach the previous child before releasing it: it may reference
+	 * this node */
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(prev);
 
 	return 0;
 
diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index a58c250..62a56d1 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -211,6 +211,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 {
 	struct ec_node_many *priv = ec_node_priv(node);
 	const struct ec_config *child, *min, *max;
+	struct ec_node *prev;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -232,9 +233,11 @@ static int ec_node_many_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the previous child before releasing it: it may reference
+	 * this node */
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(prev);
 	if (min == NULL)
 		priv->min = 0;
 	else
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..3f0ea1b 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -133,6 +133,7 @@ static int ec_node_once_set_config(struct ec_node *node,
 {
 	struct ec_node_once *priv = ec_node_priv(node);
 	const struct ec_config *child;
+	struct ec_node *prev;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -142,9 +143,11 @@ static int ec_node_once_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the previous child before releasing it: it may reference
+	 * this node */
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(prev);
 
 	return 0;
 
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..f485609 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -99,6 +99,7 @@ static int ec_node_option_set_config(struct ec_node *node,
 {
 	struct ec_node_option *priv = ec_node_priv(node);
 	const struct ec_config *child;
+	struct ec_node *prev;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -108,9 +109,11 @@ static int ec_node_option_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the previous child before releasing it: it may reference
+	 * this node */
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(prev);
 
 	return 0;
 
diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..50158d2 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -105,19 +105,23 @@ static int ec_node_or_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_or *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **prev_table;
+	size_t i, len = 0, prev_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	/* detach the previous children before releasing them: they may
+	 * reference this node */
+	prev_table = priv->table;
+	prev_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < prev_len; i++)
+		ec_node_free(prev_table[i]);
+	ec_free(prev_table);
 
 	return 0;
 }
diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 914bcf1..0d04fe8 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -269,6 +269,7 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 	char *pattern_str = NULL, *attr_name = NULL;
 	ssize_t i, n = 0;
 	int ret;
+	struct ec_node *prev;
 
 	child = ec_config_dict_get(config, "child");
 	if (child == NULL)
@@ -348,9 +349,11 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 		}
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	/* detach the previous child before releasing it: it may reference
+	 * this node */
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
+	ec_node_free(prev);
 	for (i = 0; i < (ssize_t)priv->len; i++) {
 		ec_free(priv->table[i].pattern);
 		ec_free(priv->table[i].attr_name);
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..f8dc961 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -191,19 +191,23 @@ static int ec_node_seq_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_seq *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **prev_table;
+	size_t i, len = 0, prev_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	/* detach the previous children before releasing them: they may
+	 * reference this node */
+	prev_table = priv->table;
+	prev_len = priv->len;
 	priv->table = table;
 	priv->len = len;
+	for (i = 0; i < prev_len; i++)
+		ec_node_free(prev_table[i]);
+	ec_free(prev_table);
 
 	return 0;
 }
-- 
2.43.0


From c3ee676f6b9dc13e6aeaa7390b77dad579db84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:31 +0000
Subject: [PATCH 38/63] fix: expr: report errors when building the expression
 grammar

The errors were ignored, leaving an expression node without grammar after
an allocation failure, or a dangling table in case of parenthesis. The
value node was released while still referenced by the node.
---
 src/ecoli_node_expr.c | 53 +++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index ba19bb1..30e91d0 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -98,22 +98,16 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 {
 	struct ec_node *term = NULL, *expr = NULL, *next = NULL,
 		*pre_op = NULL, *post_op = NULL, *ref = NULL,
-		*post = NULL;
+		*post = NULL, *prev;
 	unsigned int i;
 
-	ec_node_free(priv->child);
-	priv->child = NULL;
-
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
+	/* the expression is not complete yet */
+	if (priv->val_node == NULL)
+		return 0;
 
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -208,7 +202,11 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	/* detach the previous child before releasing it: it may reference
+	 * this node */
+	prev = priv->child;
 	priv->child = expr;
+	ec_node_free(prev);
 
 	return 0;
 
@@ -279,6 +277,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *prev;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -288,9 +287,13 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	prev = priv->val_node;
 	priv->val_node = val_node;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = prev;
+		goto fail;
+	}
+	ec_node_free(prev);
 
 	return 0;
 
@@ -321,7 +324,10 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -352,7 +358,10 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -383,7 +392,10 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -411,17 +423,20 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
 	return 0;
 
-- 
2.43.0


From 502d72005f8ca6dfd5a14fce21cde59baeec3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:35 +0000
Subject: [PATCH 39/63] fix: node: report allocation failure in ec_node_find

---
 src/ecoli_node.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 62e2124..9981c58 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -335,49 +335,55 @@ const struct ec_config *ec_node_get_config(struct ec_node *node)
 	return node->config;
 }
 
-static struct ec_node *
-__ec_node_find(struct ec_node *node, const char *id, struct ec_htable *visited)
+static int
+__ec_node_find(struct ec_node *node, const char *id, struct ec_htable *visited,
+	struct ec_node **found)
 {
-	struct ec_node *child, *retnode;
+	struct ec_node *child;
 	const char *node_id = ec_node_id(node);
 	unsigned int refs;
 	size_t i, n;
 	int ret;
 
-	if (id != NULL && node_id != NULL && !strcmp(node_id, id))
-		return node;
+	if (id != NULL && node_id != NULL && !strcmp(node_id, id)) {
+		*found = node;
+		return 0;
+	}
 
 	/* there can be loops in the node graph */
 	if (ec_htable_has_key(visited, &node, sizeof(node)))
-		return NULL;
+		return 0;
 	if (ec_htable_set(visited, &node, sizeof(node), NULL, NULL) < 0)
-		return NULL;
+		return -1;
 
 	n = ec_node_get_children_count(node);
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		retnode = __ec_node_find(child, id, visited);
-		if (retnode != NULL)
-			return retnode;
+		ret = __ec_node_find(child, id, visited, found);
+		if (ret < 0 || *found != NULL)
+			return ret;
 	}
 
-	return NULL;
+	return 0;
 }
 
 struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 {
+	struct ec_node *found = NULL;
 	struct ec_htable *visited;
-	struct ec_node *retnode;
+	int ret;
 
 	visited = ec_htable();
 	if (visited == NULL)
 		return NULL;
 
-	retnode = __ec_node_find(node, id, visited);
+	ret = __ec_node_find(node, id, visited, &found);
 	ec_htable_free(visited);
+	if (ret == 0 && found == NULL)
+		errno = ENOENT;
 
-	return retnode;
+	return found;
 }
 
 const struct ec_node_type *ec_node_type(const struct ec_node *node)
-- 
2.43.0


From a118f80c4789d05fe6c9e7e88ef27e763f26f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:37 +0000
Subject: [PATCH 40/63] fix: seq, or: double free of the child when the
 configuration is refused

---
 src/ecoli_node_or.c  | 1 +
 src/ecoli_node_seq.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index 50158d2..90cb530 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -198,6 +198,7 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* owned by config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index f8dc961..34aa516 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -284,6 +284,7 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* owned by config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From aac91a245fb34ec63579b1fcae8ab925ea8393de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:37 +0000
Subject: [PATCH 41/63] fix: option, once, bypass: report failure to set the
 child at creation

---
 src/ecoli_node_bypass.c | 6 +++++-
 src/ecoli_node_once.c   | 6 +++++-
 src/ecoli_node_option.c | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 22f8ddb..1f51b27 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -175,12 +175,16 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 3f0ea1b..6d134bf 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -217,12 +217,16 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index f485609..d5e9fc4 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -183,12 +183,16 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From ec8377d2752273b90fa68492d315ffa6d9737403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:37 +0000
Subject: [PATCH 42/63] fix: node_helper: double free when the list of nodes
 cannot be filled

---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From 1906fc2149c4909a02c5c1fbabd654cd34cf5198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:49 +0000
Subject: [PATCH 43/63] fix: node: dump does not recurse forever when memory is
 exhausted

---
 src/ecoli_node.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 9981c58..630e8a0 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -401,7 +401,7 @@ const char *ec_node_id(const struct ec_node *node)
 	return node->id;
 }
 
-static void __ec_node_dump(FILE *out,
+static int __ec_node_dump(FILE *out,
 	const struct ec_node *node, size_t indent, struct ec_dict *dict)
 {
 	const char *id, *typename;
@@ -410,10 +410,12 @@ static void __ec_node_dump(FILE *out,
 	char buf[32];
 	size_t i, n;
 	char *desc;
-	int ret;
+	int ret = -1;
 
 	id = ec_node_id(node);
 	desc = ec_node_desc(node);
+	if (desc == NULL)
+		return -1;
 	typename = node->type->name;
 
 	snprintf(buf, sizeof(buf), "%p", node);
@@ -421,10 +423,13 @@ static void __ec_node_dump(FILE *out,
 		fprintf(out, "%*s" "%s type=%s id=%s %p... (loop)\n",
 			(int)indent * 4, "", desc, typename, id, node);
 
+		ret = 0;
 		goto end;
 	}
 
-	ec_dict_set(dict, buf, NULL, NULL);
+	/* needed to detect the loops */
+	if (ec_dict_set(dict, buf, NULL, NULL) < 0)
+		goto end;
 	fprintf(out, "%*s" "%s type=%s id=%s %p refs=%u free_state=%d free_refs=%d\n",
 		(int)indent * 4, "", desc, typename, id, node, node->refcnt,
 		node->free.state, node->free.refcnt);
@@ -433,10 +438,14 @@ static void __ec_node_dump(FILE *out,
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		__ec_node_dump(out, child, indent + 1, dict);
+		ret = __ec_node_dump(out, child, indent + 1, dict);
+		if (ret < 0)
+			goto end;
 	}
+	ret = 0;
 end:
 	ec_free(desc);
+	return ret;
 }
 
 /* XXX this is too much debug-oriented, we should have a parameter or 2 funcs */
@@ -455,7 +464,8 @@ void ec_node_dump(FILE *out, const struct ec_node *node)
 	if (dict == NULL)
 		goto fail;
 
-	__ec_node_dump(out, node, 0, dict);
+	if (__ec_node_dump(out, node, 0, dict) < 0)
+		goto fail;
 
 	ec_dict_free(dict);
 	return;
-- 
2.43.0


From 4df2bc2d9f59cc49d696920bd3abc92cb48f1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:22 +0000
Subject: [PATCH 44/63] fix: vec, strvec: out of bounds access in ndup, errno
 not set

---
 src/ecoli_strvec.c | 4 +++-
 src/ecoli_vec.c    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 1d124d4..09ab1b5 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From 4bee3d460f0cabbc2abdd903b828cfe7a771015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:01 +0000
Subject: [PATCH 45/63] fix: config: count the elements of a dict

---
 src/ecoli_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 57a7a61..be62f07 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -372,7 +372,7 @@ ssize_t ec_config_count(const struct ec_config *config)
 			n++;
 		return n;
 	case EC_CONFIG_TYPE_DICT:
-		// XXX todo
+		return ec_dict_len(config->dict);
 	default:
 		errno = EINVAL;
 		return -1;
-- 
2.43.0


From 32d11a03201dfdcb1b04f7f0db6e53144604cddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:07 +0000
Subject: [PATCH 46/63] fix: config: dump signed and unsigned integers as such

---
 src/ecoli_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index be62f07..310f9df 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -855,10 +855,10 @@ __ec_config_dump(FILE *out, const char *key, const struct ec_config *value,
 			ec_asprintf(&val_str, "false");
 		break;
 	case EC_CONFIG_TYPE_INT64:
-		ec_asprintf(&val_str, "%"PRIu64, value->u64);
+		ec_asprintf(&val_str, "%"PRIi64, value->i64);
 		break;
 	case EC_CONFIG_TYPE_UINT64:
-		ec_asprintf(&val_str, "%"PRIi64, value->i64);
+		ec_asprintf(&val_str, "%"PRIu64, value->u64);
 		break;
 	case EC_CONFIG_TYPE_STRING:
 		ec_asprintf(&val_str, "%s", value->string);
-- 
2.43.0


From 3bbdbe097f60641462cdc2b0fb65136ad05a8ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:30 +0000
Subject: [PATCH 47/63] fix: config: set errno when the string or the node is
 NULL

---
 src/ecoli_config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 310f9df..0f1af43 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -274,8 +274,10 @@ ec_config_string(const char *string)
 	struct ec_config *value = NULL;
 	char *s = NULL;
 
-	if (string == NULL)
+	if (string == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	s = ec_strdup(string);
 	if (s == NULL)
@@ -302,8 +304,10 @@ ec_config_node(struct ec_node *node)
 {
 	struct ec_config *value = NULL;
 
-	if (node == NULL)
+	if (node == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	value = ec_calloc(1, sizeof(*value));
 	if (value == NULL)
-- 
2.43.0


From dfca989cb1e455b4be31d50605df6e6b3dfd94cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:59 +0000
Subject: [PATCH 48/63] fix: yaml: do not delete an uninitialized parser

---
 src/ecoli_yaml.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 66f0d11..9e8b783 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -540,12 +540,12 @@ ec_yaml_import(const char *filename)
 	file = fopen(filename, "rb");
 	if (file == NULL) {
 		fprintf(stderr, "Failed to open file %s\n", filename);
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	if (yaml_parser_initialize(&parser) == 0) {
 		fprintf(stderr, "Failed to initialize yaml parser\n");
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	yaml_parser_set_input_file(&parser, file);
@@ -577,6 +577,7 @@ fail:
 	yaml_document_delete(&document);
 fail_no_doc:
 	yaml_parser_delete(&parser);
+fail_no_parser:
 	if (file != NULL)
 		fclose(file);
 	free_table(&table);
-- 
2.43.0


From b2836073fd95446d6d670206f5fe875ddf228989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:03 +0000
Subject: [PATCH 49/63] fix: yaml: refuse a node without type

---
 src/ecoli_yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 9e8b783..1f7c9db 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -443,6 +443,12 @@ parse_ec_node(struct enode_table *table,
 		}
 	}
 
+	if (type == NULL) {
+		fprintf(stderr, "Type is missing\n");
+		errno = EINVAL;
+		goto fail;
+	}
+
 	/* create the ecoli node */
 	if (id == NULL)
 		id = EC_NO_ID;
-- 
2.43.0


From 4de1a42a809470b3b049ca34a65dbe6e9aaad0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:06 +0000
Subject: [PATCH 50/63] fix: yaml: refuse keys and attributes that are not
 scalar

---
 src/ecoli_yaml.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 1f7c9db..0993e69 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -331,6 +331,11 @@ parse_ec_config_dict(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Config key must be a scalar\n");
+			errno = EINVAL;
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 
 		if (ec_config_key_is_reserved(key_str))
@@ -388,6 +393,11 @@ parse_ec_node(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			errno = EINVAL;
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 		value_str = (const char *)value->data.scalar.value;
 
@@ -497,6 +507,12 @@ parse_ec_node(struct enode_table *table,
 		     pair < attrs->data.mapping.pairs.top; pair++) {
 			key = document->nodes.start + pair->key - 1;
 			value = document->nodes.start + pair->value - 1;
+			if (key->type != YAML_SCALAR_NODE ||
+					value->type != YAML_SCALAR_NODE) {
+				fprintf(stderr, "Attribute must be a scalar\n");
+				errno = EINVAL;
+				goto fail;
+			}
 			key_str = (const char *)key->data.scalar.value;
 			value_str = (const char *)value->data.scalar.value;
 			value_dup = ec_strdup(value_str);
-- 
2.43.0


From e9544210d78a6c071d84cc03f507c21b39fd11d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:10 +0000
Subject: [PATCH 51/63] fix: yaml: refuse an empty string as an integer

---
 src/ecoli_yaml.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 0993e69..54b33dd 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -60,7 +60,7 @@ parse_llint(const char *str, int64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -81,8 +81,10 @@ parse_ullint(const char *str, uint64_t *val)
 	}
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, 0);
@@ -91,8 +93,10 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 29c0b0ac30afb2f2f6ae4c4b12f50d4b4192f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:14 +0000
Subject: [PATCH 52/63] fix: yaml: set errno when a document cannot be imported

---
 src/ecoli_yaml.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 54b33dd..17fdedf 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -560,8 +560,10 @@ ec_yaml_import(const char *filename)
 	yaml_document_t document;
 	struct ec_node *root = NULL;
 	struct enode_table table;
+	int save_errno;
 
 	memset(&table, 0, sizeof(table));
+	errno = 0;
 
 	file = fopen(filename, "rb");
 	if (file == NULL) {
@@ -600,14 +602,21 @@ ec_yaml_import(const char *filename)
 	return root;
 
 fail:
+	save_errno = errno;
 	yaml_document_delete(&document);
+	errno = save_errno;
 fail_no_doc:
+	/* the errors found in the document itself do not set errno */
+	save_errno = errno != 0 ? errno : EINVAL;
 	yaml_parser_delete(&parser);
+	errno = save_errno;
 fail_no_parser:
+	save_errno = errno != 0 ? errno : ENOMEM;
 	if (file != NULL)
 		fclose(file);
 	free_table(&table);
 	ec_node_free(root);
+	errno = save_errno;
 
 	return NULL;
 }
-- 
2.43.0


From db60b020165a319c2284841b980fdc0898992d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:16 +0000
Subject: [PATCH 53/63] fix: editline: print the sorted list of completions

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d944b12..0a111fd 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -85,7 +85,7 @@ ec_editline_print_cols(struct ec_editline *editline,
 			else
 				space = "    ";
 			fprintf(f, "%s%-*s", space,
-				(int)max_strlen, matches[i+j]);
+				(int)max_strlen, matches_copy[i+j]);
 		}
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From 8dc737b8261546f55fe778447ba8243bd7a1a47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:20 +0000
Subject: [PATCH 54/63] fix: editline: use ec_free for memory allocated with
 ec_malloc

---
 src/ecoli_editline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 0a111fd..2b683b3 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -182,7 +182,7 @@ ec_editline_set_prompt_esc(struct ec_editline *editline, const char *prompt,
 	return 0;
 
 fail:
-	free(copy);
+	ec_free(copy);
 	return -1;
 }
 
@@ -558,7 +558,7 @@ ec_editline_curline(const struct ec_editline *editline, bool trim_after_cursor)
 	return line;
 
 fail:
-	free(line);
+	ec_free(line);
 	return NULL;
 }
 
@@ -725,7 +725,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
-	free(line);
+	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
 	return count;
-- 
2.43.0


From 34875c5e9a124bf02f59ff69e5904a7a1ac6bdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:23 +0000
Subject: [PATCH 55/63] fix: editline: do not use a released history

---
 src/ecoli_editline.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 2b683b3..9662edd 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -300,8 +300,11 @@ int ec_editline_set_history(struct ec_editline *editline,
 {
 	EditLine *el = editline->el;
 
-	if (editline->history != NULL)
+	if (editline->history != NULL) {
+		el_set(el, EL_HIST, history, NULL);
 		history_end(editline->history);
+		editline->history = NULL;
+	}
 	if (editline->hist_file != NULL) {
 		ec_free(editline->hist_file);
 		editline->hist_file = NULL;
-- 
2.43.0


From cb4561316983ac1f3cd44206d44cf44ab00b3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:27 +0000
Subject: [PATCH 56/63] fix: editline: only strip the end of line from the line
 read

---
 src/ecoli_editline.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 9662edd..ace2705 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -740,6 +740,7 @@ ec_editline_gets(struct ec_editline *editline)
 	EditLine *el = editline->el;
 	char *line_copy = NULL;
 	const char *line;
+	size_t len;
 	int count;
 
 	line = el_gets(el, &count);
@@ -750,7 +751,11 @@ ec_editline_gets(struct ec_editline *editline)
 	if (line_copy == NULL)
 		goto fail;
 
-	line_copy[strlen(line_copy) - 1] = '\0'; //XXX needed because of sh_lex bug?
+	/* the last line may have no end of line */
+	len = strlen(line_copy);
+	if (len > 0 && (line_copy[len - 1] == '\n' ||
+				line_copy[len - 1] == '\r'))
+		line_copy[len - 1] = '\0';
 
 	if (editline->history != NULL && !ec_str_is_space(line_copy)) {
 		history(editline->history, &editline->histev,
-- 
2.43.0


From e0c49e5946da2d613719d8d7f4fb0277380a73d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:31 +0000
Subject: [PATCH 57/63] fix: editline: do not print helps that cannot be built

---
 src/ecoli_editline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index ace2705..75d4973 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -614,6 +614,10 @@ ec_editline_complete(EditLine *el, int c)
 
 		count = ec_editline_get_helps(editline, line, full_line,
 				&helps);
+		if (count < 0) {
+			fprintf(err, "completion failure: cannot get helps\n");
+			goto fail;
+		}
 
 		fprintf(out, "\n");
 		if (ec_editline_print_helps(editline, helps, count) < 0) {
-- 
2.43.0


From 6b084eb871dc0f6768b3c441fc9566f227e85cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:34 +0000
Subject: [PATCH 58/63] fix: editline: do not end the token after a partial
 completion

---
 src/ecoli_editline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 75d4973..2437e7e 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -655,8 +655,8 @@ ec_editline_complete(EditLine *el, int c)
 			fprintf(err, "completion failure: cannot insert\n");
 			goto fail;
 		}
-		if (ec_comp_count(cmpl, EC_COMP_FULL) +
-			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 1) {
+		if (ec_comp_count(cmpl, EC_COMP_FULL) == 1 &&
+			ec_comp_count(cmpl, EC_COMP_PARTIAL) == 0) {
 			if (el_insertstr(el, " ") < 0) {
 				fprintf(err, "completion failure: cannot insert space\n");
 				goto fail;
-- 
2.43.0


From cb6c84c7a5efe42399d1017d6732cc753bebcd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:55 +0000
Subject: [PATCH 59/63] fix: editline: do not crash when the prompt is NULL

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 2437e7e..2b285d4 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -158,7 +158,7 @@ prompt_cb(EditLine *el)
 	if (editline == NULL)
 		return "> ";
 
-	return editline->prompt;
+	return editline->prompt != NULL ? editline->prompt : "";
 }
 
 int
-- 
2.43.0


From a6084ea34a6ace9aefe43df53e997f8948d5fee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:45 +0000
Subject: [PATCH 60/63] fix: log: do not register types with the user-defined
 allocator

---
 src/ecoli_log.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_log.c b/src/ecoli_log.c
index c01e65a..129df98 100644
--- a/src/ecoli_log.c
+++ b/src/ecoli_log.c
@@ -7,7 +7,6 @@
 #include <string.h>
 #include <syslog.h>
 
-#include <ecoli_malloc.h>
 #include <ecoli_string.h>
 #include <ecoli_log.h>
 #include <ecoli_test.h>
@@ -94,13 +93,15 @@ ec_log_type_register(const char *name)
 		return id;
 
 	// XXX not that good to allocate in constructor
-	new_types = ec_realloc(log_types,
+	/* don't use ec_realloc() or ec_strdup() here: log types are registered
+	 * in constructors, before the user can set its own allocator. */
+	new_types = realloc(log_types,
 		sizeof(*new_types) * (log_types_len + 1));
 	if (new_types == NULL)
 		return -1; /* errno is set */
 	log_types = new_types;
 
-	copy = ec_strdup(name);
+	copy = strdup(name);
 	if (copy == NULL)
 		return -1; /* errno is set */
 
-- 
2.43.0


From 034fa13d75f476da3bb573387c4e94bfe62fc01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:26 +0000
Subject: [PATCH 61/63] fix: malloc: ec_realloc_func() returns the new pointer

---
 include/ecoli_malloc.h | 2 +-
 src/ecoli_malloc.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ecoli_malloc.h b/include/ecoli_malloc.h
index 7b94e5b..f9ae3ea 100644
--- a/include/ecoli_malloc.h
+++ b/include/ecoli_malloc.h
@@ -182,7 +182,7 @@ void ec_free_func(void *ptr);
  * Use this function when the macro ec_realloc() cannot be used,
  * for instance when it is passed as a callback pointer.
  */
-void ec_realloc_func(void *ptr, size_t size);
+void *ec_realloc_func(void *ptr, size_t size);
 
 /**
  * Allocate and initialize an array of elements.
diff --git a/src/ecoli_malloc.c b/src/ecoli_malloc.c
index 8b1c68e..da77e78 100644
--- a/src/ecoli_malloc.c
+++ b/src/ecoli_malloc.c
@@ -83,9 +83,9 @@ void *__ec_realloc(void *ptr, size_t size, const char *file, unsigned int line)
 	return ec_malloc_handler.realloc(ptr, size, file, line);
 }
 
-void ec_realloc_func(void *ptr, size_t size)
+void *ec_realloc_func(void *ptr, size_t size)
 {
-	ec_realloc(ptr, size);
+	return ec_realloc(ptr, size);
 }
 
 char *__ec_strdup(const char *s, const char *file, unsigned int line)
-- 
2.43.0


From cad3d3c3eee1d6d26b5c7e6595de3db73255be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:29 +0000
Subject: [PATCH 62/63] fix: string: free the buffer with the right allocator

---
 src/ecoli_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 947f925..0d3b5d9 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -60,7 +60,7 @@ int ec_vasprintf(char **buf, const char *fmt, va_list ap)
 
 	ec_assert_print(ret < buflen, "invalid return value for vsnprintf");
 	if (ret < 0) {
-		free(*buf);
+		ec_free(*buf);
 		*buf = NULL;
 		return -1;
 	}
-- 
2.43.0


From 3e63747df66bc230bddba1d86ec93fb03d2864dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:27 +0000
Subject: [PATCH 63/63] fix: file: report allocation failures in completion

---
 src/ecoli_node_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index f13aa8f..137ddf1 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -212,12 +212,12 @@ ec_node_file_complete(const struct ec_node *node,
 		}
 		item = ec_comp_add_item(comp, node, type, input, comp_str);
 		if (item == NULL)
-			goto out;
+			goto fail;
 
 		/* fix the display string: we don't want to display the full
 		 * path. */
 		if (ec_comp_item_set_display(item, disp_str) < 0)
-			goto out;
+			goto fail;
 
 		item = NULL;
 		ec_free(comp_str);
-- 
2.43.0

