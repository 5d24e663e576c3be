From 21dbe9c46e31c0deab4a3b3ccf5829d903d89a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 001/109] fix: apply NOT to the predicate or bracketed
 condition it precedes

---
 lib/antlr/listenerinterface.cpp |  1 +
 lib/fqlplan.c                   |  8 +++++---
 lib/logic.c                     | 18 ++++++++++++------
 lib/query.c                     | 20 ++++++++++++++++++--
 lib/query.h                     |  2 ++
 5 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 18cc1d3..5713320 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -866,6 +866,7 @@ void ListenerInterface::exitSubquery(TSqlParser::SubqueryContext * ctx)
 
 void ListenerInterface::enterSearch_condition(TSqlParser::Search_conditionContext * ctx)
 {
+	query_enter_negation(_query, ctx->NOT().size());
 	if (ctx->LR_BRACKET() && ctx->RR_BRACKET()) {
 		return;
 	}
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 87a1037..3bd36e0 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -213,10 +213,12 @@ int plan_logic_to_process(plan* self, process* logic_proc, logicgroup* lg)
 {
 	switch (lg->type) {
 	case LG_OR:
-		string_strcat(logic_proc->plan_msg, "OR(");
-		break;
 	case LG_AND:
-		string_strcat(logic_proc->plan_msg, "AND(");
+		if (lg->negation) {
+			string_strcat(logic_proc->plan_msg, "NOT ");
+		}
+		string_strcat(logic_proc->plan_msg,
+		              (lg->type == LG_OR) ? "OR(" : "AND(");
 		break;
 	case LG_PREDICATE:
 		if (lg->negation) {
diff --git a/lib/logic.c b/lib/logic.c
index 24844e8..1d687ca 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -213,22 +213,28 @@ int logicgroup_eval(logicgroup* self, node* rg, logic* skip)
 	ret = try_(logicgroup_eval(self->items[0], rg, skip));
 
 	/* Check for short circuit */
-	if ((self->type == LG_AND && !ret) || (self->type == LG_OR && ret)) {
-		return ret;
+	if (!((self->type == LG_AND && !ret) || (self->type == LG_OR && ret))) {
+		ret = try_(logicgroup_eval(self->items[1], rg, skip));
+	}
+	if (self->negation) {
+		return !ret;
 	}
-	return logicgroup_eval(self->items[1], rg, skip);
+	return ret;
 }
 
 /* essentially the same as logicgroup_eval.
  * All logic is assumed true except the one provided.
  * the point is to determine if that logic MUST be
- * true for the group to evaluate to true. I believe
- * ignoring negation here is correct. The purpose
+ * true for the group to evaluate to true. The purpose
  * being, if it must be true, it is a candidate for
- * hash join logic.
+ * hash join logic. Nothing beneath a negation is.
  */
 int logic_can_be_false(logicgroup* self, logic* check_logic)
 {
+	if (self->negation) {
+		return 1;
+	}
+
 	if (self->type == LG_PREDICATE) {
 		if (self->condition == check_logic) {
 			return 0;
diff --git a/lib/query.c b/lib/query.c
index f8e515b..7bf7e43 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -989,7 +989,9 @@ void query_set_logic_comparison(query* self, const char* op)
 void query_set_logic_isnull(query* self, bool negation)
 {
 	logicgroup* lg = self->logic_stack->data;
-	lg->negation = negation;
+	if (negation) {
+		lg->negation = !lg->negation;
+	}
 	logic* logic = lg->condition;
 	logic_set_comparison(logic, "NULL");
 }
@@ -1038,10 +1040,22 @@ void query_exit_search_item(query* self)
 	_check_for_logic_exit(self, node_pop(&self->logic_stack));
 }
 
+/* NOT in front of a predicate or a bracketed search condition:
+ * it belongs to the next logic item.
+ */
+void query_enter_negation(query* self, unsigned negation)
+{
+	if (negation % 2) {
+		self->negate_next = !self->negate_next;
+	}
+}
+
 void query_enter_predicate(query* self, unsigned negation, bool in)
 {
 	logicgroup* lg = _add_logic_item(self, LG_PREDICATE);
-	lg->negation = (negation % 2);
+	if (negation % 2) {
+		lg->negation = !lg->negation;
+	}
 
 	if (in) {
 		query_enter_in_statement(self);
@@ -1214,6 +1228,8 @@ int _distribute_expression(query* self, expression* expr)
 logicgroup* _add_logic_item(query* self, enum logicgroup_type type)
 {
 	logicgroup* lg = new_(logicgroup, type);
+	lg->negation = self->negate_next;
+	self->negate_next = false;
 
 	if (self->logic_stack == NULL) {
 		if (self->mode != MODE_CASE) {
diff --git a/lib/query.h b/lib/query.h
index 282b590..347e96e 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -177,6 +177,7 @@ struct query {
 	enum mode mode_store;
 	enum logic_mode logic_mode;
 	enum join_type join;
+	bool negate_next; /* NOT waiting for the logic item it applies to */
 	bool in_assignment_function;
 	bool in_bracket_expression; /* boolean for whether we are in a
 	                             * bracket expression or not
@@ -278,6 +279,7 @@ void query_set_logic_isnull(struct query*, bool negation);
 void query_enter_search_or(struct query*);
 void query_enter_search_and(struct query*);
 void query_exit_search_item(struct query*);
+void query_enter_negation(struct query*, unsigned negation);
 void query_enter_predicate(struct query*, unsigned negation, bool in);
 void query_exit_predicate(struct query*, bool in, bool like);
 
-- 
2.43.0


From 7d79b67dca2e6d3198df0965caf50115c0d0188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 002/109] fix: RIGHT() longer than its argument read past the
 value

---
 lib/scalarfn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index a18502c..697c22d 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -231,7 +231,7 @@ int fql_right(function* fn, union field* ret, node* rg)
 	}
 
 	if (n > sv.len) {
-		string_strncpy(ret->s, sv.data, n);
+		string_strncpy(ret->s, sv.data, sv.len);
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From 5a665ebf1997c8237b57be780dc5f3fda06ddfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:48 +0000
Subject: [PATCH 003/109] fix: CASE without a matching branch is NULL in
 enclosing expressions

---
 lib/expression.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5454a27..becd071 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -384,8 +384,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		*ret = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_int(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_int(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = *self->rownum_ref;
 		return FQL_GOOD;
@@ -453,8 +452,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		*ret = -0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_float(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_float(self->field.sc, ret, rg);
 	case EXPR_ROW_NUMBER:
 		*ret = (double)*self->rownum_ref;
 		return FQL_GOOD;
@@ -522,8 +520,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		ret->len = 0;
 		return FQL_NULL;
 	case EXPR_SWITCH_CASE:
-		try_(switchcase_eval_to_stringview(self->field.sc, ret, rg));
-		return FQL_GOOD;
+		return switchcase_eval_to_stringview(self->field.sc, ret, rg);
 	case EXPR_FULL_RECORD: {
 		record* rec = record_at(rg, self->src_idx);
 		if (rec == NULL) {
-- 
2.43.0


From f3e0f4d4bcdbf38da4bc22e118065913bff51bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 004/109] fix: string_strncpy read one byte past its limit

---
 util/stringy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/stringy.c b/util/stringy.c
index 2f27d2e..11a0ed7 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -141,7 +141,7 @@ size_t string_strncpy(string* restrict dest, const char* restrict src, size_t li
 {
 	string_resize(dest, limit);
 	size_t i = 0;
-	for (; src[i] != '\0' && i < limit; ++i) {
+	for (; i < limit && src[i] != '\0'; ++i) {
 		((char*)dest->data)[i] = src[i];
 	}
 	string_resize(dest, i);
-- 
2.43.0


From 98523c0ee9bc0a18fdda77518ba52e26e334da23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:14 +0000
Subject: [PATCH 005/109] fix: LIKE sets with a leading ^ match the complement

---
 lib/like.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/like.c b/lib/like.c
index 3d16bd0..252211f 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -61,6 +61,12 @@ void _extract_character_ranges(vec* ranges, string* likebuf)
 		char* b_end = vec_back(&bracketed);
 		vec_erase_one(&bracketed, b_end);
 
+		/* A leading ^ negates the set, it must not stay escaped */
+		if (bracketed.size > 2
+		    && strncmp(string_c_str(&bracketed), "\\^", 2) == 0) {
+			vec_erase_at(&bracketed, 0, 1);
+		}
+
 		/* Escaple all brackets left */
 		string_find_replace(&bracketed, "[", "\\[");
 		string_find_replace(&bracketed, "]", "\\]");
-- 
2.43.0


From 1e445fe32891e898c84a12086cf7d41e2495645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:00 +0000
Subject: [PATCH 006/109] fix: IN (subquery) on numbers folded their bytes,
 ignored the compared type and let NULL match

---
 lib/fqlplan.c   |  4 +++-
 lib/fqlselect.c | 27 +++++++++++++++++++++------
 lib/fqlselect.h |  3 ++-
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 3bd36e0..a5e90e4 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -180,7 +180,9 @@ int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
 {
 	query* subquery = lg->condition->in_data->subquery;
 	/* We can assume select because subquery */
-	try_(fqlselect_set_as_inlist(subquery->op, lg->condition->in_data));
+	try_(fqlselect_set_as_inlist(subquery->op,
+	                             lg->condition->in_data,
+	                             lg->condition->expr[0]));
 	lg->condition->comp_type = COMP_SUBIN;
 	process_add_to_wait_list(logic_proc, subquery->plan->op_true->data);
 	return FQL_GOOD;
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 9b190ec..e34c743 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -238,7 +238,7 @@ void fqlselect_apply_expression_alias(fqlselect* self, const char* alias)
 	schema_apply_expression_alias(self->schema, alias);
 }
 
-int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
+int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist, expression* left)
 {
 	if (self->schema->expressions->size == 1) {
 		expression** expr = vec_begin(self->schema->expressions);
@@ -250,7 +250,15 @@ int fqlselect_set_as_inlist(fqlselect* self, inlist* inlist)
 		fputs("Only one expression can be specified in subquery\n", stderr);
 		return FQL_FAIL;
 	}
-	inlist->list_data = new_(set, 16, HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	/* The list holds values of the type that is compared. Only
+	 * strings may have their keys folded.
+	 */
+	self->list_type = inlist_determine_type(inlist, left);
+	unsigned props = HASHMAP_PROP_DEFAULT;
+	if (self->list_type == FIELD_STRING) {
+		props = HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM;
+	}
+	inlist->list_data = new_(set, 16, props);
 	self->list_data = inlist->list_data;
 	self->select__ = &_select_record_to_list;
 	return FQL_GOOD;
@@ -497,22 +505,29 @@ int _select_record_to_list(fqlselect* self, node* rg)
 	expression* expr =
 	        *(expression**)vec_begin(self->current_select->schema->expressions);
 
-	switch (expr->field_type) {
+	/* NULL is never equal to anything */
+	switch (self->list_type) {
 	case FIELD_INT: {
 		long num = 0;
-		try_(expression_get_int(&num, expr, rg));
+		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_FLOAT: {
 		double num = 0;
-		try_(expression_get_float(&num, expr, rg));
+		if (try_(expression_get_float(&num, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
 	case FIELD_STRING: {
 		stringview sv;
-		try_(expression_get_stringview(&sv, expr, rg));
+		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
+			return 1;
+		}
 		set_nadd(list, sv.data, sv.len);
 		return 1;
 	}
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index e810478..f2d8b04 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -18,6 +18,7 @@ struct fqlselect {
 	struct schema* schema;
 	struct writer* writer;
 	set* list_data;
+	enum field_type list_type;
 	struct expression* const_dest;
 	struct node* union_selects;
 	struct node* _union_node;
@@ -42,7 +43,7 @@ void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
 void fqlselect_apply_process(struct query*, struct fqlplan*, bool);
 void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
-int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*);
+int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, struct expression* left);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
 void fqlselect_verify_must_run(struct fqlselect*);
-- 
2.43.0


From 326dc59f364fc1e47017632038f8c3f4998fcbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 007/109] fix: REPLACE() with a computed needle searched for
 one byte too many and overflowed

---
 lib/scalarfn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 697c22d..26ded9e 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -335,7 +335,8 @@ int fql_replace(function* fn, union field* ret, node* rg)
 
 	/* If we've made it this far, needle may not be a NULL terminated string... allocate a copy =( */
 	char* needle_cpy = malloc_(needle.len + 1);
-	strncpy_(needle_cpy, needle.data, needle.len + 1);
+	memcpy(needle_cpy, needle.data, needle.len);
+	needle_cpy[needle.len] = '\0';
 	string_find_replace_nocase_limited(ret->s,
 	                                   needle_cpy,
 	                                   replacement.data,
-- 
2.43.0


From 1d5394461e24b050e41d1bf41d45c3949ac83103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 008/109] fix: replacing an empty string never returned

---
 util/stringy.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/util/stringy.c b/util/stringy.c
index 11a0ed7..d8a69f9 100644
--- a/util/stringy.c
+++ b/util/stringy.c
@@ -210,6 +210,10 @@ const char* string_find_replace_one_limited(string* restrict s,
                                             unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	/* nothing to look for */
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 	char* pos = memmem(begin, s->size - begin_idx, oldstr, oldlen);
 
@@ -274,6 +278,10 @@ const char* string_find_replace_one_nocase_limited(string* restrict s,
                                                    unsigned newlen)
 {
 	unsigned oldlen = strlen(oldstr);
+	/* nothing to look for */
+	if (oldlen == 0) {
+		return vec_end(s);
+	}
 	char* begin = vec_at(s, begin_idx);
 
 	/* We will assume oldstr is null terminated.
-- 
2.43.0


From 1a822b8d7ed95205c9fb9b7c429b8553cc0fcc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 009/109] fix: aggregates over no rows: COUNT is 0,
 HAVING/ORDER BY/subqueries see the row, GROUP BY has none

---
 lib/expression.c   | 14 ++++++++++++++
 lib/fqlprocesses.c |  6 ------
 lib/fqlselect.c    | 47 +---------------------------------------------
 lib/fqlselect.h    |  2 --
 lib/group.c        | 32 +++++++++++++++++++++++++++++++
 lib/operation.c    |  1 -
 lib/query.c        |  3 ---
 7 files changed, 47 insertions(+), 58 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index becd071..6391d8c 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -417,6 +417,11 @@ int expression_get_int(long* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (self->expr == EXPR_AGGREGATE && sv->data == NULL) {
+			/* aggregate of nothing */
+			*ret = 0;
+			return FQL_NULL;
+		}
 		string_copy_from_stringview(&self->buf, sv);
 		fail_if_(str2long(ret, self->buf.data));
 		return FQL_GOOD;
@@ -485,6 +490,11 @@ int expression_get_float(double* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (self->expr == EXPR_AGGREGATE && sv->data == NULL) {
+			/* aggregate of nothing */
+			*ret = 0;
+			return FQL_NULL;
+		}
 		string_copy_from_stringview(&self->buf, sv);
 		fail_if_(str2double(ret, self->buf.data));
 		return FQL_GOOD;
@@ -562,6 +572,10 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 			return FQL_GOOD;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
+		if (sv->data == NULL) { /* aggregate of nothing */
+			ret->len = 0;
+			return FQL_NULL;
+		}
 		ret->data = sv->data;
 		ret->len = sv->len;
 		return FQL_GOOD;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1884d3d..d1f06e0 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -821,12 +821,6 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (!proc->wait_for_in0) {
-		if (select->must_run_once && select->rows_affected == 0) {
-			try_(select->select__(select, NULL));
-			++select->rows_affected;
-			++proc->rows_affected;
-			return PROC_RETURN_RUNNING;
-		}
 		/* subquery reads expect union schema to
 		 * be "in sync" with the subquery select's
 		 * current schema
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index e34c743..4301788 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -31,7 +31,6 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	        .schema = new_(schema),
 	        .select__ = &_select_record,
 	        .top_count = -1,
-	        .must_run_once = true,
 	};
 
 	self->current_select = self;
@@ -82,15 +81,6 @@ unsigned fqlselect_get_field_count(fqlselect* self, const vec* sources)
 void fqlselect_add_expression(fqlselect* self, expression* expr)
 {
 	schema_add_expression(self->schema, expr, 0);
-	switch (expr->expr) {
-	case EXPR_ROW_NUMBER:
-	case EXPR_AGGREGATE:
-		break;
-	default:
-		if (!expression_is_const(expr)) {
-			self->must_run_once = false;
-		}
-	}
 }
 
 int fqlselect_resolve_type_from_subquery(expression* expr)
@@ -278,41 +268,6 @@ int fqlselect_next_union(fqlselect* self)
 	return 1;
 }
 
-/* The "must_run_once" flag at this point means that the
- * conditions are correct to force a SELECT under the
- * assumption that there may be an unreached aggregate in
- * the SELECT list:
- *   SELECT COUNT(*)
- *   FROM T1
- *   WHERE 1=0
- *
- * Even though no records will make it to the SELECT,
- * we must still report our count of 0. If this condition
- * is true, then we must check that there is indeed an
- * aggregate function to warrant forcing a SELECT. We
- * wouldn't want "must_run_once" set true for a query like
- *   SELECT 1
- *   WHERE 1=0
- *
- * TODO: Verify this behavior when UNION is involved
- */
-void fqlselect_verify_must_run(fqlselect* self)
-{
-	if (self->must_run_once) {
-		expression** it = vec_begin(self->schema->expressions);
-		bool agg_found = false;
-		for (; it != vec_end(self->schema->expressions); ++it) {
-			if ((*it)->expr == EXPR_AGGREGATE) {
-				agg_found = true;
-				break;
-			}
-		}
-		if (!agg_found) {
-			self->must_run_once = false;
-		}
-	}
-}
-
 int fqlselect_reset(fqlselect* self)
 {
 	self->offset = 0;
@@ -393,7 +348,7 @@ int _select_record(fqlselect* self, node* rg)
 
 	int ret = writer->write_record__(writer, expr_vec, rg, NULL);
 
-	if (ret == FQL_FAIL || rg == NULL) {
+	if (ret == FQL_FAIL) {
 		return ret;
 	}
 
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index f2d8b04..7c29565 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -31,7 +31,6 @@ struct fqlselect {
 	size_t top_count;
 	unsigned rownum;
 	bool is_const;
-	bool must_run_once;
 };
 typedef struct fqlselect fqlselect;
 
@@ -46,7 +45,6 @@ void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, struct expression* left);
 int fqlselect_resolve_type_from_subquery(struct expression*);
 int fqlselect_resolve_final_types(struct fqlselect*);
-void fqlselect_verify_must_run(struct fqlselect*);
 int fqlselect_next_union(struct fqlselect*);
 int fqlselect_reset(struct fqlselect*);
 void fqlselect_preop(struct fqlselect*, struct query*);
diff --git a/lib/group.c b/lib/group.c
index 6051fdb..30c7378 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -184,9 +184,41 @@ void _read_aggregate(expression* agg_expr, string* raw, stringview* sv, size_t i
 	}
 }
 
+/* Aggregates without a GROUP BY clause describe one group even if
+ * no record made it this far:
+ *   SELECT COUNT(*), MAX(foo)
+ *   FROM T1
+ *   WHERE 1=0
+ *
+ * The count is 0. The others are NULL (stringview without data).
+ */
+int _dump_empty_group(group* self, record* rec)
+{
+	record_resize(rec, self->expressions.size);
+
+	expression** group_exprs = vec_begin(&self->expressions);
+	stringview* rec_svs = vec_begin(&rec->fields);
+
+	unsigned i = 0;
+	for (; i < self->expressions.size; ++i) {
+		rec_svs[i] = (stringview) {0};
+		if (group_exprs[i]->expr == EXPR_AGGREGATE
+		    && group_exprs[i]->field.agg->agg_type == AGG_COUNT) {
+			stringview_nset(&rec_svs[i], "0", 1);
+		}
+	}
+
+	++self->_dump_idx;
+	return FQL_GOOD;
+}
+
 int group_dump_record(group* self, record* rec)
 {
 	if (self->_dump_idx >= self->val_map.values->size) {
+		if (self->_dump_idx == 0 && vec_empty(&self->_composite)
+		    && !vec_empty(&self->aggregates)) {
+			return _dump_empty_group(self, rec);
+		}
 		return -1;
 	}
 
diff --git a/lib/operation.c b/lib/operation.c
index 818651e..e46b91a 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -411,7 +411,6 @@ int op_writer_init(struct query* query)
 				group_add_expression(query->distinct, *it);
 			}
 		}
-		fqlselect_verify_must_run((fqlselect*)self);
 		return FQL_GOOD;
 	}
 
diff --git a/lib/query.c b/lib/query.c
index 7bf7e43..b2a7d6a 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -1011,9 +1011,6 @@ void _assign_logic(query* self, logicgroup* lg)
 		self->where = lg;
 		break;
 	case LOGIC_HAVING: {
-		/* Having allows us to assume select */
-		fqlselect* select = self->op;
-		select->must_run_once = false;
 		self->having = lg;
 		break;
 	}
-- 
2.43.0


From 6f725fecb830573bf2a88dd47abe08620cc6c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 010/109] fix: aggregate functions counted NULL as a value

---
 lib/aggregatefn.c | 24 ++++++++++++++----------
 lib/group.c       | 14 ++++++++++----
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/lib/aggregatefn.c b/lib/aggregatefn.c
index 0428268..408f963 100644
--- a/lib/aggregatefn.c
+++ b/lib/aggregatefn.c
@@ -9,11 +9,15 @@ int fql_count(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	return FQL_GOOD;
 }
 
+/* NULL is not aggregated: each of these returns FQL_NULL, and leaves
+ * the result as it is, when the argument is NULL.
+ */
+
 int fql_min_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 	if (result->qty == 0 || num < result->data.i) {
 		result->data.i = num;
 	}
@@ -24,7 +28,7 @@ int fql_min_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 	if (result->qty == 0 || num < result->data.f) {
 		result->data.f = num;
 	}
@@ -35,7 +39,7 @@ int fql_min_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	try_deref_(expression_get_stringview(&sv0, col, rg));
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -49,7 +53,7 @@ int fql_max_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 	if (result->qty == 0 || num > result->data.i) {
 		result->data.i = num;
 	}
@@ -60,7 +64,7 @@ int fql_max_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 	if (result->qty == 0 || num > result->data.f) {
 		result->data.f = num;
 	}
@@ -71,7 +75,7 @@ int fql_max_s(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	stringview sv0 = {0};
-	try_(expression_get_stringview(&sv0, col, rg));
+	try_deref_(expression_get_stringview(&sv0, col, rg));
 
 	stringview sv1 = string_get_stringview(&result->data.s);
 	if (result->qty == 0
@@ -85,7 +89,7 @@ int fql_sum_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 
 	result->data.i = overflow_safe_add_i(result->data.i, num);
 	return FQL_GOOD;
@@ -95,7 +99,7 @@ int fql_sum_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 {
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 
 	result->data.f += num;
 	return FQL_GOOD;
@@ -106,7 +110,7 @@ int fql_avg_i(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	long num = 0;
-	try_(expression_get_int(&num, col, rg));
+	try_deref_(expression_get_int(&num, col, rg));
 
 	result->auxdata.i = overflow_safe_add_i(result->auxdata.i, num);
 	result->data.i = result->auxdata.i / (result->qty + 1);
@@ -119,7 +123,7 @@ int fql_avg_f(aggregate* agg, group* group, struct aggresult* result, node* rg)
 	/* auxdata is used here to keep track of a running total */
 	expression* col = *(expression**)vec_begin(agg->args);
 	double num = 0;
-	try_(expression_get_float(&num, col, rg));
+	try_deref_(expression_get_float(&num, col, rg));
 
 	result->auxdata.f += num;
 	result->data.f = result->auxdata.f / (result->qty + 1);
diff --git a/lib/group.c b/lib/group.c
index 30c7378..03e285f 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -94,8 +94,9 @@ int _add_agg_result(group* self, node* rg)
 		if ((*it)->data_type == FIELD_STRING) {
 			string_construct(&result->data.s);
 		}
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		if (try_((*it)->call__(*it, self, result, rg)) == FQL_GOOD) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
@@ -105,8 +106,9 @@ int _update_agg_result(group* self, node* rg, unsigned idx)
 	aggregate** it = vec_begin(&self->aggregates);
 	for (; it != vec_end(&self->aggregates); ++it) {
 		struct aggresult* result = vec_at(&(*it)->results, idx);
-		try_((*it)->call__(*it, self, result, rg));
-		++result->qty;
+		if (try_((*it)->call__(*it, self, result, rg)) == FQL_GOOD) {
+			++result->qty;
+		}
 	}
 	return FQL_GOOD;
 }
@@ -169,6 +171,10 @@ void _read_aggregate(expression* agg_expr, string* raw, stringview* sv, size_t i
 {
 	aggregate* agg = agg_expr->field.agg;
 	struct aggresult* result = vec_at(&agg->results, idx);
+	if (result->qty == 0 && agg->agg_type != AGG_COUNT) {
+		*sv = (stringview) {0}; /* NULL */
+		return;
+	}
 	switch (agg->data_type) {
 	case FIELD_INT:
 		string_sprintf(raw, "%ld", result->data.i);
-- 
2.43.0


From ffc0d84c3a7eb76543f84eacf70942520e1b9006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 011/109] fix: GROUP BY and DISTINCT merged NULL with empty
 values and zero

---
 lib/expression.c |  8 +++-----
 lib/group.c      | 30 +++++++++++++++++++++++++++---
 lib/group.h      |  1 +
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 6391d8c..bd35166 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -417,8 +417,7 @@ int expression_get_int(long* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
-		if (self->expr == EXPR_AGGREGATE && sv->data == NULL) {
-			/* aggregate of nothing */
+		if (self->expr != EXPR_COLUMN_NAME && sv->data == NULL) {
 			*ret = 0;
 			return FQL_NULL;
 		}
@@ -490,8 +489,7 @@ int expression_get_float(double* ret, expression* self, node* rg)
 			return FQL_NULL;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
-		if (self->expr == EXPR_AGGREGATE && sv->data == NULL) {
-			/* aggregate of nothing */
+		if (self->expr != EXPR_COLUMN_NAME && sv->data == NULL) {
 			*ret = 0;
 			return FQL_NULL;
 		}
@@ -572,7 +570,7 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 			return FQL_GOOD;
 		}
 		stringview* sv = vec_at(&rec->fields, src_expr->index);
-		if (sv->data == NULL) { /* aggregate of nothing */
+		if (sv->data == NULL) {
 			ret->len = 0;
 			return FQL_NULL;
 		}
diff --git a/lib/group.c b/lib/group.c
index 03e285f..14a0267 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -15,6 +15,7 @@ group* group_construct(group* self)
 	vec_construct_(&self->expressions, expression*);
 	vec_construct_(&self->aggregates, aggregate*);
 	vec_construct_(&self->_composite, stringview);
+	vec_construct_(&self->_nulls, char);
 	//vec_construct_(&self->_roots, dnode*);
 	flex_construct(&self->group_data);
 
@@ -27,6 +28,7 @@ void group_destroy(group* self)
 	compositemap_destroy(&self->val_map);
 	vec_destroy(&self->aggregates);
 	vec_destroy(&self->_composite);
+	vec_destroy(&self->_nulls);
 	flex_destroy(&self->group_data);
 
 	expression** it = vec_begin(&self->expressions);
@@ -70,6 +72,10 @@ void group_add_expression(group* self, expression* expr)
 	expr->index = self->expressions.size;
 	vec_push_back(&self->expressions, &expr);
 	if (expr->expr != EXPR_AGGREGATE && expr->expr != EXPR_ROW_NUMBER) {
+		/* the last of the composite tells which of the others are NULL */
+		if (vec_empty(&self->_composite)) {
+			vec_add_one(&self->_composite);
+		}
 		vec_add_one(&self->_composite);
 	}
 }
@@ -116,33 +122,43 @@ int _update_agg_result(group* self, node* rg, unsigned idx)
 int group_record(group* self, node* rg)
 {
 	size_t org_size = flex_size(&self->group_data);
+	vec_clear(&self->_nulls);
 
 	expression** exprs = vec_begin(&self->expressions);
 	stringview* sv = vec_begin(&self->_composite);
 	unsigned i = 0;
 	for (; i < self->expressions.size; ++i) {
+		int ret = FQL_GOOD;
 		if (exprs[i]->expr == EXPR_AGGREGATE
 		    || exprs[i]->expr == EXPR_ROW_NUMBER) {
 			continue;
 		}
 		switch (exprs[i]->field_type) {
 		case FIELD_STRING:
-			try_(expression_get_stringview(sv, exprs[i], rg));
+			ret = try_(expression_get_stringview(sv, exprs[i], rg));
+			if (ret == FQL_NULL) {
+				*sv = (stringview) {"", 0};
+			}
 			flex_push_back(&self->group_data, (void*)sv->data, sv->len);
 			break;
 		case FIELD_INT: {
 			long num_i = 0;
-			try_(expression_get_int(&num_i, exprs[i], rg));
+			ret = try_(expression_get_int(&num_i, exprs[i], rg));
 			flex_push_back_str_int(&self->group_data, num_i);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num_f = 0;
-			try_(expression_get_float(&num_f, exprs[i], rg));
+			ret = try_(expression_get_float(&num_f, exprs[i], rg));
 			flex_push_back_str_float(&self->group_data, num_f);
 		}
 		default:;
 		}
+		vec_push_back(&self->_nulls, ret == FQL_NULL ? "1" : "0");
+	}
+
+	if (!vec_empty(&self->_composite)) {
+		flex_push_back(&self->group_data, self->_nulls.data, self->_nulls.size);
 	}
 
 	for (i = 0; i < self->_composite.size; ++i) {
@@ -229,6 +245,11 @@ int group_dump_record(group* self, record* rec)
 	}
 
 	size_t idx = self->_composite.size * self->_dump_idx;
+	const char* is_null = NULL;
+	if (!vec_empty(&self->_composite)) {
+		is_null = flex_pair_at(&self->group_data,
+		                       idx + self->_composite.size - 1).data;
+	}
 
 	record_resize(rec, self->expressions.size);
 
@@ -250,6 +271,9 @@ int group_dump_record(group* self, record* rec)
 			continue;
 		}
 		rec_svs[i] = flex_pair_at(&self->group_data, idx++);
+		if (*is_null++ == '1') {
+			rec_svs[i] = (stringview) {0}; /* NULL */
+		}
 	}
 
 	++self->_dump_idx;
diff --git a/lib/group.h b/lib/group.h
index 11ae6e3..4e79b9d 100644
--- a/lib/group.h
+++ b/lib/group.h
@@ -17,6 +17,7 @@ struct group {
 	struct vec aggregates;
 	struct flex group_data;
 	struct vec _composite; /* temporary */
+	struct vec _nulls;     /* temporary */
 	//struct vec _roots;
 	size_t _dump_idx;
 };
-- 
2.43.0


From d53f8aaa141f5b94fed08d2bcae1abb57e1d3746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 012/109] fix: ORDER BY lost NULLs and read sorted subquery
 expressions as the sort key's type

---
 lib/fqlselect.c | 18 +++++++++++-------
 lib/order.c     | 27 ++++++++++++++++++---------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 4301788..3b5df2a 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -419,27 +419,31 @@ int _select_record_order_api(fqlselect* self, node* rg)
 	unsigned i = 0;
 	unsigned len = 0;
 	for (; i < expr_vec->size; ++i) {
+		/* each field is preceded by its null flag */
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			long num = 0;
-			try_(expression_get_int(&num, exprs[i], rg));
+			int ret = try_(expression_get_int(&num, exprs[i], rg));
+			fputc(ret == FQL_NULL, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
-			len += sizeof(num);
+			len += 1 + sizeof(num);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num = 0;
-			try_(expression_get_float(&num, exprs[i], rg));
+			int ret = try_(expression_get_float(&num, exprs[i], rg));
+			fputc(ret == FQL_NULL, order_input);
 			fwrite(&num, sizeof(num), 1, order_input);
-			len += sizeof(num);
+			len += 1 + sizeof(num);
 			break;
 		}
 		case FIELD_STRING: {
-			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			stringview sv = {0};
+			int ret = try_(expression_get_stringview(&sv, exprs[i], rg));
+			fputc(ret == FQL_NULL, order_input);
 			fwrite(&sv.len, sizeof(sv.len), 1, order_input);
 			fwrite(sv.data, 1, sv.len, order_input);
-			len += sizeof(sv.len) + sv.len;
+			len += 1 + sizeof(sv.len) + sv.len;
 			break;
 		}
 		default:;
diff --git a/lib/order.c b/lib/order.c
index 1830756..0c271c1 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -314,17 +314,20 @@ int _order_select_api(order* self, process* proc)
 	size_t offset = self->entry_iter->offset;
 	struct fql_field* it = vec_begin(self->api);
 	for (; it != vec_end(self->api); ++it) {
+		/* each field was written behind its null flag */
+		it->is_null = self->mmap[offset++];
 		switch (it->type) {
 		case FQL_INT:
-			it->data.i = *(long*)(&self->mmap[offset]);
+			memcpy(&it->data.i, &self->mmap[offset], sizeof(long));
 			offset += sizeof(long);
 			break;
 		case FQL_FLOAT:
-			it->data.f = *(double*)(&self->mmap[offset]);
+			memcpy(&it->data.f, &self->mmap[offset], sizeof(double));
 			offset += sizeof(double);
 			break;
 		case FQL_STRING: {
-			unsigned len = *(unsigned*)(&self->mmap[offset]);
+			unsigned len = 0;
+			memcpy(&len, &self->mmap[offset], sizeof(unsigned));
 			offset += sizeof(unsigned);
 			stringview sv = {&self->mmap[offset], len};
 			offset += len;
@@ -356,21 +359,27 @@ int _order_select_to_const(order* self, process* proc)
 	}
 
 	struct _entry* first_ent = vec_begin(&self->entries);
-	expression* first_expr = *(expression**)vec_begin(&self->expressions);
+	fqlselect* select = self->const_dest->subquery->op;
+	expression* first_expr = *(expression**)vec_begin(select->schema->expressions);
 
 	self->const_dest->expr = EXPR_CONST;
 	self->const_dest->field_type = first_expr->field_type;
 
 	size_t offset = first_ent->offset;
+	if (self->mmap[offset++]) {
+		self->const_dest->expr = EXPR_NULL;
+		return FQL_GOOD;
+	}
 	switch (first_expr->field_type) {
 	case FIELD_INT:
-		self->const_dest->field.i = *(long*)(&self->mmap[offset]);
+		memcpy(&self->const_dest->field.i, &self->mmap[offset], sizeof(long));
 		break;
 	case FIELD_FLOAT:
-		self->const_dest->field.f = *(double*)(&self->mmap[offset]);
+		memcpy(&self->const_dest->field.f, &self->mmap[offset], sizeof(double));
 		break;
 	case FIELD_STRING: {
-		unsigned len = *(unsigned*)(&self->mmap[offset]);
+		unsigned len = 0;
+		memcpy(&len, &self->mmap[offset], sizeof(unsigned));
 		offset += sizeof(unsigned);
 		stringview sv = {&self->mmap[offset], len};
 		string_copy_from_stringview(&self->const_dest->buf, &sv);
@@ -403,6 +412,8 @@ int order_sort(order* self)
 		return FQL_FAIL;
 	}
 
+	self->entry_iter = vec_begin(&self->entries);
+
 	if (sb.st_size == 0) {
 		return FQL_GOOD;
 	}
@@ -417,7 +428,5 @@ int order_sort(order* self)
 	}
 	madvise(self->mmap, sb.st_size, MADV_RANDOM);
 
-	self->entry_iter = vec_begin(&self->entries);
-
 	return FQL_GOOD;
 }
-- 
2.43.0


From f8cbe8be6917d278251a11ea95c1ae064c11d347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:14 +0000
Subject: [PATCH 013/109] fix: TOP 0 with ORDER BY handed a row to the API

---
 lib/order.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/order.c b/lib/order.c
index 0c271c1..62f91c6 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -308,7 +308,8 @@ int _order_select(order* self, process* proc)
 
 int _order_select_api(order* self, process* proc)
 {
-	if (self->entry_iter == vec_end(&self->entries)) {
+	if (self->entry_iter == vec_end(&self->entries)
+	    || proc->rows_affected >= self->top_count) {
 		return 0;
 	}
 	size_t offset = self->entry_iter->offset;
-- 
2.43.0


From 88589a15c5041b31824e0c2cbec8f9d16579bfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 014/109] fix: SUBSTRING() that ends before the first character
 ran off the value

---
 lib/scalarfn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 26ded9e..2e67ea5 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -284,10 +284,10 @@ int fql_substring(function* fn, union field* ret, node* rg)
 	}
 
 	if (start < 0) {
-		n += start;
+		n = (n > -start) ? n + start : 0;
 	}
 
-	if (idx + n > sv.len) {
+	if (n > sv.len - idx) {
 		string_strncpy(ret->s, &sv.data[idx], sv.len - idx);
 		return FQL_GOOD;
 	}
-- 
2.43.0


From eb0dcef53f3e4772112123ca203c5dae9e837515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 015/109] fix: keys of nothing but spaces are equal under
 HASHMAP_PROP_RTRIM

---
 util/hashmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index 9a4b2af..cb7875b 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -412,7 +412,7 @@ _hash_nocase(const hashmap* restrict self, const char* restrict key, unsigned* r
 uint64_t
 _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
@@ -436,7 +436,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
                             const char* restrict key,
                             unsigned* restrict n)
 {
-	unsigned last_not_space_n = *n;
+	unsigned last_not_space_n = 0;
 	uint64_t hash = _FNV1_INIT;
 	uint64_t last_not_space_hash = hash;
 	char* keyptr = &self->_keybuf[self->_keybuf_head];
-- 
2.43.0


From 83d5f22fb1368139e995554dc25daae0523561f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 016/109] fix: comparisons and hashed keys ignore the same
 trailing whitespace

---
 util/hashmap.c    |  4 +--
 util/stringview.c | 62 +++++++++++++++++++++--------------------------
 2 files changed, 29 insertions(+), 37 deletions(-)

diff --git a/util/hashmap.c b/util/hashmap.c
index cb7875b..81a9a49 100644
--- a/util/hashmap.c
+++ b/util/hashmap.c
@@ -422,7 +422,7 @@ _hash_rtrim(const hashmap* restrict self, const char* restrict key, unsigned* re
 		*keyptr = key[i];
 		hash *= _PRIME;
 		hash ^= (uint64_t)*keyptr;
-		if (*keyptr != ' ') {
+		if (!isspace((unsigned char)*keyptr)) {
 			last_not_space_hash = hash;
 			last_not_space_n = i + 1;
 		}
@@ -446,7 +446,7 @@ uint64_t _hash_nocase_rtrim(const hashmap* restrict self,
 		*keyptr = tolower(key[i]);
 		hash *= _PRIME;
 		hash ^= (uint64_t)*keyptr;
-		if (*keyptr != ' ') {
+		if (!isspace((unsigned char)*keyptr)) {
 			last_not_space_hash = hash;
 			last_not_space_n = i + 1;
 		}
diff --git a/util/stringview.c b/util/stringview.c
index fb39016..c2b621f 100644
--- a/util/stringview.c
+++ b/util/stringview.c
@@ -46,57 +46,49 @@ int stringview_compare(const stringview* restrict sv0, const stringview* restric
 	return ret;
 }
 
-int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+unsigned _rtrim_len(const stringview* sv)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
+	unsigned len = sv->len;
+	while (len > 0 && isspace((unsigned char)sv->data[len - 1])) {
+		--len;
 	}
+	return len;
+}
+
+int stringview_compare_rtrim(const stringview* sv0, const stringview* sv1)
+{
+	unsigned len0 = _rtrim_len(sv0);
+	unsigned len1 = _rtrim_len(sv1);
 
-	const unsigned char *s0 = (unsigned char*) sv0->data;
-	const unsigned char *s1 = (unsigned char*) sv1->data;
+	const unsigned char* s0 = (unsigned char*)sv0->data;
+	const unsigned char* s1 = (unsigned char*)sv1->data;
 
-	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
-		ret = s0[i] - s1[i];
+	for (; i < len0 && i < len1; ++i) {
+		int ret = s0[i] - s1[i];
+		if (ret) {
+			return ret;
+		}
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return num_compare_(len0, len1);
 }
 
 int stringview_compare_nocase_rtrim(const stringview* sv0, const stringview* sv1)
 {
-	const stringview* short_sv = sv0;
-	const stringview* long_sv = sv1;
-	if (sv0->len > sv1->len) {
-		short_sv = sv1;
-		long_sv = sv0;
-	}
+	unsigned len0 = _rtrim_len(sv0);
+	unsigned len1 = _rtrim_len(sv1);
 
 	const unsigned char* s0 = (unsigned char*)sv0->data;
 	const unsigned char* s1 = (unsigned char*)sv1->data;
 
-	int ret = 0;
 	unsigned i = 0;
-	for (; ret == 0 && i < short_sv->len; ++i) {
-		ret = tolower (s0[i]) - tolower (s1[i]);
+	for (; i < len0 && i < len1; ++i) {
+		int ret = tolower(s0[i]) - tolower(s1[i]);
+		if (ret) {
+			return ret;
+		}
 	}
 
-	/* All remaining bytes must be white space to stay truthy */
-	const unsigned char *long_str = (unsigned char*) long_sv->data;
-
-	for (; ret == 0 && i < long_sv->len; ++i) {
-		ret = (isspace(long_str[i])) ? 0 : sv0->len - sv1->len;
-	}
-	return ret;
+	return num_compare_(len0, len1);
 }
-
-- 
2.43.0


From b820b8fa5dddf6b7f2f53f6bfb0431500a3857ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 017/109] fix: ORDER BY ordinals and aliases count the columns
 an asterisk stands for, and constants can be sorted by

---
 lib/order.c  | 38 +++++++++++++++++++++++++++++---------
 lib/order.h  |  3 +--
 lib/schema.c |  4 +---
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 62f91c6..5546e66 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -107,7 +107,26 @@ void order_set_const_dest(order* self, expression* const_dest)
 	self->select__ = &_order_select_to_const;
 }
 
-int order_preresolve_expressions(order* self, fqlselect* select, const vec* sources)
+/* Any asterisk has yet to be expanded. This is the index where
+ * the select expression will be once they have been. GROUP BY
+ * matches select expressions without that expansion.
+ */
+size_t _expanded_index(vec* select_exprs, expression* match, query* query)
+{
+	size_t index = 0;
+	expression** it = vec_begin(select_exprs);
+	for (; it != vec_end(select_exprs) && *it != match; ++it) {
+		if ((*it)->expr == EXPR_ASTERISK && query->groupby == NULL) {
+			table* table = vec_at(query->sources, (*it)->src_idx);
+			index += table->schema->expressions->size;
+		} else {
+			++index;
+		}
+	}
+	return index;
+}
+
+int order_preresolve_expressions(order* self, query* query)
 {
 	/* First, we want to try and resolve by ordinal:
 	 * SELECT foo
@@ -123,7 +142,12 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 	 * These were never mapped. Preflight does this.
 	 */
 
+	fqlselect* select = query->op;
 	vec* select_exprs = select->schema->expressions;
+	size_t field_count = select_exprs->size;
+	if (query->groupby == NULL) {
+		field_count = fqlselect_get_field_count(select, query->sources);
+	}
 	schema_preflight(select->schema);
 	multimap* select_map = select->schema->expr_map;
 
@@ -151,11 +175,12 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 			long ordinal = 0;
 			try_(expression_get_int(&ordinal, *it, NULL));
 
-			if (ordinal <= 0 || ordinal > (int)select_exprs->size) {
+			if (ordinal <= 0 || ordinal > (long)field_count) {
 				fprintf(stderr, "Ordinal `%ld' out of range\n", ordinal);
 				return FQL_FAIL;
 			}
-			result = vec_at(select_exprs, ordinal - 1);
+			(*it)->index = ordinal - 1;
+			(*it)->expr = EXPR_REFERENCE;
 			break;
 		}
 		default:;
@@ -166,12 +191,7 @@ int order_preresolve_expressions(order* self, fqlselect* select, const vec* sour
 		if (result == NULL) {
 			continue;
 		}
-		if ((*result)->expr == EXPR_CONST) {
-			table* result_table = vec_at(sources, (*result)->src_idx);
-			expression_link(*it, *result, result_table);
-			continue;
-		}
-		(*it)->index = (*result)->index;
+		(*it)->index = _expanded_index(select_exprs, *result, query);
 		(*it)->expr = EXPR_REFERENCE;
 	}
 
diff --git a/lib/order.h b/lib/order.h
index 9cdb6ff..5704d97 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -9,7 +9,6 @@
 struct query;
 struct expression;
 struct process;
-struct fqlselect;
 struct order;
 struct _entry;
 
@@ -42,7 +41,7 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
-int order_preresolve_expressions(struct order*, struct fqlselect*, const struct vec*);
+int order_preresolve_expressions(struct order*, struct query*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
 
diff --git a/lib/schema.c b/lib/schema.c
index d65dd62..ec6e82e 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1235,9 +1235,7 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 	vec* order_exprs = NULL;
 	if (aquery->orderby) {
 		order_exprs = &aquery->orderby->expressions;
-		try_(order_preresolve_expressions(aquery->orderby,
-		                                  aquery->op,
-		                                  aquery->sources));
+		try_(order_preresolve_expressions(aquery->orderby, aquery));
 		try_(_assign_expressions(order_exprs,
 		                         aquery->sources,
 		                         fql->props.strictness));
-- 
2.43.0


From 7d8b5be9f1d4fccc99131056242ba021c333289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:02 +0000
Subject: [PATCH 018/109] fix: UNION ALL branches with WHERE or HAVING used a
 process that was already freed

---
 lib/fqlplan.c      |  6 +++++-
 lib/fqlprocesses.c | 37 +++++++++++++++++++++++++++++++++----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index a5e90e4..9ffbbfa 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -538,7 +538,11 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 		process* false_proc = self->op_false->data;
 		false_proc->is_passive = true;
 		process* prev_proc = prev->data;
-		if (!prev_proc->is_passive) {
+		if (!prev_proc->is_passive || !vec_empty(query->sources)) {
+			/* Logic ends in a passive node. Keep it so
+			 * there is one node to collect records from.
+			 */
+			prev_proc->is_passive = false;
 			self->current = prev;
 			return FQL_GOOD;
 		}
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index d1f06e0..417ded7 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1352,10 +1352,39 @@ enum proc_return fql_orderby(process* proc)
 	return ret;
 }
 
+/* Hand every record to the next process as it is. */
 enum proc_return fql_no_op(process* proc)
 {
-	return PROC_RETURN_FAIL;
-	//node** rg = fifo_get_or_wait(proc->fifo_in[0]);
-	//fifo_add(proc->fifo_out[0], rg);
-	//return PROC_RETURN_COMPLETE;
+	fifo* in = proc->fifo_in[0];
+	fifo* out = proc->fifo_out[0];
+	if (!out->is_open) {
+		return PROC_RETURN_COMPLETE;
+	}
+
+	if (fifo_is_empty(in)) {
+		if (!in->is_open) {
+			return PROC_RETURN_COMPLETE;
+		}
+		return PROC_RETURN_WAIT_ON_IN0;
+	}
+
+	if (!fifo_receivable(out)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
+
+	////
+
+	enum proc_return ret = PROC_RETURN_WAIT_ON_IN0;
+
+	node** rg_iter = fifo_begin(in);
+	while (rg_iter != fifo_end(in)) {
+		fifo_add(out, rg_iter);
+		rg_iter = fifo_iter(in);
+		if (!fifo_receivable(out)) {
+			ret = PROC_RETURN_WAIT_ON_OUT0;
+			break;
+		}
+	}
+	fifo_update(in);
+	return ret;
 }
-- 
2.43.0


From d9451570f050462378cb33ede1bf11f9791a59b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 019/109] fix: CASE and subqueries in the select list of a
 UNION ALL branch were never set up

---
 lib/fqlplan.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 9ffbbfa..fd27178 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -544,6 +544,10 @@ int _operation(plan* self, query* query, fqlhandle* fql, dnode* entry, bool is_u
 			 */
 			prev_proc->is_passive = false;
 			self->current = prev;
+			_check_all_for_special_expression(
+			        self,
+			        prev_proc,
+			        op_get_expressions(query->op));
 			return FQL_GOOD;
 		}
 	}
@@ -583,7 +587,7 @@ int _union(plan* self, query* aquery, fqlhandle* fql)
 		try_(_build(*it, fql, NULL, true));
 		plan* union_plan = (*it)->plan;
 		vec_push_back(select_proc->union_end_nodes, &union_plan->current);
-		if (!union_plan->is_const) {
+		if (union_plan->current != union_plan->op_true) {
 			process* union_true = union_plan->op_true->data;
 			union_true->is_passive = true;
 		}
-- 
2.43.0


From 3e5d829388d421a562a9a59656882eff9f274411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 020/109] fix: a table list without a join condition
 dereferenced NULL

---
 lib/fqlplan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index fd27178..fa22344 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -373,7 +373,8 @@ int _from(plan* self, query* query, fqlhandle* fql)
 	for (++table_iter; table_iter != vec_end(query->sources); ++table_iter) {
 
 		process* join_proc = NULL;
-		bool is_hash_join = (table_iter->condition->join_logic != NULL);
+		bool is_hash_join = (table_iter->condition != NULL
+		                     && table_iter->condition->join_logic != NULL);
 		if (is_hash_join) {
 			join_proc = _new_join_proc(table_iter->join_type, "hash", self);
 			join_proc->fifo_aux_root = (void*)1;
-- 
2.43.0


From fa8e75a26dd1dc03d15a588c4d2a77173a0dc398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:27 +0000
Subject: [PATCH 021/109] fix: subquery sources stopped after the first branch
 of a UNION ALL

---
 lib/query.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index b2a7d6a..d76eb09 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -746,6 +746,8 @@ int query_exit_union(query* self, query* union_query)
 	 */
 	fqlselect* select = self->op;
 	node_enqueue(&select->union_selects, union_query->op);
+	/* a subquery source starts without being reset */
+	select->_union_node = select->union_selects;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From db641fc5bbc31464212d05f388bbc765d1d6e7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 022/109] fix: an out of range pipe factor is adjusted as
 announced

---
 lib/libfql.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index 1a10fa8..89dbb7f 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -359,7 +359,7 @@ void fql_set_pipe_factor(fqlhandle* fql, int pipe_factor)
 		applied_pipe_factor = PIPE_FACTOR_MAX;
 	}
 
-	fql->props.pipe_factor = pipe_factor;
+	fql->props.pipe_factor = applied_pipe_factor;
 	if (applied_pipe_factor != pipe_factor) {
 		fprintf(stderr,
 		        "Invalid pipe factor `%d'. Applied `%d'\n",
-- 
2.43.0


From aca14bf424920bc86616f79c7f9c9117e76ca051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 023/109] fix: joins on expressions of both sides were hashed
 as if they only read one

---
 lib/schema.c | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index ec6e82e..01e50c0 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -755,6 +755,25 @@ int _resolve_asterisk(vec* expressions, vec* sources)
 	return FQL_GOOD;
 }
 
+enum join_side _get_join_side(expression* expr, int right_idx);
+
+enum join_side
+_get_all_join_sides(vec* expressions, enum join_side side0, int right_idx)
+{
+	expression** it = vec_begin(expressions);
+	for (; it != vec_end(expressions); ++it) {
+		enum join_side side1 = _get_join_side(*it, right_idx);
+		if (side0 == SIDE_UNDEF) {
+			side0 = side1;
+		} else if (side1 == SIDE_UNDEF) {
+			continue;
+		} else if (side0 != side1) {
+			return SIDE_MIXED;
+		}
+	}
+	return side0;
+}
+
 enum join_side _get_join_side(expression* expr, int right_idx)
 {
 	switch (expr->expr) {
@@ -768,21 +787,17 @@ enum join_side _get_join_side(expression* expr, int right_idx)
 			return (expr->subquery_src_idx < right_idx) ? SIDE_LEFT
 			                                            : SIDE_RIGHT;
 		}
-	case EXPR_FUNCTION: {
-		function* func = expr->field.fn;
-		expression** it = vec_begin(func->args);
-		enum join_side side0 = SIDE_UNDEF;
-		for (; it != vec_end(func->args); ++it) {
-			enum join_side side1 = _get_join_side(*it, right_idx);
-			if (side0 == SIDE_UNDEF) {
-				side0 = side1;
-			} else if (side1 == SIDE_UNDEF) {
-				continue;
-			} else if (side0 != side1) {
-				return SIDE_MIXED;
-			}
+	case EXPR_FUNCTION:
+		return _get_all_join_sides(expr->field.fn->args, SIDE_UNDEF, right_idx);
+	case EXPR_SWITCH_CASE: {
+		switchcase* sc = expr->field.sc;
+		enum join_side side =
+		        _get_all_join_sides(&sc->values, SIDE_UNDEF, right_idx);
+		logicgroup** it = vec_begin(&sc->tests);
+		for (; it != vec_end(&sc->tests); ++it) {
+			side = _get_all_join_sides((*it)->expressions, side, right_idx);
 		}
-		return side0;
+		return side;
 	}
 	default:
 		return SIDE_UNDEF;
@@ -804,6 +819,9 @@ void _resolve_join_conditions(table* right_table, int right_idx)
 			continue;
 		}
 		enum join_side side1 = _get_join_side((*it)->expr[1], right_idx);
+		if (side1 == SIDE_MIXED) {
+			continue;
+		}
 		if (side0 != side1) {
 			if (!logic_can_be_false(right_table->condition, *it)) {
 				right_table->condition->join_logic = *it;
-- 
2.43.0


From 70a23b58bf84173cbe68f64f1d6284e9bd5c1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 024/109] fix: fifo_nget handed out stale entries when less
 than a block was available

---
 util/fifo.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/util/fifo.c b/util/fifo.c
index a4c5639..1b01bd3 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -156,6 +156,11 @@ int fifo_nget(fifo* restrict self,
 	}
 	unsigned transfer_count = (available > max) ? max : available;
 	transfer_count -= transfer_count % block_size;
+	if (transfer_count == 0) {
+		/* less than a block: leave it where it is */
+		pthread_mutex_unlock(&self->tail_mutex);
+		return available;
+	}
 	unsigned new_tail = (self->tail + transfer_count) % self->buf->size;
 
 	if (new_tail == 0 || new_tail > self->tail) {
-- 
2.43.0


From e2c330cacda55b12f76e856422324324722f0e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 025/109] fix: joins added records to a pipe that was already
 full, which emptied it

---
 lib/fqlprocesses.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 417ded7..d72e46f 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -303,6 +303,10 @@ enum proc_return fql_cartesian_join(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
+	if (!fifo_receivable(out)) {
+		return PROC_RETURN_WAIT_ON_OUT0;
+	}
+
 	table* table = proc->proc_data;
 	reader* reader = table->reader;
 
@@ -627,7 +631,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		return PROC_RETURN_WAIT_ON_IN0;
 	}
 
-	if (!out_true && !fifo_receivable(out_true)) {
+	if (out_true && !fifo_receivable(out_true)) {
 		return PROC_RETURN_WAIT_ON_OUT1;
 	}
 
@@ -657,7 +661,7 @@ enum proc_return fql_left_join_logic(process* proc)
 		fifo_add(out_true, rg_iter);
 
 		rg_iter = fifo_iter(in);
-		if (!out_true && !fifo_receivable(out_true)) {
+		if (out_true && !fifo_receivable(out_true)) {
 			ret = PROC_RETURN_WAIT_ON_OUT1;
 			break;
 		}
-- 
2.43.0


From 43ca3068d058f8d9424a0e8042abf4c831d739bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:38 +0000
Subject: [PATCH 026/109] fix: subquery columns made of CASE or nested
 functions shared one buffer between rows

---
 lib/subquery.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/subquery.c b/lib/subquery.c
index cfa7347..f8adc5c 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -58,8 +58,19 @@ int subquery_get_record(reader* reader, node* rg)
 		}
 
 		switch ((*it)->expr) {
-		case EXPR_GROUPING:
-		case EXPR_FUNCTION: {
+		case EXPR_CONST:
+			break;
+		case EXPR_COLUMN_NAME:
+		case EXPR_FULL_RECORD:
+			/* This refers to data which belongs to the record,
+			 * unless that record came from a subquery. Then,
+			 * its strings get recycled with it.
+			 */
+			if ((*it)->subquery_src_idx == -1) {
+				break;
+			}
+			/* fall through */
+		default: {
 			/* NOTE: we actually need to copy some data here
 			 *       functions own their buffers because they
 			 *       only exist within their *clause*. Consider:
@@ -88,8 +99,6 @@ int subquery_get_record(reader* reader, node* rg)
 			*copy_sv = (stringview) {s->data, s->size};
 			break;
 		}
-		default:
-			break;
 		}
 	}
 
-- 
2.43.0


From 351ec97531f410df7de52951112414fa53225379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:51 +0000
Subject: [PATCH 027/109] fix: integer arithmetic at the limits and modulo by
 zero crashed or wrapped

---
 lib/misc.h     | 62 +++++++++-----------------------------------------
 lib/scalarfn.c | 13 ++++++++++-
 2 files changed, 23 insertions(+), 52 deletions(-)

diff --git a/lib/misc.h b/lib/misc.h
index 60d8c4e..a5a0969 100644
--- a/lib/misc.h
+++ b/lib/misc.h
@@ -35,63 +35,23 @@
 		ret_;                     \
 	})
 
-#define overflow_safe_add_i(n0_, n1_)                                    \
+#define overflow_safe_op_(builtin_, n0_, n1_)                            \
 	({                                                               \
-		if (n0_ > 0 && n1_ > 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)n1_           \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ < 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)-n1_  \
-		                      > (unsigned long)LONG_MAX + 1) {   \
+		long safe_result_ = 0;                                   \
+		if (builtin_(n0_, n1_, &safe_result_)) {                 \
 			fputs("arithmetic overflow detected\n", stderr); \
 			return FQL_FAIL;                                 \
 		}                                                        \
-		n0_ + n1_;                                               \
+		safe_result_;                                            \
 	})
 
-#define overflow_safe_minus_i(n0_, n1_)                                  \
-	({                                                               \
-		if (n0_ > 0 && n1_ < 0                                   \
-		    && (unsigned long)n0_ + (unsigned long)-n1_          \
-		               > (unsigned long)LONG_MAX) {              \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		} else if (n0_ < 0 && n1_ > 0                            \
-		           && (unsigned long)-n0_ + (unsigned long)n1_   \
-		                      > (unsigned long)LONG_MAX + 1) {   \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		}                                                        \
-		n0_ - n1_;                                               \
-	})
+#define overflow_safe_add_i(n0_, n1_) \
+	overflow_safe_op_(__builtin_add_overflow, n0_, n1_)
 
-#define overflow_safe_multiply_i(n0_, n1_)                               \
-	({                                                               \
-		unsigned long u0_ = 0;                                   \
-		unsigned long u1_ = 0;                                   \
-		bool neg_ = false;                                       \
-		if (n0_ < 0) {                                           \
-			u0_ = n0_ * -1;                                  \
-			neg_ = true;                                     \
-		} else {                                                 \
-			u0_ = n0_;                                       \
-		}                                                        \
-		if (n1_ < 0) {                                           \
-			u1_ = n1_ * -1;                                  \
-			neg_ = !neg_;                                    \
-		} else {                                                 \
-			u1_ = n1_;                                       \
-		}                                                        \
-		unsigned long result_ = u0_ * u1_;                       \
-		if (u0_ != 0                                             \
-		    && (result_ / u0_ != u1_                             \
-		        || result_ > (unsigned long)LONG_MAX + neg_)) {  \
-			fputs("arithmetic overflow detected\n", stderr); \
-			return FQL_FAIL;                                 \
-		}                                                        \
-		(neg_) ? -1 * result_ : result_;                         \
-	})
+#define overflow_safe_minus_i(n0_, n1_) \
+	overflow_safe_op_(__builtin_sub_overflow, n0_, n1_)
+
+#define overflow_safe_multiply_i(n0_, n1_) \
+	overflow_safe_op_(__builtin_mul_overflow, n0_, n1_)
 
 #endif /* MISC_H */
diff --git a/lib/scalarfn.c b/lib/scalarfn.c
index 2e67ea5..0765ac0 100644
--- a/lib/scalarfn.c
+++ b/lib/scalarfn.c
@@ -486,6 +486,11 @@ int fql_op_divi_i(function* fn, union field* ret, node* rg)
 		return FQL_FAIL;
 	}
 
+	if (n0 == LONG_MIN && n1 == -1) {
+		fputs("arithmetic overflow detected\n", stderr);
+		return FQL_FAIL;
+	}
+
 	ret->i = n0 / n1;
 
 	return FQL_GOOD;
@@ -517,7 +522,13 @@ int fql_op_mod_i(function* fn, union field* ret, node* rg)
 	try_deref_(expression_get_int(&n0, args[0], rg));
 	try_deref_(expression_get_int(&n1, args[1], rg));
 
-	ret->i = n0 % n1;
+	if (n1 == 0) {
+		fputs("division by zero\n", stderr);
+		return FQL_FAIL;
+	}
+
+	/* LONG_MIN % -1 traps */
+	ret->i = (n1 == -1) ? 0 : n0 % n1;
 
 	return FQL_GOOD;
 }
-- 
2.43.0


From 075d208251e2e20965b6056b690f0469696d9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 028/109] fix: a NULL in an IN list hid the matches after it

---
 lib/fqllogic.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 6090b63..1f0ef68 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -184,7 +184,9 @@ int fql_logic_in_i(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		long n1 = 0;
-		try_logic_deref_(expression_get_int(&n1, *it, rg));
+		if (try_(expression_get_int(&n1, *it, rg)) == FQL_NULL) {
+			continue; /* no value is equal to NULL */
+		}
 		if (n0 == n1) {
 			return true;
 		}
@@ -202,7 +204,9 @@ int fql_logic_in_f(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		double n1 = 0;
-		try_logic_deref_(expression_get_float(&n1, *it, rg));
+		if (try_(expression_get_float(&n1, *it, rg)) == FQL_NULL) {
+			continue; /* no value is equal to NULL */
+		}
 		if (n1 == n0) {
 			return true;
 		}
@@ -220,7 +224,9 @@ int fql_logic_in_s(logic* self, node* rg)
 	expression** it = vec_begin(list_vec);
 	for (; it != vec_end(list_vec); ++it) {
 		stringview sv1;
-		try_logic_deref_(expression_get_stringview(&sv1, *it, rg));
+		if (try_(expression_get_stringview(&sv1, *it, rg)) == FQL_NULL) {
+			continue; /* no value is equal to NULL */
+		}
 		if (!stringview_compare_nocase_rtrim(&sv0, &sv1)) {
 			return true;
 		}
-- 
2.43.0


From a03fdd9bfbc8e4407df8b7e6bb0a991ae11a23a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:22 +0000
Subject: [PATCH 029/109] fix: a LIKE pattern read per row kept the sets of the
 first one; line breaks match wildcards

---
 lib/fqllogic.c |  2 +-
 lib/like.c     | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 1f0ef68..b540d7f 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -264,7 +264,7 @@ int fql_logic_like(logic* self, node* rg)
 	if (self->expr[1]->expr != EXPR_CONST) {
 		stringview sv1;
 		try_logic_deref_(expression_get_stringview(&sv1, self->expr[1], rg));
-		like_to_regex(self->like_data, sv1);
+		try_(like_to_regex(self->like_data, sv1));
 	}
 	int match_ret = pcre2_match(self->like_data->regex,
 	                            (PCRE2_SPTR)sv0.data,
diff --git a/lib/like.c b/lib/like.c
index 252211f..1632799 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -119,6 +119,18 @@ int like_to_regex(like* self, const stringview sql_like)
 {
 	//fprintf(stderr, "LIKE: %.*s\n", sql_like.len, sql_like.data);
 
+	/* a pattern that is not constant comes here for every record */
+	string* it = vec_begin(&self->ranges);
+	for (; it != vec_end(&self->ranges); ++it) {
+		string_destroy(it);
+	}
+	vec_clear(&self->ranges);
+	if (self->regex != NULL) {
+		pcre2_match_data_free(self->match);
+		pcre2_code_free(self->regex);
+		self->regex = NULL;
+	}
+
 	string* likebuf = &self->like_buffer;
 	string_copy_from_stringview(likebuf, &sql_like);
 	string_find_replace(likebuf, "\\", "\\\\");
@@ -150,7 +162,8 @@ int like_to_regex(like* self, const stringview sql_like)
 	PCRE2_SIZE pcre_error_offset = 0;
 	self->regex = pcre2_compile((PCRE2_SPTR)string_c_str(&self->regex_buffer),
 	                            self->regex_buffer.size,
-	                            PCRE2_CASELESS,
+	                            PCRE2_CASELESS | PCRE2_DOTALL
+	                                    | PCRE2_DOLLAR_ENDONLY,
 	                            &pcre_error,
 	                            &pcre_error_offset,
 	                            NULL);
-- 
2.43.0


From 4f23e1c5f377be3dfa724b16aa396b38465adacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:54 +0000
Subject: [PATCH 030/109] fix: a scalar subquery that begins with NULL accepted
 a second value

---
 lib/fqlselect.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 3b5df2a..04eb8fe 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -498,8 +498,8 @@ int _select_record_to_list(fqlselect* self, node* rg)
 
 int _select_record_to_const(fqlselect* self, node* rg)
 {
-	++self->rownum;
-	if (self->const_dest->expr == EXPR_CONST) {
+	/* the first value may have been NULL */
+	if (self->rownum++ > 0) {
 		fputs("subquery returned more than 1 value as expression\n", stderr);
 		return FQL_FAIL;
 	}
@@ -528,9 +528,10 @@ int _select_record_to_const(fqlselect* self, node* rg)
 		return 1;
 	}
 	case FIELD_STRING: {
-		stringview sv;
+		stringview sv = {0};
 		if (try_(expression_get_stringview(&sv, expr, rg)) == FQL_NULL) {
 			self->const_dest->expr = EXPR_NULL;
+			return 1;
 		}
 		string_copy_from_stringview(&self->const_dest->buf, &sv);
 		self->const_dest->field.s = &self->const_dest->buf;
-- 
2.43.0


From d2b3337831126ae2103bf23968ae157645e3034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:07 +0000
Subject: [PATCH 031/109] fix: hash joins matched NULL keys, and told 0 from -0
 as IN (subquery) did

---
 lib/fqllogic.c     |  1 +
 lib/fqlprocesses.c | 24 +++++++++++++++++-------
 lib/fqlselect.c    |  1 +
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index b540d7f..44953f3 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -246,6 +246,7 @@ int fql_logic_subin_f(logic* self, node* rg)
 {
 	double n0 = 0;
 	try_logic_deref_(expression_get_float(&n0, self->expr[0], rg));
+	n0 += 0.0; /* -0 is equal to 0 */
 	return set_nhas(self->in_data->list_data, (char*)&n0, sizeof(n0));
 }
 
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index d72e46f..947075d 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -371,24 +371,29 @@ enum proc_return _hash_join_right_side(process* proc, table* table, fifo* in_rig
 
 	node** rg_iter = fifo_begin(in_right);
 	for (; rg_iter != fifo_end(in_right); rg_iter = fifo_iter(in_right)) {
+		int get_ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
+			get_ret = try_(expression_get_int(&int_hold, hj->right_expr, *rg_iter));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			get_ret = try_(expression_get_float(&float_hold, hj->right_expr, *rg_iter));
+			float_hold += 0.0; /* -0 is equal to 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
+			get_ret = try_(expression_get_stringview(&sv, hj->right_expr, *rg_iter));
 			break;
 		default:
 			return PROC_RETURN_FAIL;
 		}
 
 		record* rec = (*rg_iter)->data;
-		multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		/* NULL is never equal to anything */
+		if (get_ret != FQL_NULL) {
+			multimap_nset(hj->hash_data, sv.data, &rec->offset, sv.len);
+		}
 
 		fqlprocess_recycle(proc, rg_iter);
 		_fqlprocess_print_iter_states(proc, rec->node_idx);
@@ -406,22 +411,27 @@ long _hash_join_left_side(process* proc, table* table, node* left_rg)
 		long int_hold = 0;
 		double float_hold = 0;
 		stringview sv;
+		int get_ret = FQL_GOOD;
 		switch (hj->comp_type) {
 		case FIELD_INT:
-			try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
+			get_ret = try_(expression_get_int(&int_hold, hj->left_expr, left_rg));
 			stringview_nset(&sv, &int_hold, sizeof(int_hold));
 			break;
 		case FIELD_FLOAT:
-			try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			get_ret = try_(expression_get_float(&float_hold, hj->left_expr, left_rg));
+			float_hold += 0.0; /* -0 is equal to 0 */
 			stringview_nset(&sv, &float_hold, sizeof(float_hold));
 			break;
 		case FIELD_STRING:
-			try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
+			get_ret = try_(expression_get_stringview(&sv, hj->left_expr, left_rg));
 			break;
 		default:
 			return FQL_FAIL;
 		}
 
+		if (get_ret == FQL_NULL) {
+			return -1;
+		}
 		hj->recs = multimap_nget(hj->hash_data, sv.data, sv.len);
 		if (hj->recs == NULL) {
 			return -1;
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 04eb8fe..4993bb2 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -471,6 +471,7 @@ int _select_record_to_list(fqlselect* self, node* rg)
 		if (try_(expression_get_int(&num, expr, rg)) == FQL_NULL) {
 			return 1;
 		}
+		num += 0.0; /* -0 is equal to 0 */
 		set_nadd(list, (char*)&num, sizeof(num));
 		return 1;
 	}
-- 
2.43.0


From be62453f724d01cbdfa0c19c842fe199e46a0823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:48 +0000
Subject: [PATCH 032/109] fix: LEFT JOIN with further conditions returned the
 left row for every match that failed them

---
 lib/fqlprocesses.c | 26 +++++++++++++++++++++-----
 lib/process.h      |  1 +
 lib/record.h       |  3 +++
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 947075d..1b08f20 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -517,6 +517,8 @@ enum proc_return fql_hash_join(process* proc)
 		node** right_rg = fifo_get_or_wait(proc->fifo_aux_root);
 		record* right_rec = (*right_rg)->data;
 		right_rec->src_idx = proc->out_src_count - 1;
+		right_rec->first_match = (hj->rec_idx == 1);
+		right_rec->last_match = (hj->recs == NULL);
 		reader* reader = table->reader;
 		try_(reader->get_record_at__(reader, *right_rg, offset));
 
@@ -656,19 +658,33 @@ enum proc_return fql_left_join_logic(process* proc)
 		/* If the right-most expected node is missing,
 		 * these records have already failed a hash join.
 		 */
-		if (record_at(*rg_iter, proc->out_src_count - 1) != NULL) {
-			if (!try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {
-				/* our condition failed, but we still want to pass
-				 * it on. Chop off right-most node and recycle it.
+		record* right_rec = record_at(*rg_iter, proc->out_src_count - 1);
+		bool keep = true;
+		if (right_rec != NULL) {
+			if (right_rec->first_match) {
+				proc->left_matched = false;
+			}
+			if (try_(logicgroup_eval(lg, *rg_iter, lg->join_logic))) {
+				proc->left_matched = true;
+			} else if (right_rec->last_match && !proc->left_matched) {
+				/* our condition failed for every match, but we
+				 * still want to pass on the left side. Chop off
+				 * right-most node and recycle it.
 				 */
 				node* right_side = node_back(*rg_iter);
 				//node_export(right_side);
 				fqlprocess_recycle(proc, &right_side);
+			} else {
+				keep = false;
 			}
 		}
 
 		_fqlprocess_print_iter_states(proc, -1);
-		fifo_add(out_true, rg_iter);
+		if (keep) {
+			fifo_add(out_true, rg_iter);
+		} else {
+			fqlprocess_recycle(proc, rg_iter);
+		}
 
 		rg_iter = fifo_iter(in);
 		if (out_true && !fifo_receivable(out_true)) {
diff --git a/lib/process.h b/lib/process.h
index 8ef4e49..e64d2b8 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -53,6 +53,7 @@ struct process {
 	bool has_second_input;        /* will activate fifo_in[1] */
 	bool wait_for_in0;            /* allow start before in0 populated */
 	bool in0_always_dead;         /* wait_for_in0 will stay false on reset */
+	bool left_matched;            /* LEFT JOIN: the left side had a match */
 };
 typedef struct process process;
 
diff --git a/lib/record.h b/lib/record.h
index fa2cafe..fdb2216 100644
--- a/lib/record.h
+++ b/lib/record.h
@@ -4,6 +4,7 @@
 #include <inttypes.h>
 #include <csv.h>
 #include <stdint.h>
+#include <stdbool.h>
 #include <sys/types.h>
 #include "util/vec.h"
 #include "util/node.h"
@@ -27,6 +28,8 @@ struct record {
 	unsigned max_subquery_count;
 	unsigned max_group_count;
 	unsigned root_fifo_idx;
+	bool first_match; /* of the left side of a hash join */
+	bool last_match;
 };
 typedef struct record record;
 
-- 
2.43.0


From 0a81f5ef8644984d92db86ddfe787cecb0b9c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:41 +0000
Subject: [PATCH 033/109] fix: a table behind a comma was joined like the LEFT
 JOIN before it

---
 lib/antlr/listenerinterface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 5713320..5a81a14 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -353,6 +353,7 @@ void ListenerInterface::enterJoin_on(TSqlParser::Join_onContext* ctx)
 void ListenerInterface::exitJoin_on(TSqlParser::Join_onContext* ctx)
 {
 	_query->logic_mode = LOGIC_UNDEFINED;
+	_query->join = JOIN_FROM; /* for a source behind a comma */
 }
 
 
-- 
2.43.0


From 334ec4d8d6ba3210af058f8cb64052537201a854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:14 +0000
Subject: [PATCH 034/109] fix: cartesian joins behind a LEFT JOIN ran off the
 end of their input buffer

---
 lib/fqlprocesses.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 1b08f20..61b6382 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -91,10 +91,14 @@ void _fqlprocess_print_iter_states(process* proc, int idx)
 
 int _fill_inbuf(process* proc, fifo* input)
 {
-	if (proc->inbuf_iter != vec_end(proc->inbuf)) {
+	/* Record groups that went through a LEFT JOIN vary in size, so
+	 * there may be too few records left for another group.
+	 */
+	size_t remain = (node**)vec_end(proc->inbuf) - proc->inbuf_iter;
+	if (remain >= proc->out_src_count) {
 		return 1;
 	}
-	vec_clear(proc->inbuf);
+	vec_erase(proc->inbuf, vec_begin(proc->inbuf), proc->inbuf->size - remain);
 	int ret =
 	        fifo_nget(input, proc->inbuf, proc->out_src_count, proc->fifo_base_size);
 	proc->inbuf_iter = vec_begin(proc->inbuf);
@@ -316,7 +320,7 @@ enum proc_return fql_cartesian_join(process* proc)
 
 	//node** iter_left = fifo_begin(in_left);
 	node** iter_left = fifo_peek(in_left);
-	while (proc->inbuf_iter != vec_end(proc->inbuf)) {
+	while ((node**)vec_end(proc->inbuf) - proc->inbuf_iter >= proc->out_src_count) {
 		record* rec = (*proc->inbuf_iter)->data;
 		rec->src_idx = table->idx;
 
-- 
2.43.0


From 32618f8ef865803ddad885227bb9d63a34a11db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 035/109] fix: DELETE TOP deleted every row instead of being
 refused

---
 lib/antlr/listenerinterface.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 5a81a14..facb431 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -663,6 +663,9 @@ void ListenerInterface::exitSelect_statement(TSqlParser::Select_statementContext
 
 void ListenerInterface::enterDelete_statement(TSqlParser::Delete_statementContext * ctx)
 {
+	if (ctx->TOP()) {
+		_no_impl("TOP", ctx->getRuleIndex());
+	}
 	_operation = FQL_DELETE;
 	if (query_init_op(_query, _query_stack, _operation)) {
 		_set_failure();
@@ -688,6 +691,9 @@ void ListenerInterface::exitDelete_statement_from(TSqlParser::Delete_statement_f
 
 void ListenerInterface::enterUpdate_statement(TSqlParser::Update_statementContext * ctx)
 {
+	if (ctx->TOP()) {
+		_no_impl("TOP", ctx->getRuleIndex());
+	}
 	_query->mode = MODE_UPDATELIST;
 	_operation = FQL_UPDATE;
 	if (query_init_op(_query, _query_stack, _operation)) {
-- 
2.43.0


From 3bfbcf3ef44e32a3b6e35fde26e274e96a4a77e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:44 +0000
Subject: [PATCH 036/109] fix: joined UPDATE and DELETE lost rows that an ON or
 WHERE condition dropped; DELETE reported 0 rows affected

---
 lib/fqldelete.c    |  50 ++++---
 lib/fqldelete.h    |   7 +-
 lib/fqlprocesses.c | 356 +++++++++++----------------------------------
 lib/fqlupdate.c    |  44 +++---
 lib/fqlupdate.h    |   6 +-
 lib/operation.h    |   6 -
 lib/process.h      |   1 +
 lib/reader.c       |  26 ++++
 lib/reader.h       |   1 +
 9 files changed, 177 insertions(+), 320 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index 912d5a8..f944fff 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -1,4 +1,5 @@
 #include "fqldelete.h"
+#include "misc.h"
 #include "expression.h"
 #include "process.h"
 #include "util.h"
@@ -18,7 +19,6 @@ fqldelete* fqldelete_construct(fqldelete* self)
 	        .undelete__ = &_delete_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
@@ -34,13 +34,19 @@ void fqldelete_destroy(fqldelete* self)
 	}
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
+	if (self->scan != NULL) {
+		delete_(record, self->scan_rg.data);
+		delete_(reader, self->scan);
+	}
 }
 
 int fqldelete_reset(fqldelete* self)
 {
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
-	self->delete_idx = 0;
+
+	if (self->scan != NULL) {
+		try_(reader_reopen(self->scan));
+	}
 
 	return FQL_GOOD;
 }
@@ -70,7 +76,13 @@ int fqldelete_apply_process(query* query, plan* plan)
 		string_strcpy(proc->plan_msg, "DELETE");
 
 		proc = plan->op_true->data;
-		proc->is_passive = true;
+		if (query->where == NULL) {
+			proc->is_passive = true;
+		} else {
+			/* the matches only need to be counted */
+			proc->action__ = &fql_delete_match;
+			string_strcpy(proc->plan_msg, "DELETE MATCH");
+		}
 
 		writer_set_delimiter(self->writer, self->schema->delimiter);
 		writer_set_rec_terminator(self->writer, self->schema->rec_terminator);
@@ -82,20 +94,22 @@ int fqldelete_apply_process(query* query, plan* plan)
 		return FQL_FAIL;
 	}
 
-	/* At this point, we are dealing with a join */
-	process* delete_filter_proc = new_(process, "DELETE FILTER", plan);
-	delete_filter_proc->action__ = &fql_delete_filter;
-	delete_filter_proc->proc_data = self;
-	delete_filter_proc->is_dual_link = true;
-	delete_filter_proc->has_second_input = true;
-	dnode* filter_node = dgraph_add_data(plan->processes, delete_filter_proc);
-
-	plan->op_false->out[0] = filter_node;
-	plan->op_true->out[0] = filter_node;
-
-	process* proc = plan->op_false->data;
-	proc->is_passive = true;
-	proc = plan->op_true->data;
+	/* At this point, we are dealing with a join. The matches
+	 * decide which rows to delete, and the rest of the table
+	 * is copied by reading it a second time.
+	 */
+	table* target = vec_begin(query->sources);
+	self->scan = new_(reader);
+	self->scan_rg.data = new_(record, 0);
+	((record*)self->scan_rg.data)->src_idx = self->table_idx;
+	try_(reader_copy(self->scan, target, plan->fql_ref));
+
+	process* proc = plan->op_true->data;
+	proc->action__ = &fql_delete_filter;
+	proc->proc_data = self;
+	string_strcpy(proc->plan_msg, "DELETE FILTER");
+
+	proc = plan->op_false->data;
 	proc->is_passive = true;
 
 	writer_set_delimiter(self->writer, self->schema->delimiter);
diff --git a/lib/fqldelete.h b/lib/fqldelete.h
index 24b7a6a..f8fda5d 100644
--- a/lib/fqldelete.h
+++ b/lib/fqldelete.h
@@ -6,8 +6,9 @@
 #include "fql.h"
 #include "query.h"
 #include "operation.h"
+#include "reader.h"
+#include "util/node.h"
 
-struct node;
 struct fqldelete;
 
 typedef int (*delete_fn)(struct fqldelete*, struct node*);
@@ -17,11 +18,11 @@ struct fqldelete {
 	struct schema* schema;
 	struct writer* writer;
 	delete_fn undelete__;
-	size_t delete_idx;
 	size_t rows_affected;
 	size_t top_count;
 	unsigned table_idx;
-	enum filter_state state;
+	struct reader* scan; /* joins: second reader of the table */
+	struct node scan_rg;
 	bool has_matched_alias;
 };
 typedef struct fqldelete fqldelete;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 61b6382..8ac53db 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -979,161 +979,91 @@ enum proc_return fql_delete(process* proc)
 	return ret;
 }
 
-enum proc_return
-_del_passthrough(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
+/* A match is not written to the new file, so all there is to do is count it. */
+enum proc_return fql_delete_match(process* proc)
 {
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
+	fifo* in = proc->fifo_in[0];
 
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			false_done = true;
-			break;
+	if (fifo_is_empty(in)) {
+		if (in->is_open) {
+			return PROC_RETURN_WAIT_ON_IN0;
 		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		delete->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
+		proc->wait_for_in0 = false;
+		return PROC_RETURN_COMPLETE;
 	}
 
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			if (false_done) {
-				delete->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
+	node** rg_iter = fifo_begin(in);
+	for (; rg_iter != fifo_end(in); rg_iter = fifo_iter(in)) {
+		++proc->rows_affected;
+		fqlprocess_recycle(proc, rg_iter);
 	}
-	fifo_update(in_true);
+	fifo_update(in);
 
-	return ret;
+	return PROC_RETURN_WAIT_ON_IN0;
 }
 
-enum proc_return
-_del_filtering(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
+/* Pass over the untouched rows that come before the given index. */
+static int _write_until(reader* scan, node* rg, size_t idx, int (*write__)(void*, node*), void* op)
 {
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, delete->table_idx);
-		if (rec->rec_idx > delete->delete_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(delete->undelete__(delete, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(delete->undelete__(delete, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		delete->state = FILTER_PASSTHROUGH;
-		_del_passthrough(proc, delete, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
+	while (scan->rec_id < idx) {
+		int ret = try_(scan->get_record__(scan, rg));
+		if (ret != FQL_GOOD) {
 			break;
 		}
-		record* look_ahead_rec = record_at(*look_ahead, delete->table_idx);
-		if (look_ahead_rec->rec_idx > delete->delete_idx) {
-			try_(delete->undelete__(delete, *iter_false));
-			delete->state = FILTER_OPEN;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
+		try_(write__(op, rg));
 	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
+	return FQL_GOOD;
 }
 
-enum proc_return
-_del_open(process* proc, fqldelete* delete, fifo* in_false, fifo* in_true)
+static int _write_undeleted(void* delete, node* rg)
 {
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, delete->table_idx);
-	}
+	return ((fqldelete*)delete)->undelete__(delete, rg);
+}
 
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, delete->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
-		}
-	}
-	if (process_true) {
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		delete->delete_idx = true_rec->rec_idx;
-		delete->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	delete->delete_idx = false_rec->rec_idx;
-	delete->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
+static int _write_unchanged(void* update, node* rg)
+{
+	return ((fqlupdate*)update)->noupdate__(update, rg);
 }
 
+/* What arrives here are the joined records to delete, in the order of the
+ * target table. Everything between them is copied from the table.
+ */
 enum proc_return fql_delete_filter(process* proc)
 {
-	fifo* in_false = proc->fifo_in[0];
-	fifo* in_true = proc->fifo_in[1];
+	fifo* in = proc->fifo_in[0];
+	fqldelete* delete = proc->proc_data;
+	reader* scan = delete->scan;
 
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
+	if (fifo_is_empty(in)) {
+		if (in->is_open) {
+			return PROC_RETURN_WAIT_ON_IN0;
 		}
+		proc->wait_for_in0 = false;
+		try_(_write_until(scan, &delete->scan_rg, -1, &_write_undeleted, delete));
+		try_(writer_close(delete->writer));
+		return PROC_RETURN_COMPLETE;
 	}
 
-	fqldelete* delete = proc->proc_data;
-
 	////
 
-	if (!proc->wait_for_in0) {
-		try_(writer_close(delete->writer));
-		return PROC_RETURN_COMPLETE;
+	node** rg_iter = fifo_begin(in);
+	for (; rg_iter != fifo_end(in); rg_iter = fifo_iter(in)) {
+		record* rec = record_at(*rg_iter, delete->table_idx);
+		if (rec->rec_idx >= scan->rec_id) {
+			try_(_write_until(scan,
+			                  &delete->scan_rg,
+			                  rec->rec_idx,
+			                  &_write_undeleted,
+			                  delete));
+			try_(scan->get_record__(scan, &delete->scan_rg));
+			++proc->rows_affected;
+		}
+		_fqlprocess_print_iter_states(proc, rec->node_idx);
+		fqlprocess_recycle(proc, rg_iter);
 	}
+	fifo_update(in);
 
-	switch (delete->state) {
-	case FILTER_PASSTHROUGH:
-		return _del_passthrough(proc, delete, in_false, in_true);
-	case FILTER_FILTERING:
-		return _del_filtering(proc, delete, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _del_open(proc, delete, in_false, in_true);
-	}
+	return PROC_RETURN_WAIT_ON_IN0;
 }
 
 enum proc_return fql_update(process* proc)
@@ -1196,162 +1126,44 @@ enum proc_return fql_update(process* proc)
 	return ret;
 }
 
-enum proc_return
-_update_passthrough(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
+/* see fql_delete_filter */
+enum proc_return fql_update_filter(process* proc)
 {
-	enum proc_return ret = PROC_RETURN_WAIT_ON_IN_EITHER;
-
-	node** it = fifo_begin(in_false);
-	bool false_done = (it == fifo_end(in_false));
-	for (; it != fifo_end(in_false); it = fifo_iter(in_false)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			false_done = true;
-			break;
-		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
-	}
-	fifo_update(in_false);
-
-	it = fifo_begin(in_true);
-	if (it == fifo_end(in_true)) {
-		update->state = FILTER_OPEN;
-		return PROC_RETURN_RUNNING;
-	}
+	fifo* in = proc->fifo_in[0];
+	fqlupdate* update = proc->proc_data;
+	reader* scan = update->scan;
 
-	for (; it != fifo_end(in_true); it = fifo_iter(in_true)) {
-		record* rec = record_at(*it, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			if (false_done) {
-				update->state = FILTER_OPEN;
-				ret = PROC_RETURN_RUNNING;
-			}
-			break;
+	if (fifo_is_empty(in)) {
+		if (in->is_open) {
+			return PROC_RETURN_WAIT_ON_IN0;
 		}
-		_fqlprocess_print_iter_states(proc, rec->node_idx);
-		fqlprocess_recycle(proc, it);
+		proc->wait_for_in0 = false;
+		try_(_write_until(scan, &update->scan_rg, -1, &_write_unchanged, update));
+		try_(writer_close(update->writer));
+		return PROC_RETURN_COMPLETE;
 	}
-	fifo_update(in_true);
 
-	return ret;
-}
+	////
 
-enum proc_return
-_update_filtering(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	if (fifo_available(in_true)) {
-		node** true_node = fifo_peek(in_true);
-		record* rec = record_at(*true_node, update->table_idx);
-		if (rec->rec_idx > update->update_idx) {
-			node** false_node = fifo_get(in_false);
-			try_(update->noupdate__(update, *false_node));
-			fqlprocess_recycle(proc, false_node);
-		} else {
-			fifo_consume(in_true);
-			try_(update->update__(update, *true_node));
+	node** rg_iter = fifo_begin(in);
+	for (; rg_iter != fifo_end(in); rg_iter = fifo_iter(in)) {
+		record* rec = record_at(*rg_iter, update->table_idx);
+		if (rec->rec_idx >= scan->rec_id) {
+			try_(_write_until(scan,
+			                  &update->scan_rg,
+			                  rec->rec_idx,
+			                  &_write_unchanged,
+			                  update));
+			try_(scan->get_record__(scan, &update->scan_rg));
+			try_(update->update__(update, *rg_iter));
 			++proc->rows_affected;
-			fqlprocess_recycle(proc, true_node);
-		}
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	if (!in_true->is_open) {
-		node** false_node = fifo_get(in_false);
-		try_(update->noupdate__(update, *false_node));
-		fqlprocess_recycle(proc, false_node);
-		update->state = FILTER_PASSTHROUGH;
-		_update_passthrough(proc, update, in_false, in_true);
-		return PROC_RETURN_RUNNING;
-	}
-
-	node** iter_false = fifo_begin(in_false);
-	for (; iter_false != fifo_end(in_false); iter_false = fifo_iter(in_false)) {
-		node** look_ahead = fifo_look_ahead(in_false);
-		if (look_ahead == NULL) {
-			break;
-		}
-		record* look_ahead_rec = record_at(*look_ahead, update->table_idx);
-		if (look_ahead_rec->rec_idx > update->update_idx) {
-			try_(update->noupdate__(update, *iter_false));
-			update->state = FILTER_OPEN;
-		}
-		_fqlprocess_print_iter_states(proc, look_ahead_rec->node_idx);
-		fqlprocess_recycle(proc, iter_false);
-	}
-	fifo_update(in_false);
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return
-_update_open(process* proc, fqlupdate* update, fifo* in_false, fifo* in_true)
-{
-	bool process_true = false;
-
-	node** true_node = NULL;
-	record* true_rec = NULL;
-	node** false_node = NULL;
-	record* false_rec = NULL;
-
-	if (fifo_available(in_false)) {
-		false_node = fifo_peek(in_false);
-		false_rec = record_at(*false_node, update->table_idx);
-	}
-
-	/* If not stable, this can be skipped */
-	if (fifo_available(in_true)) {
-		true_node = fifo_peek(in_true);
-		true_rec = record_at(*true_node, update->table_idx);
-		if (false_node == NULL || true_rec->rec_idx <= false_rec->rec_idx) {
-			process_true = true;
 		}
+		_fqlprocess_print_iter_states(proc, rec->node_idx);
+		fqlprocess_recycle(proc, rg_iter);
 	}
-	if (process_true) {
-		try_(update->update__(update, *true_node));
-		fifo_consume(in_true);
-		fqlprocess_recycle(proc, true_node);
-		++proc->rows_affected;
-		update->update_idx = true_rec->rec_idx;
-		update->state = FILTER_PASSTHROUGH;
-		return PROC_RETURN_RUNNING;
-	}
-	update->update_idx = false_rec->rec_idx;
-	update->state = FILTER_FILTERING;
-	return PROC_RETURN_RUNNING;
-}
-
-enum proc_return fql_update_filter(process* proc)
-{
-	fifo* in_false = proc->fifo_in[0];
-	fifo* in_true = proc->fifo_in[1];
-	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
-			return PROC_RETURN_WAIT_ON_IN_EITHER;
-		} else {
-			proc->wait_for_in0 = false;
-		}
-	}
-
-	fqlupdate* update = proc->proc_data;
-
-	////
-
-	if (!proc->wait_for_in0) {
-		try_(writer_close(update->writer));
-		return PROC_RETURN_COMPLETE;
-	}
+	fifo_update(in);
 
-	switch (update->state) {
-	case FILTER_PASSTHROUGH:
-		return _update_passthrough(proc, update, in_false, in_true);
-	case FILTER_FILTERING:
-		return _update_filtering(proc, update, in_false, in_true);
-	case FILTER_OPEN:
-	default:
-		return _update_open(proc, update, in_false, in_true);
-	}
+	return PROC_RETURN_WAIT_ON_IN0;
 }
 
 enum proc_return fql_orderby(process* proc)
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index 86551c2..ebadb0d 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -1,4 +1,5 @@
 #include "fqlupdate.h"
+#include "misc.h"
 #include "aggregate.h"
 #include "expression.h"
 #include "process.h"
@@ -21,7 +22,6 @@ fqlupdate* fqlupdate_construct(fqlupdate* self)
 	        .noupdate__ = &_noupdate_writer,
 	        .top_count = -1,
 	        .table_idx = -1,
-	        .state = FILTER_OPEN,
 	};
 
 	expression* lol_expr = new_(expression, EXPR_ASTERISK, NULL, "");
@@ -60,15 +60,22 @@ void fqlupdate_destroy(fqlupdate* self)
 	vec_destroy(&self->value_expressions);
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
+	if (self->scan != NULL) {
+		delete_(record, self->scan_rg.data);
+		delete_(reader, self->scan);
+	}
 }
 
 int fqlupdate_reset(fqlupdate* self)
 {
 	self->rownum = 0;
 	self->rows_affected = 0;
-	self->state = FILTER_OPEN;
 	self->update_idx = 0;
 
+	if (self->scan != NULL) {
+		try_(reader_reopen(self->scan));
+	}
+
 	return FQL_GOOD;
 }
 
@@ -122,25 +129,24 @@ int fqlupdate_apply_process(query* query, plan* plan)
 		return FQL_FAIL;
 	}
 
-	/* At this point, we are dealing with a join */
-	process* update_filter_proc = new_(process, "UPDATE FILTER", plan);
-	update_filter_proc->action__ = &fql_update_filter;
-	update_filter_proc->proc_data = self;
-	update_filter_proc->is_dual_link = true;
-	update_filter_proc->has_second_input = true;
-	dnode* filter_node = dgraph_add_data(plan->processes, update_filter_proc);
-
-	plan->op_false->out[0] = filter_node;
-	plan->op_true->out[0] = filter_node;
-
-	process* proc = plan->op_false->data;
-	proc->is_passive = true;
-	proc = plan->op_true->data;
+	/* At this point, we are dealing with a join. The matches
+	 * decide which rows to update, and the rest of the table
+	 * is copied by reading it a second time.
+	 */
+	table* target = vec_begin(query->sources);
+	self->scan = new_(reader);
+	self->scan_rg.data = new_(record, 0);
+	((record*)self->scan_rg.data)->src_idx = self->table_idx;
+	try_(reader_copy(self->scan, target, plan->fql_ref));
+
+	process* proc = plan->op_true->data;
+	proc->action__ = &fql_update_filter;
+	proc->proc_data = self;
+	string_strcpy(proc->plan_msg, "UPDATE FILTER");
+
+	proc = plan->op_false->data;
 	proc->is_passive = true;
 
-	/*** NOTE: UPDATE is becoming op_true!!!! ***/
-	plan->op_true = filter_node;
-
 	writer_set_delimiter(self->writer, self->schema->delimiter);
 	writer_set_rec_terminator(self->writer, self->schema->rec_terminator);
 
diff --git a/lib/fqlupdate.h b/lib/fqlupdate.h
index 82c5cf6..bb71cc1 100644
--- a/lib/fqlupdate.h
+++ b/lib/fqlupdate.h
@@ -6,8 +6,9 @@
 #include "fql.h"
 #include "query.h"
 #include "operation.h"
+#include "reader.h"
+#include "util/node.h"
 
-struct node;
 struct fqlupdate;
 struct expression;
 
@@ -27,7 +28,8 @@ struct fqlupdate {
 	struct vec value_expressions;
 	unsigned table_idx;
 	unsigned rownum;
-	enum filter_state state;
+	struct reader* scan; /* joins: second reader of the table */
+	struct node scan_rg;
 	bool has_matched_alias;
 };
 typedef struct fqlupdate fqlupdate;
diff --git a/lib/operation.h b/lib/operation.h
index 915c1a0..99af8a9 100644
--- a/lib/operation.h
+++ b/lib/operation.h
@@ -9,12 +9,6 @@ struct schema;
 struct writer;
 struct expression;
 
-enum filter_state {
-	FILTER_OPEN,
-	FILTER_PASSTHROUGH,
-	FILTER_FILTERING,
-};
-
 enum fql_operation;
 
 int op_preop(struct query*);
diff --git a/lib/process.h b/lib/process.h
index e64d2b8..d3dbcd1 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -95,6 +95,7 @@ enum proc_return fql_if(struct process*);
 enum proc_return fql_read(struct process*);
 enum proc_return fql_select(struct process*);
 enum proc_return fql_delete(struct process*);
+enum proc_return fql_delete_match(struct process*);
 enum proc_return fql_delete_filter(struct process*);
 enum proc_return fql_update(struct process*);
 enum proc_return fql_update_filter(struct process*);
diff --git a/lib/reader.c b/lib/reader.c
index 82372e9..db8ba33 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -1,5 +1,6 @@
 #include "reader.h"
 
+#include <limits.h>
 #include <sys/types.h>
 #include <csv.h>
 #include "fql.h"
@@ -88,6 +89,31 @@ int reader_assign(reader* self, table* table, struct fqlhandle* fql)
 	}
 }
 
+/* An independent reader of the file behind a table */
+int reader_copy(reader* self, table* table, struct fqlhandle* fql)
+{
+	reader* src = table->reader;
+	if (table->is_stdin) {
+		fputs("Cannot read standard input twice\n", stderr);
+		return FQL_FAIL;
+	}
+
+	self->type = src->type;
+	self->skip_rows = src->skip_rows;
+	self->reclen = src->reclen;
+	self->max_idx = INT_MAX;
+	string_copy(&self->file_name, &src->file_name);
+	try_(reader_assign(self, table, fql));
+
+	if (self->type == IO_LIBCSV) {
+		csv_reader_set_delim(self->reader_data,
+		                     csv_reader_get_delim(src->reader_data));
+	}
+	self->reset__(self);
+
+	return FQL_GOOD;
+}
+
 int reader_reopen(reader* self)
 {
 	switch (self->type) {
diff --git a/lib/reader.h b/lib/reader.h
index 3709584..13d216f 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -43,6 +43,7 @@ struct reader* reader_construct(struct reader*);
 void reader_destroy(struct reader*);
 
 int reader_assign(struct reader*, struct table*, struct fqlhandle*);
+int reader_copy(struct reader*, struct table*, struct fqlhandle*);
 int reader_reopen(struct reader*);
 size_t reader_get_file_size(struct reader*);
 int reader_start_file_backed_input(struct reader*);
-- 
2.43.0


From 8852e07818ec5bd12aa3eac91687d9c7e8d29515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 037/109] fix: threaded runs lost the last records of a pipe

A process looked for records first and for whether its input was closed
second. What arrived between the two was never read.
---
 lib/fqlprocesses.c | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 8ac53db..fc62071 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -89,6 +89,15 @@ void _fqlprocess_print_iter_states(process* proc, int idx)
 }
 #endif
 
+/* Nothing is left in this fifo, and nothing more will arrive. In a threaded
+ * run, a fifo seen empty may have received its last record before it is seen
+ * closed. So, it has to be closed first and empty after that.
+ */
+static bool _is_done(fifo* input)
+{
+	return !input->is_open && fifo_is_empty(input);
+}
+
 int _fill_inbuf(process* proc, fifo* input)
 {
 	/* Record groups that went through a LEFT JOIN vary in size, so
@@ -243,7 +252,7 @@ enum proc_return fql_read(process* proc)
 	fifo* in = proc->fifo_in[0];
 	//if (fifo_is_empty(in) && (proc->root_fifo == 0 || vec_empty(proc->inbuf))) {
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (_is_done(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -301,7 +310,7 @@ enum proc_return fql_cartesian_join(process* proc)
 	fifo* in_right = proc->fifo_in[1];
 
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
+		if (_is_done(in_left)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -469,7 +478,7 @@ enum proc_return fql_hash_join(process* proc)
 
 	if (hj->state == SIDE_RIGHT) {
 		if (fifo_is_empty(in_right)) {
-			if (!in_right->is_open) {
+			if (_is_done(in_right)) {
 				hj->state = SIDE_LEFT;
 				table->reader->reset__(table->reader);
 				return PROC_RETURN_RUNNING;
@@ -488,7 +497,7 @@ enum proc_return fql_hash_join(process* proc)
 	}
 
 	if (fifo_is_empty(in_left)) {
-		if (!in_left->is_open) {
+		if (_is_done(in_left)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -577,7 +586,7 @@ enum proc_return fql_logic(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (_is_done(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -641,7 +650,7 @@ enum proc_return fql_left_join_logic(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (_is_done(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -797,7 +806,7 @@ enum proc_return fql_distinct(process* proc)
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
 		// hmmm... this may be impossible...
-		if (proc->wait_for_in0 && !in->is_open) {
+		if (proc->wait_for_in0 && _is_done(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -877,7 +886,7 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (fifo_is_empty(in)) {
-		if (proc->wait_for_in0 && in->is_open) {
+		if (proc->wait_for_in0 && !_is_done(in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -940,7 +949,7 @@ enum proc_return fql_delete(process* proc)
 	fifo* in = proc->fifo_in[0];
 
 	if (proc->wait_for_in0 && fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (!_is_done(in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -985,7 +994,7 @@ enum proc_return fql_delete_match(process* proc)
 	fifo* in = proc->fifo_in[0];
 
 	if (fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (!_is_done(in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1035,7 +1044,7 @@ enum proc_return fql_delete_filter(process* proc)
 	reader* scan = delete->scan;
 
 	if (fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (!_is_done(in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1072,7 +1081,7 @@ enum proc_return fql_update(process* proc)
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (in_true->is_open || in_false->is_open) {
+		if (!_is_done(in_true) || !_is_done(in_false)) {
 			return PROC_RETURN_WAIT_ON_IN_EITHER;
 		} else {
 			proc->wait_for_in0 = false;
@@ -1134,7 +1143,7 @@ enum proc_return fql_update_filter(process* proc)
 	reader* scan = update->scan;
 
 	if (fifo_is_empty(in)) {
-		if (in->is_open) {
+		if (!_is_done(in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1208,7 +1217,7 @@ enum proc_return fql_no_op(process* proc)
 	}
 
 	if (fifo_is_empty(in)) {
-		if (!in->is_open) {
+		if (_is_done(in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
-- 
2.43.0


From 34614f7e063ebe42c0a6d7c2d0caa0bc084bad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:25 +0000
Subject: [PATCH 038/109] fix: threaded joins could lose track of a record's
 last reference

Reading the count and decrementing it were two steps.
---
 lib/fqlprocesses.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index fc62071..0ea026f 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -144,10 +144,9 @@ void fqlprocess_recycle(process* proc, node** rg)
 		 */
 		if (rec->rec_copy_node != NULL) {
 			record* rec_src = rec->rec_copy_node->data;
-			if (rec_src->ref_count - 1 == 0) {
+			if (--rec_src->ref_count == 0) {
+				rec_src->ref_count = 1;
 				fqlprocess_recycle(proc, &rec->rec_copy_node);
-			} else {
-				--rec_src->ref_count;
 			}
 			rec->rec_copy_node = NULL; /* redundant? */
 		}
-- 
2.43.0


From 23c72716699a76faf0633cef08600587793052d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:52 +0000
Subject: [PATCH 039/109] fix: threaded ORDER BY and DISTINCT used buffers that
 SELECT was writing to

Both evaluate the expressions of the SELECT list, and so do readers of a
subquery. The text of one record could show up in the key of another.
---
 lib/fqlplan.c      |  2 ++
 lib/fqlprocesses.c | 15 ++++++++++++---
 lib/fqlselect.c    | 12 ++++++++++++
 lib/fqlselect.h    |  9 +++++++++
 lib/process.h      |  1 +
 lib/subquery.c     | 13 ++++++++++++-
 6 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index fa22344..f2c8fc6 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -508,6 +508,7 @@ void _group(plan* self, query* query)
 		process* group_proc = new_(process, "DISTINCT ", self);
 		group_proc->action__ = &fql_distinct;
 		group_proc->proc_data = query->distinct;
+		group_proc->expr_owner = query->op;
 		group_cat_description(query->distinct, group_proc);
 		dnode* group_node = dgraph_add_data(self->processes, group_proc);
 		self->current->out[0] = group_node;
@@ -607,6 +608,7 @@ void _order(plan* self, query* query)
 	_check_all_for_special_expression(self, order_proc, &query->orderby->expressions);
 	order_proc->action__ = &fql_orderby;
 	order_proc->proc_data = query->orderby;
+	order_proc->expr_owner = query->op;
 	order_cat_description(query->orderby, order_proc);
 	dnode* order_node = dgraph_add_data(self->processes, order_proc);
 	self->current->out[0] = order_node;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 0ea026f..c3e6ca1 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -823,7 +823,10 @@ enum proc_return fql_distinct(process* proc)
 
 	node** rg_iter = fifo_begin(in);
 	while (rg_iter != fifo_end(in)) {
-		switch (group_record(group, *rg_iter)) {
+		fqlselect_lock_expressions(proc->expr_owner);
+		int group_ret = group_record(group, *rg_iter);
+		fqlselect_unlock_expressions(proc->expr_owner);
+		switch (group_ret) {
 		case FQL_FAIL:
 			return PROC_RETURN_FAIL;
 		case 1:
@@ -908,7 +911,10 @@ enum proc_return fql_select(process* proc)
 			break;
 		}
 
-		try_(select->select__(select, *rg_iter));
+		fqlselect_lock_expressions(current_select);
+		int select_ret = select->select__(select, *rg_iter);
+		fqlselect_unlock_expressions(current_select);
+		try_(select_ret);
 		_fqlprocess_print_iter_states(proc,
 		                              ((record*)(*rg_iter)->data)->node_idx);
 
@@ -1198,7 +1204,10 @@ enum proc_return fql_orderby(process* proc)
 	node** rg_iter = fifo_begin(in);
 	for (; iters++ < proc->max_recs_iter && rg_iter != fifo_end(in);
 	     rg_iter = fifo_iter(in)) {
-		try_(order_add_record(order, *rg_iter));
+		fqlselect_lock_expressions(proc->expr_owner);
+		int add_ret = order_add_record(order, *rg_iter);
+		fqlselect_unlock_expressions(proc->expr_owner);
+		try_(add_ret);
 		_fqlprocess_print_iter_states(proc, -1);
 		fqlprocess_recycle(proc, rg_iter);
 	}
diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 4993bb2..29699e4 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -34,6 +34,7 @@ fqlselect* fqlselect_construct(fqlselect* self)
 	};
 
 	self->current_select = self;
+	pthread_mutex_init(&self->expr_mutex, NULL);
 
 	return self;
 }
@@ -44,6 +45,7 @@ void fqlselect_destroy(fqlselect* self)
 		return;
 	}
 
+	pthread_mutex_destroy(&self->expr_mutex);
 	delete_if_exists_(writer, self->writer);
 	delete_(schema, self->schema);
 	if (self->header_as_exprs == NULL) {
@@ -59,6 +61,16 @@ void fqlselect_destroy(fqlselect* self)
 	node_free(&self->union_selects);
 }
 
+void fqlselect_lock_expressions(fqlselect* self)
+{
+	pthread_mutex_lock(&self->expr_mutex);
+}
+
+void fqlselect_unlock_expressions(fqlselect* self)
+{
+	pthread_mutex_unlock(&self->expr_mutex);
+}
+
 unsigned fqlselect_get_field_count(fqlselect* self, const vec* sources)
 {
 	table* expr_table = NULL;
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 7c29565..7af1430 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -1,6 +1,8 @@
 #ifndef SELECT_H
 #define SELECT_H
 
+#include <pthread.h>
+
 #include "query.h"
 #include "writer.h"
 #include "schema.h"
@@ -31,12 +33,19 @@ struct fqlselect {
 	size_t top_count;
 	unsigned rownum;
 	bool is_const;
+	pthread_mutex_t expr_mutex; /* see fqlselect_lock_expressions */
 };
 typedef struct fqlselect fqlselect;
 
 struct fqlselect* fqlselect_construct(struct fqlselect*);
 void fqlselect_destroy(struct fqlselect*);
 
+/* DISTINCT, ORDER BY and readers of a subquery evaluate the expressions
+ * of the SELECT list, too. Expressions own the buffers for their results.
+ */
+void fqlselect_lock_expressions(struct fqlselect*);
+void fqlselect_unlock_expressions(struct fqlselect*);
+
 unsigned fqlselect_get_field_count(struct fqlselect*, const struct vec*);
 void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
diff --git a/lib/process.h b/lib/process.h
index d3dbcd1..106d434 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -26,6 +26,7 @@ struct process {
 	struct fifo* fifo_out[2];     /* output record fifos */
 	struct fifo* org_fifo_in0;    /* Used to avoid memory leak with UNION */
 	void* proc_data;              /* process specific data */
+	struct fqlselect* expr_owner; /* select whose expressions this shares */
 	string* plan_msg;             /* message that prints with plan */
 	struct vec* union_end_nodes;  /* nodes that will re-link for union */
 	struct node* queued_results;  /* list of additional input fifos */
diff --git a/lib/subquery.c b/lib/subquery.c
index f8adc5c..5f9a502 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -30,7 +30,7 @@ void subquery_free(void* generic)
  *       until we've copied all stringviews to copy_data.
  *       Then, move that shit into dest afterward.
  */
-int subquery_get_record(reader* reader, node* rg)
+static int _get_record(reader* reader, node* rg)
 {
 	subquery* self = reader->reader_data;
 	vec* expressions = self->select->current_select->schema->expressions;
@@ -111,6 +111,17 @@ int subquery_get_record(reader* reader, node* rg)
 	return FQL_GOOD;
 }
 
+int subquery_get_record(reader* reader, node* rg)
+{
+	subquery* self = reader->reader_data;
+	fqlselect* select = self->select->current_select;
+
+	fqlselect_lock_expressions(select);
+	int ret = _get_record(reader, rg);
+	fqlselect_unlock_expressions(select);
+	return ret;
+}
+
 int subquery_get_record_at(reader* unused_self, node* unused_rg, size_t unused_offset)
 {
 	fputs("cannot seek through subquery\n", stderr);
-- 
2.43.0


From 850bc5a2473ba1f96d5cb9e62037995a8f028373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:00 +0000
Subject: [PATCH 040/109] fix: waiting for either of two pipes could crash or
 deadlock

The pipe to signal was cleared without holding the mutex its readers hold,
and the two mutexes were locked in either order.
---
 util/fifo.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index 1b01bd3..7dece77 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -377,21 +377,23 @@ void fifo_wait_for_add(fifo* restrict self)
 
 void fifo_wait_for_add_either(fifo* restrict f0, fifo* restrict f1)
 {
-	//pthread_mutex_lock(&f0->head_mutex);
+	/* Whoever adds to f0 holds its mutex while signalling f1. So, both
+	 * have to be locked in that order, and shared_mutex_fifo is only
+	 * touched while holding the mutex of f0.
+	 */
+	pthread_mutex_lock(&f0->head_mutex);
 	pthread_mutex_lock(&f1->head_mutex);
-	while (f1->is_open && fifo_is_empty(f1)) {
-		pthread_mutex_lock(&f0->head_mutex);
-		if (!f0->is_open || !fifo_is_empty(f0)) {
-			pthread_mutex_unlock(&f0->head_mutex);
-			break;
-		}
+	while (f1->is_open && fifo_is_empty(f1) && f0->is_open && fifo_is_empty(f0)) {
 		f0->shared_mutex_fifo = f1;
 		pthread_mutex_unlock(&f0->head_mutex);
 		pthread_cond_wait(&f1->cond_add, &f1->head_mutex);
+		pthread_mutex_unlock(&f1->head_mutex);
+		pthread_mutex_lock(&f0->head_mutex);
+		pthread_mutex_lock(&f1->head_mutex);
 		f0->shared_mutex_fifo = NULL;
 	}
 	pthread_mutex_unlock(&f1->head_mutex);
-	//pthread_mutex_unlock(&f0->head_mutex);
+	pthread_mutex_unlock(&f0->head_mutex);
 }
 
 void fifo_wait_for_add_both(fifo* restrict f0, fifo* restrict f1)
-- 
2.43.0


From 51338e1e92b7e4206054552744189af64f87850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 041/109] fix: a thread could wait forever for room in a pipe
 that was closed meanwhile

---
 util/fifo.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/fifo.c b/util/fifo.c
index 7dece77..589456e 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -407,7 +407,7 @@ void fifo_wait_for_add_both(fifo* restrict f0, fifo* restrict f1)
 void fifo_wait_for_get(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
-	while (!fifo_receivable(self)) {
+	while (self->is_open && !fifo_receivable(self)) {
 		pthread_cond_wait(&self->cond_get, &self->tail_mutex);
 	}
 	pthread_mutex_unlock(&self->tail_mutex);
-- 
2.43.0


From 41d656391abdf4e74186a5018959704ae93d60e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:41 +0000
Subject: [PATCH 042/109] fix: a statement that failed in a thread ended the
 program without any cleanup

---
 lib/fqlprocesses.c | 49 +++++++++++++++++++++++++----------------
 lib/process.c      | 54 +++++++++++++++++++++++++++++++++++++++++-----
 lib/process.h      |  1 +
 util/fifo.c        |  5 +++++
 4 files changed, 85 insertions(+), 24 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index c3e6ca1..06516dc 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -91,11 +91,13 @@ void _fqlprocess_print_iter_states(process* proc, int idx)
 
 /* Nothing is left in this fifo, and nothing more will arrive. In a threaded
  * run, a fifo seen empty may have received its last record before it is seen
- * closed. So, it has to be closed first and empty after that.
+ * closed. So, it has to be closed first and empty after that. If another
+ * thread failed, we are not done: all pipes are closed, but whatever made it
+ * here is not the entire result.
  */
-static bool _is_done(fifo* input)
+static bool _is_done(process* proc, fifo* input)
 {
-	return !input->is_open && fifo_is_empty(input);
+	return !input->is_open && fifo_is_empty(input) && !proc->is_aborted;
 }
 
 int _fill_inbuf(process* proc, fifo* input)
@@ -251,7 +253,7 @@ enum proc_return fql_read(process* proc)
 	fifo* in = proc->fifo_in[0];
 	//if (fifo_is_empty(in) && (proc->root_fifo == 0 || vec_empty(proc->inbuf))) {
 	if (fifo_is_empty(in)) {
-		if (_is_done(in)) {
+		if (_is_done(proc, in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -309,7 +311,7 @@ enum proc_return fql_cartesian_join(process* proc)
 	fifo* in_right = proc->fifo_in[1];
 
 	if (fifo_is_empty(in_left)) {
-		if (_is_done(in_left)) {
+		if (_is_done(proc, in_left)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -477,7 +479,7 @@ enum proc_return fql_hash_join(process* proc)
 
 	if (hj->state == SIDE_RIGHT) {
 		if (fifo_is_empty(in_right)) {
-			if (_is_done(in_right)) {
+			if (_is_done(proc, in_right)) {
 				hj->state = SIDE_LEFT;
 				table->reader->reset__(table->reader);
 				return PROC_RETURN_RUNNING;
@@ -496,7 +498,7 @@ enum proc_return fql_hash_join(process* proc)
 	}
 
 	if (fifo_is_empty(in_left)) {
-		if (_is_done(in_left)) {
+		if (_is_done(proc, in_left)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -527,6 +529,9 @@ enum proc_return fql_hash_join(process* proc)
 			continue;
 		}
 		node** right_rg = fifo_get_or_wait(proc->fifo_aux_root);
+		if (right_rg == NULL) {
+			return PROC_RETURN_FAIL;
+		}
 		record* right_rec = (*right_rg)->data;
 		right_rec->src_idx = proc->out_src_count - 1;
 		right_rec->first_match = (hj->rec_idx == 1);
@@ -552,6 +557,9 @@ enum proc_return fql_hash_join(process* proc)
 
 			for (; left_rec_node; left_rec_node = left_rec_node->prev) {
 				node** fresh_node = fifo_get_or_wait(proc->fifo_aux_root);
+				if (fresh_node == NULL) {
+					return PROC_RETURN_FAIL;
+				}
 				record* fresh_rec = (*fresh_node)->data;
 				record_copy(fresh_rec, left_rec_node);
 
@@ -585,7 +593,7 @@ enum proc_return fql_logic(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
-		if (_is_done(in)) {
+		if (_is_done(proc, in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -649,7 +657,7 @@ enum proc_return fql_left_join_logic(process* proc)
 
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
-		if (_is_done(in)) {
+		if (_is_done(proc, in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -761,7 +769,7 @@ enum proc_return fql_groupby(process* proc)
 
 	////
 
-	if (!in_data->is_open && fifo_is_empty(in_data)) {
+	if (_is_done(proc, in_data)) {
 		return _group_dump(proc, in_fresh, out);
 	}
 
@@ -783,6 +791,9 @@ enum proc_return fql_groupby(process* proc)
 			fqlprocess_recycle(proc, rg_iter);
 		} else {
 			node** rg = fifo_get_or_wait(in_fresh);
+			if (rg == NULL) {
+				return PROC_RETURN_FAIL;
+			}
 			record* rec = (*rg)->data;
 			rec->src_idx = 0;
 			try_(group_dump_record(group, rec));
@@ -805,7 +816,7 @@ enum proc_return fql_distinct(process* proc)
 	fifo* in = proc->fifo_in[0];
 	if (fifo_is_empty(in)) {
 		// hmmm... this may be impossible...
-		if (proc->wait_for_in0 && _is_done(in)) {
+		if (proc->wait_for_in0 && _is_done(proc, in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
@@ -888,7 +899,7 @@ enum proc_return fql_select(process* proc)
 	}
 
 	if (fifo_is_empty(in)) {
-		if (proc->wait_for_in0 && !_is_done(in)) {
+		if (proc->wait_for_in0 && !_is_done(proc, in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -954,7 +965,7 @@ enum proc_return fql_delete(process* proc)
 	fifo* in = proc->fifo_in[0];
 
 	if (proc->wait_for_in0 && fifo_is_empty(in)) {
-		if (!_is_done(in)) {
+		if (!_is_done(proc, in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -999,7 +1010,7 @@ enum proc_return fql_delete_match(process* proc)
 	fifo* in = proc->fifo_in[0];
 
 	if (fifo_is_empty(in)) {
-		if (!_is_done(in)) {
+		if (!_is_done(proc, in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1049,7 +1060,7 @@ enum proc_return fql_delete_filter(process* proc)
 	reader* scan = delete->scan;
 
 	if (fifo_is_empty(in)) {
-		if (!_is_done(in)) {
+		if (!_is_done(proc, in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1086,7 +1097,7 @@ enum proc_return fql_update(process* proc)
 	fifo* in_false = proc->fifo_in[0];
 	fifo* in_true = proc->fifo_in[1];
 	if (fifo_is_empty(in_false) && fifo_is_empty(in_true)) {
-		if (!_is_done(in_true) || !_is_done(in_false)) {
+		if (!_is_done(proc, in_true) || !_is_done(proc, in_false)) {
 			return PROC_RETURN_WAIT_ON_IN_EITHER;
 		} else {
 			proc->wait_for_in0 = false;
@@ -1148,7 +1159,7 @@ enum proc_return fql_update_filter(process* proc)
 	reader* scan = update->scan;
 
 	if (fifo_is_empty(in)) {
-		if (!_is_done(in)) {
+		if (!_is_done(proc, in)) {
 			return PROC_RETURN_WAIT_ON_IN0;
 		}
 		proc->wait_for_in0 = false;
@@ -1189,7 +1200,7 @@ enum proc_return fql_orderby(process* proc)
 
 	enum proc_return ret = PROC_RETURN_WAIT_ON_IN0;
 
-	if (!in->is_open && fifo_is_empty(in)) {
+	if (_is_done(proc, in)) {
 		if (!order->sorted) {
 			try_(order_sort(order));
 		}
@@ -1225,7 +1236,7 @@ enum proc_return fql_no_op(process* proc)
 	}
 
 	if (fifo_is_empty(in)) {
-		if (_is_done(in)) {
+		if (_is_done(proc, in)) {
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_WAIT_ON_IN0;
diff --git a/lib/process.c b/lib/process.c
index 933062f..bb303e9 100644
--- a/lib/process.c
+++ b/lib/process.c
@@ -347,6 +347,43 @@ int process_exec_plan(plan* plan)
 	return ret;
 }
 
+/* A process failed. There is no result, so close every pipe in order to
+ * wake up everyone who is waiting for something.
+ */
+void _abort_threads(plan* plan)
+{
+	dnode** it = vec_begin(plan->processes->nodes);
+	for (; it != vec_end(plan->processes->nodes); ++it) {
+		process* proc = (*it)->data;
+		proc->is_aborted = true;
+	}
+
+	it = vec_begin(plan->processes->nodes);
+	for (; it != vec_end(plan->processes->nodes); ++it) {
+		process* proc = (*it)->data;
+		node* queued = proc->queued_results;
+		for (; queued; queued = queued->next) {
+			fifo_set_open(queued->data, false);
+		}
+		fifo* pipes[] = {proc->fifo_in[0],
+		                 proc->fifo_in[1],
+		                 proc->fifo_out[0],
+		                 proc->fifo_out[1],
+		                 proc->fifo_aux_root};
+		unsigned i = 0;
+		for (; i < sizeof(pipes) / sizeof(*pipes); ++i) {
+			if (pipes[i] != NULL) {
+				fifo_set_open(pipes[i], false);
+			}
+		}
+		if (proc->wait_list != NULL) {
+			pthread_mutex_lock(&proc->wait_mutex);
+			pthread_cond_signal(&proc->wait_cond);
+			pthread_mutex_unlock(&proc->wait_mutex);
+		}
+	}
+}
+
 void* _thread_exec(void* data)
 {
 	struct thread_data* tdata = data;
@@ -372,20 +409,20 @@ void* _thread_exec(void* data)
 
 	if (self->wait_list != NULL) {
 		pthread_mutex_lock(&self->wait_mutex);
-		while (_check_wait_list(self->wait_list)) {
+		while (!self->is_aborted && _check_wait_list(self->wait_list)) {
 			pthread_cond_wait(&self->wait_cond, &self->wait_mutex);
 		}
 		pthread_mutex_unlock(&self->wait_mutex);
 	}
 
-	while (self->is_enabled) {
+	while (self->is_enabled && !self->is_aborted) {
 		switch (self->action__(self)) {
 		case PROC_RETURN_COMPLETE:
 			process_disable(self);
 			break;
 		case PROC_RETURN_FAIL:
-			/* TODO */
-			exit(EXIT_FAILURE);
+			_abort_threads(tdata->plan);
+			break;
 		case PROC_RETURN_WAIT_ON_IN0:
 			if (self->fifo_in[0]->is_open
 			    && fifo_is_empty(self->fifo_in[0])) {
@@ -439,6 +476,9 @@ int _join_threads(vec* tdata_vec)
 		struct thread_data* tdata = vec_at(tdata_vec, i);
 		process* proc = tdata->proc_node->data;
 		ret += pthread_join(proc->thread, &status);
+		if (proc->is_aborted) {
+			ret = FQL_FAIL;
+		}
 	}
 	return ret;
 }
@@ -493,6 +533,7 @@ void _print_proc_info(process* self, FILE* debug_file, size_t poll_id, unsigned
 /* this is only really for debugging purposes */
 int _monitor_threads(vec* tdata_vec)
 {
+	int ret = FQL_GOOD;
 	void* status = NULL;
 	int threading_procs = 0;
 
@@ -532,6 +573,9 @@ int _monitor_threads(vec* tdata_vec)
 				proc->is_threading = false;
 			}
 			threading_procs += proc->is_threading;
+			if (proc->is_aborted) {
+				ret = FQL_FAIL;
+			}
 
 			_print_proc_info(proc, debug_file, poll_id, i++);
 		}
@@ -539,7 +583,7 @@ int _monitor_threads(vec* tdata_vec)
 
 	fclose(debug_file);
 
-	return FQL_GOOD;
+	return ret;
 }
 
 int process_exec_plan_thread(plan* plan, fqlhandle* fql)
diff --git a/lib/process.h b/lib/process.h
index 106d434..e3258cd 100644
--- a/lib/process.h
+++ b/lib/process.h
@@ -45,6 +45,7 @@ struct process {
 	short root_fifo;              /* index of root for fifo_in[x] */
 	short killed_pipe;            /* start a process with a closed pipe */
 	_Atomic bool is_enabled;      /* enabled means it still has work to do*/
+	_Atomic bool is_aborted;      /* another process of the plan failed */
 	bool is_secondary;            /* fifo_out0 should link to a fifo_in1 */
 	bool is_dual_link;            /* both fifo_out link both fifo_in */
 	bool is_passive;              /* denotes process that does nothing */
diff --git a/util/fifo.c b/util/fifo.c
index 589456e..c7f3243 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -124,6 +124,11 @@ void* fifo_get_or_wait(fifo* restrict self)
 {
 	pthread_mutex_lock(&self->tail_mutex);
 	while (!fifo_available(self)) {
+		/* closed first, and empty after that: nothing will come */
+		if (!self->is_open && !fifo_available(self)) {
+			pthread_mutex_unlock(&self->tail_mutex);
+			return NULL;
+		}
 		fifo_wait_for_add(self);
 	}
 	void* data = fifo_peek(self);
-- 
2.43.0


From 05faf5f350861ce6d4f39298a924126b57ad54b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 043/109] fix: SELECT INTO with ORDER BY truncated its target
 before the result was there

---
 lib/fqlprocesses.c |  1 +
 lib/order.c        | 69 ++++++++++++++++++++++++++++++++++++++++------
 lib/order.h        |  4 +++
 3 files changed, 66 insertions(+), 8 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 06516dc..7c5b43b 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1206,6 +1206,7 @@ enum proc_return fql_orderby(process* proc)
 		}
 		int ret = try_(order->select__(order, proc));
 		if (ret == 0 || proc->rows_affected >= order->top_count) {
+			try_(order_close_output(order));
 			return PROC_RETURN_COMPLETE;
 		}
 		return PROC_RETURN_RUNNING;
diff --git a/lib/order.c b/lib/order.c
index 5546e66..eee8638 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -39,6 +39,8 @@ order* order_construct(order* self)
 	vec_construct_(&self->expressions, expression*);
 	vec_construct_(&self->entries, struct _entry);
 	string_construct(&self->in_filename);
+	string_construct(&self->out_filename);
+	string_construct(&self->out_tempname);
 	flex_construct(&self->order_data);
 
 	return self;
@@ -56,6 +58,8 @@ void order_destroy(order* self)
 	_order_unmap(self);
 	string_destroy(&self->in_filename);
 	_order_reset_output(self);
+	string_destroy(&self->out_filename);
+	string_destroy(&self->out_tempname);
 }
 
 void _order_unmap(order* self)
@@ -67,12 +71,66 @@ void _order_unmap(order* self)
 	}
 }
 
+/* drop whatever has been written, but never made it to the end */
 void _order_reset_output(order* self)
 {
-	if (self->out_file != NULL && self->out_file != stdout
-	    && self->out_file != stderr) {
+	if (self->out_temp_node != NULL) {
 		fclose(self->out_file);
+		fqlsig_tmp_remove_node_and_file(self->out_temp_node);
+		self->out_temp_node = NULL;
 	}
+	self->out_file = stdout;
+}
+
+/* Like any other output file, this one is written as a temporary file
+ * that replaces the real file when it is complete.
+ */
+int _order_open_output(order* self, const char* out_name)
+{
+	_order_reset_output(self);
+	string_strcpy(&self->out_filename, out_name);
+	string_strcpy(&self->out_tempname, out_name);
+	string_strcat(&self->out_tempname, "_XXXXXX");
+	int fd = mkstemp(vec_begin(&self->out_tempname));
+	if (fd == -1) {
+		perror(string_c_str(&self->out_tempname));
+		return FQL_FAIL;
+	}
+	self->out_file = fdopen(fd, "w");
+	if (self->out_file == NULL) {
+		perror(string_c_str(&self->out_tempname));
+		self->out_file = stdout;
+		close(fd);
+		fqlsig_tmp_remove_file(string_c_str(&self->out_tempname));
+		return FQL_FAIL;
+	}
+	self->out_temp_node = fqlsig_tmp_push(string_c_str(&self->out_tempname));
+
+	mode_t mask = umask(0);
+	umask(mask);
+	struct stat sb;
+	fchmod(fd, stat(out_name, &sb) ? 0666 & ~mask : sb.st_mode & 0777);
+
+	return FQL_GOOD;
+}
+
+int order_close_output(order* self)
+{
+	if (self->out_temp_node == NULL) {
+		return FQL_GOOD;
+	}
+	int ret = fclose(self->out_file);
+	self->out_file = stdout;
+	if (ret || rename(string_c_str(&self->out_tempname),
+	                  string_c_str(&self->out_filename))) {
+		perror(string_c_str(&self->out_filename));
+		fqlsig_tmp_remove_node_and_file(self->out_temp_node);
+		self->out_temp_node = NULL;
+		return FQL_FAIL;
+	}
+	fqlsig_tmp_remove_node(self->out_temp_node);
+	self->out_temp_node = NULL;
+	return FQL_GOOD;
 }
 
 int order_init_io(order* self, const char* in_name, const char* out_name)
@@ -91,12 +149,7 @@ int order_init_io(order* self, const char* in_name, const char* out_name)
 	self->temp_node = fqlsig_tmp_push(string_c_str(&self->in_filename));
 
 	if (out_name != NULL) {
-		_order_reset_output(self);
-		self->out_file = fopen(out_name, "w");
-		if (self->out_file == NULL) {
-			perror(out_name);
-			return FQL_FAIL;
-		}
+		try_(_order_open_output(self, out_name));
 	}
 	return FQL_GOOD;
 }
diff --git a/lib/order.h b/lib/order.h
index 5704d97..1243740 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -18,6 +18,8 @@ struct order {
 	struct vec expressions;
 	struct vec entries;
 	string in_filename;
+	string out_filename;
+	string out_tempname;
 	struct flex order_data;
 	order_select_fn select__;
 	struct vec* api;
@@ -25,6 +27,7 @@ struct order {
 	FILE* out_file;
 	struct _entry* entry_iter;
 	struct node* temp_node;
+	struct node* out_temp_node;
 	char* mmap;
 	size_t file_size;
 	size_t top_count;
@@ -44,5 +47,6 @@ void order_connect_api(struct query*, struct vec*);
 int order_preresolve_expressions(struct order*, struct query*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
+int order_close_output(struct order*);
 
 #endif /* ORDER_H */
-- 
2.43.0


From 6ea4a01800d1827bd42bbd82b6c34e370476157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 044/109] fix: SELECT INTO a variable replaced an existing file
 without being told to

---
 lib/operation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/operation.c b/lib/operation.c
index e46b91a..70277dc 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -372,7 +372,9 @@ int op_reset(query* query, bool has_executed)
 	}
 
 	if (!query->union_id && query->into_table_name) {
-		if (has_executed && *self == FQL_SELECT && !query->fqlref->props.overwrite
+		/* A name from a variable was unknown when we planned */
+		if ((has_executed || query->into_table_var_idx != -1)
+		    && *self == FQL_SELECT && !query->fqlref->props.overwrite
 		    && access(query->into_table_name, F_OK) == 0) {
 			fprintf(stderr,
 			        "Cannot SELECT INTO: file `%s' already exists\n",
-- 
2.43.0


From 1621a4f95a32daf89c61170a0d40e334bf995038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 045/109] fix: a second variable table moved the first one away
 from under its pointer

---
 lib/query.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index d76eb09..719758c 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -45,7 +45,7 @@ query* query_construct(query* self, fqlhandle* fql, int id)
 	        .sources = new_t_(vec, table),
 	        .subquery_const_vec = new_t_(vec, query*),
 	        .variable_table_indicies = new_t_(vec, int),
-	        .variable_tables = new_t_(vec, table*),
+	        .variable_tables = new_t_(vec, size_t),
 	        .variable_expr_indicies = new_t_(vec, int),
 	        .variable_expressions = new_t_(vec, expression*),
 	        .unions = new_t_(vec, query*),
@@ -132,11 +132,13 @@ int query_preflight(query* self, bool has_executed)
 
 	for (i = 0; i < self->variable_table_indicies->size; ++i) {
 		int* var_idx = vec_at(self->variable_table_indicies, i);
-		table** var_table = vec_at(self->variable_tables, i);
+		/* an index as a table moves when its vector grows */
+		size_t* table_idx = vec_at(self->variable_tables, i);
+		table* var_table = vec_at(self->sources, *table_idx);
 		variable* var = vec_at(self->fqlref->variables, *var_idx);
-		//string_copy(&(*var_table)->reader->file_name, var->value.s);
+		//string_copy(&var_table->reader->file_name, var->value.s);
 		enum fuzzy_return ret =
-		        schema_fuzzy_resolve_file(&(*var_table)->reader->file_name,
+		        schema_fuzzy_resolve_file(&var_table->reader->file_name,
 		                                  var->value.s,
 		                                  self->fqlref->props.strictness);
 		switch (ret) {
@@ -599,7 +601,7 @@ int query_add_source(query* self,
 	                self->join);
 
 	if (is_variable) {
-		vec_push_back(self->variable_tables, &new_table);
+		vec_push_back(self->variable_tables, &new_table->idx);
 		new_table->must_reopen = true;
 	}
 
-- 
2.43.0


From 12519597002847eb7e387ab316736c4066c60fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 046/109] fix: a table in a directory that does not exist ended
 the calling program

---
 util/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.c b/util/util.c
index 5a35710..726fc01 100644
--- a/util/util.c
+++ b/util/util.c
@@ -192,7 +192,7 @@ node* dir_list_files(const char* restrict dir)
 	dr = opendir(dir); //open all or present directory
 	if (!dr) {
 		perror(dir);
-		exit(EXIT_FAILURE);
+		return NULL;
 	}
 
 	while ((en = readdir(dr)) != NULL) {
-- 
2.43.0


From 177da7d5b20f8c5be34efba20e5fd2d70ba93d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:03 +0000
Subject: [PATCH 047/109] fix: ORDER BY on fixed-width output freed the name of
 its temporary file twice

---
 lib/fixedwrite.c | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 3ae26b6..8c2ae90 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -122,22 +122,7 @@ char* fixedwriter_take_filename(fixedwriter* self)
 	return string_export(&self->filename);
 }
 
-const char* _get_filename(fixedwriter* self)
-{
-	string* filename = NULL;
-	if (self->is_detached) {
-		filename = &self->tempname;
-		self->tempnode = NULL;
-	} else {
-		filename = &self->filename;
-	}
-
-	if (string_empty(filename)) {
-		return NULL;
-	}
-	return string_c_str(filename);
-}
-
+/* From here on, the temporary file and its name belong to the caller */
 const char* fixedwriter_export_temp(fixedwriter* self)
 {
 	if (!_isopen(self)) {
@@ -146,7 +131,10 @@ const char* fixedwriter_export_temp(fixedwriter* self)
 		}
 	}
 
-	return _get_filename(self);
+	fqlsig_tmp_remove_node(self->tempnode);
+	self->tempnode = NULL;
+
+	return string_export(&self->tempname);
 }
 
 int fixedwriter_write_record(writer* writer, vec* expr_vec, node* rg, FILE* outstream)
-- 
2.43.0


From 976d06ee29de6c0ebdd760ca5c7da6ae265e9347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:38 +0000
Subject: [PATCH 048/109] fix: UPDATE and DELETE ignored the schema of a
 qualified table

---
 lib/query.c | 11 +++++++++++
 lib/query.h |  1 +
 2 files changed, 12 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index 719758c..fdb8518 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -94,6 +94,7 @@ void query_destroy(query* self)
 	delete_(vec, self->unions);
 	delete_(vec, self->subquery_const_vec);
 
+	free_if_exists_(self->op_schema_name);
 	if (self->into_table_var_idx == -1) {
 		free_if_exists_(self->into_table_name);
 	}
@@ -853,6 +854,12 @@ int query_set_into_table(query* self, const char* table_name)
 int query_set_op_table(query* self, const char* op_table_name)
 {
 	if (*op_table_name != '@') {
+		/* The last name is the table, the one before is its schema */
+		const char* former_name = op_get_table_name(self->op);
+		if (*former_name) {
+			free_if_exists_(self->op_schema_name);
+			self->op_schema_name = strdup(former_name);
+		}
 		op_set_table_name(self->op, op_table_name);
 		return FQL_GOOD;
 	}
@@ -884,6 +891,10 @@ void query_exit_non_select_op(query* self)
 	char* table_name_dup = strdup(op_table_name);
 
 	node* fake_source_stack = NULL;
+	if (self->op_schema_name != NULL) {
+		node_push(&fake_source_stack, self->op_schema_name);
+		self->op_schema_name = NULL;
+	}
 	node_push(&fake_source_stack, table_name_dup);
 	query_add_source(self, &fake_source_stack, table_name_dup, false);
 
diff --git a/lib/query.h b/lib/query.h
index 347e96e..68c0289 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -154,6 +154,7 @@ struct query {
 	struct expression* top_expr;
 	struct vec* unions;
 	const char* into_table_name;
+	char* op_schema_name;
 	struct vec* text; /* string */
 	size_t top_count;
 	int* next_idx_ref;
-- 
2.43.0


From 5e1e3d5a2e435279d1705f0a7f9665aa32af4b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 049/109] fix: ELSE blocks never ran, and branches at the end
 of a WHILE body left the loop

An ELSE followed by BEGIN ... END was skipped, an IF with an ELSE as the
last statement of a loop ended that loop, an IF within ELSE IF fell into
the next ELSE, and a block outside a branch crashed.  The order of the
statements is now worked out when a branch is complete.
---
 lib/antlr/listenerinterface.cpp |  62 +++++------
 lib/antlr/listenerinterface.h   |   2 -
 lib/fqlbranch.c                 |   7 +-
 lib/fqlbranch.h                 |   3 -
 lib/fqlhandle.h                 |   6 --
 lib/libfql.c                    |   1 -
 lib/query.c                     | 184 +++++++++-----------------------
 lib/query.h                     |  11 +-
 lib/scope.c                     |   1 -
 lib/scope.h                     |   1 -
 10 files changed, 83 insertions(+), 195 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index facb431..f5b2778 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -67,8 +67,7 @@ void ListenerInterface::enterIf_statement(TSqlParser::If_statementContext * ctx)
 	_query->mode = MODE_IF;
 	_operation = FQL_IF;
 
-	/* enter_if will call query_init_op */
-	if (query_enter_if(_query, _query_stack, _operation, (ctx->ELSE() != NULL))) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -81,8 +80,7 @@ void ListenerInterface::enterWhile_statement(TSqlParser::While_statementContext
 {
 	_query->mode = MODE_WHILE;
 	_operation = FQL_WHILE;
-	/* enter_if will call query_init_op */
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -91,16 +89,8 @@ void ListenerInterface::exitWhile_statement(TSqlParser::While_statementContext *
 	query_exit_branch(_query);
 }
 
-void ListenerInterface::enterBlock_statement(TSqlParser::Block_statementContext * ctx)
-{
-	_entering_block_stmt = true;
-	query_enter_block(_query);
-}
-void ListenerInterface::exitBlock_statement(TSqlParser::Block_statementContext * ctx)
-{
-	_exiting_block_stmt = true;
-	query_exit_block(_query);
-}
+void ListenerInterface::enterBlock_statement(TSqlParser::Block_statementContext * ctx) { }
+void ListenerInterface::exitBlock_statement(TSqlParser::Block_statementContext * ctx) { }
 
 void ListenerInterface::enterAnother_statement(TSqlParser::Another_statementContext * ctx) { }
 void ListenerInterface::exitAnother_statement(TSqlParser::Another_statementContext * ctx) { }
@@ -109,7 +99,7 @@ void ListenerInterface::enterDeclare_statement(TSqlParser::Declare_statementCont
 {
 	_query->mode = MODE_DECLARE;
 	_operation = FQL_SET;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -136,7 +126,6 @@ void ListenerInterface::enterSet_statement(TSqlParser::Set_statementContext * ct
 	_query->mode = MODE_SET;
 	_operation = FQL_SET;
 	if (query_enter_set(_query,
-	                    _query_stack,
 	                    _operation,
 	                    ctx->LOCAL_ID()->getText().c_str())) {
 		_set_failure();
@@ -177,13 +166,24 @@ void ListenerInterface::exitAssignment_operator(TSqlParser::Assignment_operatorC
 void ListenerInterface::enterDml_clause(TSqlParser::Dml_clauseContext * ctx) { }
 void ListenerInterface::exitDml_clause(TSqlParser::Dml_clauseContext * ctx) { }
 
+/* A block and a lone semicolon are not statements of their own */
+static bool _has_query(TSqlParser::Sql_clausesContext* ctx)
+{
+	TSqlParser::Cfl_statementContext* cfl = ctx->cfl_statement();
+	if (cfl != NULL) {
+		return cfl->block_statement() == NULL;
+	}
+	return ctx->getStart()->getType() != TSqlParser::SEMI;
+}
+
 void ListenerInterface::enterSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 {
-	/* block statements pass through here, and we don't want
-	 * to initialize a query for that...
-	 */
-	if (_entering_block_stmt) {
-		_entering_block_stmt = false;
+	auto ifstmt = dynamic_cast<TSqlParser::If_statementContext*>(ctx->parent);
+	if (ifstmt != NULL && ifstmt->ELSE() != NULL && ifstmt->sql_clauses(1) == ctx) {
+		query_enter_else(_query);
+	}
+
+	if (!_has_query(ctx)) {
 		return;
 	}
 
@@ -193,19 +193,15 @@ void ListenerInterface::enterSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 }
 void ListenerInterface::exitSql_clauses(TSqlParser::Sql_clausesContext* ctx)
 {
-	if (_exiting_block_stmt) {
-		_exiting_block_stmt = false;
+	if (!_has_query(ctx)) {
 		return;
 	}
+	if (_query->op == NULL) {
+		_set_failure(); /* statement is not implemented */
+	}
 	_query->query_total = _query_id + 1;
-	query* prev = (query*) node_pop(&_query_stack);
-	int last_idx = prev->idx;
+	node_pop(&_query_stack);
 	_query = (_query_stack == NULL) ? NULL : (query*) _query_stack->data;
-
-	if (query_exit_query(_query, prev)) {
-		_set_failure();
-	}
-
 }
 
 void ListenerInterface::enterSelect_statement_standalone(TSqlParser::Select_statement_standaloneContext* ctx) { }
@@ -654,7 +650,7 @@ void ListenerInterface::enterSelect_statement(TSqlParser::Select_statementContex
 {
 	_query->mode = MODE_SELECTLIST;
 	_operation = FQL_SELECT;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 }
@@ -667,7 +663,7 @@ void ListenerInterface::enterDelete_statement(TSqlParser::Delete_statementContex
 		_no_impl("TOP", ctx->getRuleIndex());
 	}
 	_operation = FQL_DELETE;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 	if (ctx->WHERE()) {
@@ -696,7 +692,7 @@ void ListenerInterface::enterUpdate_statement(TSqlParser::Update_statementContex
 	}
 	_query->mode = MODE_UPDATELIST;
 	_operation = FQL_UPDATE;
-	if (query_init_op(_query, _query_stack, _operation)) {
+	if (query_init_op(_query, _operation)) {
 		_set_failure();
 	}
 	if (ctx->WHERE()) {
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index 92df316..685216a 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -44,8 +44,6 @@ class ListenerInterface : public TSqlParserBaseListener {
 	enum tok_type _tok_type;
 	enum fql_operation _operation;
 	bool _on_asterisk = false;
-	bool _entering_block_stmt = false;
-	bool _exiting_block_stmt = false;
 	bool _is_table_variable = false;
 
 	void _set_failure();
diff --git a/lib/fqlbranch.c b/lib/fqlbranch.c
index 6154563..9003ecc 100644
--- a/lib/fqlbranch.c
+++ b/lib/fqlbranch.c
@@ -21,12 +21,7 @@ fqlbranch* fqlbranch_construct(fqlbranch* self,
 	        .false_idx = -1,
 	};
 
-	if (fql->branch_state == BRANCH_EXPECT_ELSE) {
-		self->scope->parent_scope = fql->_scope->parent_scope;
-	} else {
-		fql->branch_state = BRANCH_EXPECT_EXPR;
-		self->scope->parent_scope = fql->_scope;
-	}
+	self->scope->parent_scope = fql->_scope;
 	fql->_scope = self->scope;
 
 	return self;
diff --git a/lib/fqlbranch.h b/lib/fqlbranch.h
index 78cac2a..728bbdf 100644
--- a/lib/fqlbranch.h
+++ b/lib/fqlbranch.h
@@ -11,13 +11,10 @@ struct fqlbranch {
 	enum fql_operation oper_type;
 	struct logicgroup* condition;
 	int* next_query_idx_ref;
-	struct query* last_true_block_query;
 	struct scope* scope;
 	struct scope* else_scope;
 	int true_idx;
 	int false_idx;
-	bool expect_else;
-	bool is_elseif;
 };
 typedef struct fqlbranch fqlbranch;
 
diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 0d647aa..23ce477 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -24,12 +24,6 @@ struct fqlhandle {
 	struct vec* schema_paths;
 	char* query_str;
 	unsigned query_idx;
-	enum {
-		BRANCH_NO_BRANCH,
-		BRANCH_EXPECT_EXPR,
-		BRANCH_EXPECT_ELSE,
-		BRANCH_EXPECT_EXIT,
-	} branch_state;
 	bool _out_delim_set;
 	struct {
 		struct vec* schema_path; /* actually string but extern "C" so.. */
diff --git a/lib/libfql.c b/lib/libfql.c
index 89dbb7f..49d0d9b 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -42,7 +42,6 @@ fqlhandle* fql_construct(fqlhandle* fql)
 	        .query_vec = new_t_(vec, query*),
 	        .api_vec = new_t_(vec, struct fql_field),
 	        .variables = new_t_(vec, variable),
-	        .branch_state = BRANCH_EXPECT_EXPR,
 	        ._out_delim_set = false,
 	        {
 	                .schema_path = new_(string),
diff --git a/lib/query.c b/lib/query.c
index fdb8518..97b9637 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -186,80 +186,81 @@ int query_prepare(query* self)
 
 
 /** control flow **/
-void query_enter_block(query* self)
+void query_enter_else(query* self)
 {
-	self->fqlref->_scope->is_in_block = true;
-}
-
-void query_exit_block(query* self)
-{
-	self->fqlref->_scope->is_in_block = false;
-
-	/* the current active query can be assumed to be the branch */
+	fqlhandle* fql = self->fqlref;
 	fqlbranch* branch = self->op;
-	branch->false_idx = self->fqlref->query_vec->size;
 
-	if (branch->expect_else) {
-		self->fqlref->branch_state = BRANCH_EXPECT_ELSE;
-	} else {
-		self->fqlref->branch_state = BRANCH_EXPECT_EXIT;
-		branch->false_idx = self->fqlref->query_vec->size;
-	}
+	branch->false_idx = fql->query_vec->size;
+	branch->else_scope = new_(scope);
+	branch->else_scope->parent_scope = branch->scope->parent_scope;
+	fql->_scope = branch->else_scope;
 }
 
-int query_enter_if(query* self,
-                   node* query_stack,
-                   enum fql_operation operation,
-                   bool expect_else)
+/* What ran on to `from' moves on to `to' instead */
+static void _redirect(query* self, int from, int to)
 {
-	try_(query_init_op(self, query_stack, operation));
+	if (self->next_idx == from) {
+		self->next_idx = to;
+	}
 
-	fqlbranch* branch = self->op;
-	branch->expect_else = expect_else;
+	enum fql_operation* oper = self->op;
+	if (oper == NULL || (*oper != FQL_IF && *oper != FQL_WHILE)) {
+		return;
+	}
 
-	return FQL_GOOD;
+	fqlbranch* branch = self->op;
+	if (branch->true_idx == from) {
+		branch->true_idx = to;
+	}
+	if (branch->false_idx == from) {
+		branch->false_idx = to;
+	}
 }
 
 void query_exit_branch(query* self)
 {
-	fqlbranch* ifstmt = self->op;
-	self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-	//self->fqlref->_scope = self->fqlref->_scope->parent_scope;
-	self->fqlref->_scope = ifstmt->scope->parent_scope;
-	if (self->fqlref->_scope == self->fqlref->global_scope) {
-		self->fqlref->branch_state = BRANCH_NO_BRANCH;
+	fqlhandle* fql = self->fqlref;
+	fqlbranch* branch = self->op;
+	fql->_scope = branch->scope->parent_scope;
+
+	/* All statements of this branch follow it directly: first those
+	 * of the true block, then those of the else block.  The branches
+	 * among them have been through here before.  So, where the next
+	 * statement of one of them is the one behind its block, this is
+	 * the end of its block.
+	 */
+	int end = fql->query_vec->size;
+	int block_end = end;
+	int exit_idx = end;
+
+	if (branch->oper_type == FQL_WHILE) {
+		exit_idx = self->idx;
+	} else if (branch->false_idx != -1) {
+		block_end = branch->false_idx;
 	}
 
-	if (ifstmt->oper_type != FQL_IF) {
-		return;
+	int i = self->idx + 1;
+	for (; i < block_end; ++i) {
+		query** it = vec_at(fql->query_vec, i);
+		_redirect(*it, block_end, exit_idx);
 	}
-	/* Now, we need to loop back through all queries
-	 * inside this if block. If they are if statements
-	 * and have the same parent_scope, then we can set
-	 * the next_idx of each last_true_block_query.
-	 * Above, we set fql->_scope to this ifbranch's
-	 * parent_scope. So we compare on that.
-	 */
-	query** it = vec_at(self->fqlref->query_vec, self->idx);
-	for (; it != vec_end(self->fqlref->query_vec); ++it) {
-		ifstmt = (*it)->op;
-		if (ifstmt->oper_type != FQL_IF
-		    || ifstmt->scope->parent_scope != self->fqlref->_scope) {
-			continue;
-		}
 
-		ifstmt->last_true_block_query->next_idx = self->fqlref->query_vec->size;
+	if (branch->true_idx == block_end) { /* empty block */
+		branch->true_idx = exit_idx;
+	}
+	if (branch->false_idx == -1) { /* no else */
+		branch->false_idx = end;
 	}
 }
 
 int query_enter_set(query* self,
-                    node* query_stack,
                     enum fql_operation operation,
                     const char* varname)
 {
 	int idx = try_(scope_get_var_index(self->fqlref->_scope, varname));
 
-	try_(query_init_op(self, query_stack, operation));
+	try_(query_init_op(self, operation));
 
 	fqlset* setstmt = self->op;
 	setstmt->variable_idx = idx;
@@ -290,58 +291,6 @@ query* query_enter_query(fqlhandle* fql, unsigned start, unsigned end)
 	return newquery;
 }
 
-int query_exit_query(query* self, query* prev_query)
-{
-	fqlhandle* fql = prev_query->fqlref;
-
-	/* If the previously active query was a branch operation */
-	enum fql_operation* prev_op = prev_query->op;
-	fqlbranch* prev_branch = NULL;
-
-	if (*prev_op == FQL_IF) {
-		prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = fql->query_vec->size;
-	}
-
-	if (*prev_op == FQL_WHILE) {
-		fqlbranch* prev_branch = prev_query->op;
-		prev_branch->last_true_block_query->next_idx = prev_query->idx;
-	}
-
-	/* If there is no parent query to return to */
-	if (self == NULL) {
-		fql->branch_state = BRANCH_NO_BRANCH;
-		return FQL_GOOD;
-	}
-
-	/* If you have reached this point, you have exited a query
-	 * that resided inside of a non-global scope.
-	 */
-	fqlbranch* branch = self->op;
-
-	switch (fql->branch_state) {
-	case BRANCH_EXPECT_EXPR:
-		if (prev_branch == NULL || !prev_branch->is_elseif) {
-			branch->last_true_block_query = prev_query;
-		}
-		if (fql->_scope->is_in_block) {
-			return FQL_GOOD;
-		}
-		if (branch->expect_else) {
-			fql->branch_state = BRANCH_EXPECT_ELSE;
-		} else {
-			fql->branch_state = BRANCH_EXPECT_EXIT;
-			branch->false_idx = fql->query_vec->size;
-		}
-		break;
-	case BRANCH_EXPECT_ELSE:
-	case BRANCH_EXPECT_EXIT:
-	case BRANCH_NO_BRANCH:;
-	}
-
-	return FQL_GOOD;
-}
-
 /** variables **/
 void query_set_variable_idx(query* self, int idx)
 {
@@ -756,9 +705,7 @@ int query_exit_union(query* self, query* union_query)
 }
 
 /** operations **/
-int query_init_op(query* self,
-                  node* query_stack,
-                  enum fql_operation operation)
+int query_init_op(query* self, enum fql_operation operation)
 {
 	switch (operation) {
 	case FQL_SET:
@@ -782,35 +729,6 @@ int query_init_op(query* self,
 		return FQL_FAIL;
 	}
 
-	/** Entering ELSE block **/
-	if (self->fqlref->branch_state == BRANCH_EXPECT_ELSE) {
-		/* Top of stack will be the active query. If this is an
-		 * else block, then the "next" query will be the parent
-		 * branch structure. We must set false_idx there.
-		 */
-		query* branch_query = query_stack->next->data;
-
-		/* May as well check it or this will be a bitch to fix */
-		fqlbranch* branch = branch_query->op;
-		assert(branch->oper_type == FQL_IF);
-
-		branch->false_idx = self->idx;
-		if (operation != FQL_IF) { /* if bare else */
-			branch->else_scope = new_(scope);
-			branch->else_scope->parent_scope = branch->scope->parent_scope;
-
-			self->fqlref->_scope = branch->else_scope;
-			return FQL_GOOD;
-		}
-
-		/* if we've made it this far, we have entered an "else if" */
-		self->fqlref->branch_state = BRANCH_EXPECT_EXPR;
-		query** elseifstmt = vec_back(self->fqlref->query_vec);
-		fqlbranch* elseif = (*elseifstmt)->op;
-		elseif->is_elseif = true;
-		//branch->last_true_block_query = *(elseifstmt - 1);
-	}
-
 	return FQL_GOOD;
 }
 
diff --git a/lib/query.h b/lib/query.h
index 68c0289..d20cc61 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -196,21 +196,14 @@ int query_preflight(struct query*, bool);
 int query_prepare(struct query*);
 
 /* control flow */
-int query_enter_if(struct query*,
-                   struct node* query_stack,
-                   enum fql_operation,
-                   bool expect_else);
+void query_enter_else(struct query*);
 void query_exit_branch(struct query*);
 int query_enter_set(struct query*,
-                    struct node*,
                     enum fql_operation,
                     const char* varname);
-void query_enter_block(struct query*);
-void query_exit_block(struct query*);
 
 /* queries */
 struct query* query_enter_query(struct fqlhandle*, unsigned start, unsigned end);
-int query_exit_query(struct query*, struct query*);
 
 /* variables */
 void query_set_variable_idx(struct query*, int);
@@ -255,7 +248,7 @@ int query_enter_union(struct query*, struct query*);
 int query_exit_union(struct query*, struct query*);
 
 /* operations */
-int query_init_op(struct query*, struct node*, enum fql_operation);
+int query_init_op(struct query*, enum fql_operation);
 int query_set_top_count(struct query*, const char*);
 int query_set_op_table(struct query*, const char*);
 void query_exit_non_select_op(struct query*);
diff --git a/lib/scope.c b/lib/scope.c
index c75f6f3..b973d17 100644
--- a/lib/scope.c
+++ b/lib/scope.c
@@ -7,7 +7,6 @@ scope* scope_construct(scope* self)
 {
 	*self = (scope) {
 	        .parent_scope = NULL,
-	        .is_in_block = false,
 	};
 	hashmap_construct_(&self->variable_map, int, 16, HASHMAP_PROP_NOCASE);
 	return self;
diff --git a/lib/scope.h b/lib/scope.h
index d4bdb73..bfad758 100644
--- a/lib/scope.h
+++ b/lib/scope.h
@@ -7,7 +7,6 @@
 struct scope {
 	struct scope* parent_scope;
 	struct hashmap variable_map;
-	bool is_in_block;
 };
 typedef struct scope scope;
 
-- 
2.43.0


From 2d71aa79156cf1070012106eae4aa00cf76e2012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:20 +0000
Subject: [PATCH 050/109] fix: DECLARE of several variables assigned only the
 last one

---
 lib/antlr/listenerinterface.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index f5b2778..f78b509 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -110,6 +110,17 @@ void ListenerInterface::exitDeclare_statement(TSqlParser::Declare_statementConte
 
 void ListenerInterface::enterDeclare_local(TSqlParser::Declare_localContext * ctx)
 {
+	/* each variable is declared by a query of its own */
+	auto declare = dynamic_cast<TSqlParser::Declare_statementContext*>(ctx->parent);
+	if (declare != NULL && declare->declare_local(0) != ctx) {
+		_query->query_total = _query_id + 1;
+		node_pop(&_query_stack);
+		_query = query_enter_query(_fql, ctx->getStart()->getStartIndex(), ctx->getStop()->getStopIndex());
+		_query_id = 0;
+		node_push(&_query_stack, _query);
+		enterDeclare_statement(declare);
+	}
+
 	int idx = libfql_declare_variable(_fql, ctx->LOCAL_ID()->getText().c_str());
 	if (idx == FQL_FAIL) {
 		_set_failure();
-- 
2.43.0


From 5f26945cd21b5497c900fbe95530b130e96d9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 051/109] fix: re-declaring an imported variable changed the
 last declared variable instead

Its size was also left out of the conversion.
---
 lib/antlr/listenerinterface.cpp |  4 ++--
 lib/fqlhandle.h                 |  4 ++--
 lib/libfql.c                    |  8 ++++----
 lib/query.c                     |  6 ++++++
 lib/query.h                     |  1 +
 lib/variable.c                  | 19 ++++++-------------
 6 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index f78b509..3ebe3c6 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -538,7 +538,7 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		break;
 	case TOK_DATA_TYPE:
 		if (_query->mode == MODE_DECLARE) {
-			if (libfql_set_variable_type(_fql, token)) {
+			if (libfql_set_variable_type(_fql, query_get_variable_idx(_query), token)) {
 				_set_failure();
 			}
 		} else {
@@ -810,7 +810,7 @@ void ListenerInterface::enterData_type(TSqlParser::Data_typeContext * ctx)
 
 	switch (_query->mode) {
 	case MODE_DECLARE:
-		if (libfql_set_variable_limit(_fql, numstr)) {
+		if (libfql_set_variable_limit(_fql, query_get_variable_idx(_query), numstr)) {
 			_set_failure();
 		}
 		break;
diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 23ce477..347ddab 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -54,8 +54,8 @@ struct fqlhandle {
 typedef struct fqlhandle fqlhandle;
 
 int libfql_declare_variable(struct fqlhandle*, const char*);
-int libfql_set_variable_limit(struct fqlhandle*, const char*);
-int libfql_set_variable_type(struct fqlhandle*, const char*);
+int libfql_set_variable_limit(struct fqlhandle*, int idx, const char*);
+int libfql_set_variable_type(struct fqlhandle*, int idx, const char*);
 /* actually enum but extern "C" */
 int libfql_get_sql_type(const char* type_str);
 
diff --git a/lib/libfql.c b/lib/libfql.c
index 49d0d9b..6699eb4 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -106,9 +106,9 @@ int libfql_get_sql_type(const char* type_str)
 	return SQL_UNDEFINED;
 }
 
-int libfql_set_variable_type(fqlhandle* fql, const char* type_str)
+int libfql_set_variable_type(fqlhandle* fql, int idx, const char* type_str)
 {
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, idx);
 
 	try_(variable_set_type(var, libfql_get_sql_type(type_str)));
 
@@ -140,7 +140,7 @@ int libfql_declare_variable(fqlhandle* fql, const char* varname)
 	return new_var_idx;
 }
 
-int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
+int libfql_set_variable_limit(fqlhandle* fql, int idx, const char* limit_str)
 {
 	long limit = 0;
 	if (str2long(&limit, limit_str)) {
@@ -150,7 +150,7 @@ int libfql_set_variable_limit(fqlhandle* fql, const char* limit_str)
 		fprintf(stderr, "invalid size argument(%ld)\n", limit);
 		return FQL_FAIL;
 	}
-	variable* var = vec_back(fql->variables);
+	variable* var = vec_at(fql->variables, idx);
 	var->limit = limit;
 	return FQL_GOOD;
 }
diff --git a/lib/query.c b/lib/query.c
index 97b9637..ec414de 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -298,6 +298,12 @@ void query_set_variable_idx(query* self, int idx)
 	declare->variable_idx = idx;
 }
 
+int query_get_variable_idx(const query* self)
+{
+	fqlset* declare = self->op;
+	return declare->variable_idx;
+}
+
 int query_add_variable_expression(query* self, const char* varname)
 {
 	int idx = try_(scope_get_var_index(self->fqlref->_scope, varname));
diff --git a/lib/query.h b/lib/query.h
index d20cc61..a2b2667 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -207,6 +207,7 @@ struct query* query_enter_query(struct fqlhandle*, unsigned start, unsigned end)
 
 /* variables */
 void query_set_variable_idx(struct query*, int);
+int query_get_variable_idx(const struct query*);
 int query_add_variable_expression(struct query*, const char*);
 
 /* expressions */
diff --git a/lib/variable.c b/lib/variable.c
index ffd3bd6..50d5ae0 100644
--- a/lib/variable.c
+++ b/lib/variable.c
@@ -87,7 +87,7 @@ enum field_type variable_get_field_type(enum sql_type sqltype)
 
 int variable_set_type(variable* self, enum sql_type new_type)
 {
-	if (self->type == new_type) {
+	if (self->type == new_type && self->limit == INT_MAX) {
 		return FQL_GOOD;
 	}
 
@@ -144,18 +144,11 @@ int variable_set_type(variable* self, enum sql_type new_type)
 			self->_data = new_(string);
 		}
 		stringview sv;
-		if (self->limit != INT_MAX) {
-			try_(field_to_stringview(&sv,
-			                         self->_data,
-			                         &self->value,
-			                         &fieldtype));
-		} else {
-			try_(field_to_stringview_limited(&sv,
-			                                 self->_data,
-			                                 &self->value,
-			                                 &fieldtype,
-			                                 self->limit));
-		}
+		try_(field_to_stringview_limited(&sv,
+		                                 self->_data,
+		                                 &self->value,
+		                                 &fieldtype,
+		                                 self->limit));
 		break;
 	}
 	case SQL_UNDEFINED:
-- 
2.43.0


From fecdff6af950c230abdb831572ac8a89676686d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 052/109] fix: numbers with an exponent were read as integers
 unless they had a decimal point

---
 lib/query.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index ec414de..1010c9a 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -329,7 +329,9 @@ int query_add_constant(query* self, const char* s, int len)
 	expression* expr = new_(expression, EXPR_CONST, NULL, "");
 
 	enum field_type type = FIELD_UNDEFINED;
-	if (strhaschar(s, '.')) {
+	/* 1.5, 1e3 or 1.5E-3, but not 0xE1 */
+	bool is_hex = (s[0] == '0' && (s[1] == 'x' || s[1] == 'X'));
+	if (!is_hex && (strhaschar(s, '.') || strhaschar(s, 'e') || strhaschar(s, 'E'))) {
 		type = FIELD_FLOAT;
 		fail_if_(str2double(&expr->field.f, s));
 	} else {
-- 
2.43.0


From 75a90f99590d4e4d38f0d219b5c0317efcad18e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 053/109] fix: describing a large float constant overflowed a
 buffer on the stack

---
 lib/expression.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index bd35166..5c6532e 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -175,8 +175,9 @@ void expression_cat_description(expression* self, string* msg)
 			break;
 		}
 		case FIELD_FLOAT: {
-			char buf[30];
-			sprintf(buf, "%lf", self->field.f);
+			/* %lf writes out every digit of a large number */
+			char buf[350];
+			snprintf(buf, sizeof(buf), "%lf", self->field.f);
 			string_strcat(msg, buf);
 			break;
 		}
-- 
2.43.0


From 5abec1dfc097d8d2fc02d191a830897b7e0a75a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 054/109] fix: converting a float to an int it does not fit
 gave an arbitrary number

---
 lib/field.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/field.c b/lib/field.c
index 9192b03..e6752a9 100644
--- a/lib/field.c
+++ b/lib/field.c
@@ -1,4 +1,5 @@
 #include "field.h"
+#include <stdio.h>
 #include "fql.h"
 #include "util/util.h"
 
@@ -39,6 +40,11 @@ int field_to_int(long* ret, union field* field, enum field_type* type)
 	case FIELD_INT:
 		break;
 	case FIELD_FLOAT:
+		/* Written so that NaN is refused as well. -2^63 is exact. */
+		if (!(field->f >= -0x1p63 && field->f < 0x1p63)) {
+			fprintf(stderr, "%f: out of range for int\n", field->f);
+			return FQL_FAIL;
+		}
 		*type = FIELD_INT;
 		field->i = (long)field->f;
 		break;
-- 
2.43.0


From 365e9b460fa5893706da642b88d07809acd20693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 055/109] fix: LIKE with a variable as its pattern matched
 nothing

---
 lib/fqllogic.c | 3 ++-
 lib/like.c     | 1 +
 lib/logic.c    | 1 +
 lib/logic.h    | 1 +
 4 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fqllogic.c b/lib/fqllogic.c
index 44953f3..f8c39b9 100644
--- a/lib/fqllogic.c
+++ b/lib/fqllogic.c
@@ -262,7 +262,8 @@ int fql_logic_like(logic* self, node* rg)
 	stringview sv0;
 	try_logic_deref_(expression_get_stringview(&sv0, self->expr[0], rg));
 
-	if (self->expr[1]->expr != EXPR_CONST) {
+	/* a variable only becomes a constant when the query is about to run */
+	if (!self->like_data->is_precompiled) {
 		stringview sv1;
 		try_logic_deref_(expression_get_stringview(&sv1, self->expr[1], rg));
 		try_(like_to_regex(self->like_data, sv1));
diff --git a/lib/like.c b/lib/like.c
index 1632799..bad1a41 100644
--- a/lib/like.c
+++ b/lib/like.c
@@ -8,6 +8,7 @@ like* like_construct(like* self)
 	string_construct(&self->regex_buffer);
 	vec_construct_(&self->ranges, string);
 	self->regex = NULL;
+	self->is_precompiled = false;
 	return self;
 }
 
diff --git a/lib/logic.c b/lib/logic.c
index 1d687ca..c8d7ca6 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -65,6 +65,7 @@ int _precompile_like(logic* self)
 	try_(like_to_regex(self->like_data, sv));
 
 	pcre2_jit_compile(self->like_data->regex, PCRE2_JIT_COMPLETE);
+	self->like_data->is_precompiled = true;
 
 	return FQL_GOOD;
 }
diff --git a/lib/logic.h b/lib/logic.h
index e64da8d..0210423 100644
--- a/lib/logic.h
+++ b/lib/logic.h
@@ -74,6 +74,7 @@ struct like {
 	struct vec ranges;
 	pcre2_code* regex;
 	pcre2_match_data* match;
+	bool is_precompiled;
 };
 typedef struct like like;
 
-- 
2.43.0


From 9f4659e2438eaf83fecaad44c6c0568200ba6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 056/109] fix: derived tables ignored variables, and a joined
 one was empty when its statement ran again

---
 lib/query.c    |  2 +-
 lib/reader.c   |  4 ++++
 lib/reader.h   |  2 ++
 lib/subquery.c | 29 ++++++++++++++++++++++++++++-
 lib/table.c    |  9 +++++++++
 5 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index 1010c9a..30e2a2b 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -163,7 +163,7 @@ int query_preflight(query* self, bool has_executed)
 	/* need to reset all readers */
 	table* table_iter = vec_begin(self->sources);
 	for (; table_iter != vec_end(self->sources); ++table_iter) {
-		table_reset(table_iter, has_executed);
+		try_(table_reset(table_iter, has_executed));
 	}
 
 	try_(group_reset(self->distinct));
diff --git a/lib/reader.c b/lib/reader.c
index db8ba33..95d2b2d 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -34,6 +34,10 @@ void reader_destroy(reader* self)
 		self->free__(self->reader_data);
 	}
 
+	if (self->joined_subquery != NULL) {
+		subquery_free(self->joined_subquery);
+	}
+
 	/* TODO */
 	if (self->random_access_filename != NULL) { }
 }
diff --git a/lib/reader.h b/lib/reader.h
index 13d216f..e9a5abe 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -25,6 +25,7 @@ struct reader {
 	string* random_access_filename;
 	struct node* random_access_tempnode;
 	struct csv_writer* subquery_writer;
+	struct subquery* joined_subquery;
 	record* first_rec;
 	read_fn get_record__;
 	read_at_fn get_record_at__;
@@ -68,6 +69,7 @@ int subquery_get_record(struct reader*, struct node*);
 int subquery_get_record_at(struct reader*, struct node*, size_t offset);
 int subquery_reset(struct reader*);
 int subquery_reset_from_join(struct reader*);
+int subquery_restart(struct reader*);
 int subquery_start_file_backed_input(struct reader*);
 
 
diff --git a/lib/subquery.c b/lib/subquery.c
index 5f9a502..046a4ed 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -2,6 +2,7 @@
 #include "expression.h"
 #include "reader.h"
 #include "fqlselect.h"
+#include "fqlsig.h"
 #include "misc.h"
 
 subquery* subquery_construct(subquery* self, query* query)
@@ -159,11 +160,37 @@ int subquery_reset_from_join(reader* reader)
 		return FQL_FAIL;
 	}
 
-	subquery_free(self);
+	/* needed again when the statement is run again */
+	reader->joined_subquery = self;
 
 	return FQL_GOOD;
 }
 
+/* Undo subquery_reset_from_join to execute the subquery again */
+int subquery_restart(reader* reader)
+{
+	if (reader->random_access_filename == NULL) {
+		return FQL_GOOD;
+	}
+
+	if (reader->joined_subquery != NULL) {
+		reader->free__(reader->reader_data);
+		reader->reader_data = reader->joined_subquery;
+		reader->joined_subquery = NULL;
+		reader->free__ = &subquery_free;
+		reader->get_record__ = &subquery_get_record;
+		reader->get_record_at__ = &subquery_get_record_at;
+	} else {
+		reader_stop_file_backed_input(reader);
+		csv_writer_free(reader->subquery_writer);
+	}
+
+	reader->eof = false;
+	fqlsig_tmp_remove_node_and_file(reader->random_access_tempnode);
+	delete_(string, reader->random_access_filename);
+	return subquery_start_file_backed_input(reader);
+}
+
 int subquery_start_file_backed_input(reader* reader)
 {
 	reader_start_file_backed_input(reader);
diff --git a/lib/table.c b/lib/table.c
index d16a2c7..aa6627b 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -74,6 +74,15 @@ void table_destroy(table* self)
 
 int table_reset(table* self, bool has_executed)
 {
+	if (self->source_type == SOURCE_SUBQUERY) {
+		try_(query_preflight(self->subquery, has_executed));
+		if (has_executed) {
+			try_(subquery_restart(self->reader));
+			hashjoin_reset(self->join_data);
+		}
+		return FQL_GOOD;
+	}
+
 	if (self->must_reopen) {
 		try_(reader_reopen(self->reader));
 		try_(self->reader->reset__(self->reader));
-- 
2.43.0


From e00bf1981bed151e3c1ce76644b6443683a44e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:14 +0000
Subject: [PATCH 057/109] fix: ORDER BY in derived tables and TOP with ORDER BY
 in IN subqueries gave wrong rows; refuse them

---
 lib/fqlplan.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index f2c8fc6..7f0a0d5 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -179,6 +179,12 @@ void _check_all_for_special_expression(plan* self, process* proc, vec* expressio
 int _subquery_inlist(plan* self, process* logic_proc, logicgroup* lg)
 {
 	query* subquery = lg->condition->in_data->subquery;
+	/* The list is complete before anything is sorted */
+	if (subquery->orderby != NULL && subquery->orderby->top_count != (size_t)-1) {
+		fputs("TOP with ORDER BY is not supported in an IN subquery\n",
+		      stderr);
+		return FQL_FAIL;
+	}
 	/* We can assume select because subquery */
 	try_(fqlselect_set_as_inlist(subquery->op,
 	                             lg->condition->in_data,
@@ -330,6 +336,22 @@ process* _new_join_proc(enum join_type type, const char* algorithm, plan* self)
 	return new_(process, buffer, self);
 }
 
+/* ORDER BY sorts what was written to a file or to the screen.
+ * The records of a subquery never get that far.
+ */
+int _check_sources_are_unordered(query* query)
+{
+	table* it = vec_begin(query->sources);
+	for (; it != vec_end(query->sources); ++it) {
+		if (it->subquery != NULL && it->subquery->orderby != NULL) {
+			fputs("ORDER BY is not supported in a derived table\n",
+			      stderr);
+			return FQL_FAIL;
+		}
+	}
+	return FQL_GOOD;
+}
+
 int _from(plan* self, query* query, fqlhandle* fql)
 {
 	if (query->sources->size == 0) {
@@ -343,6 +365,7 @@ int _from(plan* self, query* query, fqlhandle* fql)
 	process* from_proc = NULL;
 	dnode* from_node = NULL;
 	++self->source_count;
+	try_(_check_sources_are_unordered(query));
 	if (table_iter->source_type == SOURCE_TABLE) {
 		string_sprintf(&plan_msg,
 		               "%s: %s",
-- 
2.43.0


From 04418c78f31a16cb509220b4535bc5158adddad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 058/109] fix: a fixed-width table that had become empty was
 read from memory no longer mapped

---
 lib/fixedread.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index ecad6b4..e23365a 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -62,7 +62,12 @@ int fixedread_reopen(reader* reader)
 	fixedread* self = reader->reader_data;
 	if (self->mmap != NULL) {
 		munmap(self->mmap, self->file_size);
+		self->mmap = NULL;
+		self->file_size = 0;
+	}
+	if (self->fd != -1) {
 		close(self->fd);
+		self->fd = -1;
 	}
 	return fixedread_open(reader, string_c_str(&reader->file_name));
 }
-- 
2.43.0


From b0068fef313e11ba9c9e5be4d49b8d560e10f859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:01 +0000
Subject: [PATCH 059/109] fix: statements read the old contents of tables that
 earlier statements had changed

---
 lib/query.c  | 1 -
 lib/schema.c | 1 -
 lib/table.c  | 5 ++++-
 lib/table.h  | 1 -
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index 30e2a2b..60e4343 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -560,7 +560,6 @@ int query_add_source(query* self,
 
 	if (is_variable) {
 		vec_push_back(self->variable_tables, &new_table->idx);
-		new_table->must_reopen = true;
 	}
 
 	if (schema_name != NULL) {
diff --git a/lib/schema.c b/lib/schema.c
index 01e50c0..ce6f106 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -275,7 +275,6 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 		schema_add_expression(table->schema, new_expr, table->idx);
 	}
 
-	table->must_reopen = true;
 	table->schema->is_preresolved = true;
 	//table->reader->type = (*match)->write_io_type;
 	//table->schema->is_default = (*match)->is_default;
diff --git a/lib/table.c b/lib/table.c
index aa6627b..44bffd8 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -83,7 +83,10 @@ int table_reset(table* self, bool has_executed)
 		return FQL_GOOD;
 	}
 
-	if (self->must_reopen) {
+	/* Earlier statements, or earlier iterations of a loop may have
+	 * replaced the file since it was opened to plan the query.
+	 */
+	if (!self->is_stdin) {
 		try_(reader_reopen(self->reader));
 		try_(self->reader->reset__(self->reader));
 		hashjoin_reset(self->join_data);
diff --git a/lib/table.h b/lib/table.h
index 9d6a437..0beaf4a 100644
--- a/lib/table.h
+++ b/lib/table.h
@@ -25,7 +25,6 @@ struct table {
 	size_t idx;
 	enum source_type source_type;
 	enum join_type join_type;
-	bool must_reopen;
 	bool is_stdin;
 };
 typedef struct table table;
-- 
2.43.0


From eab34b2ce5d1dc84a8a9e221048d1946b021bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 060/109] fix: operators, ISNULL and CASE in IF and WHILE
 conditions were never resolved

---
 lib/operation.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index 70277dc..3b1a0cf 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -5,6 +5,7 @@
 #include "table.h"
 #include "group.h"
 #include "order.h"
+#include "logic.h"
 #include "fqlbranch.h"
 #include "reader.h"
 #include "fqlhandle.h"
@@ -49,6 +50,12 @@ vec* op_get_expressions(enum fql_operation* self)
 		fqlset* setstmt = (fqlset*)self;
 		return &setstmt->_expr_vec;
 	}
+	/* Conditions have to be resolved like any other expression */
+	if (*self == FQL_IF || *self == FQL_WHILE) {
+		fqlbranch* branch = (fqlbranch*)self;
+		return (branch->condition == NULL) ? NULL
+		                                   : branch->condition->expressions;
+	}
 	schema* op_schema = op_get_schema(self);
 	if (op_schema == NULL) {
 		return NULL;
-- 
2.43.0


From 8dd102aab35bfb3a7f8d5cf108df160905b31eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:35 +0000
Subject: [PATCH 061/109] fix: -S and -W crashed on programs with DECLARE, SET,
 IF or WHILE

---
 lib/schema.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index ce6f106..7254826 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1451,11 +1451,14 @@ int schema_resolve(struct fqlhandle* fql)
 			(*it)->next_idx_ref = NULL;
 		}
 
-		if (fql->_out_delim_set) {
+		/* statements without output have no schema to adjust */
+		bool has_schema = op_get_schema((*it)->op) != NULL;
+
+		if (has_schema && fql->_out_delim_set) {
 			op_set_delim((*it)->op, fql->props.out_delim);
 		}
 
-		if (fql->props.rec_terminator[0]) {
+		if (has_schema && fql->props.rec_terminator[0]) {
 			op_set_rec_terminator((*it)->op, fql->props.rec_terminator);
 		}
 
-- 
2.43.0


From 5c1534d4d4405702b3b07f0e00912507804dd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 062/109] fix: __rownum outside SELECT and UPDATE, and BETWEEN,
 crashed instead of being refused

---
 lib/logic.c | 4 ++++
 lib/query.c | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/lib/logic.c b/lib/logic.c
index c8d7ca6..2a2705d 100644
--- a/lib/logic.c
+++ b/lib/logic.c
@@ -80,6 +80,10 @@ int logic_assign_process(logic* self, process* proc)
 	} else {
 		self->data_type = FIELD_STRING;
 	}
+	if (self->comp_type < COMP_EQ || self->data_type < 0) {
+		fputs("unsupported comparison\n", stderr);
+		return FQL_FAIL;
+	}
 	self->logic__ = _logic_matrix[self->comp_type][self->data_type];
 	if (self->logic__ == NULL) {
 		fprintf(stderr,
diff --git a/lib/query.c b/lib/query.c
index 60e4343..437607f 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -380,6 +380,12 @@ int query_add_expression(query* self, char* expr_name, const char* table_id)
 		expr = new_(expression, EXPR_ROW_NUMBER, expr_name, table_id);
 		expr->field_type = FIELD_INT;
 		op_assign_rownum_ref(self->op, expr);
+		if (expr->rownum_ref == NULL) {
+			fputs("__rownum is only available in SELECT and UPDATE\n",
+			      stderr);
+			delete_(expression, expr);
+			return FQL_FAIL;
+		}
 	} else {
 		expr = new_(expression, EXPR_COLUMN_NAME, expr_name, table_id);
 	}
-- 
2.43.0


From eafff663655e2533583c468c48c6069985bfa459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:57 +0000
Subject: [PATCH 063/109] fix: CAST in a DECLARE initializer changed the
 variable's type instead of casting

---
 lib/antlr/listenerinterface.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 3ebe3c6..5b2215b 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -537,7 +537,8 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		free_(token);
 		break;
 	case TOK_DATA_TYPE:
-		if (_query->mode == MODE_DECLARE) {
+		/* the type of a CAST or of the declared variable */
+		if (_query->mode == MODE_DECLARE && _query->function_stack == NULL) {
 			if (libfql_set_variable_type(_fql, query_get_variable_idx(_query), token)) {
 				_set_failure();
 			}
@@ -808,17 +809,16 @@ void ListenerInterface::enterData_type(TSqlParser::Data_typeContext * ctx)
 		return;
 	}
 
-	switch (_query->mode) {
-	case MODE_DECLARE:
+	if (_query->mode == MODE_DECLARE && _query->function_stack == NULL) {
 		if (libfql_set_variable_limit(_fql, query_get_variable_idx(_query), numstr)) {
 			_set_failure();
 		}
-		break;
-	default:  /* TODO: actually be explicit here... */
-		if (query_add_constant(_query, numstr, num_iter - numstr)) {
-			_set_failure();
-		}
-		break;
+		return;
+	}
+
+	/* TODO: actually be explicit here... */
+	if (query_add_constant(_query, numstr, num_iter - numstr)) {
+		_set_failure();
 	}
 }
 void ListenerInterface::exitData_type(TSqlParser::Data_typeContext * ctx) { }
-- 
2.43.0


From dd843c1404ca2418ba204229e9c819832be62b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 064/109] fix: A constant that was printed once became a string
 for the API

---
 lib/expression.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 5c6532e..6160a22 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -610,12 +610,13 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		try_(field_to_stringview(ret, &self->buf, &new_field, &new_field_type));
 		break;
 	}
-	case EXPR_CONST:
-		try_(field_to_stringview(ret,
-		                         &self->buf,
-		                         &self->field,
-		                         &self->field_type));
+	case EXPR_CONST: {
+		/* the expression itself keeps its type */
+		union field new_field = self->field;
+		enum field_type new_field_type = self->field_type;
+		try_(field_to_stringview(ret, &self->buf, &new_field, &new_field_type));
 		break;
+	}
 	default:
 		fprintf(stderr, "expr_get_stringview: Unexpected expression\n");
 		return FQL_FAIL;
-- 
2.43.0


From bea21e6843e7216d24a6a025215f27aeffb462bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 065/109] fix: SELECT INTO a variable was taken for a SELECT
 with output by the API

---
 lib/libfql.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/libfql.c b/lib/libfql.c
index 6699eb4..0c07c8c 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -179,12 +179,18 @@ int fql_reset(fqlhandle* fql)
 	return FQL_GOOD;
 }
 
+bool _is_steppable(query* query)
+{
+	enum fql_operation* op = query->op;
+	return *op == FQL_SELECT && query->into_table_name == NULL
+	       && query->into_table_var_idx == -1;
+}
+
 int _api_connect(fqlhandle* fql)
 {
 	query** query = vec_at(fql->query_vec, fql->query_idx);
 
-	enum fql_operation operation = *(enum fql_operation*)(*query)->op;
-	if (operation != FQL_SELECT || (*query)->into_table_name != NULL) {
+	if (!_is_steppable(*query)) {
 		fputs("can only step through SELECT queries\n", stderr);
 		return FQL_FAIL;
 	}
@@ -693,8 +699,7 @@ long fql_exec_until_select(fqlhandle* fql)
 	long exec_count = 0;
 	query* current_query = _get_active_query(fql);
 	while (current_query) {
-		enum fql_operation* current_op = current_query->op;
-		if (*current_op == FQL_SELECT && current_query->into_table_name == NULL) {
+		if (_is_steppable(current_query)) {
 			break;
 		}
 		++exec_count;
-- 
2.43.0


From 4eb7d5ecdb74a2100a01d75ca3462b96951072df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 066/109] fix: fql_reset kept the fields of the query that was
 stepped through

---
 lib/fqlselect.c |  6 +++---
 lib/libfql.c    | 23 +++++++++++++----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index 29699e4..f18fe62 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -166,7 +166,7 @@ int fqlselect_connect_api(query* query, vec* api)
 	op_expand_asterisks(query, true);
 
 	vec* exprs = self->schema->expressions;
-	vec_resize(api, exprs->size);
+	vec_clear(api);
 
 	expression** it = vec_begin(exprs);
 	unsigned i = 0;
@@ -174,8 +174,8 @@ int fqlselect_connect_api(query* query, vec* api)
 		if ((*it)->subquery != NULL) {
 			try_(fqlselect_resolve_type_from_subquery(*it));
 		}
-		struct fql_field* field = vec_at(api, i);
-		field->is_null = false;
+		struct fql_field* field = vec_add_one(api);
+		*field = (struct fql_field) {.type = FQL_UNDEFINED};
 		switch (it[i]->field_type) {
 		case FIELD_INT:
 			field->type = FQL_INT;
diff --git a/lib/libfql.c b/lib/libfql.c
index 0c07c8c..013ed44 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -155,8 +155,21 @@ int libfql_set_variable_limit(fqlhandle* fql, int idx, const char* limit_str)
 	return FQL_GOOD;
 }
 
+void _free_api_strings(vec* api)
+{
+	struct fql_field* it = vec_begin(api);
+	for (; it != vec_end(api); ++it) {
+		if (it->type == FQL_STRING) {
+			delete_(string, it->_in);
+		}
+	}
+}
+
 int fql_reset(fqlhandle* fql)
 {
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
+
 	query** it = vec_begin(fql->query_vec);
 	for (; it != vec_end(fql->query_vec); ++it) {
 		delete_(query, *it);
@@ -636,16 +649,6 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 	return fql->query_vec->size;
 }
 
-void _free_api_strings(vec* api)
-{
-	struct fql_field* it = vec_begin(api);
-	for (; it != vec_end(api); ++it) {
-		if (it->type == FQL_STRING) {
-			delete_(string, it->_in);
-		}
-	}
-}
-
 int fql_step(fqlhandle* fql, struct fql_field** fields)
 {
 	query** query = vec_at(fql->query_vec, fql->query_idx);
-- 
2.43.0


From 1c3e487c3c482cad623e38b70d8529ae1f048a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 067/109] fix: A query that was stepped through printed nothing
 when it was executed again

---
 lib/fqlselect.c |  7 +++++++
 lib/fqlselect.h |  1 +
 lib/libfql.c    | 41 ++++++++++++++++++++++++++++++++++-------
 lib/order.c     |  7 +++++++
 lib/order.h     |  1 +
 5 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index f18fe62..a84860e 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -197,6 +197,13 @@ int fqlselect_connect_api(query* query, vec* api)
 	return FQL_GOOD;
 }
 
+void fqlselect_disconnect_api(query* query)
+{
+	fqlselect* self = query->op;
+	self->select__ = &_select_record;
+	self->api = NULL;
+}
+
 void fqlselect_apply_process(query* query, plan* plan, bool is_subquery_source)
 {
 	fqlselect* self = query->op;
diff --git a/lib/fqlselect.h b/lib/fqlselect.h
index 7af1430..8be1ddd 100644
--- a/lib/fqlselect.h
+++ b/lib/fqlselect.h
@@ -49,6 +49,7 @@ void fqlselect_unlock_expressions(struct fqlselect*);
 unsigned fqlselect_get_field_count(struct fqlselect*, const struct vec*);
 void fqlselect_add_expression(struct fqlselect*, struct expression*);
 int fqlselect_connect_api(struct query*, struct vec*);
+void fqlselect_disconnect_api(struct query*);
 void fqlselect_apply_process(struct query*, struct fqlplan*, bool);
 void fqlselect_apply_expression_alias(struct fqlselect*, const char* alias);
 int fqlselect_set_as_inlist(struct fqlselect*, struct inlist*, struct expression* left);
diff --git a/lib/libfql.c b/lib/libfql.c
index 013ed44..90807b2 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -230,6 +230,28 @@ int _api_connect(fqlhandle* fql)
 	return FQL_GOOD;
 }
 
+/* The query may be executed again, and not be stepped through then. */
+void _api_disconnect(fqlhandle* fql, query* query)
+{
+	if (vec_empty(fql->api_vec)) {
+		return;
+	}
+
+	_free_api_strings(fql->api_vec);
+	vec_clear(fql->api_vec);
+
+	fqlselect_disconnect_api(query);
+	if (query->orderby != NULL) {
+		order_disconnect_api(query);
+	}
+
+	dnode** it = vec_begin(query->plan->processes->nodes);
+	for (; it != vec_end(query->plan->processes->nodes); ++it) {
+		process* proc = (*it)->data;
+		proc->max_recs_iter = -1;
+	}
+}
+
 /**
  * Property mutators
  */
@@ -564,6 +586,8 @@ int fql_exec_plans(fqlhandle* fql, int plan_count)
 			return FQL_FAIL;
 		}
 
+		_api_disconnect(fql, *query);
+
 		if (fql->props.verbosity > FQL_BASIC) {
 			fprintf(stderr, "EXEC: %s\n", string_c_str((*query)->text));
 		}
@@ -651,16 +675,20 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 
 int fql_step(fqlhandle* fql, struct fql_field** fields)
 {
-	query** query = vec_at(fql->query_vec, fql->query_idx);
-	struct fqlplan* plan = (*query)->plan;
+	query* query = _get_active_query(fql);
+	if (query == NULL) {
+		return 0;
+	}
+
+	struct fqlplan* plan = query->plan;
 	int ret = 0;
 	if (!plan->has_stepped) {
 		if (vec_empty(fql->api_vec)) {
-			_api_connect(fql);
+			try_(_api_connect(fql));
 		}
 		plan->has_stepped = true;
 
-		ret = query_prepare(*query);
+		ret = query_prepare(query);
 		if (ret == FQL_FAIL) {
 			goto _step_fail_break;
 		}
@@ -685,10 +713,9 @@ _step_fail_break:
 
 	plan->has_stepped = false;
 
-	_free_api_strings(fql->api_vec);
-	vec_clear(fql->api_vec);
+	_api_disconnect(fql, query);
 
-	fql->query_idx = (*query)->next_idx;
+	fql->query_idx = query->next_idx;
 
 	if (ret == FQL_FAIL || fql->query_idx >= fql->query_vec->size) {
 		fql_reset(fql);
diff --git a/lib/order.c b/lib/order.c
index eee8638..8620eb5 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -258,6 +258,13 @@ void order_connect_api(query* query, vec* api_vec)
 	self->api = api_vec;
 }
 
+void order_disconnect_api(query* query)
+{
+	order* self = query->orderby;
+	self->select__ = &_order_select;
+	self->api = NULL;
+}
+
 int order_add_expression(order* self, expression* expr)
 {
 	if (self == NULL) {
diff --git a/lib/order.h b/lib/order.h
index 1243740..31255af 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -44,6 +44,7 @@ int order_add_expression(struct order*, struct expression*);
 int order_init_io(struct order*, const char* in, const char* out);
 void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
+void order_disconnect_api(struct query*);
 int order_preresolve_expressions(struct order*, struct query*);
 int order_add_record(struct order*, struct node*);
 int order_sort(struct order*);
-- 
2.43.0


From 817d413c6ba266d58e7ecae846f73357fd002898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 068/109] fix: NULL strings as sort keys or columns of derived
 tables had an undefined length

---
 lib/order.c    | 6 +++++-
 lib/subquery.c | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 8620eb5..f384ee4 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -315,8 +315,12 @@ int order_add_record(order* self, node* rg)
 			break;
 		}
 		case FIELD_STRING: {
+			/* NULL is sorted as an empty string */
 			stringview sv;
-			try_(expression_get_stringview(&sv, exprs[i], rg));
+			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			    == FQL_NULL) {
+				sv = (stringview) {"", 0};
+			}
 			flex_push_back(&self->order_data, (void*)sv.data, sv.len);
 			break;
 		}
diff --git a/lib/subquery.c b/lib/subquery.c
index 046a4ed..b30f313 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -48,7 +48,9 @@ static int _get_record(reader* reader, node* rg)
 	expression** it = vec_begin(expressions);
 	for (; it != vec_end(expressions); ++it) {
 		stringview* copy_sv = vec_add_one(&self->copy_data.fields);
-		try_(expression_get_stringview(copy_sv, *it, rg));
+		if (try_(expression_get_stringview(copy_sv, *it, rg)) == FQL_NULL) {
+			*copy_sv = (stringview) {"", 0};
+		}
 
 		if (reader->random_access_file) {
 			if (it != vec_begin(expressions)) {
-- 
2.43.0


From 9816de7f7f7bba2c3d0aec5dd0ba90ee93099ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 069/109] fix: A join with __stdin on its right side failed or
 crashed

---
 lib/fixedread.c    |  9 ++++++++-
 lib/fqlplan.c      |  6 +++++-
 lib/fqlprocesses.c |  4 ++--
 lib/libcsvread.c   | 12 +++++++++++-
 lib/reader.c       | 20 ++++++++++++++++++++
 lib/reader.h       |  1 +
 6 files changed, 47 insertions(+), 5 deletions(-)

diff --git a/lib/fixedread.c b/lib/fixedread.c
index e23365a..721ab3b 100644
--- a/lib/fixedread.c
+++ b/lib/fixedread.c
@@ -163,7 +163,14 @@ int fixedread_reset(reader* reader)
 
 int fixedread_reset_stdin(reader* reader)
 {
-	reader_stop_file_backed_input(reader);
+	if (reader->random_access_file == NULL) {
+		fputs("Cannot read standard input twice\n", stderr);
+		return FQL_FAIL;
+	}
+
+	try_(reader_finish_file_backed_input(reader));
+	reader->eof = false;
+	reader->rec_id = 0;
 	reader->reset__ = &fixedread_reset;
 	reader->get_record__ = &fixedread_get_record;
 
diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 7f0a0d5..17940be 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -405,7 +405,7 @@ int _from(plan* self, query* query, fqlhandle* fql)
 			join_proc->has_second_input = true;
 
 			if (table_iter->is_stdin) {
-				reader_start_file_backed_input(table_iter->reader);
+				try_(reader_start_file_backed_input(table_iter->reader));
 			}
 			table_hash_join_init(table_iter);
 
@@ -458,6 +458,10 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				      stderr);
 				return FQL_FAIL;
 			}
+			/* read once for each row on the left side */
+			if (table_iter->is_stdin) {
+				try_(reader_start_file_backed_input(table_iter->reader));
+			}
 			join_proc =
 			        _new_join_proc(table_iter->join_type, "cartesian", self);
 			join_proc->action__ = &fql_cartesian_join;
diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 7c5b43b..62bd563 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -355,7 +355,7 @@ enum proc_return fql_cartesian_join(process* proc)
 			break;
 		}
 		default: { /* eof */
-			reader->reset__(reader);
+			try_(reader->reset__(reader));
 			fifo_consume(in_left);
 			fqlprocess_recycle(proc, iter_left);
 			iter_left = fifo_peek(in_left);
@@ -481,7 +481,7 @@ enum proc_return fql_hash_join(process* proc)
 		if (fifo_is_empty(in_right)) {
 			if (_is_done(proc, in_right)) {
 				hj->state = SIDE_LEFT;
-				table->reader->reset__(table->reader);
+				try_(table->reader->reset__(table->reader));
 				return PROC_RETURN_RUNNING;
 			}
 			return PROC_RETURN_WAIT_ON_IN1;
diff --git a/lib/libcsvread.c b/lib/libcsvread.c
index 0c66c9e..cbf99e7 100644
--- a/lib/libcsvread.c
+++ b/lib/libcsvread.c
@@ -108,8 +108,18 @@ int libcsv_reset(reader* self)
 
 int libcsv_reset_stdin(reader* self)
 {
-	reader_stop_file_backed_input(self);
+	if (self->random_access_file == NULL) {
+		fputs("Cannot read standard input twice\n", stderr);
+		return FQL_FAIL;
+	}
+
+	try_(reader_finish_file_backed_input(self));
 	self->reset__ = libcsv_reset;
+	self->rec_id = 0;
+	self->eof = false;
+
+	/* any header was not written to the file */
+	self->skip_rows = 0;
 	if (csv_reader_open_mmap(self->reader_data,
 	                         string_c_str(self->random_access_filename))) {
 		csv_perror();
diff --git a/lib/reader.c b/lib/reader.c
index 95d2b2d..14f73cc 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -184,3 +184,23 @@ int reader_stop_file_backed_input(reader* self)
 	self->random_access_file = NULL;
 	return FQL_GOOD;
 }
+
+/* Copy what has not been read yet, and close the file */
+int reader_finish_file_backed_input(reader* self)
+{
+	node rg = {0};
+	rg.data = new_(record, 0);
+	int ret = FQL_GOOD;
+	while (!self->eof && ret == FQL_GOOD) {
+		ret = self->get_record__(self, &rg);
+	}
+	delete_(record, rg.data);
+
+	FILE* file = self->random_access_file;
+	reader_stop_file_backed_input(self);
+	if (fclose(file)) {
+		perror(string_c_str(self->random_access_filename));
+		return FQL_FAIL;
+	}
+	return (ret == FQL_FAIL) ? FQL_FAIL : FQL_GOOD;
+}
diff --git a/lib/reader.h b/lib/reader.h
index e9a5abe..00cc3b4 100644
--- a/lib/reader.h
+++ b/lib/reader.h
@@ -49,6 +49,7 @@ int reader_reopen(struct reader*);
 size_t reader_get_file_size(struct reader*);
 int reader_start_file_backed_input(struct reader*);
 int reader_stop_file_backed_input(struct reader*);
+int reader_finish_file_backed_input(struct reader*);
 
 
 /* Below structures extend struct reader
-- 
2.43.0


From 408c071c93b9a9ed209d1b7ed632c22a60754934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 070/109] fix: Inserting or erasing zero elements by index
 damaged a vec

---
 util/vec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/vec.c b/util/vec.c
index 7e16479..3e1280c 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -184,6 +184,9 @@ void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 
 void vec_insert_at(vec* restrict self, size_t idx, const void* begin, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* pos = vec_at(self, idx);
 	const void* back = (const char*)begin + ((len - 1) * self->_elem_size);
 	vec_insert_iter(self, pos, begin, back);
@@ -212,6 +215,9 @@ void vec_erase_one(vec* restrict self, void* elem)
 
 void vec_erase_at(vec* restrict self, size_t index, size_t len)
 {
+	if (len == 0) {
+		return;
+	}
 	void* begin = vec_at(self, index);
 	const void* back = vec_at(self, index + len - 1);
 	vec_erase_iter(self, begin, back);
-- 
2.43.0


From e710851e9255b217d46fe9f5434a06b77999105c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 071/109] fix: vec_set_iter left most of the last element
 behind

---
 util/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 3e1280c..9443bed 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -131,9 +131,9 @@ void* vec_add_one_front(vec* restrict self)
 	return vec_begin(self);
 }
 
-void vec_set_iter(vec* restrict _unused, void* pos, const void* begin, const void* back)
+void vec_set_iter(vec* restrict self, void* pos, const void* begin, const void* back)
 {
-	memcpy(pos, begin, (char*)back - (char*)begin + 1);
+	memcpy(pos, begin, (char*)back - (char*)begin + self->_elem_size);
 }
 
 void vec_set_one(vec* restrict self, void* pos, const void* restrict src)
-- 
2.43.0


From b1e72e4ccb3b792e94db0576657e66bd654d73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 072/109] fix: vec_insert_one wrote to where the data was
 before it moved

---
 util/vec.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 9443bed..5680710 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -174,9 +174,13 @@ void vec_insert_iter(vec* restrict self, void* pos, const void* begin, const voi
 
 void vec_insert_one(vec* restrict self, void* pos, const void* restrict data)
 {
+	size_t idx = vec_get_idx_(self, pos);
+
 	vec_add_one(self);
-	size_t move_bytes =
-	        self->_elem_size * ((self->_alloc - 1) - vec_get_idx_(self, pos));
+	size_t move_bytes = self->_elem_size * ((self->_alloc - 1) - idx);
+
+	/* the data may have moved */
+	pos = vec_at(self, idx);
 
 	memmove((char*)pos + self->_elem_size, pos, move_bytes);
 	memcpy(pos, data, self->_elem_size);
-- 
2.43.0


From 8091ebdd875b350ce2394a4170cbbc99f474dd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 073/109] fix: vec_resize_and_zero did not zero what was used
 before

---
 util/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index 5680710..f8c136f 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -82,11 +82,11 @@ void vec_resize(vec* restrict self, size_t size)
 void vec_resize_and_zero(vec* restrict self, size_t size)
 {
 	size_t org_size = self->size;
-	size_t org_alloc = self->_alloc;
 	vec_resize(self, size);
-	if (org_alloc == self->_alloc) {
+	if (size <= org_size) {
 		return;
 	}
+	/* There may be old elements past the original size */
 	void* new_shit = vec_at(self, org_size);
 	size_t new_shit_size = self->_alloc - org_size;
 	memset(new_shit, 0, new_shit_size * self->_elem_size);
-- 
2.43.0


From 0083add7d8132a17a8e6904e3ddd85d9abd41219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 074/109] fix: bitvec_resize left old bits or garbage in what
 it added

---
 util/vec.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/util/vec.c b/util/vec.c
index f8c136f..58a2b57 100644
--- a/util/vec.c
+++ b/util/vec.c
@@ -283,9 +283,9 @@ void bitvec_set(bitvec* restrict self, size_t idx, bool newval)
 	uint32_t* num = vec_at(self, idx / 32);
 	uint32_t offset = idx % 32;
 	if (newval) {
-		*num |= (1 << offset);
+		*num |= (1u << offset);
 	} else {
-		*num &= ~(1 << offset);
+		*num &= ~(1u << offset);
 	}
 }
 
@@ -307,19 +307,23 @@ void bitvec_reserve(bitvec* restrict self, size_t size)
 
 void bitvec_resize(bitvec* restrict self, size_t size)
 {
-	size_t org_size = self->size / 32 + 1;
-	size_t org_alloc = self->_alloc;
+	size_t org_size = self->size;
 
-	if (size > self->size) {
-		bitvec_reserve(self, size);
-	}
 	self->size = size;
+	if (size <= org_size) {
+		return;
+	}
+	bitvec_reserve(self, size);
 
-	if (org_alloc == self->_alloc) {
+	/* There may be old bits past the original size */
+	for (; org_size < size && org_size % 32 != 0; ++org_size) {
+		bitvec_set(self, org_size, false);
+	}
+	if (org_size % 32 != 0) {
 		return;
 	}
-	void* new_shit = vec_at(self, org_size);
-	size_t new_shit_size = self->_alloc - org_size;
+	void* new_shit = vec_at(self, org_size / 32);
+	size_t new_shit_size = self->_alloc - org_size / 32;
 	memset(new_shit, 0, new_shit_size * self->_elem_size);
 }
 
-- 
2.43.0


From b53a52a75f6bcf00f13fb0f977636a65b7020895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 075/109] fix: Elements added by flex_resize were never
 initialized

---
 util/flex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/flex.c b/util/flex.c
index 3145389..adabe29 100644
--- a/util/flex.c
+++ b/util/flex.c
@@ -60,7 +60,7 @@ void flex_reserve(flex* restrict self, size_t size)
 void flex_resize(flex* restrict self, size_t size)
 {
 	if (size > self->_pairs.size) {
-		vec_resize(&self->_pairs, size);
+		vec_resize_and_zero(&self->_pairs, size);
 		return;
 	}
 	for (; self->_pairs.size > size;
-- 
2.43.0


From 9f298487e7ce1d5269fc51c4601c2f57811f4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 076/109] fix: Traversing a graph without roots crashed, with
 many shared children lost nodes

---
 util/dgraph.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/util/dgraph.c b/util/dgraph.c
index e5eee76..c787a57 100644
--- a/util/dgraph.c
+++ b/util/dgraph.c
@@ -159,7 +159,8 @@ void dgraph_traverse_reset(dgraph* restrict self)
 {
 	dgraph_get_roots(self);
 
-	fifo_resize(self->_trav, self->nodes->size);
+	/* A node may be queued by each edge that leads to it */
+	fifo_resize(self->_trav, 2 * self->nodes->size + 2);
 
 	/* we are going to enter the first root manually */
 	self->_root_idx = 1;
@@ -170,6 +171,9 @@ void dgraph_traverse_reset(dgraph* restrict self)
 	}
 
 	/* start at first discovered root */
+	if (vec_empty(self->_roots)) {
+		return;
+	}
 	it = vec_begin(self->_roots);
 	fifo_add(self->_trav, it);
 }
@@ -189,7 +193,10 @@ dnode* dgraph_traverse(dgraph* restrict self)
 	}
 
 	dnode** node = fifo_get(self->_trav);
-	++(*node)->visit_count;
+	if (++(*node)->visit_count > 1) {
+		/* its children have been queued already */
+		return *node;
+	}
 
 	if ((*node)->out[0] != NULL && !(*node)->out[0]->visit_count) {
 		fifo_add(self->_trav, &(*node)->out[0]);
-- 
2.43.0


From 7f51b3f4b25d56a17545c1a1b67e9a121cfdc020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 077/109] fix: fifo_get_or_wait kept others from closing the
 fifo it waits on

---
 util/fifo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/fifo.c b/util/fifo.c
index c7f3243..c7a7f70 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -129,7 +129,10 @@ void* fifo_get_or_wait(fifo* restrict self)
 			pthread_mutex_unlock(&self->tail_mutex);
 			return NULL;
 		}
+		/* whoever closes or waits for room needs the tail meanwhile */
+		pthread_mutex_unlock(&self->tail_mutex);
 		fifo_wait_for_add(self);
+		pthread_mutex_lock(&self->tail_mutex);
 	}
 	void* data = fifo_peek(self);
 	_idx_adv_(self->tail);
-- 
2.43.0


From 250260646836bc5f9531c6136dfade32c821b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 078/109] fix: fifo_receivable reported endless room in a full
 fifo

---
 util/fifo.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/fifo.c b/util/fifo.c
index c7a7f70..1dfcd35 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -111,6 +111,9 @@ bool fifo_is_full(const fifo* restrict self)
 unsigned fifo_receivable(fifo* restrict self)
 {
 	unsigned avail = fifo_available(self);
+	if (avail + self->input_count >= self->buf->size) {
+		return 0;
+	}
 	return self->buf->size - avail - self->input_count;
 }
 
-- 
2.43.0


From e2a9a60461c8257bcbcbd50beaa1dec671e4e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:13 +0000
Subject: [PATCH 079/109] fix: Adding an empty vec to a fifo read out of its
 bounds

---
 util/fifo.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/fifo.c b/util/fifo.c
index 1dfcd35..40112a7 100644
--- a/util/fifo.c
+++ b/util/fifo.c
@@ -259,7 +259,7 @@ void fifo_nadd(fifo* restrict self, vec* restrict src)
 	pthread_mutex_lock(&self->head_mutex);
 
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	if (receivable == 0 || vec_empty(src)) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return;
 	}
@@ -298,7 +298,7 @@ int fifo_nadd_try(fifo* restrict self, vec* restrict src)
 		return ret;
 	}
 	unsigned receivable = fifo_receivable(self);
-	if (receivable == 0) {
+	if (receivable == 0 || vec_empty(src)) {
 		pthread_mutex_unlock(&self->head_mutex);
 		return 0;
 	}
-- 
2.43.0


From ba1cc757b156f519eb13d40f0217756fcc0d87d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 080/109] fix: A failure to complete an output file was
 reported without a message

---
 lib/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/writer.c b/lib/writer.c
index 2560bd6..aea123d 100644
--- a/lib/writer.c
+++ b/lib/writer.c
@@ -91,6 +91,7 @@ int writer_close(writer* self)
 	switch (self->type) {
 	case IO_LIBCSV:
 		if (csv_writer_close(self->writer_data) == CSV_FAIL) {
+			csv_perror();
 			return FQL_FAIL;
 		}
 		break;
-- 
2.43.0


From b80851bd4201089e5c19899f152cf346f7e63a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 081/109] fix: Failing writes of a fixed-width table went
 unnoticed and replaced the table

---
 lib/fixedwrite.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/fixedwrite.c b/lib/fixedwrite.c
index 8c2ae90..e0a7f99 100644
--- a/lib/fixedwrite.c
+++ b/lib/fixedwrite.c
@@ -1,5 +1,6 @@
 #include "writer.h"
 #include <sys/stat.h>
+#include <unistd.h>
 #include "fql.h"
 #include "misc.h"
 #include "fqlsig.h"
@@ -52,9 +53,15 @@ int _mktmp(fixedwriter* self)
 	}
 
 	int fd = mkstemp(self->tempname.data);
+	if (fd == -1) {
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 	self->file = fdopen(fd, "w");
 	if (!self->file) {
 		perror(string_c_str(&self->tempname));
+		close(fd);
+		fqlsig_tmp_remove_file(string_c_str(&self->tempname));
 		return FQL_FAIL;
 	}
 
@@ -80,7 +87,12 @@ int fixedwriter_close(fixedwriter* self)
 	if (self->file == stdout)
 		return FQL_GOOD;
 
-	fclose(self->file);
+	int write_error = ferror(self->file);
+	if (fclose(self->file) || write_error) {
+		self->file = NULL;
+		perror(string_c_str(&self->tempname));
+		return FQL_FAIL;
+	}
 	self->file = NULL;
 
 	if (self->is_detached) {
-- 
2.43.0


From 88d186e022d9cb9feeca6a4657361f337818283b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 082/109] fix: ORDER BY replaced a file though writing to it
 had failed

---
 lib/order.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/order.c b/lib/order.c
index f384ee4..f0b4428 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -119,7 +119,10 @@ int order_close_output(order* self)
 	if (self->out_temp_node == NULL) {
 		return FQL_GOOD;
 	}
-	int ret = fclose(self->out_file);
+	int ret = ferror(self->out_file);
+	if (fclose(self->out_file)) {
+		ret = EOF;
+	}
 	self->out_file = stdout;
 	if (ret || rename(string_c_str(&self->out_tempname),
 	                  string_c_str(&self->out_filename))) {
-- 
2.43.0


From fcda9007ef5dca5b7046876244c6c73f8bfa1242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 083/109] fix: Temporary files that could not be created for a
 join were written to anyway

---
 lib/fqlplan.c  | 2 +-
 lib/reader.c   | 7 +++++++
 lib/subquery.c | 2 +-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 17940be..3d41185 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -428,7 +428,7 @@ int _from(plan* self, query* query, fqlhandle* fql)
 				read_node->is_root = true;
 				read_proc->root_fifo = 0;
 			} else { /* SUBQUERY */
-				subquery_start_file_backed_input(table_iter->reader);
+				try_(subquery_start_file_backed_input(table_iter->reader));
 				read_proc =
 				        new_(process, "subquery file-backed read", self);
 				read_node = dgraph_add_data(self->processes, read_proc);
diff --git a/lib/reader.c b/lib/reader.c
index 14f73cc..4098be8 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -2,6 +2,7 @@
 
 #include <limits.h>
 #include <sys/types.h>
+#include <unistd.h>
 #include <csv.h>
 #include "fql.h"
 #include "misc.h"
@@ -159,9 +160,15 @@ int reader_mktmp(reader* self)
 	string_strcpy(self->random_access_filename, "./read_XXXXXX");
 
 	int fd = mkstemp(self->random_access_filename->data);
+	if (fd == -1) {
+		perror(string_c_str(self->random_access_filename));
+		return FQL_FAIL;
+	}
 	self->random_access_file = fdopen(fd, "w");
 	if (!self->random_access_file) {
 		perror(string_c_str(self->random_access_filename));
+		close(fd);
+		fqlsig_tmp_remove_file(string_c_str(self->random_access_filename));
 		return FQL_FAIL;
 	}
 
diff --git a/lib/subquery.c b/lib/subquery.c
index b30f313..58964ee 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -195,7 +195,7 @@ int subquery_restart(reader* reader)
 
 int subquery_start_file_backed_input(reader* reader)
 {
-	reader_start_file_backed_input(reader);
+	try_(reader_start_file_backed_input(reader));
 	reader->subquery_writer = csv_writer_new();
 	csv_writer_set_delim(reader->subquery_writer, "|");
 	reader->reset__ = &subquery_reset_from_join;
-- 
2.43.0


From 9487ff72dd720e144be5efb4ec2a7b3f38a0c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 084/109] fix: Joins read incomplete temporary files after
 failing writes

---
 lib/reader.c   | 3 ++-
 lib/subquery.c | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 4098be8..2c31cfb 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -205,7 +205,8 @@ int reader_finish_file_backed_input(reader* self)
 
 	FILE* file = self->random_access_file;
 	reader_stop_file_backed_input(self);
-	if (fclose(file)) {
+	int write_error = ferror(file);
+	if (fclose(file) || write_error) {
 		perror(string_c_str(self->random_access_filename));
 		return FQL_FAIL;
 	}
diff --git a/lib/subquery.c b/lib/subquery.c
index 58964ee..8ee1ec2 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -144,6 +144,11 @@ int subquery_reset(reader* reader)
  */
 int subquery_reset_from_join(reader* reader)
 {
+	/* the file is closed with the writer */
+	if (fflush(reader->random_access_file) || ferror(reader->random_access_file)) {
+		perror(string_c_str(reader->random_access_filename));
+		return FQL_FAIL;
+	}
 	reader_stop_file_backed_input(reader);
 	csv_writer_free(reader->subquery_writer);
 
-- 
2.43.0


From 408c415c496a3847058c4d4108c4e40efa69114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 085/109] fix: Output that could not be written went unnoticed

---
 src/fql.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fql.c b/src/fql.c
index dfeec78..93538cb 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -251,6 +251,10 @@ success_exit:
 	}
 	free(query_str);
 	fql_free(handle);
+	if (fflush(stdout) || ferror(stdout)) {
+		perror("stdout");
+		return EXIT_FAILURE;
+	}
 	return EXIT_SUCCESS;
 
 err_exit:
-- 
2.43.0


From ff1a3e098b32fe4040a7391651c90c64b8fac845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 086/109] fix: ORDER BY crashed if its temporary file could not
 be created

---
 lib/operation.c | 4 ++++
 lib/writer.c    | 1 +
 2 files changed, 5 insertions(+)

diff --git a/lib/operation.c b/lib/operation.c
index 3b1a0cf..21d149a 100644
--- a/lib/operation.c
+++ b/lib/operation.c
@@ -394,6 +394,10 @@ int op_reset(query* query, bool has_executed)
 	if (!query->union_id && query->orderby != NULL) {
 		char* out_name = writer_take_filename(op_writer);
 		const char* in_name = writer_export_temp(op_writer);
+		if (in_name == NULL) {
+			free_(out_name);
+			return FQL_FAIL;
+		}
 		try_(order_init_io(query->orderby, in_name, out_name));
 		free_(in_name);
 		free_(out_name);
diff --git a/lib/writer.c b/lib/writer.c
index aea123d..17b786a 100644
--- a/lib/writer.c
+++ b/lib/writer.c
@@ -148,6 +148,7 @@ const char* writer_export_temp(writer* self)
 	csv_writer* csv = self->writer_data;
 	if (!csv_writer_isopen(csv)) {
 		if (csv_writer_mktmp(csv) == CSV_FAIL) {
+			csv_perror();
 			return NULL;
 		}
 	}
-- 
2.43.0


From 5b455b624ce10c60a34ab5ef436df22ed32b18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 087/109] fix: Columns of a named schema were duplicated for a
 file made by an earlier statement

---
 lib/schema.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/schema.c b/lib/schema.c
index 7254826..08f170c 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -259,7 +259,7 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 	}
 
 	schema** match = hashmap_get(fql->schema_map, absolute_path);
-	if (match == NULL) {
+	if (match == NULL || !vec_empty(table->schema->expressions)) {
 		return FQL_GOOD;
 	}
 
-- 
2.43.0


From 555a3719cf522963bdba65154ceaeee752cd4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 088/109] fix: Reading back a fixed-width file made by an
 earlier statement did not end

---
 lib/schema.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/schema.c b/lib/schema.c
index 08f170c..6f211b9 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -264,16 +264,27 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 	}
 
 	vec* src_vec = (*match)->expressions;
+	bool is_fixed = ((*match)->write_io_type == IO_FIXED);
+	size_t running_offset = 0;
 
 	expression** it = vec_begin(src_vec);
 	for (; it != vec_end(src_vec); ++it) {
+		if (is_fixed && (*it)->width == 0) {
+			fprintf(stderr,
+			        "Cannot read `%s': width of column `%s' unknown\n",
+			        string_c_str(&table->reader->file_name),
+			        (const char*)(*it)->alias.data);
+			return FQL_FAIL;
+		}
 		expression* new_expr =
 		        new_(expression, EXPR_COLUMN_NAME, (*it)->alias.data, "");
 		new_expr->field_type = (*it)->field_type;
-		new_expr->location = (*it)->location;
+		new_expr->location = running_offset;
 		new_expr->width = (*it)->width;
+		running_offset += new_expr->width;
 		schema_add_expression(table->schema, new_expr, table->idx);
 	}
+	table->reader->reclen = running_offset;
 
 	table->schema->is_preresolved = true;
 	//table->reader->type = (*match)->write_io_type;
-- 
2.43.0


From 6bb7043cc5e9672e82f0f84cb09995d5e0c693ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:12 +0000
Subject: [PATCH 089/109] fix: The first row of a file made without a header by
 an earlier statement was skipped

---
 lib/schema.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/schema.c b/lib/schema.c
index 6f211b9..62f1ddb 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -286,6 +286,15 @@ int _resolve_file(struct fqlhandle* fql, query* query, table* table)
 	}
 	table->reader->reclen = running_offset;
 
+	/* see fqlselect_preop */
+	if (is_fixed) {
+		table->reader->skip_rows = 0;
+	} else if ((*match)->is_default) {
+		table->reader->skip_rows = (fql->props.print_header) ? 1 : 0;
+	} else {
+		table->reader->skip_rows = (fql->props.add_header) ? 1 : 0;
+	}
+
 	table->schema->is_preresolved = true;
 	//table->reader->type = (*match)->write_io_type;
 	//table->schema->is_default = (*match)->is_default;
-- 
2.43.0


From b4d619db6d5e9ea3c8c2c1458e0c072a8b40bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:36 +0000
Subject: [PATCH 090/109] fix: UPDATE and DELETE added a header to a file made
 without one by an earlier statement

---
 lib/fqldelete.c | 6 +++---
 lib/fqlupdate.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/fqldelete.c b/lib/fqldelete.c
index f944fff..0a07ca7 100644
--- a/lib/fqldelete.c
+++ b/lib/fqldelete.c
@@ -120,7 +120,9 @@ int fqldelete_apply_process(query* query, plan* plan)
 
 void fqldelete_preop(fqldelete* self, query* query)
 {
-	if (!self->schema->is_default) {
+	expression** aster = vec_begin(self->schema->expressions);
+	table* aster_src = vec_at(query->sources, (*aster)->src_idx);
+	if (aster_src->reader->skip_rows == 0) {
 		return;
 	}
 
@@ -132,8 +134,6 @@ void fqldelete_preop(fqldelete* self, query* query)
 	 * re-use the select writing implementations, we treat this
 	 * like the inverse of select [delete table].*
 	 */
-	expression** aster = vec_begin(self->schema->expressions);
-	table* aster_src = vec_at(query->sources, (*aster)->src_idx);
 	vec* aster_exprs = aster_src->schema->expressions;
 	expression** it = vec_begin(aster_exprs);
 	for (; it != vec_end(aster_exprs); ++it) {
diff --git a/lib/fqlupdate.c b/lib/fqlupdate.c
index ebadb0d..6ad2472 100644
--- a/lib/fqlupdate.c
+++ b/lib/fqlupdate.c
@@ -155,7 +155,9 @@ int fqlupdate_apply_process(query* query, plan* plan)
 
 void fqlupdate_preop(fqlupdate* self, query* query)
 {
-	if (!self->schema->is_default) {
+	expression** aster = vec_begin(self->schema->expressions);
+	table* aster_src = vec_at(query->sources, (*aster)->src_idx);
+	if (aster_src->reader->skip_rows == 0) {
 		return;
 	}
 
@@ -163,8 +165,6 @@ void fqlupdate_preop(fqlupdate* self, query* query)
 	vec_construct_(&header, expression*);
 
 	/* print header */
-	expression** aster = vec_begin(self->schema->expressions);
-	table* aster_src = vec_at(query->sources, (*aster)->src_idx);
 	vec* aster_exprs = aster_src->schema->expressions;
 	expression** it = vec_begin(aster_exprs);
 	for (; it != vec_end(aster_exprs); ++it) {
-- 
2.43.0


From 0c04ffdc2bc7cf02593ec83a29f64d5136ebec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:50 +0000
Subject: [PATCH 091/109] fix: Columns of a file made without a header by an
 earlier statement were lost

---
 lib/schema.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/schema.c b/lib/schema.c
index 62f1ddb..0b25e02 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -593,7 +593,7 @@ int _resolve_source(struct fqlhandle* fql, query* query, table* table, int src_i
 		if (!self->is_preresolved) {
 			schema_assign_header(table, rec, src_idx);
 		}
-	} else {
+	} else if (!self->is_preresolved) {
 		unsigned newsize = (rec->fields.size) ? rec->fields.size : 1;
 		if (newsize < self->expressions->size) {
 			expression** it = vec_at(self->expressions, newsize);
-- 
2.43.0


From 534a716d6dc1ee51d56fd4fdaae9a138cc204485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:55 +0000
Subject: [PATCH 092/109] fix: Joining a file made by an earlier statement
 compared only its first column

The table is still empty when its size is estimated, and in that case
the number of columns to read was not restored.
---
 lib/table.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/table.c b/lib/table.c
index 44bffd8..d9cda46 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -186,14 +186,14 @@ size_t _guess_row_count(table* self)
 		}
 	}
 
-	if (i == 0) {
-		return HASH_JOIN_MIN_SIZE;
-	}
-
 	delete_(record, rg.data);
 
 	reader->max_idx = max_expr_store;
 
+	if (i == 0) {
+		return HASH_JOIN_MIN_SIZE;
+	}
+
 	double avg_len = total_length / (double)i - 1;
 	if (avg_len < 1)
 		avg_len = 1;
-- 
2.43.0


From 5dec510d63d0143352c75444570b9f1f87c29f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:16 +0000
Subject: [PATCH 093/109] fix: A signal crashed fql if SIGINT was ignored when
 it started

A shell ignores SIGINT for what it starts in the background. SIG_IGN was
called as if it were the handler of libcsv.
---
 lib/fqlsig.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/fqlsig.c b/lib/fqlsig.c
index 1af6193..a5bccca 100644
--- a/lib/fqlsig.c
+++ b/lib/fqlsig.c
@@ -47,7 +47,7 @@ void fqlsig_cleanexit()
 	/* The -1 here tells the libcsv sig handler not
 	 * to call exit(), so we can clean up here too.
 	 */
-	if (libcsv_action__ != NULL) {
+	if (libcsv_action__ != SIG_DFL && libcsv_action__ != SIG_IGN) {
 		libcsv_action__(-1);
 	}
 	fqlsig_tmp_removeall();
-- 
2.43.0


From bfed3c41ace5ed03c094b4480017e859e93c8a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:18 +0000
Subject: [PATCH 094/109] fix: Expressions other than those of GROUP BY were
 taken for them

Numbers, functions and columns were compared as if their bytes were text
without case and trailing blanks, CASE was compared without its
conditions and CAST without its type.
---
 lib/schema.c | 81 ++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 79 insertions(+), 2 deletions(-)

diff --git a/lib/schema.c b/lib/schema.c
index 0b25e02..a0329ed 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -874,8 +874,63 @@ enum _expr_type {
 	MAP_FUNCTION_END,
 	MAP_SWITCHCASE,
 	MAP_SWITCHCASE_END,
+	MAP_NULL,
+	MAP_FULL_RECORD,
+	MAP_LOGIC,
+	MAP_LOGIC_END,
 };
 
+int _map_expression(vec* key, expression* expr);
+
+int _map_logicgroup(vec* key, logicgroup* lg)
+{
+	static const enum _expr_type _logic = MAP_LOGIC;
+	static const enum _expr_type _logic_end = MAP_LOGIC_END;
+
+	stringview sv;
+	stringview_nset(&sv, &_logic, sizeof(_logic));
+	vec_push_back(key, &sv);
+	stringview_nset(&sv, &lg->type, sizeof(lg->type));
+	vec_push_back(key, &sv);
+	stringview_nset(&sv, &lg->negation, sizeof(lg->negation));
+	vec_push_back(key, &sv);
+
+	unsigned i = 0;
+	for (; i < 2; ++i) {
+		if (lg->items[i] != NULL) {
+			try_(_map_logicgroup(key, lg->items[i]));
+		}
+	}
+
+	logic* condition = lg->condition;
+	if (condition != NULL) {
+		stringview_nset(&sv,
+		                &condition->comp_type,
+		                sizeof(condition->comp_type));
+		vec_push_back(key, &sv);
+		for (i = 0; i < 2; ++i) {
+			if (condition->expr[i] != NULL) {
+				try_(_map_expression(key, condition->expr[i]));
+			}
+		}
+		inlist* in_data = condition->in_data;
+		if (in_data != NULL && in_data->subquery != NULL) {
+			stringview_nset(&sv, &in_data->subquery, sizeof(query*));
+			vec_push_back(key, &sv);
+		} else if (in_data != NULL) {
+			expression** it = vec_begin(in_data->expressions);
+			for (; it != vec_end(in_data->expressions); ++it) {
+				try_(_map_expression(key, *it));
+			}
+		}
+	}
+
+	stringview_nset(&sv, &_logic_end, sizeof(_logic_end));
+	vec_push_back(key, &sv);
+
+	return FQL_GOOD;
+}
+
 int _map_expression(vec* key, expression* expr)
 {
 	static const enum _expr_type _c_int = MAP_CONST_INT;
@@ -889,6 +944,8 @@ int _map_expression(vec* key, expression* expr)
 	static const enum _expr_type _func_end = MAP_FUNCTION_END;
 	static const enum _expr_type _switchcase = MAP_SWITCHCASE;
 	static const enum _expr_type _switchcase_end = MAP_SWITCHCASE_END;
+	static const enum _expr_type _null = MAP_NULL;
+	static const enum _expr_type _record = MAP_FULL_RECORD;
 
 	stringview type_sv = {NULL, sizeof(enum _expr_type)};
 	stringview val_sv;
@@ -916,8 +973,17 @@ int _map_expression(vec* key, expression* expr)
 		default:;
 		}
 
+		break;
+	case EXPR_NULL:
+		type_sv.data = (void*)&_null;
+		vec_push_back(key, &type_sv);
 		break;
 	case EXPR_FULL_RECORD:
+		type_sv.data = (void*)&_record;
+		vec_push_back(key, &type_sv);
+		stringview_nset(&val_sv, &expr->src_idx, sizeof(expr->src_idx));
+		vec_push_back(key, &val_sv);
+		break;
 	case EXPR_COLUMN_NAME:
 		type_sv.data = (void*)&_expr;
 		vec_push_back(key, &type_sv);
@@ -931,6 +997,11 @@ int _map_expression(vec* key, expression* expr)
 		                &expr->field.fn->type,
 		                sizeof(enum scalar_function));
 		vec_push_back(key, &val_sv);
+		/* a CAST is told from others by what it calls */
+		stringview_nset(&val_sv,
+		                &expr->field.fn->call__,
+		                sizeof(expr->field.fn->call__));
+		vec_push_back(key, &val_sv);
 
 		expression** it = vec_begin(expr->field.fn->args);
 		for (; it != vec_end(expr->field.fn->args); ++it) {
@@ -953,6 +1024,11 @@ int _map_expression(vec* key, expression* expr)
 		type_sv.data = (void*)&_switchcase;
 		vec_push_back(key, &type_sv);
 
+		logicgroup** lg_iter = vec_begin(&expr->field.sc->tests);
+		for (; lg_iter != vec_end(&expr->field.sc->tests); ++lg_iter) {
+			try_(_map_logicgroup(key, *lg_iter));
+		}
+
 		expression** it = vec_begin(&expr->field.sc->values);
 		for (; it != vec_end(&expr->field.sc->values); ++it) {
 			try_(_map_expression(key, *it));
@@ -985,7 +1061,8 @@ int _map_expression(vec* key, expression* expr)
 
 int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loose_groups)
 {
-	if (expr->expr == EXPR_CONST || expr->expr == EXPR_SUBQUERY) {
+	if (expr->expr == EXPR_CONST || expr->expr == EXPR_SUBQUERY
+	    || expr->expr == EXPR_NULL) {
 		return FQL_GOOD;
 	}
 
@@ -1061,7 +1138,7 @@ int _map_groups(struct fqlhandle* fql, query* query)
 	compositemap* expr_map = new_t_(compositemap,
 	                                expression*,
 	                                group_exprs->size * 2,
-	                                HASHMAP_PROP_NOCASE | HASHMAP_PROP_RTRIM);
+	                                HASHMAP_PROP_DEFAULT);
 	query->groupby->expr_map = expr_map;
 	vec key;
 	vec_construct_(&key, stringview);
-- 
2.43.0


From cddc46782729867a76bf1cca6dd155c14fe866c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 095/109] fix: A CASE of a function, another CASE, a subquery
 or a variable went wrong

Each WHEN compared with a shallow copy of the static expression: functions
and nested CASEs were destroyed twice, a subquery was dereferenced as NULL
and a variable stayed at what it was when the query was planned.
---
 lib/fqlplan.c |  1 +
 lib/query.c   |  6 ++++--
 lib/schema.c  | 25 +++++++++++++++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/lib/fqlplan.c b/lib/fqlplan.c
index 3d41185..fee38f4 100644
--- a/lib/fqlplan.c
+++ b/lib/fqlplan.c
@@ -148,6 +148,7 @@ void _check_for_special_expression(plan* self, process* proc, expression* expr)
 		process_add_to_wait_list(proc, expr->subquery->plan->op_true->data);
 		break;
 	case EXPR_SWITCH_CASE: {
+		_check_for_special_expression(self, proc, expr->field.sc->static_expr);
 		logicgroup** it = vec_begin(&expr->field.sc->tests);
 		for (; it != vec_end(&expr->field.sc->tests); ++it) {
 			plan_logic_to_process(self, proc, *it);
diff --git a/lib/query.c b/lib/query.c
index 437607f..959fada 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -896,11 +896,13 @@ int query_enter_switch_section(query* self)
 		return FQL_FAIL;
 	}
 
-	expression* static_expr_copy = expression_copy(sc->static_expr);
+	/* every comparison looks at the one static expression */
+	expression* static_expr_ref = new_(expression, EXPR_REFERENCE, NULL, "");
+	static_expr_ref->data_source = sc->static_expr;
 	//query_enter_search(self);
 	//query_enter_search_and(self);
 	query_enter_predicate(self, 0, false);
-	_add_logic_expression(self, static_expr_copy);
+	_add_logic_expression(self, static_expr_ref);
 	query_set_logic_comparison(self, "=");
 	return FQL_GOOD;
 }
diff --git a/lib/schema.c b/lib/schema.c
index a0329ed..0a27a1a 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -646,6 +646,12 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 	switch (expr->expr) {
 	case EXPR_SWITCH_CASE: {
 		switchcase* sc = expr->field.sc;
+		if (sc->static_expr != NULL) {
+			try_(_assign_expression_limited(sc->static_expr,
+			                                sources,
+			                                limit,
+			                                strictness));
+		}
 		logicgroup** lg_iter = vec_begin(&sc->tests);
 		for (; lg_iter != vec_end(&sc->tests); ++lg_iter) {
 			try_(_assign_expressions_limited((*lg_iter)->expressions,
@@ -668,6 +674,12 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 		try_(_evaluate_if_const(expr));
 		break;
 	}
+	case EXPR_REFERENCE:
+		/* a WHEN looks at the static expression of its CASE */
+		if (expr->data_source != NULL) {
+			expr->field_type = expr->data_source->field_type;
+		}
+		break;
 	case EXPR_SUBQUERY:
 		try_(fqlselect_resolve_type_from_subquery(expr));
 		break;
@@ -984,6 +996,8 @@ int _map_expression(vec* key, expression* expr)
 		stringview_nset(&val_sv, &expr->src_idx, sizeof(expr->src_idx));
 		vec_push_back(key, &val_sv);
 		break;
+	case EXPR_REFERENCE:
+		return _map_expression(key, expr->data_source);
 	case EXPR_COLUMN_NAME:
 		type_sv.data = (void*)&_expr;
 		vec_push_back(key, &type_sv);
@@ -1066,6 +1080,11 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 		return FQL_GOOD;
 	}
 
+	if (expr->expr == EXPR_REFERENCE) {
+		expr->field_type = expr->data_source->field_type;
+		return FQL_GOOD;
+	}
+
 	if (expr->expr == EXPR_AGGREGATE) {
 		expr->src_idx = 0;
 		expr->field_type = expr->data_source->field_type;
@@ -1099,6 +1118,12 @@ int _op_find_group(compositemap* expr_map, expression* expr, vec* key, bool loos
 	}
 
 	if (expr->expr == EXPR_SWITCH_CASE) {
+		if (expr->field.sc->static_expr != NULL) {
+			try_(_op_find_group(expr_map,
+			                    expr->field.sc->static_expr,
+			                    key,
+			                    loose_groups));
+		}
 		expression** it = vec_begin(&expr->field.sc->values);
 		for (; it != vec_end(&expr->field.sc->values); ++it) {
 			try_(_op_find_group(expr_map, *it, key, loose_groups));
-- 
2.43.0


From 3cf1733545f10c3b748e8329fd277f767c5c9e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:29 +0000
Subject: [PATCH 096/109] fix: Aggregates were lost or crashed inside of
 expressions

The arguments of an aggregate were added to the function around it, whose
type was determined before that of the aggregate.
---
 lib/aggregate.h |  1 +
 lib/query.c     | 58 ++++++++++++++++++++++++++++++++++++++++---------
 lib/query.h     |  1 +
 lib/schema.c    | 17 ++++++++++-----
 4 files changed, 62 insertions(+), 15 deletions(-)

diff --git a/lib/aggregate.h b/lib/aggregate.h
index 1807d5b..de709f9 100644
--- a/lib/aggregate.h
+++ b/lib/aggregate.h
@@ -31,6 +31,7 @@ struct aggregate {
 	struct vec* args;
 	struct vec results;
 	struct expression* linked_expression;
+	struct node* return_function_stack;
 	enum aggregate_function agg_type;
 	enum field_type data_type;
 	enum mode return_mode;
diff --git a/lib/query.c b/lib/query.c
index 959fada..721a449 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -643,8 +643,43 @@ void query_init_groupby(query* self)
 	self->mode = MODE_GROUPBY;
 }
 
+/* Aggregates belong to what is done with a group. A CASE
+ * stands wherever it was entered from.
+ */
+bool _is_aggregate_expected(const query* self)
+{
+	enum mode mode = self->mode;
+	enum logic_mode logic_mode = self->logic_mode;
+
+	const node* it = self->switchcase_stack;
+	for (; it != NULL && logic_mode == LOGIC_CASE; it = it->next) {
+		const switchcase* sc = it->data;
+		mode = sc->return_mode;
+		logic_mode = sc->return_logic_mode;
+	}
+
+	switch (mode) {
+	case MODE_SELECTLIST:
+	case MODE_ORDERBY:
+		return true;
+	case MODE_IN:
+	case MODE_SEARCH:
+		return logic_mode == LOGIC_HAVING;
+	default:
+		return false;
+	}
+}
+
 int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 {
+	if (self->aggregate != NULL) {
+		fputs("Cannot have an aggregate inside of an aggregate\n", stderr);
+		return FQL_FAIL;
+	}
+	if (!_is_aggregate_expected(self)) {
+		fputs("Cannot have aggregate logic outside of HAVING\n", stderr);
+		return FQL_FAIL;
+	}
 	if (self->groupby == NULL) {
 		self->groupby = new_(group);
 	}
@@ -659,16 +694,25 @@ int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 	agg->linked_expression = linked_expr;
 	try_(_distribute_expression(self, linked_expr));
 
+	/* the arguments are not those of a function we may be in */
+	agg->return_function_stack = self->function_stack;
+	self->function_stack = NULL;
 	agg->return_mode = self->mode;
 	self->mode = MODE_AGGREGATE;
+	self->aggregate = agg;
 
 	return FQL_GOOD;
 }
 
 int query_exit_aggregate(query* self)
 {
-	aggregate** agg = vec_back(&self->groupby->aggregates);
-	self->mode = (*agg)->return_mode;
+	aggregate* agg = self->aggregate;
+	if (agg == NULL) {
+		return FQL_GOOD;
+	}
+	self->function_stack = agg->return_function_stack;
+	self->mode = agg->return_mode;
+	self->aggregate = NULL;
 	return FQL_GOOD;
 }
 
@@ -1080,10 +1124,6 @@ int _add_variable_expression_by_index(query* self, int idx)
 
 int _add_logic_expression(query* self, expression* expr)
 {
-	if (self->logic_mode != LOGIC_HAVING && expr->expr == EXPR_AGGREGATE) {
-		fputs("Cannot have aggregate logic outside of HAVING\n", stderr);
-		return FQL_FAIL;
-	}
 	logicgroup* lg = node_bottom(self->logic_stack)->data;
 	vec_push_back(lg->expressions, &expr);
 
@@ -1150,11 +1190,9 @@ int _distribute_expression(query* self, expression* expr)
 	case MODE_ORDERBY:
 		order_add_expression(self->orderby, expr);
 		break;
-	case MODE_AGGREGATE: {
-		aggregate** back = vec_back(&self->groupby->aggregates);
-		aggregate_add_expression(*back, expr);
+	case MODE_AGGREGATE:
+		aggregate_add_expression(self->aggregate, expr);
 		break;
-	}
 	case MODE_SET:
 	case MODE_DECLARE:
 		fqlset_set_init_expression(self->op, expr);
diff --git a/lib/query.h b/lib/query.h
index a2b2667..8784ce9 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -173,6 +173,7 @@ struct query {
 	struct node* logic_stack;       /* used to build logic groups */
 	struct node* function_stack;    /* track function nesting */
 	struct node* switchcase_stack;  /* track casestatement nesting */
+	struct aggregate* aggregate;    /* the aggregate we are in */
 
 	enum mode mode;
 	enum mode mode_store;
diff --git a/lib/schema.c b/lib/schema.c
index 0a27a1a..30c65cb 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -674,6 +674,18 @@ int _assign_expression_limited(expression* expr, vec* sources, int limit, int st
 		try_(_evaluate_if_const(expr));
 		break;
 	}
+	case EXPR_AGGREGATE: {
+		aggregate* agg = expr->field.agg;
+		if (agg->call__ == NULL) {
+			try_(_assign_expressions_limited(agg->args,
+			                                 sources,
+			                                 limit,
+			                                 strictness));
+			try_(aggregate_resolve(agg, expr));
+		}
+		expr->field_type = agg->data_type;
+		break;
+	}
 	case EXPR_REFERENCE:
 		/* a WHEN looks at the static expression of its CASE */
 		if (expr->data_source != NULL) {
@@ -1180,11 +1192,6 @@ int _map_groups(struct fqlhandle* fql, query* query)
 			continue;
 		}
 		aggregate* agg = (*it)->field.agg;
-		try_(_assign_expressions(agg->args,
-		                         query->sources,
-		                         fql->props.strictness));
-		try_(aggregate_resolve(agg, *it));
-		(*it)->field_type = agg->data_type;
 		agg->linked_expression->field_type = agg->data_type;
 	}
 
-- 
2.43.0


From a53a92023f7425de128f31cf33c98c0da4e0dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:04 +0000
Subject: [PATCH 097/109] fix: DISTINCT was ignored by COUNT, SUM and AVG

---
 lib/antlr/listenerinterface.cpp |  7 ++++++-
 lib/query.c                     | 18 ++++++++++++++++++
 lib/query.h                     |  1 +
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 5b2215b..2933ccf 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -977,7 +977,12 @@ void ListenerInterface::exitAggregate_windowed_function(TSqlParser::Aggregate_wi
 void ListenerInterface::enterAGGREGATE_WINDOWED_FUNC(TSqlParser::AGGREGATE_WINDOWED_FUNCContext * ctx) { }
 void ListenerInterface::exitAGGREGATE_WINDOWED_FUNC(TSqlParser::AGGREGATE_WINDOWED_FUNCContext * ctx) { }
 
-void ListenerInterface::enterAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx) { }
+void ListenerInterface::enterAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx)
+{
+	if (ctx->DISTINCT() && query_set_aggregate_distinct(_query)) {
+		_set_failure();
+	}
+}
 void ListenerInterface::exitAll_distinct_expression(TSqlParser::All_distinct_expressionContext * ctx) { }
 
 void ListenerInterface::enterOrder_by_clause(TSqlParser::Order_by_clauseContext * ctx)
diff --git a/lib/query.c b/lib/query.c
index 721a449..fec14e8 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -704,6 +704,24 @@ int query_enter_aggregate(query* self, enum aggregate_function agg_type)
 	return FQL_GOOD;
 }
 
+int query_set_aggregate_distinct(query* self)
+{
+	if (self->aggregate == NULL) {
+		return FQL_GOOD;
+	}
+	switch (self->aggregate->agg_type) {
+	case AGG_MIN:
+	case AGG_MAX:
+		/* duplicates make no difference */
+		return FQL_GOOD;
+	default:
+		fprintf(stderr,
+		        "DISTINCT not yet implemented for aggregate function `%s'\n",
+		        aggregate_get_name(self->aggregate));
+		return FQL_FAIL;
+	}
+}
+
 int query_exit_aggregate(query* self)
 {
 	aggregate* agg = self->aggregate;
diff --git a/lib/query.h b/lib/query.h
index 8784ce9..9d3ca60 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -239,6 +239,7 @@ void query_apply_expression_alias(struct query*, const char*);
 void query_set_distinct(struct query*);
 void query_init_groupby(struct query*);
 int query_enter_aggregate(struct query*, enum aggregate_function);
+int query_set_aggregate_distinct(struct query*);
 int query_exit_aggregate(struct query*);
 
 /* order by */
-- 
2.43.0


From ef299531b49ccfa2556b52e1a853c01bf76cebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:40 +0000
Subject: [PATCH 098/109] fix: 0.0 and -0.0 were grouped apart

---
 lib/group.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/group.c b/lib/group.c
index 14a0267..16a0ec7 100644
--- a/lib/group.c
+++ b/lib/group.c
@@ -150,6 +150,9 @@ int group_record(group* self, node* rg)
 		case FIELD_FLOAT: {
 			double num_f = 0;
 			ret = try_(expression_get_float(&num_f, exprs[i], rg));
+			if (num_f == 0) {
+				num_f = 0; /* -0 is no other number */
+			}
 			flex_push_back_str_float(&self->group_data, num_f);
 		}
 		default:;
-- 
2.43.0


From 669d520f682fb0f9a65a7d16de7dc757a52ce12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 099/109] fix: A number in a subquery's select list was
 reprinted while another thread read it

A numeric constant is printed into the buffer of its expression every time
its text is asked for. A subquery handed that very buffer to the query
around it, which runs in another thread when threads are used.
---
 lib/subquery.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/subquery.c b/lib/subquery.c
index 8ee1ec2..018d576 100644
--- a/lib/subquery.c
+++ b/lib/subquery.c
@@ -62,6 +62,13 @@ static int _get_record(reader* reader, node* rg)
 
 		switch ((*it)->expr) {
 		case EXPR_CONST:
+			/* text stays put, but numbers are printed every time */
+			if ((*it)->field_type == FIELD_STRING) {
+				break;
+			}
+			string* num = record_generate_subquery_string(&self->copy_data);
+			string_copy_from_stringview(num, copy_sv);
+			*copy_sv = (stringview) {num->data, num->size};
 			break;
 		case EXPR_COLUMN_NAME:
 		case EXPR_FULL_RECORD:
-- 
2.43.0


From 3fb7a89cfae5f69ad26509f2b26412c9d24b49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 100/109] fix: A dry run or a refused batch left an empty file
 for INTO behind

The file is made while planning so that later statements can name it. It
stayed when nothing was ever run, and the next attempt was refused because
the file already exists.
---
 lib/fqlhandle.h |  1 +
 lib/libfql.c    | 12 ++++++++++++
 lib/schema.c    |  5 +++++
 3 files changed, 18 insertions(+)

diff --git a/lib/fqlhandle.h b/lib/fqlhandle.h
index 347ddab..1e0f052 100644
--- a/lib/fqlhandle.h
+++ b/lib/fqlhandle.h
@@ -22,6 +22,7 @@ struct fqlhandle {
 	struct vec* api_vec;
 	struct vec* variables;
 	struct vec* schema_paths;
+	struct vec* place_holders; /* files made while planning */
 	char* query_str;
 	unsigned query_idx;
 	bool _out_delim_set;
diff --git a/lib/libfql.c b/lib/libfql.c
index 90807b2..d0eee13 100644
--- a/lib/libfql.c
+++ b/lib/libfql.c
@@ -42,6 +42,7 @@ fqlhandle* fql_construct(fqlhandle* fql)
 	        .query_vec = new_t_(vec, query*),
 	        .api_vec = new_t_(vec, struct fql_field),
 	        .variables = new_t_(vec, variable),
+	        .place_holders = new_t_(vec, node*),
 	        ._out_delim_set = false,
 	        {
 	                .schema_path = new_(string),
@@ -76,6 +77,7 @@ void fql_free(fqlhandle* fql)
 	}
 
 	delete_(vec, fql->variables);
+	delete_(vec, fql->place_holders);
 	delete_(scope, fql->global_scope);
 	delete_(hashmap, fql->schema_map);
 	delete_(string, fql->props.schema_path);
@@ -178,6 +180,7 @@ int fql_reset(fqlhandle* fql)
 	fql->query_idx = 0;
 
 	fqlsig_tmp_removeall();
+	vec_clear(fql->place_holders);
 
 	hashmap_clear(fql->schema_map);
 	scope_reset(fql->global_scope);
@@ -670,6 +673,15 @@ int fql_make_plans(fqlhandle* fql, const char* query_str)
 		plan_print(fql);
 	}
 
+	/* From here on, these files belong to the queries that write them. */
+	if (!fql->props.dry_run) {
+		node** it = vec_begin(fql->place_holders);
+		for (; it != vec_end(fql->place_holders); ++it) {
+			fqlsig_tmp_remove_node(*it);
+		}
+		vec_clear(fql->place_holders);
+	}
+
 	return fql->query_vec->size;
 }
 
diff --git a/lib/schema.c b/lib/schema.c
index 30c65cb..c577752 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -17,6 +17,7 @@
 #include "fqlselect.h"
 #include "operation.h"
 #include "switchcase.h"
+#include "fqlsig.h"
 #include "expression.h"
 #include "util/util.h"
 #include "util/vec.h"
@@ -1463,6 +1464,10 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 				perror(aquery->into_table_name);
 				return FQL_FAIL;
 			}
+
+			/* If this never runs, there is nothing to leave behind. */
+			node* tmp_node = fqlsig_tmp_push(aquery->into_table_name);
+			vec_push_back(fql->place_holders, &tmp_node);
 		} else if (*(enum fql_operation*)aquery->op == FQL_SELECT
 		           && !aquery->fqlref->props.overwrite) {
 			/* If we are dealing specifically with
-- 
2.43.0


From eeb5ec27467566a6da634b8cf3c7076467a11f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 101/109] fix: Text that is not UTF-8 in a query ended in an
 uncaught exception

---
 lib/antlr/antlr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/antlr/antlr.cpp b/lib/antlr/antlr.cpp
index 1fcd053..2242923 100644
--- a/lib/antlr/antlr.cpp
+++ b/lib/antlr/antlr.cpp
@@ -5,9 +5,11 @@
 #include "upperstream.h"
 #include "errorlistener.h"
 #include "listenerinterface.h"
+#include <exception>
+#include <iostream>
 
 int analyze_query(struct fqlhandle* fql)
-{
+try {
 	/* SQL grammar assumes all keywords are upper case */
 	UpperStream input(fql->query_str);
 
@@ -47,4 +49,8 @@ int analyze_query(struct fqlhandle* fql)
 	walker.set_walking(false);
 
 	return analyzer.get_return_code();
+} catch (const std::exception& e) {
+	/* e.g. text that is not UTF-8 */
+	std::cerr << "cannot parse query: " << e.what() << std::endl;
+	return FQL_FAIL;
 }
-- 
2.43.0


From 27a6c7e387f84ed60c7e63699091459ff6ed1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:59 +0000
Subject: [PATCH 102/109] fix: alias = expression, aliases in quotes and
 assignments in SELECT or SET went wrong

SELECT a = foo applied the name to the expression before it, or crashed. A
name in quotes was ignored. SELECT @a = foo printed foo and left @a alone;
it and SET @a.b = 1 are now refused like everything else that is not there.
---
 lib/antlr/listenerinterface.cpp | 65 +++++++++++++++++++++++++++------
 lib/antlr/listenerinterface.h   |  1 +
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/lib/antlr/listenerinterface.cpp b/lib/antlr/listenerinterface.cpp
index 2933ccf..4cab8d1 100644
--- a/lib/antlr/listenerinterface.cpp
+++ b/lib/antlr/listenerinterface.cpp
@@ -27,6 +27,21 @@ void _find_replace(std::string& s, const std::string& match, const std::string r
 	}
 }
 
+/* 'a''b', N'a''b', [a b] or plain text */
+std::string _unquote(std::string s)
+{
+	if (s.length() > 1 && (s[0] == 'N' || s[0] == 'n') && s[1] == '\'') {
+		s = s.substr(1);
+	}
+	if (s[0] == '\'') {
+		_trim_end_chars(s, '\'', '\'');
+		_find_replace(s, "''", "'");
+	} else if (s[0] == '[') {
+		_trim_end_chars(s, '[', ']');
+	}
+	return s;
+}
+
 ListenerInterface::ListenerInterface(struct fqlhandle* fql,
 		                     TreeWalker* walker,
 		                     const std::vector<std::string>& rules)
@@ -134,6 +149,16 @@ void ListenerInterface::exitDeclare_local(TSqlParser::Declare_localContext * ctx
 void ListenerInterface::enterSet_statement(TSqlParser::Set_statementContext * ctx)
 {
 
+	if (!ctx->LOCAL_ID()) {
+		/* some other setting, see enterSet_special */
+		return;
+	}
+
+	if (ctx->member_name) {
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+		return;
+	}
+
 	_query->mode = MODE_SET;
 	_operation = FQL_SET;
 	if (query_enter_set(_query,
@@ -255,10 +280,21 @@ void ListenerInterface::exitColumn_elem(TSqlParser::Column_elemContext * ctx)
 }
 
 void ListenerInterface::enterExpression_elem(TSqlParser::Expression_elemContext * ctx) { }
-void ListenerInterface::exitExpression_elem(TSqlParser::Expression_elemContext * ctx) { }
+void ListenerInterface::exitExpression_elem(TSqlParser::Expression_elemContext * ctx)
+{
+	/* alias = expression */
+	if (ctx->leftAlias) {
+		std::string alias = _unquote(ctx->leftAlias->getText());
+		query_apply_expression_alias(_query, alias.c_str());
+	}
+}
 
 void ListenerInterface::enterSelect_list_elem(TSqlParser::Select_list_elemContext * ctx)
 {
+	if (ctx->LOCAL_ID()) {
+		/* SELECT @var = expression */
+		_no_impl(ctx->getStart()->getText(), ctx->getRuleIndex());
+	}
 	_query->mode = MODE_SELECTLIST;
 	_tok_type = TOK_COLUMN_NAME;
 }
@@ -378,10 +414,20 @@ void ListenerInterface::exitAs_column_alias(TSqlParser::As_column_aliasContext *
 
 void ListenerInterface::enterColumn_alias(TSqlParser::Column_aliasContext * ctx)
 {
-	_tok_type = TOK_COLUMN_ALIAS;
+	auto* elem = dynamic_cast<TSqlParser::Expression_elemContext*>(ctx->parent);
+	bool is_left = (elem && elem->leftAlias == ctx);
+	_tok_type = (is_left) ? TOK_LEFT_ALIAS : TOK_COLUMN_ALIAS;
 }
 
-void ListenerInterface::exitColumn_alias(TSqlParser::Column_aliasContext * ctx) { }
+void ListenerInterface::exitColumn_alias(TSqlParser::Column_aliasContext * ctx)
+{
+	if (_tok_type == TOK_LEFT_ALIAS) {
+		_tok_type = TOK_COLUMN_NAME;
+	} else if (ctx->STRING()) {
+		std::string alias = _unquote(ctx->getText());
+		query_apply_expression_alias(_query, alias.c_str());
+	}
+}
 
 void ListenerInterface::enterAs_table_alias(TSqlParser::As_table_aliasContext * ctx) { }
 void ListenerInterface::exitAs_table_alias(TSqlParser::As_table_aliasContext * ctx) { }
@@ -490,14 +536,7 @@ void ListenerInterface::exitUnary_operator_expression(TSqlParser::Unary_operator
 
 void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 {
-	std::string new_str = ctx->getText();
-
-	if (new_str[0] == '\'') {
-		_trim_end_chars(new_str, '\'', '\'');
-		_find_replace(new_str, "''", "'");
-	} else if (new_str[0] == '[') {
-		_trim_end_chars(new_str, '[', ']');
-	}
+	std::string new_str = _unquote(ctx->getText());
 
 	char* token = strdup(new_str.c_str());
 
@@ -512,6 +551,10 @@ void ListenerInterface::enterId_(TSqlParser::Id_Context* ctx)
 		/* consume table designation */
 		node_push(&_column_stack, token);
 		break;
+	case TOK_LEFT_ALIAS:
+		/* applied once there is an expression */
+		free_(token);
+		break;
 	case TOK_COLUMN_ALIAS:
 		query_apply_expression_alias(_query, token);
 		free_(token);
diff --git a/lib/antlr/listenerinterface.h b/lib/antlr/listenerinterface.h
index 685216a..b65ded8 100644
--- a/lib/antlr/listenerinterface.h
+++ b/lib/antlr/listenerinterface.h
@@ -17,6 +17,7 @@ class ListenerInterface : public TSqlParserBaseListener {
 		TOK_INTO_TABLE,
 		TOK_COLUMN_NAME,
 		TOK_COLUMN_ALIAS,
+		TOK_LEFT_ALIAS,
 		TOK_TABLE_NAME,
 		TOK_TABLE_SOURCE,
 		TOK_TABLE_ALIAS,
-- 
2.43.0


From e20bb91610804af48494f92d0070d7da7108df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 103/109] fix: UNION of different types read a function's
 result as another type

SELECT LEN(foo) FROM t1 UNION ALL SELECT 1.5 printed zeros, and a text
function next to a number wrote through a number. Where the first SELECT had
an asterisk, the types of the wrong columns were brought together.
---
 lib/expression.c | 58 ++++++++++++++++++++++++++++++------------------
 lib/function.c   |  1 +
 lib/function.h   |  1 +
 lib/schema.c     |  1 +
 4 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/lib/expression.c b/lib/expression.c
index 6160a22..3e28668 100644
--- a/lib/expression.c
+++ b/lib/expression.c
@@ -289,6 +289,11 @@ int expression_cast(expression* self, enum field_type new_type)
 		return FQL_GOOD;
 	}
 
+	if (self->expr == EXPR_FUNCTION
+	    && self->field.fn->ret_type == FIELD_UNDEFINED) {
+		self->field.fn->ret_type = self->field_type;
+	}
+
 	if (self->expr != EXPR_CONST) {
 		/* lol - this is probably wrong */
 		self->field_type = new_type;
@@ -377,6 +382,32 @@ void expression_update_indicies(vec* expr_vec)
 	 *       type. The best way to handle this would be to set
 	 *       the type during parsing.
 	 */
+/* A function keeps giving what it gives, no matter what
+ * type a UNION has settled on.
+ */
+static int _call_function(expression* self,
+                          union field* field,
+                          enum field_type* type,
+                          node* rg)
+{
+	function* func = self->field.fn;
+	*type = self->field_type;
+	if (func->ret_type != FIELD_UNDEFINED) {
+		*type = func->ret_type;
+	}
+	if (*type == FIELD_STRING) {
+		field->s = &self->buf;
+		string_clear(field->s);
+	}
+
+	int ret = func->call__(func, field, rg);
+	if (ret == FQL_GOOD && *type == FIELD_INT && self->field_type == FIELD_FLOAT) {
+		field->f = (double)field->i;
+		*type = FIELD_FLOAT;
+	}
+	return ret;
+}
+
 int expression_get_int(long* ret, expression* self, node* rg)
 {
 	switch (self->expr) {
@@ -427,14 +458,9 @@ int expression_get_int(long* ret, expression* self, node* rg)
 		return FQL_GOOD;
 	}
 	case EXPR_FUNCTION: {
-		function* func = self->field.fn;
 		union field new_field;
-		enum field_type new_field_type = self->field_type;
-		if (self->field_type == FIELD_STRING) {
-			new_field.s = &self->buf;
-			string_clear(new_field.s);
-		}
-		try_deref_(func->call__(func, &new_field, rg));
+		enum field_type new_field_type;
+		try_deref_(_call_function(self, &new_field, &new_field_type, rg));
 		try_(field_to_int(ret, &new_field, &new_field_type));
 		break;
 	}
@@ -499,14 +525,9 @@ int expression_get_float(double* ret, expression* self, node* rg)
 		return FQL_GOOD;
 	}
 	case EXPR_FUNCTION: {
-		function* func = self->field.fn;
 		union field new_field;
-		enum field_type new_field_type = self->field_type;
-		if (self->field_type == FIELD_STRING) {
-			new_field.s = &self->buf;
-			string_clear(new_field.s);
-		}
-		try_deref_(func->call__(func, &new_field, rg));
+		enum field_type new_field_type;
+		try_deref_(_call_function(self, &new_field, &new_field_type, rg));
 		try_(field_to_float(ret, &new_field, &new_field_type));
 		break;
 	}
@@ -599,14 +620,9 @@ int expression_get_stringview(stringview* ret, expression* self, node* rg)
 		return FQL_GOOD;
 	}
 	case EXPR_FUNCTION: {
-		function* func = self->field.fn;
 		union field new_field;
-		enum field_type new_field_type = self->field_type;
-		if (self->field_type == FIELD_STRING) {
-			new_field.s = &self->buf;
-			string_clear(new_field.s);
-		}
-		try_deref_(func->call__(func, &new_field, rg));
+		enum field_type new_field_type;
+		try_deref_(_call_function(self, &new_field, &new_field_type, rg));
 		try_(field_to_stringview(ret, &self->buf, &new_field, &new_field_type));
 		break;
 	}
diff --git a/lib/function.c b/lib/function.c
index f06a734..f1837bf 100644
--- a/lib/function.c
+++ b/lib/function.c
@@ -46,6 +46,7 @@ function* function_construct(function* self,
 	        .call__ = &_not_implemented,
 	        .args = new_t_(vec, expression*),
 	        .type = scalar_type,
+	        .ret_type = FIELD_UNDEFINED,
 	        .char_as_byte = char_as_byte,
 	};
 
diff --git a/lib/function.h b/lib/function.h
index dafb8d3..a113b8f 100644
--- a/lib/function.h
+++ b/lib/function.h
@@ -18,6 +18,7 @@ struct function {
 	scalar_fn call__;
 	struct vec* args;
 	enum scalar_function type;
+	enum field_type ret_type; /* if the expression was given another */
 	unsigned arg_min;
 	unsigned arg_max;
 	bool char_as_byte;
diff --git a/lib/schema.c b/lib/schema.c
index c577752..3461fdc 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1245,6 +1245,7 @@ int _resolve_unions(struct fqlhandle* fql, query* aquery)
 	}
 
 	/* We need to resolve final types for each expression */
+	op_expand_asterisks(aquery, (!aquery->groupby || !aquery->distinct));
 	try_(op_resolve_final_types(aquery->op));
 
 	return FQL_GOOD;
-- 
2.43.0


From c060d15f666e2ab4498f01ef5679c1122a8fcf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 104/109] fix: ORDER BY without a FROM crashed

Its expressions were freed as soon as they were read, while the functions,
CASEs and subqueries in them were still being put together.
---
 lib/query.c  | 8 +-------
 lib/query.h  | 1 +
 lib/schema.c | 8 ++++++++
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index fec14e8..105b0e0 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -79,6 +79,7 @@ void query_destroy(query* self)
 	delete_if_exists_(distinct, self->distinct);
 	delete_if_exists_(logicgroup, self->having);
 	delete_if_exists_(order, self->orderby);
+	delete_if_exists_(order, self->idle_orderby);
 	delete_if_exists_(expression, self->top_expr);
 	delete_if_exists_(vec, self->joinable);
 
@@ -737,13 +738,6 @@ int query_exit_aggregate(query* self)
 /** order by **/
 int query_init_orderby(query* self)
 {
-	/* If there are no sources, then we are trying to
-	 * order a const expression... Don't bother...
-	 */
-	if (vec_empty(self->sources)) {
-		return FQL_GOOD;
-	}
-
 	self->orderby = new_(order);
 	return FQL_GOOD;
 }
diff --git a/lib/query.h b/lib/query.h
index 9d3ca60..80cd764 100644
--- a/lib/query.h
+++ b/lib/query.h
@@ -145,6 +145,7 @@ struct query {
 	struct group* distinct;
 	struct logicgroup* having;
 	struct order* orderby;
+	struct order* idle_orderby; /* there was nothing to sort */
 	void* op; /* operation structure */
 	struct vec* subquery_const_vec;
 	struct vec* variable_table_indicies;
diff --git a/lib/schema.c b/lib/schema.c
index 3461fdc..0624ae6 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1265,6 +1265,14 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 		try_(_resolve_query(fql, *query_iter, union_io));
 	}
 
+	/* If there are no sources, then we are trying to
+	 * order a const expression... Don't bother...
+	 */
+	if (vec_empty(aquery->sources) && vec_empty(aquery->unions)) {
+		aquery->idle_orderby = aquery->orderby;
+		aquery->orderby = NULL;
+	}
+
 	/* Next, we must resolve any TOP expressions */
 	if (aquery->top_expr != NULL) {
 		vec temp;
-- 
2.43.0


From 6d53ccdf042e4936c0e473fbf7de8169b8018328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:30 +0000
Subject: [PATCH 105/109] fix: ORDER BY of a UNION sorted by the columns of the
 first SELECT

The keys of every row were taken by the expressions of the first SELECT, no
matter which SELECT the row came from. What is not a selected column cannot
order a UNION and is refused.
---
 lib/fqlprocesses.c |  9 ++++++---
 lib/order.c        | 26 ++++++++++++++++++++++----
 lib/order.h        |  3 ++-
 lib/schema.c       | 10 ++++++++++
 4 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/lib/fqlprocesses.c b/lib/fqlprocesses.c
index 62bd563..2486876 100644
--- a/lib/fqlprocesses.c
+++ b/lib/fqlprocesses.c
@@ -1216,9 +1216,12 @@ enum proc_return fql_orderby(process* proc)
 	node** rg_iter = fifo_begin(in);
 	for (; iters++ < proc->max_recs_iter && rg_iter != fifo_end(in);
 	     rg_iter = fifo_iter(in)) {
-		fqlselect_lock_expressions(proc->expr_owner);
-		int add_ret = order_add_record(order, *rg_iter);
-		fqlselect_unlock_expressions(proc->expr_owner);
+		/* the branch does not change until we are through with this pipe */
+		fqlselect* select = proc->expr_owner;
+		fqlselect* branch = select->current_select;
+		fqlselect_lock_expressions(branch);
+		int add_ret = order_add_record(order, *rg_iter, select);
+		fqlselect_unlock_expressions(branch);
 		try_(add_ret);
 		_fqlprocess_print_iter_states(proc, -1);
 		fqlprocess_recycle(proc, rg_iter);
diff --git a/lib/order.c b/lib/order.c
index f0b4428..5622807 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -245,6 +245,12 @@ int order_preresolve_expressions(order* self, query* query)
 		}
 
 		if (result == NULL) {
+			/* nothing else means the same to every branch */
+			if (!vec_empty(query->unions) && (*it)->expr != EXPR_REFERENCE) {
+				fputs("ORDER BY of a UNION must name a selected column\n",
+				      stderr);
+				return FQL_FAIL;
+			}
 			continue;
 		}
 		(*it)->index = _expanded_index(select_exprs, *result, query);
@@ -290,7 +296,18 @@ void order_cat_description(order* self, process* proc)
 	}
 }
 
-int order_add_record(order* self, node* rg)
+/* Where a UNION is ordered, the record may come from any branch */
+static expression* _get_key(expression* expr, fqlselect* select)
+{
+	if (expr->expr != EXPR_REFERENCE || select == select->current_select) {
+		return expr;
+	}
+	expression** key =
+	        vec_at(select->current_select->schema->expressions, expr->index);
+	return *key;
+}
+
+int order_add_record(order* self, node* rg, fqlselect* select)
 {
 	record* top = rg->data;
 	struct _entry entry = {
@@ -303,24 +320,25 @@ int order_add_record(order* self, node* rg)
 
 	unsigned i = 0;
 	for (; i < self->expressions.size; ++i) {
+		expression* key = _get_key(exprs[i], select);
 		switch (exprs[i]->field_type) {
 		case FIELD_INT: {
 			/* NOTE: storing numbers in binary */
 			long num_i = 0;
-			try_(expression_get_int(&num_i, exprs[i], rg));
+			try_(expression_get_int(&num_i, key, rg));
 			flex_push_back_(&self->order_data, &num_i, long);
 			break;
 		}
 		case FIELD_FLOAT: {
 			double num_f = 0;
-			try_(expression_get_float(&num_f, exprs[i], rg));
+			try_(expression_get_float(&num_f, key, rg));
 			flex_push_back_(&self->order_data, &num_f, double);
 			break;
 		}
 		case FIELD_STRING: {
 			/* NULL is sorted as an empty string */
 			stringview sv;
-			if (try_(expression_get_stringview(&sv, exprs[i], rg))
+			if (try_(expression_get_stringview(&sv, key, rg))
 			    == FQL_NULL) {
 				sv = (stringview) {"", 0};
 			}
diff --git a/lib/order.h b/lib/order.h
index 31255af..40cead9 100644
--- a/lib/order.h
+++ b/lib/order.h
@@ -9,6 +9,7 @@
 struct query;
 struct expression;
 struct process;
+struct fqlselect;
 struct order;
 struct _entry;
 
@@ -46,7 +47,7 @@ void order_cat_description(struct order*, struct process*);
 void order_connect_api(struct query*, struct vec*);
 void order_disconnect_api(struct query*);
 int order_preresolve_expressions(struct order*, struct query*);
-int order_add_record(struct order*, struct node*);
+int order_add_record(struct order*, struct node*, struct fqlselect*);
 int order_sort(struct order*);
 int order_close_output(struct order*);
 
diff --git a/lib/schema.c b/lib/schema.c
index 0624ae6..21d616b 100644
--- a/lib/schema.c
+++ b/lib/schema.c
@@ -1431,6 +1431,16 @@ int _resolve_query(struct fqlhandle* fql, query* aquery, enum io union_io)
 
 	try_(op_writer_init(aquery));
 
+	if (aquery->groupby != NULL && aquery->orderby != NULL) {
+		/* a UNION may have settled on another type */
+		expression** it = vec_begin(order_exprs);
+		for (; it != vec_end(order_exprs); ++it) {
+			if ((*it)->expr == EXPR_REFERENCE) {
+				(*it)->field_type = (*it)->data_source->field_type;
+			}
+		}
+	}
+
 	if (aquery->groupby == NULL && aquery->orderby != NULL) {
 		/* This is normally handled in _op_find_group,
 		 * but if there is no GROUP BY, just assign the
-- 
2.43.0


From 1d2aad5c49a2be9dd6b9a684f5b67c17de06cb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 106/109] fix: ORDER BY of a UNION of asterisks could not name
 a column

---
 lib/order.c | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/lib/order.c b/lib/order.c
index 5622807..db57f24 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -182,6 +182,40 @@ size_t _expanded_index(vec* select_exprs, expression* match, query* query)
 	return index;
 }
 
+/* Is `name' of ORDER BY a column that was selected? An asterisk
+ * may not have been expanded yet. A name without a table belongs
+ * to the first table that has such a column.
+ */
+int _selected_column(vec* select_exprs, expression* name, query* query)
+{
+	size_t index = 0;
+	expression** it = vec_begin(select_exprs);
+	for (; it != vec_end(select_exprs); ++it, ++index) {
+		if ((*it)->expr != EXPR_COLUMN_NAME
+		    && ((*it)->expr != EXPR_ASTERISK || query->groupby != NULL)) {
+			continue;
+		}
+		table* table = vec_at(query->sources, (*it)->src_idx);
+		bool is_table = string_empty(&name->table_name)
+		                || istring_eq(name->table_name.data, table->alias.data);
+		if ((*it)->expr == EXPR_COLUMN_NAME) {
+			if (is_table && istring_eq(name->name.data, (*it)->name.data)) {
+				return index;
+			}
+			continue;
+		}
+		expression** column = vec_begin(table->schema->expressions);
+		for (; column != vec_end(table->schema->expressions); ++column) {
+			if (is_table && istring_eq(name->name.data, (*column)->name.data)) {
+				return index;
+			}
+			++index;
+		}
+		--index;
+	}
+	return FQL_FAIL;
+}
+
 int order_preresolve_expressions(order* self, query* query)
 {
 	/* First, we want to try and resolve by ordinal:
@@ -245,12 +279,21 @@ int order_preresolve_expressions(order* self, query* query)
 		}
 
 		if (result == NULL) {
-			/* nothing else means the same to every branch */
-			if (!vec_empty(query->unions) && (*it)->expr != EXPR_REFERENCE) {
+			if (vec_empty(query->unions) || (*it)->expr == EXPR_REFERENCE) {
+				continue;
+			}
+			/* nothing but a column means the same to every branch */
+			int column = FQL_FAIL;
+			if ((*it)->expr == EXPR_COLUMN_NAME) {
+				column = _selected_column(select_exprs, *it, query);
+			}
+			if (column == FQL_FAIL) {
 				fputs("ORDER BY of a UNION must name a selected column\n",
 				      stderr);
 				return FQL_FAIL;
 			}
+			(*it)->index = column;
+			(*it)->expr = EXPR_REFERENCE;
 			continue;
 		}
 		(*it)->index = _expanded_index(select_exprs, *result, query);
-- 
2.43.0


From 5674db50a3bfce7a5689a6c81fcfc4ef30063438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:32 +0000
Subject: [PATCH 107/109] fix: ORDER BY took a table's column for an alias of
 the same name

---
 lib/order.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/order.c b/lib/order.c
index db57f24..c7a0703 100644
--- a/lib/order.c
+++ b/lib/order.c
@@ -248,6 +248,10 @@ int order_preresolve_expressions(order* self, query* query)
 		case EXPR_REFERENCE:
 		case EXPR_FULL_RECORD:
 		case EXPR_COLUMN_NAME: {
+			/* An alias does not belong to a table */
+			if (!string_empty(&(*it)->table_name)) {
+				break;
+			}
 			vec* exprs = multimap_get(select_map, (*it)->alias.data);
 			if (exprs == NULL) {
 				break;
-- 
2.43.0


From 2a223ff8b824301c0299539cb2b5566fb6ddac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:42 +0000
Subject: [PATCH 108/109] fix: A later SELECT of a UNION left the columns
 between with another type

---
 lib/fqlselect.c | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/lib/fqlselect.c b/lib/fqlselect.c
index a84860e..08c51f4 100644
--- a/lib/fqlselect.c
+++ b/lib/fqlselect.c
@@ -132,23 +132,25 @@ int fqlselect_resolve_final_types(fqlselect* self)
 
 	vec* expr_vec = self->schema->expressions;
 
-	node* union_node = self->union_selects;
-	for (; union_node; union_node = union_node->next) {
-		fqlselect* union_select = union_node->data;
-		vec* union_expr_vec = union_select->schema->expressions;
-		unsigned i = 0;
-		for (; i < expr_vec->size; ++i) {
-			expression** expr1 = vec_at(expr_vec, i);
-			expression** expr2 = vec_at(union_expr_vec, i);
-			enum field_type type1 = (*expr1)->field_type;
-			enum field_type type2 = (*expr2)->field_type;
-			enum field_type new_type = field_determine_type(type1, type2);
-			if (new_type != type1) {
-				try_(expression_cast(*expr1, new_type));
-			}
-			if (new_type != type2) {
-				try_(expression_cast(*expr2, new_type));
-			}
+	unsigned i = 0;
+	for (; i < expr_vec->size; ++i) {
+		expression** expr1 = vec_at(expr_vec, i);
+		enum field_type new_type = (*expr1)->field_type;
+
+		/* The last SELECT may still change the type of the first */
+		node* union_node = self->union_selects;
+		for (; union_node; union_node = union_node->next) {
+			fqlselect* union_select = union_node->data;
+			expression** expr2 = vec_at(union_select->schema->expressions, i);
+			new_type = field_determine_type(new_type, (*expr2)->field_type);
+		}
+
+		try_(expression_cast(*expr1, new_type));
+		union_node = self->union_selects;
+		for (; union_node; union_node = union_node->next) {
+			fqlselect* union_select = union_node->data;
+			expression** expr2 = vec_at(union_select->schema->expressions, i);
+			try_(expression_cast(*expr2, new_type));
 		}
 	}
 
-- 
2.43.0


From 3742c74cb92ed72173d8e6ef91c4d1f5f76324cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:30 +0000
Subject: [PATCH 109/109] fix: -A printed NULL as a number

---
 src/fql.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fql.c b/src/fql.c
index 93538cb..d4bc4bc 100644
--- a/src/fql.c
+++ b/src/fql.c
@@ -365,6 +365,9 @@ void _parse_args(struct fqlhandle* handle, int c)
 
 void _print_field(struct fql_field* field)
 {
+	if (field->is_null) {
+		return;
+	}
 	switch (field->type) {
 	case FQL_INT:
 		printf("%ld", field->data.i);
-- 
2.43.0

