From 65f39278ec1c4f425dbf1f33cc0f7200c66959b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:20 +0000
Subject: [PATCH 01/15] fix: scan the second level argument of a file context
 from its start

The index left over from the first level argument was reused, so that a
closing parenthesis could be missed and memory past the argument be read.
Also do not read past a lone dash in place of an object class.
---
 src/parse_fc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index cedabdb..4e8c86b 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -49,7 +49,7 @@ struct fc_entry *parse_fc_line(char *line)
 	}
 
 	if (pos[0] == '-') {
-		if (pos[2] != '\0') {
+		if (pos[1] == '\0' || pos[2] != '\0') {
 			goto cleanup;
 		}
 		out->obj = pos[1];
@@ -103,6 +103,7 @@ struct fc_entry *parse_fc_line(char *line)
 		}
 
 		if (maybe_c) {
+			i = 0;
 			while (maybe_c[i] != '\0' && maybe_c[i] != ')') {
 				i++;
 			}
-- 
2.43.0


From 2b6c41f4d5dab6eca8dac4b9ef740f08a9375556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:43 +0000
Subject: [PATCH 02/15] fix: do not take line endings for part of file context
 entries

A raw context without a level kept the line ending in its type, an explicit
empty context was only accepted with a line ending directly after it, and an
empty line with a carriage return was reported as badly formatted.
---
 src/parse_fc.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parse_fc.c b/src/parse_fc.c
index 4e8c86b..a5f7ce5 100644
--- a/src/parse_fc.c
+++ b/src/parse_fc.c
@@ -32,6 +32,12 @@ struct fc_entry *parse_fc_line(char *line)
 
 	memset(out, 0, sizeof(struct fc_entry));
 
+	// Trailing whitespace, including the line ending, is not part of the entry
+	size_t line_len = strlen(line);
+	while (line_len > 0 && strchr(" \t\r\n", line[line_len - 1])) {
+		line[--line_len] = '\0';
+	}
+
 	char *orig_line = strdup(line); // If the object class is omitted, we need to revert
 
 	char *pos = strtok(line, whitespace);
@@ -135,8 +141,7 @@ struct fc_entry *parse_fc_line(char *line)
 		} else {
 			out->context->range = NULL;
 		}
-	} else if (strcmp("<<none>>\n", pos) == 0
-	           || strcmp("<<none>>\r\n", pos) == 0) {
+	} else if (strcmp("<<none>>", pos) == 0) {
 		out->context = NULL;
 	} else {
 		out->context = parse_context(pos);
@@ -250,7 +255,7 @@ struct policy_node *parse_fc_file(const char *filename, const struct string_list
 	unsigned int lineno = 0;
 	while ((len_read = getline(&line, &buf_len, fd)) != -1) {
 		lineno++;
-		if (len_read <= 1 || line[0] == '#') {
+		if (strspn(line, "\r\n") == (size_t)len_read || line[0] == '#') {
 			continue;
 		}
 		// Skip over m4 constructs
-- 
2.43.0


From c2262353dfb10bb53bf04d478b56d1d2d60841fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 03/15] fix: substitute template parameters safely

A call without arguments inside a template, or an argument that cannot be
substituted, crashed the expansion. A parameter used more than once overflowed
the result, and a trailing parameter without an argument left it unterminated.
---
 src/template.c | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/template.c b/src/template.c
index 759f73f..de5c5b6 100644
--- a/src/template.c
+++ b/src/template.c
@@ -26,14 +26,22 @@
 char *replace_m4(const char *orig, const struct string_list *args)
 {
 	size_t len_to_malloc = strlen(orig) + 1;
+	size_t longest_arg = 0;
 	const struct string_list *cur = args;
 
 	while (cur) {
-		len_to_malloc += strlen(cur->string);
+		size_t arg_len = strlen(cur->string);
+		if (arg_len > longest_arg) {
+			longest_arg = arg_len;
+		}
 		cur = cur->next;
 	}
+	// The same argument may be substituted any number of times
+	for (const char *c = strchr(orig, '$'); c; c = strchr(c + 1, '$')) {
+		len_to_malloc += longest_arg;
+	}
 	// len_to_malloc is now overestimated, because the length of the original
-	// arguments wasn't subtracted and not all args are necessarily substituted
+	// arguments wasn't subtracted and not all args are of the same length
 	char *ret = malloc(len_to_malloc);
 	*ret = '\0';            // If the string is only a substitution that there is no argument for, we need to be terminated
 	const char *orig_pos = orig;
@@ -49,6 +57,7 @@ char *replace_m4(const char *orig, const struct string_list *args)
 		}
 		strncpy(ret_pos, orig_pos, (size_t)(dollar_pos - orig_pos));
 		ret_pos += dollar_pos - orig_pos;
+		*ret_pos = '\0';
 		orig_pos = dollar_pos;
 
 		int ret_count =
@@ -75,18 +84,17 @@ char *replace_m4(const char *orig, const struct string_list *args)
 struct string_list *replace_m4_list(const struct string_list *replace_with,
                                     const struct string_list *replace_from)
 {
-	struct string_list *ret = calloc(1, sizeof(struct string_list));
-	struct string_list *cur = ret;
-
-	cur->string = replace_m4(replace_from->string, replace_with);
-	cur->next = NULL;
-	replace_from = replace_from->next;
+	struct string_list *ret = NULL;
+	struct string_list **cur = &ret;
 
 	while (replace_from) {
-		cur->next = calloc(1, sizeof(struct string_list));
-		cur = cur->next;
-		cur->string = replace_m4(replace_from->string, replace_with);
-		cur->next = NULL;
+		*cur = calloc(1, sizeof(struct string_list));
+		(*cur)->string = replace_m4(replace_from->string, replace_with);
+		if (!(*cur)->string) {
+			free_string_list(ret);
+			return NULL;
+		}
+		cur = &(*cur)->next;
 		replace_from = replace_from->next;
 	}
 	return ret;
@@ -118,6 +126,10 @@ enum selint_error add_template_declarations(const char *template_name,
 	while (calls) {
 		struct string_list *new_args =
 			replace_m4_list(args, calls->call->args);
+		if (!new_args && calls->call->args) {
+			free_string_list(cur);
+			return SELINT_M4_SUB_FAILURE;
+		}
 
 		enum selint_error res =
 			add_template_declarations(calls->call->name, new_args, cur,
@@ -135,8 +147,7 @@ enum selint_error add_template_declarations(const char *template_name,
 	while (decls) {
 		char *new_decl = replace_m4(decls->decl->name, args);
 		if (!new_decl) {
-			free(cur->string);
-			free(cur);
+			free_string_list(cur);
 			return SELINT_M4_SUB_FAILURE;
 		}
 		insert_into_decl_map(new_decl, mod_name, decls->decl->flavor);
-- 
2.43.0


From 105e61bc2ced40e51098095a62ec455a24f29d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 04/15] fix: keep template calls that cannot be expanded as
 statements

The call was dropped from the tree, so that no check looked at it.
---
 src/parse_functions.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/parse_functions.c b/src/parse_functions.c
index da2adcc..fd88561 100644
--- a/src/parse_functions.c
+++ b/src/parse_functions.c
@@ -439,15 +439,13 @@ enum selint_error insert_interface_call(struct policy_node **cur, const char *if
 	if_data->args = args;
 
 	const char *template_name = get_name_if_in_template(*cur);
+	enum selint_error expand_ret = SELINT_SUCCESS;
 
 	if (template_name) {
 		insert_call_into_template_map(template_name, if_data);
 	} else {
-		enum selint_error r = add_template_declarations(if_name, args, NULL, module_name);
-		if (r != SELINT_SUCCESS) {
-			free_if_call_data(if_data);
-			return r;
-		}
+		// The call is a statement to check even if it cannot be expanded
+		expand_ret = add_template_declarations(if_name, args, NULL, module_name);
 	}
 
 	if (is_filetrans_if_name(if_name) &&
@@ -469,7 +467,7 @@ enum selint_error insert_interface_call(struct policy_node **cur, const char *if
 
 	*cur = (*cur)->next;
 
-	return SELINT_SUCCESS;
+	return expand_ret;
 }
 
 enum selint_error insert_permissive_statement(struct policy_node **cur,
-- 
2.43.0


From 2a6263c0f5c4746a363fa04fe92f81a58d5fc671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 05/15] fix: do not read past the end of a field of
 modules.conf

---
 src/startup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 142f89d..4e44860 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -112,7 +112,7 @@ static char *strip_space(char *str)
 
 	char *end = str;
 
-	while (!is_space(*end)) {
+	while (*end != '\0' && !is_space(*end)) {
 		end++;
 	}
 
-- 
2.43.0


From 7a3fbe3da11010324084703dcfb1f9a8e4e7d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 06/15] fix: order type transitions by their source

The data of the rule was read as that of an access vector rule, which made
the target the section of the statement.
---
 src/ordering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ordering.c b/src/ordering.c
index 3cbfa56..ce945a3 100644
--- a/src/ordering.c
+++ b/src/ordering.c
@@ -206,7 +206,7 @@ const char *get_section(const struct policy_node *node)
 		// from an ordering standpoint?
 		// The case of multiple source types is weird.  For now
 		// just using the first one seems fine.
-		return node->data.av_data->sources->string;
+		return node->data.tt_data->sources->string;
 	case NODE_RT_RULE:
 		return SECTION_NON_ORDERED;
 	case NODE_ROLE_ALLOW:
-- 
2.43.0


From 04abf7c036114f2d62bab08b91d3653d63ec17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 07/15] fix: accept conditional macros in require blocks

The grammar allows them, but the order check reported an internal error.
---
 src/if_checks.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/if_checks.c b/src/if_checks.c
index 6af2785..f1a673d 100644
--- a/src/if_checks.c
+++ b/src/if_checks.c
@@ -124,8 +124,8 @@ struct check_result *check_unordered_declaration_in_require(const struct
 	const struct declaration_data *prev_decl_data = NULL;
 	for (const struct policy_node *cur = child; cur; cur = cur->next) {
 		if (cur->flavor != NODE_DECL) {
-			return alloc_internal_error(
-				"Non declaration node in require block");
+			// Conditional macro
+			continue;
 		}
 
 		const struct declaration_data *decl_data = cur->data.d_data;
-- 
2.43.0


From 2c5ff46b824985029a2d1dc20e5745ca305c26cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 08/15] fix: do not read past an empty check id

---
 src/check_hooks.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/check_hooks.c b/src/check_hooks.c
index 1fd3873..56d8419 100644
--- a/src/check_hooks.c
+++ b/src/check_hooks.c
@@ -133,7 +133,7 @@ bool is_valid_severity(char check_char)
 
 int is_valid_check(const char *check_str)
 {
-	if (!check_str) {
+	if (!check_str || check_str[0] == '\0') {
 		return 0;
 	}
 
-- 
2.43.0


From c85ef219d7d9146beaea7800b67f6c2aba8737a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:18 +0000
Subject: [PATCH 09/15] fix: do not recurse endlessly into permission macros
 defined by themselves

---
 src/perm_macro.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/perm_macro.c b/src/perm_macro.c
index 46db881..d829559 100644
--- a/src/perm_macro.c
+++ b/src/perm_macro.c
@@ -160,7 +160,14 @@ static const struct pm_ltable pm_ltable_common_file[] = {
 unsigned short popcount(mask_t mask);
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended);
 
-static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+// The macros whose contents are being computed
+struct open_macro {
+	const char *name;
+	const struct open_macro *outer;
+};
+
+static void str_to_mask_within(const char *permission, mask_t *mask_raw, mask_t *mask_extended,
+                               const struct open_macro *outer)
 {
 	for (size_t i = 0; i < (sizeof pm_ltable_common_file / sizeof *pm_ltable_common_file); ++i) {
 		if (0 == strcmp(permission, pm_ltable_common_file[i].string)) {
@@ -171,8 +178,16 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	}
 
 	const struct string_list *macro_perms = look_up_in_permmacros_map(permission);
+	for (const struct open_macro *cur = outer; macro_perms && cur; cur = cur->outer) {
+		if (0 == strcmp(permission, cur->name)) {
+			macro_perms = NULL; // defined by itself
+		}
+	}
 	if (macro_perms) {
-		compute_perm_mask(macro_perms, mask_raw, mask_extended);
+		const struct open_macro self = { permission, outer };
+		for (; macro_perms; macro_perms = macro_perms->next) {
+			str_to_mask_within(macro_perms->string, mask_raw, mask_extended, &self);
+		}
 		return;
 	}
 
@@ -181,6 +196,11 @@ static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_e
 	*mask_extended |= PM_CF__UNCOVERED;
 }
 
+static void str_to_mask(const char *permission, mask_t *mask_raw, mask_t *mask_extended)
+{
+	str_to_mask_within(permission, mask_raw, mask_extended, NULL);
+}
+
 void compute_perm_mask(const struct string_list *permissions, mask_t *mask_raw, mask_t *mask_extended)
 {
 	for (; permissions; permissions = permissions->next) {
-- 
2.43.0


From 889fb067d77be8ede50022a825719e570bbda60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 10/15] fix: do not read directories named like policy or
 support files

---
 src/main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 84bad03..9fc960f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -403,7 +403,9 @@ int main(int argc, char **argv)
 	char *access_vector_path = NULL;
 
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		// A directory is never a policy or support file, whatever its name
+		const bool is_dir = file->fts_info == FTS_D || file->fts_info == FTS_DP;
+		const char *suffix = (!is_dir && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 
 		if (suffix && !strcmp(suffix, ".te")) {
 			file_list_push_back(te_files,
@@ -422,14 +424,17 @@ int main(int argc, char **argv)
 			                    make_policy_file(file->fts_path,
 			                                     NULL));
 		} else if (source_flag
+		           && !is_dir
 		           && !strcmp(file->fts_name, "modules.conf")) {
 			// TODO: Make modules.conf name configurable
 			modules_conf_path = strdup(file->fts_path);
 		} else if (source_flag
+		           && !is_dir
 		           && !strcmp(file->fts_name, "obj_perm_sets.spt")) {
 			// TODO: Make obj_perm_sets.spt name configurable
 			obj_perm_sets_path = strdup(file->fts_path);
 		} else if (source_flag
+		           && !is_dir
 		           && !strcmp(file->fts_name, "access_vectors")) {
 			// TODO: Make access_vectors name configurable
 			access_vector_path = strdup(file->fts_path);
@@ -475,7 +480,8 @@ int main(int argc, char **argv)
 		file = fts_read(ftsp);
 
 		while (file) {
-			const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+			const bool is_dir = file->fts_info == FTS_D || file->fts_info == FTS_DP;
+			const char *suffix = (!is_dir && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 			if (suffix &&  !strcmp(suffix, ".te")) {
 				if (!file_name_in_file_list(file->fts_path, te_files)) {
 					file_list_push_back(context_te_files,
@@ -490,14 +496,17 @@ int main(int argc, char **argv)
 				}
 			} else if (source_flag
                                    && !modules_conf_path
+                                   && !is_dir
                                    && 0 == strcmp(file->fts_name, "modules.conf")) {
 				modules_conf_path = strdup(file->fts_path);
 			} else if (source_flag
                                    && !obj_perm_sets_path
+                                   && !is_dir
                                    && 0 == strcmp(file->fts_name, "obj_perm_sets.spt")) {
 				obj_perm_sets_path = strdup(file->fts_path);
 			} else if (source_flag
                                    && !access_vector_path
+                                   && !is_dir
                                    && 0 == strcmp(file->fts_name, "access_vectors")) {
 				access_vector_path = strdup(file->fts_path);
 			}
-- 
2.43.0


From 2369c98428fdfb033cc3c7aaca6aa25ee12f93ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:28 +0000
Subject: [PATCH 11/15] fix: reject access vector files holding only commons as
 policy files

---
 src/parse.y | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parse.y b/src/parse.y
index 9dce0af..3240b2f 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -1056,7 +1056,13 @@ av_class_definition:
 	;
 
 av_common_definition:
-	COMMON STRING av_permission_list { free($2); }
+	COMMON STRING av_permission_list {
+			if (expected_node_flavor != NODE_AV_FILE) {
+				free($2);
+				const struct location loc = { @1.first_line, @1.first_column, @3.last_line, @3.last_column };
+				yyerror(&loc, NULL, "Error: Unexpected av-file parsed"); YYERROR;
+			}
+			free($2); }
 	;
 
 av_permission_list:
-- 
2.43.0


From d739880f7ec49b4375317ec20d29d0863b9d6bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 12/15] fix: apply disable comments to all nodes of their
 statement and no other

---
 src/parse.y | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/parse.y b/src/parse.y
index 3240b2f..d98771f 100644
--- a/src/parse.y
+++ b/src/parse.y
@@ -50,6 +50,7 @@
 %union {
 	char *string;
 	char symbol;
+	struct policy_node *node;
 	struct string_list *sl;
 	enum av_rule_flavor av_flavor;
 	enum node_flavor node_flavor;
@@ -61,6 +62,7 @@
 	static struct policy_node *cur;
 	static enum node_flavor expected_node_flavor;
 	static void yyerror(const YYLTYPE *locp, yyscan_t yyscanner, char const *msg);
+	static void save_statement_command(struct policy_node *before, const char *comm);
 
 	// lexer
 	extern void yyrestart(FILE *input_file , yyscan_t yyscanner);
@@ -192,6 +194,7 @@
 %type<av_flavor> av_type
 %type<av_flavor> xperm_av_type
 %type<node_flavor> if_keyword
+%type<node> statement_start
 
 %destructor { free($$); } mls_component mls_level mls_range sl_item xperm_item
 %destructor { free_string_list($$); } arg args comma_string_list string_list strings xperm_list xperm_items
@@ -272,9 +275,13 @@ lines:
 	;
 
 line:
-	bare_line
+	statement_start bare_line
 	|
-	bare_line SELINT_COMMAND { save_command(cur, $2); free($2); }
+	statement_start bare_line SELINT_COMMAND { save_statement_command($1, $3); free($3); }
+	;
+
+statement_start:
+	%empty { $$ = cur; }
 	;
 
 bare_line:
@@ -576,9 +583,9 @@ require_lines:
 	;
 
 require_line:
-	require_bare
+	statement_start require_bare
 	|
-	require_bare SELINT_COMMAND { save_command(cur, $2); free($2); }
+	statement_start require_bare SELINT_COMMAND { save_statement_command($1, $3); free($3); }
 	;
 
 require_bare:
@@ -1082,6 +1089,14 @@ av_permission:
 	;
 
 %%
+// A statement can leave several nodes (a list of names to require) or none
+static void save_statement_command(struct policy_node *before, const char *comm)
+{
+	for (struct policy_node *node = before->next; node; node = node->next) {
+		save_command(node, comm);
+	}
+}
+
 static unsigned leading_spaces(const char *str) {
 	unsigned result = 0;
 	while (str[result] == ' ' || str[result] == '\t')
-- 
2.43.0


From bb84f08ba514b201676b0acb66bdc16cc7883123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:26 +0000
Subject: [PATCH 13/15] fix: report paths that cannot be scanned

An empty path argument or context path makes fts_open(3) fail, and its
result was used unchecked.
---
 src/main.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/main.c b/src/main.c
index 9fc960f..636a2ea 100644
--- a/src/main.c
+++ b/src/main.c
@@ -14,7 +14,9 @@
 * limitations under the License.
 */
 
+#include <errno.h>
 #include <stdio.h>
+#include <string.h>
 #include <getopt.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -395,6 +397,11 @@ int main(int argc, char **argv)
 	paths[i] = NULL;
 
 	FTS *ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+	if (!ftsp) {
+		// e.g. an empty path
+		printf("%sError%s: Cannot scan the given paths: %s\n", color_error(), color_reset(), strerror(errno));
+		exit(EX_USAGE);
+	}
 
 	FTSENT *file = fts_read(ftsp);
 
@@ -477,6 +484,10 @@ int main(int argc, char **argv)
 		paths[1] = NULL;
 
 		ftsp = fts_open(paths, FTS_PHYSICAL | FTS_NOSTAT, NULL);
+		if (!ftsp) {
+			printf("%sError%s: Cannot scan context path '%s': %s\n", color_error(), color_reset(), paths[0], strerror(errno));
+			exit(EX_USAGE);
+		}
 		file = fts_read(ftsp);
 
 		while (file) {
-- 
2.43.0


From 4ef6e967a2756308fdc7bac49c04a4e95d6b5f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:21 +0000
Subject: [PATCH 14/15] fix: do not recurse along the statements of a file when
 freeing it

Files with several hundred thousand statements overflowed the stack and
lost the rest of the output.
---
 src/tree.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 67239bd..606d5c2 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -355,12 +355,9 @@ struct policy_node *dfs_next(const struct policy_node *node)
 	}
 }
 
-enum selint_error free_policy_node(struct policy_node *to_free)
+// Free a node and its children, but not its siblings
+static void free_single_policy_node(struct policy_node *to_free)
 {
-	if (to_free == NULL) {
-		return SELINT_BAD_ARG;
-	}
-
 	switch (to_free->flavor) {
 	case NODE_HEADER:
 		free_header_data(to_free->data.h_data);
@@ -412,12 +409,23 @@ enum selint_error free_policy_node(struct policy_node *to_free)
 	free_policy_node(to_free->first_child);
 	to_free->first_child = NULL;
 
-	free_policy_node(to_free->next);
-	to_free->next = NULL;
-
 	to_free->prev = NULL;
 
 	free(to_free);
+}
+
+enum selint_error free_policy_node(struct policy_node *to_free)
+{
+	if (to_free == NULL) {
+		return SELINT_BAD_ARG;
+	}
+
+	// Do not recurse along siblings: there is no bound on their number
+	while (to_free) {
+		struct policy_node *next = to_free->next;
+		free_single_policy_node(to_free);
+		to_free = next;
+	}
 
 	return SELINT_SUCCESS;
 }
-- 
2.43.0


From 0d47a4d8a84cf1d7642a614d786b671cb9451c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 15/15] fix: do not read directories among the installed
 headers

---
 src/startup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/startup.c b/src/startup.c
index 4e44860..7bd0fa0 100644
--- a/src/startup.c
+++ b/src/startup.c
@@ -230,7 +230,9 @@ IGNORE_CONST_DISCARD_END;
 
 	FTSENT *file = fts_read(ftsp);
 	while (file) {
-		const char *suffix = (file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
+		// A directory is never a policy file, whatever its name
+		const bool is_dir = file->fts_info == FTS_D || file->fts_info == FTS_DP;
+		const char *suffix = (!is_dir && file->fts_pathlen > 3) ? (file->fts_path + file->fts_pathlen - 3) : NULL;
 		if (suffix && !strcmp(suffix, ".if")) {
 			file_list_push_back(context_files,
 			                    make_policy_file(file->fts_path,
-- 
2.43.0

