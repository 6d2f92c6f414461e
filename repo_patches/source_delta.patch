From e631fd48a585c97024f5945d0826deec1ed41ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:56 +0000
Subject: [PATCH 01/50] fix: do not crash on files that only contain whitespace

---
 skull/pipeline.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skull/pipeline.c b/skull/pipeline.c
index 8f1e2d4..30d6ba2 100644
--- a/skull/pipeline.c
+++ b/skull/pipeline.c
@@ -35,6 +35,16 @@ int run_pipeline(const char *filename, char *file_contents) {
 		return true;
 	}
 
+	// file only contains whitespace
+	if (!token->begin) {
+		FMT_ERROR(WARN_FILE_EMPTY, {0});
+
+		free_tokens(token);
+		free(_file_contents);
+		free(file_contents);
+		return true;
+	}
+
 	classify_tokens(token);
 
 	AstNode *node = parse_ast_tree(token);
-- 
2.43.0


From cfd29c9333c6d1253eb872179bcc07e51011143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:56 +0000
Subject: [PATCH 02/50] fix: do not crash when an assignment is missing its
 expression at EOF

---
 skull/parse/ast_node.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ad4c617..df10691 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -138,7 +138,9 @@ static ParserResult parse_var_def(ParserCtx *ctx) {
 	if (ctx->err) return RESULT_ERROR;
 
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &name_token->location
+		});
 		return RESULT_ERROR;
 	}
 
@@ -214,8 +216,12 @@ static ParserResult parse_var_assign(ParserCtx *ctx) {
 	next_token(ctx);
 
 	AstNodeExpr *expr = parse_expression(ctx);
+	if (ctx->err) return RESULT_ERROR;
+
 	if (!expr) {
-		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, { .loc = &ctx->token->location });
+		FMT_ERROR(ERR_ASSIGN_MISSING_EXPR, {
+			.loc = ctx->token ? &ctx->token->location : &last->location
+		});
 
 		return RESULT_ERROR;
 	}
-- 
2.43.0


From e467e65aa4cac58ae8ce60127c50e01b617f5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:56 +0000
Subject: [PATCH 03/50] fix: do not crash on "external" or "export" at EOF

---
 skull/parse/ast_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index df10691..706c728 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -278,7 +278,7 @@ static ParserResult parse_function_proto(ParserCtx *ctx) {
 
 	if (is_external || is_export) next_token(ctx);
 
-	if (!AST_TOKEN_CMP2(ctx->token,
+	if (!ctx->token || !AST_TOKEN_CMP2(ctx->token,
 		TOKEN_IDENTIFIER,
 		TOKEN_PAREN_OPEN)
 	) {
-- 
2.43.0


From c4d432a50922d761984bd09ae62e8e7f27323176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:56 +0000
Subject: [PATCH 04/50] fix: report unary operators that are missing their
 operand

---
 skull/parse/ast_node.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 706c728..a44cb12 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -723,10 +723,18 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	AstNodeExpr *rhs = parse_root_expr(ctx);
+	if (!rhs) {
+		if (!ctx->err) FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = last });
+
+		ctx->err = true;
+		return NULL;
+	}
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
-		.rhs = parse_root_expr(ctx)
+		.rhs = rhs
 	};
 
 	return expr;
-- 
2.43.0


From adeec3d72dc9b27979b9cee99ef8ff75ab5e6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:56 +0000
Subject: [PATCH 05/50] fix: report control flow and namespaces cut off by EOF

---
 skull/parse/ast_node.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index a44cb12..60f485e 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -417,6 +417,7 @@ static Vector *parse_function_proto_params(ParserCtx *ctx) {
 
 static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	if (!ctx->token || !ctx->token->next) {
+		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = ctx->token });
 		ctx->err = true;
 		return;
 	}
@@ -455,6 +456,7 @@ static void parse_while(ParserCtx *ctx) {
 
 static void parse_namespace(ParserCtx *ctx) {
 	if (!ctx->token || !ctx->token->next) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = ctx->token });
 		ctx->err = true;
 		return;
 	}
-- 
2.43.0


From 45880cfb8e0ac8606374a1db53d5aca193a14fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:41 +0000
Subject: [PATCH 06/50] fix: print the token near an invalid condition at EOF

---
 skull/parse/ast_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 60f485e..39c7a3a 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -428,7 +428,9 @@ static void parse_condition(ParserCtx *ctx, NodeType node_type) {
 	AstNodeExpr *expr = parse_expression(ctx);
 
 	if (!expr || ctx->err) {
-		FMT_ERROR(ERR_INVALID_EXPR, { .tok = ctx->token });
+		FMT_ERROR(ERR_INVALID_EXPR, {
+			.tok = ctx->token ? ctx->token : cond_node->token
+		});
 		ctx->err = true;
 
 		return;
-- 
2.43.0


From 7c5db6d3a3dede08d3b133ce254739994427d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:14 +0000
Subject: [PATCH 07/50] fix: respect operator precedence and parentheses at
 every depth

Only the innermost pair of operators was ever regrouped, so "1 + 2 * 3 ^ 2"
and "a < b + c * d" were parsed with the wrong grouping, and a parenthesised
left operand lost its parentheses, as in "(1 + 2) * 3".
---
 skull/parse/ast_node.c | 64 ++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 21 deletions(-)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index 39c7a3a..ac6b838 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -34,7 +34,8 @@ static void parse_ast_sub_tree_(ParserCtx *);
 static bool parse_ast_node(ParserCtx *);
 static void next_token(ParserCtx *);
 static AstNodeExpr *parse_single_expr(ParserCtx *);
-static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *);
+static AstNodeExpr *parse_expr_tail(ParserCtx *, AstNodeExpr *, unsigned);
+static AstNodeExpr *parse_expr_rhs(ParserCtx *, AstNodeExpr *, unsigned);
 static unsigned oper_to_precedence(ExprType);
 static AstNodeExpr *parse_root_expr(ParserCtx *);
 static bool is_unary_oper(ExprType);
@@ -50,6 +51,8 @@ typedef enum {
 	RESULT_ERROR
 } ParserResult;
 
+#define MAX_PRECEDENCE 7
+
 #define NOT_NULL(x) (x) && (x)
 
 #define AST_TOKEN_CMP2(tok, type1, type2) \
@@ -671,35 +674,36 @@ Returns node if one was added, NULL otherwise.
 static AstNodeExpr *parse_expression(ParserCtx *ctx) {
 	if (!ctx->token) return NULL;
 
-	AstNodeExpr *head = parse_single_expr(ctx);
+	AstNodeExpr *expr = parse_single_expr(ctx);
 	if (ctx->err) return NULL;
 
-	AstNodeExpr *current = head;
+	return parse_expr_tail(ctx, expr, MAX_PRECEDENCE);
+}
+
+/*
+Extend `expr` with the binary operators that follow it, as long as they bind
+at least as tight as `precedence` (lower binds tighter).
+
+Returns `NULL` if an error occurred.
+*/
+static AstNodeExpr *parse_expr_tail(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned precedence
+) {
 	AstNodeExpr *last = NULL;
 
-	while (last != current) {
-		last = current;
+	while (last != expr) {
+		last = expr;
 
-		current = parse_expr_rhs(ctx, current);
+		expr = parse_expr_rhs(ctx, expr, precedence);
 		if (ctx->err) {
-			free_expr_node(head);
+			free_expr_node(last);
 			return NULL;
 		}
-
-		const unsigned last_precedence = oper_to_precedence(last->oper);
-		const unsigned current_precedence = oper_to_precedence(current->oper);
-
-		if (last_precedence > current_precedence) {
-			current->lhs.expr = last->rhs;
-			last->rhs = current;
-
-			AstNodeExpr *tmp = last;
-			last = current;
-			current = tmp;
-		}
 	}
 
-	return last ? last : current;
+	return expr;
 }
 
 static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
@@ -735,6 +739,12 @@ static AstNodeExpr *parse_single_expr(ParserCtx *ctx) {
 		return NULL;
 	}
 
+	const unsigned precedence = oper_to_precedence(unary_oper);
+	if (precedence) {
+		rhs = parse_expr_tail(ctx, rhs, precedence - 1);
+		if (ctx->err) return NULL;
+	}
+
 	AstNodeExpr *expr = Malloc(sizeof(AstNodeExpr));
 	*expr = (AstNodeExpr){
 		.oper = unary_oper,
@@ -783,7 +793,11 @@ static AstNodeExpr *parse_root_expr(ParserCtx *ctx) {
 	return NULL;
 }
 
-static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
+static AstNodeExpr *parse_expr_rhs(
+	ParserCtx *ctx,
+	AstNodeExpr *expr,
+	unsigned max_precedence
+) {
 	if (!ctx->token) return expr;
 
 	const ExprType oper = token_type_to_binary_expr_type(ctx->token->type);
@@ -795,10 +809,18 @@ static AstNodeExpr *parse_expr_rhs(ParserCtx *ctx, AstNodeExpr *expr) {
 		return NULL;
 	}
 
+	const unsigned precedence = oper_to_precedence(oper);
+	if (precedence > max_precedence) return expr;
+
 	Token *oper_token = ctx->token;
 	next_token(ctx);
 
 	AstNodeExpr *rhs = parse_single_expr(ctx);
+	if (rhs && !ctx->err) {
+		rhs = parse_expr_tail(ctx, rhs, precedence - 1);
+		if (ctx->err) return expr;
+	}
+
 	if (!rhs) {
 		FMT_ERROR(ERR_EXPECTED_EXPR, { .tok = oper_token });
 
-- 
2.43.0


From b42edb69bf1cec085601aa3e546fab22efaf17fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:45 +0000
Subject: [PATCH 08/50] fix: count columns inside of quotes and after line
 comments

---
 skull/parse/token.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index 99416f1..e23b0a2 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -149,6 +149,7 @@ static bool iter_comment(TokenizeCtx *ctx) {
 
 		if (ctx->comment == LINE_COMMENT && *ctx->code == '\n') {
 			ctx->code--;
+			ctx->column--;
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
@@ -213,7 +214,7 @@ static bool iter_quote(TokenizeCtx *ctx) {
 	if (!ctx->token->begin) token_add_info(ctx);
 
 	do {
-		ctx->code++;
+		chomp(ctx);
 
 		if (*ctx->code == '\n') {
 			next_line(ctx);
-- 
2.43.0


From 85fa691e825efda4efe30713d3dc3e29ff3ed0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:31 +0000
Subject: [PATCH 09/50] fix: do not merge comments with the code next to them

Code touching the start of a comment or the end of a block comment became part
of the comment, and "##}" did not close a block comment.
---
 skull/parse/token.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/skull/parse/token.c b/skull/parse/token.c
index e23b0a2..8d9970b 100644
--- a/skull/parse/token.c
+++ b/skull/parse/token.c
@@ -141,7 +141,14 @@ Return `true` if errors occurred.
 static bool iter_comment(TokenizeCtx *ctx) {
 	if (!is_valid_comment_start(ctx)) return true;
 
-	if (!ctx->token->begin) token_add_info(ctx);
+	if (ctx->token->begin) {
+		// code directly before the "#" is not part of the comment
+		ctx->token->len = (unsigned)(ctx->code - ctx->token->begin);
+		ctx->last = ctx->token;
+		ctx->token = setup_next(ctx->token);
+	}
+
+	token_add_info(ctx);
 	chomp(ctx);
 
 	do {
@@ -153,13 +160,13 @@ static bool iter_comment(TokenizeCtx *ctx) {
 			break;
 		}
 		if (ctx->comment == BLOCK_COMMENT && *ctx->code == '#') {
-			chomp(ctx);
-
-			if (*ctx->code == '}') break;
-
-			if (*ctx->code == '\n') next_line(ctx);
+			if (ctx->code[1] == '}') {
+				chomp(ctx);
+				break;
+			}
+			if (ctx->code[1] == '{') {
+				chomp(ctx);
 
-			else if (*ctx->code == '{') {
 				Location location = (Location){
 					.line = ctx->line_num,
 					.column = ctx->column
@@ -178,6 +185,14 @@ static bool iter_comment(TokenizeCtx *ctx) {
 	}
 
 	ctx->token->type = TOKEN_COMMENT;
+
+	if (ctx->comment == BLOCK_COMMENT) {
+		// code directly after the closing "#}" is not part of the comment
+		ctx->token->len = (unsigned)(ctx->code + 1 - ctx->token->begin);
+		ctx->last = ctx->token;
+		ctx->token = setup_next(ctx->token);
+	}
+
 	return false;
 }
 
-- 
2.43.0


From 8d10763a5c7643f651e34b2439f6f7a3055f60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:11 +0000
Subject: [PATCH 10/50] fix: do not suppress errors with -q

---
 skull/common/errors.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/skull/common/errors.c b/skull/common/errors.c
index 908f795..b7d2ed2 100644
--- a/skull/common/errors.c
+++ b/skull/common/errors.c
@@ -16,6 +16,7 @@
 static char *fmt_message_internal(ErrorType, ErrorCode, Message []);
 static void message_stringify(Message *const);
 static void write_error_msg(char *);
+static char *get_prefix(ErrorType);
 static char *get_location_str(const Message *);
 static char *get_error_msg(const Message[], size_t, ErrorCode);
 
@@ -142,17 +143,7 @@ static char *fmt_message_internal(
 	}
 	msg = msgs;
 
-	char *prefix = uvsnprintf(
-		(type == ERROR_FATAL) ?
-			(BUILD_DATA.color ?
-				color_fatal_msg :
-				fatal_msg) :
-			(BUILD_DATA.color ?
-				color_warning_msg :
-				warning_msg),
-		BUILD_DATA.filename
-	);
-
+	char *prefix = get_prefix(type);
 	char *location_str = get_location_str(&msg[0]);
 	char *error_msg = get_error_msg(msgs, num_of_percents, id);
 
@@ -174,6 +165,19 @@ static char *fmt_message_internal(
 	return final_str;
 }
 
+static char *get_prefix(ErrorType type) {
+	return uvsnprintf(
+		(type == ERROR_FATAL) ?
+			(BUILD_DATA.color ?
+				color_fatal_msg :
+				fatal_msg) :
+			(BUILD_DATA.color ?
+				color_warning_msg :
+				warning_msg),
+		BUILD_DATA.filename
+	);
+}
+
 static char *get_location_str(const Message *msg) {
 	const Location *location = msg[0].tok ?
 		&msg[0].tok->location :
@@ -260,6 +264,13 @@ void free_errors(void) {
 }
 
 static void write_error_msg(char *msg) {
-	if (!BUILD_DATA.quiet) fprintf(stderr, "%s", msg);
+	char *warning = get_prefix(ERROR_WARN);
+
+	// only warnings are suppressed, errors must always be shown
+	if (!BUILD_DATA.quiet || strncmp(msg, warning, strlen(warning)) != 0) {
+		fprintf(stderr, "%s", msg);
+	}
+
+	free(warning);
 	free(msg);
 }
-- 
2.43.0


From b439d950c084b4efba20014e8f688f5107ffce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:00 +0000
Subject: [PATCH 11/50] fix: only treat variables as variables when looking up
 a name

---
 skull/semantic/scope.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index c0fb55f..387be27 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -89,6 +89,7 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	Symbol *const symbol = scope_find_name(state->scope, var_name);
 
 	if (!symbol ||
+		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
 		!symbol->var->is_defined
 	) {
-- 
2.43.0


From 090d99625352ec2b002e1b6ed908406def15020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:05 +0000
Subject: [PATCH 12/50] fix: report namespaces that are defined twice

---
 skull/semantic/symbol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/symbol.c b/skull/semantic/symbol.c
index b6c1a80..c23f3e7 100644
--- a/skull/semantic/symbol.c
+++ b/skull/semantic/symbol.c
@@ -20,7 +20,7 @@ static bool symbol_already_exists(SemanticState *state, Symbol *new_symbol) {
 	const Location *location = &new_symbol->location;
 	char *name = new_symbol->name;
 
-	if (type != new_symbol->type) {
+	if (type != new_symbol->type || type == SYMBOL_NAMESPACE) {
 		FMT_ERROR(
 			ERR_NO_REDEFINE_X_AS_Y,
 			{ .loc = location, .str = symbol_type_to_str(type) },
-- 
2.43.0


From 9de8782914d0a3bc2fe3a8068c5e0a071959021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:23 +0000
Subject: [PATCH 13/50] fix: restore the enclosing function after every
 declaration

---
 skull/semantic/func.c   | 6 +++---
 skull/semantic/shared.c | 1 -
 skull/semantic/shared.h | 1 -
 3 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 1a8f63d..2c62687 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -28,6 +28,8 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	const unsigned while_loop_depth = state->while_loop_depth;
 	state->while_loop_depth = 0;
 
+	Symbol *const last_func = state->current_func;
+
 	const bool is_valid = (
 		validate_stmt_func_decl_(state, node) &&
 		setup_and_validate_ast_sub_tree(state, node->child) &&
@@ -35,6 +37,7 @@ bool validate_stmt_func_decl(SemanticState *state, const AstNode *node) {
 	);
 
 	state->while_loop_depth = while_loop_depth;
+	state->current_func = last_func;
 
 	return is_valid;
 }
@@ -79,7 +82,6 @@ static bool validate_stmt_func_decl_(
 		mangle_name(symbol->name) :
 		symbol->name;
 
-	state->last_func = state->current_func;
 	state->current_func = symbol;
 
 	if (!scope_add_symbol(state, symbol)) {
@@ -127,8 +129,6 @@ static bool post_validate_stmt_func_decl(
 		return false;
 	}
 
-	state->current_func = state->last_func;
-
 	return true;
 }
 
diff --git a/skull/semantic/shared.c b/skull/semantic/shared.c
index 4981c8f..5fbc9b1 100644
--- a/skull/semantic/shared.c
+++ b/skull/semantic/shared.c
@@ -28,7 +28,6 @@ SemanticState *setup_semantic_state(void) {
 
 	state->main_func = symbol;
 	state->current_func = state->main_func;
-	state->last_func = NULL;
 
 	return state;
 }
diff --git a/skull/semantic/shared.h b/skull/semantic/shared.h
index b51269a..07de7e4 100644
--- a/skull/semantic/shared.h
+++ b/skull/semantic/shared.h
@@ -13,7 +13,6 @@ typedef struct {
 	Scope *scope;
 	Symbol *main_func;
 	Symbol *current_func;
-	Symbol *last_func;
 	unsigned while_loop_depth;
 	HashTable *dynamic_refs;
 } SemanticState;
-- 
2.43.0


From 075018382997adb51f1caf731ba21abc26a76eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:39 +0000
Subject: [PATCH 14/50] fix: reject return values nested in void functions

---
 skull/semantic/flow.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 9c9220a..a312809 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -1,5 +1,6 @@
 #include <stdbool.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include "skull/build_data.h"
 #include "skull/common/errors.h"
@@ -55,7 +56,15 @@ static bool is_valid_return_expr(SemanticState *state, const AstNode *node) {
 
 	const Type *return_type = state->current_func->func->return_type;
 
-	if (return_type != &TYPE_VOID && expr->type != return_type) {
+	if (return_type == &TYPE_VOID) {
+		FMT_ERROR(ERR_NO_VOID_RETURN, {
+			.real = strdup(state->current_func->name)
+		});
+
+		return false;
+	}
+
+	if (expr->type != return_type) {
 		FMT_ERROR(ERR_EXPECTED_SAME_TYPE,
 			{ .loc = &expr_token->location, .type = return_type },
 			{ .type = expr->type }
-- 
2.43.0


From 1f42fee022ac897a0c56c30bc931c2a01f48d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:13 +0000
Subject: [PATCH 15/50] fix: reject comparing values that cannot be compared

---
 skull/semantic/expr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index d4f33e8..fc65c0d 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -22,6 +22,7 @@ static bool validate_pow_expr(const AstNodeExpr *);
 static bool validate_bool_expr(const AstNodeExpr *);
 static bool validate_ref_expr(const AstNodeExpr *);
 static bool is_numeric(const AstNodeExpr *);
+static bool is_comparable(const AstNodeExpr *);
 static bool validate_shift_expr(const AstNodeExpr *);
 static Symbol *find_func_by_token(SemanticState *, const Token *);
 static bool validate_func_call_params(SemanticState *, AstNodeFunctionCall *);
@@ -111,6 +112,9 @@ static bool validate_expr_restrictions(AstNodeExpr *expr) {
 		case EXPR_OR:
 		case EXPR_XOR:
 			return validate_bool_expr(expr);
+		case EXPR_IS:
+		case EXPR_ISNT:
+			return is_comparable(expr);
 		case EXPR_REF:
 			return validate_ref_expr(expr);
 		case EXPR_DEREF:
@@ -219,6 +223,18 @@ static bool is_numeric(const AstNodeExpr *expr) {
 	return true;
 }
 
+static bool is_comparable(const AstNodeExpr *expr) {
+	const Type *type = expr->rhs->type;
+
+	if (is_reference(type) || type == &TYPE_VOID) {
+		FMT_ERROR(ERR_INVALID_EXPR, { .tok = find_expr_node_token(expr) });
+
+		return false;
+	}
+
+	return true;
+}
+
 static bool is_div_by_zero(const AstNodeExpr *expr) {
 	if (expr->rhs->oper != EXPR_CONST) return false;
 
-- 
2.43.0


From 1f76b5b307aa3990b9e6d4fc138016557a03cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:19 +0000
Subject: [PATCH 16/50] fix: reject parameters and dereferences of type Void

---
 skull/semantic/expr.c | 5 ++++-
 skull/semantic/func.c | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index fc65c0d..028d017 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -294,7 +294,10 @@ static bool validate_ref_expr(const AstNodeExpr *expr) {
 }
 
 static bool validate_deref_expr(const AstNodeExpr *expr) {
-	if (expr->rhs->oper != EXPR_IDENTIFIER || !is_reference(expr->rhs->type)) {
+	if (expr->rhs->oper != EXPR_IDENTIFIER ||
+		!is_reference(expr->rhs->type) ||
+		expr->rhs->type->inner == &TYPE_VOID
+	) {
 		FMT_ERROR(ERR_CANNOT_DEREF, { .loc = find_expr_node_location(expr) });
 
 		return false;
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 2c62687..4b64e28 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -155,6 +155,13 @@ static bool validate_func_params(
 			return false;
 		}
 
+		if (function->param_types[i] == &TYPE_VOID) {
+			FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = params[i]->type_name });
+
+			restore_parent_scope(state);
+			return false;
+		}
+
 		Variable *const param_var = make_variable(
 			function->param_types[i],
 			node->func_proto->params[i]->param_name,
-- 
2.43.0


From a8640f7f5af20a6d5c49d2251d833077dd3a9930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:04 +0000
Subject: [PATCH 17/50] fix: use the right tokens for exported and typed type
 aliases

---
 skull/semantic/types.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 79a3343..f5d6799 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -262,21 +262,27 @@ static void strip_underscore_num(char *str, char c) {
 }
 
 bool validate_stmt_type_alias(SemanticState *state, const AstNode *node) {
-	const Token *token = node->token;
+	const Token *token = node->var_def->name_tok;
+	const Token *type_token = node->token_end->next;
 
 	if (!node->var_def->is_const) {
-		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, { .loc = &token->next->location });
+		FMT_ERROR(ERR_NO_MUT_TYPE_ALIAS, {
+			.loc = &node->token->next->location
+		});
 		return false;
 	}
 
 	const ExprType oper = node->var_def->expr->oper;
 
-	if (oper != EXPR_IDENTIFIER && oper != EXPR_REF) {
-		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &token->next->next->location });
+	if (
+		!node->var_def->is_implicit ||
+		(oper != EXPR_IDENTIFIER && oper != EXPR_REF)
+	) {
+		FMT_ERROR(ERR_NO_TYPE_EXPR, { .loc = &type_token->location });
 		return false;
 	}
 
-	const Type *type = token_to_type(state, token->next->next);
+	const Type *type = token_to_type(state, type_token);
 	char *alias = token_to_mbs_str(token);
 
 	Symbol *symbol;
-- 
2.43.0


From ae13cb7377e4187ee1ec5aec99d443cded5b5213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:58 +0000
Subject: [PATCH 18/50] fix: do not pass large runes to iscntrl

---
 skull/semantic/types.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index f5d6799..6e71cc1 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -97,7 +97,7 @@ Return "rune" converted from `token`.
 char32_t eval_rune(const Token *const token, bool *err) {
 	const char32_t *start = token->begin + 1;
 
-	if (iscntrl((int)*start)) {
+	if (*start < 128 && iscntrl((int)*start)) {
 		FMT_ERROR(ERR_NO_CONTROL_CHAR, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 9959aff13fd81158cfb05de3053c9c739cf1c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:03 +0000
Subject: [PATCH 19/50] fix: propagate unused warnings of nested blocks as
 errors

---
 skull/semantic/unused.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/semantic/unused.c b/skull/semantic/unused.c
index 4caa413..1d94f7b 100644
--- a/skull/semantic/unused.c
+++ b/skull/semantic/unused.c
@@ -47,7 +47,7 @@ bool check_unused_symbols(const AstNode *node) {
 		}
 
 		else if (head->child) {
-			err &= check_unused_symbols(head->child);
+			err |= !check_unused_symbols(head->child);
 		}
 
 		head = head->next;
-- 
2.43.0


From 525664657fb465efbf75639767389cf06447926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:36 +0000
Subject: [PATCH 20/50] fix: do not assume that integer divisions have no
 remainder

---
 skull/codegen/llvm/expr.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index cd1908c..23d8b7f 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -236,9 +236,7 @@ static Expr gen_expr_div(
 	LLVMValueRef rhs,
 	const SkullStateLLVM *state
 ) {
-	return gen_expr_math_oper(
-		lhs, rhs, LLVMBuildExactSDiv, LLVMBuildFDiv, state
-	);
+	return gen_expr_math_oper(lhs, rhs, LLVMBuildSDiv, LLVMBuildFDiv, state);
 }
 
 /*
-- 
2.43.0


From 8ae1a36f70b88a818dd9b16f23ea7b52fa7e9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:42 +0000
Subject: [PATCH 21/50] fix: restore the outer loop after a nested while loop

---
 skull/codegen/llvm/flow.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index 0e3e352..c892325 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -105,6 +105,9 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 		"while_end"
 	);
 
+	LLVMBasicBlockRef old_while_cond = state->current_while_cond;
+	LLVMBasicBlockRef old_while_end = state->current_while_end;
+
 	state->current_while_cond = while_cond;
 	state->current_while_end = while_end;
 
@@ -125,10 +128,8 @@ void gen_control_while(const AstNode *node, SkullStateLLVM *state) {
 	gen_control_code_block(node, while_cond, state);
 	LLVMPositionBuilderAtEnd(state->builder, while_end);
 
-	// shouldn't be needed since semantic layer checks that all break/continue
-	// statements are in a while loop, but it doesn't hurt to leave it in.
-	state->current_while_cond = NULL;
-	state->current_while_end = NULL;
+	state->current_while_cond = old_while_cond;
+	state->current_while_end = old_while_end;
 }
 
 /*
-- 
2.43.0


From 5dd2d3ee31948904ae8ac833b7f53d4e44345196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:47 +0000
Subject: [PATCH 22/50] fix: initialize global variables on each loop iteration

---
 skull/codegen/llvm/assign.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/assign.c b/skull/codegen/llvm/assign.c
index 1e31009..cbbeb8f 100644
--- a/skull/codegen/llvm/assign.c
+++ b/skull/codegen/llvm/assign.c
@@ -80,7 +80,10 @@ static void setup_var_llvm(
 				LLVMConstNull(type_to_llvm_type(var->type, state))
 		);
 
-		if (is_const_literal) return;
+		// variables in a loop have to be initialized on each iteration
+		if (is_const_literal && (var->is_const || !state->current_while_end)) {
+			return;
+		}
 	}
 	else if (requires_alloca_decl(var)) {
 		var->ref = LLVMBuildAlloca(
-- 
2.43.0


From 6ed35d1697e94e023cbe689955ce804f32ec1793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:23 +0000
Subject: [PATCH 23/50] fix: take the address of constants instead of using
 them as an address

---
 skull/codegen/llvm/expr.c | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 23d8b7f..0ea7470 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -33,7 +33,7 @@ static Operation gen_expr_add, gen_expr_sub, gen_expr_mult,
 static Expr gen_expr_const(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_is_str(LLVMValueRef, LLVMValueRef, const SkullStateLLVM *);
 static Expr gen_expr_identifier(const AstNodeExpr *, const SkullStateLLVM *);
-static Expr gen_expr_ref(const AstNodeExpr *);
+static Expr gen_expr_ref(const AstNodeExpr *, const SkullStateLLVM *);
 static Expr gen_expr_deref(const AstNodeExpr *, const SkullStateLLVM *);
 static Operation *expr_type_to_func(ExprType);
 
@@ -58,7 +58,7 @@ Expr gen_expr(const AstNodeExpr *const expr, const SkullStateLLVM *state) {
 		case EXPR_FUNC:
 			return gen_expr_func_call(expr->lhs.func_call, state);
 		case EXPR_REF:
-			return gen_expr_ref(expr);
+			return gen_expr_ref(expr, state);
 		case EXPR_DEREF:
 			return gen_expr_deref(expr, state);
 		default: break;
@@ -115,12 +115,7 @@ static Expr gen_expr_deref(
 		.value = LLVMBuildLoad2(
 			state->builder,
 			type_to_llvm_type(var->type->inner, state),
-			LLVMBuildLoad2(
-				state->builder,
-				type_to_llvm_type(var->type, state),
-				var->ref,
-				""
-			),
+			gen_expr_identifier(expr->rhs, state).value,
 			""
 		),
 		.type = var->type->inner
@@ -321,10 +316,26 @@ static Expr gen_expr_pow(
 /*
 Return reference to an expression `expr`.
 */
-static Expr gen_expr_ref(const AstNodeExpr *expr) {
+static Expr gen_expr_ref(
+	const AstNodeExpr *expr,
+	const SkullStateLLVM *state
+) {
+	const Variable *var = expr->rhs->symbol->var;
+	LLVMValueRef address = var->ref;
+
+	// constant local variables are plain values, which have no address
+	if (!var->is_global && var->is_const) {
+		address = LLVMBuildAlloca(
+			state->builder,
+			type_to_llvm_type(var->type, state),
+			""
+		);
+		LLVMBuildStore(state->builder, var->ref, address);
+	}
+
 	return (Expr){
-		.value = expr->rhs->symbol->var->ref,
-		.type = expr->rhs->symbol->var->type->inner
+		.value = address,
+		.type = expr->type
 	};
 }
 
-- 
2.43.0


From 04bbaef3b5a4d97b655870b6b9b40edb2de736a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:12 +0000
Subject: [PATCH 24/50] fix: do not call the float power function pointer as a
 function

---
 skull/shim.ll | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/skull/shim.ll b/skull/shim.ll
index 250f2a9..346e69b 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -1,5 +1,3 @@
-@_float_pow = dso_local global double (double, double)* @pow, align 8
-
 define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   %3 = alloca i1, align 1
   %4 = alloca i8*, align 8
@@ -72,7 +70,12 @@ define dso_local zeroext i1 @_strcmp(i8* %0, i8* %1) {
   ret i1 %44
 }
 
-declare double @pow(double, double) #1
+declare double @pow(double, double)
+
+define dso_local double @_float_pow(double %0, double %1) {
+  %3 = call double @pow(double %0, double %1)
+  ret double %3
+}
 
 define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %3 = alloca i64, align 8
-- 
2.43.0


From c2395a5149bdfed0b580259d2ca0fdb5307a3488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:18 +0000
Subject: [PATCH 25/50] fix: anything to the power of zero is one

---
 skull/codegen/c/write.c |  4 ++--
 skull/shim.ll           | 51 ++++++++++++++++++++---------------------
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index 9ebfc4a..c016da3 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -115,7 +115,7 @@ static const char *_float_pow = \
 
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
-"	int64_t result = base;\n"
-"	for (int64_t i = 1; i < exp; i++) result *= base;\n"
+"	int64_t result = 1;\n"
+"	for (int64_t i = 0; i < exp; i++) result *= base;\n"
 "	return result;\n"
 "}\n";
diff --git a/skull/shim.ll b/skull/shim.ll
index 346e69b..b09b672 100644
--- a/skull/shim.ll
+++ b/skull/shim.ll
@@ -84,33 +84,32 @@ define dso_local i64 @_int_pow(i64 %0, i64 %1) {
   %6 = alloca i64, align 8
   store i64 %0, i64* %3, align 8
   store i64 %1, i64* %4, align 8
-  %7 = load i64, i64* %3, align 8
-  store i64 %7, i64* %5, align 8
-  store i64 1, i64* %6, align 8
-  br label %8
-
-8:
-  %9 = load i64, i64* %6, align 8
-  %10 = load i64, i64* %4, align 8
-  %11 = icmp slt i64 %9, %10
-  br i1 %11, label %12, label %19
-
-12:
-  %13 = load i64, i64* %3, align 8
-  %14 = load i64, i64* %5, align 8
-  %15 = mul nsw i64 %14, %13
-  store i64 %15, i64* %5, align 8
-  br label %16
+  store i64 1, i64* %5, align 8
+  store i64 0, i64* %6, align 8
+  br label %7
 
-16:
-  %17 = load i64, i64* %6, align 8
-  %18 = add nsw i64 %17, 1
-  store i64 %18, i64* %6, align 8
-  br label %8, !llvm.loop !3
-
-19:
-  %20 = load i64, i64* %5, align 8
-  ret i64 %20
+7:
+  %8 = load i64, i64* %6, align 8
+  %9 = load i64, i64* %4, align 8
+  %10 = icmp slt i64 %8, %9
+  br i1 %10, label %11, label %18
+
+11:
+  %12 = load i64, i64* %3, align 8
+  %13 = load i64, i64* %5, align 8
+  %14 = mul nsw i64 %13, %12
+  store i64 %14, i64* %5, align 8
+  br label %15
+
+15:
+  %16 = load i64, i64* %6, align 8
+  %17 = add nsw i64 %16, 1
+  store i64 %17, i64* %6, align 8
+  br label %7, !llvm.loop !3
+
+18:
+  %19 = load i64, i64* %5, align 8
+  ret i64 %19
 }
 
 !1 = distinct !{!1, !2}
-- 
2.43.0


From c5b33bac4bfdff169f05505845120d6e9d08f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:55 +0000
Subject: [PATCH 26/50] fix: allow for using exit as a name in skull programs

---
 skull/codegen/llvm/write.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 3d5367f..d744eb8 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -365,11 +365,22 @@ static bool add_start_shim(SkullStateLLVM *state) {
 		state
 	);
 
-	LLVMValueRef exit_func = LLVMAddFunction(
-		state->module,
-		"exit",
-		exit_func_type
-	);
+	LLVMValueRef exit_func = LLVMGetNamedFunction(state->module, "exit");
+	if (!exit_func) exit_func = LLVMGetNamedGlobal(state->module, "exit");
+
+	// only reuse "exit" if it is declared as external
+	if (exit_func && !LLVMIsDeclaration(exit_func)) {
+		LLVMSetValueName2(exit_func, ".exit", 5);
+		exit_func = NULL;
+	}
+
+	if (!exit_func) {
+		exit_func = LLVMAddFunction(
+			state->module,
+			"exit",
+			exit_func_type
+		);
+	}
 
 	LLVMBasicBlockRef entry = LLVMAppendBasicBlockInContext(
 		state->ctx,
-- 
2.43.0


From bb543400d6c4cdb3c628d8fd8ab489303d3f2663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:30 +0000
Subject: [PATCH 27/50] fix: keep the sign of zero when negating floats

---
 skull/codegen/llvm/expr.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/skull/codegen/llvm/expr.c b/skull/codegen/llvm/expr.c
index 0ea7470..11f076c 100644
--- a/skull/codegen/llvm/expr.c
+++ b/skull/codegen/llvm/expr.c
@@ -363,13 +363,14 @@ static Expr gen_expr_unary_neg(
 	LLVMValueRef rhs,
 	const SkullStateLLVM *state
 ) {
+	if (lhs->type == &TYPE_FLOAT)
+		return (Expr){
+			.value = LLVMBuildFNeg(state->builder, rhs, ""),
+			.type = lhs->type
+		};
+
 	return gen_expr_math_oper(
-		&(Expr){
-			.type = lhs->type,
-			.value = lhs->type == &TYPE_INT ?
-				LLVM_INT(0) :
-				LLVM_FLOAT(0)
-		},
+		&(Expr){ .type = lhs->type, .value = LLVM_INT(0) },
 		rhs,
 		LLVMBuildNSWSub,
 		LLVMBuildFSub,
-- 
2.43.0


From 6a423f6dec3c90f1b8bdd70102b309d021777d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:31 +0000
Subject: [PATCH 28/50] fix: report when the linker cannot be run or is killed

---
 skull/codegen/llvm/write.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index d744eb8..18f941e 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -215,18 +215,18 @@ static int sh(char *argv[]) {
 	}
 
 	if (pid == 0) {
-		errno = 0;
 		execvp(argv[0], argv);
-		if (errno) {
-			perror("execvp");
-			return 1;
-		}
+		perror("execvp");
+		_exit(127);
 	}
 
 	int status = 0;
-	wait(&status);
+	if (waitpid(pid, &status, 0) == -1) {
+		perror("waitpid");
+		return 1;
+	}
 
-	return WEXITSTATUS(status);
+	return WIFEXITED(status) ? WEXITSTATUS(status) : 1;
 }
 
 static int shell(char *cmd) {
-- 
2.43.0


From 619a918198615bb845332d3eeafea2a878a451be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:07 +0000
Subject: [PATCH 29/50] fix: fail when the source file cannot be read

---
 skull/common/io.c | 5 ++++-
 skull/real_main.c | 5 +++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/skull/common/io.c b/skull/common/io.c
index d1af053..90f23e7 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -34,7 +34,10 @@ char *file_to_string(FILE *fd) {
 	char *str = Malloc((size_t)len + 1);
 	const size_t read = fread(str, 1, (size_t)len, fd);
 
-	if (!read) {
+	if (read != (size_t)len) {
+		if (!errno) errno = EIO;
+		perror("fread");
+
 		free(str);
 		return NULL;
 	}
diff --git a/skull/real_main.c b/skull/real_main.c
index 0ff9345..61ecffa 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdbool.h>
 #include <stdio.h>
 
@@ -51,6 +52,10 @@ static int compile_file(char *filename) {
 	if (!f) return 1;
 
 	char *file_contents = file_to_string(f);
+	if (!file_contents && errno) {
+		fclose(f);
+		return 1;
+	}
 	if (!file_contents) {
 		bool err = false;
 		FMT_WARN(err, WARN_FILE_EMPTY, {0});
-- 
2.43.0


From 0ccab25acff54485a41ffa02cc87a224548849e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:33 +0000
Subject: [PATCH 30/50] fix: report when C code cannot be written

---
 skull/codegen/c/write.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index c016da3..e666522 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -33,6 +33,7 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 		open_file(out_filename, false);
 
 	free(out_filename);
+	if (!f) return true;
 
 	print_headers(f);
 	print_builtins(f, state);
@@ -42,7 +43,11 @@ bool write_file_c(const char *filename, SkullStateC *state) {
 	print_main_shim(f, module_name, state);
 	free(module_name);
 
-	return false;
+	bool failed = ferror(f);
+	if ((f == stdout ? fflush(f) : fclose(f)) != 0) failed = true;
+	if (failed) perror("write");
+
+	return failed;
 }
 
 static void print_headers(FILE *f) {
-- 
2.43.0


From 24c1346ca205838ffed5cf75c3104f2a9fa5a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:59 +0000
Subject: [PATCH 31/50] fix: reject trailing characters in optimization flags

---
 skull/cli.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/skull/cli.c b/skull/cli.c
index f39794f..e178525 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -105,7 +105,7 @@ static int handle_args(int argc, char *argv[]) {
 			break;
 		}
 		case 'O': {
-			switch (argv[0][2]) {
+			switch (argv[0][2] && argv[0][3] ? '\0' : argv[0][2]) {
 				case '1': set_bool_flag(&BUILD_DATA.optimize1, "-O1"); break;
 				case '2': set_bool_flag(&BUILD_DATA.optimize2, "-O2"); break;
 				case '3': set_bool_flag(&BUILD_DATA.optimize3, "-O3"); break;
-- 
2.43.0


From d3bee3d59bfc956b070e7bafda61380e88dfd0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:59 +0000
Subject: [PATCH 32/50] fix: look for modules in the root directory if the file
 is there

---
 skull/semantic/import.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/import.c b/skull/semantic/import.c
index d64c403..7875646 100644
--- a/skull/semantic/import.c
+++ b/skull/semantic/import.c
@@ -60,7 +60,10 @@ static char *filename_for_module(char *module_name) {
 static char *current_file_dir(void) {
 	char *directory = strdup(BUILD_DATA.filename);
 	char *slash = strrchr(directory, '/');
-	if (slash && directory != slash) {
+	if (slash == directory) {
+		slash[1] = '\0';
+	}
+	else if (slash) {
 		*slash = '\0';
 	}
 	else {
-- 
2.43.0


From 2a69529736784ee56881b70e159b172b13f94386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:59 +0000
Subject: [PATCH 33/50] fix: do not search before the start of strings shorter
 than the extension

---
 skull/common/str.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/skull/common/str.c b/skull/common/str.c
index 312618e..9dfbe7b 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -211,6 +211,8 @@ const char __attribute__((pure)) *strrstr(
 	const size_t str_len = strlen(str);
 	const size_t sub_len = strlen(sub);
 
+	if (sub_len > str_len) return NULL;
+
 	const char *look = str + str_len - sub_len;
 
 	while (look >= str) {
-- 
2.43.0


From 4d7069f242eb745f730e89a9e0ae80e52c43f4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:05 +0000
Subject: [PATCH 34/50] fix: require that filenames end with the .sk extension

---
 skull/cli.c       | 3 ++-
 skull/real_main.c | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/skull/cli.c b/skull/cli.c
index e178525..797a4ae 100644
--- a/skull/cli.c
+++ b/skull/cli.c
@@ -42,7 +42,8 @@ int main(int argc, char *argv[]) {
 		return 1;
 	}
 
-	if (!strrstr(BUILD_DATA.filename, ".sk")) {
+	const char *extension = strrstr(BUILD_DATA.filename, ".sk");
+	if (!extension || extension[3]) {
 		fprintf(
 			stderr, "skull: missing required \".sk\" extension, exiting\n"
 		);
diff --git a/skull/real_main.c b/skull/real_main.c
index 61ecffa..dca0499 100644
--- a/skull/real_main.c
+++ b/skull/real_main.c
@@ -40,11 +40,12 @@ int real_main(int argc, char *argv[]) {
 Output compiled version of `filename` (file type depends on backend).
 */
 static int compile_file(char *filename) {
-	if (!strrstr(filename, ".sk")) {
+	const char *extension = strrstr(filename, ".sk");
+	if (!extension || extension[3]) {
 		DIE("missing required \".sk\" extension, exiting");
 	}
 
-	if (strrstr(filename, ".sk") == filename || strrstr(filename, "/.sk")) {
+	if (extension == filename || strrstr(filename, "/.sk")) {
 		DIE("\".sk\" is not a valid name, exiting");
 	}
 
-- 
2.43.0


From f5dc5001e9cfe03c1663304e689b8daf4c43ef24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:28 +0000
Subject: [PATCH 35/50] fix: do not ignore everything after a NUL byte

---
 skull/common/io.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/skull/common/io.c b/skull/common/io.c
index 90f23e7..7fd72dc 100644
--- a/skull/common/io.c
+++ b/skull/common/io.c
@@ -43,6 +43,16 @@ char *file_to_string(FILE *fd) {
 	}
 
 	str[len] = '\0';
+
+	// everything after a NUL byte would be silently ignored
+	if (strlen(str) != (size_t)len) {
+		errno = EILSEQ;
+		perror("fread");
+
+		free(str);
+		return NULL;
+	}
+
 	return str;
 }
 
-- 
2.43.0


From 331dcdfa4b14e3245bcdec2d239a43a43eb0aa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:12 +0000
Subject: [PATCH 36/50] fix: do not ignore code blocks that follow a function
 call

---
 skull/semantic/flow.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index a312809..3cd1f6f 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -257,8 +257,7 @@ bool assert_sane_child(const AstNode *node) {
 		node_type == AST_NODE_ELSE ||
 		node_type == AST_NODE_WHILE ||
 		node_type == AST_NODE_FUNCTION_PROTO ||
-		node_type == AST_NODE_NAMESPACE ||
-		(node_type == AST_NODE_EXPR && node->expr->oper == EXPR_FUNC)
+		node_type == AST_NODE_NAMESPACE
 	)) {
 		FMT_ERROR(ERR_UNEXPECTED_CODE_BLOCK, {
 			.loc = &node->child->token->location
-- 
2.43.0


From 3da36c8ba506ffdb55d24891ee3497fd00af5ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:35 +0000
Subject: [PATCH 37/50] fix: require a name and a block for namespaces

---
 skull/parse/ast_node.c | 6 ++++++
 skull/semantic/flow.c  | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/skull/parse/ast_node.c b/skull/parse/ast_node.c
index ac6b838..278cd9c 100644
--- a/skull/parse/ast_node.c
+++ b/skull/parse/ast_node.c
@@ -466,6 +466,12 @@ static void parse_namespace(ParserCtx *ctx) {
 		return;
 	}
 
+	if (ctx->token->next->type != TOKEN_IDENTIFIER) {
+		FMT_ERROR(ERR_UNEXPECTED_TOKEN, { .tok = ctx->token->next });
+		ctx->err = true;
+		return;
+	}
+
 	Token *namespace_tok = ctx->token;
 	ctx->token = ctx->token->next->next;
 	push_ast_node(ctx, namespace_tok, AST_NODE_NAMESPACE);
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index 3cd1f6f..c261482 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -164,6 +164,8 @@ bool validate_control_continue(SemanticState *state, const AstNode *node) {
 }
 
 bool validate_control_namespace(SemanticState *state, AstNode *node) {
+	if (is_missing_block(node, "namespace")) return false;
+
 	Symbol *symbol = Calloc(1, sizeof(Symbol));
 	*symbol = (Symbol){
 		.name = token_to_mbs_str(node->token->next),
-- 
2.43.0


From 520ebe907f06908be2690da2de303e529d65c0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:57 +0000
Subject: [PATCH 38/50] fix: handle control flow leaving a namespace

---
 skull/codegen/llvm/core.c |  2 +-
 skull/codegen/llvm/flow.c | 10 ++++++----
 skull/codegen/llvm/flow.h |  2 +-
 skull/semantic/flow.c     | 27 ++++++++++++++++++++++++++-
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/skull/codegen/llvm/core.c b/skull/codegen/llvm/core.c
index 5c92e05..b914d5a 100644
--- a/skull/codegen/llvm/core.c
+++ b/skull/codegen/llvm/core.c
@@ -53,7 +53,7 @@ static Expr gen_node(const AstNode **node, SkullStateLLVM *state) {
 			gen_stmt_noop(&(*node)->token->location, state); break;
 		case AST_NODE_BREAK: return gen_stmt_break(state);
 		case AST_NODE_CONTINUE: return gen_stmt_continue(state);
-		case AST_NODE_NAMESPACE: gen_control_namespace(*node, state); break;
+		case AST_NODE_NAMESPACE: return gen_control_namespace(*node, state);
 		case AST_NODE_IMPORT:
 		case AST_NODE_COMMENT:
 			break;
diff --git a/skull/codegen/llvm/flow.c b/skull/codegen/llvm/flow.c
index c892325..2a835ba 100644
--- a/skull/codegen/llvm/flow.c
+++ b/skull/codegen/llvm/flow.c
@@ -22,7 +22,7 @@ static void gen_control_if_(
 	SkullStateLLVM *
 );
 
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *,
 	LLVMBasicBlockRef,
 	SkullStateLLVM *
@@ -151,8 +151,8 @@ void gen_control_if(const AstNode **node, SkullStateLLVM *state) {
 /*
 Builds a namespace from `node`.
 */
-void gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
-	gen_control_code_block(node, NULL, state);
+Expr gen_control_namespace(const AstNode *node, SkullStateLLVM *state) {
+	return gen_control_code_block(node, NULL, state);
 }
 
 /*
@@ -262,7 +262,7 @@ Expr gen_stmt_continue(const SkullStateLLVM *state) {
 Parse `node` while in a new scope. Branch to `block` if no return occurred (and
 is not `NULL`).
 */
-static void gen_control_code_block(
+static Expr gen_control_code_block(
 	const AstNode *node,
 	LLVMBasicBlockRef block,
 	SkullStateLLVM *state
@@ -284,4 +284,6 @@ static void gen_control_code_block(
 	}
 
 	if (!returned.value && block) LLVMBuildBr(state->builder, block);
+
+	return returned;
 }
diff --git a/skull/codegen/llvm/flow.h b/skull/codegen/llvm/flow.h
index 134b8ff..b05889a 100644
--- a/skull/codegen/llvm/flow.h
+++ b/skull/codegen/llvm/flow.h
@@ -14,4 +14,4 @@ void gen_stmt_implicit_main_return(const Location *, const SkullStateLLVM *);
 void gen_stmt_noop(const Location *, const SkullStateLLVM *);
 void gen_control_while(const AstNode *, SkullStateLLVM *);
 void gen_control_if(const AstNode **, SkullStateLLVM *);
-void gen_control_namespace(const AstNode *, SkullStateLLVM *);
+Expr gen_control_namespace(const AstNode *, SkullStateLLVM *);
diff --git a/skull/semantic/flow.c b/skull/semantic/flow.c
index c261482..ec0edac 100644
--- a/skull/semantic/flow.c
+++ b/skull/semantic/flow.c
@@ -19,6 +19,7 @@ static bool validate_control_not_missing_if(const AstNode *);
 static bool is_missing_block(const AstNode *, const char *);
 static bool validate_bool_expr(const AstNodeExpr *);
 static bool no_dead_code_below(const AstNode *);
+static bool is_terminated(const AstNode *);
 static bool is_valid_return_expr(SemanticState *, const AstNode *);
 
 bool validate_stmt_return(SemanticState *state, const AstNode *node) {
@@ -184,7 +185,31 @@ bool validate_control_namespace(SemanticState *state, AstNode *node) {
 
 	if (ok) symbol->scope = get_last_adjacent_scope(state->scope->last->child);
 
-	return ok;
+	return ok && (!is_terminated(node->child) || no_dead_code_below(node->next));
+}
+
+/*
+Return `true` if the code in `node` never continues after the last node.
+*/
+static bool is_terminated(const AstNode *node) {
+	while (node) {
+		switch (node->type) {
+			case AST_NODE_RETURN:
+			case AST_NODE_UNREACHABLE:
+			case AST_NODE_BREAK:
+			case AST_NODE_CONTINUE:
+				return true;
+			case AST_NODE_NAMESPACE: {
+				if (is_terminated(node->child)) return true;
+				break;
+			}
+			default: break;
+		}
+
+		node = node->next;
+	}
+
+	return false;
 }
 
 static bool is_missing_block(const AstNode *node, const char *name) {
-- 
2.43.0


From 34b8fc02cdd301d6b3ba503fa11640d39f42c376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:17 +0000
Subject: [PATCH 39/50] fix: reject nested functions that use variables of the
 outer function

---
 skull/semantic/assign.c   | 4 ++++
 skull/semantic/func.c     | 1 +
 skull/semantic/scope.c    | 3 ++-
 skull/semantic/variable.h | 5 +++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/skull/semantic/assign.c b/skull/semantic/assign.c
index fbd12b9..8eeead4 100644
--- a/skull/semantic/assign.c
+++ b/skull/semantic/assign.c
@@ -106,6 +106,10 @@ static Symbol *node_to_var(SemanticState *state, const AstNode *const node) {
 	var->implicitly_typed = node->var_def->is_implicit;
 	var->is_exported = node->var_def->is_exported;
 
+	if (state->current_func != state->main_func) {
+		var->func = state->current_func;
+	}
+
 	Symbol *symbol;
 	symbol = Calloc(1, sizeof *symbol);
 
diff --git a/skull/semantic/func.c b/skull/semantic/func.c
index 4b64e28..d5a7d9c 100644
--- a/skull/semantic/func.c
+++ b/skull/semantic/func.c
@@ -170,6 +170,7 @@ static bool validate_func_params(
 
 		param_var->linkage_name = param_var->name;
 		param_var->is_defined = true;
+		param_var->func = state->current_func;
 
 		if (function->is_external) variable_disable_warnings(param_var);
 
diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index 387be27..36bfd85 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -91,7 +91,8 @@ Symbol *scope_find_var(SemanticState *state, const Token *const token) {
 	if (!symbol ||
 		symbol->type != SYMBOL_VAR ||
 		!symbol->var ||
-		!symbol->var->is_defined
+		!symbol->var->is_defined ||
+		(symbol->var->func && symbol->var->func != state->current_func)
 	) {
 		FMT_ERROR(ERR_VAR_NOT_FOUND, {
 			.loc = &token->location, .real = var_name
diff --git a/skull/semantic/variable.h b/skull/semantic/variable.h
index c08f7f7..e47b48a 100644
--- a/skull/semantic/variable.h
+++ b/skull/semantic/variable.h
@@ -6,6 +6,7 @@
 #include "skull/semantic/types.h"
 
 typedef struct AstNodeExpr AstNodeExpr;
+typedef struct Symbol Symbol;
 
 /*
 `type` is the Skull type of the variable.
@@ -31,6 +32,9 @@ module.
 self-referencing the variable currently being assignment to).
 
 `ref` stores arbitrary data, for use in the backend.
+
+`func` is the function that the variable is local to, or `NULL` if the variable
+was declared outside of a function.
 */
 typedef struct Variable {
 	const Type *type;
@@ -47,6 +51,7 @@ typedef struct Variable {
 
 	void *ref;
 	AstNodeExpr *expr;
+	const Symbol *func;
 } Variable;
 
 Variable *make_variable(const Type *, const char32_t *const, _Bool);
-- 
2.43.0


From ed7556cc875ba5471a4dade6aec1c39979c400c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:20 +0000
Subject: [PATCH 40/50] fix: only look inside of a namespace for qualified
 names

---
 skull/semantic/scope.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/skull/semantic/scope.c b/skull/semantic/scope.c
index 36bfd85..f602bb9 100644
--- a/skull/semantic/scope.c
+++ b/skull/semantic/scope.c
@@ -14,6 +14,7 @@
 static void free_ht_symbol(HashItem *);
 static void free_symbol(Symbol *);
 static Scope *find_scope_head(SemanticState *);
+static Symbol *scope_find_name_(const Scope *const, char *, bool);
 
 /*
 Add `symbol` (as variable) to current scope.
@@ -38,6 +39,18 @@ This function might modify the contents of `name` durring execution, but will
 always keep the data the same after the function has finished.
 */
 Symbol *scope_find_name(const Scope *const scope, char *name) {
+	return scope_find_name_(scope, name, true);
+}
+
+/*
+Same as `scope_find_name`, but only look in parent scopes if `search_parents`
+is set.
+*/
+static Symbol *scope_find_name_(
+	const Scope *const scope,
+	char *name,
+	bool search_parents
+) {
 	if (!scope || !(scope->symbols || scope->parent || scope->last)) {
 		return NULL;
 	}
@@ -48,11 +61,19 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 		if (dot_position) {
 			*dot_position = '\0';
 
-			Symbol *namespace = scope_find_name(scope, name);
+			Symbol *namespace = scope_find_name_(
+				scope,
+				name,
+				search_parents
+			);
 			Symbol *symbol = NULL;
 
 			if (namespace && namespace->type == SYMBOL_NAMESPACE) {
-				symbol = scope_find_name(namespace->scope, dot_position + 1);
+				symbol = scope_find_name_(
+					namespace->scope,
+					dot_position + 1,
+					false
+				);
 			}
 
 			*dot_position = '.';
@@ -64,8 +85,14 @@ Symbol *scope_find_name(const Scope *const scope, char *name) {
 		if (symbol) return symbol;
 	}
 
-	if (scope->parent) return scope_find_name(scope->parent, name);
-	if (scope->last) return scope_find_name(scope->last, name);
+	if (scope->parent) {
+		if (!search_parents) return NULL;
+
+		return scope_find_name_(scope->parent, name, true);
+	}
+	if (scope->last) {
+		return scope_find_name_(scope->last, name, search_parents);
+	}
 
 	return NULL;
 }
-- 
2.43.0


From 943ad22c4a9b415b3a1cfd1b1a83f0c8abef8540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:00 +0000
Subject: [PATCH 41/50] fix: keep variables of functions local in the C backend

---
 skull/codegen/c/assign.c | 2 +-
 skull/codegen/c/func.c   | 4 ++++
 skull/codegen/c/shared.h | 1 +
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/assign.c b/skull/codegen/c/assign.c
index fa78c32..90fb71a 100644
--- a/skull/codegen/c/assign.c
+++ b/skull/codegen/c/assign.c
@@ -39,7 +39,7 @@ CStmt gen_stmt_var_def_c(const AstNode *node, SkullStateC *state) {
 
 	char *type = skull_type_to_c_type(var->type);
 
-	if (state->indent_lvl == 1) {
+	if (state->indent_lvl == 1 && !state->in_func) {
 		CStmt stmt = gen_stmt_global_var(node, type, state);
 
 		free(type);
diff --git a/skull/codegen/c/func.c b/skull/codegen/c/func.c
index 4d2bb27..a431fb2 100644
--- a/skull/codegen/c/func.c
+++ b/skull/codegen/c/func.c
@@ -1,3 +1,4 @@
+#include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -88,9 +89,12 @@ char *gen_function_prototype_c(const AstNode *node, SkullStateC *state) {
 	}
 	else {
 		unsigned indent_lvl = state->indent_lvl;
+		const bool in_func = state->in_func;
 		state->indent_lvl = 0;
+		state->in_func = true;
 		char *tree = gen_tree_c(node->child, state);
 		state->indent_lvl = indent_lvl;
+		state->in_func = in_func;
 
 		out = uvsnprintf(
 			func->is_export ?
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index e09d2ce..6444c51 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -8,6 +8,7 @@ typedef struct {
 	_Bool called_int_pow;
 	_Bool called_float_pow;
 	_Bool called_strcmp;
+	_Bool in_func;
 	unsigned indent_lvl;
 } SkullStateC;
 
-- 
2.43.0


From 63322c3399a5a3befb11c9e1bf003d4fb4ad935a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:21 +0000
Subject: [PATCH 42/50] fix: escape string literals in the C backend

---
 skull/codegen/c/expr.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index d7532ac..2826175 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -5,6 +5,7 @@
 #include <string.h>
 
 #include "skull/codegen/c/shared.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -14,6 +15,7 @@
 #include "skull/codegen/c/expr.h"
 
 static CExpr gen_expr_const_c(const AstNodeExpr *);
+static CExpr gen_expr_str_c(const char *);
 static CExpr gen_expr_binary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_unary_c(const AstNodeExpr *, SkullStateC *);
 static CExpr gen_expr_func_call_c(const AstNodeFunctionCall *, SkullStateC *);
@@ -80,12 +82,43 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 		return uvsnprintf("0x%X", expr->value.rune);
 	}
 	if (expr->type == &TYPE_STR) {
-		return uvsnprintf("\"%s\"", expr->value.str);
+		return gen_expr_str_c(expr->value.str);
 	}
 
 	assert(false);
 }
 
+/*
+Make a C string literal from `str`, escaping all the characters that cannot be
+put directly in a string literal.
+*/
+static CExpr gen_expr_str_c(const char *str) {
+	// each character can be escaped to at most 4 characters
+	char *const out = Malloc((strlen(str) * 4) + 3);
+	char *at = out;
+
+	*at++ = '"';
+
+	while (*str) {
+		const unsigned char c = (unsigned char)*str;
+
+		if (c == '"' || c == '\\' || c == '?' || c < 32 || c == 127) {
+			*at++ = '\\';
+			*at++ = (char)('0' + (c >> 6));
+			*at++ = (char)('0' + ((c >> 3) & 7));
+			*at++ = (char)('0' + (c & 7));
+		}
+		else *at++ = *str;
+
+		str++;
+	}
+
+	*at++ = '"';
+	*at = '\0';
+
+	return out;
+}
+
 static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 	const char *fmt = NULL;
 
-- 
2.43.0


From 8a19cef2d10fc08caa3de6e80c2c24e8334b223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:27 +0000
Subject: [PATCH 43/50] fix: emit valid C for infinity, NaN, and the smallest
 integer

---
 skull/codegen/c/expr.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 2826175..9254cc8 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -1,5 +1,6 @@
 #include <assert.h>
 #include <limits.h>
+#include <math.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <string.h>
@@ -61,6 +62,9 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	if (expr->type == &TYPE_INT) {
 		const int64_t i = expr->value._int;
 
+		// negative literals do not exist in C, only negated positive ones
+		if (i == LONG_MIN) return uvsnprintf("(%liL - 1)", i + 1);
+
 		// only add L suffix if value is larger then a C "int"
 		if (i > INT_MAX || i < INT_MIN) {
 			return uvsnprintf("%liL", i);
@@ -71,6 +75,13 @@ static CExpr gen_expr_const_c(const AstNodeExpr *expr) {
 	if (expr->type == &TYPE_FLOAT) {
 		if (!expr->value._int) return strdup("0.0");
 
+		if (isnan(expr->value._float)) return strdup("(0.0 / 0.0)");
+		if (isinf(expr->value._float)) {
+			return strdup(
+				expr->value._float < 0 ? "(-1.0 / 0.0)" : "(1.0 / 0.0)"
+			);
+		}
+
 		// here we are using the hex representation of the float to guarantee
 		// that there is no loss in percision when stringifying.
 		return uvsnprintf("%a", expr->value._float);
-- 
2.43.0


From 95e6cfdbb2252d230d78782c71c4be35df4459e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:33 +0000
Subject: [PATCH 44/50] fix: use fmod for floats in the C backend

---
 skull/codegen/c/expr.c   | 9 ++++++++-
 skull/codegen/c/shared.h | 1 +
 skull/codegen/c/write.c  | 6 ++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/c/expr.c b/skull/codegen/c/expr.c
index 9254cc8..e67b71e 100644
--- a/skull/codegen/c/expr.c
+++ b/skull/codegen/c/expr.c
@@ -138,7 +138,14 @@ static CExpr gen_expr_binary_c(const AstNodeExpr *expr, SkullStateC *state) {
 		case EXPR_SUB: fmt = "(%s - %s)"; break;
 		case EXPR_MULT: fmt = "(%s * %s)"; break;
 		case EXPR_DIV: fmt = "(%s / %s)"; break;
-		case EXPR_MOD: fmt = "(%s %% %s)"; break;
+		case EXPR_MOD: {
+			if (expr->lhs.expr->type == &TYPE_FLOAT) {
+				fmt = "_float_mod(%s, %s)";
+				state->called_float_mod = true;
+			}
+			else fmt = "(%s %% %s)";
+			break;
+		}
 		case EXPR_LSHIFT: fmt = "(%s << %s)"; break;
 		case EXPR_RSHIFT: fmt = "(%s >> %s)"; break;
 		case EXPR_IS: {
diff --git a/skull/codegen/c/shared.h b/skull/codegen/c/shared.h
index 6444c51..f9410bd 100644
--- a/skull/codegen/c/shared.h
+++ b/skull/codegen/c/shared.h
@@ -7,6 +7,7 @@ typedef struct {
 	char *globals;
 	_Bool called_int_pow;
 	_Bool called_float_pow;
+	_Bool called_float_mod;
 	_Bool called_strcmp;
 	_Bool in_func;
 	unsigned indent_lvl;
diff --git a/skull/codegen/c/write.c b/skull/codegen/c/write.c
index e666522..fe56435 100644
--- a/skull/codegen/c/write.c
+++ b/skull/codegen/c/write.c
@@ -14,6 +14,7 @@
 
 static const char *_strcmp; // NOLINT
 static const char *_float_pow; // NOLINT
+static const char *_float_mod; // NOLINT
 static const char *_int_pow; // NOLINT
 static const char *headers;
 
@@ -62,6 +63,7 @@ static void print_builtins(FILE *f, const SkullStateC *state) {
 	if (state->called_strcmp) fprintf(f, "%s\n", _strcmp);
 	if (state->called_int_pow) fprintf(f, "%s\n", _int_pow);
 	if (state->called_float_pow) fprintf(f, "%s\n", _float_pow);
+	if (state->called_float_mod) fprintf(f, "%s\n", _float_mod);
 }
 
 static void print_main_shim(
@@ -118,6 +120,10 @@ static const char *_float_pow = \
 "#include <math.h>\n"
 "double (*_float_pow)(double, double) = pow;\n";
 
+static const char *_float_mod = \
+"#include <math.h>\n"
+"double (*_float_mod)(double, double) = fmod;\n";
+
 static const char *_int_pow = \
 "int64_t _int_pow(int64_t base, int64_t exp) {\n"
 "	int64_t result = 1;\n"
-- 
2.43.0


From 3cf09d9c8aedec95437bc5e39de516f57748f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:47 +0000
Subject: [PATCH 45/50] fix: do not treat runtime values as constant
 expressions

---
 skull/semantic/expr.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/skull/semantic/expr.c b/skull/semantic/expr.c
index 028d017..c209bc1 100644
--- a/skull/semantic/expr.c
+++ b/skull/semantic/expr.c
@@ -64,7 +64,9 @@ static bool validate_ident_expr(SemanticState *state, AstNodeExpr *expr) {
 
 	expr->symbol = symbol;
 	expr->type = var->type;
-	if (var->expr) expr->is_const_expr = var->expr->is_const_expr;
+	if (var->is_const && var->expr) {
+		expr->is_const_expr = var->expr->is_const_expr;
+	}
 
 	return true;
 }
@@ -147,7 +149,16 @@ static void set_expr_type(SemanticState *state, AstNodeExpr *expr) {
 }
 
 static void set_const_expr(AstNodeExpr *expr) {
-	if (is_binary_expr(expr->oper)) {
+	// these can only be evaluated at runtime
+	if (
+		expr->oper == EXPR_POW ||
+		(expr->oper == EXPR_MOD && expr->rhs->type == &TYPE_FLOAT) ||
+		((expr->oper == EXPR_IS || expr->oper == EXPR_ISNT) &&
+			expr->rhs->type == &TYPE_STR)
+	) {
+		expr->is_const_expr = false;
+	}
+	else if (is_binary_expr(expr->oper)) {
 		expr->is_const_expr = (
 			expr->lhs.expr->is_const_expr && expr->rhs->is_const_expr
 		);
-- 
2.43.0


From 90c49b2d7585e41a66b5171170953c8740620e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:40 +0000
Subject: [PATCH 46/50] fix: accept an underscore after a leading zero in
 integer literals

---
 skull/parse/classify.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/parse/classify.c b/skull/parse/classify.c
index 2760d52..9ed9195 100644
--- a/skull/parse/classify.c
+++ b/skull/parse/classify.c
@@ -211,7 +211,10 @@ of an integer.
 Examples: `-123`, `123`, `0xFF`, `0xff`, `0b1010`, `0o777`
 */
 static bool is_constant_integer_str(const char32_t *str) {
-	if (*str == '0' && str[1] && !c32isdigit(str[1]) && str[2]) {
+	if (
+		*str == '0' && str[1] && str[1] != '_' &&
+		!c32isdigit(str[1]) && str[2]
+	) {
 		str += 2;
 
 		if (str[-1] == 'x') {
-- 
2.43.0


From c1bc4909f41e79eea11aaa0b69aed478ec679008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 47/50] fix: quote filenames that are passed to the linker

---
 skull/codegen/llvm/write.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 18f941e..5525b62 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -22,6 +22,7 @@
 #include "skull/codegen/llvm/write.h"
 #include "skull/codegen/shared.h"
 #include "skull/common/io.h"
+#include "skull/common/malloc.h"
 #include "skull/common/str.h"
 #include "skull/semantic/func.h"
 #include "skull/semantic/symbol.h"
@@ -45,6 +46,7 @@ static bool will_build_binary(void);
 static int sh(char *[]);
 static int shell(char *);
 static char *get_binary_name(void);
+static char *shell_quote(const char *);
 static bool check_directory(char *);
 
 /*
@@ -156,6 +158,22 @@ static char *get_binary_name(void) {
 	return binary_name;
 }
 
+/*
+Escape `str` such that it can be used between double quotes in a shell command.
+*/
+static char *shell_quote(const char *str) {
+	char *quoted = Malloc((strlen(str) * 2) + 1);
+	char *out = quoted;
+
+	for (; *str; str++) {
+		if (strchr("\"\\$`", *str)) *out++ = '\\';
+		*out++ = *str;
+	}
+	*out = '\0';
+
+	return quoted;
+}
+
 /*
 Return true if an error occurs.
 */
@@ -186,12 +204,17 @@ static PhaseResult emit_native_binary(void) {
 
 	if (err) return PHASE_ERR;
 
+	char *quoted_object = shell_quote(BUILD_DATA.out_file);
+	char *quoted_binary = shell_quote(binary_name);
+
 	char *shim = uvsnprintf(
 		"cc -nostartfiles \"%s\" -o \"%s\" %s -I/usr/include/skull -lm",
-		BUILD_DATA.out_file,
-		binary_name,
+		quoted_object,
+		quoted_binary,
 		BUILD_DATA.extra_args ? BUILD_DATA.extra_args : (char[]){0}
 	);
+	free(quoted_object);
+	free(quoted_binary);
 	free(binary_name);
 
 	const bool exit_code = shell(shim);
-- 
2.43.0


From f463f170a21a75c5c28611e16de043788b616cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 48/50] fix: remove the object file when the binary name is a
 directory

---
 skull/codegen/llvm/write.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/skull/codegen/llvm/write.c b/skull/codegen/llvm/write.c
index 5525b62..d35715f 100644
--- a/skull/codegen/llvm/write.c
+++ b/skull/codegen/llvm/write.c
@@ -202,7 +202,10 @@ static PhaseResult emit_native_binary(void) {
 	char *binary_name = get_binary_name();
 	bool err = check_directory(binary_name);
 
-	if (err) return PHASE_ERR;
+	if (err) {
+		remove(BUILD_DATA.out_file);
+		return PHASE_ERR;
+	}
 
 	char *quoted_object = shell_quote(BUILD_DATA.out_file);
 	char *quoted_binary = shell_quote(binary_name);
-- 
2.43.0


From ab85ccfa017511c1035fac790350288aa984b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 49/50] fix: reject characters that are outside of the Unicode
 range

---
 skull/common/str.c     | 7 +++++--
 skull/common/str.h     | 2 ++
 skull/semantic/types.c | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/skull/common/str.c b/skull/common/str.c
index 9dfbe7b..2a3a982 100644
--- a/skull/common/str.c
+++ b/skull/common/str.c
@@ -65,7 +65,7 @@ char *c32stombs(const char32_t *str, const Location *location) {
 		errno = 0;
 		size_t length = c32rtomb(ret + offset, *str, &mbs);
 
-		if (errno == EILSEQ) {
+		if (errno == EILSEQ || *str > MAX_CODE_POINT) {
 			FMT_ERROR(ERR_ILLEGAL_SEQ, { .loc = location });
 
 			free(ret);
@@ -120,7 +120,10 @@ char32_t *mbstoc32s(const char *str) {
 		errno = 0;
 		const size_t length = mbrtoc32(ret + offset, str, MB_CUR_MAX, &mbs);
 
-		if (errno == EILSEQ) {
+		// libc might allow for more than what is valid UTF-8
+		if (errno == EILSEQ || (
+			length <= MB_CUR_MAX && ret[offset] > MAX_CODE_POINT
+		)) {
 			FMT_ERROR(ERR_ILLEGAL_SEQ_AT, { .i = offset + 1 });
 
 			free(ret);
diff --git a/skull/common/str.h b/skull/common/str.h
index a7dcf71..30dcd6b 100644
--- a/skull/common/str.h
+++ b/skull/common/str.h
@@ -4,6 +4,8 @@
 
 typedef struct Location Location;
 
+enum { MAX_CODE_POINT = 0x10FFFF };
+
 const char *strrstr(const char *, const char *);
 const char32_t *c32schr(const char32_t *const, char32_t);
 
diff --git a/skull/semantic/types.c b/skull/semantic/types.c
index 6e71cc1..4e0458d 100644
--- a/skull/semantic/types.c
+++ b/skull/semantic/types.c
@@ -130,7 +130,7 @@ char32_t eval_rune(const Token *const token, bool *err) {
 	errno = 0;
 	c32rtomb(buf, ret, &mbs);
 
-	if (errno == EILSEQ) {
+	if (errno == EILSEQ || ret > MAX_CODE_POINT) {
 		FMT_ERROR(ERR_ILLEGAL_SEQ, { .loc = &token->location });
 
 		*err = true;
-- 
2.43.0


From 8cd26dc48f5fd6affddd436e2dd1a5dbdacae0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:06 +0000
Subject: [PATCH 50/50] fix: an external function keeps its name when a private
 symbol has it

---
 skull/codegen/llvm/func.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/skull/codegen/llvm/func.c b/skull/codegen/llvm/func.c
index 14b4702..68d8d8f 100644
--- a/skull/codegen/llvm/func.c
+++ b/skull/codegen/llvm/func.c
@@ -25,6 +25,7 @@
 
 static void gen_function_def(const AstNode *const, Symbol *, SkullStateLLVM *);
 static void add_func(Symbol *, const SkullStateLLVM *);
+static void rename_private(const char *, const SkullStateLLVM *);
 static LLVMTypeRef *parse_func_param(
 	const FunctionDeclaration *,
 	const SkullStateLLVM *state
@@ -63,6 +64,8 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 	);
 	free(params);
 
+	if (func->is_external) rename_private(symbol->linkage_name, state);
+
 	func->ref = LLVMAddFunction(
 		state->module,
 		symbol->linkage_name,
@@ -77,6 +80,19 @@ static void add_func(Symbol *symbol, const SkullStateLLVM *state) {
 	);
 }
 
+/*
+Rename the private symbol called `name`, if there is one, since an external
+function must keep its name.
+*/
+static void rename_private(const char *name, const SkullStateLLVM *state) {
+	LLVMValueRef ref = LLVMGetNamedFunction(state->module, name);
+	if (!ref) ref = LLVMGetNamedGlobal(state->module, name);
+
+	if (ref && LLVMGetLinkage(ref) == LLVMPrivateLinkage) {
+		LLVMSetValueName2(ref, ".private", 8);
+	}
+}
+
 /*
 Setup function params of `func`.
 */
-- 
2.43.0

