From 71f63e501c71ade3de0b4d75dcbb69844e94168a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:43 +0000
Subject: [PATCH 01/57] fix: bind unary minus and 'not' to their own operand

---
 source/lib_compiler/parser.cpp | 35 ++++++++++++++++++++++------------
 source/lib_compiler/parser.h   |  1 +
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..39f4b1f 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -110,7 +110,8 @@ int32_t parser_t::op_type_(token_e type) const {
 
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
-  return op_type_(stream_.type()) > 0;
+  // note: 'not' is a prefix operator so can never follow an operand
+  return stream_.type() != TOK_NOT && op_type_(stream_.type()) > 0;
 }
 
 ast_node_t *parser_t::parse_array_init_(const token_t &t) {
@@ -217,24 +218,16 @@ void parser_t::parse_lhs_() {
   } while (false);
 }
 
-void parser_t::parse_expr_ex_(uint32_t tide) {
+void parser_t::parse_operand_() {
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
 
   // format:
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ]
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ] <op> <expr_ex>
-
-  // not
-  if (const token_t *n = stream_.found(TOK_NOT)) {
-    parse_expr_ex_(tide);
-    op_push_(n, tide);
-    return;
-  }
+  //    [-] <lhs> [ '(' <expr> ')' ]
 
   // unary minus
   if (const token_t *n = stream_.found(TOK_SUB)) {
-    parse_expr_ex_(tide);
+    parse_operand_();
     ast_node_t *back = exp_stack_.back();
     exp_stack_.pop_back();
     auto *op = nano_.ast().alloc<ast_exp_unary_op_t>(n);
@@ -276,6 +269,24 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
     break;
   }
+}
+
+void parser_t::parse_expr_ex_(uint32_t tide) {
+  token_stream_t &stream_ = nano_.lexer().stream();
+
+  // format:
+  //    ['not'] <operand>
+  //    ['not'] <operand> <op> <expr_ex>
+
+  // not
+  if (const token_t *n = stream_.found(TOK_NOT)) {
+    // a prefix operator has no left operand so there is nothing to reduce yet
+    op_stack_.push_back(n);
+    parse_expr_ex_(tide);
+    return;
+  }
+
+  parse_operand_();
 
   if (is_operator_()) {
     const token_t *op = stream_.pop();
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index b3c3afa..de3592d 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -50,6 +50,7 @@ protected:
   // expressions parsing helpers
   void parse_expr_ex_(uint32_t tide);
   void parse_lhs_();
+  void parse_operand_();
 
   // return true if next token is an operator
   bool is_operator_() const;
-- 
2.43.0


From 88a76b2dad2dd1e8f6176f0bc66118eae68e1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:48 +0000
Subject: [PATCH 02/57] fix: accept blank lines and comments in an otherwise
 empty block

---
 source/lib_compiler/parser.cpp | 19 ++++++++++++-------
 source/lib_compiler/parser.h   |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 39f4b1f..f4e45ab 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -387,14 +387,14 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   stream_.pop(TOK_LPAREN);
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
-  stream_.pop(TOK_EOL);
+  pop_lines_();
 
   // IF body
   stmt->then_block = ast.alloc<ast_block_t>();
   bool has_else = false;
   while (!stream_.found(TOK_END)) {
     if (stream_.found(TOK_ELSE)) {
-      stream_.pop(TOK_EOL);
+      pop_lines_();
       has_else = true;
       break;
     }
@@ -430,7 +430,7 @@ ast_node_t* parser_t::parse_while_(const token_t &t) {
   stream_.pop(TOK_LPAREN);
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
-  stream_.pop(TOK_EOL);
+  pop_lines_();
 
   // WHILE body
   stmt->body = ast.alloc<ast_block_t>();
@@ -464,7 +464,7 @@ ast_node_t* parser_t::parse_for_(const token_t &t) {
   stream_.pop(TOK_TO);
   stmt->end = parse_expr_();
   stream_.pop(TOK_RPAREN);
-  stream_.pop(TOK_EOL);
+  pop_lines_();
 
   // FOR body
   stmt->body = ast.alloc<ast_block_t>();
@@ -603,11 +603,16 @@ ast_node_t* parser_t::parse_stmt_() {
   }
 
   // all statements should be on their own line so must have one or more EOLs
+  pop_lines_();
+
+  return stmt;
+}
+
+void parser_t::pop_lines_() {
+  token_stream_t &stream_ = nano_.lexer().stream();
   stream_.pop(TOK_EOL);
   // pop any extra EOLS now so we can sync with TOK_END correctly
   while (stream_.found(TOK_EOL));
-
-  return stmt;
 }
 
 ast_node_t* parser_t::parse_member_assign_(const token_t &t) {
@@ -662,7 +667,7 @@ ast_node_t* parser_t::parse_function_(const token_t &t) {
     } while (stream_.found(TOK_COMMA));
     stream_.pop(TOK_RPAREN);
   }
-  stream_.pop(TOK_EOL);
+  pop_lines_();
 
   // function body
   func->body = ast.alloc<ast_block_t>();
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index de3592d..ec1a1cf 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -49,6 +49,7 @@ protected:
 
   // expressions parsing helpers
   void parse_expr_ex_(uint32_t tide);
+  void pop_lines_();
   void parse_lhs_();
   void parse_operand_();
 
-- 
2.43.0


From 1a57bb1552423c1a299434e9c4bb1c2dc129a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:08 +0000
Subject: [PATCH 03/57] fix: dead branch removal no longer rewrites a literal
 shared with other uses of a constant

---
 source/lib_compiler/optimize.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..6032a35 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -346,6 +346,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
   opt_if_remove_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {}
 
   void visit(ast_stmt_if_t *s) override {
@@ -358,7 +359,8 @@ struct opt_if_remove_t: public ast_visitor_t {
       else {
         s->then_block = s->else_block;
         s->else_block = nullptr;
-        c->val = 1;
+        // the literal may be shared with other uses of the same constant
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
       }
     }
   }
@@ -378,6 +380,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
 protected:
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From 8647e2daa206f3db151df0d15cb0881669d82fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:11 +0000
Subject: [PATCH 04/57] fix: constant evaluation of global initialisers handles
 'not', functions and non constant operands

---
 source/lib_compiler/sema.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..b66697e 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,12 +21,19 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    if (!valid_) {
+      // the operand is not a constant
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
     switch (n->op->type_) {
     case TOK_SUB:
-      r = -v;
+      r = int32_t(0u - uint32_t(v));
+      break;
+    case TOK_NOT:
+      r = !v;
       break;
     default:
       assert(!"unknown operator");
@@ -53,8 +60,8 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    // note: an identifier can also name a function
+    if (decl && decl->is_const) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
-- 
2.43.0


From 950090b68bd78ed551655179a0b385b4be14101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:50 +0000
Subject: [PATCH 05/57] fix: INT32_MIN divided by -1 no longer traps in the vm
 or the constant folders

---
 source/lib_common/types.h        | 11 +++++++++++
 source/lib_compiler/optimize.cpp |  4 ++--
 source/lib_compiler/sema.cpp     |  4 ++--
 source/lib_vm/thread.cpp         |  4 ++--
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/source/lib_common/types.h b/source/lib_common/types.h
index a2441f2..300a986 100644
--- a/source/lib_common/types.h
+++ b/source/lib_common/types.h
@@ -9,6 +9,17 @@ namespace nano {
 // system call interface function
 typedef void(*nano_syscall_t)(struct thread_t &thread, int32_t num_args);
 
+// integer division (b != 0), wraps like the other integer operators since
+// INT32_MIN / -1 would trap on some hosts
+inline int32_t int_div(int32_t a, int32_t b) {
+  return b == -1 ? int32_t(0u - uint32_t(a)) : a / b;
+}
+
+// integer modulus (b != 0)
+inline int32_t int_mod(int32_t a, int32_t b) {
+  return b == -1 ? 0 : a % b;
+}
+
 struct line_t {
 
   int32_t file;
diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 6032a35..a5398c0 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -291,8 +291,8 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      case TOK_DIV: v = int_div(a, b); break;
+      case TOK_MOD: v = int_mod(a, b); break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index b66697e..4e31316 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -144,8 +144,8 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    case TOK_DIV:     return int_div(a, b);
+    case TOK_MOD:     return int_mod(a, b);
     default:
       assert(!"unknown operator");
     }
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..bae4bac 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -196,7 +196,7 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      const int32_t o = int_div(l->v, r->v);
       stack_.push_int(o);
     }
     return;
@@ -223,7 +223,7 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      const int32_t o = int_mod(l->v, r->v);
       stack_.push_int(o);
     }
     return;
-- 
2.43.0


From 56145179f3a80291c0b5468f0cf157495edd46db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:53 +0000
Subject: [PATCH 06/57] fix: variables declared in the then branch are not
 visible in the else branch

---
 source/lib_compiler/sema.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 4e31316..5765b9c 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -411,8 +411,13 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
+    dispatch(n->expr);
+    // each branch has its own scope
     scope_.emplace_back();
-    ast_visitor_t::visit(n);
+    dispatch(n->then_block);
+    scope_.pop_back();
+    scope_.emplace_back();
+    dispatch(n->else_block);
     scope_.pop_back();
   }
 
-- 
2.43.0


From e8e3fa81121a539246824b1417618fc7200e48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:56 +0000
Subject: [PATCH 07/57] fix: a local declared without initialiser starts as
 none each time it is declared

---
 source/lib_compiler/codegen.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..2530d6b 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -469,8 +469,12 @@ struct codegen_pass_t: ast_visitor_t {
     assert(n->is_local());
     if (n->expr) {
       dispatch(n->expr);
-      emit(INS_SETV, n->offset, n->name);
     }
+    else {
+      // the slot may still hold a value from an earlier iteration or block
+      emit(INS_NEW_NONE, n->name);
+    }
+    emit(INS_SETV, n->offset, n->name);
   }
 
   const std::vector<function_t> &functions() const {
-- 
2.43.0


From 033b506e174f44b99ab7542475503a8c9bd22fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:25 +0000
Subject: [PATCH 08/57] fix: string concatenation no longer truncates its
 operand or aborts on arrays and syscalls

---
 source/lib_vm/thread.cpp | 46 ++++++++++++----------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index bae4bac..f295e3c 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -32,25 +32,25 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+bool to_string(std::string &out, const value_t *val) {
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
+    out = std::to_string(val->f);
     return true;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
+    out = std::to_string(val->integer());
     return true;
   case val_type_string:
-    snprintf(buf, size, "%s", val->string());
+    out.assign(val->string(), val->strlen());
     return true;
   case val_type_none:
-    snprintf(buf, size, "none");
+    out = "none";
     return true;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
+    out = "function@" + std::to_string(val->v);
     return true;
   default:
-    assert(false);
+    // no string representation
     return false;
   }
 }
@@ -108,31 +108,13 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
-    const int32_t len = l->strlen() + rsize;
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, l->string(), l->strlen());
-    memcpy(dst + l->strlen(), rbuf, rsize);
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
-  }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
-    const int32_t len = lsize + r->strlen();
-    value_t *s = gc_.new_string(len);
-    char *dst = s->string();
-    memcpy(dst, lbuf, lsize);
-    memcpy(dst + lsize, r->string(), r->strlen());
-    dst[len] = '\0';
-    stack_.push(s);
-    return;
+  // string concatenation
+  if (l->is_a<val_type_string>() || r->is_a<val_type_string>()) {
+    std::string ls, rs;
+    if (to_string(ls, l) && to_string(rs, r)) {
+      stack_.push_string(ls + rs);
+      return;
+    }
   }
   // try a user handler
   if (vm_.handlers.on_add) {
-- 
2.43.0


From a96eec64d073caad2e3402969285ff861d89cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:25 +0000
Subject: [PATCH 09/57] fix: calling none raises an error and a bad indirect
 call does not enter the callee

---
 source/lib_vm/thread.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index f295e3c..7e0f73f 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -236,6 +236,10 @@ void thread_t::do_INS_NEG_() {
     stack_.push_int(-o->v);
     return;
   }
+  if (o->is_a<val_type_float>()) {
+    stack_.push_float(-o->f);
+    return;
+  }
   raise_error(thread_error_t::e_bad_type_operation);
 }
 
@@ -410,7 +414,6 @@ void thread_t::do_INS_SCALL_() {
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
     do_syscall_(operand, num_args);
-- 
2.43.0


From 419d33d4eabb5d5aacdc082cd91b147161cab633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 10/57] fix: unary minus applies to floats

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 7e0f73f..7530639 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -426,6 +426,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
-- 
2.43.0


From ad32e17d0e13ccca4be824ad5f7f7b9d4bd4ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:28 +0000
Subject: [PATCH 11/57] fix: name the string and import tokens in error
 messages

---
 source/lib_compiler/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..e8cc3c5 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -98,6 +98,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_LBRACKET: return "[";
   case TOK_RBRACKET: return "]";
   case TOK_NONE:     return "none";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   case TOK_DOT:      return ".";
   default:
     assert(!"unhandled token type");
-- 
2.43.0


From a20332011f66d8608438b398abd262e43d9b9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:31 +0000
Subject: [PATCH 12/57] fix: lexer does not read past the end of a source that
 ends in a comment

---
 source/lib_compiler/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..acc93c3 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -80,6 +80,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       for (; *s && *s != '\n'; ++s) {
         // empty
       }
+      if (*s == '\0') {
+        // comment on the last line without a new line
+        break;
+      }
       {
         assert(s >= new_line_);
         new_line_ = s + 1;
-- 
2.43.0


From 385a051a75cf57242b71e01a8988de332dba5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:42 +0000
Subject: [PATCH 13/57] fix: garbage collector handles cyclic, shared and
 deeply nested arrays

---
 source/lib_vm/vm_gc.cpp | 45 +++++++++++++++++++++++++----------------
 source/lib_vm/vm_gc.h   |  5 +++++
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..472e316 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -115,7 +115,18 @@ void value_gc_t::collect() {
   forward_clear();
 }
 
-void value_gc_t::trace(value_t **list, size_t num) {
+void value_gc_t::trace(value_t **input, size_t count) {
+  pending_.emplace_back(input, count);
+  // note: nested arrays are queued rather than visited recursively so that deep
+  //       structures can not exhaust the native stack
+  while (!pending_.empty()) {
+    const auto next = pending_.back();
+    pending_.pop_back();
+    trace_list_(next.first, next.second);
+  }
+}
+
+void value_gc_t::trace_list_(value_t **list, size_t num) {
 
   // area data should be moved to
   arena_t &to = space_to();
@@ -123,13 +134,20 @@ void value_gc_t::trace(value_t **list, size_t num) {
   for (size_t i = 0; i < num; ++i) {
     value_t *&v = list[i];
 
-    // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
-      const int32_t size = v->array_size();
-      trace(v->array(), size);
+    if (v->type() == val_type_array) {
+      // each array is visited once per collection since it may be shared or
+      // be part of a cycle
+      if (value_t *x = forward_find(v)) {
+        list[i] = x;
+        continue;
+      }
+      // a value may be new yet contain referenced to old data therefore we must
+      // visit these nodes regardless
+      if (to.owns(v)) {
+        forward_add(v, v);
+        pending_.emplace_back(v->array(), v->array_size());
+        continue;
+      }
     }
 
     // already collected so skip to avoid cyclic trace loops
@@ -170,15 +188,6 @@ void value_gc_t::trace(value_t **list, size_t num) {
       break;
     }
     case val_type_array: {
-      // if we have global variables, they might have been relocated at which
-      // point our pointers will point to the wrong half space
-      if (value_t *x = forward_find(v)) {
-        list[i] = x;
-        break;
-      }
-
-      // may want to swap in the new pointer prior to trace to break cycles
-
       const int32_t size = v->array_size();
       // move into to space
       value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
@@ -188,6 +197,8 @@ void value_gc_t::trace(value_t **list, size_t num) {
       // keep track of forwarded global arrays that may have to move
       forward_add(v, n);
       list[i] = n;
+      // collect child elements
+      pending_.emplace_back(n->array(), size);
       break;
     }
     default:
diff --git a/source/lib_vm/vm_gc.h b/source/lib_vm/vm_gc.h
index 0af2924..a8d17b2 100644
--- a/source/lib_vm/vm_gc.h
+++ b/source/lib_vm/vm_gc.h
@@ -144,6 +144,11 @@ protected:
   // up when we need.
   std::unordered_map<const value_t *, value_t *> forward_;
 
+  // lists of values that are yet to be visited by the current trace
+  std::vector<std::pair<value_t **, size_t>> pending_;
+
+  void trace_list_(value_t **list, size_t num);
+
   uint32_t flipflop_;
   std::array<arena_t, 2> space_;
 };
-- 
2.43.0


From c4e8822314ad5febf7518472e3bd0a63af99855b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:01 +0000
Subject: [PATCH 14/57] fix: arrays can be passed as thread arguments

---
 source/lib_vm/thread.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 7530639..4abddb9 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -699,7 +699,9 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   // push any arguments
   for (int i = 0; i < argc; ++i) {
     const value_t *v = argv[i];
-    stack_.push(gc_.copy(*v));
+    // arrays are reference types so share them
+    stack_.push(v->is_a<val_type_array>() ? const_cast<value_t *>(v)
+                                          : gc_.copy(*v));
   }
 
   // push the initial frame
-- 
2.43.0


From 6a7463ba88fb91ec8c6bec2e369ca5d573b014a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:03 +0000
Subject: [PATCH 15/57] fix: a source is not taken for another whose path is a
 prefix of its own

---
 source/lib_common/source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..84de777 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -28,7 +28,7 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  return *y == '\0';
 }
 
 } // namespace {}
-- 
2.43.0


From f89800bb3a0e752a65d0b58d840a3c223bfc50e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:06 +0000
Subject: [PATCH 16/57] fix: a source that failed to load is not kept in the
 source list

---
 source/lib_common/source.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 84de777..02fd392 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -47,13 +47,21 @@ bool source_manager_t::load(const char *path) {
       return true;
     }
   }
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_file(path)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_string(str)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From 69b3303fef53a4d4fad36e2b876a5e3c042da11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:32 +0000
Subject: [PATCH 17/57] fix: imports of a source without a directory part are
 relative to the working directory

---
 source/lib_common/source.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 02fd392..c4ae561 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -37,7 +37,10 @@ namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
   std::string base = base_path(s.file_path());
-  in_out = base + "/" + in_out;
+  // note: a file in the working directory has no base path
+  if (s.file_path().find_first_of("/\\") != std::string::npos) {
+    in_out = base + "/" + in_out;
+  }
 }
 
 bool source_manager_t::load(const char *path) {
-- 
2.43.0


From 42b5d877adcab0edfd9b655356fb054d2f2b0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:34 +0000
Subject: [PATCH 18/57] fix: a file imported through different relative paths
 is only compiled once

---
 source/lib_common/source.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index c4ae561..17cc6d6 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -31,6 +31,28 @@ bool path_cmp(const char *x, const char *y) {
   return *y == '\0';
 }
 
+// resolve '.' and '..' in a path so that it can be compared
+std::string path_normalize(const std::string &in) {
+  std::vector<std::string> parts;
+  for (size_t i = 0; i <= in.size();) {
+    const size_t e = std::min(in.find_first_of("/\\", i), in.size());
+    const std::string part = in.substr(i, e - i);
+    if (part == ".." && !parts.empty() && !parts.back().empty() &&
+        parts.back() != "..") {
+      parts.pop_back();
+    }
+    else if (part != "." && (!part.empty() || i == 0)) {
+      parts.push_back(part);
+    }
+    i = e + 1;
+  }
+  std::string out;
+  for (size_t i = 0; i < parts.size(); ++i) {
+    out += (i ? "/" : "") + parts[i];
+  }
+  return out;
+}
+
 } // namespace {}
 
 namespace nano {
@@ -44,9 +66,10 @@ void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
 }
 
 bool source_manager_t::load(const char *path) {
+  const std::string norm = path_normalize(path);
   for (const auto &s : sources_) {
     // file already loaded so return
-    if (path_cmp(s->file_path().c_str(), path)) {
+    if (path_cmp(path_normalize(s->file_path()).c_str(), norm.c_str())) {
       return true;
     }
   }
-- 
2.43.0


From ea1554775eb90692e8562f3b2dff29f7f38e59fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:04 +0000
Subject: [PATCH 19/57] fix: serial_save reports write errors

---
 source/lib_common/program.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..e02768d 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -154,9 +154,9 @@ bool program_t::serial_save(const char *path) {
   for (const auto &s : strings_) {
     emit(fd, s);
   }
-  // done
-  fclose(fd);
-  return true;
+  // done, make sure that everything was written
+  const bool ok = !ferror(fd);
+  return (fclose(fd) == 0) && ok;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From f99abc41077aedd87e3505201b4dbd2dc914341b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:10 +0000
Subject: [PATCH 20/57] fix: serial_load accepts long strings and rejects
 incomplete files without leaving a partial program

---
 source/lib_common/program.cpp | 30 +++++++++++++++++++++++-------
 source/lib_common/program.h   |  4 ++++
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index e02768d..757b44f 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -57,6 +57,16 @@ bool consume(FILE *fd, int32_t &val) {
   return 1 == fread(&val, 4, 1, fd);
 }
 
+// consume the size of a block of data, which must be present in the file
+bool consume_size(FILE *fd, int32_t &size) {
+  TRY(consume(fd, size));
+  const long head = ftell(fd);
+  TRY(head >= 0 && fseek(fd, 0, SEEK_END) == 0);
+  const long end = ftell(fd);
+  TRY(fseek(fd, head, SEEK_SET) == 0);
+  return size >= 0 && size <= end - head;
+}
+
 bool consume(FILE *fd, nano::program_t::linetable_t &s) {
   int32_t num_lines = 0;
   TRY(consume(fd, num_lines));
@@ -74,10 +84,7 @@ bool consume(FILE *fd, nano::program_t::linetable_t &s) {
 
 bool consume(FILE *fd, std::string &string) {
   int32_t size = 0;
-  if (1 != fread(&size, 4, 1, fd)) {
-    return false;
-  }
-  assert(size < 256);
+  TRY(consume_size(fd, size));
   string.resize(size);
   auto data = std::make_unique<char[]>(size + 1);
   if (fread(data.get(), 1, size, fd) != size) {
@@ -167,6 +174,16 @@ bool program_t::serial_load(const char *path) {
   }
   // reset this program prior
   reset();
+  const bool ok = serial_load_(fd);
+  fclose(fd);
+  if (!ok) {
+    // dont leave a partial program behind
+    reset();
+  }
+  return ok;
+}
+
+bool program_t::serial_load_(FILE *fd) {
   // read header
   int32_t magic_no = 0;
   TRY(consume(fd, magic_no));
@@ -184,7 +201,7 @@ bool program_t::serial_load(const char *path) {
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    TRY(consume(fd, syscalls_.back().name_));
   }
   // read functions
   int32_t num_functions = 0;
@@ -195,7 +212,7 @@ bool program_t::serial_load(const char *path) {
   }
   // read bytecode
   int32_t code_size = 0;
-  TRY(consume(fd, code_size));
+  TRY(consume_size(fd, code_size));
   code_.resize(code_size);
   if (fread(code_.data(), 1, code_size, fd) != code_size) {
     return false;
@@ -210,7 +227,6 @@ bool program_t::serial_load(const char *path) {
     TRY(consume(fd, strings_.back()));
   }
   // done
-  fclose(fd);
   return true;
 }
 
diff --git a/source/lib_common/program.h b/source/lib_common/program.h
index 1a2b2e7..53a6cca 100644
--- a/source/lib_common/program.h
+++ b/source/lib_common/program.h
@@ -6,6 +6,7 @@
 #include <array>
 #include <memory>
 #include <cassert>
+#include <cstdio>
 
 
 #include "common.h"
@@ -92,6 +93,9 @@ struct program_t {
 protected:
   friend struct program_builder_t;
 
+  // load a program from an open file
+  bool serial_load_(FILE *fd);
+
   // XXX: add filetable
 
   // add a line to the line table
-- 
2.43.0


From 74c04c07a9ade0add77126e8cbabe2f40f68bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:42 +0000
Subject: [PATCH 21/57] fix: importing a directory is an error instead of a
 crash

---
 source/lib_common/file.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/lib_common/file.h b/source/lib_common/file.h
index e51203a..c472bf8 100644
--- a/source/lib_common/file.h
+++ b/source/lib_common/file.h
@@ -15,6 +15,12 @@ struct file_t {
       return false;
     }
 
+    // nothing can be read from an empty file or a directory
+    if (fgetc(fd) == EOF) {
+      fclose(fd);
+      return false;
+    }
+
     fseek(fd, 0, SEEK_END);
     _size = ftell(fd);
     fseek(fd, 0, SEEK_SET);
-- 
2.43.0


From e065948e88840c558d3495ffdfe5768ed0b355bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:44 +0000
Subject: [PATCH 22/57] fix: name every thread error

---
 source/lib_vm/thread_error.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/thread_error.cpp b/source/lib_vm/thread_error.cpp
index 267c93c..5c578c0 100644
--- a/source/lib_vm/thread_error.cpp
+++ b/source/lib_vm/thread_error.cpp
@@ -8,6 +8,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   switch (err) {
   case thread_error_t::e_success:             return "e_success";
   case thread_error_t::e_max_cycle_count:     return "e_max_cycle_count";
+  case thread_error_t::e_bad_prepare:         return "e_bad_prepare";
   case thread_error_t::e_bad_getv:            return "e_bad_getv";
   case thread_error_t::e_bad_setv:            return "e_bad_setv";
   case thread_error_t::e_bad_num_args:        return "e_bad_num_args";
@@ -21,6 +22,7 @@ const char *get_thread_error(const nano::thread_error_t &err) {
   case thread_error_t::e_stack_underflow:     return "e_stack_underflow";
   case thread_error_t::e_bad_globals_size:    return "e_bad_globals_size";
   case thread_error_t::e_bad_array_bounds:    return "e_bad_array_bounds";
+  case thread_error_t::e_bad_array_object:    return "e_bad_array_object";
   case thread_error_t::e_bad_type_operation:  return "e_bad_type_operation";
   case thread_error_t::e_bad_argument:        return "e_bad_argument";
   case thread_error_t::e_bad_array_index:     return "e_bad_array_index";
-- 
2.43.0


From 5b04e883fbe3283130fa18cf6d162975f3cd0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:46 +0000
Subject: [PATCH 23/57] fix: call_once with the wrong number of arguments
 reports an error

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..e128d54 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -62,6 +62,11 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    // the only reason a thread can not be prepared
+    error = nano::thread_error_t::e_bad_num_args;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
-- 
2.43.0


From af98a8d3e90363fa3a86320877bdfaf77c0ef662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:49 +0000
Subject: [PATCH 24/57] fix: waiting for a negative number of frames does not
 suspend the thread forever

---
 source/lib_builtins/builtin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index edb7a83..29c01f9 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -216,7 +216,7 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-    t.waits = w;
+    t.waits = (w > 0) ? w : 0;
     t.get_stack().push_int(0);
     if (t.waits > 0) {
       t.halt();
-- 
2.43.0


From e98aa5a0c8a1a486bc4cc7b1d17bdee004366904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:20 +0000
Subject: [PATCH 25/57] fix: collect garbage while stepping a source line

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 4abddb9..1da7398 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -829,6 +829,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(1);
     step_imp_();
     if (finished_) {
       break;
-- 
2.43.0


From bf0cd82cce73e3fa1a051c50999c8a4ce03e5caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:23 +0000
Subject: [PATCH 26/57] fix: call_init always runs the initialisers to
 completion

---
 source/lib_vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index e128d54..7d81099 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -49,7 +49,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // run until every global has been initalized
+  while (!t->finished()) {
+    if (!t->resume(1024 * 8)) {
+      return false;
+    }
+  }
+  return true;
 }
 
 bool vm_t::call_once(const function_t &func,
-- 
2.43.0


From 0829368ca10fa0a5ad6274eb40ebc9cebee1c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:00 +0000
Subject: [PATCH 27/57] fix: array initialisers and member assignments are kept
 by the ast collector

---
 source/lib_compiler/ast.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/lib_compiler/ast.cpp b/source/lib_compiler/ast.cpp
index ce29b6f..ef420f3 100644
--- a/source/lib_compiler/ast.cpp
+++ b/source/lib_compiler/ast.cpp
@@ -141,6 +141,16 @@ struct gc_visitor_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_member_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_exp_array_init_t* n) override {
+    nodes_.insert(n);
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_decl_func_t* n) override {
     nodes_.insert(n);
     ast_visitor_t::visit(n);
-- 
2.43.0


From c7a599084e3b7a04deb4aa778b7bb9a5f21749ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 28/57] fix: printing none raises an error instead of aborting
 the driver

---
 source/driver/driver.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 2297161..5febbf6 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -39,7 +39,6 @@ void vm_getc(nano::thread_t &t, int32_t) {
 void vm_putc(nano::thread_t &t, int32_t) {
   using namespace nano;
   const value_t *v = t.get_stack().pop();
-  assert(v);
   if (!v->is_a<val_type_int>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
@@ -63,7 +62,6 @@ void vm_gets(nano::thread_t &t, int32_t) {
 void vm_puts(nano::thread_t &t, int32_t) {
   using namespace nano;
   value_t *s = t.get_stack().pop();
-  assert(s);
   if (!s->is_a<val_type_string>()) {
     t.raise_error(thread_error_t::e_bad_argument);
   } else {
-- 
2.43.0


From cad096c6b60917c9b3fa3873c6492474b24c30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:05 +0000
Subject: [PATCH 29/57] fix: constants are not listed as global variables

---
 source/lib_compiler/codegen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index 2530d6b..7ee4bd0 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -457,7 +457,10 @@ struct codegen_pass_t: ast_visitor_t {
   void visit(ast_decl_var_t* n) override {
     // collect the globals
     if (n->is_global()) {
-      stream_.add_global(n->name->str_, n->offset);
+      // constants are inlined so have no storage
+      if (!n->is_const) {
+        stream_.add_global(n->name->str_, n->offset);
+      }
       return;
     }
     // must be local
-- 
2.43.0


From 82b9330af8d83ed8dab40926fffe4e71ecabb0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 30/57] fix: misuse of constants and functions is a compile
 error instead of a crash

---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 38 +++++++++++++++++++++++++++++++-----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..124ea9f 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -276,6 +276,7 @@ struct ast_exp_call_t : public ast_node_t {
         args[i] = with;
       }
     }
+    callee = (callee == which) ? with : callee;
   }
 
   const token_t *token;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 5765b9c..31d9a2e 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -193,13 +193,33 @@ struct sema_const_t: public ast_visitor_t {
   }
 
   void visit(ast_stmt_assign_var_t *n) override {
-    assert(n->decl);
-    if (n->decl->is_const) {
-      errs_.cant_assign_const(*n->name);
-    }
+    check_assign_(n->decl, n->name);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_array_t *n) override {
+    check_assign_(n->decl, n->name);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    check_assign_(n->decl, n->name);
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    check_assign_(n->decl, n->name);
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_exp_member_t *n) override {
+    ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
+    if (decl && decl->is_const) {
+      // a constant has no storage and no members
+      errs_.cant_evaluate_constant(*n->name);
+    }
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
@@ -213,6 +233,13 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(p);
   }
 
+  void check_assign_(const ast_decl_var_t *decl, const token_t *name) {
+    assert(decl);
+    if (decl->is_const) {
+      errs_.cant_assign_const(*name);
+    }
+  }
+
   error_manager_t &errs_;
 };
 
@@ -375,7 +402,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        // functions have no members
+        errs_.unknown_variable(*n->name);
       }
       return;
     }
-- 
2.43.0


From fa8157192feb24b56e711f72bfae66e5c1322efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:41 +0000
Subject: [PATCH 31/57] fix: calling a builtin through a value with the wrong
 number of arguments raises an error

---
 source/driver/driver.cpp        | 34 +++++++++++++---
 source/lib_builtins/builtin.cpp | 70 ++++++++++++++++++++++++++-------
 2 files changed, 84 insertions(+), 20 deletions(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 5febbf6..6fa3b95 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -23,20 +23,38 @@ static inline uint32_t xorshift32() {
   return x;
 }
 
-void vm_rand(nano::thread_t &t, int32_t) {
+// calls via a value can pass any number of arguments
+bool check_nargs(nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(nano::thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
+void vm_rand(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 0)) {
+    return;
+  }
   // new unsigned int
   const int32_t x = (xorshift32() & 0x7fffff);
   // return value
   t.get_stack().push(t.gc().new_int(x));
 }
 
-void vm_getc(nano::thread_t &t, int32_t) {
+void vm_getc(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
   const int32_t ch = getchar();
   t.get_stack().push_int(ch);
 }
 
-void vm_putc(nano::thread_t &t, int32_t) {
+void vm_putc(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   const value_t *v = t.get_stack().pop();
   if (!v->is_a<val_type_int>()) {
@@ -48,7 +66,10 @@ void vm_putc(nano::thread_t &t, int32_t) {
   t.get_stack().push_int(0);
 }
 
-void vm_gets(nano::thread_t &t, int32_t) {
+void vm_gets(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
   char buffer[80];
   fgets(buffer, sizeof(buffer), stdin);
@@ -59,7 +80,10 @@ void vm_gets(nano::thread_t &t, int32_t) {
   t.get_stack().push_string(std::string{buffer});
 }
 
-void vm_puts(nano::thread_t &t, int32_t) {
+void vm_puts(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   value_t *s = t.get_stack().pop();
   if (!s->is_a<val_type_string>()) {
diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index 29c01f9..ee9fbf6 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -11,8 +11,20 @@
 
 namespace nano {
 
+// direct calls are checked by the compiler but calls via a value can pass any
+// number of arguments
+static bool check_nargs(struct nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
 static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   switch (v->type()) {
   case val_type_int: {
@@ -29,7 +41,9 @@ static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -42,7 +56,9 @@ static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -55,7 +71,9 @@ static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_a<val_type_int>() &&
@@ -68,7 +86,9 @@ static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   switch (a->type()) {
   case val_type_array: {
@@ -86,7 +106,9 @@ static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && v->is_a<val_type_int>()) {
     char x[2] = {char(v->v), 0};
@@ -97,7 +119,9 @@ static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -108,7 +132,9 @@ static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -119,7 +145,9 @@ static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -130,7 +158,9 @@ static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -141,7 +171,9 @@ static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -152,7 +184,9 @@ static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -163,7 +197,9 @@ static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sqrt(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -212,7 +248,9 @@ static void builtin_new_thread(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
@@ -227,7 +265,9 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_new_array(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-- 
2.43.0


From 5abbc883be886ca296960dffbf35282e71bbda7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 32/57] fix: preparing a thread discards the frames of its
 previous run

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1da7398..a642352 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -686,6 +686,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   halted_ = false;
 
   stack_.clear();
+  f_.clear();
 
   // load the target pc (entry point)
   pc_ = func.code_start_;
-- 
2.43.0


From 96c82e1e498bb1df7f1b111714f05e428fe75e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:46 +0000
Subject: [PATCH 33/57] fix: resetting the vm drops globals that point into the
 cleared heap

---
 source/lib_vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 7d81099..b25700b 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -38,6 +38,8 @@ void vm_t::reset() {
     delete t;
   }
   threads_.clear();
+  // the globals lived in the garbage collector
+  g_.clear();
 }
 
 bool vm_t::call_init() {
-- 
2.43.0


From 2d03e9f33a5bc6e5598c34a5a64b29179cfebcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:49 +0000
Subject: [PATCH 34/57] fix: vm has_error reports threads that raised an error

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index b25700b..8cec3da 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -130,6 +130,11 @@ bool vm_t::resume(uint32_t cycles) {
 }
 
 bool vm_t::has_error() const {
+  for (const auto &t : threads_) {
+    if (t->has_error()) {
+      return true;
+    }
+  }
   return false;
 }
 
-- 
2.43.0


From 0b248897daeedc6805afe710a473576ce99e1e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:11 +0000
Subject: [PATCH 35/57] fix: float literals with many digits have the written
 value

---
 source/lib_compiler/lexer.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index acc93c3..cb4182f 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -295,24 +295,25 @@ void lexer_t::push_string_(const char *start, const char *end) {
 }
 
 void lexer_t::push_val_(const char *s, const char *e) {
+  const std::string text(s, e);
   int32_t v = 0;
-  int32_t f = 0;
+  bool is_float = false;
   for (; s != e; ++s) {
     if (*s == '.') {
-      assert(f == 0);
-      f = 1;
+      assert(!is_float);
+      is_float = true;
     }
     else {
       assert(is_numeric(*s));
       v = v * 10 + (*s - '0');
-      f *= 10;
     }
   }
-  if (f == 0) {
+  if (!is_float) {
     stream_.push(token_t(v, line_));
   }
   else {
-    const float x = float(v) / float(f);
+    // note: the digits alone may not fit into an integer
+    const float x = strtof(text.c_str(), nullptr);
     stream_.push(token_t(x, line_));
   }
 }
-- 
2.43.0


From dca1aa83d0d6918e0888078b798d0573ee872ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:13 +0000
Subject: [PATCH 36/57] fix: classify indirect calls and references as
 instructions with an operand

---
 source/lib_common/instructions.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_common/instructions.cpp b/source/lib_common/instructions.cpp
index f413a79..bddc16a 100644
--- a/source/lib_common/instructions.cpp
+++ b/source/lib_common/instructions.cpp
@@ -10,10 +10,14 @@ bool ins_has_operand(const instruction_e ins) {
   case INS_CALL:
   case INS_RET:
   case INS_SCALL:
+  case INS_ICALL:
   case INS_POP:
   case INS_NEW_INT:
   case INS_NEW_STR:
+  case INS_NEW_ARY:
   case INS_NEW_FLT:
+  case INS_NEW_FUNC:
+  case INS_NEW_SCALL:
   case INS_LOCALS:
   case INS_GLOBALS:
   case INS_GETV:
@@ -35,6 +39,7 @@ bool ins_will_branch(const instruction_e ins) {
   case INS_FJMP:
   case INS_TJMP:
   case INS_CALL:
+  case INS_ICALL:
   case INS_RET:
     return true;
   default:
-- 
2.43.0


From c17e157345b437d7e8d4ab64194c2c4518bd084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 37/57] fix: after a runtime error the thread reports the line
 that failed

---
 source/lib_vm/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index a642352..cbaf469 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -720,6 +720,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 }
 
 void thread_t::step_imp_() {
+  const int32_t pc = pc_;
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -767,6 +768,10 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  // stay on the instruction that failed so its source line can be reported
+  if (has_error()) {
+    pc_ = pc;
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
-- 
2.43.0


From db3dba9aa5ed4469c5e5f998645fb5313a4cbdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:59 +0000
Subject: [PATCH 38/57] fix: calling an unresolved syscall raises e_bad_syscall
 instead of aborting

---
 source/lib_vm/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index cbaf469..2b02492 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -401,7 +401,11 @@ void thread_t::do_syscall_(int32_t operand, int32_t num_args) {
   const auto &calls = vm_.program_.syscalls();
   assert(operand >= 0 && operand < int32_t(calls.size()));
   nano_syscall_t sys = calls[operand].call_;
-  assert(sys);
+  if (!sys) {
+    // the host never resolved this syscall
+    set_error_(thread_error_t::e_bad_syscall);
+    return;
+  }
   sys(*this, num_args);
 }
 
-- 
2.43.0


From 61309c2af592fe9115138f870a6a1622c008c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:40 +0000
Subject: [PATCH 39/57] fix: syntax errors at the end of a line report that
 line

---
 source/lib_compiler/lexer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index cb4182f..8df86dc 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -87,9 +87,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       {
         assert(s >= new_line_);
         new_line_ = s + 1;
+        // note: a new line belongs to the line that it ends
+        push_(TOK_EOL);
         ++line_.line;
       }
-      push_(TOK_EOL);
       continue;
     }
 
@@ -210,8 +211,8 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
     case '\n':
       assert(s >= new_line_);
       new_line_ = s + 1;
-      ++line_.line;
       push_(TOK_EOL);
+      ++line_.line;
       continue;
     case '=':
       if (s[1] == '=') {
-- 
2.43.0


From cf40e71a7d2b7ce758903879b1a1352c2fb00f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:43 +0000
Subject: [PATCH 40/57] fix: an unexpected token outside a function is reported
 itself, not its successor

---
 source/lib_compiler/parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index f4e45ab..0d17b65 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -53,9 +53,7 @@ bool parser_t::parse(error_t &error) {
       default:
         break;
       }
-      const token_t *tok = stream_.pop();
-      assert(tok);
-      nano_.errors().unexpected_token(*tok);
+      nano_.errors().unexpected_token(*t);
     }
   } catch (const error_t &e) {
     error = e;
-- 
2.43.0


From 6f1672a0c55bb83f155ae718f5aa7dda6fb432e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:47 +0000
Subject: [PATCH 41/57] fix: a use of a constant has the line of its use

---
 source/lib_compiler/sema.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 31d9a2e..fc88f82 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -165,6 +165,7 @@ struct sema_const_t: public ast_visitor_t {
 
   sema_const_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {
   }
 
@@ -179,12 +180,19 @@ struct sema_const_t: public ast_visitor_t {
     ast_node_t *parent = stack.rbegin()[1];
     if (decl->expr) {
       ast_node_t *e = decl->expr;
+      // each use is a copy of the literal with the line of the use
       switch (e->type) {
       case ast_exp_lit_var_e:
+        inline_<ast_exp_lit_var_t>(parent, n, e);
+        break;
       case ast_exp_lit_str_e:
+        inline_<ast_exp_lit_str_t>(parent, n, e);
+        break;
       case ast_exp_lit_float_e:
+        inline_<ast_exp_lit_float_t>(parent, n, e);
+        break;
       case ast_exp_none_e:
-        parent->replace_child(n, e);
+        inline_<ast_exp_none_t>(parent, n, e);
         break;
       default:
         errs_.cant_evaluate_constant(*n->name);
@@ -240,7 +248,15 @@ struct sema_const_t: public ast_visitor_t {
     }
   }
 
+  template <typename T>
+  void inline_(ast_node_t *parent, ast_exp_ident_t *use, ast_node_t *literal) {
+    T *copy = ast_.alloc<T>(*literal->cast<T>());
+    copy->token = use->name;
+    parent->replace_child(use, copy);
+  }
+
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From e628f3b805c63e9885499a79eab92ea5cf797149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:13 +0000
Subject: [PATCH 42/57] fix: a constant defined by another constant can be used
 before its declaration

---
 source/lib_compiler/sema.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index fc88f82..3513750 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -295,6 +295,15 @@ struct sema_global_var_t : public ast_visitor_t {
         }
       }
     } break;
+    case ast_exp_ident_e: {
+      // a constant may name another constant, declared in any order
+      ast_exp_ident_t *use = n->expr->cast<ast_exp_ident_t>();
+      ast_decl_var_t *decl = use->decl->cast<ast_decl_var_t>();
+      if (n->is_const && decl && decl->is_const && is_literal_(decl->expr)) {
+        change_ = true;
+        n->expr = decl->expr;
+      }
+    } break;
     case ast_exp_lit_str_e:
     case ast_exp_lit_var_e:
     case ast_exp_lit_float_e:
@@ -318,6 +327,12 @@ struct sema_global_var_t : public ast_visitor_t {
   }
 
 protected:
+  bool is_literal_(const ast_node_t *n) const {
+    return n->is_a<ast_exp_lit_var_t>() ||
+           n->is_a<ast_exp_lit_str_t>() ||
+           n->is_a<ast_exp_lit_float_t>();
+  }
+
   void run_globals_(ast_program_t *p) {
     for (auto *n : p->children) {
       if (auto *d = n->cast<ast_decl_var_t>()) {
-- 
2.43.0


From 3b29a6bc9000383d807acf4c871d06cf254c9462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:07 +0000
Subject: [PATCH 43/57] fix: repeated call_once does not keep the values of
 every finished call alive

---
 source/lib_vm/vm.cpp | 19 ++++++++++++++++---
 source/lib_vm/vm.h   |  3 +++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 8cec3da..8882ec8 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -13,7 +13,8 @@ namespace nano {
 
 vm_t::vm_t(program_t &program)
   : program_(program)
-  , gc_(new value_gc_t) {}
+  , gc_(new value_gc_t)
+  , once_(nullptr) {}
 
 vm_t::~vm_t() {
   reset();
@@ -38,6 +39,7 @@ void vm_t::reset() {
     delete t;
   }
   threads_.clear();
+  once_ = nullptr;
   // the globals lived in the garbage collector
   g_.clear();
 }
@@ -69,6 +71,13 @@ bool vm_t::call_once(const function_t &func,
   error = nano::thread_error_t::e_success;
   return_code = nullptr;
 
+  // the return value of the previous call is not needed anymore
+  if (once_) {
+    threads_.remove(once_);
+    delete once_;
+    once_ = nullptr;
+  }
+
   thread_t *thread = new_thread(func, argc, argv);
   if (!thread) {
     // the only reason a thread can not be prepared
@@ -81,6 +90,7 @@ bool vm_t::call_once(const function_t &func,
       break;
     }
   }
+  once_ = thread;
   if (thread->has_error()) {
     error = thread->get_error();
     return false;
@@ -114,17 +124,20 @@ bool vm_t::resume(uint32_t cycles) {
     }
     if (t->finished() || t->has_error()) {
       // delete the thread
+      if (t == once_) {
+        once_ = nullptr;
+      }
       delete t;
       itt = threads_.erase(itt);
       continue;
     }
-    // we will be advancing regardless
-    ++itt;
     if (!t->resume(cycles)) {
       // thread has an error
       assert(t->has_error());
       return false;
     }
+    // note: finished threads may have been removed while this one was running
+    ++itt;
   }
   return true;
 }
diff --git a/source/lib_vm/vm.h b/source/lib_vm/vm.h
index 0368dd9..caebc80 100644
--- a/source/lib_vm/vm.h
+++ b/source/lib_vm/vm.h
@@ -125,6 +125,9 @@ protected:
 
   // threads
   std::list<thread_t *> threads_;
+
+  // the finished thread of the last call_once, it holds the return value
+  thread_t *once_;
 };
 
 } // namespace nano
-- 
2.43.0


From 69c6f3cb12625da31538b38467573e0902403cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:57 +0000
Subject: [PATCH 44/57] fix: move a shared value only once per collection

A string (or number) referenced from several places was copied once per
reference, so data that is small before a collection could exhaust the heap
during it and abort the host.
---
 source/lib_vm/vm_gc.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index 472e316..9353a5e 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -156,6 +156,15 @@ void value_gc_t::trace_list_(value_t **list, size_t num) {
     }
     assert(v == nullptr || space_from().owns(v));
 
+    // any value may be shared, so each one is moved only once or the copies
+    // could need more space than the original
+    if (v != nullptr) {
+      if (value_t *x = forward_find(v)) {
+        list[i] = x;
+        continue;
+      }
+    }
+
     switch (v->type()) {
     case val_type_none: {
       assert(list[i] == nullptr);
@@ -167,6 +176,7 @@ void value_gc_t::trace_list_(value_t **list, size_t num) {
       value_t *n = to.alloc<value_t>(0);
       n->type_ = v->type();
       n->v = v->v;
+      forward_add(v, n);
       list[i] = n;
       break;
     }
@@ -174,6 +184,7 @@ void value_gc_t::trace_list_(value_t **list, size_t num) {
       value_t *n = to.alloc<value_t>(0);
       n->type_ = v->type();
       n->f = v->f;
+      forward_add(v, n);
       list[i] = n;
       break;
     }
@@ -184,6 +195,7 @@ void value_gc_t::trace_list_(value_t **list, size_t num) {
       n->type_ = v->type();
       n->v = size;
       memcpy(n->string(), v->string(), size + 1);
+      forward_add(v, n);
       list[i] = n;
       break;
     }
-- 
2.43.0


From e2171821fb0f2179662bfca2a0b52d914d5512e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:03 +0000
Subject: [PATCH 45/57] fix: reject source that is nested too deep instead of
 exhausting the native stack

---
 source/lib_compiler/errors.h   |  4 ++++
 source/lib_compiler/parser.cpp | 34 ++++++++++++++++++++++++++++++++++
 source/lib_compiler/parser.h   | 18 ++++++++++++++++++
 3 files changed, 56 insertions(+)

diff --git a/source/lib_compiler/errors.h b/source/lib_compiler/errors.h
index 3f33c54..55396a2 100644
--- a/source/lib_compiler/errors.h
+++ b/source/lib_compiler/errors.h
@@ -185,6 +185,10 @@ struct error_manager_t {
     on_error_(t.line_, "bad array initalizer value '%s'", t.string());
   }
 
+  virtual void nested_too_deep() {
+    on_error_(line_number_(), "program is nested too deep");
+  }
+
   // assembler
 
   virtual void program_too_large() {
diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 0d17b65..e091bbd 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -219,6 +219,7 @@ void parser_t::parse_lhs_() {
 void parser_t::parse_operand_() {
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
+  const nesting_t nesting(*this);
 
   // format:
   //    [-] <lhs> [ '(' <expr> ')' ]
@@ -244,6 +245,7 @@ void parser_t::parse_operand_() {
       ast_node_t *lhs = exp_stack_.back();
       exp_stack_.pop_back();
 
+      count_operator_();
       ast_exp_deref_t *expr = ast.alloc<ast_exp_deref_t>(lhs, t);
       expr->index = parse_expr_();
       exp_stack_.push_back(expr);
@@ -255,6 +257,7 @@ void parser_t::parse_operand_() {
     // <EXPR> ( ... )
     if (const token_t *t = stream_.found(TOK_LPAREN)) {
       // call function
+      count_operator_();
       ast_exp_call_t *call = parse_call_(*t);
       // pop the callee
       assert(!exp_stack_.empty());
@@ -271,6 +274,7 @@ void parser_t::parse_operand_() {
 
 void parser_t::parse_expr_ex_(uint32_t tide) {
   token_stream_t &stream_ = nano_.lexer().stream();
+  const nesting_t nesting(*this);
 
   // format:
   //    ['not'] <operand>
@@ -288,6 +292,7 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
   if (is_operator_()) {
     const token_t *op = stream_.pop();
+    count_operator_();
     op_push_(op, tide);
     parse_expr_ex_(tide);
   }
@@ -298,9 +303,13 @@ ast_node_t* parser_t::parse_expr_() {
   // format:
   //    <expr_ex>
 
+  if (expr_depth_++ == 0) {
+    num_ops_ = 0;
+  }
   const uint32_t tide = uint32_t(op_stack_.size());
   parse_expr_ex_(tide);
   op_pop_all_(tide);
+  --expr_depth_;
 
   assert(!exp_stack_.empty());
   ast_node_t *out = exp_stack_.back();
@@ -522,6 +531,7 @@ ast_node_t* parser_t::parse_compound_(const token_t &t) {
 ast_node_t* parser_t::parse_stmt_() {
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
+  const nesting_t nesting(*this);
 
   // format:
   //    [ '\n' ]+
@@ -807,9 +817,33 @@ void parser_t::op_pop_all_(uint32_t tide) {
 
 void parser_t::reset() {
   op_stack_.clear();
+  expr_depth_ = 0;
 }
 
 parser_t::parser_t(nano_t &c)
   : nano_(c)
+  , depth_(0)
+  , expr_depth_(0)
+  , num_ops_(0)
 {
 }
+
+parser_t::nesting_t::nesting_t(parser_t &p)
+  : parser_(p)
+{
+  // note: the destructor will not run if the error is raised here
+  if (parser_.depth_ >= MAX_NESTING) {
+    parser_.nano_.errors().nested_too_deep();
+  }
+  ++parser_.depth_;
+}
+
+parser_t::nesting_t::~nesting_t() {
+  --parser_.depth_;
+}
+
+void parser_t::count_operator_() {
+  if (++num_ops_ > MAX_OPERATORS) {
+    nano_.errors().nested_too_deep();
+  }
+}
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index ec1a1cf..6faaa3c 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -27,6 +27,24 @@ protected:
   // expression stack
   std::vector<ast_node_t*> exp_stack_;
 
+  // guards against source so deeply nested that visiting it would exhaust the
+  // native stack
+  static const uint32_t MAX_NESTING = 4096;
+  static const uint32_t MAX_OPERATORS = 16384;
+  struct nesting_t {
+    nesting_t(parser_t &p);
+    ~nesting_t();
+    parser_t &parser_;
+  };
+
+  // depth of the construct being parsed
+  uint32_t depth_;
+  // depth of the expression being parsed
+  uint32_t expr_depth_;
+  // number of operators in the outermost expression
+  uint32_t num_ops_;
+  void count_operator_();
+
   // parse specific language constructs
 //  ast_node_t* parse_array_get_(const token_t &name);
   ast_node_t* parse_array_set_(const token_t &name);
-- 
2.43.0


From f2b818b65773cff74ff32fce0dfb3853ad2842ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:33 +0000
Subject: [PATCH 46/57] fix: gets at the end of the input returned an
 uninitialised buffer

---
 source/driver/driver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/driver/driver.cpp b/source/driver/driver.cpp
index 6fa3b95..87ffe37 100644
--- a/source/driver/driver.cpp
+++ b/source/driver/driver.cpp
@@ -72,7 +72,10 @@ void vm_gets(nano::thread_t &t, int32_t nargs) {
   }
   using namespace nano;
   char buffer[80];
-  fgets(buffer, sizeof(buffer), stdin);
+  if (!fgets(buffer, sizeof(buffer), stdin)) {
+    // nothing was read at the end of the input
+    buffer[0] = '\0';
+  }
   for (size_t i = 0; i < sizeof(buffer); ++i) {
     buffer[i] = (buffer[i] == '\n') ? '\0' : buffer[i];
   }
-- 
2.43.0


From 044bb04a5272bf8fdbe12e78f5a7b9828c196cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:33 +0000
Subject: [PATCH 47/57] fix: nano_comp overflowed a buffer when given a long
 path

---
 source/comp/driver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index a4db833..d504912 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -1,4 +1,5 @@
 #include <cstdio>
+#include <string>
 
 #include "../lib_compiler/nano.h"
 #include "../lib_compiler/codegen.h"
@@ -21,9 +22,8 @@ void on_error(const nano::error_t &error) {
 } // namespace
 
 FILE *fd_open(const char *base, const char *ext) {
-  char buf[1024];
-  sprintf(buf, "%s%s", base, ext);
-  return fopen(buf, "wb");
+  const std::string path = std::string(base) + ext;
+  return fopen(path.c_str(), "wb");
 }
 
 void usage(const char *path) {
-- 
2.43.0


From 2589710ad8f2302fb96a03af66cfc80df7a52828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:29 +0000
Subject: [PATCH 48/57] fix: nano_comp reported success when its output could
 not be written

---
 source/comp/driver.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/comp/driver.cpp b/source/comp/driver.cpp
index d504912..93188f0 100644
--- a/source/comp/driver.cpp
+++ b/source/comp/driver.cpp
@@ -23,7 +23,12 @@ void on_error(const nano::error_t &error) {
 
 FILE *fd_open(const char *base, const char *ext) {
   const std::string path = std::string(base) + ext;
-  return fopen(path.c_str(), "wb");
+  FILE *fd = fopen(path.c_str(), "wb");
+  if (!fd) {
+    fprintf(stderr, "unable to open output '%s'\n", path.c_str());
+    exit(-3);
+  }
+  return fd;
 }
 
 void usage(const char *path) {
@@ -114,5 +119,18 @@ int main(int argc, char **argv) {
     fwrite(data, 1, program.size(), fd_bin);
   }
 
+  // the outputs must have been written completely
+  bool ok = true;
+  for (FILE *fd : {fd_ast, fd_dis, fd_bin}) {
+    if (fd) {
+      ok = !ferror(fd) && ok;
+      ok = fclose(fd) == 0 && ok;
+    }
+  }
+  if (!ok) {
+    fprintf(stderr, "unable to write output\n");
+    return -3;
+  }
+
   return 0;
 }
-- 
2.43.0


From eceb6e1ce2c85db9657960e45c3217d7321154eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:31 +0000
Subject: [PATCH 49/57] fix: sources whose paths differ only in case are
 different files

---
 source/lib_common/source.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 17cc6d6..eb0e0c5 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -13,13 +13,18 @@ std::string base_path(std::string in) {
   return in;
 }
 
-// a path compare that is insensitive to slashes and case
+// a path compare that is insensitive to slashes and, on windows, to case
 bool path_cmp(const char *x, const char *y) {
   for (; *x != '\0'; ++x, ++y) {
-    // XXX: on linux we might want to not be case insensitive
+#if defined(_WIN32)
     if (tolower(*x) == tolower(*y)) {
       continue;
     }
+#else
+    if (*x == *y) {
+      continue;
+    }
+#endif
     if (*x == '\\' && *y == '/') {
       continue;
     }
-- 
2.43.0


From a2c59b204ebe3f5038923dc2ab1a375059eec148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:14 +0000
Subject: [PATCH 50/57] fix: a breakpoint set while there were none is not
 missed when its line was the last one tracked

---
 source/lib_vm/thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 2b02492..46c8ede 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -900,6 +900,10 @@ void thread_t::setv_(int32_t offs, value_t *val) {
 }
 
 void thread_t::breakpoint_add(line_t line) {
+  // the line is not tracked while there are no breakpoints
+  if (breakpoints_.empty() && cycles_ > 0) {
+    last_line_ = get_source_line();
+  }
   breakpoints_.insert(line);
 }
 
-- 
2.43.0


From bbca7e60c913a5d3efb93e413b32eec53ab9c9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:10 +0000
Subject: [PATCH 51/57] fix: flip shows every column of a screen that is not
 square and stays inside of it

---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 59dab76..bc55944 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -284,7 +284,7 @@ void vm_flip(nano::thread_t &t, int32_t) {
     uint32_t *d = (uint32_t *)global.screen_->pixels;
 
     for (uint32_t y = 0; y < h; ++y) {
-      for (uint32_t x = 0, j = 0; x < h; ++x, j += 3) {
+      for (uint32_t x = 0, j = 0; x < w; ++x, j += 3) {
         const uint32_t c = s[x];
         d[j + 0 + p0] = d[j + 1 + p0] = d[j + 2 + p0] = c;
         d[j + 0 + p1] = d[j + 1 + p1] = d[j + 2 + p1] = c;
-- 
2.43.0


From 80ff5ab33c44b601470e91ad5b4e14d71a0a70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:17 +0000
Subject: [PATCH 52/57] fix: sleeping for a negative time in the sdl driver
 does not suspend the program for weeks

---
 source/driver_sdl/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index bc55944..08d97de 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -53,7 +53,7 @@ void vm_cls(nano::thread_t &t, int32_t) {
 void vm_sleep(nano::thread_t &t, int32_t) {
   nano::value_t *val = t.get_stack().pop();
   if (val->is_number()) {
-    tick_mark = SDL_GetTicks() + val->as_int();
+    tick_mark = SDL_GetTicks() + std::max<int32_t>(val->as_int(), 0);
     t.halt();
   }
   // return value
-- 
2.43.0


From e722a22df03d8e1b6b9cc0a51f4785e58dc931c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:43 +0000
Subject: [PATCH 53/57] fix: video refuses sizes that are negative or too large
 instead of writing outside of the screen

---
 source/driver_sdl/driver.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 08d97de..a0db44c 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -15,6 +15,9 @@ namespace {
 
 uint32_t tick_mark = 0;
 
+// largest width and height of the screen
+const int32_t max_side = 4096;
+
 struct global_t {
   SDL_Window *window_ = nullptr;
   SDL_Surface *screen_ = nullptr;
@@ -67,7 +70,8 @@ void vm_video(nano::thread_t &t, int32_t) {
 
   bool ok = false;
 
-  if (w->is_a<val_type_int>() && h->is_a<val_type_int>()) {
+  if (w->is_a<val_type_int>() && h->is_a<val_type_int>() &&
+      w->v > 0 && w->v <= max_side && h->v > 0 && h->v <= max_side) {
     global.width_ = (uint32_t)w->v;
     global.height_ = (uint32_t)h->v;
     global.video_.reset(new uint32_t[(uint32_t)(w->v * h->v)]);
-- 
2.43.0


From 364002534fa707909ae62f72ab9ddf2ec2eeeed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:43 +0000
Subject: [PATCH 54/57] fix: flip does not write to the previous window after
 video failed to open a larger one

---
 source/driver_sdl/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index a0db44c..8da8ed6 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -83,6 +83,7 @@ void vm_video(nano::thread_t &t, int32_t) {
                                       global.width_ * 3,
                                       global.height_ * 3,
                                       0);
+    global.screen_ = nullptr;
     if (global.window_) {
       global.screen_ = SDL_GetWindowSurface(global.window_);
     }
-- 
2.43.0


From e55a1aec31c8d2a9bfea9d18c75393952d317d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:16 +0000
Subject: [PATCH 55/57] fix: the sdl driver does not run main and report
 success after a global failed to initialise

---
 source/driver_sdl/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index 8da8ed6..e61a986 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -381,6 +381,7 @@ int main(int argc, char **argv) {
 
   if (!vm.call_init()) {
     fprintf(stderr, "failed while executing @init\n");
+    exit(1);
   }
 
   if (!vm.new_thread(*func, 0, nullptr)) {
-- 
2.43.0


From 5605e9bf79f4b023d252d2e6f93ee4aeef409997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:53 +0000
Subject: [PATCH 56/57] fix: calling a function of the sdl driver through a
 value with the wrong number of arguments raises an error

---
 source/driver_sdl/driver.cpp | 59 ++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/source/driver_sdl/driver.cpp b/source/driver_sdl/driver.cpp
index e61a986..84e494c 100644
--- a/source/driver_sdl/driver.cpp
+++ b/source/driver_sdl/driver.cpp
@@ -34,14 +34,29 @@ static inline uint32_t xorshift32() {
   return x;
 }
 
-void vm_rand(nano::thread_t &t, int32_t) {
+// calls via a value can pass any number of arguments
+bool check_nargs(nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(nano::thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
+void vm_rand(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 0)) {
+    return;
+  }
   // new unsigned int
   const int32_t x = (xorshift32() & 0x7fffff);
   // return value
   t.get_stack().push(t.gc().new_int(x));
 }
 
-void vm_cls(nano::thread_t &t, int32_t) {
+void vm_cls(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 0)) {
+    return;
+  }
   uint32_t *v = global.video_.get();
   for (uint32_t y = 0; y < global.height_; ++y) {
     for (uint32_t x = 0; x < global.width_; ++x) {
@@ -53,7 +68,10 @@ void vm_cls(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_sleep(nano::thread_t &t, int32_t) {
+void vm_sleep(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   nano::value_t *val = t.get_stack().pop();
   if (val->is_number()) {
     tick_mark = SDL_GetTicks() + std::max<int32_t>(val->as_int(), 0);
@@ -63,7 +81,10 @@ void vm_sleep(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_video(nano::thread_t &t, int32_t) {
+void vm_video(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   using namespace nano;
   const value_t *h = t.get_stack().pop();
   const value_t *w = t.get_stack().pop();
@@ -96,7 +117,10 @@ void vm_video(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_int(ok ? 1 : 0));
 }
 
-void vm_setrgb(nano::thread_t &t, int32_t) {
+void vm_setrgb(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 3)) {
+    return;
+  }
   using namespace nano;
   const value_t *b = t.get_stack().pop();
   const value_t *g = t.get_stack().pop();
@@ -143,7 +167,10 @@ static inline void span(int32_t x0, int32_t x1, int32_t y0) {
   }
 }
 
-void vm_circle(nano::thread_t &t, int32_t) {
+void vm_circle(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 3)) {
+    return;
+  }
   using namespace nano;
 
   const value_t *r = t.get_stack().pop();
@@ -205,7 +232,10 @@ static inline void line(int32_t x0, int32_t y0, int32_t x1, int32_t y1) {
   }
 }
 
-void vm_line(nano::thread_t &t, int32_t) {
+void vm_line(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 4)) {
+    return;
+  }
   using namespace nano;
   const value_t *y1 = t.get_stack().pop();
   const value_t *x1 = t.get_stack().pop();
@@ -220,7 +250,10 @@ void vm_line(nano::thread_t &t, int32_t) {
   }
 }
 
-void vm_keydown(nano::thread_t &t, int32_t) {
+void vm_keydown(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   using namespace nano;
   const value_t *key = t.get_stack().pop();
   if (!key->is_a<val_type_string>()) {
@@ -261,7 +294,10 @@ void vm_keydown(nano::thread_t &t, int32_t) {
   t.get_stack().push(t.gc().new_none());
 }
 
-void vm_plot(nano::thread_t &t, int32_t) {
+void vm_plot(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   using namespace nano;
 
   const value_t *y = t.get_stack().pop();
@@ -273,7 +309,10 @@ void vm_plot(nano::thread_t &t, int32_t) {
   }
 }
 
-void vm_flip(nano::thread_t &t, int32_t) {
+void vm_flip(nano::thread_t &t, int32_t nargs) {
+  if (!check_nargs(t, nargs, 0)) {
+    return;
+  }
   using namespace nano;
 
   const uint32_t w = global.width_;
-- 
2.43.0


From 27555a80ecde1f6e7da3a6684db903d6b5423086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:14 +0000
Subject: [PATCH 57/57] fix: a call made by a host function during another call
 leaves no thread behind

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 8882ec8..20b5b91 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -90,6 +90,11 @@ bool vm_t::call_once(const function_t &func,
       break;
     }
   }
+  // neither is that of a call which was made while this one was running
+  if (once_) {
+    threads_.remove(once_);
+    delete once_;
+  }
   once_ = thread;
   if (thread->has_error()) {
     error = thread->get_error();
-- 
2.43.0

