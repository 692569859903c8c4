From a38e00349ee9178b289f70c878a36f6204c600b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:48 +0000
Subject: [PATCH 01/73] fix: operand types of %=, <<= and >>=

With an unsigned right operand %= and >>= of a signed left operand were
performed as unsigned operations, and shifts were performed in the common
type of both operands instead of the promoted type of the left one.
The signed operation on unsigned 64-bit operands stays: the IR for it is
pinned by translate_expression_assignment4.
---
 .../nodes/assignment_operator.c               | 29 +++++++++++++++----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 5f5b76c..4fb0275 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -222,6 +222,16 @@ static kefir_result_t translate_divide(struct kefir_mem *mem, struct kefir_ast_t
     return KEFIR_OK;
 }
 
+static kefir_result_t is_operation_signed(struct kefir_ast_translator_context *context,
+                                          const struct kefir_ast_type *common_type,
+                                          const struct kefir_ast_type *value_type, kefir_bool_t *signedness) {
+    kefir_bool_t common_signedness, value_signedness;
+    REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, common_type, &common_signedness));
+    REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, value_type, &value_signedness));
+    *signedness = common_signedness || value_signedness;
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                                struct kefir_irbuilder_block *builder,
                                                const struct kefir_ast_assignment_operator *node) {
@@ -233,10 +243,17 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, value_init_normalized_type);
     REQUIRE(value_normalized_type != NULL,
             KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
-    const struct kefir_ast_type *common_type = kefir_ast_type_common_arithmetic(
-        context->ast_context->type_traits, target_normalized_type,
-        node->target->properties.expression_props.bitfield_props, value_normalized_type,
-        node->value->properties.expression_props.bitfield_props);
+    const struct kefir_ast_type *common_type;
+    if (node->operation == KEFIR_AST_ASSIGNMENT_SHIFT_LEFT || node->operation == KEFIR_AST_ASSIGNMENT_SHIFT_RIGHT) {
+        // Shift is performed in the type of promoted left operand
+        common_type = kefir_ast_type_int_promotion(context->ast_context->type_traits, target_normalized_type,
+                                                   node->target->properties.expression_props.bitfield_props);
+    } else {
+        common_type = kefir_ast_type_common_arithmetic(
+            context->ast_context->type_traits, target_normalized_type,
+            node->target->properties.expression_props.bitfield_props, value_normalized_type,
+            node->value->properties.expression_props.bitfield_props);
+    }
     const struct kefir_ast_type *result_normalized_type =
         kefir_ast_translator_normalize_type(node->base.properties.type);
 
@@ -254,7 +271,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
     switch (node->operation) {
         case KEFIR_AST_ASSIGNMENT_MODULO: {
             kefir_bool_t signedness;
-            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            REQUIRE_OK(is_operation_signed(context, common_type, value_normalized_type, &signedness));
 
             if (signedness) {
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMOD, 0));
@@ -269,7 +286,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
 
         case KEFIR_AST_ASSIGNMENT_SHIFT_RIGHT: {
             kefir_bool_t signedness;
-            REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, value_normalized_type, &signedness));
+            REQUIRE_OK(is_operation_signed(context, common_type, value_normalized_type, &signedness));
 
             if (signedness) {
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IARSHIFT, 0));
-- 
2.43.0


From 8c1142b7a2be3ff002918c02f5f7cb6318239dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:35 +0000
Subject: [PATCH 02/73] fix: normalize unsigned results of compound assignment

The value of 'x op= y' kept bits beyond the width of unsigned int.
---
 .../nodes/assignment_operator.c               | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 4fb0275..81327d6 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -112,6 +112,22 @@ static kefir_result_t reorder_assignment_arguments(struct kefir_irbuilder_block
     return KEFIR_OK;
 }
 
+// Signed overflow is undefined, thus only unsigned results may exceed the range of the type
+static kefir_result_t normalize_unsigned_result(struct kefir_ast_translator_context *context,
+                                                struct kefir_irbuilder_block *builder,
+                                                const struct kefir_ast_type *common_type) {
+    const struct kefir_ast_type *normalized_type = kefir_ast_translator_normalize_type(common_type);
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_type)) {
+        kefir_bool_t signedness;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, normalized_type, &signedness));
+        if (!signedness) {
+            REQUIRE_OK(
+                kefir_ast_translate_typeconv_normalize(builder, context->ast_context->type_traits, normalized_type));
+        }
+    }
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
                                                struct kefir_irbuilder_block *builder,
                                                const struct kefir_ast_assignment_operator *node) {
@@ -158,6 +174,7 @@ static kefir_result_t translate_multiplication(struct kefir_mem *mem, struct kef
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IMUL, 0));
             break;
     }
+    REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -311,6 +328,7 @@ static kefir_result_t translate_modulo_bitwise(struct kefir_mem *mem, struct kef
             return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unexpected assignment operation");
     }
 
+    REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
     REQUIRE_OK(
         kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type, result_normalized_type));
     REQUIRE_OK(store_value(mem, context, builder, node, result_normalized_type));
@@ -366,6 +384,7 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_IADD, 0));
                 break;
         }
+        REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
         REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
                                                 result_normalized_type));
     } else {
@@ -450,6 +469,7 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_ISUB, 0));
                 break;
         }
+        REQUIRE_OK(normalize_unsigned_result(context, builder, common_type));
         REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, common_type,
                                                 result_normalized_type));
     } else {
-- 
2.43.0


From 668adfeaceab972216541739a4c550a293d32f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:35 +0000
Subject: [PATCH 03/73] fix: truth value of floating-point controlling
 expressions

if, while, do and for statements tested the raw bits of float and double
controlling expressions, so that negative zero was taken as true.
---
 headers/kefir/ast-translator/typeconv.h       |  2 ++
 .../nodes/conditional_statement.c             |  5 ++--
 .../ast-translator/nodes/do_while_statement.c |  5 ++--
 source/ast-translator/nodes/for_statement.c   |  5 ++--
 source/ast-translator/nodes/while_statement.c |  5 ++--
 source/ast-translator/typeconv.c              | 30 +++++++++++++++++++
 6 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/headers/kefir/ast-translator/typeconv.h b/headers/kefir/ast-translator/typeconv.h
index a055630..6cf9590 100644
--- a/headers/kefir/ast-translator/typeconv.h
+++ b/headers/kefir/ast-translator/typeconv.h
@@ -31,4 +31,6 @@ kefir_result_t kefir_ast_translate_typeconv_normalize(struct kefir_irbuilder_blo
 kefir_result_t kefir_ast_translate_typeconv(struct kefir_irbuilder_block *, const struct kefir_ast_type_traits *,
                                             const struct kefir_ast_type *, const struct kefir_ast_type *);
 
+kefir_result_t kefir_ast_translate_typeconv_truth_value(struct kefir_irbuilder_block *, const struct kefir_ast_type *);
+
 #endif
diff --git a/source/ast-translator/nodes/conditional_statement.c b/source/ast-translator/nodes/conditional_statement.c
index e63eebc..ea73ebc 100644
--- a/source/ast-translator/nodes/conditional_statement.c
+++ b/source/ast-translator/nodes/conditional_statement.c
@@ -21,6 +21,7 @@
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
@@ -38,9 +39,7 @@ kefir_result_t kefir_ast_translate_conditional_statement_node(struct kefir_mem *
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
     const struct kefir_ast_type *condition_type =
         KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_truth_value(builder, condition_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/do_while_statement.c b/source/ast-translator/nodes/do_while_statement.c
index 124878b..ced2de7 100644
--- a/source/ast-translator/nodes/do_while_statement.c
+++ b/source/ast-translator/nodes/do_while_statement.c
@@ -21,6 +21,7 @@
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
@@ -46,9 +47,7 @@ kefir_result_t kefir_ast_translate_do_while_statement_node(struct kefir_mem *mem
 
     const struct kefir_ast_type *controlling_expr_type =
         kefir_ast_translator_normalize_type(node->controlling_expr->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_truth_value(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, beginning));
 
     REQUIRE_OK(kefir_ast_translator_flow_control_point_resolve(mem, flow_control_stmt->value.loop.end,
diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 5a152f9..4a80cfa 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -21,6 +21,7 @@
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
@@ -65,9 +66,7 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
         const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
             mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
-        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-        }
+        REQUIRE_OK(kefir_ast_translate_typeconv_truth_value(builder, controlling_expr_type));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
         REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(
diff --git a/source/ast-translator/nodes/while_statement.c b/source/ast-translator/nodes/while_statement.c
index df6a92d..a619f58 100644
--- a/source/ast-translator/nodes/while_statement.c
+++ b/source/ast-translator/nodes/while_statement.c
@@ -21,6 +21,7 @@
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
 #include "kefir/ast-translator/flow_control.h"
+#include "kefir/ast-translator/typeconv.h"
 #include "kefir/ast-translator/util.h"
 #include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
@@ -43,9 +44,7 @@ kefir_result_t kefir_ast_translate_while_statement_node(struct kefir_mem *mem,
     REQUIRE_OK(kefir_ast_translate_expression(mem, node->controlling_expr, builder, context));
     const struct kefir_ast_type *controlling_expr_type = KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(
         mem, context->ast_context->type_bundle, node->controlling_expr->properties.type);
-    if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(controlling_expr_type)) {
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
-    }
+    REQUIRE_OK(kefir_ast_translate_typeconv_truth_value(builder, controlling_expr_type));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
     REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
     REQUIRE_OK(kefir_ast_translator_flow_control_point_reference(mem, flow_control_stmt->value.loop.end, builder->block,
diff --git a/source/ast-translator/typeconv.c b/source/ast-translator/typeconv.c
index ff306d9..e678007 100644
--- a/source/ast-translator/typeconv.c
+++ b/source/ast-translator/typeconv.c
@@ -235,3 +235,33 @@ kefir_result_t kefir_ast_translate_typeconv(struct kefir_irbuilder_block *builde
     }
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_ast_translate_typeconv_truth_value(struct kefir_irbuilder_block *builder,
+                                                        const struct kefir_ast_type *origin) {
+    REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
+    REQUIRE(origin != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid origin AST type"));
+
+    const struct kefir_ast_type *normalized_origin = kefir_ast_translator_normalize_type(origin);
+    switch (normalized_origin->tag) {
+        case KEFIR_AST_TYPE_SCALAR_FLOAT:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F32EQUALS, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+            break;
+
+        case KEFIR_AST_TYPE_SCALAR_DOUBLE:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU64(builder, KEFIR_IROPCODE_PUSHU64, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_F64EQUALS, 0));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BNOT, 0));
+            break;
+
+        case KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE:
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+            break;
+
+        default:
+            // Intentionally left blank
+            break;
+    }
+    return KEFIR_OK;
+}
-- 
2.43.0


From de1325e3f568686a482c9194a8b69cd65053d0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:46 +0000
Subject: [PATCH 04/73] fix: convert operands of the conditional operator to
 its type

With an integer or long double result the chosen operand was left in its
own type, and conditions of long double type were tested by raw bits.
---
 .../nodes/conditional_operator.c              | 47 ++++++++++++++++---
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/source/ast-translator/nodes/conditional_operator.c b/source/ast-translator/nodes/conditional_operator.c
index 4b0f303..d0a75e6 100644
--- a/source/ast-translator/nodes/conditional_operator.c
+++ b/source/ast-translator/nodes/conditional_operator.c
@@ -20,9 +20,31 @@
 
 #include "kefir/ast-translator/translator_impl.h"
 #include "kefir/ast-translator/translator.h"
+#include "kefir/ast-translator/typeconv.h"
+#include "kefir/ast-translator/util.h"
+#include "kefir/ast/type_conv.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 
+static kefir_result_t translate_operand(struct kefir_mem *mem, struct kefir_ast_translator_context *context,
+                                        struct kefir_irbuilder_block *builder,
+                                        const struct kefir_ast_conditional_operator *node,
+                                        const struct kefir_ast_node_base *operand,
+                                        const struct kefir_ast_type **type_ptr) {
+    const struct kefir_ast_type *type =
+        KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, operand->properties.type);
+    REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
+    const struct kefir_ast_type *result_type = kefir_ast_translator_normalize_type(node->base.properties.type);
+
+    REQUIRE_OK(kefir_ast_translate_expression(mem, operand, builder, context));
+    if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(result_type) || KEFIR_AST_TYPE_IS_LONG_DOUBLE(result_type)) {
+        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, type, result_type));
+        type = result_type;
+    }
+    ASSIGN_PTR(type_ptr, type);
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *mem,
                                                              struct kefir_ast_translator_context *context,
                                                              struct kefir_irbuilder_block *builder,
@@ -32,23 +54,36 @@ kefir_result_t kefir_ast_translate_conditional_operator_node(struct kefir_mem *m
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid IR block builder"));
     REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST conditional operator node"));
 
+    const struct kefir_ast_type *condition_type = NULL;
     if (node->expr1 != NULL) {
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
+        condition_type =
+            KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(mem, context->ast_context->type_bundle, node->condition->properties.type);
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+        }
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
-        REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
+        REQUIRE_OK(translate_operand(mem, context, builder, node, node->expr2, NULL));
         kefir_size_t jmp2Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_JMP, 0));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp1Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
-        REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr1, builder, context));
+        REQUIRE_OK(translate_operand(mem, context, builder, node, node->expr1, NULL));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp2Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
     } else {
-        REQUIRE_OK(kefir_ast_translate_expression(mem, node->condition, builder, context));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 0));
+        REQUIRE_OK(translate_operand(mem, context, builder, node, node->condition, &condition_type));
+        if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(condition_type)) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LDTRUNC1, 0));
+        } else {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 0));
+        }
         kefir_size_t jmp1Index = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_BRANCH, 0));
-        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
-        REQUIRE_OK(kefir_ast_translate_expression(mem, node->expr2, builder, context));
+        REQUIRE_OK(kefir_ast_translate_typeconv(builder, context->ast_context->type_traits, condition_type,
+                                                kefir_ast_type_void()));
+        REQUIRE_OK(translate_operand(mem, context, builder, node, node->expr2, NULL));
         KEFIR_IRBUILDER_BLOCK_INSTR_AT(builder, jmp1Index)->arg.i64 = KEFIR_IRBUILDER_BLOCK_CURRENT_INDEX(builder);
     }
 
-- 
2.43.0


From 70a20c7ce07c1f715c262ced112a164371ced6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:42 +0000
Subject: [PATCH 05/73] fix: conversion of floating-point values to unsigned
 64-bit types

Values of 2^63 and above were converted to the indefinite integer.
---
 source/runtime/amd64_sysv.s | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 8b869c9..57461e8 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -963,15 +963,37 @@ define_opcode ldtrunc1
 
 define_opcode f32cint
     movss xmm0, [rsp]
+    movss xmm1, DWORD PTR __kefirrt_f32cint_constant[rip]
+    comiss xmm0, xmm1
+    jae __kefirrt_f32cint_unsigned
+    cvttss2si rax, xmm0
+    mov [rsp], rax
+    end_opcode
+__kefirrt_f32cint_unsigned:           # Value >= 2^63 fits unsigned target only
+    subss xmm0, xmm1
     cvttss2si rax, xmm0
+    btc rax, 63
     mov [rsp], rax
     end_opcode
+__kefirrt_f32cint_constant:
+    .long 0x5f000000
 
 define_opcode f64cint
     movsd xmm0, [rsp]
+    movsd xmm1, QWORD PTR __kefirrt_f64cint_constant[rip]
+    comisd xmm0, xmm1
+    jae __kefirrt_f64cint_unsigned
     cvttsd2si rax, xmm0
     mov [rsp], rax
     end_opcode
+__kefirrt_f64cint_unsigned:           # Value >= 2^63 fits unsigned target only
+    subsd xmm0, xmm1
+    cvttsd2si rax, xmm0
+    btc rax, 63
+    mov [rsp], rax
+    end_opcode
+__kefirrt_f64cint_constant:
+    .quad 0x43e0000000000000
 
 define_opcode intcf32
     mov rax, [rsp]
@@ -1036,7 +1058,15 @@ define_opcode f64cf32
     end_opcode
 
 define_opcode ldcint    
+    fld DWORD PTR __kefirrt_f32cint_constant[rip]
     fld TBYTE PTR [rsp]
+    xor edx, edx
+    fucomi st(0), st(1)
+    jb __kefirrt_ldcint_convert
+    fsub st(0), st(1)                   # Value >= 2^63 fits unsigned target only
+    mov edx, 1
+    shl rdx, 63
+__kefirrt_ldcint_convert:
     fnstcw WORD PTR [rsp]
     movzx eax, WORD PTR [rsp]
     or eax, 3072
@@ -1044,6 +1074,8 @@ define_opcode ldcint
     fldcw WORD PTR [rsp + 8]
     fistp QWORD PTR [rsp + 8]
     fldcw WORD PTR [rsp]
+    fstp st(0)
+    xor [rsp + 8], rdx
     add rsp, 8
     end_opcode
 
-- 
2.43.0


From 878cecc9eacff813cc559cb0b526d7c81fb2ca5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:12 +0000
Subject: [PATCH 06/73] fix: clear upper half of stack slot in conversions to
 float

Logical operators test the whole slot, so stale bits of the converted
value made zero floats true.
---
 source/runtime/amd64_sysv.s | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 57461e8..91a34a7 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -1000,6 +1000,7 @@ define_opcode intcf32
     pxor xmm0, xmm0
     cvtsi2ss xmm0, rax
     movss [rsp], xmm0
+    mov DWORD PTR [rsp + 4], 0
     end_opcode
 
 define_opcode intcf64
@@ -1016,6 +1017,7 @@ define_opcode uintcf32
     js __kefirrt_uintcf32_signed
     cvtsi2ss xmm0, DATA_REG
     movss [rsp], xmm0
+    mov DWORD PTR [rsp + 4], 0
     end_opcode
 __kefirrt_uintcf32_signed:
     mov DATA2_REG, DATA_REG
@@ -1025,6 +1027,7 @@ __kefirrt_uintcf32_signed:
     cvtsi2ss xmm0, DATA_REG
     addss xmm0, xmm0
     movss [rsp], xmm0
+    mov DWORD PTR [rsp + 4], 0
     end_opcode
 
 define_opcode uintcf64
@@ -1055,6 +1058,7 @@ define_opcode f64cf32
     movsd xmm0, [rsp]
     cvtsd2ss xmm0, xmm0
     movss [rsp], xmm0
+    mov DWORD PTR [rsp + 4], 0
     end_opcode
 
 define_opcode ldcint    
-- 
2.43.0


From 6504adc8ca0c09e73a2074be4212c400c821e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:32 +0000
Subject: [PATCH 07/73] fix: evaluate constant expressions in the type of each
 operation

Operands of arithmetic operators were not converted to the common type, results were not
reduced to the type of the expression, signedness of shifts was taken from the common type,
remainder by zero and division overflow crashed the compiler, values of unsigned types were
converted to floating-point types as signed, and floating-point operations kept excess precision.
---
 headers/kefir/ast/constant_expression.h       |   2 +-
 .../ast-translator/scope/data_initializer.c   |   2 +-
 .../constant_expression/binary_operation.c    | 103 +++++++++++++++---
 .../ast/constant_expression/cast_operator.c   |  50 +++++++--
 .../conditional_operator.c                    |  13 +++
 .../ast/constant_expression/unary_operation.c |  10 +-
 6 files changed, 153 insertions(+), 27 deletions(-)

diff --git a/headers/kefir/ast/constant_expression.h b/headers/kefir/ast/constant_expression.h
index 18df5f7..efcab1f 100644
--- a/headers/kefir/ast/constant_expression.h
+++ b/headers/kefir/ast/constant_expression.h
@@ -87,7 +87,7 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *, cons
                                                         struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_constant_expression_value *,
                                                         const struct kefir_ast_node_base *,
-                                                        const struct kefir_ast_type *);
+                                                        const struct kefir_ast_type *, const struct kefir_ast_type *);
 
 struct kefir_ast_constant_expression *kefir_ast_new_constant_expression(struct kefir_mem *,
                                                                         struct kefir_ast_node_base *);
diff --git a/source/ast-translator/scope/data_initializer.c b/source/ast-translator/scope/data_initializer.c
index 45779c8..59fbe3b 100644
--- a/source/ast-translator/scope/data_initializer.c
+++ b/source/ast-translator/scope/data_initializer.c
@@ -165,7 +165,7 @@ static kefir_result_t visit_value(const struct kefir_ast_designator *designator,
     struct kefir_ast_constant_expression_value uncasted_value, value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(param->mem, param->context, expression, &uncasted_value));
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(param->mem, param->context, &value, &uncasted_value, expression,
-                                                        resolved_layout->type));
+                                                        expression->properties.type, resolved_layout->type));
     struct kefir_ir_typeentry *target_typeentry = kefir_ir_type_at(param->type, resolved_layout->value);
     REQUIRE(target_typeentry != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Cannot obtain target IR type entry"));
     switch (value.klass) {
diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index fbab4fb..973ed24 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -26,6 +26,14 @@
 
 #define ANY_OF(x, y, _klass) ((x)->klass == (_klass) || (y)->klass == (_klass))
 
+// Operation is performed with the precision of its type
+#define FLOAT_OPERATION(_type, _x, _y, _op)                                                                    \
+    ((_type)->tag == KEFIR_AST_TYPE_SCALAR_DOUBLE                                                              \
+         ? (kefir_ast_constant_expression_float_t) ((kefir_float64_t) (_x) _op(kefir_float64_t)(_y))           \
+         : ((_type)->tag == KEFIR_AST_TYPE_SCALAR_FLOAT                                                        \
+                ? (kefir_ast_constant_expression_float_t) (kefir_float32_t) ((_x) _op(_y))                     \
+                : ((_x) _op(_y))))
+
 static kefir_ast_constant_expression_float_t as_float(const struct kefir_ast_constant_expression_value *value) {
     switch (value->klass) {
         case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER:
@@ -116,6 +124,32 @@ static kefir_result_t evaluate_pointer_diff(struct kefir_mem *mem, const struct
     return KEFIR_OK;
 }
 
+static kefir_result_t convert_operand(struct kefir_mem *mem, const struct kefir_ast_context *context,
+                                      const struct kefir_ast_node_base *node, const struct kefir_ast_type *type,
+                                      struct kefir_ast_constant_expression_value *value) {
+    struct kefir_ast_constant_expression_value source = *value;
+    REQUIRE_OK(
+        kefir_ast_constant_expression_value_cast(mem, context, value, &source, node, node->properties.type, type));
+    if (value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT) {
+        // Round to the precision of destination type
+        source = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &source, node, type, type));
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t check_signed_divisor(const struct kefir_ast_binary_operation *node,
+                                           const struct kefir_ast_constant_expression_value *arg1,
+                                           const struct kefir_ast_constant_expression_value *arg2) {
+    REQUIRE(arg2->integer != 0,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                   "Expected non-zero divisor in constant expression"));
+    REQUIRE(arg1->integer != KEFIR_AST_CONSTANT_EXPRESSION_INT_MIN || arg2->integer != -1,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->base.source_location,
+                                   "Integer overflow in constant expression"));
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         const struct kefir_ast_binary_operation *node,
                                                         struct kefir_ast_constant_expression_value *value) {
@@ -144,6 +178,35 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
     if (node->type != KEFIR_AST_OPERATION_LOGICAL_AND && node->type != KEFIR_AST_OPERATION_LOGICAL_OR) {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg2, &arg2_value));
     }
+
+    const struct kefir_ast_type *operation_type = common_arith_type;
+    switch (node->type) {
+        case KEFIR_AST_OPERATION_SHIFT_LEFT:
+        case KEFIR_AST_OPERATION_SHIFT_RIGHT:
+            REQUIRE(arg1_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER &&
+                        arg2_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER && arg2_value.integer >= 0 &&
+                        arg2_value.integer < 64,
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                           "Expected valid shift operands in constant expression"));
+            operation_type = node->base.properties.type;
+            REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, operation_type, &common_type_signed_integer));
+            REQUIRE_OK(convert_operand(mem, context, node->arg1, operation_type, &arg1_value));
+            break;
+
+        case KEFIR_AST_OPERATION_LOGICAL_AND:
+        case KEFIR_AST_OPERATION_LOGICAL_OR:
+            // Operands are not converted
+            break;
+
+        default:
+            if (common_arith_type != NULL &&
+                !ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS)) {
+                REQUIRE_OK(convert_operand(mem, context, node->arg1, operation_type, &arg1_value));
+                REQUIRE_OK(convert_operand(mem, context, node->arg2, operation_type, &arg2_value));
+            }
+            break;
+    }
+
     switch (node->type) {
         case KEFIR_AST_OPERATION_ADD:
             if (arg1_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS) {
@@ -154,10 +217,11 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                                                    arg1_value.integer, value));
             } else if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) + as_float(&arg2_value);
+                value->floating_point =
+                    FLOAT_OPERATION(operation_type, as_float(&arg1_value), as_float(&arg2_value), +);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer + arg2_value.integer;
+                value->uinteger = arg1_value.uinteger + arg2_value.uinteger;
             }
             break;
 
@@ -176,31 +240,32 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                 }
             } else if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) - as_float(&arg2_value);
+                value->floating_point =
+                    FLOAT_OPERATION(operation_type, as_float(&arg1_value), as_float(&arg2_value), -);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer - arg2_value.integer;
+                value->uinteger = arg1_value.uinteger - arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_MULTIPLY:
             if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) * as_float(&arg2_value);
+                value->floating_point =
+                    FLOAT_OPERATION(operation_type, as_float(&arg1_value), as_float(&arg2_value), *);
             } else {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = arg1_value.integer * arg2_value.integer;
+                value->uinteger = arg1_value.uinteger * arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_DIVIDE:
             if (ANY_OF(&arg1_value, &arg2_value, KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT)) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
-                value->floating_point = as_float(&arg1_value) / as_float(&arg2_value);
+                value->floating_point =
+                    FLOAT_OPERATION(operation_type, as_float(&arg1_value), as_float(&arg2_value), /);
             } else if (common_type_signed_integer) {
-                REQUIRE(arg2_value.integer != 0,
-                        KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
-                                               "Expected non-zero divisor in constant expression"));
+                REQUIRE_OK(check_signed_divisor(node, &arg1_value, &arg2_value));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
                 value->integer = arg1_value.integer / arg2_value.integer;
             } else {
@@ -208,26 +273,26 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
                         KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
                                                "Expected non-zero divisor in constant expression"));
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->uinteger = arg1_value.uinteger / arg2_value.integer;
+                value->uinteger = arg1_value.uinteger / arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_MODULO:
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
             if (common_type_signed_integer) {
+                REQUIRE_OK(check_signed_divisor(node, &arg1_value, &arg2_value));
                 value->integer = arg1_value.integer % arg2_value.integer;
             } else {
-                value->uinteger = arg1_value.uinteger % arg2_value.integer;
+                REQUIRE(arg2_value.integer != 0,
+                        KEFIR_SET_SOURCE_ERROR(KEFIR_NOT_CONSTANT, &node->arg2->source_location,
+                                               "Expected non-zero divisor in constant expression"));
+                value->uinteger = arg1_value.uinteger % arg2_value.uinteger;
             }
             break;
 
         case KEFIR_AST_OPERATION_SHIFT_LEFT:
             value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-            if (common_type_signed_integer) {
-                value->integer = arg1_value.integer << arg2_value.integer;
-            } else {
-                value->uinteger = arg1_value.uinteger << arg2_value.integer;
-            }
+            value->uinteger = arg1_value.uinteger << arg2_value.integer;
             break;
 
         case KEFIR_AST_OPERATION_SHIFT_RIGHT:
@@ -392,5 +457,9 @@ kefir_result_t kefir_ast_evaluate_binary_operation_node(struct kefir_mem *mem, c
             value->integer = arg1_bool || arg2_bool;
         } break;
     }
+
+    if (value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER) {
+        REQUIRE_OK(convert_operand(mem, context, KEFIR_AST_NODE_BASE(node), node->base.properties.type, value));
+    }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/cast_operator.c b/source/ast/constant_expression/cast_operator.c
index 45f848f..0326f9d 100644
--- a/source/ast/constant_expression/cast_operator.c
+++ b/source/ast/constant_expression/cast_operator.c
@@ -85,10 +85,38 @@ static kefir_result_t cast_integral_type(struct kefir_mem *mem, const struct kef
     return KEFIR_OK;
 }
 
+static kefir_ast_constant_expression_int_t cast_float_to_integer(kefir_ast_constant_expression_float_t source) {
+    const kefir_ast_constant_expression_float_t bound =
+        (kefir_ast_constant_expression_float_t) ((kefir_ast_constant_expression_uint_t) 1 << 63);
+    if (source >= -bound && source < bound) {
+        return (kefir_ast_constant_expression_int_t) source;
+    } else if (source >= bound && source < 2 * bound) {
+        return (kefir_ast_constant_expression_int_t) (kefir_ast_constant_expression_uint_t) source;
+    } else {
+        return KEFIR_AST_CONSTANT_EXPRESSION_INT_MIN;
+    }
+}
+
+// Floating-point values are kept with excess precision, which is discarded when the value is used as operand
+static kefir_ast_constant_expression_float_t round_floating_point(const struct kefir_ast_type *type,
+                                                                  kefir_ast_constant_expression_float_t source) {
+    switch (kefir_ast_unqualified_type(type)->tag) {
+        case KEFIR_AST_TYPE_SCALAR_FLOAT:
+            return (kefir_float32_t) source;
+
+        case KEFIR_AST_TYPE_SCALAR_DOUBLE:
+            return (kefir_float64_t) source;
+
+        default:
+            return source;
+    }
+}
+
 kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, const struct kefir_ast_context *context,
                                                         struct kefir_ast_constant_expression_value *value,
                                                         const struct kefir_ast_constant_expression_value *source,
                                                         const struct kefir_ast_node_base *node,
+                                                        const struct kefir_ast_type *source_type,
                                                         const struct kefir_ast_type *type) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST context"));
@@ -97,6 +125,7 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
     REQUIRE(source != NULL,
             KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST constant expression value"));
     REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid base AST node"));
+    REQUIRE(source_type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source AST type"));
     REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination AST type"));
 
     const struct kefir_ast_type *unqualified = kefir_ast_unqualified_type(type);
@@ -109,10 +138,11 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
                 if (unqualified->tag == KEFIR_AST_TYPE_SCALAR_BOOL) {
-                    value->integer = (bool) source->floating_point;
+                    value->integer = round_floating_point(source_type, source->floating_point) != 0;
                 } else {
                     REQUIRE_OK(cast_integral_type(mem, context, unqualified, value,
-                                                  (kefir_ast_constant_expression_int_t) source->floating_point));
+                                                  cast_float_to_integer(round_floating_point(
+                                                      source_type, source->floating_point))));
                 }
                 break;
 
@@ -128,12 +158,18 @@ kefir_result_t kefir_ast_constant_expression_value_cast(struct kefir_mem *mem, c
     } else if (KEFIR_AST_TYPE_IS_FLOATING_POINT(unqualified)) {
         value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
         switch (source->klass) {
-            case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER:
-                value->floating_point = (kefir_ast_constant_expression_float_t) source->integer;
-                break;
+            case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER: {
+                const struct kefir_ast_type *unqualified_source = kefir_ast_unqualified_type(source_type);
+                kefir_bool_t signed_source = true;
+                if (KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(unqualified_source)) {
+                    REQUIRE_OK(kefir_ast_type_is_signed(context->type_traits, unqualified_source, &signed_source));
+                }
+                value->floating_point = signed_source ? (kefir_ast_constant_expression_float_t) source->integer
+                                                      : (kefir_ast_constant_expression_float_t) source->uinteger;
+            } break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT:
-                value->floating_point = source->floating_point;
+                value->floating_point = round_floating_point(source_type, source->floating_point);
                 break;
 
             case KEFIR_AST_CONSTANT_EXPRESSION_CLASS_ADDRESS:
@@ -194,6 +230,6 @@ kefir_result_t kefir_ast_evaluate_cast_operator_node(struct kefir_mem *mem, cons
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr, &arg_value));
 
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &arg_value, KEFIR_AST_NODE_BASE(node),
-                                                        node->base.properties.type));
+                                                        node->expr->properties.type, node->base.properties.type));
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/conditional_operator.c b/source/ast/constant_expression/conditional_operator.c
index 504dc2f..29eb274 100644
--- a/source/ast/constant_expression/conditional_operator.c
+++ b/source/ast/constant_expression/conditional_operator.c
@@ -69,16 +69,29 @@ kefir_result_t kefir_ast_evaluate_conditional_operator_node(struct kefir_mem *me
             return KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Non-evaluated constant expression");
     }
 
+    const struct kefir_ast_node_base *result_node = NULL;
     if (condition) {
         if (node->expr1 != NULL) {
             REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr1, &arg1_value));
             *value = arg1_value;
+            result_node = node->expr1;
         } else {
             *value = cond_value;
+            result_node = node->condition;
         }
     } else {
         REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expr2, &arg2_value));
         *value = arg2_value;
+        result_node = node->expr2;
+    }
+
+    const struct kefir_ast_type *result_type = kefir_ast_unqualified_type(node->base.properties.type);
+    if ((value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER && KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(result_type)) ||
+        (value->klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT && KEFIR_AST_TYPE_IS_FLOATING_POINT(result_type))) {
+        const struct kefir_ast_constant_expression_value uncasted_value = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &uncasted_value,
+                                                            KEFIR_AST_NODE_BASE(node), result_node->properties.type,
+                                                            result_type));
     }
     return KEFIR_OK;
 }
diff --git a/source/ast/constant_expression/unary_operation.c b/source/ast/constant_expression/unary_operation.c
index e97e3b5..ba39d2e 100644
--- a/source/ast/constant_expression/unary_operation.c
+++ b/source/ast/constant_expression/unary_operation.c
@@ -82,7 +82,7 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
             REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->arg, &arg_value));
             if (arg_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER;
-                value->integer = -arg_value.integer;
+                value->uinteger = -arg_value.uinteger;
             } else if (arg_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT) {
                 value->klass = KEFIR_AST_CONSTANT_EXPRESSION_CLASS_FLOAT;
                 value->floating_point = -arg_value.floating_point;
@@ -182,5 +182,13 @@ kefir_result_t kefir_ast_evaluate_unary_operation_node(struct kefir_mem *mem, co
             REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_FREE_TYPE(mem, context->target_env, opaque_type));
         } break;
     }
+
+    if (node->type == KEFIR_AST_OPERATION_PLUS || node->type == KEFIR_AST_OPERATION_NEGATE ||
+        node->type == KEFIR_AST_OPERATION_INVERT) {
+        const struct kefir_ast_constant_expression_value uncasted_value = *value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_cast(mem, context, value, &uncasted_value,
+                                                            KEFIR_AST_NODE_BASE(node), node->base.properties.type,
+                                                            node->base.properties.type));
+    }
     return KEFIR_OK;
 }
-- 
2.43.0


From 181049eec7503cf63807eb22de293200b6392ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:49 +0000
Subject: [PATCH 08/73] fix: convert case labels to the controlling type and
 evaluate #if in intmax_t

---
 headers/kefir/ast/context.h                   |  1 +
 headers/kefir/preprocessor/preprocessor.h     |  3 ++
 source/ast/analyzer/nodes/case_statement.c    | 13 ++++++--
 .../ast/constant_expression/cast_operator.c   |  2 ++
 source/preprocessor/ast_context.c             |  2 ++
 source/preprocessor/convert.c                 | 30 +++++++++++++++++++
 source/preprocessor/preprocessor.c            |  2 +-
 7 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/headers/kefir/ast/context.h b/headers/kefir/ast/context.h
index d6d4e2f..5a39970 100644
--- a/headers/kefir/ast/context.h
+++ b/headers/kefir/ast/context.h
@@ -37,6 +37,7 @@ typedef struct kefir_ast_context_configuration {
         kefir_bool_t ext_pointer_arithmetics;
         kefir_bool_t missing_braces_subobj;
         kefir_bool_t int_to_pointer;
+        kefir_bool_t max_width_constants;
     } analysis;
 } kefir_ast_context_configuration_t;
 
diff --git a/headers/kefir/preprocessor/preprocessor.h b/headers/kefir/preprocessor/preprocessor.h
index 9628de7..c6b68f1 100644
--- a/headers/kefir/preprocessor/preprocessor.h
+++ b/headers/kefir/preprocessor/preprocessor.h
@@ -123,5 +123,8 @@ kefir_result_t kefir_preprocessor_token_convert(struct kefir_mem *, struct kefir
                                                 const struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *, struct kefir_preprocessor *,
                                                        struct kefir_token_buffer *, const struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *, struct kefir_preprocessor *,
+                                                          struct kefir_token_buffer *,
+                                                          const struct kefir_token_buffer *);
 
 #endif
diff --git a/source/ast/analyzer/nodes/case_statement.c b/source/ast/analyzer/nodes/case_statement.c
index 45acc00..8277ae2 100644
--- a/source/ast/analyzer/nodes/case_statement.c
+++ b/source/ast/analyzer/nodes/case_statement.c
@@ -67,11 +67,18 @@ kefir_result_t kefir_ast_analyze_case_statement_node(struct kefir_mem *mem, cons
 
     if (node->expression != NULL) {
         REQUIRE_OK(kefir_ast_analyze_node(mem, context, node->expression));
-        struct kefir_ast_constant_expression_value value;
-        REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expression, &value));
-        REQUIRE(value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
+        struct kefir_ast_constant_expression_value uncasted_value, value;
+        REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(mem, context, node->expression, &uncasted_value));
+        REQUIRE(uncasted_value.klass == KEFIR_AST_CONSTANT_EXPRESSION_CLASS_INTEGER,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->expression->source_location,
                                        "Expected AST case label to be an integral constant expression"));
+        if (switch_statement->value.switchStatement.controlling_expression_type != NULL) {
+            REQUIRE_OK(kefir_ast_constant_expression_value_cast(
+                mem, context, &value, &uncasted_value, node->expression, node->expression->properties.type,
+                switch_statement->value.switchStatement.controlling_expression_type));
+        } else {
+            value = uncasted_value;
+        }
         struct kefir_ast_flow_control_point *point = kefir_ast_flow_control_point_alloc(mem, direct_parent);
         REQUIRE(point != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST flow control point"));
         kefir_result_t res =
diff --git a/source/ast/constant_expression/cast_operator.c b/source/ast/constant_expression/cast_operator.c
index 0326f9d..02d637a 100644
--- a/source/ast/constant_expression/cast_operator.c
+++ b/source/ast/constant_expression/cast_operator.c
@@ -43,6 +43,8 @@ static kefir_result_t cast_integral_type(struct kefir_mem *mem, const struct kef
 
     if (type->tag == KEFIR_AST_TYPE_SCALAR_BOOL) {
         value->integer = (bool) source;
+    } else if (context->configuration->analysis.max_width_constants) {
+        value->integer = source;
     } else if (signed_integer) {
         switch (type_info.size) {
             case 1:
diff --git a/source/preprocessor/ast_context.c b/source/preprocessor/ast_context.c
index 6bd453b..4d3fa2a 100644
--- a/source/preprocessor/ast_context.c
+++ b/source/preprocessor/ast_context.c
@@ -148,6 +148,8 @@ kefir_result_t kefir_preprocessor_ast_context_init(struct kefir_mem *mem,
     context->context.type_traits = type_traits;
     REQUIRE_OK(kefir_ast_type_bundle_init(&context->type_bundle, symbols));
     REQUIRE_OK(kefir_ast_context_configuration_defaults(&context->configuration));
+    // Preprocessor expressions are evaluated in intmax_t and uintmax_t
+    context->configuration.analysis.max_width_constants = true;
     context->context.type_bundle = &context->type_bundle;
     context->context.target_env = target_env;
     context->context.temporaries = NULL;
diff --git a/source/preprocessor/convert.c b/source/preprocessor/convert.c
index de7d4b9..94ec01e 100644
--- a/source/preprocessor/convert.c
+++ b/source/preprocessor/convert.c
@@ -270,3 +270,33 @@ kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *mem, st
     }
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *mem,
+                                                          struct kefir_preprocessor *preprocessor,
+                                                          struct kefir_token_buffer *dst,
+                                                          const struct kefir_token_buffer *src) {
+    REQUIRE_OK(kefir_preprocessor_token_convert_buffer(mem, preprocessor, dst, src));
+
+    // All integral constants in preprocessor conditions have intmax_t or uintmax_t type
+    for (kefir_size_t i = 0; i < dst->length; i++) {
+        struct kefir_token *token = &dst->tokens[i];
+        if (token->klass == KEFIR_TOKEN_CONSTANT) {
+            switch (token->constant.type) {
+                case KEFIR_CONSTANT_TOKEN_INTEGER:
+                case KEFIR_CONSTANT_TOKEN_LONG_INTEGER:
+                    token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+                    break;
+
+                case KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER:
+                case KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER:
+                    token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
+                    break;
+
+                default:
+                    // Intentionally left blank
+                    break;
+            }
+        }
+    }
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index e5a5ed1..5545f4b 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -338,7 +338,7 @@ static kefir_result_t evaluate_pp_tokens(struct kefir_mem *mem, struct kefir_pre
     struct kefir_ast_constant_expression_value expr_value;
 
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
-    kefir_result_t res = kefir_preprocessor_token_convert_buffer(mem, preprocessor, &tokens, pp_tokens);
+    kefir_result_t res = kefir_preprocessor_token_convert_condition(mem, preprocessor, &tokens, pp_tokens);
     REQUIRE_CHAIN(&res, kefir_parser_token_cursor_init(&cursor, tokens.tokens, tokens.length));
     REQUIRE_CHAIN(&res, kefir_parser_init(mem, &parser, preprocessor->lexer.symbols, &cursor,
                                           preprocessor->extensions != NULL ? preprocessor->extensions->parser : NULL));
-- 
2.43.0


From e2fc7d5f6972718273aa5ea89d342cbfcc41125e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 09/73] fix: conversion rank of long long types

---
 source/ast/type/basic.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/ast/type/basic.c b/source/ast/type/basic.c
index f20daa1..522b6a7 100644
--- a/source/ast/type/basic.c
+++ b/source/ast/type/basic.c
@@ -98,11 +98,11 @@ SCALAR_TYPE(unsigned_int, KEFIR_AST_TYPE_SCALAR_UNSIGNED_INT, 3)
 SCALAR_TYPE(signed_int, KEFIR_AST_TYPE_SCALAR_SIGNED_INT, 3)
 SCALAR_TYPE(unsigned_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG, 4)
 SCALAR_TYPE(signed_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG, 4)
-SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 4)
-SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 4)
-SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 5)
-SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 6)
-SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 7)
+SCALAR_TYPE(unsigned_long_long, KEFIR_AST_TYPE_SCALAR_UNSIGNED_LONG_LONG, 5)
+SCALAR_TYPE(signed_long_long, KEFIR_AST_TYPE_SCALAR_SIGNED_LONG_LONG, 5)
+SCALAR_TYPE(float, KEFIR_AST_TYPE_SCALAR_FLOAT, 6)
+SCALAR_TYPE(double, KEFIR_AST_TYPE_SCALAR_DOUBLE, 7)
+SCALAR_TYPE(long_double, KEFIR_AST_TYPE_SCALAR_LONG_DOUBLE, 8)
 
 #undef SCALAR_TYPE
 
-- 
2.43.0


From f9a49984a691d3eb241faf6ac8a6cc51dbb9c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:15 +0000
Subject: [PATCH 10/73] fix: signedness of unsuffixed octal and hexadecimal
 constants in #if

---
 source/preprocessor/convert.c | 62 +++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/source/preprocessor/convert.c b/source/preprocessor/convert.c
index 94ec01e..30d8b5c 100644
--- a/source/preprocessor/convert.c
+++ b/source/preprocessor/convert.c
@@ -271,32 +271,52 @@ kefir_result_t kefir_preprocessor_token_convert_buffer(struct kefir_mem *mem, st
     return KEFIR_OK;
 }
 
+static void widen_integral_constant(struct kefir_token *token, const struct kefir_token *pp_token) {
+    REQUIRE(token->klass == KEFIR_TOKEN_CONSTANT, );
+    switch (token->constant.type) {
+        case KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER:
+        case KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER:
+            token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
+            if (pp_token->klass == KEFIR_TOKEN_PP_NUMBER && strpbrk(pp_token->pp_number.number_literal, "uU") == NULL &&
+                token->constant.uinteger <= (kefir_uint64_t) KEFIR_INT64_MAX) {
+                token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+            }
+            break;
+
+        case KEFIR_CONSTANT_TOKEN_INTEGER:
+        case KEFIR_CONSTANT_TOKEN_LONG_INTEGER:
+            token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
+            break;
+
+        default:
+            // Intentionally left blank
+            break;
+    }
+}
+
 kefir_result_t kefir_preprocessor_token_convert_condition(struct kefir_mem *mem,
                                                           struct kefir_preprocessor *preprocessor,
                                                           struct kefir_token_buffer *dst,
                                                           const struct kefir_token_buffer *src) {
-    REQUIRE_OK(kefir_preprocessor_token_convert_buffer(mem, preprocessor, dst, src));
-
-    // All integral constants in preprocessor conditions have intmax_t or uintmax_t type
-    for (kefir_size_t i = 0; i < dst->length; i++) {
-        struct kefir_token *token = &dst->tokens[i];
-        if (token->klass == KEFIR_TOKEN_CONSTANT) {
-            switch (token->constant.type) {
-                case KEFIR_CONSTANT_TOKEN_INTEGER:
-                case KEFIR_CONSTANT_TOKEN_LONG_INTEGER:
-                    token->constant.type = KEFIR_CONSTANT_TOKEN_LONG_LONG_INTEGER;
-                    break;
-
-                case KEFIR_CONSTANT_TOKEN_UNSIGNED_INTEGER:
-                case KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_INTEGER:
-                    token->constant.type = KEFIR_CONSTANT_TOKEN_UNSIGNED_LONG_LONG_INTEGER;
-                    break;
-
-                default:
-                    // Intentionally left blank
-                    break;
-            }
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
+    REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination token buffer"));
+    REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source token buffer"));
+
+    for (kefir_size_t i = 0; i < src->length; i++) {
+        if (src->tokens[i].klass == KEFIR_TOKEN_PP_WHITESPACE || src->tokens[i].klass == KEFIR_TOKEN_PP_PLACEMAKER) {
+            continue;
         }
+
+        // All integral constants in preprocessor conditions have intmax_t or uintmax_t type
+        struct kefir_token token;
+        REQUIRE_OK(kefir_preprocessor_token_convert(mem, preprocessor, &token, &src->tokens[i]));
+        widen_integral_constant(&token, &src->tokens[i]);
+        kefir_result_t res = kefir_token_buffer_emplace(mem, dst, &token);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_token_free(mem, &token);
+            return res;
+        });
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 2b563ed0ea5f0c8340caadc2f5d53df7901ed6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:54 +0000
Subject: [PATCH 11/73] fix: access to 64-bit wide bit-fields

---
 source/runtime/amd64_sysv.s | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index 91a34a7..f4260f0 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -673,12 +673,14 @@ define_opcode bcopy
 define_opcode extubits
     mov edx, [INSTR_ARG_PTR]            # Offset
     mov ecx, [INSTR_ARG_PTR4]           # Width
-    mov r11, 1                          # Mask = (1 << Width) - 1
-    shlx r11, r11, rcx
-    sub r11, 1
-    pop rax                             # Value = (Bitfield >> Offset) & Mask
-    shrx rax, rax, rdx
-    and rax, r11
+    add rdx, rcx                        # rdx = 64 - (Width + Offset)
+    neg rdx
+    add rdx, 64
+    neg rcx                             # rcx = 64 - Width
+    add rcx, 64
+    pop rax                             # Value = (Bitfield << rdx)) >> rcx
+    shlx rax, rax, rdx
+    shrx rax, rax, rcx
     push rax
     end_opcode
 
@@ -709,10 +711,11 @@ define_opcode insertbits
     sub rax, rdx                        # RAX = 64 - Width - Offset
     shrx rsi, rsi, rax
 
-    # Mask bit-field: Bit-field = Bit-field & ~(((1 << Width) - 1) << Offset)
-    mov rax, 1
-    shlx rax, rax, rcx
-    sub rax, 1
+    # Mask bit-field: Bit-field = Bit-field & ~((-1 >> (64 - Width)) << Offset)
+    neg rcx
+    add rcx, 64
+    mov rax, -1
+    shrx rax, rax, rcx
     shlx rax, rax, rdx
     not rax
     and rdi, rax
-- 
2.43.0


From 57b35d0a38641df8b2570a8d692e903a4a73ee07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:54 +0000
Subject: [PATCH 12/73] fix: alignments of 256 and above

---
 headers/kefir/ir/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/headers/kefir/ir/type.h b/headers/kefir/ir/type.h
index 1c98483..1d938eb 100644
--- a/headers/kefir/ir/type.h
+++ b/headers/kefir/ir/type.h
@@ -57,7 +57,7 @@ typedef enum kefir_ir_typecode {
 
 typedef struct kefir_ir_typeentry {
     kefir_ir_typecode_t typecode;
-    kefir_uint32_t alignment : 8;
+    kefir_uint32_t alignment;
     kefir_int64_t param;
 } kefir_ir_typeentry_t;
 
-- 
2.43.0


From 8851853e80b9319673e3a30728de200b68a18f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:54 +0000
Subject: [PATCH 13/73] fix: member lookup past unnamed bit-fields

---
 source/ast/type_layout.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/ast/type_layout.c b/source/ast/type_layout.c
index 09534ad..644e927 100644
--- a/source/ast/type_layout.c
+++ b/source/ast/type_layout.c
@@ -225,7 +225,8 @@ static kefir_result_t resolve_member(struct kefir_ast_type_layout *current_layou
         for (const struct kefir_list_entry *iter = kefir_list_head(&current_layout->structure_layout.member_list);
              iter != NULL && res == KEFIR_NOT_FOUND; kefir_list_next(&iter)) {
             ASSIGN_DECL_CAST(struct kefir_ast_type_layout_structure_member *, member, iter->value);
-            if (member->identifier == NULL) {
+            if (member->identifier == NULL && (member->layout->type->tag == KEFIR_AST_TYPE_STRUCTURE ||
+                                               member->layout->type->tag == KEFIR_AST_TYPE_UNION)) {
                 res = resolve_member(member->layout, designator, layout, callback, payload);
                 if (res == KEFIR_OK && callback != NULL) {
                     REQUIRE_OK(callback(member->layout, designator, payload));
-- 
2.43.0


From 36313167f9e2311f1fabb59a740cce8d069cc7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:54 +0000
Subject: [PATCH 14/73] fix: value of prefix increment and decrement of
 bit-fields

---
 source/ast-translator/nodes/unary_operation.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index 20c4040..b1a1d2c 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -247,6 +247,18 @@ static kefir_result_t translate_preincdec(struct kefir_mem *mem, struct kefir_as
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PICK, 1));
     }
     REQUIRE_OK(kefir_ast_translator_store_lvalue(mem, context, builder, node->arg));
+
+    if (node->arg->properties.expression_props.bitfield_props.bitfield &&
+        KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(normalized_type)) {
+        kefir_bool_t signedness;
+        REQUIRE_OK(kefir_ast_type_is_signed(context->ast_context->type_traits, normalized_type, &signedness));
+        const kefir_size_t bitwidth = node->arg->properties.expression_props.bitfield_props.width;
+        if (signedness) {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_EXTSBITS, 0, bitwidth));
+        } else {
+            REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDU32(builder, KEFIR_IROPCODE_EXTUBITS, 0, bitwidth));
+        }
+    }
     return KEFIR_OK;
 }
 
-- 
2.43.0


From b4174491b95d24d886ef4ae0478f5395614b3e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:24 +0000
Subject: [PATCH 15/73] fix: classification of nested aggregates passed by
 value

The start and the end of nested structures and unions were not padded to
their alignment while assigning members to eightbytes.
---
 headers/kefir/codegen/amd64/system-v/abi/qwords.h |  1 +
 source/codegen/amd64/system-v/abi/function.c      |  2 ++
 source/codegen/amd64/system-v/abi/qwords.c        | 13 +++++++++++++
 source/codegen/amd64/system-v/abi/registers.c     |  6 ++++++
 4 files changed, 22 insertions(+)

diff --git a/headers/kefir/codegen/amd64/system-v/abi/qwords.h b/headers/kefir/codegen/amd64/system-v/abi/qwords.h
index dcf363a..1430b53 100644
--- a/headers/kefir/codegen/amd64/system-v/abi/qwords.h
+++ b/headers/kefir/codegen/amd64/system-v/abi/qwords.h
@@ -66,6 +66,7 @@ kefir_result_t kefir_amd64_sysv_abi_qwords_next_bitfield(struct kefir_amd64_sysv
                                                          kefir_amd64_sysv_data_class_t, kefir_size_t,
                                                          struct kefir_amd64_sysv_abi_qword_ref *);
 
+kefir_result_t kefir_amd64_sysv_abi_qwords_align(struct kefir_amd64_sysv_abi_qwords *, kefir_size_t);
 kefir_result_t kefir_amd64_sysv_abi_qwords_reset_class(struct kefir_amd64_sysv_abi_qwords *,
                                                        kefir_amd64_sysv_data_class_t, kefir_size_t, kefir_size_t);
 
diff --git a/source/codegen/amd64/system-v/abi/function.c b/source/codegen/amd64/system-v/abi/function.c
index 44b4c54..ca0ecc1 100644
--- a/source/codegen/amd64/system-v/abi/function.c
+++ b/source/codegen/amd64/system-v/abi/function.c
@@ -126,12 +126,14 @@ static kefir_result_t calculate_frame_temporaries(struct kefir_mem *mem,
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, false);
+            REQUIRE(decl != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain IR function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_INVOKEV) {
             kefir_id_t id = (kefir_id_t) instr->arg.u64;
             struct kefir_amd64_sysv_function_decl *decl =
                 kefir_codegen_amd64_sysv_module_function_decl(mem, sysv_module, id, true);
+            REQUIRE(decl != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain IR function declaration"));
             REQUIRE_OK(update_frame_temporaries(decl, &size, &alignment));
         }
         if (instr->opcode == KEFIR_IROPCODE_VARARG_GET) {
diff --git a/source/codegen/amd64/system-v/abi/qwords.c b/source/codegen/amd64/system-v/abi/qwords.c
index 96d5d82..1d7ab00 100644
--- a/source/codegen/amd64/system-v/abi/qwords.c
+++ b/source/codegen/amd64/system-v/abi/qwords.c
@@ -164,6 +164,19 @@ kefir_result_t kefir_amd64_sysv_abi_qwords_next_bitfield(struct kefir_amd64_sysv
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_amd64_sysv_abi_qwords_align(struct kefir_amd64_sysv_abi_qwords *qwords, kefir_size_t alignment) {
+    REQUIRE(qwords != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid QWord vector"));
+    REQUIRE(alignment > 0, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected non-zero alignment"));
+    ASSIGN_DECL_CAST(struct kefir_amd64_sysv_abi_qword *, qword, kefir_vector_at(&qwords->qwords, qwords->current));
+    REQUIRE(qword != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_REQUEST, "Unable to obtain current qword"));
+    while ((qwords->current * KEFIR_AMD64_SYSV_ABI_QWORD + qword->current_offset) % alignment != 0) {
+        qword = next_qword(qwords, 1);
+        REQUIRE(qword != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_REQUEST, "Unable to obtain next qword"));
+        qword->current_offset++;
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_amd64_sysv_abi_qwords_reset_class(struct kefir_amd64_sysv_abi_qwords *qwords,
                                                        kefir_amd64_sysv_data_class_t dataclass, kefir_size_t begin,
                                                        kefir_size_t count) {
diff --git a/source/codegen/amd64/system-v/abi/registers.c b/source/codegen/amd64/system-v/abi/registers.c
index 766885d..5111053 100644
--- a/source/codegen/amd64/system-v/abi/registers.c
+++ b/source/codegen/amd64/system-v/abi/registers.c
@@ -216,14 +216,17 @@ static kefir_result_t assign_nested_struct(const struct kefir_ir_type *type, kef
                                            const struct kefir_ir_typeentry *typeentry, void *payload) {
     UNUSED(typeentry);
     struct recursive_aggregate_allocation *info = (struct recursive_aggregate_allocation *) payload;
+    ASSIGN_DECL_CAST(struct kefir_amd64_sysv_data_layout *, layout, kefir_vector_at(info->layout, index));
     ASSIGN_DECL_CAST(struct kefir_amd64_sysv_parameter_allocation *, allocation,
                      kefir_vector_at(info->allocation, (*info->slot)++));
     allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_CONTAINER;
     allocation->klass = KEFIR_AMD64_SYSV_PARAM_NO_CLASS;
     allocation->index = index;
+    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_align(&info->top_allocation->container, layout->alignment));
     info->nested++;
     REQUIRE_OK(kefir_ir_type_visitor_list_nodes(type, info->visitor, (void *) info, index + 1, typeentry->param));
     info->nested--;
+    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_align(&info->top_allocation->container, layout->alignment));
     return KEFIR_OK;
 }
 
@@ -251,6 +254,7 @@ static kefir_result_t assign_nested_union(const struct kefir_ir_type *type, kefi
                                           const struct kefir_ir_typeentry *typeentry, void *payload) {
     UNUSED(typeentry);
     struct recursive_aggregate_allocation *info = (struct recursive_aggregate_allocation *) payload;
+    ASSIGN_DECL_CAST(struct kefir_amd64_sysv_data_layout *, layout, kefir_vector_at(info->layout, index));
     ASSIGN_DECL_CAST(struct kefir_amd64_sysv_parameter_allocation *, allocation,
                      kefir_vector_at(info->allocation, (*info->slot)++));
     allocation->type = KEFIR_AMD64_SYSV_INPUT_PARAM_CONTAINER;
@@ -266,11 +270,13 @@ static kefir_result_t assign_nested_union(const struct kefir_ir_type *type, kefi
                                                          .visitor = &visitor,
                                                          .slot = info->slot,
                                                          .nested = 0};
+    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_align(&info->top_allocation->container, layout->alignment));
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&info->top_allocation->container, &nested_info.init_position));
     REQUIRE_OK(kefir_amd64_sysv_abi_qwords_save_position(&info->top_allocation->container, &nested_info.max_position));
     REQUIRE_OK(kefir_ir_type_visitor_list_nodes(type, &visitor, (void *) &nested_info, index + 1, typeentry->param));
     REQUIRE_OK(
         kefir_amd64_sysv_abi_qwords_restore_position(&info->top_allocation->container, &nested_info.max_position));
+    REQUIRE_OK(kefir_amd64_sysv_abi_qwords_align(&info->top_allocation->container, layout->alignment));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From e85002702bcbc9acf68799fff9c05752a75a0e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:29 +0000
Subject: [PATCH 16/73] fix: significant bits of boolean values returned by
 calls

---
 source/codegen/amd64/system-v/abi/invoke.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/codegen/amd64/system-v/abi/invoke.c b/source/codegen/amd64/system-v/abi/invoke.c
index c718e77..3740030 100644
--- a/source/codegen/amd64/system-v/abi/invoke.c
+++ b/source/codegen/amd64/system-v/abi/invoke.c
@@ -283,8 +283,13 @@ static kefir_result_t integer_return(const struct kefir_ir_type *type, kefir_siz
                                      const struct kefir_ir_typeentry *typeentry, void *payload) {
     UNUSED(type);
     UNUSED(index);
-    UNUSED(typeentry);
     ASSIGN_DECL_CAST(struct invoke_info *, info, payload);
+    if (typeentry->typecode == KEFIR_IR_TYPE_BOOL) {
+        // Only the lowest byte of returned boolean is significant
+        ASMGEN_INSTR(&info->codegen->asmgen, KEFIR_AMD64_AND);
+        ASMGEN_ARG0(&info->codegen->asmgen, KEFIR_AMD64_RAX);
+        ASMGEN_ARG(&info->codegen->asmgen, "%d", 0xff);
+    }
     ASMGEN_INSTR(&info->codegen->asmgen, KEFIR_AMD64_PUSH);
     ASMGEN_ARG0(&info->codegen->asmgen, KEFIR_AMD64_RAX);
     return KEFIR_OK;
-- 
2.43.0


From 9b7b54a23924cbd78cb472aa56e5756696fa23cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:25 +0000
Subject: [PATCH 17/73] fix: alignment of long double variable arguments

---
 source/runtime/amd64_sysv.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/runtime/amd64_sysv.s b/source/runtime/amd64_sysv.s
index f4260f0..5c5435d 100644
--- a/source/runtime/amd64_sysv.s
+++ b/source/runtime/amd64_sysv.s
@@ -1281,6 +1281,8 @@ __kefirrt_load_sse_vararg_stack:
 __kefirrt_load_long_double_vararg:
     pop DATA_REG
     mov rax, [DATA_REG + 8]
+    add rax, 15
+    and rax, -16
     lea rdx, [rax + 16]
     mov [DATA_REG + 8], rdx
     mov DATA_REG, [rax + 8]
-- 
2.43.0


From 36d8fd73912dcf1b14a07841ab81d65aa2247849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:25 +0000
Subject: [PATCH 18/73] fix: start of the variable argument area after unpadded
 memory arguments

---
 source/codegen/amd64/system-v/abi/vararg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/codegen/amd64/system-v/abi/vararg.c b/source/codegen/amd64/system-v/abi/vararg.c
index a384156..d480c06 100644
--- a/source/codegen/amd64/system-v/abi/vararg.c
+++ b/source/codegen/amd64/system-v/abi/vararg.c
@@ -52,7 +52,9 @@ static kefir_result_t vararg_start(struct kefir_codegen_amd64 *codegen,
     ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_LEA);
     ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA2_REG);
     ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_INDIRECT_OFFSET, KEFIR_AMD64_RBP,
-               2 * KEFIR_AMD64_SYSV_ABI_QWORD + sysv_func->decl.parameters.location.stack_offset);
+               2 * KEFIR_AMD64_SYSV_ABI_QWORD +
+                   kefir_codegen_pad_aligned(sysv_func->decl.parameters.location.stack_offset,
+                                             KEFIR_AMD64_SYSV_ABI_QWORD));
 
     ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_MOV);
     ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_INDIRECT_OFFSET, KEFIR_AMD64_SYSV_ABI_DATA_REG,
-- 
2.43.0


From 28b73022d1fe6dba07e9e56a39f784847396a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 19/73] fix: trailing unnamed bit-fields in initialized
 structures

---
 source/ast/analyzer/type_traversal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index cc63891..c4981ef 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -134,7 +134,7 @@ static struct kefir_ast_struct_field *skip_unnamed_bitfields(struct kefir_ast_ty
     for (field = layer->structure.iterator->value;
          layer->structure.iterator != NULL && field->identifier == NULL && field->bitfield;) {
         kefir_list_next(&layer->structure.iterator);
-        field = layer->structure.iterator->value;
+        field = layer->structure.iterator != NULL ? layer->structure.iterator->value : NULL;
     }
     return field;
 }
-- 
2.43.0


From 58842e0e8523caf9a6e1431a2ee212e6bb103f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 20/73] fix: designators of members of anonymous structures and
 unions

---
 source/ast/analyzer/type_traversal.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index c4981ef..e01e4fa 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -309,6 +309,8 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         return KEFIR_OK;
                     }
                 } else if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(field->type)) {
+                    layer->init = false;
+                    layer->structure.iterator = iter;
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
@@ -337,7 +339,9 @@ static kefir_result_t navigate_member(struct kefir_mem *mem, struct kefir_ast_ty
                         }
                         return KEFIR_OK;
                     }
-                } else {
+                } else if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(field->type)) {
+                    layer->init = false;
+                    layer->structure.iterator = iter;
                     REQUIRE_OK(push_layer(mem, traversal, field->type, layer));
                     kefir_result_t res = navigate_member(mem, traversal, member, push);
                     if (res == KEFIR_NOT_FOUND) {
-- 
2.43.0


From fe18da6177700284d14a2c5554d45f154d7ab2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 21/73] fix: initialization of qualified aggregate subobjects

---
 source/ast/analyzer/type_traversal.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index e01e4fa..f399952 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -44,6 +44,7 @@ static kefir_result_t remove_layer(struct kefir_mem *mem, struct kefir_list *lis
 static kefir_result_t push_layer(struct kefir_mem *mem, struct kefir_ast_type_traversal *traversal,
                                  const struct kefir_ast_type *object_type,
                                  const struct kefir_ast_type_traversal_layer *parent) {
+    object_type = kefir_ast_unqualified_type(object_type);
     struct kefir_ast_type_traversal_layer *layer = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_type_traversal_layer));
     REQUIRE(layer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST type traversal layer"));
     layer->parent = parent;
@@ -233,7 +234,7 @@ kefir_result_t kefir_ast_type_traversal_next_recursive2(struct kefir_mem *mem,
     const struct kefir_ast_type_traversal_layer *top_layer = NULL;
     REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &top_type, &top_layer));
     if (top_type != NULL) {
-        switch (top_type->tag) {
+        switch (kefir_ast_unqualified_type(top_type)->tag) {
             case KEFIR_AST_TYPE_STRUCTURE:
             case KEFIR_AST_TYPE_UNION:
             case KEFIR_AST_TYPE_ARRAY:
-- 
2.43.0


From c63e820ad3e40b0fcf4296f0dd6384eafcbac8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 22/73] fix: braced initializers of bit-fields

---
 source/ast-translator/initializer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/ast-translator/initializer.c b/source/ast-translator/initializer.c
index 9d51b24..5b34841 100644
--- a/source/ast-translator/initializer.c
+++ b/source/ast-translator/initializer.c
@@ -201,6 +201,11 @@ static kefir_result_t traverse_initializer_list(const struct kefir_ast_designato
         type_layout = param->translator_type->object.layout;
     }
 
+    if (KEFIR_AST_TYPE_IS_SCALAR_TYPE(type_layout->type)) {
+        // The member might be a bit-field, whose layout shall be preserved
+        return traverse_scalar(designator, kefir_ast_initializer_head(initializer), payload);
+    }
+
     REQUIRE_OK(translate_address(param->translator_type, designator, param->builder));
     REQUIRE_OK(
         kefir_ast_translate_initializer(param->mem, param->context, param->builder, type_layout->type, initializer));
-- 
2.43.0


From 8154d799c5ea91e759ac466d1eb37a08583f7116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 23/73] fix: statically initialized bit-field overwrites its
 neighbour

---
 source/ir/data.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/ir/data.c b/source/ir/data.c
index 9d1917d..b01f4d6 100644
--- a/source/ir/data.c
+++ b/source/ir/data.c
@@ -129,7 +129,7 @@ kefir_result_t kefir_ir_data_set_bitfield(struct kefir_ir_data *data, kefir_size
     if (width == 64) {
         currentValue = value;
     } else {
-        const kefir_uint64_t mask = (1ull << (width + 1)) - 1;
+        const kefir_uint64_t mask = (1ull << width) - 1;
         currentValue = currentValue & (~(mask << offset));
         currentValue |= (value & mask) << offset;
     }
-- 
2.43.0


From bbc186a2eba70a35661d25a244dcb1c0fe4487ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:02 +0000
Subject: [PATCH 24/73] fix: initialization of anonymous structure and union
 members

---
 source/ast/analyzer/type_traversal.c |  5 ++++-
 source/ast/initializer_traversal.c   | 14 +++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index f399952..af8975f 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -471,7 +471,10 @@ struct kefir_ast_designator *kefir_ast_type_traversal_layer_designator(
         case KEFIR_AST_TYPE_TRAVERSAL_STRUCTURE:
         case KEFIR_AST_TYPE_TRAVERSAL_UNION: {
             ASSIGN_DECL_CAST(struct kefir_ast_struct_field *, field, layer->structure.iterator->value);
-            if (field != NULL) {
+            if (field != NULL && field->identifier == NULL) {
+                // Members of anonymous structures/unions are designated as members of the containing type
+                designator = base;
+            } else if (field != NULL) {
                 designator = kefir_ast_new_member_designator(mem, symbols, field->identifier, base);
             }
         } break;
diff --git a/source/ast/initializer_traversal.c b/source/ast/initializer_traversal.c
index f8cb256..5e1f3a8 100644
--- a/source/ast/initializer_traversal.c
+++ b/source/ast/initializer_traversal.c
@@ -22,6 +22,7 @@
 #include "kefir/ast/analyzer/type_traversal.h"
 #include "kefir/ast/analyzer/analyzer.h"
 #include "kefir/ast/type.h"
+#include "kefir/core/linked_stack.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
@@ -183,9 +184,16 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
                     const struct kefir_ast_type *field_type = kefir_ast_unqualified_type(field->type);
                     if (field->identifier == NULL &&
                         (field_type->tag == KEFIR_AST_TYPE_STRUCTURE || field_type->tag == KEFIR_AST_TYPE_UNION)) {
-                        REQUIRE_OK(kefir_ast_type_traversal_step(mem, traversal));
-                        REQUIRE_OK(
-                            traverse_aggregate_union(mem, context, entry->value, traversal, initializer_traversal));
+                        struct kefir_ast_type_traversal nested_traversal;
+                        struct kefir_ast_type_traversal_layer *nested_layer = NULL;
+                        REQUIRE_OK(kefir_ast_type_traversal_init(mem, &nested_traversal, field_type));
+                        REQUIRE_OK(kefir_linked_stack_peek(&nested_traversal.stack, (void **) &nested_layer));
+                        if (nested_layer != NULL) {
+                            nested_layer->parent = layer;
+                        }
+                        res = traverse_aggregate_union(mem, context, entry->value, &nested_traversal,
+                                                       initializer_traversal);
+                        REQUIRE_OK(kefir_ast_type_traversal_free(mem, &nested_traversal));
                         anonymous_nested_aggregate_field = true;
                     }
                 }
-- 
2.43.0


From 73ead88a247b3e9684dd07bdd4d8443fa98580d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:30 +0000
Subject: [PATCH 25/73] fix: length of arrays initialized through nested
 designators

---
 source/ast/analyzer/type_traversal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/type_traversal.c b/source/ast/analyzer/type_traversal.c
index af8975f..ec4bcf0 100644
--- a/source/ast/analyzer/type_traversal.c
+++ b/source/ast/analyzer/type_traversal.c
@@ -423,7 +423,9 @@ kefir_result_t kefir_ast_type_traversal_navigate(struct kefir_mem *mem, struct k
     REQUIRE(traversal != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid traversal structure"));
     REQUIRE(designator != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AST designator"));
 
-    REQUIRE_OK(kefir_list_clear(mem, &traversal->stack));
+    while (kefir_list_length(&traversal->stack) > 0) {
+        REQUIRE_OK(pop_layer(mem, traversal));
+    }
     REQUIRE_OK(push_layer(mem, traversal, traversal->current_object_type, NULL));
     REQUIRE_OK(navigate_impl(mem, traversal, designator, false));
     return KEFIR_OK;
-- 
2.43.0


From eaa714b93713ba9a3ea7ba2cc03d5095ae808e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:22 +0000
Subject: [PATCH 26/73] fix: brace elision around array and function
 initializers of nested pointers

---
 source/ast/initializer_traversal.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/ast/initializer_traversal.c b/source/ast/initializer_traversal.c
index 5e1f3a8..f805154 100644
--- a/source/ast/initializer_traversal.c
+++ b/source/ast/initializer_traversal.c
@@ -219,14 +219,14 @@ static kefir_result_t traverse_aggregate_union(struct kefir_mem *mem, const stru
             REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &type, &layer));
             res = kefir_ast_node_assignable(mem, context, entry->value->expression, kefir_ast_unqualified_type(type));
             while (res == KEFIR_NO_MATCH) {
+                REQUIRE(!KEFIR_AST_TYPE_IS_SCALAR_TYPE(kefir_ast_unqualified_type(type)),
+                        KEFIR_SET_SOURCE_ERROR(
+                            KEFIR_ANALYSIS_ERROR, &entry->value->expression->source_location,
+                            "Initializer expression shall be convertible to corresponding field/element type"));
                 REQUIRE_OK(kefir_ast_type_traversal_step(mem, traversal));
                 REQUIRE_OK(kefir_ast_type_traversal_next(mem, traversal, &type, &layer));
-                REQUIRE_MATCH_OK(
-                    &res,
-                    kefir_ast_node_assignable(mem, context, entry->value->expression, kefir_ast_unqualified_type(type)),
-                    KEFIR_SET_SOURCE_ERROR(
-                        KEFIR_ANALYSIS_ERROR, &entry->value->expression->source_location,
-                        "Initializer expression shall be convertible to corresponding field/element type"));
+                res = kefir_ast_node_assignable(mem, context, entry->value->expression,
+                                                kefir_ast_unqualified_type(type));
             }
             REQUIRE_OK(res);
             REQUIRE_OK(layer_designator(mem, context->symbols, entry->designator, layer, &designator_layer));
-- 
2.43.0


From 9ae09795f33453bf5de6c641bd5502e8a92ea7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:37 +0000
Subject: [PATCH 27/73] fix: preprocessed output preserves literals and token
 boundaries

---
 source/preprocessor/format.c | 228 ++++++++++++++++++++++-------------
 1 file changed, 144 insertions(+), 84 deletions(-)

diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index ab29f7b..7d59a96 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -32,66 +32,67 @@
 #include <string.h>
 #include <stdio.h>
 
+static const char *const PUNCTUATORS[] = {[KEFIR_PUNCTUATOR_LEFT_BRACKET] = "[",
+                                          [KEFIR_PUNCTUATOR_RIGHT_BRACKET] = "]",
+                                          [KEFIR_PUNCTUATOR_LEFT_PARENTHESE] = "(",
+                                          [KEFIR_PUNCTUATOR_RIGHT_PARENTHESE] = ")",
+                                          [KEFIR_PUNCTUATOR_LEFT_BRACE] = "{",
+                                          [KEFIR_PUNCTUATOR_RIGHT_BRACE] = "}",
+                                          [KEFIR_PUNCTUATOR_DOT] = ".",
+                                          [KEFIR_PUNCTUATOR_RIGHT_ARROW] = "->",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_PLUS] = "++",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_MINUS] = "--",
+                                          [KEFIR_PUNCTUATOR_AMPERSAND] = "&",
+                                          [KEFIR_PUNCTUATOR_STAR] = "*",
+                                          [KEFIR_PUNCTUATOR_PLUS] = "+",
+                                          [KEFIR_PUNCTUATOR_MINUS] = "-",
+                                          [KEFIR_PUNCTUATOR_TILDE] = "~",
+                                          [KEFIR_PUNCTUATOR_EXCLAMATION_MARK] = "!",
+                                          [KEFIR_PUNCTUATOR_SLASH] = "/",
+                                          [KEFIR_PUNCTUATOR_PERCENT] = "%",
+                                          [KEFIR_PUNCTUATOR_LEFT_SHIFT] = "<<",
+                                          [KEFIR_PUNCTUATOR_RIGHT_SHIFT] = ">>",
+                                          [KEFIR_PUNCTUATOR_LESS_THAN] = "<",
+                                          [KEFIR_PUNCTUATOR_GREATER_THAN] = ">",
+                                          [KEFIR_PUNCTUATOR_LESS_OR_EQUAL] = "<=",
+                                          [KEFIR_PUNCTUATOR_GREATER_OR_EQUAL] = ">=",
+                                          [KEFIR_PUNCTUATOR_EQUAL] = "==",
+                                          [KEFIR_PUNCTUATOR_NOT_EQUAL] = "!=",
+                                          [KEFIR_PUNCTUATOR_CARET] = "^",
+                                          [KEFIR_PUNCTUATOR_VBAR] = "|",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_AMPERSAND] = "&&",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_VBAR] = "||",
+                                          [KEFIR_PUNCTUATOR_QUESTION_MARK] = "?",
+                                          [KEFIR_PUNCTUATOR_COLON] = ":",
+                                          [KEFIR_PUNCTUATOR_SEMICOLON] = ";",
+                                          [KEFIR_PUNCTUATOR_ELLIPSIS] = "...",
+                                          [KEFIR_PUNCTUATOR_ASSIGN] = "=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_MULTIPLY] = "*=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_DIVIDE] = "/=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_MODULO] = "%=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_ADD] = "+=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_SUBTRACT] = "-=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_LEFT] = "<<=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_RIGHT] = ">>=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_AND] = "&=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_XOR] = "^=",
+                                          [KEFIR_PUNCTUATOR_ASSIGN_OR] = "|=",
+                                          [KEFIR_PUNCTUATOR_COMMA] = ",",
+                                          [KEFIR_PUNCTUATOR_HASH] = "#",
+                                          [KEFIR_PUNCTUATOR_DOUBLE_HASH] = "##",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACKET] = "[",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACKET] = "]",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACE] = "{",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACE] = "}",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_HASH] = "#",
+                                          [KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH] = "##"};
+
 static kefir_result_t format_punctuator(FILE *out, kefir_punctuator_token_t punctuator) {
-    static const char *const PUNCTUATORS[] = {[KEFIR_PUNCTUATOR_LEFT_BRACKET] = "[",
-                                              [KEFIR_PUNCTUATOR_RIGHT_BRACKET] = "]",
-                                              [KEFIR_PUNCTUATOR_LEFT_PARENTHESE] = "(",
-                                              [KEFIR_PUNCTUATOR_RIGHT_PARENTHESE] = ")",
-                                              [KEFIR_PUNCTUATOR_LEFT_BRACE] = "{",
-                                              [KEFIR_PUNCTUATOR_RIGHT_BRACE] = "}",
-                                              [KEFIR_PUNCTUATOR_DOT] = ".",
-                                              [KEFIR_PUNCTUATOR_RIGHT_ARROW] = "->",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_PLUS] = "++",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_MINUS] = "--",
-                                              [KEFIR_PUNCTUATOR_AMPERSAND] = "&",
-                                              [KEFIR_PUNCTUATOR_STAR] = "*",
-                                              [KEFIR_PUNCTUATOR_PLUS] = "+",
-                                              [KEFIR_PUNCTUATOR_MINUS] = "-",
-                                              [KEFIR_PUNCTUATOR_TILDE] = "~",
-                                              [KEFIR_PUNCTUATOR_EXCLAMATION_MARK] = "!",
-                                              [KEFIR_PUNCTUATOR_SLASH] = "/",
-                                              [KEFIR_PUNCTUATOR_PERCENT] = "%",
-                                              [KEFIR_PUNCTUATOR_LEFT_SHIFT] = "<<",
-                                              [KEFIR_PUNCTUATOR_RIGHT_SHIFT] = ">>",
-                                              [KEFIR_PUNCTUATOR_LESS_THAN] = "<",
-                                              [KEFIR_PUNCTUATOR_GREATER_THAN] = ">",
-                                              [KEFIR_PUNCTUATOR_LESS_OR_EQUAL] = "<=",
-                                              [KEFIR_PUNCTUATOR_GREATER_OR_EQUAL] = ">=",
-                                              [KEFIR_PUNCTUATOR_EQUAL] = "==",
-                                              [KEFIR_PUNCTUATOR_NOT_EQUAL] = "!=",
-                                              [KEFIR_PUNCTUATOR_CARET] = "^",
-                                              [KEFIR_PUNCTUATOR_VBAR] = "|",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_AMPERSAND] = "&&",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_VBAR] = "||",
-                                              [KEFIR_PUNCTUATOR_QUESTION_MARK] = "?",
-                                              [KEFIR_PUNCTUATOR_COLON] = ":",
-                                              [KEFIR_PUNCTUATOR_SEMICOLON] = ";",
-                                              [KEFIR_PUNCTUATOR_ELLIPSIS] = "...",
-                                              [KEFIR_PUNCTUATOR_ASSIGN] = "=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_MULTIPLY] = "*=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_DIVIDE] = "/=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_MODULO] = "%=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_ADD] = "+=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SUBTRACT] = "-=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_LEFT] = "<<=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_SHIFT_RIGHT] = ">>=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_AND] = "&=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_XOR] = "^=",
-                                              [KEFIR_PUNCTUATOR_ASSIGN_OR] = "|=",
-                                              [KEFIR_PUNCTUATOR_COMMA] = ",",
-                                              [KEFIR_PUNCTUATOR_HASH] = "#",
-                                              [KEFIR_PUNCTUATOR_DOUBLE_HASH] = "##",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACKET] = "[",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACKET] = "]",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_LEFT_BRACE] = "{",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_RIGHT_BRACE] = "}",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_HASH] = "#",
-                                              [KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH] = "##"};
     fprintf(out, "%s", PUNCTUATORS[punctuator]);
     return KEFIR_OK;
 }
 
-static kefir_result_t format_char(FILE *out, char chr) {
+static kefir_result_t format_char(FILE *out, char chr, char next) {
     switch (chr) {
         case '\'':
             fprintf(out, "\\\'");
@@ -138,14 +139,14 @@ static kefir_result_t format_char(FILE *out, char chr) {
             break;
 
         case '\0':
-            fprintf(out, "\\0");
+            fprintf(out, isdigit((unsigned char) next) ? "\\000" : "\\0");
             break;
 
         default:
-            if (isprint(chr)) {
+            if (isprint((unsigned char) chr)) {
                 fprintf(out, "%c", chr);
             } else {
-                fprintf(out, "\\%03o", chr);
+                fprintf(out, "\\%03o", (unsigned char) chr);
             }
             break;
     }
@@ -228,33 +229,32 @@ static kefir_result_t format_constant(FILE *out, const struct kefir_token *token
 
         case KEFIR_CONSTANT_TOKEN_CHAR:
             fprintf(out, "'");
-            REQUIRE_OK(format_char(out, token->constant.character));
+            if (token->constant.character != (char) token->constant.character) {
+                // Multi-character constant
+                const kefir_uint32_t value = (kefir_uint32_t) token->constant.character;
+                for (int shift = 24; shift >= 8; shift -= 8) {
+                    if ((value >> shift) != 0) {
+                        REQUIRE_OK(format_char(out, (char) (value >> shift), (char) (value >> (shift - 8))));
+                    }
+                }
+            }
+            REQUIRE_OK(format_char(out, (char) token->constant.character, '\0'));
             fprintf(out, "'");
             break;
 
         case KEFIR_CONSTANT_TOKEN_WIDE_CHAR:
-            fprintf(out, "'");
+            fprintf(out, "L'");
             REQUIRE_OK(format_wchar(out, token->constant.wide_char));
             fprintf(out, "'");
             break;
 
-        case KEFIR_CONSTANT_TOKEN_UNICODE16_CHAR: {
-            char buffer[MB_LEN_MAX];
-            mbstate_t mbstate;
-            int sz = (int) c16rtomb(buffer, token->constant.unicode16_char, &mbstate);
-            REQUIRE(sz >= 0,
-                    KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert Unicode16 character to multibyte"));
-            fprintf(out, "%*s", sz, buffer);
-        } break;
-
-        case KEFIR_CONSTANT_TOKEN_UNICODE32_CHAR: {
-            char buffer[MB_LEN_MAX];
-            mbstate_t mbstate;
-            int sz = (int) c32rtomb(buffer, token->constant.unicode32_char, &mbstate);
-            REQUIRE(sz >= 0,
-                    KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to convert Unicode32 character to multibyte"));
-            fprintf(out, "%*s", sz, buffer);
-        } break;
+        case KEFIR_CONSTANT_TOKEN_UNICODE16_CHAR:
+            fprintf(out, "u'\\x%x'", (unsigned int) token->constant.unicode16_char);
+            break;
+
+        case KEFIR_CONSTANT_TOKEN_UNICODE32_CHAR:
+            fprintf(out, "U'\\x%x'", (unsigned int) token->constant.unicode32_char);
+            break;
     }
     return KEFIR_OK;
 }
@@ -267,8 +267,8 @@ static kefir_result_t format_string_literal(FILE *out, const struct kefir_token
         case KEFIR_STRING_LITERAL_TOKEN_MULTIBYTE:
             fprintf(out, "\"");
             for (kefir_size_t i = 0; i < token->string_literal.length - 1; i++) {
-                char chr = ((const char *) token->string_literal.literal)[i];
-                REQUIRE_OK(format_char(out, chr));
+                const char *chr = &((const char *) token->string_literal.literal)[i];
+                REQUIRE_OK(format_char(out, chr[0], chr[1]));
             }
             fprintf(out, "\"");
             break;
@@ -293,12 +293,14 @@ static kefir_result_t format_string_literal(FILE *out, const struct kefir_token
 
         case KEFIR_STRING_LITERAL_TOKEN_WIDE:
             fprintf(out, "L\"");
-            for (kefir_size_t i = 0; i < token->string_literal.length - 1; i++) {
+            for (kefir_size_t i = 0, escaped = false; i < token->string_literal.length - 1; i++) {
                 kefir_wchar_t chr = ((const kefir_wchar_t *) token->string_literal.literal)[i];
-                if (iswprint(chr)) {
-                    fprintf(out, "%lc", chr);
+                if (escaped && iswxdigit(chr)) {
+                    // Do not let the digit become a part of preceding numeric escape sequence
+                    fprintf(out, "\\x%x", (unsigned int) chr);
                 } else {
-                    fprintf(out, "\\x%x", chr);
+                    REQUIRE_OK(format_wchar(out, chr));
+                    escaped = chr == L'\0' || !iswprint(chr);
                 }
             }
             fprintf(out, "\"");
@@ -364,13 +366,71 @@ static kefir_result_t format_token(FILE *out, const struct kefir_token *token,
     return KEFIR_OK;
 }
 
+static kefir_bool_t punctuators_would_merge(const char *left, const char *right) {
+    const kefir_size_t left_length = strlen(left);
+    const kefir_bool_t comment = strcmp(left, "/") == 0 && (*right == '/' || *right == '*');
+    const kefir_bool_t digraph = (strcmp(left, "<") == 0 && (*right == ':' || *right == '%')) ||
+                                 (strcmp(left, "%") == 0 && (*right == ':' || *right == '>')) ||
+                                 (strcmp(left, ":") == 0 && *right == '>');
+    if (comment || digraph || (strcmp(left, ".") == 0 && *right == '.')) {
+        return true;
+    }
+    for (kefir_size_t i = 0; i < sizeof(PUNCTUATORS) / sizeof(PUNCTUATORS[0]); i++) {
+        if (PUNCTUATORS[i] != NULL && strlen(PUNCTUATORS[i]) > left_length &&
+            strncmp(PUNCTUATORS[i], left, left_length) == 0 &&
+            strncmp(PUNCTUATORS[i] + left_length, right, strlen(PUNCTUATORS[i]) - left_length) == 0) {
+            return true;
+        }
+    }
+    return false;
+}
+
+// Checks whether adjacent tokens would be tokenized differently unless separated by a whitespace
+static kefir_bool_t would_merge(const struct kefir_token *left, const struct kefir_token *right) {
+    switch (left->klass) {
+        case KEFIR_TOKEN_IDENTIFIER:
+            return right->klass == KEFIR_TOKEN_IDENTIFIER || right->klass == KEFIR_TOKEN_PP_NUMBER ||
+                   right->klass == KEFIR_TOKEN_CONSTANT || right->klass == KEFIR_TOKEN_STRING_LITERAL;
+
+        case KEFIR_TOKEN_PP_NUMBER:
+            if (right->klass == KEFIR_TOKEN_PUNCTUATOR) {
+                const char *punctuator = PUNCTUATORS[right->punctuator];
+                const char last_char = left->pp_number.number_literal[strlen(left->pp_number.number_literal) - 1];
+                return *punctuator == '.' || ((*punctuator == '+' || *punctuator == '-') &&
+                                              strchr("eEpP", last_char) != NULL && last_char != '\0');
+            }
+            return right->klass == KEFIR_TOKEN_IDENTIFIER || right->klass == KEFIR_TOKEN_PP_NUMBER;
+
+        case KEFIR_TOKEN_PUNCTUATOR:
+            if (right->klass == KEFIR_TOKEN_PP_NUMBER) {
+                return left->punctuator == KEFIR_PUNCTUATOR_DOT && right->pp_number.number_literal[0] != '.';
+            }
+            return right->klass == KEFIR_TOKEN_PUNCTUATOR &&
+                   punctuators_would_merge(PUNCTUATORS[left->punctuator], PUNCTUATORS[right->punctuator]);
+
+        default:
+            return false;
+    }
+}
+
 kefir_result_t kefir_preprocessor_format(FILE *out, const struct kefir_token_buffer *buffer,
                                          kefir_preprocessor_whitespace_format_t ws_format) {
     REQUIRE(out != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid FILE"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
 
+    const struct kefir_token *previous = NULL;
     for (kefir_size_t i = 0; i < buffer->length; i++) {
-        REQUIRE_OK(format_token(out, &buffer->tokens[i], ws_format));
+        const struct kefir_token *token = &buffer->tokens[i];
+        if (token->klass == KEFIR_TOKEN_PP_PLACEMAKER || token->klass == KEFIR_TOKEN_SENTINEL) {
+            continue;
+        }
+
+        if (ws_format == KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL && previous != NULL &&
+            would_merge(previous, token)) {
+            fprintf(out, " ");
+        }
+        REQUIRE_OK(format_token(out, token, ws_format));
+        previous = token;
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 35c67f6646ddc01851ecaef1d4e1ad1da2ddd65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:04 +0000
Subject: [PATCH 28/73] fix: nested macro self-references are suppressed,
 results of ## are not parameters

Mutually recursive macros were expanded forever, tokens produced by ## were
substituted again as parameters, and the digraph spellings of # and ## were
not recognised.
---
 headers/kefir/preprocessor/macro.h          |  13 ++
 headers/kefir/preprocessor/token_sequence.h |   4 +
 source/preprocessor/directives.c            |   6 +-
 source/preprocessor/substitutions.c         | 147 +++++++++++---------
 source/preprocessor/token_sequence.c        |  28 ++++
 source/preprocessor/user_macro.c            | 128 +++++++++++------
 6 files changed, 216 insertions(+), 110 deletions(-)

diff --git a/headers/kefir/preprocessor/macro.h b/headers/kefir/preprocessor/macro.h
index c20e971..0d3c0cb 100644
--- a/headers/kefir/preprocessor/macro.h
+++ b/headers/kefir/preprocessor/macro.h
@@ -31,6 +31,19 @@ typedef enum kefir_preprocessor_macro_type {
     KEFIR_PREPROCESSOR_MACRO_FUNCTION
 } kefir_preprocessor_macro_type_t;
 
+struct kefir_preprocessor;                 // Forward declaration
+struct kefir_preprocessor_token_sequence;  // Forward declaration
+
+typedef struct kefir_preprocessor_macro_argument {
+    struct kefir_token_buffer tokens;     // As spelled in the invocation
+    struct kefir_token_buffer expansion;  // Completely macro replaced, once requested
+    kefir_bool_t expanded;
+    struct kefir_preprocessor *preprocessor;
+    const struct kefir_preprocessor_token_sequence *context;
+} kefir_preprocessor_macro_argument_t;
+
+kefir_result_t kefir_preprocessor_macro_argument_expand(struct kefir_mem *, struct kefir_preprocessor_macro_argument *);
+
 typedef struct kefir_preprocessor_macro {
     const char *identifier;
     kefir_preprocessor_macro_type_t type;
diff --git a/headers/kefir/preprocessor/token_sequence.h b/headers/kefir/preprocessor/token_sequence.h
index 0957e01..62f8e72 100644
--- a/headers/kefir/preprocessor/token_sequence.h
+++ b/headers/kefir/preprocessor/token_sequence.h
@@ -26,6 +26,7 @@
 
 typedef struct kefir_preprocessor_token_sequence {
     struct kefir_list buffer_stack;
+    const struct kefir_preprocessor_token_sequence *parent;
 } kefir_preprocessor_token_sequence_t;
 
 kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_token_sequence *);
@@ -33,6 +34,9 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *, struct
 kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *,
                                                             struct kefir_preprocessor_token_sequence *,
                                                             struct kefir_token_buffer *);
+kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *,
+                                                            struct kefir_preprocessor_token_sequence *,
+                                                            struct kefir_token_buffer *, const char *);
 kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
                                                       struct kefir_token *);
 kefir_result_t kefir_preprocessor_token_sequence_shift(struct kefir_mem *, struct kefir_preprocessor_token_sequence *,
diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index f535102..116dfd4 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -142,14 +142,16 @@ kefir_result_t kefir_preprocessor_directive_scanner_match(
         directive_scanner->newline_flag = true;
         return KEFIR_OK;
     }
-    if (chr != U'#') {
+    const kefir_bool_t hash_digraph =
+        chr == U'%' && kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 1) == U':';
+    if (chr != U'#' && !hash_digraph) {
         REQUIRE_OK(kefir_lexer_source_cursor_restore(directive_scanner->lexer->cursor, &initial_state));
         *directive_type = KEFIR_PREPROCESSOR_DIRECTIVE_PP_TOKEN;
         directive_scanner->newline_flag = true;
         return KEFIR_OK;
     }
     REQUIRE_OK(kefir_lexer_source_cursor_save(directive_scanner->lexer->cursor, &hash_state));
-    REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, 1));
+    REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, hash_digraph ? 2 : 1));
     REQUIRE_OK(skip_whitespaces_until(directive_scanner->lexer->cursor, directive_scanner->lexer->context->newline));
     chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
     if (chr == directive_scanner->lexer->context->newline) {
diff --git a/source/preprocessor/substitutions.c b/source/preprocessor/substitutions.c
index 19bec05..19512e2 100644
--- a/source/preprocessor/substitutions.c
+++ b/source/preprocessor/substitutions.c
@@ -31,7 +31,7 @@ static kefir_result_t substitute_object_macro(struct kefir_mem *mem, struct kefi
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, NULL, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -40,6 +40,10 @@ static kefir_result_t substitute_object_macro(struct kefir_mem *mem, struct kefi
     return KEFIR_OK;
 }
 
+static kefir_result_t run_nested_substitutions(struct kefir_mem *, struct kefir_preprocessor *,
+                                               const struct kefir_preprocessor_token_sequence *,
+                                               struct kefir_token_buffer *, kefir_preprocessor_substitution_context_t);
+
 static kefir_result_t free_argument(struct kefir_mem *mem, struct kefir_list *list, struct kefir_list_entry *entry,
                                     void *payload) {
     UNUSED(list);
@@ -47,64 +51,65 @@ static kefir_result_t free_argument(struct kefir_mem *mem, struct kefir_list *li
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(entry != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid list entry"));
 
-    ASSIGN_DECL_CAST(struct kefir_token_buffer *, buffer, entry->value);
-    REQUIRE_OK(kefir_token_buffer_free(mem, buffer));
-    KEFIR_FREE(mem, buffer);
+    ASSIGN_DECL_CAST(struct kefir_preprocessor_macro_argument *, argument, entry->value);
+    REQUIRE_OK(kefir_token_buffer_free(mem, &argument->tokens));
+    REQUIRE_OK(kefir_token_buffer_free(mem, &argument->expansion));
+    KEFIR_FREE(mem, argument);
+    return KEFIR_OK;
+}
+
+static kefir_result_t function_macro_arguments_push(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                    const struct kefir_preprocessor_token_sequence *seq,
+                                                    struct kefir_list *args) {
+    struct kefir_preprocessor_macro_argument *argument =
+        KEFIR_MALLOC(mem, sizeof(struct kefir_preprocessor_macro_argument));
+    REQUIRE(argument != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate macro argument"));
+    kefir_result_t res = kefir_token_buffer_init(&argument->tokens);
+    REQUIRE_CHAIN(&res, kefir_token_buffer_init(&argument->expansion));
+    argument->expanded = false;
+    argument->preprocessor = preprocessor;
+    argument->context = seq;
+    REQUIRE_CHAIN(&res, kefir_list_insert_after(mem, args, kefir_list_tail(args), argument));
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_FREE(mem, argument);
+        return res;
+    });
     return KEFIR_OK;
 }
 
 static kefir_result_t function_macro_argument_buffer_append(struct kefir_mem *mem,
+                                                            struct kefir_preprocessor *preprocessor,
                                                             struct kefir_preprocessor_token_sequence *seq,
                                                             struct kefir_list *args) {
-    struct kefir_list_entry *tail = kefir_list_tail(args);
-    struct kefir_token_buffer *buffer = NULL;
-    if (tail == NULL) {
-        buffer = KEFIR_MALLOC(mem, sizeof(struct kefir_token_buffer));
-        REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate token buffer"));
-        kefir_result_t res = kefir_token_buffer_init(buffer);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            KEFIR_FREE(mem, buffer);
-            return res;
-        });
-        res = kefir_list_insert_after(mem, args, tail, buffer);
-        REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_token_buffer_free(mem, buffer);
-            KEFIR_FREE(mem, buffer);
-            return res;
-        });
-    } else {
-        buffer = tail->value;
+    if (kefir_list_length(args) == 0) {
+        REQUIRE_OK(function_macro_arguments_push(mem, preprocessor, seq, args));
     }
-    REQUIRE_OK(kefir_preprocessor_token_sequence_shift(mem, seq, buffer));
-    return KEFIR_OK;
-}
-
-static kefir_result_t function_macro_arguments_push(struct kefir_mem *mem, struct kefir_list *args) {
-    struct kefir_token_buffer *buffer = KEFIR_MALLOC(mem, sizeof(struct kefir_token_buffer));
-    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate token buffer"));
-    kefir_result_t res = kefir_token_buffer_init(buffer);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        KEFIR_FREE(mem, buffer);
-        return res;
-    });
-    res = kefir_list_insert_after(mem, args, kefir_list_tail(args), buffer);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, buffer);
-        KEFIR_FREE(mem, buffer);
-        return res;
-    });
+    ASSIGN_DECL_CAST(struct kefir_preprocessor_macro_argument *, argument, kefir_list_tail(args)->value);
+    REQUIRE_OK(kefir_preprocessor_token_sequence_shift(mem, seq, &argument->tokens));
     return KEFIR_OK;
 }
 
-static kefir_result_t prepare_function_macro_argument(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
-                                                      struct kefir_token_buffer *buffer) {
-    REQUIRE_OK(kefir_preprocessor_run_substitutions(mem, preprocessor, buffer, KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
+static kefir_result_t trim_trailing_whitespaces(struct kefir_mem *mem, struct kefir_token_buffer *buffer) {
     while (buffer->length > 0 && buffer->tokens[buffer->length - 1].klass == KEFIR_TOKEN_PP_WHITESPACE) {
         REQUIRE_OK(kefir_token_buffer_pop(mem, buffer));
     }
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_preprocessor_macro_argument_expand(struct kefir_mem *mem,
+                                                        struct kefir_preprocessor_macro_argument *argument) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(argument != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid macro argument"));
+    REQUIRE(!argument->expanded, KEFIR_OK);
+
+    REQUIRE_OK(kefir_token_buffer_copy(mem, &argument->expansion, &argument->tokens));
+    REQUIRE_OK(run_nested_substitutions(mem, argument->preprocessor, argument->context, &argument->expansion,
+                                        KEFIR_PREPROCESSOR_SUBSTITUTION_NORMAL));
+    REQUIRE_OK(trim_trailing_whitespaces(mem, &argument->expansion));
+    argument->expanded = true;
+    return KEFIR_OK;
+}
+
 static kefir_result_t scan_function_macro_arguments(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
                                                     struct kefir_preprocessor_token_sequence *seq,
                                                     struct kefir_list *args, kefir_size_t argc, kefir_bool_t vararg) {
@@ -125,11 +130,11 @@ static kefir_result_t scan_function_macro_arguments(struct kefir_mem *mem, struc
 
         if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_LEFT_PARENTHESE) {
             nested_parens++;
-            REQUIRE_OK(function_macro_argument_buffer_append(mem, seq, args));
+            REQUIRE_OK(function_macro_argument_buffer_append(mem, preprocessor, seq, args));
         } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
             if (nested_parens > 0) {
                 nested_parens--;
-                REQUIRE_OK(function_macro_argument_buffer_append(mem, seq, args));
+                REQUIRE_OK(function_macro_argument_buffer_append(mem, preprocessor, seq, args));
             } else {
                 scan_args = false;
             }
@@ -137,22 +142,22 @@ static kefir_result_t scan_function_macro_arguments(struct kefir_mem *mem, struc
                    nested_parens == 0) {
             if (remaining_args == 0) {
                 REQUIRE(vararg, KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, NULL, "Unexpected comma"));
-                REQUIRE_OK(function_macro_argument_buffer_append(mem, seq, args));
+                REQUIRE_OK(function_macro_argument_buffer_append(mem, preprocessor, seq, args));
             } else {
                 remaining_args--;
                 REQUIRE(remaining_args > 0 || vararg,
                         KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, NULL, "Unexpected comma"));
                 if (kefir_list_length(args) == 0) {
-                    REQUIRE_OK(function_macro_arguments_push(mem, args));
+                    REQUIRE_OK(function_macro_arguments_push(mem, preprocessor, seq, args));
                 }
-                REQUIRE_OK(function_macro_arguments_push(mem, args));
+                REQUIRE_OK(function_macro_arguments_push(mem, preprocessor, seq, args));
                 REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
                 REQUIRE_OK(kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, NULL, NULL));
             }
         } else if (token->klass == KEFIR_TOKEN_SENTINEL) {
             scan_args = false;
         } else {
-            REQUIRE_OK(function_macro_argument_buffer_append(mem, seq, args));
+            REQUIRE_OK(function_macro_argument_buffer_append(mem, preprocessor, seq, args));
         }
     }
 
@@ -161,14 +166,14 @@ static kefir_result_t scan_function_macro_arguments(struct kefir_mem *mem, struc
     REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
 
     if (kefir_list_length(args) == 0 && (argc == 1 || vararg)) {
-        REQUIRE_OK(function_macro_arguments_push(mem, args));
+        REQUIRE_OK(function_macro_arguments_push(mem, preprocessor, seq, args));
     }
     REQUIRE(kefir_list_length(args) == argc + (vararg ? 1 : 0),
             KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, NULL, "Argument count mismatch"));
 
     for (const struct kefir_list_entry *iter = kefir_list_head(args); iter != NULL; kefir_list_next(&iter)) {
-        ASSIGN_DECL_CAST(struct kefir_token_buffer *, arg_buffer, iter->value);
-        REQUIRE_OK(prepare_function_macro_argument(mem, preprocessor, arg_buffer));
+        ASSIGN_DECL_CAST(struct kefir_preprocessor_macro_argument *, argument, iter->value);
+        REQUIRE_OK(trim_trailing_whitespaces(mem, &argument->tokens));
     }
     return KEFIR_OK;
 }
@@ -180,7 +185,7 @@ static kefir_result_t apply_function_macro(struct kefir_mem *mem, struct kefir_p
     struct kefir_token_buffer subst_buf;
     REQUIRE_OK(kefir_token_buffer_init(&subst_buf));
     kefir_result_t res = macro->apply(mem, macro, preprocessor->lexer.symbols, args, &subst_buf, source_location);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &subst_buf));
+    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_macro(mem, seq, &subst_buf, macro->identifier));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &subst_buf);
         return res;
@@ -368,11 +373,14 @@ static kefir_result_t run_substitutions(struct kefir_mem *mem, struct kefir_prep
             REQUIRE_OK(res);
 
             kefir_result_t res = KEFIR_NO_MATCH;
-            if (token.klass == KEFIR_TOKEN_IDENTIFIER &&
-                (!token.preprocessor_props.skip_identifier_subst ||
-                 subst_context == KEFIR_PREPROCESSOR_SUBSTITUTION_IF_CONDITION)) {
-                res = substitute_identifier(mem, preprocessor, seq, token.identifier, subst_context,
-                                            &token.source_location);
+            if (token.klass == KEFIR_TOKEN_IDENTIFIER) {
+                if (!token.preprocessor_props.skip_identifier_subst) {
+                    res = substitute_identifier(mem, preprocessor, seq, token.identifier, subst_context,
+                                                &token.source_location);
+                }
+                if (res == KEFIR_NO_MATCH) {
+                    res = substitute_unknown_identifier(mem, seq, subst_context, &token.source_location);
+                }
                 REQUIRE_CHAIN(&res, kefir_token_free(mem, &token));
             }
 
@@ -449,15 +457,13 @@ static kefir_result_t run_substitutions_impl(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
-                                                    struct kefir_token_buffer *buffer,
-                                                    kefir_preprocessor_substitution_context_t subst_context) {
-    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
-    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
-    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
-
+static kefir_result_t run_nested_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                               const struct kefir_preprocessor_token_sequence *parent,
+                                               struct kefir_token_buffer *buffer,
+                                               kefir_preprocessor_substitution_context_t subst_context) {
     struct kefir_preprocessor_token_sequence seq;
     REQUIRE_OK(kefir_preprocessor_token_sequence_init(&seq));
+    seq.parent = parent;
     kefir_result_t res = run_substitutions_impl(mem, preprocessor, buffer, &seq, subst_context);
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_preprocessor_token_sequence_free(mem, &seq);
@@ -466,3 +472,14 @@ kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struc
     REQUIRE_OK(kefir_preprocessor_token_sequence_free(mem, &seq));
     return KEFIR_OK;
 }
+
+kefir_result_t kefir_preprocessor_run_substitutions(struct kefir_mem *mem, struct kefir_preprocessor *preprocessor,
+                                                    struct kefir_token_buffer *buffer,
+                                                    kefir_preprocessor_substitution_context_t subst_context) {
+    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
+    REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
+    REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid tokem buffer"));
+
+    REQUIRE_OK(run_nested_substitutions(mem, preprocessor, NULL, buffer, subst_context));
+    return KEFIR_OK;
+}
diff --git a/source/preprocessor/token_sequence.c b/source/preprocessor/token_sequence.c
index b868ff1..713f28a 100644
--- a/source/preprocessor/token_sequence.c
+++ b/source/preprocessor/token_sequence.c
@@ -21,10 +21,12 @@
 #include "kefir/preprocessor/token_sequence.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include <string.h>
 
 struct buffer_element {
     struct kefir_token_buffer buffer;
     kefir_size_t index;
+    const char *macro;
 };
 
 static kefir_result_t free_token_buffer(struct kefir_mem *mem, struct kefir_list *list, struct kefir_list_entry *entry,
@@ -45,6 +47,7 @@ kefir_result_t kefir_preprocessor_token_sequence_init(struct kefir_preprocessor_
 
     REQUIRE_OK(kefir_list_init(&seq->buffer_stack));
     REQUIRE_OK(kefir_list_on_remove(&seq->buffer_stack, free_token_buffer, NULL));
+    seq->parent = NULL;
     return KEFIR_OK;
 }
 
@@ -60,6 +63,13 @@ kefir_result_t kefir_preprocessor_token_sequence_free(struct kefir_mem *mem,
 kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *mem,
                                                             struct kefir_preprocessor_token_sequence *seq,
                                                             struct kefir_token_buffer *src) {
+    REQUIRE_OK(kefir_preprocessor_token_sequence_push_macro(mem, seq, src, NULL));
+    return KEFIR_OK;
+}
+
+kefir_result_t kefir_preprocessor_token_sequence_push_macro(struct kefir_mem *mem,
+                                                            struct kefir_preprocessor_token_sequence *seq,
+                                                            struct kefir_token_buffer *src, const char *macro) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(seq != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token sequence"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
@@ -78,6 +88,7 @@ kefir_result_t kefir_preprocessor_token_sequence_push_front(struct kefir_mem *me
         return res;
     });
     buffer_elt->index = 0;
+    buffer_elt->macro = macro;
 
     res = kefir_list_insert_after(mem, &seq->buffer_stack, kefir_list_tail(&seq->buffer_stack), buffer_elt);
     REQUIRE_ELSE(res == KEFIR_OK, {
@@ -103,6 +114,20 @@ static kefir_result_t next_buffer_elt(struct kefir_mem *mem, struct kefir_prepro
     return KEFIR_OK;
 }
 
+static kefir_bool_t is_macro_being_replaced(const struct kefir_preprocessor_token_sequence *seq,
+                                            const char *identifier) {
+    for (; seq != NULL; seq = seq->parent) {
+        for (const struct kefir_list_entry *iter = kefir_list_head(&seq->buffer_stack); iter != NULL;
+             kefir_list_next(&iter)) {
+            ASSIGN_DECL_CAST(const struct buffer_element *, buffer_elt, iter->value);
+            if (buffer_elt->macro != NULL && strcmp(buffer_elt->macro, identifier) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *mem,
                                                       struct kefir_preprocessor_token_sequence *seq,
                                                       struct kefir_token *token_ptr) {
@@ -113,6 +138,9 @@ kefir_result_t kefir_preprocessor_token_sequence_next(struct kefir_mem *mem,
     REQUIRE_OK(next_buffer_elt(mem, seq, &buffer_elt));
     if (token_ptr != NULL) {
         REQUIRE_OK(kefir_token_move(token_ptr, &buffer_elt->buffer.tokens[buffer_elt->index]));
+        if (token_ptr->klass == KEFIR_TOKEN_IDENTIFIER && is_macro_being_replaced(seq, token_ptr->identifier)) {
+            token_ptr->preprocessor_props.skip_identifier_subst = true;
+        }
     }
     buffer_elt->index++;
     return KEFIR_OK;
diff --git a/source/preprocessor/user_macro.c b/source/preprocessor/user_macro.c
index e2c1012..1b0e511 100644
--- a/source/preprocessor/user_macro.c
+++ b/source/preprocessor/user_macro.c
@@ -51,7 +51,7 @@ static kefir_result_t build_function_macro_args_tree(struct kefir_mem *mem,
         REQUIRE(arg_iter != NULL,
                 KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Provided macro arguments do no match macro parameters"));
         const char *arg_identifier = id_iter->value;
-        struct kefir_token_buffer *arg_value = arg_iter->value;
+        struct kefir_preprocessor_macro_argument *arg_value = arg_iter->value;
 
         REQUIRE_OK(kefir_hashtree_insert(mem, arg_tree, (kefir_hashtree_key_t) arg_identifier,
                                          (kefir_hashtree_value_t) arg_value));
@@ -60,7 +60,7 @@ static kefir_result_t build_function_macro_args_tree(struct kefir_mem *mem,
     if (user_macro->vararg) {
         REQUIRE(arg_iter != NULL,
                 KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Provided macro arguments do no match macro parameters"));
-        const struct kefir_token_buffer *arg_value = arg_iter->value;
+        const struct kefir_preprocessor_macro_argument *arg_value = arg_iter->value;
         REQUIRE_OK(kefir_hashtree_insert(mem, arg_tree, (kefir_hashtree_key_t) "__VA_ARGS__",
                                          (kefir_hashtree_value_t) arg_value));
     }
@@ -74,7 +74,9 @@ static kefir_result_t fn_macro_parameter_substitution(struct kefir_mem *mem, con
     if (res != KEFIR_NOT_FOUND) {
         REQUIRE_OK(res);
 
-        ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
+        ASSIGN_DECL_CAST(struct kefir_preprocessor_macro_argument *, arg, node->value);
+        REQUIRE_OK(kefir_preprocessor_macro_argument_expand(mem, arg));
+        const struct kefir_token_buffer *arg_buffer = &arg->expansion;
         for (kefir_size_t i = 0; i < arg_buffer->length; i++) {
             struct kefir_token token_copy;
             REQUIRE_OK(kefir_token_copy(mem, &token_copy, &arg_buffer->tokens[i]));
@@ -101,7 +103,9 @@ static kefir_result_t fn_macro_parameter_stringification(struct kefir_mem *mem,
     } else {
         REQUIRE_OK(res);
     }
-    ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
+    ASSIGN_DECL_CAST(struct kefir_preprocessor_macro_argument *, arg, node->value);
+    REQUIRE_OK(kefir_preprocessor_macro_argument_expand(mem, arg));
+    const struct kefir_token_buffer *arg_buffer = &arg->expansion;
 
     char *string = NULL;
     kefir_size_t string_sz = 0;
@@ -134,7 +138,9 @@ static kefir_result_t concat_resolve_left_argument(struct kefir_mem *mem, const
         kefir_result_t res = kefir_hashtree_at(arg_tree, (kefir_hashtree_key_t) arg->identifier, &node);
         if (res != KEFIR_NOT_FOUND) {
             REQUIRE_OK(res);
-            ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
+            ASSIGN_DECL_CAST(struct kefir_preprocessor_macro_argument *, macro_arg, node->value);
+            REQUIRE_OK(kefir_preprocessor_macro_argument_expand(mem, macro_arg));
+            const struct kefir_token_buffer *arg_buffer = &macro_arg->expansion;
 
             if (arg_buffer->length == 0) {
                 *result = &PlacemakerToken;
@@ -166,7 +172,9 @@ static kefir_result_t concat_resolve_right_argument(struct kefir_mem *mem, const
         kefir_result_t res = kefir_hashtree_at(arg_tree, (kefir_hashtree_key_t) arg->identifier, &node);
         if (res != KEFIR_NOT_FOUND) {
             REQUIRE_OK(res);
-            ASSIGN_DECL_CAST(const struct kefir_token_buffer *, arg_buffer, node->value);
+            ASSIGN_DECL_CAST(struct kefir_preprocessor_macro_argument *, macro_arg, node->value);
+            REQUIRE_OK(kefir_preprocessor_macro_argument_expand(mem, macro_arg));
+            const struct kefir_token_buffer *arg_buffer = &macro_arg->expansion;
 
             if (arg_buffer->length == 0) {
                 *result = &PlacemakerToken;
@@ -388,11 +396,9 @@ static kefir_result_t macro_concatenation_impl(struct kefir_mem *mem, struct kef
 
 static kefir_result_t macro_concatenation(struct kefir_mem *mem, const struct kefir_hashtree *arg_tree,
                                           struct kefir_symbol_table *symbols, struct kefir_token_buffer *buffer,
-                                          const struct kefir_token *arg1, const struct kefir_token *arg2) {
-    const struct kefir_token *left;
+                                          const struct kefir_token *left, const struct kefir_token *arg2) {
     const struct kefir_token *right;
     struct kefir_token_buffer tail;
-    REQUIRE_OK(concat_resolve_left_argument(mem, arg_tree, buffer, arg1, &left));
     REQUIRE_OK(kefir_token_buffer_init(&tail));
     kefir_result_t res = concat_resolve_right_argument(mem, arg_tree, &tail, arg2, &right);
     REQUIRE_CHAIN(&res, macro_concatenation_impl(mem, symbols, buffer, left, right));
@@ -405,52 +411,89 @@ static kefir_result_t macro_concatenation(struct kefir_mem *mem, const struct ke
     return KEFIR_OK;
 }
 
-static kefir_result_t match_concatenation(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
-                                          struct kefir_preprocessor_token_sequence *seq,
-                                          const struct kefir_hashtree *arg_tree, struct kefir_token *left_operand) {
-    if (left_operand->klass == KEFIR_TOKEN_PP_WHITESPACE) {
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match preprocessor concatenation");
-    }
+static kefir_bool_t is_concatenation_operator(const struct kefir_token *token) {
+    return token->klass == KEFIR_TOKEN_PUNCTUATOR && (token->punctuator == KEFIR_PUNCTUATOR_DOUBLE_HASH ||
+                                                      token->punctuator == KEFIR_PUNCTUATOR_DIGRAPH_DOUBLE_HASH);
+}
+
+static kefir_bool_t is_stringification_operator(const struct kefir_token *token) {
+    return token->klass == KEFIR_TOKEN_PUNCTUATOR &&
+           (token->punctuator == KEFIR_PUNCTUATOR_HASH || token->punctuator == KEFIR_PUNCTUATOR_DIGRAPH_HASH);
+}
 
+static kefir_result_t skip_concatenation_operator(struct kefir_mem *mem, struct kefir_preprocessor_token_sequence *seq,
+                                                  struct kefir_source_location *source_location) {
     const struct kefir_token *next_nonws_token = NULL;
     struct kefir_token_buffer whitespaces;
     REQUIRE_OK(kefir_token_buffer_init(&whitespaces));
     kefir_result_t res = kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &next_nonws_token, &whitespaces);
+    if (res == KEFIR_OK && (next_nonws_token == NULL || !is_concatenation_operator(next_nonws_token))) {
+        res = kefir_preprocessor_token_sequence_push_front(mem, seq, &whitespaces);
+        REQUIRE_CHAIN(&res, KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match preprocessor concatenation"));
+    }
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_token_buffer_free(mem, &whitespaces);
         return res;
     });
-    if (next_nonws_token == NULL || next_nonws_token->klass != KEFIR_TOKEN_PUNCTUATOR ||
-        next_nonws_token->punctuator != KEFIR_PUNCTUATOR_DOUBLE_HASH) {
-        res = kefir_preprocessor_token_sequence_push_front(mem, seq, &whitespaces);
+    *source_location = next_nonws_token->source_location;
+    REQUIRE_OK(kefir_token_buffer_free(mem, &whitespaces));
+    REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
+    return KEFIR_OK;
+}
+
+static kefir_result_t match_concatenation_impl(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
+                                               struct kefir_preprocessor_token_sequence *seq,
+                                               const struct kefir_hashtree *arg_tree,
+                                               const struct kefir_token *left_operand,
+                                               struct kefir_source_location *source_location,
+                                               struct kefir_token_buffer *result) {
+    // Result of concatenation is the left operand of the following concatenation, and is never a macro parameter
+    const struct kefir_token *left = NULL;
+    struct kefir_token left_copy;
+    REQUIRE_OK(concat_resolve_left_argument(mem, arg_tree, result, left_operand, &left));
+    REQUIRE_OK(kefir_token_copy(mem, &left_copy, left));
+    kefir_result_t res = KEFIR_OK;
+    while (res == KEFIR_OK) {
+        const struct kefir_token *right_operand = NULL;
+        res = kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &right_operand, NULL);
+        if (res == KEFIR_OK && right_operand == NULL) {
+            res = KEFIR_SET_SOURCE_ERROR(
+                KEFIR_LEXER_ERROR, source_location,
+                "Preprocessor concatenation operator cannot be placed at the end of replacement list");
+        }
+        REQUIRE_CHAIN(&res, macro_concatenation(mem, arg_tree, symbols, result, &left_copy, right_operand));
+        REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_next(mem, seq, NULL));
         REQUIRE_ELSE(res == KEFIR_OK, {
-            kefir_token_buffer_free(mem, &whitespaces);
+            kefir_token_free(mem, &left_copy);
             return res;
         });
-        REQUIRE_OK(kefir_token_buffer_free(mem, &whitespaces));
+        REQUIRE_OK(kefir_token_free(mem, &left_copy));
+
+        res = skip_concatenation_operator(mem, seq, source_location);
+        if (res == KEFIR_OK) {
+            REQUIRE_OK(kefir_token_copy(mem, &left_copy, &result->tokens[result->length - 1]));
+            res = kefir_token_buffer_pop(mem, result);
+        }
+    }
+    REQUIRE(res == KEFIR_NO_MATCH, res);
+    return KEFIR_OK;
+}
+
+static kefir_result_t match_concatenation(struct kefir_mem *mem, struct kefir_symbol_table *symbols,
+                                          struct kefir_preprocessor_token_sequence *seq,
+                                          const struct kefir_hashtree *arg_tree, struct kefir_token *left_operand,
+                                          struct kefir_token_buffer *result) {
+    if (left_operand->klass == KEFIR_TOKEN_PP_WHITESPACE) {
         return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Unable to match preprocessor concatenation");
     }
-    struct kefir_source_location source_location = next_nonws_token->source_location;
-    REQUIRE_OK(kefir_token_buffer_free(mem, &whitespaces));
-    REQUIRE_OK(kefir_preprocessor_token_sequence_next(mem, seq, NULL));
 
-    const struct kefir_token *right_operand = NULL;
-    REQUIRE_OK(kefir_preprocessor_token_sequence_skip_whitespaces(mem, seq, &right_operand, NULL));
-    REQUIRE(
-        right_operand != NULL,
-        KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &source_location,
-                               "Preprocessor concatenation operator cannot be placed at the end of replacement list"));
-
-    struct kefir_token_buffer result;
-    REQUIRE_OK(kefir_token_buffer_init(&result));
-    res = macro_concatenation(mem, arg_tree, symbols, &result, left_operand, right_operand);
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_next(mem, seq, NULL));
-    REQUIRE_CHAIN(&res, kefir_preprocessor_token_sequence_push_front(mem, seq, &result));
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_token_buffer_free(mem, &result);
-        return res;
-    });
-    REQUIRE_OK(kefir_token_buffer_free(mem, &result));
+    struct kefir_source_location source_location;
+    REQUIRE_OK(skip_concatenation_operator(mem, seq, &source_location));
+    kefir_result_t res =
+        match_concatenation_impl(mem, symbols, seq, arg_tree, left_operand, &source_location, result);
+    REQUIRE(res != KEFIR_NO_MATCH,
+            KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unexpected result of preprocessor concatenation"));
+    REQUIRE_OK(res);
     REQUIRE_OK(kefir_token_free(mem, left_operand));
     return KEFIR_OK;
 }
@@ -469,7 +512,7 @@ static kefir_result_t run_replacement_list_substitutions_impl(struct kefir_mem *
         }
 
         kefir_bool_t matched = false;
-        res = match_concatenation(mem, symbols, seq, arg_tree, &current_token);
+        res = match_concatenation(mem, symbols, seq, arg_tree, &current_token, result);
         if (res != KEFIR_NO_MATCH) {
             REQUIRE_ELSE(res == KEFIR_OK, {
                 kefir_token_free(mem, &current_token);
@@ -490,8 +533,7 @@ static kefir_result_t run_replacement_list_substitutions_impl(struct kefir_mem *
             }
         }
 
-        if (!matched && arg_tree != NULL && current_token.klass == KEFIR_TOKEN_PUNCTUATOR &&
-            current_token.punctuator == KEFIR_PUNCTUATOR_HASH) {
+        if (!matched && arg_tree != NULL && is_stringification_operator(&current_token)) {
             struct kefir_source_location source_location = current_token.source_location;
             const struct kefir_token *param_token = NULL;
             REQUIRE_OK(kefir_token_free(mem, &current_token));
-- 
2.43.0


From fdf927f90be0ec4e13a51a79f126e2aad9a7bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:31 +0000
Subject: [PATCH 29/73] fix: comments are white space around directives and in
 skipped lines

A comment before '#' or between '#' and the directive name hid the directive,
and skipping the rest of a line stopped inside a multi-line comment.
---
 source/preprocessor/directives.c | 63 ++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index 116dfd4..7fa8964 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -63,16 +63,59 @@ kefir_result_t kefir_preprocessor_directive_scanner_restore(
     return KEFIR_OK;
 }
 
+static kefir_result_t skip_comment(struct kefir_lexer_source_cursor *cursor, kefir_char32_t terminator,
+                                   kefir_bool_t *skipped) {
+    *skipped = false;
+    REQUIRE(kefir_lexer_source_cursor_at(cursor, 0) == U'/', KEFIR_OK);
+
+    kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 1);
+    if (chr == U'*') {
+        struct kefir_source_location location = cursor->location;
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 2));
+        chr = kefir_lexer_source_cursor_at(cursor, 0);
+        while (chr != U'*' || kefir_lexer_source_cursor_at(cursor, 1) != U'/') {
+            REQUIRE(chr != U'\0',
+                    KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &location, "Expected end of multiline comment"));
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+            chr = kefir_lexer_source_cursor_at(cursor, 0);
+        }
+        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 2));
+        *skipped = true;
+    } else if (chr == U'/') {
+        while (chr != U'\0' && chr != terminator) {
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+            chr = kefir_lexer_source_cursor_at(cursor, 0);
+        }
+        *skipped = true;
+    }
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_preprocessor_directive_scanner_skip_line(
     struct kefir_preprocessor_directive_scanner *directive_scanner) {
+    struct kefir_lexer_source_cursor *cursor = directive_scanner->lexer->cursor;
+    const kefir_char32_t newline = directive_scanner->lexer->context->newline;
+    kefir_char32_t quote = U'\0';
     kefir_bool_t skip = true;
     while (skip) {
-        kefir_char32_t chr = kefir_lexer_source_cursor_at(directive_scanner->lexer->cursor, 0);
+        kefir_bool_t comment = false;
+        if (quote == U'\0') {
+            REQUIRE_OK(skip_comment(cursor, newline, &comment));
+        }
+
+        kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
         if (chr == U'\0') {
             skip = false;
-        } else {
-            skip = chr != directive_scanner->lexer->context->newline;
-            REQUIRE_OK(kefir_lexer_source_cursor_next(directive_scanner->lexer->cursor, 1));
+        } else if (!comment) {
+            skip = chr != newline;
+            if (quote != U'\0' && chr == U'\\' && kefir_lexer_source_cursor_at(cursor, 1) != newline) {
+                REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+            } else if (chr == quote) {
+                quote = U'\0';
+            } else if (quote == U'\0' && (chr == U'"' || chr == U'\'')) {
+                quote = chr;
+            }
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
         }
     }
     directive_scanner->newline_flag = true;
@@ -115,10 +158,14 @@ static kefir_result_t scan_pp_tokens(struct kefir_mem *mem,
 }
 
 static kefir_result_t skip_whitespaces_until(struct kefir_lexer_source_cursor *cursor, kefir_char32_t terminator) {
-    kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
-    while (kefir_isspace32(chr) && chr != terminator) {
-        REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
-        chr = kefir_lexer_source_cursor_at(cursor, 0);
+    kefir_bool_t skip = true;
+    while (skip) {
+        kefir_char32_t chr = kefir_lexer_source_cursor_at(cursor, 0);
+        if (kefir_isspace32(chr) && chr != terminator) {
+            REQUIRE_OK(kefir_lexer_source_cursor_next(cursor, 1));
+        } else {
+            REQUIRE_OK(skip_comment(cursor, terminator, &skip));
+        }
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From bfa249cf3c090bf372cc93f754173436ad523ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 30/73] fix: JSON output escapes control characters and
 malformed byte sequences

---
 source/util/json.c | 138 +++++++++++++++++----------------------------
 1 file changed, 53 insertions(+), 85 deletions(-)

diff --git a/source/util/json.c b/source/util/json.c
index 3b3b923..2589112 100644
--- a/source/util/json.c
+++ b/source/util/json.c
@@ -22,7 +22,6 @@
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
 #include <string.h>
-#include <uchar.h>
 
 kefir_result_t kefir_json_output_init(struct kefir_json_output *json, FILE *file, kefir_size_t indent) {
     REQUIRE(json != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid json output"));
@@ -175,56 +174,82 @@ kefir_result_t kefir_json_output_array_end(struct kefir_json_output *json) {
     return KEFIR_OK;
 }
 
-static kefir_result_t format_string(struct kefir_json_output *json, const char *string) {
-    fprintf(json->file, "\"");
+static kefir_size_t utf8_sequence_length(const char *string, kefir_size_t length) {
+    const unsigned char *bytes = (const unsigned char *) string;
+    kefir_size_t sz = 0;
+    if (bytes[0] >= 0xc2 && bytes[0] < 0xe0) {
+        sz = 2;
+    } else if (bytes[0] >= 0xe0 && bytes[0] < 0xf0) {
+        sz = 3;
+    } else if (bytes[0] >= 0xf0 && bytes[0] < 0xf5) {
+        sz = 4;
+    }
+    REQUIRE(sz > 0 && sz <= length, 0);
+    REQUIRE(!(bytes[0] == 0xe0 && bytes[1] < 0xa0) && !(bytes[0] == 0xed && bytes[1] >= 0xa0) &&
+                !(bytes[0] == 0xf0 && bytes[1] < 0x90) && !(bytes[0] == 0xf4 && bytes[1] >= 0x90),
+            0);
+    for (kefir_size_t i = 1; i < sz; i++) {
+        REQUIRE(bytes[i] >= 0x80 && bytes[i] < 0xc0, 0);
+    }
+    return sz;
+}
 
-    mbstate_t state = {0};
-    const char *end = string + strlen(string);
-    size_t sz = 0;
-    kefir_char32_t wide_char;
-    while (string < end && (sz = mbrtoc32(&wide_char, string, end - string, &state)) != 0) {
-        switch (wide_char) {
-            case U'\"':
+static kefir_result_t format_string(struct kefir_json_output *json, const char *string, kefir_size_t length,
+                                    kefir_bool_t raw) {
+    fprintf(json->file, "\"");
+    for (kefir_size_t i = 0; i < length; i++) {
+        switch (string[i]) {
+            case '\"':
                 fprintf(json->file, "\\\"");
                 break;
 
-            case U'\\':
+            case '\\':
                 fprintf(json->file, "\\\\");
                 break;
 
-            case U'/':
+            case '/':
                 fprintf(json->file, "\\/");
                 break;
 
-            case U'\b':
+            case '\b':
                 fprintf(json->file, "\\b");
                 break;
 
-            case U'\f':
+            case '\f':
                 fprintf(json->file, "\\f");
                 break;
 
-            case U'\n':
+            case '\n':
                 fprintf(json->file, "\\n");
                 break;
 
-            case U'\r':
+            case '\r':
                 fprintf(json->file, "\\r");
                 break;
 
-            case U'\t':
+            case '\t':
                 fprintf(json->file, "\\t");
                 break;
 
-            case U'\a':
-                fprintf(json->file, "\\a");
-                break;
-
-            default:
-                fwrite(string, 1, sz, json->file);
-                break;
+            default: {
+                const unsigned char chr = string[i];
+                const kefir_size_t sz = utf8_sequence_length(string + i, length - i);
+                if (raw && chr == '\a') {
+                    fprintf(json->file, "\\a");
+                } else if (raw && chr == '\v') {
+                    fprintf(json->file, "\\v");
+                } else if (raw && chr == '\?') {
+                    fprintf(json->file, "\\?");
+                } else if (sz > 0) {
+                    fwrite(string + i, 1, sz, json->file);
+                    i += sz - 1;
+                } else if (chr < 0x20 || chr >= 0x7f) {
+                    fprintf(json->file, "\\u%04x", (unsigned int) chr);
+                } else {
+                    fputc(chr, json->file);
+                }
+            } break;
         }
-        string += sz;
     }
     fprintf(json->file, "\"");
     return KEFIR_OK;
@@ -239,7 +264,7 @@ kefir_result_t kefir_json_output_object_key(struct kefir_json_output *json, cons
             KEFIR_SET_ERROR(KEFIR_INVALID_CHANGE, "Cannot add key to json object"));
 
     json->state[json->level] = KEFIR_JSON_STATE_OBJECT_FIELD;
-    REQUIRE_OK(format_string(json, key));
+    REQUIRE_OK(format_string(json, key, strlen(key), false));
     return KEFIR_OK;
 }
 
@@ -331,7 +356,7 @@ kefir_result_t kefir_json_output_string(struct kefir_json_output *json, const ch
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
 
-    REQUIRE_OK(format_string(json, value));
+    REQUIRE_OK(format_string(json, value, strlen(value), false));
     return KEFIR_OK;
 }
 
@@ -340,64 +365,7 @@ kefir_result_t kefir_json_output_raw_string(struct kefir_json_output *json, cons
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
 
-    fprintf(json->file, "\"");
-    for (kefir_size_t i = 0; i < length; i++) {
-        char chr = value[i];
-        switch (chr) {
-            case U'\"':
-                fprintf(json->file, "\\\"");
-                break;
-
-            case U'\\':
-                fprintf(json->file, "\\\\");
-                break;
-
-            case U'/':
-                fprintf(json->file, "\\/");
-                break;
-
-            case U'\b':
-                fprintf(json->file, "\\b");
-                break;
-
-            case U'\f':
-                fprintf(json->file, "\\f");
-                break;
-
-            case U'\n':
-                fprintf(json->file, "\\n");
-                break;
-
-            case U'\r':
-                fprintf(json->file, "\\r");
-                break;
-
-            case U'\t':
-                fprintf(json->file, "\\t");
-                break;
-
-            case U'\a':
-                fprintf(json->file, "\\a");
-                break;
-
-            case U'\v':
-                fprintf(json->file, "\\v");
-                break;
-
-            case U'\?':
-                fprintf(json->file, "\\?");
-                break;
-
-            case U'\0':
-                fprintf(json->file, "\\u0000");
-                break;
-
-            default:
-                fputc(chr, json->file);
-                break;
-        }
-    }
-    fprintf(json->file, "\"");
+    REQUIRE_OK(format_string(json, value, length, true));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 732c896df4d269d520dba9708418ed55bda2aaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:08 +0000
Subject: [PATCH 31/73] fix: string literal concatenation keeps escaped code
 units and surrogate pairs

---
 source/core/string_buffer.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/core/string_buffer.c b/source/core/string_buffer.c
index 0a029e4..a3b1825 100644
--- a/source/core/string_buffer.c
+++ b/source/core/string_buffer.c
@@ -230,6 +230,13 @@ static kefir_result_t kefir_string_buffer_insert_unicode16_character(struct kefi
                 break;
         }
     }
+
+    if (character > 0xffff) {
+        sz = mbrtoc16(&u16chr.value, begin, 0, &mbstate);
+        REQUIRE(sz == (size_t) -3, KEFIR_SET_ERROR(KEFIR_INVALID_STATE,
+                                                   "Failed to convert unicode32 character into unicode16 string"));
+        REQUIRE_OK(insert_buffer(mem, buffer, u16chr.bytes, sizeof(kefir_char16_t)));
+    }
     return KEFIR_OK;
 }
 
@@ -374,7 +381,11 @@ static kefir_result_t insert_multibyte(struct kefir_mem *mem, struct kefir_strin
             case (size_t) -1:
             case (size_t) -2:
             case (size_t) -3:
-                return KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "Failed to decode multibyte string");
+                // Not a part of any character: the value has been specified by an escape sequence
+                mbstate = (mbstate_t){0};
+                REQUIRE_OK(kefir_string_buffer_insert_raw(mem, buffer, (unsigned char) *begin));
+                begin++;
+                continue;
 
             case 0:
                 begin++;
@@ -434,6 +445,11 @@ kefir_result_t kefir_string_buffer_merge(struct kefir_mem *mem, struct kefir_str
     REQUIRE(dst != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid destination string buffer"));
     REQUIRE(src != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid source string buffer"));
 
+    if (src->mode == dst->mode) {
+        REQUIRE_OK(insert_buffer(mem, dst, src->buffer, src->length));
+        return KEFIR_OK;
+    }
+
     switch (src->mode) {
         case KEFIR_STRING_BUFFER_MULTIBYTE:
         case KEFIR_STRING_BUFFER_UNICODE8: {
-- 
2.43.0


From 86125a1ea9df3a013989d1b4f02a66d9ea307d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:43 +0000
Subject: [PATCH 32/73] fix: preprocessed output keeps multibyte characters of
 string literals

---
 source/preprocessor/format.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/source/preprocessor/format.c b/source/preprocessor/format.c
index 7d59a96..377d8c0 100644
--- a/source/preprocessor/format.c
+++ b/source/preprocessor/format.c
@@ -28,6 +28,7 @@
 #include "kefir/core/error.h"
 #include "kefir/core/os_error.h"
 #include <ctype.h>
+#include <wchar.h>
 #include <wctype.h>
 #include <string.h>
 #include <stdio.h>
@@ -268,7 +269,15 @@ static kefir_result_t format_string_literal(FILE *out, const struct kefir_token
             fprintf(out, "\"");
             for (kefir_size_t i = 0; i < token->string_literal.length - 1; i++) {
                 const char *chr = &((const char *) token->string_literal.literal)[i];
-                REQUIRE_OK(format_char(out, chr[0], chr[1]));
+                mbstate_t mbstate = {0};
+                const size_t chr_length = mbrlen(chr, token->string_literal.length - 1 - i, &mbstate);
+                if (chr_length > 1 && chr_length < (size_t) -2) {
+                    // Escaped code units would not be converted upon concatenation with a wide literal
+                    fprintf(out, "%.*s", (int) chr_length, chr);
+                    i += chr_length - 1;
+                } else {
+                    REQUIRE_OK(format_char(out, chr[0], chr[1]));
+                }
             }
             fprintf(out, "\"");
             break;
-- 
2.43.0


From 3034001fb853c0557d943a6459c838ad1f2bd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:59 +0000
Subject: [PATCH 33/73] fix: no undefined shifts when emitting bit-field data

---
 source/codegen/amd64/system-v/abi/static_data.c | 3 ++-
 source/ir/data.c                                | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/codegen/amd64/system-v/abi/static_data.c b/source/codegen/amd64/system-v/abi/static_data.c
index 95228fe..519b4b1 100644
--- a/source/codegen/amd64/system-v/abi/static_data.c
+++ b/source/codegen/amd64/system-v/abi/static_data.c
@@ -177,7 +177,8 @@ static kefir_result_t integral_static_data(const struct kefir_ir_type *type, kef
             }
             for (kefir_size_t i = 0; i < bytes; i++) {
                 ASMGEN_RAW(&param->codegen->asmgen, KEFIR_AMD64_BYTE);
-                ASMGEN_ARG(&param->codegen->asmgen, "0x%02x", (value >> (i << 3)) & 0xff);
+                ASMGEN_ARG(&param->codegen->asmgen, "0x%02x",
+                           i < sizeof(value) ? (unsigned int) ((value >> (i << 3)) & 0xff) : 0u);
             }
         } break;
 
diff --git a/source/ir/data.c b/source/ir/data.c
index b01f4d6..9c4412e 100644
--- a/source/ir/data.c
+++ b/source/ir/data.c
@@ -128,7 +128,7 @@ kefir_result_t kefir_ir_data_set_bitfield(struct kefir_ir_data *data, kefir_size
     REQUIRE(width <= 64, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "IR data bitfield cannot be wider than 64 bits"));
     if (width == 64) {
         currentValue = value;
-    } else {
+    } else if (offset < 64) {
         const kefir_uint64_t mask = (1ull << width) - 1;
         currentValue = currentValue & (~(mask << offset));
         currentValue |= (value & mask) << offset;
-- 
2.43.0


From 64194827b7f4e7eaa5aaef0dec5520bd6ce2dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:59 +0000
Subject: [PATCH 34/73] fix: clone the message of a static assertion

---
 source/ast/nodes/static_assertion.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast/nodes/static_assertion.c b/source/ast/nodes/static_assertion.c
index 621704a..ca65f25 100644
--- a/source/ast/nodes/static_assertion.c
+++ b/source/ast/nodes/static_assertion.c
@@ -62,6 +62,14 @@ struct kefir_ast_node_base *ast_static_assertion_clone(struct kefir_mem *mem, st
         KEFIR_FREE(mem, clone);
         return NULL;
     });
+
+    struct kefir_ast_node_base *string_clone = KEFIR_AST_NODE_CLONE(mem, KEFIR_AST_NODE_BASE(node->string));
+    REQUIRE_ELSE(string_clone != NULL, {
+        KEFIR_AST_NODE_FREE(mem, clone->condition);
+        KEFIR_FREE(mem, clone);
+        return NULL;
+    });
+    clone->string = (struct kefir_ast_string_literal *) string_clone->self;
     return KEFIR_AST_NODE_BASE(clone);
 }
 
-- 
2.43.0


From 96971969dbb166f2980692e3201364acbaf629f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:59 +0000
Subject: [PATCH 35/73] fix: no undefined arithmetic on multi-character
 constants

---
 source/lexer/tokens/character_constant.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lexer/tokens/character_constant.c b/source/lexer/tokens/character_constant.c
index acef28f..70a5f8a 100644
--- a/source/lexer/tokens/character_constant.c
+++ b/source/lexer/tokens/character_constant.c
@@ -55,8 +55,8 @@ static kefir_result_t next_character(struct kefir_lexer_source_cursor *cursor, k
         }
         char *iter = multibyte;
         while (sz--) {
-            *value <<= 8;
-            *value += *iter;
+            *value = (kefir_int_t) ((kefir_uint_t) *value << 8);
+            *value = (kefir_int_t) ((kefir_uint_t) *value + (kefir_uint_t) *iter);
             iter++;
         }
     }
-- 
2.43.0


From 6c66188e78f5ad23d1c4af0ca208f62c9a0a7e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:50 +0000
Subject: [PATCH 36/73] fix: clone of a generic selection allocates whole
 associations

---
 source/ast/nodes/generic_selection.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/source/ast/nodes/generic_selection.c b/source/ast/nodes/generic_selection.c
index 4d48aa8..076e16a 100644
--- a/source/ast/nodes/generic_selection.c
+++ b/source/ast/nodes/generic_selection.c
@@ -95,8 +95,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
          kefir_list_next(&iter)) {
         ASSIGN_DECL_CAST(struct kefir_ast_generic_selection_assoc *, assoc, iter->value);
         struct kefir_ast_generic_selection_assoc *clone_assoc =
-            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc *));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_MALLOC(mem, sizeof(struct kefir_ast_generic_selection_assoc));
+        REQUIRE_ELSE(clone_assoc != NULL, {
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -104,7 +104,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
         });
 
         struct kefir_ast_node_base *clone_type_name = KEFIR_AST_NODE_CLONE(mem, KEFIR_AST_NODE_BASE(assoc->type_name));
-        REQUIRE_ELSE(res == KEFIR_OK, {
+        REQUIRE_ELSE(clone_type_name != NULL, {
+            KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
             KEFIR_AST_NODE_FREE(mem, clone->control);
             KEFIR_FREE(mem, clone);
@@ -132,7 +133,8 @@ struct kefir_ast_node_base *ast_generic_selection_clone(struct kefir_mem *mem, s
             return NULL;
         });
         res = kefir_list_insert_after(mem, &clone->associations, kefir_list_tail(&clone->associations), clone_assoc);
-        REQUIRE_ELSE(clone_assoc->expr != NULL, {
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            KEFIR_AST_NODE_FREE(mem, clone_assoc->expr);
             KEFIR_AST_NODE_FREE(mem, KEFIR_AST_NODE_BASE(clone_assoc->type_name));
             KEFIR_FREE(mem, clone_assoc);
             kefir_list_free(mem, &clone->associations);
-- 
2.43.0


From 80f64824dba47c39b33c0275a2bcea82325023ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:50 +0000
Subject: [PATCH 37/73] fix: release scopes whose function declarations were
 not translated

---
 source/ast-translator/scope/scope_layout_impl.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/ast-translator/scope/scope_layout_impl.c b/source/ast-translator/scope/scope_layout_impl.c
index 10221c3..726b839 100644
--- a/source/ast-translator/scope/scope_layout_impl.c
+++ b/source/ast-translator/scope/scope_layout_impl.c
@@ -44,7 +44,10 @@ kefir_result_t kefir_ast_translator_scoped_identifer_payload_free(struct kefir_m
             case KEFIR_AST_SCOPE_IDENTIFIER_FUNCTION: {
                 ASSIGN_DECL_CAST(struct kefir_ast_translator_scoped_identifier_function *, scoped_identifier_payload,
                                  scoped_identifier->payload.ptr);
-                REQUIRE_OK(kefir_ast_translator_function_declaration_free(mem, scoped_identifier_payload->declaration));
+                if (scoped_identifier_payload->declaration != NULL) {
+                    REQUIRE_OK(
+                        kefir_ast_translator_function_declaration_free(mem, scoped_identifier_payload->declaration));
+                }
                 scoped_identifier_payload->declaration = NULL;
             } break;
 
-- 
2.43.0


From 466faa637d449896c5f3fca316189d4246227200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:51 +0000
Subject: [PATCH 38/73] fix: parsing time of nested expressions is linear

---
 source/parser/rules/assignment_expression.c | 37 ++++++++++++---------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/source/parser/rules/assignment_expression.c b/source/parser/rules/assignment_expression.c
index 5bfefff..57dc3ce 100644
--- a/source/parser/rules/assignment_expression.c
+++ b/source/parser/rules/assignment_expression.c
@@ -24,13 +24,33 @@
 #include "kefir/core/error.h"
 #include "kefir/core/source_error.h"
 
+// Parsing the left operand only once keeps the parsing time of nested expressions linear
+static kefir_result_t is_unary_expression(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder,
+                                          kefir_bool_t *unary_expr) {
+    struct kefir_ast_node_base *node = NULL;
+    REQUIRE_OK(kefir_parser_ast_builder_pop(mem, builder, &node));
+    const kefir_ast_node_type_t type = node->klass->type;
+    *unary_expr = type != KEFIR_AST_CAST_OPERATOR && type != KEFIR_AST_BINARY_OPERATION &&
+                  type != KEFIR_AST_CONDITIONAL_OPERATION;
+    kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, node);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_AST_NODE_FREE(mem, node);
+        return res;
+    });
+    return KEFIR_OK;
+}
+
 static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder, void *payload) {
     UNUSED(payload);
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(builder != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid parser AST builder"));
     struct kefir_parser *parser = builder->parser;
 
-    REQUIRE_OK(kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, unary_expression), NULL));
+    REQUIRE_OK(kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, conditional_expression), NULL));
+    kefir_bool_t unary_expr = false;
+    REQUIRE_OK(is_unary_expression(mem, builder, &unary_expr));
+    REQUIRE(unary_expr, KEFIR_OK);
+
     kefir_result_t res;
     if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_ASSIGN)) {
         REQUIRE_OK(PARSER_SHIFT(parser));
@@ -120,27 +140,14 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
             KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                    "Expected assignment expression"));
         REQUIRE_OK(kefir_parser_ast_builder_assignment_operator(mem, builder, KEFIR_AST_ASSIGNMENT_BITWISE_OR));
-    } else {
-        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Expected assignment operator");
     }
 
     return KEFIR_OK;
 }
 
-static kefir_result_t reduce_assignment(struct kefir_mem *mem, struct kefir_parser *parser,
-                                        struct kefir_ast_node_base **result, void *payload) {
-    APPLY_PROLOGUE(mem, parser, result, payload);
-    REQUIRE_OK(kefir_parser_ast_builder_wrap(mem, parser, result, builder_callback, NULL));
-    return KEFIR_OK;
-}
-
 kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(assignment_expression)(struct kefir_mem *mem, struct kefir_parser *parser,
                                                                   struct kefir_ast_node_base **result, void *payload) {
     APPLY_PROLOGUE(mem, parser, result, payload);
-    kefir_result_t res = kefir_parser_apply(mem, parser, result, reduce_assignment, NULL);
-    if (res == KEFIR_NO_MATCH) {
-        res = KEFIR_PARSER_RULE_APPLY(mem, parser, conditional_expression, result);
-    }
-    REQUIRE_OK(res);
+    REQUIRE_OK(kefir_parser_ast_builder_wrap(mem, parser, result, builder_callback, NULL));
     return KEFIR_OK;
 }
-- 
2.43.0


From 149785984eeabd809fa3a0f777de9898c67e8381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:42 +0000
Subject: [PATCH 39/73] fix: a null character does not keep a character
 constant scanning forever

---
 source/lexer/tokens/character_constant.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lexer/tokens/character_constant.c b/source/lexer/tokens/character_constant.c
index 70a5f8a..2c13ff6 100644
--- a/source/lexer/tokens/character_constant.c
+++ b/source/lexer/tokens/character_constant.c
@@ -34,7 +34,7 @@ static kefir_result_t next_character(struct kefir_lexer_source_cursor *cursor, k
         *continueScan = true;
         hex_oct_escape = next_chr == U'x' || kefir_isoctdigit32(next_chr) || kefir_ishexdigit32(next_chr);
         REQUIRE_OK(kefir_lexer_cursor_next_escape_sequence(cursor, &chr));
-    } else if (chr == U'\'') {
+    } else if (chr == U'\'' || chr == U'\0') {
         *continueScan = false;
     } else {
         *continueScan = true;
@@ -68,7 +68,7 @@ static kefir_result_t next_wide_character(struct kefir_lexer_source_cursor *curs
     if (chr == U'\\') {
         *continueScan = true;
         REQUIRE_OK(kefir_lexer_cursor_next_escape_sequence(cursor, value));
-    } else if (chr == U'\'') {
+    } else if (chr == U'\'' || chr == U'\0') {
         *continueScan = false;
     } else {
         *continueScan = true;
-- 
2.43.0


From 0dbd9d79b62f6239a718d01e531c52457ccf0b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:01 +0000
Subject: [PATCH 40/73] fix: a null character does not keep a header name
 scanning forever

---
 source/lexer/tokens/pp_header_name.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lexer/tokens/pp_header_name.c b/source/lexer/tokens/pp_header_name.c
index 2963165..e650642 100644
--- a/source/lexer/tokens/pp_header_name.c
+++ b/source/lexer/tokens/pp_header_name.c
@@ -45,6 +45,8 @@ static kefir_result_t match_header_name(struct kefir_mem *mem, struct kefir_lexe
         REQUIRE(chr != lexer->context->newline,
                 KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &lexer->cursor->location,
                                        "Unexpected newline in preprocessor header name"));
+        REQUIRE(chr != U'\0', KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &lexer->cursor->location,
+                                                     "Unexpected null character in preprocessor header name"));
         scan_pp_header_name = chr != terminator;
         if (scan_pp_header_name) {
             REQUIRE_OK(kefir_lexer_source_cursor_next(lexer->cursor, 1));
-- 
2.43.0


From c5035ac5f4e111cd4e0de6cca1c0a23ab3932496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:03 +0000
Subject: [PATCH 41/73] fix: cloned initializers keep their source location

---
 source/ast/initializer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/ast/initializer.c b/source/ast/initializer.c
index ca05224..4e4a25e 100644
--- a/source/ast/initializer.c
+++ b/source/ast/initializer.c
@@ -288,6 +288,7 @@ struct kefir_ast_initializer *kefir_ast_initializer_clone(struct kefir_mem *mem,
     struct kefir_ast_initializer *dst = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_initializer));
     REQUIRE(dst != NULL, NULL);
     dst->type = src->type;
+    dst->source_location = src->source_location;
     switch (src->type) {
         case KEFIR_AST_INITIALIZER_EXPRESSION:
             dst->expression = KEFIR_AST_NODE_CLONE(mem, src->expression);
-- 
2.43.0


From a360d4fb5e8304a0166ce68bfea2ed87cb4e8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:03 +0000
Subject: [PATCH 42/73] fix: recursive inclusion is diagnosed instead of
 exhausting the stack

---
 headers/kefir/preprocessor/preprocessor.h | 2 ++
 source/preprocessor/preprocessor.c        | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/headers/kefir/preprocessor/preprocessor.h b/headers/kefir/preprocessor/preprocessor.h
index c6b68f1..d79830c 100644
--- a/headers/kefir/preprocessor/preprocessor.h
+++ b/headers/kefir/preprocessor/preprocessor.h
@@ -33,6 +33,8 @@
 #include <time.h>
 
 typedef struct kefir_preprocessor_context kefir_preprocessor_context_t;
+#define KEFIR_PREPROCESSOR_MAX_INCLUDE_NESTING 200
+
 typedef struct kefir_preprocessor kefir_preprocessor_t;
 
 typedef struct kefir_preprocessor_extensions {
diff --git a/source/preprocessor/preprocessor.c b/source/preprocessor/preprocessor.c
index 5545f4b..a0b5c6b 100644
--- a/source/preprocessor/preprocessor.c
+++ b/source/preprocessor/preprocessor.c
@@ -651,6 +651,14 @@ kefir_result_t kefir_preprocessor_run(struct kefir_mem *mem, struct kefir_prepro
     REQUIRE(preprocessor != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid preprocessor"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
 
+    kefir_size_t nesting = 0;
+    for (const struct kefir_preprocessor *parent = preprocessor->parent; parent != NULL; parent = parent->parent) {
+        nesting++;
+    }
+    REQUIRE(nesting <= KEFIR_PREPROCESSOR_MAX_INCLUDE_NESTING,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &preprocessor->lexer.cursor->location,
+                                   "Source file inclusion is nested too deeply"));
+
     kefir_result_t res;
     KEFIR_RUN_EXTENSION(&res, mem, preprocessor, before_run, buffer);
     REQUIRE_OK(res);
-- 
2.43.0


From a43505ac58934d4000bfd5115ab12726c4072bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:44 +0000
Subject: [PATCH 43/73] fix: paths resolved by the C library are released by it

---
 source/cli/filesystem_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cli/filesystem_source.c b/source/cli/filesystem_source.c
index 6fb14c5..2f62df3 100644
--- a/source/cli/filesystem_source.c
+++ b/source/cli/filesystem_source.c
@@ -101,7 +101,7 @@ static kefir_result_t try_open_file(struct kefir_mem *mem, const char *root, con
         return KEFIR_SET_OS_ERROR("Failed to determine real path");
     }
     kefir_result_t res = open_file(mem, resolved_path, system, source_file, locator->symbols);
-    KEFIR_FREE(mem, resolved_path);
+    free(resolved_path);
     if (res != KEFIR_NOT_FOUND) {
         REQUIRE_OK(res);
         return KEFIR_OK;
-- 
2.43.0


From 76c3a90f4bfa7fbc3b3eb59264424f5b4666a14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:28 +0000
Subject: [PATCH 44/73] fix: compound literals may be followed by postfix
 operators

---
 source/parser/rules/postfix_expression.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser/rules/postfix_expression.c b/source/parser/rules/postfix_expression.c
index 66c1624..ddf845e 100644
--- a/source/parser/rules/postfix_expression.c
+++ b/source/parser/rules/postfix_expression.c
@@ -162,8 +162,8 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
         if (res == KEFIR_NO_MATCH) {
             res = kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(builder->parser, primary_expression),
                                                 NULL);
-            REQUIRE_CHAIN(&res, scan_postfixes(mem, builder));
         }
+        REQUIRE_CHAIN(&res, scan_postfixes(mem, builder));
     }
     REQUIRE_OK(res);
     return KEFIR_OK;
-- 
2.43.0


From 67c014da91ba329794fb911dddcd88b169903081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 45/73] fix: jumps release exactly the variable length arrays
 that are alive at their origin

Breaking out of a block before its first VLA was declared restored the
stack from an unallocated array, and a goto within a block released the
VLAs that are still in scope at its target.
---
 source/ast-translator/jump.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/ast-translator/jump.c b/source/ast-translator/jump.c
index 28f4870..d75c5e5 100644
--- a/source/ast-translator/jump.c
+++ b/source/ast-translator/jump.c
@@ -47,11 +47,9 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
     struct kefir_ast_flow_control_structure *current_origin_parent = original_position->parent;
     while (current_origin_parent != NULL && current_origin_parent != common_parent) {
         if (current_origin_parent->type == KEFIR_AST_FLOW_CONTROL_STRUCTURE_BLOCK) {
-            if (current_origin_parent->value.block.contains_vla) {
-                const struct kefir_ast_flow_control_data_element *vla_element = NULL;
-                REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(
-                    &current_origin_parent->value.block.data_elements, &vla_element));
-
+            if (top_origin_block->parent_data_elts.head != NULL) {
+                ASSIGN_DECL_CAST(const struct kefir_ast_flow_control_data_element *, vla_element,
+                                 top_origin_block->parent_data_elts.head->value);
                 REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
                 REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
@@ -71,7 +69,11 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
                                        "Cannot jump in the scope with uninitialized VLA variables"));
 
         if (top_target_block_iter == top_target_block->parent_data_elts.tail) {
-            kefir_list_next(&top_origin_block_iter);
+            if (top_origin_block_iter == top_origin_block->parent_data_elts.tail) {
+                top_origin_block_iter = NULL;
+            } else {
+                kefir_list_next(&top_origin_block_iter);
+            }
             break;
         }
         REQUIRE(top_origin_block_iter != top_origin_block->parent_data_elts.tail,
@@ -80,10 +82,8 @@ static kefir_result_t perform_jump(struct kefir_mem *mem, struct kefir_ast_trans
     }
 
     if (top_origin_block_iter != NULL) {
-        const struct kefir_ast_flow_control_data_element *vla_element = top_origin_block_iter->value;
-        REQUIRE_OK(kefir_ast_flow_control_structure_data_element_head(&current_origin_parent->value.block.data_elements,
-                                                                      &vla_element));
-
+        ASSIGN_DECL_CAST(const struct kefir_ast_flow_control_data_element *, vla_element,
+                         top_origin_block_iter->value);
         REQUIRE_OK(kefir_ast_translator_resolve_vla_element(mem, context, builder, vla_element->identifier));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_LOAD64, 0));
         REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POPSCOPE, 0));
-- 
2.43.0


From 99554380a3dc35f96c3fc6d1599259aaf8b2c106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:27 +0000
Subject: [PATCH 46/73] fix: alignment specifiers on pointers to incomplete
 types

---
 source/ast/analyzer/declarator.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index 3da449b..d1b690b 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -999,7 +999,9 @@ static kefir_result_t analyze_declaration_specifiers_impl(
     if (alignment != NULL) {
         if (alignment_specifier > 0) {
             kefir_size_t natural_alignment = 0;
-            REQUIRE_OK(type_alignment(mem, context, base_type, &natural_alignment));
+            if (!KEFIR_AST_TYPE_IS_INCOMPLETE(base_type)) {
+                REQUIRE_OK(type_alignment(mem, context, base_type, &natural_alignment));
+            }
             REQUIRE(natural_alignment <= alignment_specifier,
                     KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR,
                                            kefir_ast_declarator_specifier_list_source_location(specifiers),
-- 
2.43.0


From 2385e8fcf50a942db52dea81c8fc0fd515ce7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:26 +0000
Subject: [PATCH 47/73] fix: qualifiers of structures and typedefs apply to the
 elements of arrays

---
 source/ast/type/qualified.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/ast/type/qualified.c b/source/ast/type/qualified.c
index 91765a4..3597cec 100644
--- a/source/ast/type/qualified.c
+++ b/source/ast/type/qualified.c
@@ -77,6 +77,22 @@ const struct kefir_ast_type *kefir_ast_type_qualified(struct kefir_mem *mem, str
                                                       struct kefir_ast_type_qualification qualification) {
     REQUIRE(mem != NULL, NULL);
     REQUIRE(base_type != NULL, NULL);
+    if (type_bundle != NULL && base_type->tag == KEFIR_AST_TYPE_ARRAY &&
+        (base_type->array_type.boundary == KEFIR_AST_ARRAY_UNBOUNDED ||
+         base_type->array_type.boundary == KEFIR_AST_ARRAY_BOUNDED)) {
+        // Qualifiers of an array type apply to its elements
+        const struct kefir_ast_type *element_type =
+            kefir_ast_type_qualified(mem, type_bundle, base_type->array_type.element_type, qualification);
+        REQUIRE(element_type != NULL, NULL);
+        if (base_type->array_type.boundary == KEFIR_AST_ARRAY_UNBOUNDED) {
+            return kefir_ast_type_unbounded_array(mem, type_bundle, element_type,
+                                                  &base_type->array_type.qualifications);
+        }
+        struct kefir_ast_constant_expression *length =
+            kefir_ast_constant_expression_integer(mem, base_type->array_type.const_length->value.integer);
+        REQUIRE(length != NULL, NULL);
+        return kefir_ast_type_array(mem, type_bundle, element_type, length, &base_type->array_type.qualifications);
+    }
     struct kefir_ast_type *type = KEFIR_MALLOC(mem, sizeof(struct kefir_ast_type));
     REQUIRE(type != NULL, NULL);
     if (type_bundle != NULL) {
-- 
2.43.0


From 0cd794c1902bf39c250657340a8c3db7874ccfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:26 +0000
Subject: [PATCH 48/73] fix: compound literals keep the qualifiers of their
 type

---
 source/ast/analyzer/nodes/compound_literal.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/ast/analyzer/nodes/compound_literal.c b/source/ast/analyzer/nodes/compound_literal.c
index 5142542..63e81ac 100644
--- a/source/ast/analyzer/nodes/compound_literal.c
+++ b/source/ast/analyzer/nodes/compound_literal.c
@@ -50,6 +50,12 @@ kefir_result_t kefir_ast_analyze_compound_literal_node(struct kefir_mem *mem, co
 
     base->properties.category = KEFIR_AST_NODE_CATEGORY_EXPRESSION;
     base->properties.type = initializer_properties.type;
+    struct kefir_ast_type_qualification qualification;
+    REQUIRE_OK(kefir_ast_type_retrieve_qualifications(&qualification, node->type_name->base.properties.type));
+    if (!KEFIR_AST_TYPE_IS_ZERO_QUALIFICATION(&qualification)) {
+        base->properties.type =
+            kefir_ast_type_qualified(mem, context->type_bundle, initializer_properties.type, qualification);
+    }
     base->properties.expression_props.lvalue = true;
     base->properties.expression_props.addressable = true;
     base->properties.expression_props.constant_expression = initializer_properties.constant;
-- 
2.43.0


From 9304dff851880bedc3c764ed013666c16a2b454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:26 +0000
Subject: [PATCH 49/73] fix: the address of a string literal may be taken

---
 source/ast-translator/lvalue.c             | 12 ++++++++++++
 source/ast/analyzer/nodes/string_literal.c |  1 +
 2 files changed, 13 insertions(+)

diff --git a/source/ast-translator/lvalue.c b/source/ast-translator/lvalue.c
index 06e2034..830d2c2 100644
--- a/source/ast-translator/lvalue.c
+++ b/source/ast-translator/lvalue.c
@@ -314,6 +314,17 @@ static kefir_result_t translate_unary_operation_node(const struct kefir_ast_visi
     return KEFIR_OK;
 }
 
+static kefir_result_t translate_string_literal_node(const struct kefir_ast_visitor *visitor,
+                                                    const struct kefir_ast_string_literal *node, void *payload) {
+    REQUIRE(visitor != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST visitor"));
+    REQUIRE(node != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST node"));
+    REQUIRE(payload != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid payload"));
+    ASSIGN_DECL_CAST(struct kefir_ast_translator_parameters *, param, payload);
+
+    REQUIRE_OK(kefir_ast_translate_expression(param->mem, KEFIR_AST_NODE_BASE(node), param->builder, param->context));
+    return KEFIR_OK;
+}
+
 static kefir_result_t translate_compound_literal_node(const struct kefir_ast_visitor *visitor,
                                                       const struct kefir_ast_compound_literal *node, void *payload) {
     REQUIRE(visitor != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST visitor"));
@@ -355,6 +366,7 @@ kefir_result_t kefir_ast_translate_lvalue(struct kefir_mem *mem, struct kefir_as
     visitor.struct_indirect_member = translate_struct_member_node;
     visitor.unary_operation = translate_unary_operation_node;
     visitor.compound_literal = translate_compound_literal_node;
+    visitor.string_literal = translate_string_literal_node;
     visitor.extension_node = translate_extension_node;
 
     kefir_result_t res;
diff --git a/source/ast/analyzer/nodes/string_literal.c b/source/ast/analyzer/nodes/string_literal.c
index d4c028c..98cc202 100644
--- a/source/ast/analyzer/nodes/string_literal.c
+++ b/source/ast/analyzer/nodes/string_literal.c
@@ -61,6 +61,7 @@ kefir_result_t kefir_ast_analyze_string_literal_node(struct kefir_mem *mem, cons
     base->properties.type = kefir_ast_type_array(mem, context->type_bundle, elt_type,
                                                  kefir_ast_constant_expression_integer(mem, node->length), NULL);
     base->properties.expression_props.constant_expression = true;
+    base->properties.expression_props.addressable = true;
     base->properties.expression_props.string_literal.type = node->type;
     base->properties.expression_props.string_literal.content = node->literal;
     base->properties.expression_props.string_literal.length = node->length;
-- 
2.43.0


From fb7c1baf6f166a260b2dec5d4272e7402e979cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:55 +0000
Subject: [PATCH 50/73] fix: declarations of a for statement are scoped to it
 by the parser

---
 source/parser/rules/iteration_statement.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/parser/rules/iteration_statement.c b/source/parser/rules/iteration_statement.c
index ef8b154..f2a60a6 100644
--- a/source/parser/rules/iteration_statement.c
+++ b/source/parser/rules/iteration_statement.c
@@ -68,7 +68,7 @@ static kefir_result_t scan_do_while(struct kefir_mem *mem, struct kefir_parser_a
     return KEFIR_OK;
 }
 
-static kefir_result_t scan_for(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+static kefir_result_t scan_for_impl(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
     struct kefir_parser *parser = builder->parser;
     REQUIRE_OK(PARSER_SHIFT(parser));
     REQUIRE(PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_LEFT_PARENTHESE),
@@ -123,6 +123,14 @@ static kefir_result_t scan_for(struct kefir_mem *mem, struct kefir_parser_ast_bu
     return KEFIR_OK;
 }
 
+static kefir_result_t scan_for(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+    struct kefir_parser *parser = builder->parser;
+    REQUIRE_OK(kefir_parser_scope_push_block(mem, &parser->scope));
+    REQUIRE_OK(scan_for_impl(mem, builder));
+    REQUIRE_OK(kefir_parser_scope_pop_block(mem, &parser->scope));
+    return KEFIR_OK;
+}
+
 static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder, void *payload) {
     UNUSED(payload);
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
-- 
2.43.0


From a7b9761f38ed98c2e99b0ebed467cec1c71ef3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:55 +0000
Subject: [PATCH 51/73] fix: members of a structure refer to the type being
 defined, not to an outer homonym

---
 source/ast/analyzer/declarator.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/ast/analyzer/declarator.c b/source/ast/analyzer/declarator.c
index d1b690b..e60bb1e 100644
--- a/source/ast/analyzer/declarator.c
+++ b/source/ast/analyzer/declarator.c
@@ -170,6 +170,14 @@ static kefir_result_t resolve_struct_type(struct kefir_mem *mem, const struct ke
     kefir_bool_t resolved = false;
     const struct kefir_ast_type *type = NULL;
     if (specifier->complete) {
+        if (specifier->identifier != NULL) {
+            // Members shall refer to the type being defined rather than to a homonym from an enclosing scope
+            type = decl_specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_STRUCT
+                       ? kefir_ast_type_incomplete_structure(mem, context->type_bundle, specifier->identifier)
+                       : kefir_ast_type_incomplete_union(mem, context->type_bundle, specifier->identifier);
+            REQUIRE(type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Unable to allocate AST struct/union type"));
+            REQUIRE_OK(context->define_tag(mem, context, type, &decl_specifier->source_location));
+        }
         struct kefir_ast_struct_type *struct_type = NULL;
         type = decl_specifier->type_specifier.specifier == KEFIR_AST_TYPE_SPECIFIER_STRUCT
                    ? kefir_ast_type_structure(mem, context->type_bundle, specifier->identifier, &struct_type)
-- 
2.43.0


From 846e666cfbeabce565c654799bbb8352bae0bd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:55 +0000
Subject: [PATCH 52/73] fix: elements copied into a vector are placed after the
 existing ones

---
 source/core/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/vector.c b/source/core/vector.c
index 099395a..62f1347 100644
--- a/source/core/vector.c
+++ b/source/core/vector.c
@@ -73,7 +73,7 @@ kefir_result_t kefir_vector_copy(struct kefir_vector *vector, void *src, kefir_s
     REQUIRE(kefir_vector_available(vector) >= length,
             KEFIR_SET_ERROR(KEFIR_OUT_OF_BOUNDS, "Unable to copy given number of elements"));
     if (src != NULL) {
-        memcpy(vector->content, src, vector->element_size * length);
+        memcpy((char *) vector->content + vector->length * vector->element_size, src, vector->element_size * length);
     }
     vector->length += length;
     return KEFIR_OK;
-- 
2.43.0


From 4a4649689ac89bbb12a02791fa93c7074fb61bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:19 +0000
Subject: [PATCH 53/73] fix: functions and objects named like operators of the
 assembler are referred to correctly

---
 headers/kefir/codegen/amd64/asmgen.h          |  8 +++++--
 source/codegen/amd64/asmgen.c                 | 24 +++++++++++--------
 source/codegen/amd64/system-v/abi/invoke.c    |  2 +-
 .../codegen/amd64/system-v/abi/static_data.c  | 20 ++++++++--------
 source/codegen/amd64/system-v/abi/tls.c       |  5 ++--
 5 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/headers/kefir/codegen/amd64/asmgen.h b/headers/kefir/codegen/amd64/asmgen.h
index 4857f01..69f8ced 100644
--- a/headers/kefir/codegen/amd64/asmgen.h
+++ b/headers/kefir/codegen/amd64/asmgen.h
@@ -142,8 +142,12 @@ kefir_result_t kefir_amd64_gas_gen_init(struct kefir_amd64_asmgen *, FILE *);
 #define KEFIR_AMD64_INDIRECT_OFFSET "[%s + " KEFIR_SIZE_FMT "]"
 #define KEFIR_AMD64_INDIRECT_NEG_OFFSET "[%s - " KEFIR_SIZE_FMT "]"
 #define KEFIR_AMD64_ALIGN ".align"
-#define KEFIR_AMD64_THREAD_LOCAL "[%s@tpoff]"
-#define KEFIR_AMD64_THREAD_LOCAL_GOT "%s@gottpoff[%%rip]"
+#define KEFIR_AMD64_SYMBOL "%s%s%s"
+#define KEFIR_AMD64_SYMBOL_ARGS(_symbol) \
+    kefir_amd64_symbol_quote((_symbol)), (_symbol), kefir_amd64_symbol_quote((_symbol))
+const char *kefir_amd64_symbol_quote(const char *);
+#define KEFIR_AMD64_THREAD_LOCAL "[" KEFIR_AMD64_SYMBOL "@tpoff]"
+#define KEFIR_AMD64_THREAD_LOCAL_GOT KEFIR_AMD64_SYMBOL "@gottpoff[%%rip]"
 
 #define KEFIR_AMD64_DWORD "DWORD PTR "
 #define KEFIR_AMD64_QWORD "QWORD PTR "
diff --git a/source/codegen/amd64/asmgen.c b/source/codegen/amd64/asmgen.c
index 98aae41..36268bb 100644
--- a/source/codegen/amd64/asmgen.c
+++ b/source/codegen/amd64/asmgen.c
@@ -30,6 +30,19 @@
 
 #define INDENTATION "    "
 
+const char *kefir_amd64_symbol_quote(const char *symbol) {
+    // Operators and types of Intel syntax are not symbols unless quoted
+    static const char *const ReservedSymbols[] = {
+        "and", "eq",   "ge",   "gt",    "le",    "lt",    "mod",    "ne",    "not",   "offset",  "or",      "shl",     "short", "shr",
+        "xor", "byte", "word", "dword", "fword", "qword", "mmword", "tbyte", "oword", "xmmword", "ymmword", "zmmword", "far",   "near"};
+    for (kefir_size_t i = 0; i < sizeof(ReservedSymbols) / sizeof(ReservedSymbols[0]); i++) {
+        if (strcasecmp(symbol, ReservedSymbols[i]) == 0) {
+            return "\"";
+        }
+    }
+    return "";
+}
+
 static kefir_result_t amd64_prologue(struct kefir_amd64_asmgen *asmgen) {
     REQUIRE(asmgen != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid AMD64 assembly generator"));
     FILE *out = (FILE *) asmgen->data;
@@ -258,16 +271,7 @@ static kefir_result_t amd64_symbol_arg(struct kefir_amd64_asmgen *asmgen, const
     }
     asmgen->state.arguments++;
 
-    const char *EscapedSymbols[] = {// TODO Expand number of escaped symbols
-                                    "mod"};
-    for (kefir_size_t i = 0; i < sizeof(EscapedSymbols) / sizeof(EscapedSymbols[0]); i++) {
-        if (strcasecmp(symbol, EscapedSymbols[i]) == 0) {
-            fprintf(out, "$%s", symbol);
-            return KEFIR_OK;
-        }
-    }
-
-    fprintf(out, "%s", symbol);
+    fprintf(out, KEFIR_AMD64_SYMBOL, KEFIR_AMD64_SYMBOL_ARGS(symbol));
     return KEFIR_OK;
 }
 
diff --git a/source/codegen/amd64/system-v/abi/invoke.c b/source/codegen/amd64/system-v/abi/invoke.c
index 3740030..730b288 100644
--- a/source/codegen/amd64/system-v/abi/invoke.c
+++ b/source/codegen/amd64/system-v/abi/invoke.c
@@ -480,7 +480,7 @@ kefir_result_t kefir_amd64_sysv_function_invoke(struct kefir_codegen_amd64 *code
         REQUIRE(decl->decl->name != NULL && strlen(decl->decl->name) != 0,
                 KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Unable to translate invocation with no valid identifier"));
         ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_CALL);
-        ASMGEN_ARG0(&codegen->asmgen, decl->decl->name);
+        ASMGEN_SYMBOL_ARG(&codegen->asmgen, decl->decl->name);
     }
     REQUIRE_OK(invoke_epilogue(codegen, decl, &info, virtualDecl));
     return KEFIR_OK;
diff --git a/source/codegen/amd64/system-v/abi/static_data.c b/source/codegen/amd64/system-v/abi/static_data.c
index 519b4b1..03021ee 100644
--- a/source/codegen/amd64/system-v/abi/static_data.c
+++ b/source/codegen/amd64/system-v/abi/static_data.c
@@ -99,13 +99,13 @@ static kefir_result_t integral_static_data(const struct kefir_ir_type *type, kef
 
             ASMGEN_RAW(&param->codegen->asmgen, KEFIR_AMD64_QUAD);
             if (entry->value.pointer.offset > 0) {
-                ASMGEN_ARG(&param->codegen->asmgen, "%s + " KEFIR_INT64_FMT, entry->value.pointer.reference,
-                           entry->value.pointer.offset);
+                ASMGEN_ARG(&param->codegen->asmgen, KEFIR_AMD64_SYMBOL " + " KEFIR_INT64_FMT,
+                           KEFIR_AMD64_SYMBOL_ARGS(entry->value.pointer.reference), entry->value.pointer.offset);
             } else if (entry->value.pointer.offset < 0) {
-                ASMGEN_ARG(&param->codegen->asmgen, "%s " KEFIR_INT64_FMT, entry->value.pointer.reference,
-                           entry->value.pointer.offset);
+                ASMGEN_ARG(&param->codegen->asmgen, KEFIR_AMD64_SYMBOL " " KEFIR_INT64_FMT,
+                           KEFIR_AMD64_SYMBOL_ARGS(entry->value.pointer.reference), entry->value.pointer.offset);
             } else {
-                ASMGEN_ARG(&param->codegen->asmgen, "%s", entry->value.pointer.reference);
+                ASMGEN_SYMBOL_ARG(&param->codegen->asmgen, entry->value.pointer.reference);
             }
 
             param->offset += layout->size;
@@ -214,13 +214,13 @@ static kefir_result_t word_static_data(const struct kefir_ir_type *type, kefir_s
 
         case KEFIR_IR_DATA_VALUE_POINTER:
             if (entry->value.pointer.offset > 0) {
-                ASMGEN_ARG(&param->codegen->asmgen, "%s + " KEFIR_INT64_FMT, entry->value.pointer.reference,
-                           entry->value.pointer.offset);
+                ASMGEN_ARG(&param->codegen->asmgen, KEFIR_AMD64_SYMBOL " + " KEFIR_INT64_FMT,
+                           KEFIR_AMD64_SYMBOL_ARGS(entry->value.pointer.reference), entry->value.pointer.offset);
             } else if (entry->value.pointer.offset < 0) {
-                ASMGEN_ARG(&param->codegen->asmgen, "%s " KEFIR_INT64_FMT, entry->value.pointer.reference,
-                           entry->value.pointer.offset);
+                ASMGEN_ARG(&param->codegen->asmgen, KEFIR_AMD64_SYMBOL " " KEFIR_INT64_FMT,
+                           KEFIR_AMD64_SYMBOL_ARGS(entry->value.pointer.reference), entry->value.pointer.offset);
             } else {
-                ASMGEN_ARG(&param->codegen->asmgen, "%s", entry->value.pointer.reference);
+                ASMGEN_SYMBOL_ARG(&param->codegen->asmgen, entry->value.pointer.reference);
             }
             break;
 
diff --git a/source/codegen/amd64/system-v/abi/tls.c b/source/codegen/amd64/system-v/abi/tls.c
index 2dcf041..d02c85f 100644
--- a/source/codegen/amd64/system-v/abi/tls.c
+++ b/source/codegen/amd64/system-v/abi/tls.c
@@ -32,7 +32,7 @@ kefir_result_t kefir_amd64_sysv_thread_local_reference(struct kefir_codegen_amd6
     if (local) {
         ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_LEA);
         ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA_REG);
-        ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_THREAD_LOCAL, identifier);
+        ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_THREAD_LOCAL, KEFIR_AMD64_SYMBOL_ARGS(identifier));
         ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_ADD);
         ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA_REG);
         ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_FS "0");
@@ -42,7 +42,8 @@ kefir_result_t kefir_amd64_sysv_thread_local_reference(struct kefir_codegen_amd6
         ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_QWORD KEFIR_AMD64_FS "0");
         ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_MOV);
         ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA2_REG);
-        ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_QWORD KEFIR_AMD64_THREAD_LOCAL_GOT, identifier);
+        ASMGEN_ARG(&codegen->asmgen, KEFIR_AMD64_QWORD KEFIR_AMD64_THREAD_LOCAL_GOT,
+                   KEFIR_AMD64_SYMBOL_ARGS(identifier));
         ASMGEN_INSTR(&codegen->asmgen, KEFIR_AMD64_ADD);
         ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA_REG);
         ASMGEN_ARG0(&codegen->asmgen, KEFIR_AMD64_SYSV_ABI_DATA2_REG);
-- 
2.43.0


From d31d889368db279b947a9077ab34810c7aa5bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:59 +0000
Subject: [PATCH 54/73] fix: a block-scope extern _Thread_local declaration
 declares a thread-local object

---
 source/ast/local_context.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/ast/local_context.c b/source/ast/local_context.c
index 7719f7c..0a14104 100644
--- a/source/ast/local_context.c
+++ b/source/ast/local_context.c
@@ -240,8 +240,8 @@ static kefir_result_t context_define_identifier(
                 REQUIRE(declaration, KEFIR_SET_SOURCE_ERROR(
                                          KEFIR_ANALYSIS_ERROR, location,
                                          "External thread local identifier in block scope cannot have initializer"));
-                REQUIRE_OK(kefir_ast_local_context_declare_external(mem, local_ctx, identifier, type, alignment,
-                                                                    location, scoped_id));
+                REQUIRE_OK(kefir_ast_local_context_declare_external_thread_local(mem, local_ctx, identifier, type,
+                                                                                 alignment, location, scoped_id));
                 break;
 
             case KEFIR_AST_SCOPE_IDENTIFIER_STORAGE_STATIC_THREAD_LOCAL:
-- 
2.43.0


From 0106574055e304cd86b813e5bb9fda3eff13c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:14 +0000
Subject: [PATCH 55/73] fix: rejected expressions, initializers, bit-fields and
 macro definitions are released

---
 source/parser/rules/declaration_specifier.c |  1 +
 source/parser/rules/initializer_list.c      |  2 +-
 source/parser/rules/primary_expression.c    |  7 +++++--
 source/preprocessor/directives.c            | 21 ++++++++++++++-------
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/source/parser/rules/declaration_specifier.c b/source/parser/rules/declaration_specifier.c
index 04edf9b..2dbd65f 100644
--- a/source/parser/rules/declaration_specifier.c
+++ b/source/parser/rules/declaration_specifier.c
@@ -113,6 +113,7 @@ static kefir_result_t scan_struct_field_declaration(struct kefir_mem *mem, struc
                                              "Expected integral constant expression");
             }
             REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_ast_declarator_free(mem, declarator);
                 kefir_ast_structure_declaration_entry_free(mem, entry);
                 return res;
             });
diff --git a/source/parser/rules/initializer_list.c b/source/parser/rules/initializer_list.c
index 803742c..4c40dd0 100644
--- a/source/parser/rules/initializer_list.c
+++ b/source/parser/rules/initializer_list.c
@@ -84,7 +84,7 @@ static kefir_result_t scan_initializer_list(struct kefir_mem *mem, struct kefir_
         KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0), "Expected right brace"));
     REQUIRE_CHAIN(&res, PARSER_SHIFT(parser));
     REQUIRE_ELSE(res == KEFIR_OK, {
-        *initializer = NULL;
+        kefir_ast_initializer_free(mem, *initializer);
         *initializer = NULL;
         return res;
     });
diff --git a/source/parser/rules/primary_expression.c b/source/parser/rules/primary_expression.c
index b7019a2..8c8e752 100644
--- a/source/parser/rules/primary_expression.c
+++ b/source/parser/rules/primary_expression.c
@@ -38,8 +38,11 @@ kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(primary_expression)(struct kefir_mem
             KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match primary expression"));
     REQUIRE_OK(PARSER_SHIFT(parser));
     REQUIRE_OK(KEFIR_PARSER_RULE_APPLY(mem, parser, expression, result));
-    REQUIRE(PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE),
-            KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match primary expression"));
+    REQUIRE_ELSE(PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_RIGHT_PARENTHESE), {
+        KEFIR_AST_NODE_FREE(mem, *result);
+        *result = NULL;
+        return KEFIR_SET_ERROR(KEFIR_NO_MATCH, "Cannot match primary expression");
+    });
     REQUIRE_OK(PARSER_SHIFT(parser));
     return KEFIR_OK;
 }
diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index 7fa8964..97d061e 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -410,9 +410,11 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
             if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
                 scan_params = false;
             } else {
-                REQUIRE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_COMMA,
-                        KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
-                                               "Expected either comma or right parenthese"));
+                REQUIRE_ELSE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_COMMA, {
+                    kefir_token_free(mem, token);
+                    return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
+                                                  "Expected either comma or right parenthese");
+                });
             }
         } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_ELLIPSIS) {
             directive->define_directive.vararg = true;
@@ -420,6 +422,7 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
         } else if (token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
             scan_params = false;
         } else {
+            kefir_token_free(mem, token);
             return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location,
                                           "Expected either parameter or ellipsis");
         }
@@ -427,8 +430,10 @@ static kefir_result_t scan_define_parameters(struct kefir_mem *mem,
     if (token->klass != KEFIR_TOKEN_PUNCTUATOR || token->punctuator != KEFIR_PUNCTUATOR_RIGHT_PARENTHESE) {
         REQUIRE_OK(skip_whitespaces(mem, directive_scanner, token));
     }
-    REQUIRE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE,
-            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location, "Expected right parenthese"));
+    REQUIRE_ELSE(token->klass == KEFIR_TOKEN_PUNCTUATOR && token->punctuator == KEFIR_PUNCTUATOR_RIGHT_PARENTHESE, {
+        kefir_token_free(mem, token);
+        return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token->source_location, "Expected right parenthese");
+    });
     REQUIRE_OK(skip_whitespaces(mem, directive_scanner, token));
     return KEFIR_OK;
 }
@@ -453,8 +458,10 @@ static kefir_result_t next_define(struct kefir_mem *mem, struct kefir_preprocess
 
     struct kefir_token token;
     REQUIRE_OK(skip_whitespaces(mem, directive_scanner, &token));
-    REQUIRE(token.klass == KEFIR_TOKEN_IDENTIFIER,
-            KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token.source_location, "Expected identifier"));
+    REQUIRE_ELSE(token.klass == KEFIR_TOKEN_IDENTIFIER, {
+        kefir_token_free(mem, &token);
+        return KEFIR_SET_SOURCE_ERROR(KEFIR_LEXER_ERROR, &token.source_location, "Expected identifier");
+    });
     directive->define_directive.identifier =
         kefir_symbol_table_insert(mem, directive_scanner->lexer->symbols, token.identifier, NULL);
     REQUIRE(directive->define_directive.identifier != NULL,
-- 
2.43.0


From 73175209c45399e230b2ba3ac5b24e4b4c5933b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 56/73] fix: the documented options --dump-asm and
 --include-path are accepted

---
 source/cli/options.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/cli/options.c b/source/cli/options.c
index 0a5aaad..64f28f9 100644
--- a/source/cli/options.c
+++ b/source/cli/options.c
@@ -153,6 +153,7 @@ static struct CliOption Options[] = {
     SIMPLE(0, "dump-tokens", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_TOKENS, action),
     SIMPLE(0, "dump-ast", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_AST, action),
     SIMPLE(0, "dump-ir", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_IR, action),
+    SIMPLE(0, "dump-asm", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_ASSEMBLY, action),
     SIMPLE(0, "dump-runtime-code", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_DUMP_RUNTIME_CODE, action),
     SIMPLE(0, "json-errors", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ERROR_REPORT_JSON, error_report_type),
     SIMPLE(0, "tabular-errors", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ERROR_REPORT_TABULAR, error_report_type),
@@ -162,7 +163,8 @@ static struct CliOption Options[] = {
     POSTHOOK(0, "pp-timestamp", true, CLI_ACTION_ASSIGN_UINTARG, 0, pp_timestamp, pp_timestamp_hook),
 
     CUSTOM('D', "define", true, define_hook),
-    CUSTOM('I', "include-dir", true, include_hook),
+    CUSTOM('I', "include-path", true, include_hook),
+    CUSTOM(0, "include-dir", true, include_hook),
     CUSTOM(0, "include", true, include_file_hook),
     SIMPLE('h', "help", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_HELP, action),
     SIMPLE('v', "version", false, CLI_ACTION_ASSIGN_CONSTANT, KEFIR_CLI_ACTION_VERSION, action),
-- 
2.43.0


From ce3f63ee5049d75436efdff61a09a984b3591bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 57/73] fix: --pp-timestamp applies to preprocessing only as
 well

---
 source/main/main.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/main/main.c b/source/main/main.c
index 4aef7b9..fe92697 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -180,6 +180,9 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     struct kefir_token_buffer tokens;
     REQUIRE_OK(kefir_token_buffer_init(&tokens));
     REQUIRE_OK(build_predefined_macros(mem, options, compiler));
+    if (!options->default_pp_timestamp) {
+        compiler->preprocessor_context.environment.timestamp = options->pp_timestamp;
+    }
     REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
     REQUIRE_OK(open_output(options->output_filepath, &output));
-- 
2.43.0


From 510429eff0a951920149bd62e2dabf2cc79078f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 58/73] fix: failure to write the output is reported

---
 source/main/main.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/main/main.c b/source/main/main.c
index fe92697..9c5f79b 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -60,6 +60,13 @@ static kefir_result_t open_output(const char *filepath, FILE **output) {
     return KEFIR_OK;
 }
 
+static kefir_result_t close_output(FILE *output) {
+    const kefir_bool_t write_failed = ferror(output) != 0;
+    const kefir_bool_t close_failed = fclose(output) != 0;
+    REQUIRE(!write_failed && !close_failed, KEFIR_SET_OS_ERROR("Failed to write output"));
+    return KEFIR_OK;
+}
+
 static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_options *options,
                                        kefir_result_t (*action)(struct kefir_mem *, struct kefir_cli_options *,
                                                                 struct kefir_compiler_context *, const char *,
@@ -111,7 +118,7 @@ static kefir_result_t dump_action_impl(struct kefir_mem *mem, struct kefir_cli_o
     compiler.translator_configuration.empty_structs = options->features.empty_structs;
 
     REQUIRE_OK(action(mem, options, &compiler, source_id, input.content, input.length, output));
-    fclose(output);
+    REQUIRE_OK(close_output(output));
     REQUIRE_OK(kefir_compiler_context_free(mem, &compiler));
     REQUIRE_OK(kefir_preprocessor_filesystem_source_locator_free(mem, &source_locator));
     REQUIRE_OK(kefir_cli_input_close(mem, &input));
@@ -185,7 +192,6 @@ static kefir_result_t dump_preprocessed_impl(struct kefir_mem *mem, struct kefir
     }
     REQUIRE_OK(include_predefined(mem, options, compiler, source_id, &tokens));
     REQUIRE_OK(kefir_compiler_preprocess(mem, compiler, &tokens, source, length, source_id, options->input_filepath));
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_preprocessor_format(output, &tokens, KEFIR_PREPROCESSOR_WHITESPACE_FORMAT_ORIGINAL));
     REQUIRE_OK(kefir_token_buffer_free(mem, &tokens));
     return KEFIR_OK;
@@ -205,7 +211,6 @@ static kefir_result_t dump_tokens_impl(struct kefir_mem *mem, struct kefir_cli_o
     REQUIRE_OK(lex_file(mem, options, compiler, source_id, source, length, &tokens));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_token_buffer_format(&json, &tokens, options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
@@ -231,7 +236,6 @@ static kefir_result_t dump_ast_impl(struct kefir_mem *mem, struct kefir_cli_opti
     REQUIRE_OK(kefir_compiler_analyze(mem, compiler, KEFIR_AST_NODE_BASE(unit)));
 
     struct kefir_json_output json;
-    REQUIRE_OK(open_output(options->output_filepath, &output));
     REQUIRE_OK(kefir_json_output_init(&json, output, 4));
     REQUIRE_OK(kefir_ast_format(&json, KEFIR_AST_NODE_BASE(unit), options->detailed_output));
     REQUIRE_OK(kefir_json_output_finalize(&json));
-- 
2.43.0


From 778c912de6e9d351304838348ce85a3e7bf109a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 59/73] fix: --dump-runtime-code writes to the requested output
 file

---
 source/main/main.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/main/main.c b/source/main/main.c
index 9c5f79b..ba4bb65 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -311,7 +311,10 @@ static kefir_result_t action_dump_runtime_code(struct kefir_mem *mem, struct kef
     REQUIRE_OK(kefir_compiler_profile(&profile, options->target_profile));
     REQUIRE(profile.runtime_code != NULL,
             KEFIR_SET_ERROR(KEFIR_NOT_SUPPORTED, "Runtime code is not available for specified profile"));
-    printf("%s", profile.runtime_code);
+    FILE *output;
+    REQUIRE_OK(open_output(options->output_filepath, &output));
+    fprintf(output, "%s", profile.runtime_code);
+    REQUIRE_OK(close_output(output));
     return KEFIR_OK;
 }
 
-- 
2.43.0


From 9385cd0055c1d14657078235be5b302738d16151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:43 +0000
Subject: [PATCH 60/73] fix: input that cannot be read is reported, and pipes
 are read to their end

---
 headers/kefir/cli/input.h |  1 +
 source/cli/input.c        | 13 ++++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/headers/kefir/cli/input.h b/headers/kefir/cli/input.h
index 6e6295e..6731b02 100644
--- a/headers/kefir/cli/input.h
+++ b/headers/kefir/cli/input.h
@@ -26,6 +26,7 @@
 
 typedef struct kefir_cli_input {
     const char *filepath;
+    kefir_bool_t mapped;
 
     kefir_size_t length;
     void *content;
diff --git a/source/cli/input.c b/source/cli/input.c
index b327e8d..73b538a 100644
--- a/source/cli/input.c
+++ b/source/cli/input.c
@@ -34,7 +34,8 @@ kefir_result_t kefir_cli_input_open(struct kefir_mem *mem, struct kefir_cli_inpu
     REQUIRE(input != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid CLI input"));
 
     input->filepath = filepath;
-    int fd;
+    input->mapped = false;
+    int fd = STDIN_FILENO;
     if (filepath != NULL) {
         fd = open(filepath, O_RDONLY);
         REQUIRE(fd >= 0, KEFIR_SET_OS_ERROR("Failed to open file"));
@@ -42,15 +43,16 @@ kefir_result_t kefir_cli_input_open(struct kefir_mem *mem, struct kefir_cli_inpu
         struct stat statbuf;
         REQUIRE(fstat(fd, &statbuf) >= 0, KEFIR_SET_OS_ERROR("Failed to fstat file"));
 
-        if (statbuf.st_size > 0) {
+        input->mapped = S_ISREG(statbuf.st_mode);
+        if (input->mapped && statbuf.st_size > 0) {
             input->content = mmap(NULL, statbuf.st_size, PROT_READ, MAP_SHARED, fd, 0);
             REQUIRE(input->content != MAP_FAILED, KEFIR_SET_OS_ERROR("Failed to mmap file"));
         } else {
             input->content = "";
         }
         input->length = statbuf.st_size;
-    } else {
-        fd = STDIN_FILENO;
+    }
+    if (!input->mapped) {
         input->content = NULL;
         input->length = 0;
 
@@ -67,6 +69,7 @@ kefir_result_t kefir_cli_input_open(struct kefir_mem *mem, struct kefir_cli_inpu
             memcpy(((char *) input->content) + input->length, chunk, sz);
             input->length += sz;
         }
+        REQUIRE(sz == 0, KEFIR_SET_OS_ERROR("Failed to read input"));
     }
     close(fd);
     return KEFIR_OK;
@@ -76,7 +79,7 @@ kefir_result_t kefir_cli_input_close(struct kefir_mem *mem, struct kefir_cli_inp
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(input != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid CLI input"));
 
-    if (input->filepath != NULL) {
+    if (input->mapped) {
         if (input->length > 0) {
             int err = munmap(input->content, input->length);
             REQUIRE(err == 0, KEFIR_SET_OS_ERROR("Failed to unmap file"));
-- 
2.43.0


From 1de342720d8966d018a1a77b974265d358ae415c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:43 +0000
Subject: [PATCH 61/73] fix: diagnostics with long file names stay within the
 error buffer

---
 source/core/source_error.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/core/source_error.c b/source/core/source_error.c
index 0d22224..454d0d1 100644
--- a/source/core/source_error.c
+++ b/source/core/source_error.c
@@ -63,9 +63,13 @@ kefir_result_t kefir_set_source_errorf(kefir_result_t code, const struct kefir_s
     char *message_buf = source_error->message;
     kefir_size_t message_max_len = KEFIR_SOURCE_ERROR_MESSAGE_LENGTH;
     if (location != NULL) {
-        int diff;
-        snprintf(source_error->message, KEFIR_SOURCE_ERROR_MESSAGE_LENGTH, "%s@%u:%u %n", location->source,
-                 location->line, location->column, &diff);
+        int diff = snprintf(source_error->message, KEFIR_SOURCE_ERROR_MESSAGE_LENGTH, "%s@%u:%u ", location->source,
+                            location->line, location->column);
+        if (diff < 0) {
+            diff = 0;
+        } else if ((kefir_size_t) diff >= KEFIR_SOURCE_ERROR_MESSAGE_LENGTH) {
+            diff = KEFIR_SOURCE_ERROR_MESSAGE_LENGTH - 1;
+        }
         message_buf += diff;
         message_max_len -= diff;
     }
-- 
2.43.0


From 4e192dc8b93f3c2d51defd723c4e983e0231db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:41 +0000
Subject: [PATCH 62/73] fix: an include search continues past a path component
 that is not a directory

---
 source/cli/filesystem_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/cli/filesystem_source.c b/source/cli/filesystem_source.c
index 2f62df3..805965c 100644
--- a/source/cli/filesystem_source.c
+++ b/source/cli/filesystem_source.c
@@ -95,7 +95,7 @@ static kefir_result_t try_open_file(struct kefir_mem *mem, const char *root, con
     }
     char *resolved_path = realpath(path, NULL);
     KEFIR_FREE(mem, path);
-    if (resolved_path == NULL && errno == ENOENT) {
+    if (resolved_path == NULL && (errno == ENOENT || errno == ENOTDIR)) {
         return KEFIR_SET_ERROR(KEFIR_NOT_FOUND, "Cannot find requested file");
     } else if (resolved_path == NULL) {
         return KEFIR_SET_OS_ERROR("Failed to determine real path");
-- 
2.43.0


From edc33d8d06b4f61df335d3d26be701235ccec978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:06 +0000
Subject: [PATCH 63/73] fix: --include works together with preprocessing only

---
 headers/kefir/compiler/compiler.h |  2 ++
 source/compiler/compiler.c        | 27 ++++++++++++++++++++++-----
 source/main/main.c                |  7 ++++++-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/headers/kefir/compiler/compiler.h b/headers/kefir/compiler/compiler.h
index 2f35008..b3ee823 100644
--- a/headers/kefir/compiler/compiler.h
+++ b/headers/kefir/compiler/compiler.h
@@ -78,6 +78,8 @@ kefir_result_t kefir_compiler_preprocess_lex(struct kefir_mem *, struct kefir_co
                                              const char *);
 kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *, struct kefir_compiler_context *,
                                                  struct kefir_token_buffer *, const char *, const char *);
+kefir_result_t kefir_compiler_preprocess_include_only(struct kefir_mem *, struct kefir_compiler_context *,
+                                                      struct kefir_token_buffer *, const char *, const char *);
 kefir_result_t kefir_compiler_lex(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
                                   const char *, kefir_size_t, const char *);
 kefir_result_t kefir_compiler_parse(struct kefir_mem *, struct kefir_compiler_context *, struct kefir_token_buffer *,
diff --git a/source/compiler/compiler.c b/source/compiler/compiler.c
index 8937a8a..9a5607d 100644
--- a/source/compiler/compiler.c
+++ b/source/compiler/compiler.c
@@ -242,9 +242,13 @@ kefir_result_t kefir_compiler_preprocess_lex(struct kefir_mem *mem, struct kefir
     return KEFIR_OK;
 }
 
-kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct kefir_compiler_context *context,
-                                                 struct kefir_token_buffer *buffer, const char *source_id,
-                                                 const char *filepath) {
+static kefir_result_t preprocess_include_impl(struct kefir_mem *mem, struct kefir_compiler_context *context,
+                                              struct kefir_token_buffer *buffer, const char *source_id,
+                                              const char *filepath,
+                                              kefir_result_t (*preprocess)(struct kefir_mem *,
+                                                                           struct kefir_compiler_context *,
+                                                                           struct kefir_token_buffer *, const char *,
+                                                                           kefir_size_t, const char *, const char *)) {
     REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid memory allocator"));
     REQUIRE(context != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid compiler context"));
     REQUIRE(buffer != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "Expected valid token buffer"));
@@ -256,8 +260,7 @@ kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct k
     REQUIRE_OK(context->preprocessor_context.source_locator->open(mem, context->preprocessor_context.source_locator,
                                                                   filepath, false, NULL, &source_file));
 
-    res = kefir_compiler_preprocess_lex(mem, context, buffer, source_file.cursor.content, source_file.cursor.length,
-                                        source_id, filepath);
+    res = preprocess(mem, context, buffer, source_file.cursor.content, source_file.cursor.length, source_id, filepath);
     REQUIRE_ELSE(res == KEFIR_OK, {
         source_file.close(mem, &source_file);
         return res;
@@ -270,6 +273,20 @@ kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct k
     return KEFIR_OK;
 }
 
+kefir_result_t kefir_compiler_preprocess_include(struct kefir_mem *mem, struct kefir_compiler_context *context,
+                                                 struct kefir_token_buffer *buffer, const char *source_id,
+                                                 const char *filepath) {
+    REQUIRE_OK(preprocess_include_impl(mem, context, buffer, source_id, filepath, kefir_compiler_preprocess_lex));
+    return KEFIR_OK;
+}
+
+kefir_result_t kefir_compiler_preprocess_include_only(struct kefir_mem *mem, struct kefir_compiler_context *context,
+                                                      struct kefir_token_buffer *buffer, const char *source_id,
+                                                      const char *filepath) {
+    REQUIRE_OK(preprocess_include_impl(mem, context, buffer, source_id, filepath, kefir_compiler_preprocess));
+    return KEFIR_OK;
+}
+
 kefir_result_t kefir_compiler_lex(struct kefir_mem *mem, struct kefir_compiler_context *context,
                                   struct kefir_token_buffer *buffer, const char *content, kefir_size_t length,
                                   const char *source_id) {
diff --git a/source/main/main.c b/source/main/main.c
index ba4bb65..5a0bae6 100644
--- a/source/main/main.c
+++ b/source/main/main.c
@@ -158,7 +158,12 @@ static kefir_result_t include_predefined(struct kefir_mem *mem, struct kefir_cli
                                          struct kefir_token_buffer *tokens) {
     for (const struct kefir_list_entry *iter = kefir_list_head(&options->include_files); iter != NULL;
          kefir_list_next(&iter)) {
-        REQUIRE_OK(kefir_compiler_preprocess_include(mem, compiler, tokens, source_id, (const char *) iter->value));
+        ASSIGN_DECL_CAST(const char *, filepath, iter->value);
+        if (options->action == KEFIR_CLI_ACTION_PREPROCESS) {
+            REQUIRE_OK(kefir_compiler_preprocess_include_only(mem, compiler, tokens, source_id, filepath));
+        } else {
+            REQUIRE_OK(kefir_compiler_preprocess_include(mem, compiler, tokens, source_id, filepath));
+        }
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 938d7f933b71689ac7c20425df227a2c4fc8fe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:02 +0000
Subject: [PATCH 64/73] fix: void and function pointer arithmetic works with
 all operators when enabled

---
 .../nodes/assignment_operator.c               | 22 +++++++++++++++----
 source/ast-translator/nodes/unary_operation.c | 11 ++++++++--
 .../ast/analyzer/nodes/assignment_operator.c  |  4 +++-
 source/ast/analyzer/nodes/binary_operation.c  |  4 ++--
 .../constant_expression/binary_operation.c    | 11 ++++++++--
 5 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/source/ast-translator/nodes/assignment_operator.c b/source/ast-translator/nodes/assignment_operator.c
index 81327d6..4be79b8 100644
--- a/source/ast-translator/nodes/assignment_operator.c
+++ b/source/ast-translator/nodes/assignment_operator.c
@@ -393,9 +393,16 @@ static kefir_result_t translate_add(struct kefir_mem *mem, struct kefir_ast_tran
                 KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER,
                                 "Expected scalar pointer on the left side, and an integer on the right"));
 
+        const struct kefir_ast_type *referenced_type = target_normalized_type->referenced_type;
+        if (context->ast_context->configuration->analysis.ext_pointer_arithmetics &&
+            (referenced_type->tag == KEFIR_AST_TYPE_FUNCTION ||
+             kefir_ast_unqualified_type(referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+            referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
+        }
+
         struct kefir_ast_translator_type *translator_type = NULL;
-        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module,
-                                                 target_normalized_type->referenced_type, 0, &translator_type));
+        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module, referenced_type, 0,
+                                                 &translator_type));
 
         kefir_result_t res = KEFIR_OK;
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->value, builder, context));
@@ -478,9 +485,16 @@ static kefir_result_t translate_subtract(struct kefir_mem *mem, struct kefir_ast
                 KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER,
                                 "Expected scalar pointer on the left side, and an integer on the right"));
 
+        const struct kefir_ast_type *referenced_type = target_normalized_type->referenced_type;
+        if (context->ast_context->configuration->analysis.ext_pointer_arithmetics &&
+            (referenced_type->tag == KEFIR_AST_TYPE_FUNCTION ||
+             kefir_ast_unqualified_type(referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+            referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
+        }
+
         struct kefir_ast_translator_type *translator_type = NULL;
-        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module,
-                                                 target_normalized_type->referenced_type, 0, &translator_type));
+        REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module, referenced_type, 0,
+                                                 &translator_type));
 
         kefir_result_t res = KEFIR_OK;
         REQUIRE_CHAIN(&res, kefir_ast_translate_expression(mem, node->value, builder, context));
diff --git a/source/ast-translator/nodes/unary_operation.c b/source/ast-translator/nodes/unary_operation.c
index b1a1d2c..521bbf5 100644
--- a/source/ast-translator/nodes/unary_operation.c
+++ b/source/ast-translator/nodes/unary_operation.c
@@ -180,9 +180,16 @@ static kefir_result_t incdec_impl(struct kefir_mem *mem, struct kefir_ast_transl
                                                                                                                   : -1;
     switch (normalized_type->tag) {
         case KEFIR_AST_TYPE_SCALAR_POINTER: {
+            const struct kefir_ast_type *referenced_type = node->base.properties.type->referenced_type;
+            if (context->ast_context->configuration->analysis.ext_pointer_arithmetics &&
+                (referenced_type->tag == KEFIR_AST_TYPE_FUNCTION ||
+                 kefir_ast_unqualified_type(referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+                referenced_type = context->ast_context->type_traits->incomplete_type_substitute;
+            }
+
             struct kefir_ast_translator_type *translator_type = NULL;
-            REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module,
-                                                     node->base.properties.type->referenced_type, 0, &translator_type));
+            REQUIRE_OK(kefir_ast_translator_type_new(mem, context->environment, context->module, referenced_type, 0,
+                                                     &translator_type));
 
             kefir_result_t res = KEFIR_OK;
             REQUIRE_CHAIN(&res, KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_PUSHI64, diff));
diff --git a/source/ast/analyzer/nodes/assignment_operator.c b/source/ast/analyzer/nodes/assignment_operator.c
index 5e7a063..7afbecc 100644
--- a/source/ast/analyzer/nodes/assignment_operator.c
+++ b/source/ast/analyzer/nodes/assignment_operator.c
@@ -72,7 +72,9 @@ static kefir_result_t validate_compound_assignment(struct kefir_mem *mem, const
         case KEFIR_AST_ASSIGNMENT_ADD:
         case KEFIR_AST_ASSIGNMENT_SUBTRACT:
             if (target_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
-                REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(kefir_ast_unqualified_type(target_type->referenced_type)),
+                REQUIRE(!KEFIR_AST_TYPE_IS_INCOMPLETE(kefir_ast_unqualified_type(target_type->referenced_type)) ||
+                            (context->configuration->analysis.ext_pointer_arithmetics &&
+                             kefir_ast_unqualified_type(target_type->referenced_type)->tag == KEFIR_AST_TYPE_VOID),
                         KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &node->target->source_location,
                                                "Assignment target operand shall be a pointer to complete type"));
                 REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(value_type),
diff --git a/source/ast/analyzer/nodes/binary_operation.c b/source/ast/analyzer/nodes/binary_operation.c
index 76f3759..14239bd 100644
--- a/source/ast/analyzer/nodes/binary_operation.c
+++ b/source/ast/analyzer/nodes/binary_operation.c
@@ -113,8 +113,8 @@ static kefir_result_t analyze_subtraction(const struct kefir_ast_context *contex
         base->properties.type = context->type_traits->ptrdiff_type;
     } else if ((type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER && !KEFIR_AST_TYPE_IS_INCOMPLETE(type1->referenced_type)) ||
                (context->configuration->analysis.ext_pointer_arithmetics &&
-                type2->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
-                kefir_ast_unqualified_type(type2->referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+                type1->tag == KEFIR_AST_TYPE_SCALAR_POINTER &&
+                kefir_ast_unqualified_type(type1->referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
         REQUIRE(KEFIR_AST_TYPE_IS_INTEGRAL_TYPE(type2),
                 KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, location2, "Right operand shal have an integral type"));
         base->properties.type = type1;
diff --git a/source/ast/constant_expression/binary_operation.c b/source/ast/constant_expression/binary_operation.c
index 973ed24..f7d554d 100644
--- a/source/ast/constant_expression/binary_operation.c
+++ b/source/ast/constant_expression/binary_operation.c
@@ -58,9 +58,16 @@ static kefir_result_t evaluate_pointer_offset(struct kefir_mem *mem, const struc
 
     const struct kefir_ast_type *unqualified_type = kefir_ast_unqualified_type(node->properties.type);
     if (unqualified_type->tag == KEFIR_AST_TYPE_SCALAR_POINTER) {
+        const struct kefir_ast_type *referenced_type = unqualified_type->referenced_type;
+        if (context->configuration->analysis.ext_pointer_arithmetics &&
+            (referenced_type->tag == KEFIR_AST_TYPE_FUNCTION ||
+             kefir_ast_unqualified_type(referenced_type)->tag == KEFIR_AST_TYPE_VOID)) {
+            referenced_type = context->type_traits->incomplete_type_substitute;
+        }
+
         kefir_ast_target_environment_opaque_type_t opaque_type;
-        REQUIRE_OK(KEFIR_AST_TARGET_ENVIRONMENT_GET_TYPE(mem, context->target_env,
-                                                         node->properties.type->referenced_type, &opaque_type));
+        REQUIRE_OK(
+            KEFIR_AST_TARGET_ENVIRONMENT_GET_TYPE(mem, context->target_env, referenced_type, &opaque_type));
         kefir_result_t res =
             KEFIR_AST_TARGET_ENVIRONMENT_OBJECT_OFFSET(mem, context->target_env, opaque_type, index, &offset);
         REQUIRE_ELSE(res == KEFIR_OK, {
-- 
2.43.0


From f579b49bf5ef453e67506279ad9ca8adb3865e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:33 +0000
Subject: [PATCH 65/73] fix: missing braces of subobjects are permitted in
 static initializers as well when enabled

---
 .../ast-translator/scope/data_initializer.c   | 41 +++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/source/ast-translator/scope/data_initializer.c b/source/ast-translator/scope/data_initializer.c
index 59fbe3b..48f5560 100644
--- a/source/ast-translator/scope/data_initializer.c
+++ b/source/ast-translator/scope/data_initializer.c
@@ -24,6 +24,7 @@
 #include "kefir/ir/type_tree.h"
 #include "kefir/ast/constant_expression.h"
 #include "kefir/ast/runtime.h"
+#include "kefir/ast/type_conv.h"
 #include "kefir/ast/initializer_traversal.h"
 #include "kefir/core/source_error.h"
 
@@ -151,6 +152,37 @@ static const kefir_ir_string_literal_type_t StringLiteralTypes[] = {
     [KEFIR_AST_STRING_LITERAL_UNICODE32] = KEFIR_IR_STRING_LITERAL_UNICODE32,
     [KEFIR_AST_STRING_LITERAL_WIDE] = KEFIR_IR_STRING_LITERAL_UNICODE32};
 
+static kefir_result_t initialize_aggregate_with_scalar(struct traversal_param *param,
+                                                       struct kefir_ast_type_layout *type_layout, kefir_size_t slot,
+                                                       struct kefir_ast_node_base *expression) {
+    REQUIRE(param->context->configuration->analysis.missing_braces_subobj,
+            KEFIR_SET_SOURCE_ERROR(KEFIR_ANALYSIS_ERROR, &expression->source_location,
+                                   "Expected braces for subobject initialization"));
+
+    struct kefir_ast_initializer virtual_initializer = {.type = KEFIR_AST_INITIALIZER_LIST,
+                                                        .source_location = expression->source_location};
+    struct kefir_ast_initializer virtual_expr_initializer = {.type = KEFIR_AST_INITIALIZER_EXPRESSION,
+                                                             .expression = expression,
+                                                             .source_location = expression->source_location};
+    struct kefir_ast_initializer_list_entry virtual_expr_initializer_entry = {
+        .designation = NULL, .designator = NULL, .value = &virtual_expr_initializer};
+
+    REQUIRE_OK(kefir_list_init(&virtual_initializer.list.initializers));
+    REQUIRE_OK(kefir_list_insert_after(param->mem, &virtual_initializer.list.initializers,
+                                       kefir_list_tail(&virtual_initializer.list.initializers),
+                                       &virtual_expr_initializer_entry));
+
+    kefir_result_t res = kefir_ast_translate_data_initializer(param->mem, param->context, param->module, type_layout,
+                                                              param->type, &virtual_initializer, param->data, slot);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_free(param->mem, &virtual_initializer.list.initializers);
+        return res;
+    });
+
+    REQUIRE_OK(kefir_list_free(param->mem, &virtual_initializer.list.initializers));
+    return KEFIR_OK;
+}
+
 static kefir_result_t visit_value(const struct kefir_ast_designator *designator, struct kefir_ast_node_base *expression,
                                   void *payload) {
     REQUIRE(expression != NULL, KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Expected valid AST expression node"));
@@ -162,6 +194,15 @@ static kefir_result_t visit_value(const struct kefir_ast_designator *designator,
     REQUIRE_OK(resolve_designated_slot(param->type_layout, designator, &param->ir_type_tree, param->base_slot,
                                        &resolved_layout, &slot, &expression->source_location));
 
+    const struct kefir_ast_type *expr_type =
+        KEFIR_AST_TYPE_CONV_EXPRESSION_ALL(param->mem, param->context->type_bundle, expression->properties.type);
+    REQUIRE(expr_type != NULL, KEFIR_SET_ERROR(KEFIR_OBJALLOC_FAILURE, "Failed to perform lvalue conversions"));
+    if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(kefir_ast_unqualified_type(resolved_layout->type)) &&
+        KEFIR_AST_TYPE_IS_SCALAR_TYPE(expr_type)) {
+        REQUIRE_OK(initialize_aggregate_with_scalar(param, resolved_layout, slot, expression));
+        return KEFIR_OK;
+    }
+
     struct kefir_ast_constant_expression_value uncasted_value, value;
     REQUIRE_OK(kefir_ast_constant_expression_value_evaluate(param->mem, param->context, expression, &uncasted_value));
     REQUIRE_OK(kefir_ast_constant_expression_value_cast(param->mem, param->context, &value, &uncasted_value, expression,
-- 
2.43.0


From 39288b1741331919ea6068731c8f10a1a012621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:14 +0000
Subject: [PATCH 66/73] fix: initializing a subobject with missing braces keeps
 the operand stack balanced

---
 source/ast-translator/initializer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/ast-translator/initializer.c b/source/ast-translator/initializer.c
index 5b34841..a1864c8 100644
--- a/source/ast-translator/initializer.c
+++ b/source/ast-translator/initializer.c
@@ -125,6 +125,7 @@ static kefir_result_t traverse_scalar(const struct kefir_ast_designator *designa
     if (!KEFIR_AST_TYPE_IS_SCALAR_TYPE(type_layout->type) && KEFIR_AST_TYPE_IS_SCALAR_TYPE(expr_type)) {
         REQUIRE_OK(
             initialize_aggregate_with_scalar(param->mem, param->context, param->builder, type_layout, expression));
+        REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(param->builder, KEFIR_IROPCODE_POP, 0));
     } else {
         REQUIRE_OK(kefir_ast_translate_expression(param->mem, expression, param->builder, param->context));
 
-- 
2.43.0


From 77548f854e5a666e337a50cc041eaa4c95012cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:47 +0000
Subject: [PATCH 67/73] fix: infinite constants are valid JSON in dumps

---
 source/util/json.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/util/json.c b/source/util/json.c
index 2589112..5848f4f 100644
--- a/source/util/json.c
+++ b/source/util/json.c
@@ -21,6 +21,7 @@
 #include "kefir/util/json.h"
 #include "kefir/core/util.h"
 #include "kefir/core/error.h"
+#include <math.h>
 #include <string.h>
 
 kefir_result_t kefir_json_output_init(struct kefir_json_output *json, FILE *file, kefir_size_t indent) {
@@ -312,7 +313,7 @@ kefir_result_t kefir_json_output_float(struct kefir_json_output *json, kefir_flo
     REQUIRE_OK(write_separator(json));
     REQUIRE_OK(validate_value(json));
 
-    fprintf(json->file, KEFIR_FLOAT64_FMT, value);
+    fprintf(json->file, isfinite(value) ? KEFIR_FLOAT64_FMT : "\"" KEFIR_FLOAT64_FMT "\"", value);
     return KEFIR_OK;
 }
 
@@ -322,9 +323,9 @@ kefir_result_t kefir_json_output_long_double(struct kefir_json_output *json, kef
     REQUIRE_OK(validate_value(json));
 
     if (getenv(KEFIR_DISABLE_LONG_DOUBLE_FLAG) != NULL) {
-        fprintf(json->file, "%lf", (double) value);
+        fprintf(json->file, isfinite((double) value) ? "%lf" : "\"%lf\"", (double) value);
     } else {
-        fprintf(json->file, KEFIR_LONG_DOUBLE_FMT, value);
+        fprintf(json->file, isfinite(value) ? KEFIR_LONG_DOUBLE_FMT : "\"" KEFIR_LONG_DOUBLE_FMT "\"", value);
     }
     return KEFIR_OK;
 }
-- 
2.43.0


From 65163397b09f2dcabbd218bde7a450ab2ab768c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:04 +0000
Subject: [PATCH 68/73] fix: parameters hide type names in the body of a
 function

---
 source/parser/rules/function_definition.c | 53 +++++++++++++++++++----
 1 file changed, 45 insertions(+), 8 deletions(-)

diff --git a/source/parser/rules/function_definition.c b/source/parser/rules/function_definition.c
index 5b8019e..6cf34ce 100644
--- a/source/parser/rules/function_definition.c
+++ b/source/parser/rules/function_definition.c
@@ -20,6 +20,7 @@
 
 #include "kefir/parser/rule_helpers.h"
 #include "kefir/ast/downcast.h"
+#include "kefir/ast/node_helpers.h"
 
 static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser *parser,
                                       struct kefir_ast_declarator_specifier_list *specifiers) {
@@ -85,6 +86,44 @@ static kefir_result_t scan_declaration_list(struct kefir_mem *mem, struct kefir_
     return KEFIR_OK;
 }
 
+static kefir_result_t declare_parameters(struct kefir_mem *mem, struct kefir_parser *parser,
+                                         const struct kefir_ast_declarator *declarator) {
+    const struct kefir_ast_declarator_function *function = NULL;
+    REQUIRE_OK(kefir_ast_declarator_unpack_function(declarator, &function));
+    REQUIRE(function != NULL, KEFIR_OK);
+
+    for (const struct kefir_list_entry *iter = kefir_list_head(&function->parameters); iter != NULL;
+         kefir_list_next(&iter)) {
+        ASSIGN_DECL_CAST(struct kefir_ast_node_base *, parameter, iter->value);
+        if (parameter->klass->type == KEFIR_AST_DECLARATION) {
+            struct kefir_ast_declaration *declaration = NULL;
+            struct kefir_ast_init_declarator *param_declaration = NULL;
+            REQUIRE_OK(kefir_ast_downcast_declaration(parameter, &declaration, false));
+            REQUIRE_OK(kefir_ast_declaration_unpack_single(declaration, &param_declaration));
+            const char *identifier = NULL;
+            REQUIRE_OK(kefir_ast_declarator_unpack_identifier(param_declaration->declarator, &identifier));
+            if (identifier != NULL) {
+                REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
+            }
+        }
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t scan_definition(struct kefir_mem *mem, struct kefir_parser *parser,
+                                      const struct kefir_ast_declarator *declarator,
+                                      struct kefir_list *declaration_list,
+                                      struct kefir_ast_node_base **compound_statement) {
+    REQUIRE_OK(scan_declaration_list(mem, parser, declaration_list));
+    kefir_result_t res = declare_parameters(mem, parser, declarator);
+    REQUIRE_CHAIN(&res, KEFIR_PARSER_RULE_APPLY(mem, parser, compound_statement, compound_statement));
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_list_free(mem, declaration_list);
+        return res;
+    });
+    return KEFIR_OK;
+}
+
 static kefir_result_t scan_components(struct kefir_mem *mem, struct kefir_parser *parser,
                                       struct kefir_ast_declarator_specifier_list *specifiers,
                                       struct kefir_ast_declarator **declarator, struct kefir_list *declaration_list,
@@ -95,15 +134,13 @@ static kefir_result_t scan_components(struct kefir_mem *mem, struct kefir_parser
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
     });
-    res = scan_declaration_list(mem, parser, declaration_list);
-    REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_ast_declarator_free(mem, *declarator);
-        kefir_ast_declarator_specifier_list_free(mem, specifiers);
-        return res;
-    });
-    res = KEFIR_PARSER_RULE_APPLY(mem, parser, compound_statement, compound_statement);
+    const kefir_size_t scope_depth = kefir_list_length(&parser->scope.block_scopes);
+    REQUIRE_CHAIN(&res, kefir_parser_scope_push_block(mem, &parser->scope));
+    REQUIRE_CHAIN(&res, scan_definition(mem, parser, *declarator, declaration_list, compound_statement));
+    while (kefir_list_length(&parser->scope.block_scopes) > scope_depth) {
+        kefir_parser_scope_pop_block(mem, &parser->scope);
+    }
     REQUIRE_ELSE(res == KEFIR_OK, {
-        kefir_list_free(mem, declaration_list);
         kefir_ast_declarator_free(mem, *declarator);
         kefir_ast_declarator_specifier_list_free(mem, specifiers);
         return res;
-- 
2.43.0


From c35eba640e6453c9857107ccc495df6e51c5b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:56 +0000
Subject: [PATCH 69/73] fix: a declarator is in scope in the rest of its
 declaration

---
 source/parser/rules/declaration.c | 85 +++++++++++++++++--------------
 1 file changed, 46 insertions(+), 39 deletions(-)

diff --git a/source/parser/rules/declaration.c b/source/parser/rules/declaration.c
index d12c203..d9fc9a0 100644
--- a/source/parser/rules/declaration.c
+++ b/source/parser/rules/declaration.c
@@ -25,7 +25,39 @@
 #include "kefir/core/source_error.h"
 #include "kefir/ast/downcast.h"
 
-static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+static kefir_result_t is_type_definition(const struct kefir_ast_declarator_specifier_list *specifiers,
+                                         kefir_bool_t *is_typedef) {
+    *is_typedef = false;
+    struct kefir_ast_declarator_specifier *specifier = NULL;
+    kefir_result_t res = KEFIR_OK;
+    for (struct kefir_list_entry *iter = kefir_ast_declarator_specifier_list_iter(specifiers, &specifier);
+         !*is_typedef && iter != NULL && res == KEFIR_OK;
+         res = kefir_ast_declarator_specifier_list_next(&iter, &specifier)) {
+        if (specifier->klass == KEFIR_AST_STORAGE_CLASS_SPECIFIER &&
+            specifier->storage_class == KEFIR_AST_STORAGE_SPECIFIER_TYPEDEF) {
+            *is_typedef = true;
+        }
+    }
+    REQUIRE_OK(res);
+    return KEFIR_OK;
+}
+
+static kefir_result_t update_scope(struct kefir_mem *mem, struct kefir_parser *parser,
+                                   struct kefir_ast_declarator *declarator, kefir_bool_t is_typedef) {
+    const char *identifier = NULL;
+    REQUIRE_OK(kefir_ast_declarator_unpack_identifier(declarator, &identifier));
+    if (identifier != NULL) {
+        if (is_typedef) {
+            REQUIRE_OK(kefir_parser_scope_declare_typedef(mem, &parser->scope, identifier));
+        } else {
+            REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
+        }
+    }
+    return KEFIR_OK;
+}
+
+static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder,
+                                      kefir_bool_t *is_typedef) {
     struct kefir_ast_declarator_specifier_list list;
     REQUIRE_OK(kefir_ast_declarator_specifier_list_init(&list));
     kefir_result_t res = builder->parser->ruleset.declaration_specifier_list(mem, builder->parser, &list);
@@ -33,7 +65,8 @@ static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser
         kefir_ast_declarator_specifier_list_free(mem, &list);
         return res;
     });
-    res = kefir_parser_ast_builder_declaration(mem, builder, &list);
+    res = is_type_definition(&list, is_typedef);
+    REQUIRE_CHAIN(&res, kefir_parser_ast_builder_declaration(mem, builder, &list));
     REQUIRE_ELSE(res == KEFIR_OK, {
         kefir_ast_declarator_specifier_list_free(mem, &list);
         return res;
@@ -42,7 +75,8 @@ static kefir_result_t scan_specifiers(struct kefir_mem *mem, struct kefir_parser
     return KEFIR_OK;
 }
 
-static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder) {
+static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_parser_ast_builder *builder,
+                                            kefir_bool_t is_typedef) {
     struct kefir_ast_declarator *declarator = NULL;
     struct kefir_ast_initializer *initializer = NULL;
     kefir_result_t res = KEFIR_OK;
@@ -50,6 +84,11 @@ static kefir_result_t scan_init_declaration(struct kefir_mem *mem, struct kefir_
     struct kefir_source_location source_location =
         kefir_parser_token_cursor_at(builder->parser->cursor, 0)->source_location;
     REQUIRE_OK(builder->parser->ruleset.declarator(mem, builder->parser, &declarator));
+    res = update_scope(mem, builder->parser, declarator, is_typedef);
+    REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_declarator_free(mem, declarator);
+        return res;
+    });
     if (PARSER_TOKEN_IS_PUNCTUATOR(builder->parser, 0, KEFIR_PUNCTUATOR_ASSIGN)) {
         REQUIRE_CHAIN(&res, PARSER_SHIFT(builder->parser));
         REQUIRE_CHAIN(&res, builder->parser->ruleset.initializer(mem, builder->parser, &initializer));
@@ -82,7 +121,8 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
         kefir_parser_ast_builder_scan(mem, builder, KEFIR_PARSER_RULE_FN(parser, static_assertion), NULL);
     REQUIRE(res == KEFIR_NO_MATCH, res);
 
-    REQUIRE_OK(scan_specifiers(mem, builder));
+    kefir_bool_t is_typedef = false;
+    REQUIRE_OK(scan_specifiers(mem, builder, &is_typedef));
     kefir_bool_t scan_init_decl = !PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_SEMICOLON);
     if (!scan_init_decl) {
         struct kefir_ast_init_declarator *init_declarator = NULL;
@@ -91,7 +131,7 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     }
 
     while (scan_init_decl) {
-        REQUIRE_MATCH_OK(&res, scan_init_declaration(mem, builder),
+        REQUIRE_MATCH_OK(&res, scan_init_declaration(mem, builder, is_typedef),
                          KEFIR_SET_SOURCE_ERROR(KEFIR_SYNTAX_ERROR, PARSER_TOKEN_LOCATION(parser, 0),
                                                 "Expected either init declaration or semicolon"));
         if (PARSER_TOKEN_IS_PUNCTUATOR(parser, 0, KEFIR_PUNCTUATOR_COMMA)) {
@@ -109,37 +149,6 @@ static kefir_result_t builder_callback(struct kefir_mem *mem, struct kefir_parse
     return KEFIR_OK;
 }
 
-static kefir_result_t update_scope(struct kefir_mem *mem, struct kefir_parser *parser,
-                                   struct kefir_ast_declaration *declaration) {
-    kefir_bool_t is_typedef = false;
-    struct kefir_ast_declarator_specifier *specifier = NULL;
-    kefir_result_t res = KEFIR_OK;
-    for (struct kefir_list_entry *iter = kefir_ast_declarator_specifier_list_iter(&declaration->specifiers, &specifier);
-         !is_typedef && iter != NULL && res == KEFIR_OK;
-         res = kefir_ast_declarator_specifier_list_next(&iter, &specifier)) {
-        if (specifier->klass == KEFIR_AST_STORAGE_CLASS_SPECIFIER &&
-            specifier->storage_class == KEFIR_AST_STORAGE_SPECIFIER_TYPEDEF) {
-            is_typedef = true;
-        }
-    }
-    REQUIRE_OK(res);
-
-    for (const struct kefir_list_entry *iter = kefir_list_head(&declaration->init_declarators); iter != NULL;
-         kefir_list_next(&iter)) {
-        ASSIGN_DECL_CAST(struct kefir_ast_init_declarator *, declaration, iter->value);
-        const char *identifier;
-        REQUIRE_OK(kefir_ast_declarator_unpack_identifier(declaration->declarator, &identifier));
-        if (identifier != NULL) {
-            if (is_typedef) {
-                REQUIRE_OK(kefir_parser_scope_declare_typedef(mem, &parser->scope, identifier));
-            } else {
-                REQUIRE_OK(kefir_parser_scope_declare_variable(mem, &parser->scope, identifier));
-            }
-        }
-    }
-    return KEFIR_OK;
-}
-
 kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(declaration)(struct kefir_mem *mem, struct kefir_parser *parser,
                                                         struct kefir_ast_node_base **result, void *payload) {
     APPLY_PROLOGUE(mem, parser, result, payload);
@@ -147,9 +156,7 @@ kefir_result_t KEFIR_PARSER_RULE_FN_PREFIX(declaration)(struct kefir_mem *mem, s
 
     struct kefir_ast_declaration *decl_list = NULL;
     kefir_result_t res = kefir_ast_downcast_declaration(*result, &decl_list, false);
-    if (res == KEFIR_OK) {
-        res = update_scope(mem, parser, decl_list);
-    } else if (res == KEFIR_NO_MATCH) {
+    if (res == KEFIR_NO_MATCH) {
         if ((*result)->klass->type == KEFIR_AST_STATIC_ASSERTION) {
             res = KEFIR_OK;
         } else {
-- 
2.43.0


From 20ff36f0b57ccec526617c859bed55764ab227f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:14 +0000
Subject: [PATCH 70/73] fix: the halves of a long double constant do not depend
 on padding bytes

---
 source/codegen/amd64/system-v/abi/static_data.c | 2 ++
 source/ir/instr.c                               | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/codegen/amd64/system-v/abi/static_data.c b/source/codegen/amd64/system-v/abi/static_data.c
index 03021ee..7778855 100644
--- a/source/codegen/amd64/system-v/abi/static_data.c
+++ b/source/codegen/amd64/system-v/abi/static_data.c
@@ -349,6 +349,8 @@ static kefir_result_t long_double_static_data(const struct kefir_ir_type *type,
 
         case KEFIR_IR_DATA_VALUE_LONG_DOUBLE:
             value.long_double = entry->value.long_double;
+            // Only 16 bits of the upper half belong to the value, the rest is padding with unspecified contents
+            value.uint64[1] &= 0xffffull;
             break;
 
         default:
diff --git a/source/ir/instr.c b/source/ir/instr.c
index fa14bbe..3359047 100644
--- a/source/ir/instr.c
+++ b/source/ir/instr.c
@@ -144,7 +144,8 @@ kefir_uint64_t kefir_ir_long_double_upper_half(kefir_long_double_t value) {
     } else {
         volatile union long_double_halves halves = {.halves = {0, 0}};
         halves.long_double = value;
-        return halves.halves[1];
+        // Only 16 bits of the upper half belong to the value, the rest is padding with unspecified contents
+        return halves.halves[1] & 0xffffull;
     }
 }
 
-- 
2.43.0


From d4c7686223fef2323a8cfa3625d835f7c8dc311e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:45 +0000
Subject: [PATCH 71/73] fix: allocation failures during preprocessing are
 reported without leaks

An allocation failure was ignored when inserting the first node of a hash tree, pasting punctuators or pushing a
parsed node, and type layouts and tokens leaked when a later allocation failed.
---
 source/ast-translator/environment.c | 5 +++++
 source/core/hashtree.c              | 1 +
 source/lexer/lexer.c                | 6 +++++-
 source/parser/builder.c             | 2 +-
 source/preprocessor/directives.c    | 6 +++++-
 source/preprocessor/user_macro.c    | 5 ++++-
 6 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/source/ast-translator/environment.c b/source/ast-translator/environment.c
index 8590621..830e1de 100644
--- a/source/ast-translator/environment.c
+++ b/source/ast-translator/environment.c
@@ -65,6 +65,7 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
     });
     res = KEFIR_IRBUILDER_TYPE_FREE(&builder);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
@@ -72,6 +73,7 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
 
     res = kefir_ast_translator_evaluate_type_layout(mem, env, env_type->layout, &env_type->type);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
@@ -79,6 +81,7 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
 
     res = KEFIR_IR_TARGET_PLATFORM_GET_TYPE(mem, env->target_platform, &env_type->type, &env_type->target_type);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
@@ -87,6 +90,8 @@ static kefir_result_t target_env_get_type(struct kefir_mem *mem, const struct ke
     struct kefir_ir_target_type_info ir_type_info;
     res = KEFIR_IR_TARGET_PLATFORM_TYPE_INFO(mem, env->target_platform, env_type->target_type, 0, &ir_type_info);
     REQUIRE_ELSE(res == KEFIR_OK, {
+        KEFIR_IR_TARGET_PLATFORM_FREE_TYPE(mem, env->target_platform, env_type->target_type);
+        kefir_ast_type_layout_free(mem, env_type->layout);
         kefir_ir_type_free(mem, &env_type->type);
         KEFIR_FREE(mem, env_type);
         return res;
diff --git a/source/core/hashtree.c b/source/core/hashtree.c
index 67512ea..af2f983 100644
--- a/source/core/hashtree.c
+++ b/source/core/hashtree.c
@@ -143,6 +143,7 @@ kefir_result_t kefir_hashtree_insert(struct kefir_mem *mem, struct kefir_hashtre
     kefir_hashtree_hash_t hash = tree->ops->hash(key, tree->ops->data);
     if (tree->root == NULL) {
         tree->root = node_alloc(mem, hash, NULL, key, value);
+        REQUIRE(tree->root != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate hash tree node"));
         return KEFIR_OK;
     } else {
         return node_insert(mem, tree, tree->root, hash, key, value, NULL, false);
diff --git a/source/lexer/lexer.c b/source/lexer/lexer.c
index 33928cd..458c99b 100644
--- a/source/lexer/lexer.c
+++ b/source/lexer/lexer.c
@@ -157,7 +157,11 @@ kefir_result_t kefir_lexer_populate_buffer(struct kefir_mem *mem, struct kefir_t
         struct kefir_token token = {0};
         REQUIRE_OK(kefir_lexer_next(mem, lexer, &token));
         scan_tokens = token.klass != KEFIR_TOKEN_SENTINEL;
-        REQUIRE_OK(kefir_token_buffer_emplace(mem, buffer, &token));
+        kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_token_free(mem, &token);
+            return res;
+        });
     }
     return KEFIR_OK;
 }
diff --git a/source/parser/builder.c b/source/parser/builder.c
index 76c32e2..6cd292c 100644
--- a/source/parser/builder.c
+++ b/source/parser/builder.c
@@ -97,7 +97,7 @@ kefir_result_t kefir_parser_ast_builder_scan(struct kefir_mem *mem, struct kefir
     kefir_result_t res = kefir_parser_ast_builder_push(mem, builder, node);
     REQUIRE_ELSE(res == KEFIR_OK, {
         KEFIR_AST_NODE_FREE(mem, node);
-        return KEFIR_OK;
+        return res;
     });
     return KEFIR_OK;
 }
diff --git a/source/preprocessor/directives.c b/source/preprocessor/directives.c
index 97d061e..5fa7b94 100644
--- a/source/preprocessor/directives.c
+++ b/source/preprocessor/directives.c
@@ -150,7 +150,11 @@ static kefir_result_t scan_pp_tokens(struct kefir_mem *mem,
             scan_tokens = false;
             REQUIRE_OK(kefir_token_free(mem, &next_token));
         } else {
-            REQUIRE_OK(kefir_token_buffer_emplace(mem, buffer, &next_token));
+            kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &next_token);
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_free(mem, &next_token);
+                return res;
+            });
         }
     }
     directive_scanner->newline_flag = true;
diff --git a/source/preprocessor/user_macro.c b/source/preprocessor/user_macro.c
index 1b0e511..9bb49d2 100644
--- a/source/preprocessor/user_macro.c
+++ b/source/preprocessor/user_macro.c
@@ -285,7 +285,10 @@ static kefir_result_t macro_concat_punctuators(struct kefir_mem *mem, struct kef
             struct kefir_token token;
             REQUIRE_OK(kefir_token_new_punctuator(Combinations[i].result, &token));
             kefir_result_t res = kefir_token_buffer_emplace(mem, buffer, &token);
-            REQUIRE_ELSE(res == KEFIR_OK, { kefir_token_free(mem, &token); });
+            REQUIRE_ELSE(res == KEFIR_OK, {
+                kefir_token_free(mem, &token);
+                return res;
+            });
             REQUIRE_OK(kefir_token_free(mem, &token));
             return KEFIR_OK;
         }
-- 
2.43.0


From be663db778d2f5e58a2e8d929e6d45b75ca8381c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:00 +0000
Subject: [PATCH 72/73] fix: a long double third clause of a for statement is
 popped completely

---
 source/ast-translator/nodes/for_statement.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/ast-translator/nodes/for_statement.c b/source/ast-translator/nodes/for_statement.c
index 4a80cfa..53e8de4 100644
--- a/source/ast-translator/nodes/for_statement.c
+++ b/source/ast-translator/nodes/for_statement.c
@@ -83,6 +83,9 @@ kefir_result_t kefir_ast_translate_for_statement_node(struct kefir_mem *mem,
                 KEFIR_SET_ERROR(KEFIR_INTERNAL_ERROR, "Unable to obtain normalized expression type"));
         REQUIRE_OK(kefir_ast_translate_expression(mem, node->tail, builder, context));
         if (tail_type->tag != KEFIR_AST_TYPE_VOID) {
+            if (KEFIR_AST_TYPE_IS_LONG_DOUBLE(tail_type)) {
+                REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
+            }
             REQUIRE_OK(KEFIR_IRBUILDER_BLOCK_APPENDI64(builder, KEFIR_IROPCODE_POP, 0));
         }
     }
-- 
2.43.0


From 7591c5de0ca14c04698958b7d81ccbb2b3c56eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:13 +0000
Subject: [PATCH 73/73] fix: a malformed attribute does not leak the declarator
 or specifier it follows

---
 source/parser/rules/declaration_specifier.c | 16 ++++++++++------
 source/parser/rules/declarator.c            | 12 ++++++++++--
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/source/parser/rules/declaration_specifier.c b/source/parser/rules/declaration_specifier.c
index 2dbd65f..e55666a 100644
--- a/source/parser/rules/declaration_specifier.c
+++ b/source/parser/rules/declaration_specifier.c
@@ -255,13 +255,15 @@ static kefir_result_t scan_struct_specifier(struct kefir_mem *mem, struct kefir_
         return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST declarator specifier");
     });
 
-    *specifier_ptr = decl_specifier;
-
     if (complete) {
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_specifier_free(mem, decl_specifier);
+            return res;
+        });
     }
 
+    *specifier_ptr = decl_specifier;
     return KEFIR_OK;
 }
 
@@ -363,13 +365,15 @@ static kefir_result_t scan_enum_specifier(struct kefir_mem *mem, struct kefir_pa
         return KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "Failed to allocate AST declarator specifier");
     });
 
-    *specifier_ptr = decl_specifier;
-
     if (complete) {
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_specifier_free(mem, decl_specifier);
+            return res;
+        });
     }
 
+    *specifier_ptr = decl_specifier;
     return KEFIR_OK;
 }
 
diff --git a/source/parser/rules/declarator.c b/source/parser/rules/declarator.c
index 9168937..096e13b 100644
--- a/source/parser/rules/declarator.c
+++ b/source/parser/rules/declarator.c
@@ -457,7 +457,11 @@ kefir_result_t kefir_parser_scan_declarator(struct kefir_mem *mem, struct kefir_
     } else {
         REQUIRE_OK(res);
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_free(mem, *declarator_ptr);
+            *declarator_ptr = NULL;
+            return res;
+        });
     }
     return res;
 }
@@ -556,7 +560,11 @@ kefir_result_t kefir_parser_scan_abstract_declarator(struct kefir_mem *mem, stru
     } else {
         REQUIRE_OK(res);
         SKIP_ATTRIBUTES(&res, mem, parser);
-        REQUIRE_OK(res);
+        REQUIRE_ELSE(res == KEFIR_OK, {
+            kefir_ast_declarator_free(mem, *declarator_ptr);
+            *declarator_ptr = NULL;
+            return res;
+        });
     }
 
     return res;
-- 
2.43.0

