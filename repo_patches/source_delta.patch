From b3f02ef91789028000d97f56daf5837b78fd9647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 001/105] fix: LLVM: integer division must not trap in inactive
 or padding lanes

---
 src/llvm_eval.cpp | 54 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index ba6e8aa..2ec1324 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -510,6 +510,49 @@ static void jitc_llvm_render_round2int(const Variable *v, const Variable *a0,
         v, jitc_is_uint(v) ? "fptoui" : "fptosi", a0, v->reg_index, v);
 }
 
+/// Integer division and remainder. These instructions trap when the divisor is
+/// zero or when the quotient overflows. This must not happen because some SIMD
+/// lanes may be inactive or lie past the end of the array, in which case their
+/// operands are arbitrary (potentially even poison values, hence the 'freeze').
+/// Such lanes produce the same values as the constant folding code in op.cpp
+/// (``eval_div()``, ``eval_mod()``).
+static void jitc_llvm_render_int_div(const Variable *v, const Variable *a0,
+                                     const Variable *a1, const char *inst) {
+    const char *one = jitc_llvm_ones_str[v->type],
+               *neg_one = jitc_llvm_ones_bit_str[v->type];
+
+    fmt("    $v_f = freeze $V\n"
+        "    $v_z = icmp eq $T $v_f, $z\n",
+        v, a1,
+        v, v, v);
+
+    if (jitc_is_uint(v)) {
+        fmt("    $v_d = select <$w x i1> $v_z, $T $s, $T $v_f\n"
+            "    $v_q = $s $V, $v_d\n"
+            "    $v = select <$w x i1> $v_z, $T $s, $V_q\n",
+            v, v, v, one, v, v,
+            v, inst, a0, v,
+            v, v, v, neg_one, v);
+        return;
+    }
+
+    // Division by -1 is rewritten as negation, which cannot overflow
+    fmt("    $v_n = icmp eq $T $v_f, $s\n"
+        "    $v_s = or <$w x i1> $v_z, $v_n\n"
+        "    $v_d = select <$w x i1> $v_s, $T $s, $T $v_f\n"
+        "    $v_q = $s $V, $v_d\n"
+        "    $v_r = sub $T $z, $v_q\n"
+        "    $v_t = select <$w x i1> $v_n, $V_r, $V_q\n"
+        "    $v = select <$w x i1> $v_z, $T $s, $V_t\n",
+        v, v, v, neg_one,
+        v, v, v,
+        v, v, v, one, v, v,
+        v, inst, a0, v,
+        v, v, v,
+        v, v, v, v,
+        v, v, v, neg_one, v);
+}
+
 static void jitc_llvm_render(Variable *v) {
     const char *stmt = nullptr;
     Variable *a0 = v->dep[0] ? jitc_var(v->dep[0]) : nullptr,
@@ -679,18 +722,13 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Div:
             if (jitc_is_float(v))
-                stmt = "    $v = fdiv $V, $v\n";
-            else if (jitc_is_uint(v))
-                stmt = "    $v = udiv $V, $v\n";
+                fmt("    $v = fdiv $V, $v\n", v, a0, a1);
             else
-                stmt = "    $v = sdiv $V, $v\n";
-            fmt(stmt, v, a0, a1);
+                jitc_llvm_render_int_div(v, a0, a1, jitc_is_uint(v) ? "udiv" : "sdiv");
             break;
 
         case VarKind::Mod:
-            fmt(jitc_is_uint(v) ? "    $v = urem $V, $v\n"
-                                : "    $v = srem $V, $v\n",
-                v, a0, a1);
+            jitc_llvm_render_int_div(v, a0, a1, jitc_is_uint(v) ? "urem" : "srem");
             break;
 
         case VarKind::MulHi:
-- 
2.43.0


From 950e08ee91b38087082ce73ccdc7e91b2d6b979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 002/105] fix: copysign of integer literals

---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 5d59f0d..e835607 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -980,7 +980,7 @@ uint32_t jitc_var_copysign(uint32_t a0, uint32_t a1) {
 
     uint32_t result = 0;
     if (info.simplify) {
-        if (info.literal)
+        if (info.literal && jitc_is_float(info.type))
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_copysign(l0, l1); }, v0, v1);
         else if (a0 == a1)
-- 
2.43.0


From 78672a8c3ed588801630b4fa84e6e8c790ee93a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 003/105] fix: '!=' and conversion to bool must treat NaN as
 unequal

---
 src/cuda_eval.cpp | 6 ++++--
 src/llvm_eval.cpp | 4 ++--
 src/op.cpp        | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/cuda_eval.cpp b/src/cuda_eval.cpp
index 85431ae..f38bbeb 100644
--- a/src/cuda_eval.cpp
+++ b/src/cuda_eval.cpp
@@ -850,7 +850,9 @@ static void jitc_cuda_render(Variable *v) {
 
         case VarKind::Neq:
             if (!jitc_is_bool(a0))
-                fmt("    setp.ne.$t $v, $v, $v;\n", a0, v, a0, a1);
+                fmt(jitc_is_float(a0) ? "    setp.neu.$t $v, $v, $v;\n"
+                                      : "    setp.ne.$t $v, $v, $v;\n",
+                    a0, v, a0, a1);
             else
                 fmt("    xor.$t $v, $v, $v;\n", v, v, a0, a1);
             break;
@@ -1039,7 +1041,7 @@ static void jitc_cuda_render(Variable *v) {
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
                 fmt(jitc_is_float(a0) && !jitc_is_half(a0)
-                    ? "    setp.ne.$t $v, $v, 0.0;\n"
+                    ? "    setp.neu.$t $v, $v, 0.0;\n"
                     : "    setp.ne.$b $v, $v, 0;\n",
                     a0, v, a0);
             } else if (jitc_is_bool(a0)) {
diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index 2ec1324..1ae00f9 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -872,7 +872,7 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::Neq:
-            fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $v\n"
+            fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $v\n"
                                   : "    $v = icmp ne $V, $v\n", v, a0, a1);
             break;
 
@@ -994,7 +994,7 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
-                fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $z\n"
+                fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $z\n"
                                       : "    $v = icmp ne $V, $z\n",
                     v, a0);
             } else if (jitc_is_bool(a0)) {
diff --git a/src/op.cpp b/src/op.cpp
index e835607..c21c8b8 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1145,7 +1145,7 @@ uint32_t jitc_var_neq(uint32_t a0, uint32_t a1) {
         if (info.literal)
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 != l1; }, v0, v1);
-        else if (a0 == a1)
+        else if (a0 == a1 && !jitc_is_float(v0))
             result = jitc_make_zero(info);
     }
 
-- 
2.43.0


From e5df5ebdf15fdebb285afba9f4db4c3d93fadb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 004/105] fix: clear register indices between kernels of a
 jit_eval() call

Conditionals and calls of size 1 can be part of several kernels that use
different subsets of their outputs. Stale register indices made the code
generator emit references to values that do not exist in the kernel.
---
 src/eval.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.cpp b/src/eval.cpp
index ea25e80..1463bdc 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1144,6 +1144,11 @@ void jitc_eval_impl(ThreadState *ts) {
     for (ScheduledGroup &group : schedule_groups) {
         jitc_assemble(ts, group);
         jitc_run(ts, group);
+
+        // A variable of size 1 may be part of several kernels. Clear register
+        // indices, which subsequent kernels use to detect unused outputs.
+        for (uint32_t i = group.start; i != group.end; ++i)
+            jitc_var(schedule[i].index)->reg_index = 0;
     }
 
     // Subsequent kernel launches must be serialized wrt. the launches above.
-- 
2.43.0


From 644349c52ce8a6b6c7f71afca48c11eb3b3a38e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 005/105] fix: conditionals: outputs can be larger than the
 condition

---
 src/cond.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index d23e516..0048cec 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -133,7 +133,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             v3.backend = (uint32_t) backend;
             v3.type = (uint32_t) vt;
             v3.symbolic = symbolic;
-            v3.size = std::max(size, size);
+            v3.size = std::max(size, std::max(v_t->size, v_f->size));
             v3.array_state = (uint32_t) ArrayState::Clean;
             v3.array_length = v_f->array_length;
             v3.dep[0] = i_f;
@@ -172,6 +172,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
         v2.dep[1] = i_f;
         v2.dep[2] = pred;
         v2.type = (uint32_t) vt;
+        v2.size = lm;
         jitc_var_inc_ref(i_t, v_t);
         jitc_var_inc_ref(i_f, v_f);
         jitc_var_inc_ref(pred);
-- 
2.43.0


From 8d8680a54dce88b7936ac52476e591acfb872638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 006/105] fix: conditionals: do not return literals that belong
 to a branch

A literal is emitted at the position of its scope. When both branches return
the same literal, the result must not refer to the one of the 'false' branch,
whose definition does not dominate subsequent uses.
---
 src/cond.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index 0048cec..ee2db2d 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -148,8 +148,18 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             continue;
         }
 
-        if (i_t == i_f || v_f->is_dirty() ||
-            (v_f->is_literal() && v_t->is_literal() && v_f->literal == v_t->literal)) {
+        if (i_t != i_f && v_f->is_literal() && v_t->is_literal() &&
+            v_f->literal == v_t->literal) {
+            // Both literals may be local to their branch. Create a new one that
+            // belongs to the current scope.
+            uint64_t value = v_f->literal;
+            rv_out[i] = jitc_var_literal(backend, vt, &value,
+                                         std::max(v_t->size, v_f->size), 0);
+            cd->indices_out.emplace_back(0, 0);
+            continue;
+        }
+
+        if (i_t == i_f || v_f->is_dirty()) {
             jitc_var_inc_ref(i_f, v_f);
             rv_out[i] = i_f;
             cd->indices_out.emplace_back(0, 0);
-- 
2.43.0


From 27948dddcf3d8d2d149b41ac9f7c1031862191c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:31 +0000
Subject: [PATCH 007/105] fix: LLVM: signed and unsigned min/max
 scatter-reductions in one kernel

Both used a helper function of the same name, hence such kernels did not
compile.
---
 src/llvm_scatter.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 2301d72..b259c22 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -174,6 +174,18 @@ static const char *reduce_op_name[(int) ReduceOp::Count] = {
     "", "add", "mul", "min", "max", "and", "or"
 };
 
+/// Name of the reduction helper function. Minima and maxima of signed and
+/// unsigned integers share an LLVM type but require different functions.
+static const char *jitc_llvm_reduce_func_name(VarType vt, ReduceOp op) {
+    if (jitc_is_uint(vt)) {
+        if (op == ReduceOp::Min)
+            return "umin";
+        else if (op == ReduceOp::Max)
+            return "umax";
+    }
+    return reduce_op_name[(int) op];
+}
+
 static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, const Variable *v) {
     if (jitc_llvm_vector_width > 32)
         jitc_fail("jitc_llvm_append_reduce_op_direct(): internal error -- code generation "
@@ -184,7 +196,7 @@ static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, co
              val_align = type_size[(int) vt],
              val_align_vec = val_align * jitc_llvm_vector_width;
 
-    const char *op_name = reduce_op_name[(int) op];
+    const char *op_name = jitc_llvm_reduce_func_name(vt, op);
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%val_i", "loop_suffix");
 
     fmt_intrinsic(
@@ -234,7 +246,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              ptr_align_vec = std::min(ptr_align * jitc_llvm_vector_width, jitc_llvm_max_align),
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
-    const char *op_name = reduce_op_name[(int) op],
+    const char *op_name = jitc_llvm_reduce_func_name(vt, op),
                *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
@@ -330,7 +342,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              val_align = type_size[(int) vt],
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
-    const char *op_name = reduce_op_name[(int) op],
+    const char *op_name = jitc_llvm_reduce_func_name(vt, op),
                *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
 
 
@@ -518,7 +530,7 @@ void jitc_llvm_render_scatter_reduce(const Variable *v,
         "    call fastcc void @reduce_$s_$h_$s(<$w x ptr> $v_1, $V, i$w $v_2)\n",
         v, value, ptr, index,
         v, mask,
-        reduce_op_name[(int) op], value, variant, v, value, v);
+        jitc_llvm_reduce_func_name(vt, op), value, variant, v, value, v);
 }
 
 void jitc_llvm_render_scatter_inc(Variable *v, const Variable *ptr,
-- 
2.43.0


From bde072e5afa8841a61501b81bd3818f9e41e7016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:02 +0000
Subject: [PATCH 008/105] fix: distinct names for direct callables when
 functions are not merged

---
 src/eval.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 1463bdc..e13e06f 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1315,7 +1315,8 @@ XXH128_hash_t jitc_assemble_func(const CallData *call, uint32_t inst,
     if (jit_flag(JitFlag::MergeFunctions)) {
         kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length, 0);
     } else {
-        kernel_hash.low64 = indirect_callable_count;
+        // 'globals_map' grows with every callable, also with direct ones
+        kernel_hash.low64 = globals_map.size();
         kernel_hash.high64 = 0;
     }
 
-- 
2.43.0


From b23d6dbad791d90f12f16d12d819efbc1ea64078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 009/105] fix: calls: pass inputs that are also captured by a
 callable

---
 src/call.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/call.cpp b/src/call.cpp
index 7ca8b53..b85e581 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -939,6 +939,11 @@ void jitc_var_call_assemble(CallData *call, uint32_t call_reg,
         callables_set.insert(hash);
     }
 
+    // An input may also be captured by a callable, in which case the above
+    // step has cleared the register index that is needed to pass it
+    for (const JitBackupRecord &b : backup)
+        jitc_var(b.sv.index)->reg_index = b.reg_index;
+
     alloca_size = alloca_size_backup;
     alloca_align = alloca_align_backup;
 
-- 
2.43.0


From cd618c79defdde575d8b1e8fd61225d73bbb4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 010/105] fix: select() of variable arrays must not create a
 plain variable

---
 src/op.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index c21c8b8..56ed8ad 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1278,10 +1278,12 @@ uint32_t jitc_var_select(uint32_t a0, uint32_t a1, uint32_t a2) {
 
     uint32_t result = 0;
     if (info.simplify || a1 == a2) {
-        if (jitc_is_one(v0) || a1 == a2)
-            return jitc_var_resize(a1, info.size);
-        else if (jitc_is_zero(v0))
-            return jitc_var_resize(a2, info.size);
+        uint32_t a = (jitc_is_one(v0) || a1 == a2) ? a1
+                                                   : (jitc_is_zero(v0) ? a2 : 0);
+
+        // Variable arrays cannot be resized
+        if (a && (!v1->is_array() || jitc_var(a)->size == info.size))
+            return jitc_var_resize(a, info.size);
     }
 
     if (!result && info.size) {
-- 
2.43.0


From 5dda6e06b995482bfd4f4442d57d802055d61911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 011/105] fix: masked reads of variable arrays

---
 src/array.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 4ab7c6e..e00a023 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -159,7 +159,12 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
     #undef fail_if
 
     if ((flags & (uint32_t) JitFlag::SymbolicScope) == 0) {
-        if (vs->kind == (uint32_t) VarKind::ArrayInit) {
+        // Masked lanes read zero, also in an array that was only initialized
+        bool unmasked = vm->is_literal() ||
+                        vm->kind == (uint32_t) VarKind::DefaultMask ||
+                        vm->kind == (uint32_t) VarKind::CallMask;
+
+        if (vs->kind == (uint32_t) VarKind::ArrayInit && unmasked) {
             jitc_var_inc_ref(vs->dep[1]);
             return vs->dep[1];
         } else if (vs->kind == (uint32_t) VarKind::Array) {
@@ -173,6 +178,7 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
 
         vs = jitc_var(source);
         vo = jitc_var(offset);
+        vm = jitc_var(mask);
 
         if (vo->is_dirty())
             jitc_raise_dirty_error(offset);
@@ -182,8 +188,8 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
     v.kind = (uint32_t) VarKind::ArrayRead;
     v.backend = vs->backend;
     v.type = vs->type;
-    v.size = std::max(vs->size, vo->size);
-    v.symbolic = vs->symbolic || vo->symbolic;
+    v.size = (uint32_t) size;
+    v.symbolic = vs->symbolic || vo->symbolic || vm->symbolic;
 
     v.dep[0] = source;
     jitc_var_inc_ref(source, vs);
-- 
2.43.0


From ca75c38d7372beabfb49a4b9ebc650e9f1c153f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:25 +0000
Subject: [PATCH 012/105] fix: variable arrays: detect all conflicting accesses

---
 src/array.cpp | 59 +++++++++++++++++++++++++++++++--------------------
 src/eval.cpp  |  6 +-----
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index e00a023..20dc006 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -393,25 +393,8 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
     return op;
 }
 
-void jitc_process_array_op(VarKind kind, Variable *v) {
-    // This function evolves a simple state machine that elides unnecessary
-    // array copies. For context, a 'write' operation performed via the
-    // jit_array_* API does not modify the input. Instead, it produces a copy of
-    // the input array representing the array state following the write. In most
-    // cases, this copy is not actually needed, and we wish to avoid the
-    // expense. The following detects cases where an array is modified and
-    // subsequently accessed via further reads/writes. In this case, the
-    // original array is marked as 'conflicted', which means that any subsequent
-    // writes to it must make a copy.
-    //
-    if (v->is_array()) {
-        v->array_state = (uint32_t) ArrayState::Clean;
-
-        if (kind == VarKind::Array)
-            return;
-    }
-
-    uint32_t parent_id = v->dep[0];
+/// Update the state of the array 'parent_id' that is accessed by the operation 'v'
+static void process_array_access(const Variable *v, VarKind kind, uint32_t parent_id) {
     Variable *parent = jitc_var(parent_id);
 
     ArrayState array_state = (ArrayState) parent->array_state;
@@ -425,7 +408,8 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
         }
         if (v->output_flag)
             array_state = ArrayState::Conflicted;
-    } else if (kind == VarKind::ArrayRead || kind == VarKind::ArrayPhi) {
+    } else if (kind == VarKind::ArrayRead || kind == VarKind::ArrayPhi ||
+               kind == VarKind::ArraySelect || kind == VarKind::LoopPhi) {
         switch (array_state) {
             case ArrayState::Clean:      array_state = ArrayState::Clean; break;
             case ArrayState::Modified:
@@ -440,8 +424,37 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
         jitc_raise("jit_process_array_op(): internal error! (2)");
 
     parent->array_state = (uint32_t) array_state;
-    if (parent->kind == (uint32_t) VarKind::ArrayWrite) {
-        Variable *buf = jitc_var(jitc_array_buffer(parent_id));
-        buf->array_state = (uint32_t) array_state;
+
+    // A modified copy of a conflicting array requires storage of its own
+    if (array_state == ArrayState::Conflicted)
+        jitc_var(jitc_array_buffer(parent_id))->array_state = (uint32_t) array_state;
+}
+
+void jitc_process_array_op(VarKind kind, Variable *v) {
+    // This function evolves a simple state machine that elides unnecessary
+    // array copies. For context, a 'write' operation performed via the
+    // jit_array_* API does not modify the input. Instead, it produces a copy of
+    // the input array representing the array state following the write. In most
+    // cases, this copy is not actually needed, and we wish to avoid the
+    // expense. The following detects cases where an array is modified and
+    // subsequently accessed via further reads/writes. In this case, the
+    // original array is marked as 'conflicted', which means that any subsequent
+    // writes to it must make a copy.
+    //
+    if (v->is_array()) {
+        v->array_state = (uint32_t) ArrayState::Clean;
+
+        if (kind == VarKind::Array || kind == VarKind::Evaluated)
+            return;
+    }
+
+    if (kind == VarKind::LoopPhi) {
+        process_array_access(v, kind, v->dep[3]);
+    } else if (kind == VarKind::ArraySelect) {
+        // Reads the arrays in operands 1 and 2
+        process_array_access(v, kind, v->dep[1]);
+        process_array_access(v, kind, v->dep[2]);
+    } else {
+        process_array_access(v, kind, v->dep[0]);
     }
 }
diff --git a/src/eval.cpp b/src/eval.cpp
index e13e06f..8fe9c31 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -456,11 +456,7 @@ void jitc_assemble(ThreadState *ts, ScheduledGroup group) {
         has_call |= (kind == VarKind::Call);
 #endif
 
-        if (unlikely(kind == VarKind::Array ||
-                     kind == VarKind::ArrayInit ||
-                     kind == VarKind::ArrayPhi ||
-                     kind == VarKind::ArrayWrite ||
-                     kind == VarKind::ArrayRead)) {
+        if (unlikely(v->is_array() || kind == VarKind::ArrayRead)) {
             jitc_process_array_op(kind, v);
         }
 
-- 
2.43.0


From 80f349533f66b195ae9e3c5e41b4b1112d44ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 013/105] fix: LLVM: copies of variable arrays

---
 src/llvm_array.cpp | 135 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 109 insertions(+), 26 deletions(-)

diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index b694b2d..a4faec8 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -25,6 +25,47 @@ void jitc_llvm_render_array(Variable *v, Variable *pred) {
         v->reg_index, v, jitc_llvm_vector_width * v->array_length, v);
 }
 
+/// Copy the contents of an array from the address 'src' to 'dst'. The prefix
+/// 'id' is used to create unique identifiers.
+static void jitc_llvm_render_array_copy(const Variable *v, const char *id,
+                                        const char *dst, const char *src) {
+    uint32_t size =
+        v->array_length * type_size[v->type] * jitc_llvm_vector_width;
+
+    if (size <= 128) {
+        fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
+        fmt("    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) $s, ptr align($A) $s, i32 $u, i1 0)\n",
+            v, dst, v, src, size);
+        return;
+    }
+
+    // LLVM optimization passes may turn larger memcpy operations (even
+    // 'llvm.memcpy.inline') into a call to the C library
+    fmt("    br label %l_$s_pre\n\n"
+        "l_$s_pre:\n"
+        "    br label %l_$s_loop\n\n"
+        "l_$s_loop:\n"
+        "    %$s_cur = phi i64 [ 0, %l_$s_pre ], [ %$s_next, %l_$s_loop ]\n"
+        "    %$s_src = getelementptr inbounds $M, ptr $s, i64 %$s_cur\n"
+        "    %$s_dst = getelementptr inbounds $M, ptr $s, i64 %$s_cur\n"
+        "    %$s_val = load $M, ptr %$s_src, align $A\n"
+        "    store $M %$s_val, ptr %$s_dst, align $A\n"
+        "    %$s_next = add i64 %$s_cur, 1\n"
+        "    %$s_cont = icmp ult i64 %$s_next, $u\n"
+        "    br i1 %$s_cont, label %l_$s_loop, label %l_$s_done\n\n"
+        "l_$s_done:\n",
+        id, id, id, id,
+        id, id, id, id,
+        id, v, src, id,
+        id, v, dst, id,
+        id, v, id, v,
+        v, id, id, v,
+        id, id,
+        id, id, (uint32_t) v->array_length,
+        id, id, id,
+        id);
+}
+
 /**
  * When a read to a variable array has a uniform or scalar index, the
  * following kinds of mask types can be safely ignored.
@@ -212,10 +253,11 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
     if (copy) {
         target_buffer = jitc_array_buffer(v)->reg_index;
 
-        fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-        fmt("    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
-            v, target_buffer, v, target->reg_index,
-            target->array_length * type_size[target->type] * jitc_llvm_vector_width);
+        char id[32], dst[32], src[32];
+        snprintf(id, sizeof(id), "arr_copy_%u", v->reg_index);
+        snprintf(dst, sizeof(dst), "%%arr_%u", target_buffer);
+        snprintf(src, sizeof(src), "%%arr_%u", target->reg_index);
+        jitc_llvm_render_array_copy(target, id, dst, src);
     }
 
     const char *ext = "";
@@ -338,33 +380,74 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
 }
 
 void jitc_llvm_render_array_memcpy_in(const Variable *v) {
-    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-    fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
-         "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
-         "    $v_p3 = mul i64 %index, $u\n"
-         "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
-         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) %arr_$u, ptr align($A) $v_p4, i32 $u, i1 0)\n",
-        v, v,
-        v, v,
-        v, v->size == 1 ? 0 : v->array_length,
-        v, v, v, v,
-        v, v->reg_index, v, v, v->array_length * type_size[v->type] * jitc_llvm_vector_width
+    char id[32], dst[32], src[32];
+    snprintf(id, sizeof(id), "arr_in_%u", v->reg_index);
+    snprintf(dst, sizeof(dst), "%%arr_%u", v->reg_index);
+    snprintf(src, sizeof(src), "%%arr_in_%u_p4", v->reg_index);
+
+    fmt( "    %$s_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
+         "    %$s_p2 = load ptr, ptr %$s_p1, align 8, !alias.scope !2\n"
+         "    %$s_p3 = mul i64 %index, $u\n"
+         "    %$s_p4 = getelementptr inbounds $m, ptr %$s_p2, i64 %$s_p3\n",
+        id, v,
+        id, id,
+        id, v->size == 1 ? 0 : v->array_length,
+        id, v, id, id
     );
+
+    if (v->size != 1) {
+        jitc_llvm_render_array_copy(v, id, dst, src);
+        return;
+    }
+
+    // Broadcast the first lane of a scalar array, the others are undefined
+    fmt("    br label %l_$s_pre\n\n"
+        "l_$s_pre:\n"
+        "    br label %l_$s_loop\n\n"
+        "l_$s_loop:\n"
+        "    %$s_cur = phi i64 [ 0, %l_$s_pre ], [ %$s_next, %l_$s_loop ]\n"
+        "    %$s_src = getelementptr inbounds $M, ptr $s, i64 %$s_cur\n"
+        "    %$s_dst = getelementptr inbounds $M, ptr $s, i64 %$s_cur\n"
+        "    %$s_0 = load $m, ptr %$s_src, align $a\n"
+        "    %$s_1 = insertelement $M undef, $m %$s_0, i32 0\n"
+        "    %$s_2 = shufflevector $M %$s_1, $M undef, <$w x i32> $z\n"
+        "    store $M %$s_2, ptr %$s_dst, align $A\n"
+        "    %$s_next = add i64 %$s_cur, 1\n"
+        "    %$s_cont = icmp ult i64 %$s_next, $u\n"
+        "    br i1 %$s_cont, label %l_$s_loop, label %l_$s_done\n\n"
+        "l_$s_done:\n",
+        id, id, id, id,
+        id, id, id, id,
+        id, v, src, id,
+        id, v, dst, id,
+        id, v, id, v,
+        id, v, v, id,
+        id, v, id, v,
+        v, id, id, v,
+        id, id,
+        id, id, (uint32_t) v->array_length,
+        id, id, id,
+        id);
 }
 
 void jitc_llvm_render_array_memcpy_out(const Variable *v) {
-    fmt_intrinsic("declare void @llvm.memcpy.inline.p0.p0.i32(ptr, ptr, i32, i1)");
-    fmt( "    $v_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
-         "    $v_p2 = load ptr, ptr $v_p1, align 8, !alias.scope !2\n"
-         "    $v_p3 = mul i64 %index, $u\n"
-         "    $v_p4 = getelementptr inbounds $m, ptr $v_p2, i64 $v_p3\n"
-         "    call void @llvm.memcpy.inline.p0.p0.i32(ptr align($A) $v_p4, ptr align($A) %arr_$u, i32 $u, i1 0)\n",
-        v, v,
-        v, v,
-        v, v->array_length,
-        v, v, v, v,
-        v, v, v, v->reg_index, v->array_length * type_size[v->type] * jitc_llvm_vector_width
+    // Several arrays may share the same 'reg_index'. Use the parameter offset
+    // to create unique identifiers
+    char id[32], dst[32], src[32];
+    snprintf(id, sizeof(id), "arr_out_%u", v->param_offset);
+    snprintf(dst, sizeof(dst), "%%arr_out_%u_p4", v->param_offset);
+    snprintf(src, sizeof(src), "%%arr_%u", v->reg_index);
+
+    fmt( "    %$s_p1 = getelementptr inbounds ptr, ptr %params, i32 $o\n"
+         "    %$s_p2 = load ptr, ptr %$s_p1, align 8, !alias.scope !2\n"
+         "    %$s_p3 = mul i64 %index, $u\n"
+         "    %$s_p4 = getelementptr inbounds $m, ptr %$s_p2, i64 %$s_p3\n",
+        id, v,
+        id, id,
+        id, v->array_length,
+        id, v, id, id
     );
+    jitc_llvm_render_array_copy(v, id, dst, src);
 }
 
 void jitc_llvm_render_array_select(Variable *v, Variable *mask, Variable *t, Variable *f) {
-- 
2.43.0


From 339b182ca3c41d5616f6a5efb3a78f2b1ddfba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 014/105] fix: LLVM: variable arrays with non-uniform index of
 size 1

---
 src/array.cpp      |  8 ++++----
 src/llvm_array.cpp | 12 ++++++++++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 20dc006..fdc346b 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -120,10 +120,10 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         uint64_t zero = 0;
         return jitc_var_literal(backend, (VarType) jitc_var(source)->type,
                                 &zero, 1, 0);
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if (vo->is_literal() &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
-        // When we know that the read is always from a uniform location, we
+        // When we know that the read is always from a constant location, we
         // can remove any default masking, which slightly improves code generation
         uint64_t one = 1;
         mask = steal(jitc_var_literal(backend, VarType::Bool, &one, 1, 0));
@@ -264,10 +264,10 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
         // Elide the write (it is fully masked)
         jitc_var_inc_ref(target);
         return target;
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if (vo->is_literal() &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
-        // When we know that the write is always to a uniform location, we
+        // When we know that the write is always to a constant location, we
         // can remove any default masking, which slightly improves code generation
         uint64_t one = 1;
         mask = steal(jitc_var_literal(backend, VarType::Bool, &one, 1, 0));
diff --git a/src/llvm_array.cpp b/src/llvm_array.cpp
index a4faec8..1725c9a 100644
--- a/src/llvm_array.cpp
+++ b/src/llvm_array.cpp
@@ -122,6 +122,14 @@ extern void jitc_llvm_render_array_init(Variable *v, Variable *pred, Variable *v
     );
 }
 
+/**
+ * Is the index equal in all active lanes? Symbolic variables (e.g., the state
+ * of a loop or the input of a callable) of size 1 can still vary across lanes.
+ */
+static bool offset_is_uniform(const Variable *offset) {
+    return offset->size == 1 && !offset->symbolic;
+}
+
 void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
                                  Variable *offset) {
 
@@ -129,7 +137,7 @@ void jitc_llvm_render_array_read(Variable *v, Variable *source, Variable *mask,
     if (v->type == (uint32_t) VarType::Bool)
         ext = "_r";
 
-    if (!offset || offset->size == 1) {
+    if (!offset || offset_is_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a gather operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
@@ -267,7 +275,7 @@ void jitc_llvm_render_array_write(Variable *v, Variable *target,
         ext = "_e";
     }
 
-    if (!offset || offset->size == 1) {
+    if (!offset || offset_is_uniform(offset)) {
         // Scalar/literal offset case: we can avoid a scatter operation
         if (offset) {
             fmt_intrinsic("declare i32 @llvm.vector.reduce.umax.v$wi32(<$w x i32>)");
-- 
2.43.0


From bea0b6eb3f659b98cbe773e4e3edd007e0284005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 015/105] fix: gathers from the result of an atomic operation
 must not repeat it

---
 src/op.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 56ed8ad..11b0a67 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1934,6 +1934,10 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
     if (v->is_evaluated() || (VarType) v->type == VarType::Void)
         return 0; // evaluated variable, give up
 
+    if ((VarKind) v->kind == VarKind::ScatterInc ||
+        (VarKind) v->kind == VarKind::ScatterExch)
+        return 0; // atomic operations must not be executed again, give up
+
     if (v->extra) {
         VariableExtra *e = jitc_var_extra(v);
         if (e->callback)
-- 
2.43.0


From 54568687428949ff9c7bbfe2d090bb6fa01fe39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 016/105] fix: gathers from elements of local arrays

---
 src/op.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 11b0a67..a7c8465 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1938,6 +1938,9 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
         (VarKind) v->kind == VarKind::ScatterExch)
         return 0; // atomic operations must not be executed again, give up
 
+    if (v->is_array() || v->coop_vec)
+        return 0; // the code below does not handle arrays, give up
+
     if (v->extra) {
         VariableExtra *e = jitc_var_extra(v);
         if (e->callback)
-- 
2.43.0


From f26f736a6a5d969f70d57dce4543b3c0825f661d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 017/105] fix: mask reindexed packet gathers

---
 src/op.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index a7c8465..8470fad 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1969,7 +1969,8 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
                 continue;
 
             dep[i] = steal(jitc_var_reindex(index_2, new_index, mask, size, map));
-            if (dep[i] && v_kind == VarKind::Gather && i == 2) {
+            if (dep[i] && i == 2 && (v_kind == VarKind::Gather ||
+                                     v_kind == VarKind::PacketGather)) {
                 // Gather nodes must also apply the new mask (which should
                 // already contain the default mask)
                 dep[i] = steal(jitc_var_and(dep[i], mask));
-- 
2.43.0


From ae6411e9ec026d10669510d4cb782017241b0de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:22 +0000
Subject: [PATCH 018/105] fix: bounds checks of indices that are not 32 bit
 integers

---
 src/op.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 8470fad..32b2425 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2016,6 +2016,19 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
     auto [info, v_index, v_mask] =
         jitc_var_check("jit_var_check_bounds", index, mask);
 
+    // The check operates on 32 bit unsigned integers. Clamp 64 bit indices
+    Ref index_2;
+    if (type_size[v_index->type] == 8) {
+        uint64_t max = 0xffffffffu;
+        Ref index_u64 = steal(jitc_var_cast(index, VarType::UInt64, 0)),
+            limit = steal(jitc_var_literal(info.backend, VarType::UInt64, &max, 1, 0)),
+            clamped = steal(jitc_var_min(index_u64, limit));
+        index_2 = steal(jitc_var_cast(clamped, VarType::UInt32, 0));
+    } else {
+        index_2 = steal(jitc_var_cast(index, VarType::UInt32, 0));
+    }
+    index = index_2;
+
     uint64_t zero = 0;
     Ref buf = steal(jitc_var_literal(info.backend, VarType::UInt32, &zero, 1, 1)),
         buffer_ptr =
-- 
2.43.0


From e4cd20d7ad1a7f00649fd980b2ae3fc7d42f5a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 019/105] fix: keep NaN contributions in Local and NoConflict
 LLVM scatter-reductions

The packet-level test whether a reduced contribution differs from the identity
used an ordered comparison, which is false for NaN.
---
 src/llvm_scatter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index b259c22..4640eef 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -247,7 +247,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = jitc_llvm_reduce_func_name(vt, op),
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v) ? "fcmp une" : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
 
@@ -343,7 +343,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = jitc_llvm_reduce_func_name(vt, op),
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v) ? "fcmp une" : "icmp ne";
 
 
     auto [vector_reduce_name, vector_reduce_modifier, vector_reduce_identity,
-- 
2.43.0


From b82595bf6c0960c92660ba65cb796f236f44db57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 020/105] fix: support 16-bit integers in the reduction of
 expanded scatter targets

---
 src/llvm_ts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 816d6f5..1ec49dc 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1069,6 +1069,8 @@ static ReduceExpanded reduce_expanded_create(ReduceOp op) {
 static ReduceExpanded reduce_expanded_create(VarType type, ReduceOp op) {
     using half = drjit::half;
     switch (type) {
+        case VarType::Int16:   return reduce_expanded_create<int16_t >(op);
+        case VarType::UInt16:  return reduce_expanded_create<uint16_t>(op);
         case VarType::Int32:   return reduce_expanded_create<int32_t >(op);
         case VarType::UInt32:  return reduce_expanded_create<uint32_t>(op);
         case VarType::Int64:   return reduce_expanded_create<int64_t >(op);
-- 
2.43.0


From 81b3483914ff50a3366f8605b923835a5fdbeacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 021/105] fix: evaluate dirty values passed to a packet scatter

---
 src/op.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 32b2425..c92aaa5 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3208,6 +3208,17 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         var_info.size = std::max(v->size, var_info.size);
     }
 
+    // Make sure that the values don't have pending side effects
+    for (size_t i = 0; i < n; ++i) {
+        if (likely(!jitc_var(values[i])->is_dirty()))
+            continue;
+        jitc_eval(thread_state(backend));
+        if (jitc_var(values[i])->is_dirty())
+            jitc_raise_dirty_error(values[i]);
+    }
+    target_v = jitc_var(target);
+    mask_v = jitc_var(mask);
+
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
         return target.release();
-- 
2.43.0


From 0dcdd4510e1e86d86ce1a76f5e770ac96c71d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 022/105] fix: evaluate pending writes before copying a scatter
 target into its expanded form

---
 src/op.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index c92aaa5..4ca4731 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2881,6 +2881,11 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
                        : ReduceMode::Direct;
 
         if (mode == ReduceMode::Expand) {
+            // The expanded array starts out with a copy of the target, which
+            // must include the effect of pending writes.
+            if (op_cur == ReduceOp::Identity && jitc_var(target)->is_dirty())
+                jitc_var_eval(target, !jit_flag(JitFlag::SymbolicScope));
+
             index = steal(jitc_var_cast(index, VarType::UInt32, 0));
             const Variable *index_v2 = jitc_var(index);
             uint32_t size = index_v2->size;
-- 
2.43.0


From 5afeb1a5621c2a55354b5b6c4bab049eba1a4516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 023/105] fix: bounds checks of packet scatter-reductions in
 Expand mode used the expanded index

---
 src/op.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 4ca4731..959465c 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3303,6 +3303,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
 
     // Must compute final index before potentially expanding below
     index = steal(jitc_var_mul(index, scale));
+    Ref index_orig = borrow((uint32_t) index);
 
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
@@ -3330,7 +3331,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         mask_2 = steal(jitc_var_check_bounds(
             op == ReduceOp::Identity ? BoundsCheckType::PacketScatter
                                      : BoundsCheckType::PacketScatterReduce,
-            /* original index */ index, mask_2, target_size));
+            index_orig, mask_2, target_size));
     }
 
     uint32_t op_size = std::max(var_info.size, jitc_var(mask_2)->size);
-- 
2.43.0


From d5e143d1a1c829703cf66bb6f07f453c0eb2ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 024/105] fix: shrink: evaluate pending writes and keep the
 shared memory alive

---
 src/var.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 7ff9e74..2ca750a 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1983,11 +1983,10 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         result = jitc_var_literal(backend, vt, &v->literal, size, 0);
     } else {
         void *dst_addr = nullptr;
-        Ref dst = steal(jitc_var_data(index, false, &dst_addr));
+        Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
         result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
-        jitc_var(result)->dep[3] = index;
-        jitc_var_inc_ref(index);
+        jitc_var(result)->dep[3] = dst.release();
     }
 
     jitc_log(Debug, "jit_var_shrink(): %s r%u[%zu] = shrink(r%u)",
-- 
2.43.0


From 49863d51aac2d2ce2329a819ac50d6f557ca074e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 025/105] fix: copy views of other arrays before modifying them

---
 src/coop_vec.cpp |  6 ++++--
 src/op.cpp       | 15 ++++++++++-----
 src/var.cpp      | 18 +++++++++++++++++-
 src/var.h        |  3 +++
 4 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 20200ea..c69b49b 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -605,7 +605,8 @@ uint32_t jitc_coop_vec_accum(uint32_t target_, uint32_t target_size,
     } else {
         const Variable *target_v = jitc_var(target);
         // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-        if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+        if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+            jitc_var_is_shared_view(target_v)) {
             target = steal(jitc_var_copy(target));
             target_v = jitc_var(target);
         }
@@ -698,7 +699,8 @@ uint32_t jitc_coop_vec_outer_product_accum(uint32_t target_,
     } else {
         const Variable *target_v = jitc_var(target);
         // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-        if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+        if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+            jitc_var_is_shared_view(target_v)) {
             target = steal(jitc_var_copy(target));
             target_v = jitc_var(target);
         }
diff --git a/src/op.cpp b/src/op.cpp
index 959465c..33ffbcf 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2439,7 +2439,8 @@ uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask)
     var_info.symbolic |= (flags & (uint32_t) JitFlag::SymbolicScope) != 0;
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v))
         target = steal(jitc_var_copy(target));
 
     void *target_addr = nullptr;
@@ -2557,7 +2558,8 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v)) {
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -2668,7 +2670,8 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v)) {
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -3023,7 +3026,8 @@ uint32_t jitc_var_scatter(uint32_t target_, uint32_t value, uint32_t index_,
         target_v = jitc_var(target);
     }
 
-    if (target_v->ref_count > 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count > 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v))
         target = steal(jitc_var_copy(target));
 
     // The backends may employ various strategies to reduce the number of
@@ -3308,7 +3312,8 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
     target_v = jitc_var(target);
-    if (target_v->ref_count > 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count > 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v))
         target = steal(jitc_var_copy(target));
 
     // Infer the ReduceOp parameter (if it is set to ReduceOp::Auto)
diff --git a/src/var.cpp b/src/var.cpp
index 2ca750a..4f7bce3 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1763,7 +1763,8 @@ uint32_t jitc_var_write(uint32_t index_, size_t offset, const void *src) {
     Variable *v = jitc_var(index);
 
     // Check if it is safe to write directly
-    if (v->ref_count > 2) { // 1 from original array, 1 from jitc_var_data() above
+    // (1 reference from the original array, 1 from jitc_var_data() above)
+    if (v->ref_count > 2 || jitc_var_is_shared_view(v)) {
         index = steal(jitc_var_copy(index));
 
         // The above operation may have invalidated 'v'
@@ -1925,6 +1926,21 @@ uint32_t jitc_var_copy(uint32_t index) {
     return result;
 }
 
+bool jitc_var_is_shared_view(const Variable *v) {
+    // Metal repurposes dep[3] of evaluated variables
+    if (jitc_is_metal((JitBackend) v->backend))
+        return false;
+
+    // Walk up the chain of views until reaching the variable that owns the data
+    while (v->is_evaluated() && v->dep[3]) {
+        v = jitc_var(v->dep[3]);
+        if (v->ref_count != 1 || v->ref_count_se != 0)
+            return true;
+    }
+
+    return false;
+}
+
 uint32_t jitc_var_copy_opaque(uint32_t index) {
     if (index == 0)
         return 0;
diff --git a/src/var.h b/src/var.h
index e68d12f..9becdf5 100644
--- a/src/var.h
+++ b/src/var.h
@@ -98,6 +98,9 @@ extern uint32_t jitc_var_mem_copy(JitBackend backend, VarType vtype,
 /// Duplicate a variable
 extern uint32_t jitc_var_copy(uint32_t index);
 
+/// Is 'v' a view (see \ref jitc_var_shrink()) of memory that is used by others?
+extern bool jitc_var_is_shared_view(const Variable *v);
+
 /// Duplicate a variable into a memory region of its own
 extern uint32_t jitc_var_copy_opaque(uint32_t index);
 
-- 
2.43.0


From 768938aed384a77ccb7265bd519bf9c3a764f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 026/105] fix: results of exchange and compare-and-swap
 operations that have no effect

---
 src/op.cpp | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 33ffbcf..89a1138 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2547,14 +2547,22 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
         target_v->literal == value_v->literal) {
         print_log("skipped, target/source are value variables with the "
                   "same value");
-        target.release();
-        return *target_p;
+        // The operation returns 'value' (and zero in masked-off lanes)
+        uint64_t zero = 0, literal = value_v->literal;
+        Ref value_2 = steal(jitc_var_literal(target_info.backend, target_info.type,
+                                             &literal, var_info.size, 0)),
+            zero_2 = steal(jitc_var_literal(target_info.backend, target_info.type,
+                                            &zero, var_info.size, 0)),
+            mask_2 = steal(jitc_var_mask_apply(mask, var_info.size));
+        return jitc_var_select(mask_2, value_2, zero_2);
     }
 
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
-        target.release();
-        return *target_p;
+        // Masked-off lanes return 0
+        uint64_t zero = 0;
+        return jitc_var_literal(target_info.backend, target_info.type, &zero,
+                                var_info.size, 0);
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
@@ -2659,13 +2667,27 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
         target_v->literal == value_v->literal) {
         print_log("skipped, target/source are value variables with the "
                   "same value");
-        target.release();
+        // All entries equal 'value', writing it has no effect
+        uint64_t zero = 0, literal = value_v->literal;
+        Ref value_2 = steal(jitc_var_literal(target_info.backend, target_info.type,
+                                             &literal, var_info.size, 0)),
+            zero_2 = steal(jitc_var_literal(target_info.backend, target_info.type,
+                                            &zero, var_info.size, 0)),
+            equal = steal(jitc_var_eq(compare, value_2)),
+            mask_2 = steal(jitc_var_mask_apply(mask, var_info.size));
+        *old = jitc_var_select(mask_2, value_2, zero_2);
+        *success = jitc_var_and(equal, mask_2);
         return;
     }
 
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
-        target.release();
+        // Masked-off lanes return 0
+        uint64_t zero = 0;
+        *old = jitc_var_literal(target_info.backend, target_info.type, &zero,
+                                var_info.size, 0);
+        *success = jitc_var_literal(target_info.backend, VarType::Bool, &zero,
+                                    var_info.size, 0);
         return;
     }
 
-- 
2.43.0


From 33d88fb9b638834c65d1b72c3daa0ba3b7402ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 027/105] fix: size of the side effect of exchange and
 compare-and-swap operations

---
 src/op.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 89a1138..fee88c3 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2608,7 +2608,7 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
     // Dummy node that represents the side-effect
     uint32_t write_ptr = jitc_var_pointer(var_info.backend, target_addr, target, 1);
     uint32_t se = jitc_var_new_node_1(var_info.backend, VarKind::Nop,
-                                      VarType::Void, var_info.size, symbolic,
+                                      VarType::Void, op_size, symbolic,
                                       scatter_xchg_op, jitc_var(scatter_xchg_op));
     jitc_var(se)->dep[3] = write_ptr;
     jitc_var_mark_side_effect(se);
@@ -2770,7 +2770,7 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
     // Dummy node that represents the side-effect
     uint32_t write_ptr = jitc_var_pointer(var_info.backend, target_addr, target, 1);
     uint32_t se = jitc_var_new_node_1(var_info.backend, VarKind::Nop,
-                                      VarType::Void, var_info.size, symbolic,
+                                      VarType::Void, op_size, symbolic,
                                       scatter_cas_op, jitc_var(scatter_cas_op));
     jitc_var(se)->dep[3] = write_ptr;
     jitc_var_mark_side_effect(se);
-- 
2.43.0


From 738c6635a044b5ee72684aa9ba81972e102e3548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 028/105] fix: scalar masks on the mask stack must not enable
 padding lanes

---
 src/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 4f7bce3..7e49bb7 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2265,7 +2265,8 @@ uint32_t jitc_var_mask_apply(uint32_t index, uint32_t size) {
         Ref default_mask = steal(jitc_var_mask_default(backend, size));
         if (!mask) {
             mask = borrow(default_mask);
-        } else if (jitc_var(mask)->is_evaluated() && size == 1) {
+        } else if (jitc_var(mask)->is_evaluated() &&
+                   (size == 1 || jitc_var(mask)->size == 1)) {
             // Scalar evaluated parameters get broadcasted, we need to re-apply the default mask
             mask = steal(jitc_var_and(mask, default_mask));
         }
-- 
2.43.0


From 5f9ddb8b13fbaecd0a76691acf4721c650afdffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 029/105] fix: the definition of jit_reduce() did not match its
 declaration, so that it could not be linked

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 5847f0f..99ff72e 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1301,7 +1301,7 @@ void jit_memcpy_async(JitBackend backend, void *dst, const void *src, size_t siz
 }
 
 void jit_reduce(JitBackend backend, VarType type, ReduceOp op,
-                uint32_t size, const void *in, void *out) {
+                const void *in, uint32_t size, void *out) {
     lock_guard guard(state.lock);
     jitc_reduce(backend, type, op, size, in, out);
 }
-- 
2.43.0


From ade120aadac8d4e610384404d24c5f1e0fa6d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 030/105] fix: jit_block_prefix_reduce() swapped the array and
 block size

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index 99ff72e..8c25317 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1332,7 +1332,7 @@ void jit_block_prefix_reduce(JitBackend backend, VarType type, ReduceOp op,
                              uint32_t block_size, uint32_t size, int exclusive,
                              int reverse, const void *in, void *out) {
     lock_guard guard(state.lock);
-    jitc_block_prefix_reduce(backend, type, op, block_size, size,
+    jitc_block_prefix_reduce(backend, type, op, size, block_size,
                              exclusive != 0, reverse != 0, in, out);
 }
 
-- 
2.43.0


From a71c13a6db8286bd6eca9d45f110b41bbf753a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 031/105] fix: block prefix reductions of literals (exclusive
 Min/Max, reverse partial blocks, infinities, unsupported operations crashed)

---
 src/var.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 7e49bb7..6582ac9 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2834,10 +2834,11 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
     uint32_t size = v->size;
 
     if (v->is_literal()) {
-        if (op == ReduceOp::Max || op == ReduceOp::Min) {
+        if ((op == ReduceOp::Max || op == ReduceOp::Min) && !exclusive) {
             jitc_var_inc_ref(index);
             return index;
-        } else if (op == ReduceOp::Add) {
+        } else if (op == ReduceOp::Add && !jitc_is_float(v) &&
+                   (!reverse || size % block_size == 0)) {
             Ref ctr = steal(jitc_var_counter(backend, size, true));
             if (block_size != size) {
                 Ref bsize = steal(jitc_var_u32(backend, block_size));
@@ -2861,12 +2862,8 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
         }
     }
 
-    if (!v->is_evaluated() || v->is_dirty()) {
-        jitc_var_eval(index);
-        v = jitc_var(index);
-    }
-
-    const void *data_in = v->data;
+    void *data_in = nullptr;
+    Ref in_v = steal(jitc_var_data(index, true, &data_in));
 
     void *data_out =
         jitc_malloc(backend, (size_t) type_size[(int) vt] * size);
-- 
2.43.0


From b0f3f6536a0cf2ff32525b3555e8be0d7e4de753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 032/105] fix: dot product of an evaluated array and a literal
 crashed

---
 src/var.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 6582ac9..d8f5bfb 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2750,16 +2750,11 @@ uint32_t jitc_var_reduce_dot(uint32_t index_1, uint32_t index_2) {
         uint32_t size = v1->size;
 
         // Fast path
-        bool eval = jitc_var_eval(index_1);
-        eval |= (bool)jitc_var_eval(index_2);
-        if (eval) {
-            v1 = jitc_var(index_1);
-            v2 = jitc_var(index_2);
-        }
+        void *ptr_1 = nullptr, *ptr_2 = nullptr;
+        Ref v1_ev = steal(jitc_var_data(index_1, true, &ptr_1)),
+            v2_ev = steal(jitc_var_data(index_2, true, &ptr_2));
 
-        void *ptr_1 = v1->data,
-             *ptr_2 = v2->data,
-             *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
+        void *data = jitc_malloc(backend, (size_t) type_size[(int) vt]);
 
         jitc_reduce_dot(backend, vt, ptr_1, ptr_2, size, data);
 
-- 
2.43.0


From ce63696c4d70f2d3439161d280fb805eee898431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:01 +0000
Subject: [PATCH 033/105] fix: sum and product of integer and half precision
 literals were computed in an inexact format

---
 src/var.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index d8f5bfb..3a8e352 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2432,14 +2432,26 @@ uint32_t jitc_var_compress(uint32_t index) {
 template <typename T> static void jitc_var_reduce_scalar_add(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(value * T(size));
+    if constexpr (std::is_integral_v<T>)
+        value = T((uint64_t) value * (uint64_t) size);
+    else
+        value = T((double) value * (double) size);
     memcpy(ptr, &value, sizeof(T));
 }
 
 template <typename T> static void jitc_var_reduce_scalar_mul(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(std::pow((double) value, (double) T(size)));
+    if constexpr (std::is_integral_v<T>) {
+        uint64_t result = 1, base = (uint64_t) value;
+        for (uint32_t exp = size; exp; exp >>= 1, base *= base) {
+            if (exp & 1)
+                result *= base;
+        }
+        value = T(result);
+    } else {
+        value = T(std::pow((double) value, (double) size));
+    }
     memcpy(ptr, &value, sizeof(T));
 }
 
-- 
2.43.0


From a23b8f734f442c06ca62076a6cb18eb2f5f5f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:07 +0000
Subject: [PATCH 034/105] fix: jit_block_mkperm() accessed memory out of bounds
 when the last group was smaller than the offset of a task

---
 src/llvm_ts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 1ec49dc..1602999 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -845,7 +845,7 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
             uint32_t *buckets_local = (uint32_t *) malloc_check(bsize);
             memset(buckets_local, 0, bsize);
 
-            for (uint32_t i = start; i != end; ++i)
+            for (uint32_t i = start; i < end; ++i)
                 buckets_local[ptr[i]]++;
 
             buckets[index] = buckets_local;
@@ -913,7 +913,7 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
 
             uint32_t *buckets_local = buckets[index];
 
-            for (uint32_t i = start; i != end; ++i) {
+            for (uint32_t i = start; i < end; ++i) {
                 uint32_t idx = buckets_local[ptr[i]]++;
                 perm[idx] = i;
             }
-- 
2.43.0


From 54643fda60c0a2337fb2540f2a5f342ee703926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 035/105] fix: jit_var_call_reduce() returned stale buckets
 after the array of indices was modified

---
 src/var.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 3a8e352..2414d02 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1008,10 +1008,15 @@ uint32_t jitc_var_pointer(JitBackend backend, const void *value,
     // Write pointers create a special type of reference to indicate pending writes
     v.write_ptr = write != 0;
     v.written = write != 0 || written;
-    if (write)
+    if (write) {
         jitc_var_inc_ref_se(dep);
-    else
+
+        // The write invalidates a cached 'jit_var_call_reduce()' result
+        if (unlikely(!call_reduce_cache.empty()))
+            jitc_var_call_reduce_cache_remove(dep);
+    } else {
         jitc_var_inc_ref(dep);
+    }
 
     /// Pointer variables live in a global scope with ID '1'
     ThreadState *ts = thread_state(backend);
@@ -1778,6 +1783,10 @@ uint32_t jitc_var_write(uint32_t index_, size_t offset, const void *src) {
     uint32_t isize = type_size[v->type];
     uint8_t *dst = (uint8_t *) v->data + offset * isize;
 
+    // The write invalidates a cached 'jit_var_call_reduce()' result
+    if (unlikely(!call_reduce_cache.empty()))
+        jitc_var_call_reduce_cache_remove(index);
+
     jitc_poke((JitBackend) v->backend, dst, src, isize);
 
     return index.release();
-- 
2.43.0


From 7e3d8378a61dbb0d61e84c82c2e5b409a05ddf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 036/105] fix: jit_var_call_reduce() returned cached buckets of
 another domain or of instances that were replaced

---
 src/call.cpp   | 19 ++++++++++++++-----
 src/internal.h |  4 +++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/call.cpp b/src/call.cpp
index b85e581..8b7aed3 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -1252,9 +1252,11 @@ void jitc_call_upload(ThreadState *ts) {
 std::vector<CallReduceRecord> call_reduce_cache;
 
 void jitc_var_call_reduce_cache_remove(uint32_t index) {
-    for (size_t i = 0; i < call_reduce_cache.size(); ++i) {
-        if (call_reduce_cache[i].index != index)
+    for (size_t i = 0; i < call_reduce_cache.size(); ) {
+        if (call_reduce_cache[i].index != index) {
+            ++i;
             continue;
+        }
 
         // Pop before freeing, so a recursive free via 'dec_ref' sees a
         // consistent cache.
@@ -1265,7 +1267,7 @@ void jitc_var_call_reduce_cache_remove(uint32_t index) {
         for (uint32_t j = 0; j < rec.bucket_count; ++j)
             jitc_var_dec_ref(rec.buckets[j].index);
         jitc_free(rec.buckets);
-        return;
+        i = 0;
     }
 }
 
@@ -1276,7 +1278,13 @@ CallBucket *jitc_var_call_reduce(JitBackend backend, const char *variant,
 
     // Reuse a cached result for this index, if present.
     for (const CallReduceRecord &rec : call_reduce_cache) {
-        if (rec.index == index) {
+        if (rec.index == index &&
+            rec.variant == (domain ? variant : "") &&
+            rec.domain == (domain ? domain : "")) {
+            // Registry IDs may have been reassigned in the meantime
+            for (uint32_t i = 0; domain && i < rec.bucket_count; ++i)
+                rec.buckets[i].ptr =
+                    jitc_registry_ptr(variant, domain, rec.buckets[i].id);
             *bucket_count_inout = rec.bucket_count;
             return rec.buckets;
         }
@@ -1387,7 +1395,8 @@ CallBucket *jitc_var_call_reduce(JitBackend backend, const char *variant,
 
     // Cache for reuse by later calls sharing this index; freed in 'jitc_var_free()'.
     call_reduce_cache.push_back(
-        CallReduceRecord{ index, unique_count_out, (CallBucket *) offsets });
+        CallReduceRecord{ index, domain ? variant : "", domain ? domain : "",
+                          unique_count_out, (CallBucket *) offsets });
 
     *bucket_count_inout = unique_count_out;
     return (CallBucket *) offsets;
diff --git a/src/internal.h b/src/internal.h
index 2564814..ddfcf78 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -407,9 +407,11 @@ struct VariableExtra {
 
 struct CallBucket;
 
-/// Memoized 'jit_var_call_reduce()' result, keyed by its index variable.
+/// Memoized 'jit_var_call_reduce()' result, keyed by its index variable
+/// and the registry domain (if any).
 struct CallReduceRecord {
     uint32_t index;
+    std::string variant, domain;
     uint32_t bucket_count;
     CallBucket *buckets; ///< Owns the allocation + bucket refs
 };
-- 
2.43.0


From d2596b4f0e1a53713b7d7bfabb01762622674cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:30 +0000
Subject: [PATCH 037/105] fix: matrix products with an empty sum (K = 0 or an
 empty reduce dimension) left the result uninitialized

---
 src/util.cpp | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index abc9ed4..adb4035 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -70,7 +70,7 @@ void jitc_batched_gemm(JitBackend backend, VarType type, bool At, bool Bt,
                  uint32_t M, uint32_t N, uint32_t K,
                  const GemmBatch *batch,
                  const void *A, const void *B, void *C) {
-    if (M == 0 || N == 0 || K == 0)
+    if (M == 0 || N == 0)
         return;
     if (batch && batch->n_bdims + batch->n_rdims > DRJIT_GEMM_MAX_BDIMS)
         jitc_raise("jit_batched_gemm(): n_bdims + n_rdims exceeds "
@@ -85,6 +85,28 @@ void jitc_batched_gemm(JitBackend backend, VarType type, bool At, bool Bt,
                    "types Float16, Float32, and Float64.",
                    type_name[(int) type]);
 
+    // An empty sum (``K == 0`` or an empty reduce dimension) is zero
+    bool empty_sum = K == 0, empty_grid = false;
+    for (uint32_t d = 0; batch && d < batch->n_bdims + batch->n_rdims; ++d) {
+        if (batch->extent[d] == 0)
+            (d < batch->n_bdims ? empty_grid : empty_sum) = true;
+    }
+
+    if (empty_grid)
+        return;
+
+    if (empty_sum) {
+        size_t size = (size_t) M * N * type_size[(int) type];
+        for (uint32_t d = 0; batch && d < batch->n_bdims; ++d)
+            size *= batch->extent[d];
+        uint8_t zero = 0;
+        for (size_t i = 0; i < size; i += UINT32_MAX)
+            jitc_memset_async(backend, (uint8_t *) C + i,
+                              (uint32_t) std::min(size - i, (size_t) UINT32_MAX),
+                              1, &zero);
+        return;
+    }
+
     // Beyond pruning trivial (``extent == 1``) dimensions, some batch
     // shapes are mathematically equivalent to a non-batched (or
     // less-batched) GEMM whose ``M`` or ``K`` dimension has been
-- 
2.43.0


From 4cede6e00ce3247a213bec200bc36974303f85e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 038/105] fix: packing variables with pending side effects into
 a cooperative vector aborted the process

---
 src/coop_vec.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index c69b49b..a397101 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -8,6 +8,7 @@
 */
 
 #include "var.h"
+#include "eval.h"
 #include "coop_vec.h"
 #include "internal.h"
 #include "log.h"
@@ -62,6 +63,15 @@ uint32_t jitc_coop_vec_pack(uint32_t n, const uint32_t *in) {
             jitc_raise("jit_coop_vec_pack(): argument %u is uninitialized!", i);
     }
 
+    // Perform pending writes to the inputs
+    for (uint32_t i = 0; i < n; ++i) {
+        if (unlikely(jitc_var(in[i])->is_dirty())) {
+            jitc_eval(thread_state(jitc_var(in[i])->backend));
+            if (jitc_var(in[i])->is_dirty())
+                jitc_raise_dirty_error(in[i]);
+        }
+    }
+
     const Variable *arg_v = jitc_var(in[0]);
     if (!jitc_coop_vec_supported((JitBackend) arg_v->backend))
         jitc_raise("jit_coop_vec_pack(): The use of cooperative vectors on "
-- 
2.43.0


From 1c57c7e511a3b1e22615eeb57f6bce49ad306449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 039/105] fix: loading a cooperative vector under a mask
 aborted the process

---
 src/coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index a397101..4424767 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -190,7 +190,7 @@ uint32_t jitc_coop_vec_load(uint32_t buffer, uint32_t offset, uint32_t length) {
     Variable v;
     v.kind = (uint32_t) VarKind::CoopVecLoad;
     v.type = (uint32_t) vt;
-    v.size = 1;
+    v.size = jitc_var(mask)->size;
     v.backend = (uint32_t) backend;
     v.array_length = (uint16_t) length;
     v.literal = offset;
-- 
2.43.0


From 4333fcd6b308e8ef5b652b7c88d8d2656044080d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 040/105] fix: matrix-vector products ignored the row stride of
 the matrix (LLVM)

---
 src/llvm_coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index dd5d2c8..b38f504 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -425,7 +425,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
                 );
 
                 fmt("    $v_a1 = getelementptr inbounds [$u x $t], $<ptr$> $v_pa, i32 $v_$s, i32 $v_$s\n",
-                    v, transpose ? m : n,
+                    v, d->A_descr.stride,
                     v, v,
                     v, transpose ? "j" : "i",
                     v, transpose ? "i" : "j");
-- 
2.43.0


From 7933ce6b726530ea3430a318fb5a11d7073802fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 041/105] fix: casts of cooperative vectors generated invalid
 code or ignored the sign of integers (LLVM)

---
 src/llvm_coop_vec.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index b38f504..be6c29c 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -274,16 +274,30 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
 
         case VarKind::CoopVecCast: {
                 bool bigger = type_size[v->type] > type_size[a0->type],
+                     same_size = type_size[v->type] == type_size[a0->type],
                      dst_float = jitc_is_float(v),
-                     src_signed = jitc_is_float(a0),
-                     dst_signed = jitc_is_float(v),
+                     src_signed = jitc_is_sint(a0),
+                     dst_signed = jitc_is_sint(v),
                      src_float = jitc_is_float(a0);
 
+                // See VarKind::Cast regarding double <-> half conversions
+                if ((jitc_is_double(v) && jitc_is_half(a0)) ||
+                    (jitc_is_half(v) && jitc_is_double(a0))) {
+                    const char *op_2 = bigger ? "fpext" : "fptrunc";
+                    for (uint32_t i =  0; i < v->array_length; ++i)
+                        fmt("    $v_$u_f = $s $V_$u to <$w x float>\n"
+                            "    $v_$u = $s <$w x float> $v_$u_f to $T\n",
+                            v, i, op_2, a0, i,
+                            v, i, op_2, v, i, v);
+                    break;
+                }
+
                 const char *op;
                 if (src_float && dst_float)
                     op = bigger ? "fpext" : "fptrunc";
                 else if (!src_float && !dst_float)
-                    op = bigger ? (src_signed ? "sext" : "zext") : "trunc";
+                    op = same_size ? "bitcast"
+                                   : (bigger ? (src_signed ? "sext" : "zext") : "trunc");
                 else if (src_float && !dst_float)
                     op = dst_signed ? "fptosi" : "fptoui";
                 else
-- 
2.43.0


From f7df90324d6e41550d7a031c481cfd2e838b8cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 042/105] fix: min/max of integer cooperative vectors generated
 invalid code, those of floats did not ignore NaNs (LLVM)

---
 src/llvm_coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index be6c29c..0187070 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -238,7 +238,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
 
                         const char *intrinsic_prefix = custom_intrinsic ? "" : "llvm.";
                         for (uint32_t i =  0; i < v->array_length; ++i)
-                            fmt("    $v_$u = call fast $T @$s$s.v$w$h($V_$u, $V_$u)\n",
+                            fmt("    $v_$u = call $T @$s$s.v$w$h($V_$u, $V_$u)\n",
                                 v, i, v, intrinsic_prefix, op, v, a0, i, a1, i);
                     }
                 }
-- 
2.43.0


From 30e285ab15d8fc9196afedd1ce303b7709b109d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 043/105] fix: step function of integer cooperative vectors
 generated invalid code (LLVM)

---
 src/llvm_coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index 0187070..32f1c43 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -209,7 +209,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
                     case JitOp::FMin: op = is_float ? "minnum" : (is_sint ? "smin" : "umin"); is_intrinsic = true; break;
                     case JitOp::Max:
                     case JitOp::FMax: op = is_float ? "maxnum" : (is_sint ? "smax" : "umax"); is_intrinsic = true; break;
-                    case JitOp::Step: op = is_float ? "fcmp olt" : "icmp lt"; break;
+                    case JitOp::Step: op = is_float ? "fcmp olt" : (is_sint ? "icmp slt" : "icmp ult"); break;
                     default:
                         jitc_fail("CoopVecBinaryOp: unsupported operation!");
                 }
-- 
2.43.0


From 12846496eededebbdc4a6d92843bd6a17cb16151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 044/105] fix: min/max of half precision cooperative vectors
 did not ignore NaNs (LLVM)

---
 src/llvm_coop_vec.cpp | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index 32f1c43..b8d3808 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -225,21 +225,29 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
                         for (uint32_t i =  0; i < v->array_length; ++i)
                             fmt("    $v_$u = $s $V_$u, $v_$u\n", v, i, op, a0, i, a1, i);
                     } else {
-                        bool custom_intrinsic = false;
+                        bool expand = false;
 #if !defined(__aarch64__)
-                        if ((VarType) a0->type == VarType::Float16) {
-                            def_f16_wrapper_binary_intrinsic(op);
-                            custom_intrinsic = true;
-                        }
+                        // See VarKind::FMin/FMax regarding this special case
+                        expand = (VarType) a0->type == VarType::Float16;
 #endif
-                        if (!custom_intrinsic)
+                        if (expand) {
+                            const char *cmp = strcmp(op, "minnum") == 0 ? "olt" : "ogt";
+                            for (uint32_t i =  0; i < v->array_length; ++i)
+                                fmt("    $v_$u_0 = fcmp $s $V_$u, $v_$u\n"
+                                    "    $v_$u_1 = fcmp uno $V_$u, $v_$u\n"
+                                    "    $v_$u_2 = or <$w x i1> $v_$u_0, $v_$u_1\n"
+                                    "    $v_$u = select <$w x i1> $v_$u_2, $V_$u, $V_$u\n",
+                                    v, i, cmp, a0, i, a1, i,
+                                    v, i, a1, i, a1, i,
+                                    v, i, v, i, v, i,
+                                    v, i, v, i, a0, i, a1, i);
+                        } else {
                             fmt_intrinsic("declare $T @llvm.$s.v$w$h($T, $T)",
                                           v, op, v, a0, a1);
-
-                        const char *intrinsic_prefix = custom_intrinsic ? "" : "llvm.";
-                        for (uint32_t i =  0; i < v->array_length; ++i)
-                            fmt("    $v_$u = call $T @$s$s.v$w$h($V_$u, $V_$u)\n",
-                                v, i, v, intrinsic_prefix, op, v, a0, i, a1, i);
+                            for (uint32_t i =  0; i < v->array_length; ++i)
+                                fmt("    $v_$u = call $T @llvm.$s.v$w$h($V_$u, $V_$u)\n",
+                                    v, i, v, op, v, a0, i, a1, i);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 10be143d11f6451eb6e7c4d041177f19f957f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 045/105] fix: matrix-vector products and loads of cooperative
 vectors ignored pending writes to the buffer

---
 src/coop_vec.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 4424767..88b6ee4 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -181,7 +181,7 @@ uint32_t jitc_coop_vec_load(uint32_t buffer, uint32_t offset, uint32_t length) {
     }
 
     void *p = nullptr;
-    Ref tmp = steal(jitc_var_data(buffer, false, &p));
+    Ref tmp = steal(jitc_var_data(buffer, true, &p));
     Ref buf_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
 
     Ref mask = steal(jitc_var_bool(backend, true));
@@ -508,7 +508,7 @@ uint32_t jitc_coop_vec_matvec(uint32_t A_index,
     Ref a_ptr, b_ptr;
     {
         void *p = nullptr;
-        Ref tmp = steal(jitc_var_data(A_index, false, &p));
+        Ref tmp = steal(jitc_var_data(A_index, true, &p));
 
         a_vt = (VarType) jitc_var(tmp)->type;
         a_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
@@ -531,7 +531,7 @@ uint32_t jitc_coop_vec_matvec(uint32_t A_index,
 
     if (b_index && b_descr) {
         void *p = nullptr;
-        Ref tmp = steal(jitc_var_data(b_index, false, &p));
+        Ref tmp = steal(jitc_var_data(b_index, true, &p));
 
         b_vt = (VarType) jitc_var(tmp)->type;
         b_ptr = steal(jitc_var_pointer(backend, p, tmp, 0));
-- 
2.43.0


From 2db101186842ce058743b20b64f489eb2014c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 046/105] fix: half precision FMA and matrix-vector products of
 cooperative vectors assumed finite values (LLVM)

---
 src/llvm_eval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_eval.h b/src/llvm_eval.h
index 007ee3f..70b2b14 100644
--- a/src/llvm_eval.h
+++ b/src/llvm_eval.h
@@ -44,7 +44,7 @@
             "    %a_f32  = fpext <$w x half> %a to <$w x float>\n"             \
             "    %b_f32  = fpext <$w x half> %b to <$w x float>\n"             \
             "    %c_f32  = fpext <$w x half> %c to <$w x float>\n"             \
-            "    %out_f32 = call fast <$w x float> @llvm.$s.v$wf32(<$w x "     \
+            "    %out_f32 = call <$w x float> @llvm.$s.v$wf32(<$w x "     \
             "float> %a_f32, <$w x float> %b_f32, <$w x float> %c_f32)\n"       \
             "    %out = fptrunc <$w x float> %out_f32 to <$w x half>\n"        \
             "    ret <$w x half> %out\n"                                       \
-- 
2.43.0


From 51de318d4255cf97ec35cf9e24d64bd9a90bdecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 047/105] fix: FMA of integer cooperative vectors generated
 invalid code (LLVM)

---
 src/llvm_coop_vec.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index b8d3808..357ab3b 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -257,6 +257,15 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
                 if ((JitOp) v->literal != JitOp::Fma)
                     jitc_fail("CoopVecTernaryOp: unsupported operation!");
 
+                if (!jitc_is_float(v)) {
+                    for (uint32_t i = 0; i < v->array_length; ++i)
+                        fmt("    $v_$u_0 = mul $V_$u, $v_$u\n"
+                            "    $v_$u = add $V_$u_0, $v_$u\n",
+                            v, i, a0, i, a1, i,
+                            v, i, v, i, a2, i);
+                    break;
+                }
+
                 bool custom_intrinsic = false;
 #if !defined(__aarch64__)
                 if ((VarType) a0->type == VarType::Float16) {
-- 
2.43.0


From 589bd3c5e7e3e250a2479ae458b549343cacfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 048/105] fix: broadcasting a cooperative vector generated
 invalid code (LLVM)

---
 src/llvm_coop_vec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/llvm_coop_vec.cpp b/src/llvm_coop_vec.cpp
index 357ab3b..59c50fd 100644
--- a/src/llvm_coop_vec.cpp
+++ b/src/llvm_coop_vec.cpp
@@ -286,7 +286,7 @@ void jitc_llvm_render_coop_vec(const Variable *v, const Variable *a0,
 
         case VarKind::Bitcast:
                 for (uint32_t i =  0; i < v->array_length; ++i)
-                    fmt("    $v_$u = bitcast $V_u to $T\n", v, i, a0, i, v);
+                    fmt("    $v_$u = bitcast $V_$u to $T\n", v, i, a0, i, v);
             break;
 
         case VarKind::CoopVecCast: {
-- 
2.43.0


From 085a0136e4c3350d173dd78ac9eb7714efa79fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:53 +0000
Subject: [PATCH 049/105] fix: operations with a neutral wider operand resized
 a scalar operand in place

---
 src/api.cpp | 2 +-
 src/var.cpp | 4 ++--
 src/var.h   | 6 ++++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 8c25317..f448806 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1035,7 +1035,7 @@ int jit_var_is_unaligned(uint32_t index) {
 
 uint32_t jit_var_resize(uint32_t index, size_t size) {
     lock_guard guard(state.lock);
-    return jitc_var_resize(index, size);
+    return jitc_var_resize(index, size, /* in_place = */ true);
 }
 
 VarType jit_var_type(uint32_t index) {
diff --git a/src/var.cpp b/src/var.cpp
index 2414d02..e009f14 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2020,7 +2020,7 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
     return result;
 }
 
-uint32_t jitc_var_resize(uint32_t index, size_t size) {
+uint32_t jitc_var_resize(uint32_t index, size_t size, bool in_place) {
     if (index == 0 && size == 0)
         return 0;
 
@@ -2046,7 +2046,7 @@ uint32_t jitc_var_resize(uint32_t index, size_t size) {
     }
 
     uint32_t result;
-    if (!v->is_evaluated() && v->ref_count == 1) {
+    if (in_place && !v->is_evaluated() && v->ref_count == 1) {
         // Nobody else holds a reference -- we can directly resize this variable
         jitc_var_inc_ref(index, v);
         jitc_lvn_drop(index, v);
diff --git a/src/var.h b/src/var.h
index 9becdf5..c54db9b 100644
--- a/src/var.h
+++ b/src/var.h
@@ -104,8 +104,10 @@ extern bool jitc_var_is_shared_view(const Variable *v);
 /// Duplicate a variable into a memory region of its own
 extern uint32_t jitc_var_copy_opaque(uint32_t index);
 
-/// Create a resized copy of a variable
-extern uint32_t jitc_var_resize(uint32_t index, size_t size);
+/// Create a resized copy of a variable, or optionally resize 'index' itself
+/// when nobody besides the caller holds a reference
+extern uint32_t jitc_var_resize(uint32_t index, size_t size,
+                                bool in_place = false);
 
 /// Increase the external reference count of a given variable
 extern void jitc_var_inc_ref(uint32_t index, Variable *v) noexcept;
-- 
2.43.0


From 21d7cbeadf1590525236ae880bc4a717c14adf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 050/105] fix: bounds checks crashed in debug mode when the
 check itself was evaluated into an array

---
 src/op.cpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index fee88c3..92674a7 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2039,24 +2039,36 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
         info.symbolic, index, jitc_var(index), mask, jitc_var(mask), buffer_ptr,
         jitc_var(buffer_ptr), array_size | (((uint64_t) bct) << 32)));
 
+    // The check itself may be turned into an evaluated array, in which case
+    // its dependencies and literal are gone by the time of the callback below
+    struct BoundsCheckData {
+        Ref buf;
+        BoundsCheckType type;
+        uint32_t size;
+    };
+
+    BoundsCheckData *bcd = new BoundsCheckData{ std::move(buf), bct, array_size };
+
     jitc_var_set_callback(result,
-         [](uint32_t index, int free, void *) {
-             if (free)
-                 return;
+         [](uint32_t index, int free, void *p) {
+            BoundsCheckData *bcd = (BoundsCheckData *) p;
+            if (free) {
+                delete bcd;
+                return;
+            }
 
-            Variable *v = jitc_var(index);
+            Variable *v = jitc_var(bcd->buf);
             uint32_t captured = 0;
-            jitc_memcpy((JitBackend) v->backend, &captured,
-                        jitc_var(v->dep[2])->data, sizeof(uint32_t));
-            v = jitc_var(index);
+            jitc_memcpy((JitBackend) v->backend, &captured, v->data,
+                        sizeof(uint32_t));
 
             const char *label = jitc_var_label(index);
             if (captured) {
                 const char *msg = nullptr;
                 const char *msg2 = " in an array of size";
-                uint32_t size = (uint32_t) v->literal;
+                uint32_t size = bcd->size;
 
-                switch ((BoundsCheckType) (v->literal >> 32)) {
+                switch (bcd->type) {
                     case BoundsCheckType::Gather:
                         msg = "drjit.gather(): out-of-bounds read from position";
                         break;
@@ -2117,7 +2129,7 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
                          label ? ")" : "");
             }
         },
-        nullptr, true);
+        bcd, true);
 
     return result.release();
 }
-- 
2.43.0


From d3bd030ecdb95303191feb4e2727f8e1196334d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 051/105] fix: Expand-mode reductions were lost when an earlier
 one was deleted while re-recording a loop

---
 src/op.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 92674a7..947fe7d 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2927,16 +2927,12 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
             const Variable *index_v2 = jitc_var(index);
             uint32_t size = index_v2->size;
 
-            // Track if this is the first time that 'jit_var_expand' is called
-            reduce_expanded =
-                jitc_var(target)->reduce_op() == ReduceOp::Identity;
-
             // When capturing symbolic loops, side effects might be deleted
             // and re-recorded. So, even if `jit_var_expand` was already called
-            // once, its corresponding side effect might have been deleted. We
-            // therefore always mark this as the first time it's being called
-            // when inside a symbolic scope.
-            reduce_expanded |= (bool) jit_flag(JitFlag::SymbolicScope);
+            // once, its corresponding side effect might have been deleted.
+            // Therefore always reduce the array following this operation
+            // (this does nothing if another one already did so)
+            reduce_expanded = true;
 
             auto [target_i, expand_i] = jitc_var_expand(target, op);
             target = steal(target_i);
-- 
2.43.0


From d98ca3907f114d330c26f15f563b3e8ea8bc2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 052/105] fix: jit_registry_put() accepted null pointers

---
 src/registry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/registry.cpp b/src/registry.cpp
index 0aaaa26..fcf6a62 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -66,6 +66,10 @@ static Registry registry;
 uint32_t jitc_registry_put(const char *variant, const char *domain_name, void *ptr) {
     Registry &r = registry;
 
+    if (unlikely(!ptr))
+        jitc_raise("jit_registry_put(domain=\"%s\"): cannot register a null "
+                   "pointer!", domain_name);
+
     auto [it1, result1] =
         r.rev_map.try_emplace(ptr, ReverseKey{});
     if (unlikely(!result1))
-- 
2.43.0


From 1122396df57885b52967145bcf532415d4084232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:56 +0000
Subject: [PATCH 053/105] fix: jit_registry_remove() aborted the process when
 the pointer is not registered

---
 src/registry.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index fcf6a62..adf3ff0 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -117,10 +117,8 @@ void jitc_registry_remove(const void *ptr) {
     size_t ptr_hash = PointerHasher()(ptr);
 
     auto it = r.rev_map.find((void *) ptr, ptr_hash);
-    if (it == r.rev_map.end()) {
-        jitc_fail("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
-        return;
-    }
+    if (unlikely(it == r.rev_map.end()))
+        jitc_raise("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
 
     ReverseKey rk = it->second;
     r.rev_map.erase_fast(it);
-- 
2.43.0


From b75a11ad10f679569ba7fd43a47907ebd359b709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:00 +0000
Subject: [PATCH 054/105] fix: jit_registry_remove() accessed memory out of
 bounds after jit_shutdown()

---
 src/registry.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index adf3ff0..a19a469 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -252,8 +252,10 @@ void jitc_registry_shutdown() {
         if (!r.rev_map.empty()) {
             std::vector<size_t> leak_counts(r.domains.size(), 0);
 
-            for (const auto &entry : r.rev_map)
-                leak_counts.at(entry.second.domain_id)++;
+            for (const auto &entry : r.rev_map) {
+                if (entry.second.domain_id != UINT32_MAX)
+                    leak_counts.at(entry.second.domain_id)++;
+            }
 
             for (size_t i = 0; i < r.domains.size(); i++) {
                 if (leak_counts[i] > 0)
@@ -264,6 +266,10 @@ void jitc_registry_shutdown() {
         }
     }
 
+    // The owners of leaked instances may still remove them later on
+    for (auto it = r.rev_map.begin(); it != r.rev_map.end(); ++it)
+        it.value() = ReverseKey{ UINT32_MAX, UINT32_MAX };
+
     r.domain_ids.clear();
     r.domains.clear();
 }
-- 
2.43.0


From 545597bf6c402914700720ca94ea5fef899ec311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 055/105] fix: jit_malloc() returned invalid pointers when
 large allocations fail

---
 src/malloc.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2d7b380..e421981 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -74,10 +74,12 @@ static void *aligned_malloc(size_t size) {
         ptr = mmap(0, size, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANON, -1, 0);
 
+        if (ptr == MAP_FAILED)
+            return nullptr;
+
 #if DRJIT_HUGEPAGE
         // .. and advise the OS to convert to 2M pages
-        if (ptr != MAP_FAILED)
-            madvise(ptr, size, MADV_HUGEPAGE);
+        madvise(ptr, size, MADV_HUGEPAGE);
 #endif
 
         return ptr;
@@ -103,6 +105,12 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
     if (size == 0)
         return nullptr;
 
+    // No system can satisfy such requests (and rounding would overflow below)
+    if (unlikely(size > ((size_t) 1 << 52)))
+        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                   "(backend=%s, shared=%i).", size,
+                   jitc_backend_name(backend), (int) shared);
+
     // The 'shared' flag is meaningless for backend=None
     if (backend == JitBackend::None)
         shared = false;
@@ -203,6 +211,11 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
             jitc_metal_register_buffer(ptr, metal_buf, size);
 #endif
 
+        if (unlikely(!ptr))
+            jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                       "(backend=%s, shared=%i).", size,
+                       jitc_backend_name(backend), (int) shared);
+
         descr = "new allocation";
 
         state.alloc_allocated[(int) backend] += size;
@@ -211,11 +224,6 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
                      state.alloc_watermark[(int) backend]);
     }
 
-    if (unlikely(!ptr))
-        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
-                   "(backend=%s, shared=%i).", size,
-                   jitc_backend_name(backend), (int) shared);
-
     state.alloc_used.emplace((uintptr_t) ptr, ai);
     state.alloc_usage[(int) backend] += size;
 
-- 
2.43.0


From 4e85b0bd0072627f2b9d2eea6f88fe2fd1bc997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 056/105] fix: jit_malloc_migrate() did not update the peak
 memory usage of the destination

---
 src/malloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index e421981..a196b34 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -345,6 +345,9 @@ void* jitc_malloc_migrate(void *ptr, JitBackend dst_backend, int move) {
             state.alloc_usage[(int) dst_backend] += size;
             state.alloc_allocated[(int) src_backend] -= size;
             state.alloc_allocated[(int) dst_backend] += size;
+            state.alloc_watermark[(int) dst_backend] =
+                std::max(state.alloc_allocated[(int) dst_backend],
+                         state.alloc_watermark[(int) dst_backend]);
             it.value() = alloc_info_encode(size, dst_backend, 0, 0);
             return ptr;
         }
-- 
2.43.0


From 0a55a9f37deeda3783895a4baa6b9d7bc2f16534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 057/105] fix: jit_free() released memory migrated to the host
 while pending work could still access it

---
 src/malloc.cpp | 16 ++++++++++++++--
 src/var.cpp    |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index a196b34..717c214 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -291,6 +291,13 @@ void jitc_free(void *ptr) {
     if (ts)
         ts->notify_free(ptr);
 
+    // Host memory that was migrated from the LLVM backend, see jitc_malloc_migrate()
+    if (backend == JitBackend::None && shared) {
+        info = alloc_info_encode(size, backend, false, device);
+        ts = tl.ts_llvm;
+        shared = ts != nullptr;
+    }
+
     if (shared && !ts) // Leak shared allocation if Dr.Jit has already shut down
         return;
 
@@ -301,7 +308,7 @@ void jitc_free(void *ptr) {
 
     // Free regular/host allocations immediately. Shared allocations are parked
     // until their GPU work completes; Metal device allocations until submission.
-    if (backend == JitBackend::None || (!shared && !submit_deferred)) {
+    if (!shared && !submit_deferred) {
         jitc_malloc_release(info, ptr);
     } else {
         ThreadState *as = ts->actual_state();
@@ -348,7 +355,12 @@ void* jitc_malloc_migrate(void *ptr, JitBackend dst_backend, int move) {
             state.alloc_watermark[(int) dst_backend] =
                 std::max(state.alloc_allocated[(int) dst_backend],
                          state.alloc_watermark[(int) dst_backend]);
-            it.value() = alloc_info_encode(size, dst_backend, 0, 0);
+
+            // Pending kernels may still access memory that migrates to the
+            // host. Set the 'shared' bit, so that jitc_free() waits for them
+            bool pending = dst_backend == JitBackend::None &&
+                           (jitc_is_llvm(src_backend) || src_shared);
+            it.value() = alloc_info_encode(size, dst_backend, pending, 0);
             return ptr;
         }
 
diff --git a/src/var.cpp b/src/var.cpp
index e009f14..dc90bb9 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -3117,7 +3117,7 @@ const char *jitc_var_whos() {
 
                 if (jitc_is_gpu(bk) && !sh)
                     var_buffer.fmt("device %-4i", (int) device);
-                else if (sh)
+                else if (sh && bk != JitBackend::None)
                     var_buffer.fmt("%s shared ", jitc_backend_name(bk));
                 else
                     var_buffer.fmt("%-11s", jitc_backend_name(bk));
-- 
2.43.0


From 809a37ccfa46f1de53b80acd61a2b97a20882389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 058/105] fix: jit_event_elapsed_time() held the lock while
 waiting, which could deadlock

---
 src/llvm_ts.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 1602999..05ff059 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1225,9 +1225,9 @@ float jitc_llvm_event_elapsed_time(JitEvent start, JitEvent end) {
     if (!s->llvm_task || !e->llvm_task)
         jitc_raise("jit_event_elapsed_time(): events must be recorded");
 
-    // Ensure both tasks are complete
-    task_wait(s->llvm_task);
-    task_wait(e->llvm_task);
+    // Ensure both tasks are complete. Release the lock while waiting
+    jitc_llvm_event_wait(start);
+    jitc_llvm_event_wait(end);
 
     return (float) task_time_rel(s->llvm_task, e->llvm_task);
 }
-- 
2.43.0


From 43e2939d4ba1b265e442396b790fc2e8cb4d95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 059/105] fix: jit_free() leaked shared memory when the thread
 had not used the backend before

---
 src/malloc.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 717c214..69d12b5 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -298,8 +298,12 @@ void jitc_free(void *ptr) {
         shared = ts != nullptr;
     }
 
-    if (shared && !ts) // Leak shared allocation if Dr.Jit has already shut down
-        return;
+    if (shared && !ts) {
+        // Leak shared allocation if Dr.Jit has already shut down
+        if (!(state.backends & (1u << (uint32_t) backend)))
+            return;
+        ts = thread_state(backend);
+    }
 
     // A freed Metal buffer is not safe to reuse (by other threads) until the
     // current thread has committed its command buffer, so park it until then
-- 
2.43.0


From b954cb64c157b9b275404ff83b7b7c4dd72fe993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 060/105] fix: shared memory released by a task that ran during
 jit_sync_thread() was leaked

---
 src/internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal.h b/src/internal.h
index ddfcf78..d3168ca 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -1035,6 +1035,9 @@ public:
     }
 
     ~scoped_reset_thread_state() {
+        // Don't forget memory that was released in the meantime
+        cached_ts.free_later.swap(ts->free_later);
+        cached_ts.free_next.swap(ts->free_next);
         *ts = std::move(cached_ts);
     }
     scoped_reset_thread_state(const scoped_reset_thread_state &) = delete;
-- 
2.43.0


From aeea7bea4d647ce545a0c3b2000325ff65cb28ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 061/105] fix: synchronizing all devices clobbered the state of
 other threads

---
 src/init.cpp   | 5 +++--
 src/internal.h | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index fdd3aef..c7a9df0 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -538,9 +538,10 @@ void jitc_sync_thread(ThreadState *ts) {
          *
          * However we don't want the ThreadState dynamic internal
          * variables (e.g. scheduled, side_effects, mask_stack) to
-         * be shared across these tasks
+         * be shared across these tasks. (Note that 'ts' may also belong to
+         * another thread, whose state must be left alone)
          */
-        scoped_reset_thread_state ts_guard(ts);
+        scoped_reset_thread_state ts_guard(jitc_thread_local().ts_llvm);
         {
             unlock_guard guard(state.lock);
             task_wait(task);
diff --git a/src/internal.h b/src/internal.h
index d3168ca..51e9ac3 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -1030,11 +1030,16 @@ struct ThreadState : public ThreadStateBase {
 /// RAII helper for scoped reset dynamic thread state
 class scoped_reset_thread_state {
 public:
-    scoped_reset_thread_state(ThreadState* ts) :ts(ts), cached_ts(*ts) {
-        ts->reset_state();
+    scoped_reset_thread_state(ThreadState* ts_) : ts(ts_) {
+        if (!ts)
+            return;
+        cached_ts = *ts_;
+        ts_->reset_state();
     }
 
     ~scoped_reset_thread_state() {
+        if (!ts)
+            return;
         // Don't forget memory that was released in the meantime
         cached_ts.free_later.swap(ts->free_later);
         cached_ts.free_next.swap(ts->free_next);
-- 
2.43.0


From 34e52ce77f27b71b40dd10e653561dc7b86e7094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:54 +0000
Subject: [PATCH 062/105] fix: jit_event_destroy() crashed when given a null
 pointer

---
 src/api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api.cpp b/src/api.cpp
index f448806..3463043 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -2357,6 +2357,9 @@ JitEvent jit_event_create(JitBackend backend, int enable_timing) {
 }
 
 void jit_event_destroy(JitEvent event) {
+    if (!event)
+        return;
+
     lock_guard guard(state.lock);
 
     if (jit_flag(JitFlag::FreezingScope))
-- 
2.43.0


From 448709fbc36f119255a847bad99320ad7d55c0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 063/105] fix: a recording that returns the same variable twice
 freed its memory twice

---
 src/record_ts.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9a553b2..9b488a7 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -454,8 +454,26 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
                          slot);
             if (!rv.data)
                 jitc_fail("replay(): freed slot %u used for output.", slot);
+
+            // Another output may already own this memory region
+            uint32_t owner = 0;
+            for (uint32_t j = 0; j < i && !owner; ++j) {
+                if (outputs[j].slot == slot)
+                    owner = replay_outputs[j];
+            }
+
+            if (owner && outputs[i].vtype == (VarType) jitc_var(owner)->type) {
+                jitc_var_inc_ref(owner);
+                replay_outputs[i] = owner;
+                continue;
+            }
+
             replay_outputs[i] = jitc_var_mem_map(backend, info.vtype, rv.data,
-                                          rv.size(info.vtype), true);
+                                                 rv.size(info.vtype), !owner);
+            if (owner) {
+                jitc_var_inc_ref(owner);
+                jitc_var(replay_outputs[i])->dep[3] = owner;
+            }
         }
     }
 
-- 
2.43.0


From db9aa17a453e034805ef995e944b191742555093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:13 +0000
Subject: [PATCH 064/105] fix: replaying a recording launched a freed kernel
 after clearing the kernel cache and recompiling it

---
 src/record_ts.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9b488a7..086978f 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2342,6 +2342,9 @@ bool Recording::check_kernel_cache() {
             auto it = state.kernel_cache.find(key);
             if (it == state.kernel_cache.end())
                 return false;
+
+            // The kernel may have been recompiled after clearing the cache
+            op.kernel.kernel = it.value();
         }
     }
 
-- 
2.43.0


From 202020bd254ba43306265ede176156a4d001d452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 065/105] fix: jit_var_opaque_width() of a literal array could
 not be recorded and leaked its result

---
 src/api.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 3463043..ca429b0 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -967,8 +967,11 @@ uint32_t jit_var_opaque_width(uint32_t index) {
     uint32_t width_index =
         jitc_var_literal(backend, VarType::UInt32, &var_size, 1, true);
 
-    ThreadState *ts = thread_state(backend);
-    ts->notify_opaque_width(index, width_index);
+    // The size of a literal is a constant that is part of the recording
+    if (!jitc_var(index)->is_literal()) {
+        ThreadState *ts = thread_state(backend);
+        ts->notify_opaque_width(index, width_index);
+    }
 
     return width_index;
 }
-- 
2.43.0


From 40153184b969b2ea4fe57caf87c2cbcab602dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 066/105] fix: replaying jit_var_{any,all}_async() ignored most
 of the input

---
 src/record_ts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 086978f..f63a8b5 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1369,7 +1369,8 @@ int Recording::replay_block_reduce_bool(Operation &op) {
     ReplayVariable &in_var = replay_variables[in_info.slot];
     ReplayVariable &out_var = replay_variables[out_info.slot];
 
-    out_var.alloc(backend, 1, VarType::Bool);
+    // This operation produces 4 partial results
+    out_var.alloc(backend, 4, VarType::Bool);
 
     uint32_t size = in_var.size(VarType::Bool);
 
-- 
2.43.0


From f90b8c8aefd3291d717e2be58b8da73678f46095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 067/105] fix: the size of call data could determine the size
 of replayed kernels

---
 src/record_ts.cpp | 14 ++++++++++++--
 src/record_ts.h   |  7 +++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index f63a8b5..cb8b083 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -755,7 +755,8 @@ void RecordThreadState::record_launch(
             pointer_access = true;
             // Only consider pointers who's size is either a fraction or
             // multiple of the launch size.
-            if (v->size % size == 0 || size % v->size == 0) {
+            if (!is_aggregate(ptr) &&
+                (v->size % size == 0 || size % v->size == 0)) {
                 ptr_size = std::max(ptr_size, (size_t) v->size);
             }
         }
@@ -851,7 +852,7 @@ void RecordThreadState::record_launch(
                 index              = v->dep[3];
                 v                  = jitc_var(index);
 
-                if (ptr_size == v->size)
+                if (ptr_size == v->size && !is_aggregate(v->data))
                     m_recording.dependencies[start + i].pointer_input_size =
                         true;
             }
@@ -2086,6 +2087,7 @@ void RecordThreadState::record_aggregate(void *dst, AggregationEntry *agg,
     uint32_t start = (uint32_t) m_recording.dependencies.size();
 
     add_out_param(dst, VarType::UInt8);
+    m_recording.recorded_variables[get_variable(dst)].aggregate = true;
 
     for (uint32_t i = 0; i < size; ++i) {
         AggregationEntry &p = agg[i];
@@ -2435,6 +2437,14 @@ uint32_t RecordThreadState::get_variable(const void *ptr) {
     return it.value();
 }
 
+/// Test if \c ptr refers to a buffer created by an aggregate operation
+bool RecordThreadState::is_aggregate(const void *ptr) {
+    auto it = ptr_to_slot.find(ptr);
+
+    return it != ptr_to_slot.end() &&
+           m_recording.recorded_variables[it.value()].aggregate;
+}
+
 /// Test if the ThreadState knows this \c ptr
 bool RecordThreadState::has_variable(const void *ptr) {
     auto it = ptr_to_slot.find(ptr);
diff --git a/src/record_ts.h b/src/record_ts.h
index d2dab87..9e5b975 100644
--- a/src/record_ts.h
+++ b/src/record_ts.h
@@ -185,6 +185,10 @@ struct RecordedVariable {
     uint32_t last_memcpy = 0;
     uint32_t last_op = 0;
 
+    /// Is this a buffer created by an aggregate operation (e.g., call data)?
+    /// Its size is unrelated to that of the arrays processed by a kernel.
+    bool aggregate = false;
+
     /// Tracks the current state of a variable
     RecordedVarState state = RecordedVarState::Uninitialized;
 
@@ -699,6 +703,9 @@ protected:
     /// Tests if the pointer is a key in \c ptr_to_slot.
     bool has_variable(const void *ptr);
 
+    /// Test if \c ptr refers to a buffer created by an aggregate operation
+    bool is_aggregate(const void *ptr);
+
     /**
      * \brief
      *     Adds a parameter access to the \ref dependencies vector, recording
-- 
2.43.0


From 8b2c01aff29e1bc071ab1099a1c47f0fc8a730d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:47 +0000
Subject: [PATCH 068/105] fix: a replayed recording returned or processed the
 entire array instead of the result of jit_var_shrink()

---
 src/var.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/var.cpp b/src/var.cpp
index dc90bb9..a828c74 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2006,6 +2006,11 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
     uint32_t result;
     if (v->is_literal()) {
         result = jitc_var_literal(backend, vt, &v->literal, size, 0);
+    } else if (jitc_flags() & (uint32_t) JitFlag::FreezingScope) {
+        // A recording tracks entire allocations, views are not supported
+        Ref counter = steal(jitc_var_counter(backend, size, true)),
+            mask    = steal(jitc_var_bool(backend, true));
+        result = jitc_var_gather(index, counter, mask);
     } else {
         void *dst_addr = nullptr;
         Ref dst = steal(jitc_var_data(index, true, &dst_addr));
-- 
2.43.0


From 2dcc1b310fdb528adca2aefb167491875f1ffde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 069/105] fix: recordings of jit_compress()/jit_block_*mkperm()
 on freshly initialized inputs could not be replayed

---
 src/record_ts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index cb8b083..1bf448a 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1558,7 +1558,7 @@ void RecordThreadState::record_compress(const uint8_t *in, uint32_t size,
              size, out);
 
     uint32_t start = (uint32_t) m_recording.dependencies.size();
-    add_in_param(in);
+    add_in_param(in, VarType::Bool);
     add_out_param(out, VarType::UInt32);
     uint32_t end = (uint32_t) m_recording.dependencies.size();
 
@@ -1642,7 +1642,7 @@ void RecordThreadState::record_block_mkperm(const uint32_t *values,
                  values, size, block_size, bucket_count, perm, offsets);
 
         uint32_t start = (uint32_t) m_recording.dependencies.size();
-        add_in_param(values);
+        add_in_param(values, VarType::UInt32);
         add_out_param(perm, VarType::UInt32);
         add_out_param(offsets, VarType::UInt32);
         uint32_t end = (uint32_t) m_recording.dependencies.size();
-- 
2.43.0


From aa8bd74d54ba47d08af39a9e81cf3003172d9750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 070/105] fix: replayed recordings passed freshly initialized
 captured scalars to calls with size zero

---
 src/record_ts.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 1bf448a..b4a9982 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2118,6 +2118,8 @@ void RecordThreadState::record_aggregate(void *dst, AggregationEntry *agg,
             info.type           = ParamType::Input;
             info.pointer_access = p.size == 8;
             info.extra.offset   = p.offset;
+            // The slot's type is unknown if memset() initialized the memory
+            info.extra.type_size = p.size;
             info.test_uninit    = false;
             add_param(info);
 
@@ -2186,9 +2188,7 @@ int Recording::replay_aggregate(Operation &op) {
                 jitc_log(LogLevel::Debug, " -> s%u is_pointer=%u offset=%u",
                          param.slot, param.pointer_access, param.extra.offset);
 
-            p->size   = (int16_t) (param.pointer_access
-                            ? 8
-                            : -(int) type_size[(uint32_t) param.vtype]);
+            p->size   = param.extra.type_size;
             p->resource_kind = 0;
             p->offset = param.extra.offset;
             p->src    = rv.data;
-- 
2.43.0


From a395bd205d5376ac315cf2a434ce71f81bd70023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 071/105] fix: jit_freeze_stop() silently dropped outputs that
 cannot be recorded

---
 src/record_ts.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index b4a9982..5e38baf 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2828,12 +2828,12 @@ Recording *jitc_freeze_stop(JitBackend backend, const uint32_t *outputs,
 #endif
         }
 
+        for (uint32_t i = 0; i < n_outputs && !rts->m_exception; ++i)
+            rts->add_output(outputs[i]);
+
         if (rts->m_exception)
             std::rethrow_exception(rts->m_exception);
 
-        for (uint32_t i = 0; i < n_outputs; ++i)
-            rts->add_output(outputs[i]);
-
         Recording *recording = new Recording(std::move(rts->m_recording));
         try {
             recording->validate(scope);
-- 
2.43.0


From d4d5deadb958cbc8e639f34c9aa48b7faf6cdcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 072/105] fix: recording jit_block_mkperm() without offsets
 tracked a null pointer

---
 src/record_ts.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 5e38baf..5ae22bb 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1644,7 +1644,8 @@ void RecordThreadState::record_block_mkperm(const uint32_t *values,
         uint32_t start = (uint32_t) m_recording.dependencies.size();
         add_in_param(values, VarType::UInt32);
         add_out_param(perm, VarType::UInt32);
-        add_out_param(offsets, VarType::UInt32);
+        if (offsets) // optional
+            add_out_param(offsets, VarType::UInt32);
         uint32_t end = (uint32_t) m_recording.dependencies.size();
 
         Operation op;
@@ -1662,11 +1663,10 @@ int Recording::replay_block_mkperm(Operation &op) {
     uint32_t dependency_index = op.dependency_range.first;
     const AccessInfo &values_info  = dependencies[dependency_index];
     const AccessInfo &perm_info    = dependencies[dependency_index + 1];
-    const AccessInfo &offsets_info = dependencies[dependency_index + 2];
 
     ReplayVariable &values_var  = replay_variables[values_info.slot];
     ReplayVariable &perm_var    = replay_variables[perm_info.slot];
-    ReplayVariable &offsets_var = replay_variables[offsets_info.slot];
+    uint32_t *offsets           = nullptr;
 
     uint32_t size         = values_var.size(values_info.vtype);
     uint32_t bucket_count = op.block_mkperm.bucket_count;
@@ -1674,19 +1674,23 @@ int Recording::replay_block_mkperm(Operation &op) {
 
     perm_var.alloc(backend, size, perm_info.vtype);
 
-    offsets_var.alloc(backend, bucket_count * 4 + 1, offsets_info.vtype);
+    if (dependency_index + 2 != op.dependency_range.second) {
+        const AccessInfo &offsets_info = dependencies[dependency_index + 2];
+        ReplayVariable &offsets_var = replay_variables[offsets_info.slot];
+        offsets_var.alloc(backend, bucket_count * 4 + 1, offsets_info.vtype);
+        offsets = (uint32_t *) offsets_var.data;
+    }
 
     if (unlikely(jitc_log_active(LogLevel::Debug)))
         jitc_log(LogLevel::Debug,
                  "replay(): block_mkperm(values=%p, size=%u, "
                  "block_size=%u, bucket_count=%u, perm=%p, offsets=%p)",
                  values_var.data, size, block_size, bucket_count, perm_var.data,
-                 offsets_var.data);
+                 offsets);
 
     if (!dry_run)
         ts->block_mkperm((uint32_t *) values_var.data, size, block_size,
-                           bucket_count, (uint32_t *) perm_var.data,
-                           (uint32_t *) offsets_var.data);
+                           bucket_count, (uint32_t *) perm_var.data, offsets);
 
     return true;
 }
-- 
2.43.0


From 2b80d521ef4162e343185aa89a24b1e755780c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 073/105] fix: an exception during the replay of a recording
 leaked temporaries and outputs

---
 src/record_ts.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 5ae22bb..a3a5d3a 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -310,6 +310,28 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
     scoped_set_context_maybe guard2(ts->context);
 #endif
 
+    // Release temporaries and outputs when an exception interrupts the replay
+    struct Cleanup {
+        const Recording &rec;
+        uint32_t *outputs;
+        uint32_t n_outputs = 0;
+        bool done = false;
+
+        ~Cleanup() {
+            if (done || dry_run)
+                return;
+            for (uint32_t i = 0; i < n_outputs; ++i) {
+                // Unless it is an input, the output owns the slot's memory
+                replay_variables[rec.outputs[i].slot].data = nullptr;
+                jitc_var_dec_ref(outputs[i]);
+            }
+            for (ReplayVariable &rv : replay_variables) {
+                if (rv.init == RecordedVarInit::None && rv.data)
+                    rv.free();
+            }
+        }
+    } cleanup{ *this, replay_outputs };
+
     // Initialize replay_variables
     replay_variables.clear();
     replay_variables.reserve(recorded_variables.size());
@@ -448,6 +470,7 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
             uint32_t var_index = replay_inputs[rv.index];
             jitc_var_inc_ref(var_index);
             replay_outputs[i] = var_index;
+            cleanup.n_outputs++;
         } else {
             if (log_debug)
                 jitc_log(LogLevel::Debug, "    output %u: from slot s%u", i,
@@ -465,6 +488,7 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
             if (owner && outputs[i].vtype == (VarType) jitc_var(owner)->type) {
                 jitc_var_inc_ref(owner);
                 replay_outputs[i] = owner;
+                cleanup.n_outputs++;
                 continue;
             }
 
@@ -474,9 +498,12 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
                 jitc_var_inc_ref(owner);
                 jitc_var(replay_outputs[i])->dep[3] = owner;
             }
+            cleanup.n_outputs++;
         }
     }
 
+    cleanup.done = true;
+
     // Set \c rv.data to nullptr for next step, where we free all remaining
     // temporary variables
     for (uint32_t i = 0; i < outputs.size(); ++i) {
-- 
2.43.0


From 6f9b2e5fc6e3ec0b5b9db3fdd5bb15c0a5655a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 074/105] fix: kernels that only differed in the length of a
 variable array shared compiled code

---
 src/hash.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/hash.h b/src/hash.h
index 13a8103..8be576f 100644
--- a/src/hash.h
+++ b/src/hash.h
@@ -75,14 +75,12 @@ inline size_t hash_str(const char *str) {
     return hash(str, strlen(str));
 }
 
-/// Hash the IR of a just-generated kernel, starting at its body. CUDA and LLVM
-/// unconditionally emit a "body:" label; Metal has no such label, and hashing
-/// starts at the first '{' (of its ``struct Params`` declaration) instead.
+/// Hash the IR of a just-generated kernel. Start at the first '{' (of the entry
+/// point, or of a preceding type definition): the code ahead of the "body:"
+/// label is relevant as well, it e.g. allocates storage for variable arrays.
 inline XXH128_hash_t hash_kernel(const char *str, size_t size,
-                                 JitBackend backend) {
-    const char *offset = backend == JitBackend::Metal
-                             ? strchr(str, '{')
-                             : strstr(str, "body:");
+                                 JitBackend /* backend */) {
+    const char *offset = strchr(str, '{');
 
     if (unlikely(!offset))
         jitc_fail("hash_kernel(): could not locate the start of the kernel body!");
-- 
2.43.0


From a78854c138abf4815c185730f70fde91586c5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 075/105] fix: work submitted by other threads was lost while
 waiting for a launch (LaunchBlocking)

---
 src/llvm_ts.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 05ff059..8a2e9de 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -24,11 +24,6 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
         [](uint32_t index, void *payload) { ((Payload *) payload)->f(index); },
         &payload, sizeof(Payload), nullptr, 0);
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
-        unlock_guard guard(state.lock);
-        task_wait(new_task);
-    }
-
     if (unlikely(jit_flag(JitFlag::KernelHistory))) {
         KernelHistoryEntry entry = {};
         entry.backend = JitBackend::LLVM;
@@ -44,6 +39,14 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
 
     task_release(jitc_task);
     jitc_task = new_task;
+
+    // Wait at the very end: other threads may add work to 'jitc_task' while
+    // the lock is released
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        task_retain(new_task);
+        unlock_guard guard(state.lock);
+        task_wait_and_release(new_task);
+    }
 }
 
 /// Temporary scratch space for scheduled tasks
-- 
2.43.0


From 6a1ca724bfccf84d3cc83946ed8a90ea77ae4c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 076/105] fix: clearing the kernel cache deadlocked in threads
 that had not used the LLVM backend

---
 src/io.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io.cpp b/src/io.cpp
index 56a7f82..0cbc70c 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -684,7 +684,11 @@ void jitc_kernel_free(int device_id, const Kernel &kernel) {
 }
 
 void jitc_flush_kernel_cache() {
-    // Drain in-flight work first
+    // Drain in-flight work first. The current thread might not have used the
+    // LLVM backend yet, in which case jitc_sync_thread() would not wait.
+    if (jitc_task)
+        thread_state(JitBackend::LLVM);
+
     do {
         jitc_sync_thread();
     } while (jitc_task);
-- 
2.43.0


From 60266ed34c9af0036ce3fc01a9af91a5b698b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 077/105] fix: the block reduction of literals accessed a
 variable that might have moved

---
 src/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index a828c74..4075620 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2542,11 +2542,11 @@ uint32_t jitc_var_block_reduce(ReduceOp op, uint32_t index, uint32_t block_size,
                 break; // Nothing to do for the other reducion types
         }
 
-        Ref result = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_header, reduced, 0));
+        Ref result = steal(jitc_var_literal(backend, vt, &value_header, reduced, 0));
 
         if (reduced * block_size != size) {
 
-            Ref trailer = steal(jitc_var_literal((JitBackend) v->backend, (VarType) v->type, &value_trailer, reduced, 0)),
+            Ref trailer = steal(jitc_var_literal(backend, vt, &value_trailer, reduced, 0)),
                 counter = steal(jitc_var_counter(backend, reduced, true)),
                 limit = steal(jitc_var_u32(backend, reduced - 1)),
                 mask = steal(jitc_var_lt(counter, limit));
-- 
2.43.0


From 18d281a2a28219f878f8f106d40fdb1c49f12a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 078/105] fix: jit_var_write() accessed a variable that might
 have moved

---
 src/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 4075620..7005467 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1784,8 +1784,10 @@ uint32_t jitc_var_write(uint32_t index_, size_t offset, const void *src) {
     uint8_t *dst = (uint8_t *) v->data + offset * isize;
 
     // The write invalidates a cached 'jit_var_call_reduce()' result
-    if (unlikely(!call_reduce_cache.empty()))
+    if (unlikely(!call_reduce_cache.empty())) {
         jitc_var_call_reduce_cache_remove(index);
+        v = jitc_var(index); // The above may have invalidated 'v'
+    }
 
     jitc_poke((JitBackend) v->backend, dst, src, isize);
 
-- 
2.43.0


From 6dd1fea81cdc63e1a61b1960324f478fbc644fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:10 +0000
Subject: [PATCH 079/105] fix: migrating a literal accessed a variable that
 might have moved

---
 src/var.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/var.cpp b/src/var.cpp
index 7005467..91c3c07 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2129,6 +2129,7 @@ uint32_t jitc_var_migrate(uint32_t src_index, JitBackend dst_backend) {
             } else {
                 jitc_memset_async(dst_backend, ptr, (uint32_t) size,
                                   type_size[v->type], &v->literal);
+                v = jitc_var(src_index); // (may have moved, see LaunchBlocking)
             }
         }
 
-- 
2.43.0


From c1fad203bba9d6bdb745cd092cdc98b518c7a47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 080/105] fix: variable callbacks were looked up in an array
 that might have moved

---
 src/eval.cpp | 4 +++-
 src/var.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 8fe9c31..9c8011f 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1009,7 +1009,9 @@ void jitc_eval(ThreadState *ts) {
 
         jitc_log(Trace, "jit_eval(): running %zu callbacks ..", cb.size());
         for (uint32_t index: cb) {
-            VariableExtra &extra = state.extra[jitc_var(index)->extra];
+            // Copy the entry, as 'state.extra' might be reallocated by another
+            // thread while the lock is released
+            VariableExtra extra = state.extra[jitc_var(index)->extra];
             if (extra.callback_internal) {
                 extra.callback(index, 0, extra.callback_data);
             } else {
diff --git a/src/var.cpp b/src/var.cpp
index 91c3c07..310de4c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -403,7 +403,9 @@ JIT_NOINLINE void jitc_var_free(uint32_t index, Variable *v) noexcept {
 
         if (unlikely(v->extra)) {
             uint32_t index2 = v->extra;
-            VariableExtra &extra = state_.extra[index2];
+            // Copy the entry, as 'state.extra' might be reallocated by another
+            // thread while the lock is released below
+            VariableExtra extra = state_.extra[index2];
             char *label = extra.label;
 
             /* Notify callback that the variable was freed.
-- 
2.43.0


From 1e36a1086fdcf781e4e7d8ff55431ceb7d823166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:09 +0000
Subject: [PATCH 081/105] fix: clearing the kernel cache released kernels
 launched by an unfinished evaluation

---
 src/io.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 0cbc70c..67f0925 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -684,14 +684,27 @@ void jitc_kernel_free(int device_id, const Kernel &kernel) {
 }
 
 void jitc_flush_kernel_cache() {
-    // Drain in-flight work first. The current thread might not have used the
-    // LLVM backend yet, in which case jitc_sync_thread() would not wait.
-    if (jitc_task)
-        thread_state(JitBackend::LLVM);
-
-    do {
-        jitc_sync_thread();
-    } while (jitc_task);
+    // Drain in-flight work first. Another thread might be in the middle of
+    // jitc_eval() and have launched kernels that 'jitc_task' does not cover yet.
+    // Acquire the lock protecting that function, but do not wait with it held.
+    while (true) {
+        do {
+            // The current thread might not have used the LLVM backend yet, in
+            // which case jitc_sync_thread() would not wait.
+            if (jitc_task)
+                thread_state(JitBackend::LLVM);
+            jitc_sync_thread();
+        } while (jitc_task);
+
+        lock_release(state.lock);
+        lock_acquire(state.eval_lock);
+        lock_acquire(state.lock);
+
+        if (!jitc_task)
+            break;
+
+        lock_release(state.eval_lock);
+    }
 
     jitc_log(Info, "jit_flush_kernel_cache(): releasing %zu kernel%s ..",
             state.kernel_cache.size(),
@@ -703,4 +716,6 @@ void jitc_flush_kernel_cache() {
 
     state.kernel_cache.clear();
     state.kernel_cache_generation++;
+
+    lock_release(state.eval_lock);
 }
-- 
2.43.0


From 4baad28279d7e8c1599709cca9c32aa072926880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 082/105] fix: an error message replaced the source of a kernel
 being compiled by another thread

---
 src/op.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 947fe7d..c3868a1 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -205,21 +205,23 @@ auto jitc_var_check_impl(const char *name, std::index_sequence<Is...>, Args... a
     );
 
 fail:
-    buffer.clear();
-    buffer.fmt("%s(", name);
+    // Do not use the global 'buffer': another thread that is currently compiling
+    // (without holding the lock) still needs the kernel source code stored there
+    StringBuffer buf;
+    buf.fmt("%s(", name);
     for (uint32_t i = 0; i < Size; ++i)
-        buffer.fmt("r%u%s", dep[i], i + 1 < Size ? ", " : "");
-    buffer.fmt("): %s!", err);
+        buf.fmt("r%u%s", dep[i], i + 1 < Size ? ", " : "");
+    buf.fmt("): %s!", err);
 
     if (size == (uint32_t) -1) {
-        buffer.put(" (sizes: ");
+        buf.put(" (sizes: ");
         for (uint32_t i = 0; i < Size; ++i)
-            buffer.fmt("%u%s", dep[i] ? jitc_var(dep[i])->size : 0,
+            buf.fmt("%u%s", dep[i] ? jitc_var(dep[i])->size : 0,
                        i + 1 < Size ? ", " : "");
-        buffer.put(")");
+        buf.put(")");
     }
 
-    throw std::runtime_error(buffer.get());
+    throw std::runtime_error(buf.get());
 }
 
 template <int Flags = IgnoreTypes, typename... Args>
-- 
2.43.0


From e6661406a6fa17fcd2b5c745aa09c54ac762c096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:42 +0000
Subject: [PATCH 083/105] fix: jit_var_whos() failed while another thread
 evaluated an indirect call

---
 src/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 310de4c..f2278b7 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -3117,7 +3117,9 @@ const char *jitc_var_whos() {
         } else if (v.is_evaluated()) {
             auto it = state.alloc_used.find((uintptr_t) v.data);
             if (unlikely(it == state.alloc_used.end())) {
-                if (!v.retain_data)
+                if (!v.data) // Call data of an ongoing evaluation
+                    var_buffer.put("pending    ");
+                else if (!v.retain_data)
                     jitc_raise("jit_var_whos(): Cannot resolve pointer to actual allocation!");
                 else
                     var_buffer.put("mapped mem.");
-- 
2.43.0


From a931d5cfc1cc44fc257063e1626a5e5f335933ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 084/105] fix: debug mode missed packet accesses whose scaled
 index overflows

---
 src/op.cpp | 79 +++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 63 insertions(+), 16 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index c3868a1..2864c53 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2136,6 +2136,31 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
     return result.release();
 }
 
+/// Bounds check for a packet access to ``index*n + [0, 1, .., n-1]``. The
+/// position is computed using 64 bits so that it cannot wrap into the array.
+static Ref jitc_var_check_packet_bounds(BoundsCheckType bct, uint32_t index,
+                                        uint32_t mask, uint32_t size, size_t n,
+                                        uint32_t array_size) {
+    JitBackend backend = (JitBackend) jitc_var(index)->backend;
+    uint64_t max = 0xffffffffu, n_u64 = n;
+
+    Ref pos = borrow(index);
+    if (type_size[jitc_var(index)->type] == 8) {
+        Ref limit = steal(jitc_var_literal(backend, VarType::UInt64, &max, 1, 0));
+        pos = steal(jitc_var_cast(pos, VarType::UInt64, 0));
+        pos = steal(jitc_var_min(pos, limit));
+    } else {
+        pos = steal(jitc_var_cast(pos, VarType::UInt32, 0));
+        pos = steal(jitc_var_cast(pos, VarType::UInt64, 0));
+    }
+
+    Ref scale = steal(jitc_var_literal(backend, VarType::UInt64, &n_u64, 1, 0));
+    pos = steal(jitc_var_mul(pos, scale));
+
+    Ref mask_2 = steal(jitc_var_mask_apply(mask, size));
+    return steal(jitc_var_check_bounds(bct, pos, mask_2, array_size));
+}
+
 static void unwrap(Ref &index, Variable *&v) {
     while (true) {
         if (v->kind == (uint32_t) VarKind::LoopPhi) {
@@ -2324,6 +2349,12 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
 
     uint32_t flags = jitc_flags();
 
+    // Are out-of-bounds accesses possible and should they be detected?
+    bool check_bounds = (flags & (uint32_t) JitFlag::Debug) &&
+                        !src_v->symbolic && !src_v->is_literal() &&
+                        !src_v->is_undefined() && src_v->size != 1 &&
+                        !(mask_v->is_literal() && mask_v->literal == 0);
+
     /// Revert to separate gathers in special various cases
     if (src_v->symbolic || // This will likely fail, let jitc_var_gather() generate an error
         !(flags & (uint32_t) JitFlag::PacketOps) ||         // Packet gathers are disabled
@@ -2333,10 +2364,16 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
         src_v->unaligned ||                                 // Source must be aligned
         src_v->is_literal() ||                              // Literal values
         src_v->is_undefined()) {                            // Uninitialized memory
+        Ref mask_2 = borrow(mask);
+        if (check_bounds)
+            mask_2 = jitc_var_check_packet_bounds(BoundsCheckType::PacketGather,
+                                                  index, mask, var_info.size, n,
+                                                  src_info.size);
+
         for (size_t i = 0; i < n; ++i) {
             Ref index2 = steal(jitc_var_u32(var_info.backend, (uint32_t) i));
             Ref index3 = steal(jitc_var_fma(index, scale, index2));
-            out[i] = jitc_var_gather(src_, index3, mask);
+            out[i] = jitc_var_gather(src_, index3, mask_2);
         }
         return;
     }
@@ -2364,10 +2401,16 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
 
         Ref step = steal(jitc_var_u32(var_info.backend, 1)),
             scale_ = steal(jitc_var_u32(var_info.backend, (uint32_t) n/packet_size)),
-            index2 = steal(jitc_var_mul(index, scale_));
+            index2 = steal(jitc_var_mul(index, scale_)),
+            mask_2 = borrow(mask);
+
+        if (check_bounds)
+            mask_2 = jitc_var_check_packet_bounds(BoundsCheckType::PacketGather,
+                                                  index, mask, var_info.size, n,
+                                                  src_info.size);
 
         for (size_t i = 0; i < n; i += packet_size) {
-            jitc_var_gather_packet(packet_size, src_, index2, mask, out+i);
+            jitc_var_gather_packet(packet_size, src_, index2, mask_2, out+i);
             index2 = steal(jitc_var_add(index2, step));
         }
         return;
@@ -2390,11 +2433,10 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
 
     Ref index_2 = steal(jitc_scatter_gather_index(src, index));
 
-    if (jit_flag(JitFlag::Debug)) {
-        Ref scaled_index = steal(jitc_var_mul(scale, index));
-        mask_2 = steal(jitc_var_check_bounds(
-            BoundsCheckType::PacketGather, scaled_index, mask_2, src_info.size));
-    }
+    if (jit_flag(JitFlag::Debug))
+        mask_2 = jitc_var_check_packet_bounds(BoundsCheckType::PacketGather,
+                                              index, mask_2, var_info.size, n,
+                                              src_info.size);
 
     size_t op_size = std::max(var_info.size, jitc_var(mask_2)->size);
 
@@ -3315,6 +3357,9 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     use_packet_op = use_packet_op && n > 1 && n % 2 == 0;
 
     Ref scale = steal(jitc_var_u32(backend, (uint32_t) n));
+    BoundsCheckType bct = op == ReduceOp::Identity
+                              ? BoundsCheckType::PacketScatter
+                              : BoundsCheckType::PacketScatterReduce;
 
     // Potentially reduce to a sequence of scatters
     if (!use_packet_op) {
@@ -3324,6 +3369,11 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         ReduceMode sub_mode =
             op == ReduceOp::Identity ? ReduceMode::NoConflicts : mode;
 
+        Ref mask_2 = borrow(mask);
+        if (flags & (uint32_t) JitFlag::Debug)
+            mask_2 = jitc_var_check_packet_bounds(bct, index, mask,
+                                                  var_info.size, n, target_size);
+
         for (size_t i = 0; i < n; ++i) {
             Ref index2 = steal(jitc_var_u32(backend, (uint32_t) i));
             Ref index3 = steal(jitc_var_fma(index, scale, index2));
@@ -3332,14 +3382,14 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
             if (index_t == target_)
                 target.reset();
 
-            target = steal(jitc_var_scatter(index_t, values[i], index3, mask, op, sub_mode));
+            target = steal(jitc_var_scatter(index_t, values[i], index3, mask_2, op, sub_mode));
         }
         return target.release();
     }
 
     // Must compute final index before potentially expanding below
-    index = steal(jitc_var_mul(index, scale));
     Ref index_orig = borrow((uint32_t) index);
+    index = steal(jitc_var_mul(index, scale));
 
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
@@ -3364,12 +3414,9 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     Ref index_2 = steal(jitc_scatter_gather_index(target, index));
 
     // Insert a bounds check in debug mode
-    if (flags & (uint32_t) JitFlag::Debug) {
-        mask_2 = steal(jitc_var_check_bounds(
-            op == ReduceOp::Identity ? BoundsCheckType::PacketScatter
-                                     : BoundsCheckType::PacketScatterReduce,
-            index_orig, mask_2, target_size));
-    }
+    if (flags & (uint32_t) JitFlag::Debug)
+        mask_2 = jitc_var_check_packet_bounds(bct, index_orig, mask_2,
+                                              var_info.size, n, target_size);
 
     uint32_t op_size = std::max(var_info.size, jitc_var(mask_2)->size);
     uint32_t scatter_op = jitc_var_new_node_3(
-- 
2.43.0


From c6e8a18420a5d7c776fe81262bb5783d6f0dacbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:15 +0000
Subject: [PATCH 085/105] fix: a loop state variable that became uninitialized
 terminated the process

---
 src/loop.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/loop.cpp b/src/loop.cpp
index 3f27f1d..94ff4ea 100644
--- a/src/loop.cpp
+++ b/src/loop.cpp
@@ -162,6 +162,13 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
     Variable *cond_v = jitc_var(cond);
     JitBackend backend = (JitBackend) cond_v->backend;
 
+    for (size_t i = 0; i < ld->size; ++i) {
+        if (!indices[i])
+            jitc_raise(
+                "jit_var_loop_end(): loop state variable %zu has become "
+                "uninitialized (i.e., it now has size 0)", i);
+    }
+
     // Determine the size of variables that are processed by this loop
     uint32_t size = jitc_var(cond)->size;
     {
@@ -257,11 +264,6 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
         uint32_t active = cond_v->dep[1];
         for (size_t i = 0; i < ld->size; ++i) {
             uint32_t index = indices[i];
-            if (!index)
-                jitc_raise(
-                    "jit_var_loop_end(): loop state variable %zu has become "
-                    "uninitialized (i.e., it now has size 0)", i);
-
             const Variable *v1 = jitc_var(ld->inner_in[i]);
             Variable *v2 = jitc_var(index);
 
-- 
2.43.0


From 150c2bc002c568d2f44509c612a1eac63a262e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 086/105] fix: malformed conditionals leaked variables or
 released them twice

---
 src/cond.cpp | 77 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index ee2db2d..0c08628 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -57,6 +57,11 @@ uint32_t jitc_var_cond_append(uint32_t index, const uint32_t *rv, size_t count)
     CondData *cd = (CondData *) v->data;
     JitBackend backend = (JitBackend) v->backend;
 
+    if (cd->labels[1])
+        jitc_raise("jitc_var_cond_append(): internal error!");
+    if (cd->labels[0] && count != cd->indices_t.size())
+        jitc_raise("jitc_var_cond_append(): inconsistent number of return values!");
+
     Variable v2;
     v2.kind = (uint32_t) (cd->labels[0] ? VarKind::CondEnd : VarKind::CondMid);
     v2.type = (uint32_t) VarType::Void;
@@ -80,17 +85,13 @@ uint32_t jitc_var_cond_append(uint32_t index, const uint32_t *rv, size_t count)
             jitc_var_inc_ref(index_t);
         cd->se_t = std::vector<uint32_t>(se.end() - se_count, se.end());
         se.resize(se.size() - se_count);
-    } else if (!cd->labels[1]) {
+    } else {
         cd->labels[1] = index_2;
-        if (count != cd->indices_t.size())
-            jitc_raise("jitc_var_cond_append(): inconsistent number of return values!");
         cd->indices_f = std::vector<uint32_t>(rv, rv + count);
         for (uint32_t index_f: cd->indices_f)
             jitc_var_inc_ref(index_f);
         cd->se_f = std::vector<uint32_t>(se.end() - se_count, se.end());
         se.resize(se.size() - se_count);
-    } else {
-        jitc_raise("jitc_var_cond_append(): internal error!");
     }
     return index_2;
 }
@@ -104,6 +105,48 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
     uint32_t i_cond = v->dep[0];
     bool symbolic = v->symbolic;
 
+    // Validate everything before creating any variables
+    for (size_t i = 0; i < cd->indices_t.size(); ++i) {
+        uint32_t i_t = cd->indices_t[i], i_f = cd->indices_f[i];
+        if (i_t == 0 || i_f == 0)
+            jitc_raise("jit_var_cond(): return variable %zu is "
+                       "uninitialized/partially initialized (r%u, r%u).",
+                       i, i_t, i_f);
+
+        const Variable *v_t = jitc_var(i_t),
+                       *v_f = jitc_var(i_f);
+
+        if (v_t->type != v_f->type || v_t->is_array() != v_f->is_array() ||
+            (v_t->is_array() && v_t->array_length != v_f->array_length))
+            jitc_raise("jit_var_cond(): return variable %zu has inconsistent "
+                       "types (r%u, r%u).", i, i_t, i_f);
+
+        if (i_t == i_f || v_f->is_array() || v_f->is_dirty() ||
+            (v_f->is_literal() && v_t->is_literal() &&
+             v_f->literal == v_t->literal))
+            continue;
+
+        uint32_t l1 = size, l2 = v_t->size, l3 = v_f->size,
+                 lm = std::max(std::max(l1, l2), l3);
+
+        if ((l1 != lm && l1 != 1) || (l2 != lm && l2 != 1) ||
+            (l3 != lm && l3 != 1))
+            jitc_raise("jit_var_cond(): operands r%u, r%u, and r%u have "
+                       "incompatible sizes! (%u, %u, %u)",
+                       i_cond, i_t, i_f, l1, l2, l3);
+    }
+
+    for (const std::vector<uint32_t> *list : { &cd->se_t, &cd->se_f }) {
+        for (uint32_t i_se : *list) {
+            uint32_t size_2 = jitc_var(i_se)->size;
+            if (size != size_2 && size_2 != 1 && size != 1)
+                jitc_raise(
+                    "jitc_var_cond_end(): size of side effect (%u) is "
+                    "incompatible with size of loop condition (%u).",
+                    size_2, size);
+        }
+    }
+
     Variable v2;
     v2.kind = (uint32_t) VarKind::CondOutput;
     v2.size = size;
@@ -116,11 +159,6 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
 
     for (size_t i = 0; i < cd->indices_t.size(); ++i) {
         uint32_t i_t = cd->indices_t[i], i_f = cd->indices_f[i];
-        if (i_t == 0 || i_f == 0)
-            jitc_raise("jit_var_cond(): return variable %zu is "
-                       "uninitialized/partially initialized (r%u, r%u).",
-                       i, i_t, i_f);
-
         Variable *v_t = jitc_var(i_t),
                  *v_f = jitc_var(i_f);
         VarType vt = (VarType) v_t->type;
@@ -166,23 +204,11 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             continue;
         }
 
-        uint32_t l1 = size, l2 = v_t->size, l3 = v_f->size,
-                 lm = std::max(std::max(l1, l2), l3);
-
-        if ((l1 != lm && l1 != 1) || (l2 != lm && l2 != 1) ||
-            (l3 != lm && l3 != 1)) {
-            for (size_t j = 0; j < i; ++j)
-                jitc_var_dec_ref(rv_out[j]);
-            jitc_raise("jit_var_cond(): operands r%u, r%u, and r%u have "
-                       "incompatible sizes! (%u, %u, %u)",
-                       i_cond, i_t, i_f, l1, l2, l3);
-        }
-
         v2.dep[0] = i_t;
         v2.dep[1] = i_f;
         v2.dep[2] = pred;
         v2.type = (uint32_t) vt;
-        v2.size = lm;
+        v2.size = std::max(size, std::max(v_t->size, v_f->size));
         jitc_var_inc_ref(i_t, v_t);
         jitc_var_inc_ref(i_f, v_f);
         jitc_var_inc_ref(pred);
@@ -201,11 +227,6 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
         auto traverse_se = [backend, size, pred, symbolic](std::vector<uint32_t> &list) {
             for (uint32_t index: list) {
                 Variable *v2 = jitc_var(index);
-                if (size != v2->size && v2->size != 1 && size != 1)
-                    jitc_raise(
-                        "jitc_var_cond_end(): size of side effect (%u) is "
-                        "incompatible with size of loop condition (%u).",
-                        v2->size, size);
                 Variable v_se;
                 v_se.kind = (uint32_t) VarKind::Nop;
                 v_se.type = (uint32_t) VarType::Void;
-- 
2.43.0


From a014a2913d2eb0ed0ef3c8edfc648842bbd38b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:24 +0000
Subject: [PATCH 087/105] fix: masked lanes took part in scatter-reductions at
 particular addresses

The local/conflict-free scatter-reduction routines set the address of
masked lanes to zero and then compare the low 32 bits of element indices.
When the (shifted) address of an active element had zeros there, the values
of masked lanes (including those past the end of the kernel) were included
in the reduction. Replace them with the identity of the operation instead.
---
 src/llvm_scatter.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 4640eef..9d55222 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -280,7 +280,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
         "    %ptrlo_0 = ptrtoint <$w x ptr> %ptr to <$w x i64>\n"
         "    %ptrlo_1 = lshr <$w x i64> %ptrlo_0, %shiftamt_1\n"
         "    %ptrlo_2 = trunc <$w x i64> %ptrlo_1 to <$w x i32>\n"
-        "    %ptrlo_3 = select <$w x i1> %valid_1, <$w x i32> %ptrlo_2, <$w x i32> $z\n"
+        "    %value_1 = select <$w x i1> %valid_1, $T %value, $T %identity_1\n"
         "    br label %loop_prefix\n\n"
         "loop_prefix:\n"
         "    %active = phi <$w x i1> [ %valid_2, %prelude ], [ %active_final, %loop_suffix ]\n"
@@ -302,8 +302,8 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
         "    %ptrlo_6 = trunc i64 %ptrlo_5 to i32\n"
         "    %ptrlo_7 = insertelement <$w x i32> undef, i32 %ptrlo_6, i32 0\n"
         "    %ptrlo_8 = shufflevector <$w x i32> %ptrlo_7, <$w x i32> undef, <$w x i32> $z\n"
-        "    %ptr_diff = icmp ne <$w x i32> %ptrlo_8, %ptrlo_3\n"
-        "    %red_in = select <$w x i1> %ptr_diff, $T %identity_1, $T %value\n"
+        "    %ptr_diff = icmp ne <$w x i32> %ptrlo_8, %ptrlo_2\n"
+        "    %red_in = select <$w x i1> %ptr_diff, $T %identity_1, $T %value_1\n"
         "    %red_out = call $s$t @llvm.vector.reduce.$s.v$w$h($s$T %red_in)\n"
         "$s"
         "    br label %do_scatter_end\n\n"
@@ -326,7 +326,9 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
         v, v, &id_v,
         v, v,
         cmp_op, v,
-        shiftamt, ptr_align,
+        shiftamt,
+        v, v,
+        ptr_align,
         shiftamt,
         v, v,
         vector_reduce_modifier, v, vector_reduce_name, v, vector_reduce_identity, v,
@@ -437,7 +439,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
         "    %ptrlo_0 = ptrtoint <$w x ptr> %ptr to <$w x i64>\n"
         "    %ptrlo_1 = lshr <$w x i64> %ptrlo_0, %shiftamt_1\n"
         "    %ptrlo_2 = trunc <$w x i64> %ptrlo_1 to <$w x i32>\n"
-        "    %ptrlo_3 = select <$w x i1> %valid_1, <$w x i32> %ptrlo_2, <$w x i32> $z\n"
+        "    %value_1 = select <$w x i1> %valid_1, $T %value, $T %identity_1\n"
         "    br label %loop_prefix\n\n"
         "loop_prefix:\n"
         "    %active = phi <$w x i1> [ %valid_2, %prelude ], [ %active_final, %loop_suffix ]\n"
@@ -459,8 +461,8 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
         "    %ptrlo_6 = trunc i64 %ptrlo_5 to i32\n"
         "    %ptrlo_7 = insertelement <$w x i32> undef, i32 %ptrlo_6, i32 0\n"
         "    %ptrlo_8 = shufflevector <$w x i32> %ptrlo_7, <$w x i32> undef, <$w x i32> $z\n"
-        "    %ptr_diff = icmp ne <$w x i32> %ptrlo_8, %ptrlo_3\n"
-        "    %red_in = select <$w x i1> %ptr_diff, $T %identity_1, $T %value\n"
+        "    %ptr_diff = icmp ne <$w x i32> %ptrlo_8, %ptrlo_2\n"
+        "    %red_in = select <$w x i1> %ptr_diff, $T %identity_1, $T %value_1\n"
         "    %red_out = call $s$t @llvm.vector.reduce.$s.v$w$h($s$T %red_in)\n"
         "    %before = load $t, ptr %ptr_i, align $u\n"
         "    %after = $s\n"
@@ -483,7 +485,9 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
         v, v, &id_v,
         v, v,
         cmp_op, v,
-        shiftamt, ptr_align,
+        shiftamt,
+        v, v,
+        ptr_align,
         shiftamt,
         v, v,
         vector_reduce_modifier, v, vector_reduce_name, v, vector_reduce_identity, v,
-- 
2.43.0


From 1a4f35177858e56fe9e33ded99ae4a25b3a0e3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:15 +0000
Subject: [PATCH 088/105] fix: flushing the memory cache released memory still
 in use by another thread

jitc_sync_all_devices() releases the main lock while waiting. Another thread
could meanwhile launch a kernel and free arrays used by it, which were then
part of the flushed allocations.
---
 src/malloc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 69d12b5..33fdd87 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -490,6 +490,10 @@ void jitc_flush_malloc_cache(bool warn) {
         alloc_free.swap(state.alloc_free);
     }
 
+    // Other threads can submit work and free memory used by it during the
+    // above synchronization. Wait for this as well.
+    jitc_sync_all_devices();
+
     size_t trim_count[(int) JitBackend::Count] = { 0 },
            trim_size [(int) JitBackend::Count] = { 0 };
 
-- 
2.43.0


From a4370abd4581c82bb873abd4e81eb628c54632a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 089/105] fix: jit_var_set_label() put every component of a
 label in brackets

---
 src/api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api.cpp b/src/api.cpp
index ca429b0..3e88acb 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1080,7 +1080,7 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
     } else if (argc > 1) {
         for (size_t i = 0; i < argc; ++i) {
             const char *s = va_arg(ap, const char *);
-            bool isnum = s[0] >= '0' || s[1] <= '9';
+            bool isnum = s[0] >= '0' && s[0] <= '9';
 
             if (isnum) {
                 buf.put('[');
-- 
2.43.0


From 473c05a3234d52724db81731afc4283a94fb1b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:34 +0000
Subject: [PATCH 090/105] fix: jit_var_set_label() leaked a variable when the
 label was invalid

---
 src/api.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 3e88acb..db4cb9e 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1105,9 +1105,9 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
         jitc_var_inc_ref(index, v);
         return index;
     } else {
-        uint32_t result = jitc_var_copy(index);
+        Ref result = steal(jitc_var_copy(index));
         jitc_var_set_label(result, label);
-        return result;
+        return result.release();
     }
 }
 
-- 
2.43.0


From 7dd452206b8da513d155e76f1a40ed2457cbd59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:39 +0000
Subject: [PATCH 091/105] fix: running out of memory while preparing call data
 leaked memory

---
 src/call.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/call.cpp b/src/call.cpp
index 8b7aed3..fd4eacf 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -1132,6 +1132,19 @@ void jitc_call_upload(ThreadState *ts) {
     for (GetterData *gd : call_buffer.getters)
         n_entries += gd->count + 1;
 
+    // Hand the buffer to the base pointer variable. 'base_src' had no backing
+    // storage (see jitc_assemble), so there is nothing to free; it now owns
+    // 'buf' and releases it after the launch barrier (or when an exception
+    // interrupts the evaluation).
+    uint8_t *buf = (uint8_t *) jitc_malloc(backend, total);
+    Variable *base_src = jitc_var(call_buffer.base_src);
+    base_src->data = buf;
+    base_src->size = total;
+
+#ifndef NDEBUG
+    state.ptr_to_variable.insert({ buf, call_buffer.base_src });
+#endif
+
     AggregationEntry *agg = (AggregationEntry *) jitc_malloc(
         backend, sizeof(AggregationEntry) * n_entries, /*shared=*/true);
     AggregationEntry *p = agg;
@@ -1221,22 +1234,10 @@ void jitc_call_upload(ThreadState *ts) {
         }
     }
 
-    uint8_t *buf = (uint8_t *) jitc_malloc(backend, total);
     jitc_aggregate(backend, buf, agg, (uint32_t) (p - agg));
 
     jitc_free(agg);
 
-    // Hand the freshly built buffer to the base pointer variable. 'base_src'
-    // had no backing storage (see jitc_assemble), so there is nothing to free;
-    // it now owns 'buf' and releases it after the launch barrier.
-    Variable *base_src = jitc_var(call_buffer.base_src);
-    base_src->data = buf;
-    base_src->size = total;
-
-#ifndef NDEBUG
-    state.ptr_to_variable.insert({ base_src->data, call_buffer.base_src });
-#endif
-
     jitc_var(call_buffer.base_v)->literal = (uint64_t) (uintptr_t) buf;
 
     for (CallData *call : calls_assembled)
-- 
2.43.0


From 057950be11ad1769c75eccb5aaec18b064b8460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:31 +0000
Subject: [PATCH 092/105] fix: interrupted evaluations released memory used by
 kernels that were already running

---
 src/eval.cpp    | 8 ++++++--
 src/llvm_ts.cpp | 5 +----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index 9c8011f..13fb3e1 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -921,7 +921,11 @@ static void jitc_schedule_sort() {
 /* Called when an exception interrupts jitc_eval_impl() partway through.
    (E.g. when running out of memory or when a code generation routine throws).
    Release references and memory. */
-static void jitc_eval_rollback(size_t callbacks_baseline) {
+static void jitc_eval_rollback(ThreadState *ts, size_t callbacks_baseline) {
+    // Kernels that were already launched continue to access the memory that is
+    // released below. Subsequent operations must therefore wait for them.
+    ts->barrier();
+
     for (ScheduledVariable &sv : schedule) {
         Variable *v = jitc_var(sv.index);
         v->reg_index = 0;
@@ -998,7 +1002,7 @@ void jitc_eval(ThreadState *ts) {
         try {
             jitc_eval_impl(ts);
         } catch (...) {
-            jitc_eval_rollback(callbacks_baseline);
+            jitc_eval_rollback(ts, callbacks_baseline);
             throw;
         }
     }
diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 8a2e9de..0777eb1 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -62,10 +62,7 @@ void LLVMThreadState::barrier() {
     if (scheduled_tasks.size() == 1) {
         task_release(jitc_task);
         jitc_task = scheduled_tasks[0];
-    } else {
-        jitc_assert(!scheduled_tasks.empty(),
-                    "jit_eval(): no tasks generated!");
-
+    } else if (!scheduled_tasks.empty()) {
         // Insert a barrier task
         Task *new_task = task_submit_dep(nullptr, scheduled_tasks.data(),
                                          (uint32_t) scheduled_tasks.size());
-- 
2.43.0


From a75c9b192f816f452b65b460c6606b62c7f1e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:55 +0000
Subject: [PATCH 093/105] fix: pending writes of the third and fourth operand
 of an operation were ignored

---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index f2278b7..3d953e8 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1277,7 +1277,7 @@ uint32_t jitc_var_new_node_3(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
     }
 
@@ -1316,11 +1316,11 @@ uint32_t jitc_var_new_node_4(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
 
         v3 = jitc_var(a3);
-        if (v1->is_dirty())
+        if (v3->is_dirty())
             jitc_raise_dirty_error(a3);
     }
 
-- 
2.43.0


From bb3578fbb9247f56c7980f50c8eb1a8aaa4f4f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 094/105] fix: jit_var_{any,all}_async() leaked memory when
 their input could not be evaluated

---
 src/var.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 3d953e8..b4226a4 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2363,9 +2363,9 @@ uint32_t jitc_var_any_async(JitBackend backend, uint32_t index) {
     if (v->kind == (uint32_t) VarKind::DefaultMask)
         return jitc_var_bool(backend, true);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
-
     jitc_var_eval(index);
+
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
     v = jitc_var(index);
 
     jitc_any_async(backend, (uint8_t *) v->data, v->size, mem);
@@ -2404,9 +2404,9 @@ uint32_t jitc_var_all_async(JitBackend backend, uint32_t index) {
     if (v->is_literal())
         return jitc_var_bool(backend, (bool) v->literal);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
-
     jitc_var_eval(index);
+
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
     v = jitc_var(index);
 
     jitc_all_async(backend, (uint8_t *) v->data, v->size, mem);
-- 
2.43.0


From 20f8d10e8d79dd0e36ff3379542a8a0b7491d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:46 +0000
Subject: [PATCH 095/105] fix: stashing the reference count of a variable with
 more than 65536 references wrapped around

The scatter operation then modified an array in place even though other
references to it existed.
---
 src/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index b4226a4..0247859 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -530,7 +530,7 @@ uint64_t jitc_var_stash_ref(uint32_t index) {
     if (v->ref_count_stashed || v->is_array())
         return 0;
 
-    v->ref_count_stashed = (uint16_t) v->ref_count;
+    v->ref_count_stashed = (uint16_t) std::min(v->ref_count, 0xFFFFu);
     jitc_trace("jit_var_stash_ref(r%u): %u", index, v->ref_count);
     return (((uint64_t) v->counter) << 32) | index;
 }
-- 
2.43.0


From df7ed878ee0e75f5556bf5a478e7def96f9d3a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 096/105] fix: removing trailing zeros of printed sizes and
 times also dropped digits in front of the comma ('4 B' for 400 bytes)

---
 src/log.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/log.cpp b/src/log.cpp
index d20365d..128ee5f 100644
--- a/src/log.cpp
+++ b/src/log.cpp
@@ -215,12 +215,13 @@ static void print_float_with_unit(char *buf, size_t bufsize, double value,
 
     int pos = snprintf(buf, bufsize, "%.*f", digits_after_comma, value);
 
-    // Remove trailing zeros
-    char c;
-    pos--;
-    while (c = buf[pos], pos > 0 && (c == '0' || c == '.'))
-        pos--;
-    pos++;
+    // Remove trailing zeros following the comma
+    if (digits_after_comma > 0) {
+        while (buf[pos - 1] == '0')
+            pos--;
+        if (buf[pos - 1] == '.')
+            pos--;
+    }
 
     // Append unit if there is space
     if (pos + 1 < (int) bufsize)
-- 
2.43.0


From e66a5996972739273e11487a160ac08c349f28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 097/105] fix: jit_var_set_label() read freed memory when
 passed the current label of the variable

---
 src/var.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 0247859..e25ea95 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -660,7 +660,7 @@ void jitc_var_set_label(uint32_t index, const char *label) {
     Variable *v = jitc_var(index);
     ThreadState *ts = thread_state(v->backend);
     VariableExtra *e = jitc_var_extra(v);
-    free(e->label);
+    char *prev = e->label; // 'label' may point into this string
 
     if (!ts->prefix) {
         if (!label) {
@@ -681,6 +681,8 @@ void jitc_var_set_label(uint32_t index, const char *label) {
 
     jitc_log(Debug, "jit_var_set_label(): r%u.label = \"%s\"", index,
              label ? label : "(null)");
+
+    free(prev);
 }
 
 // Print a value variable to 'var_buffer' (for debug/GraphViz output)
-- 
2.43.0


From e8693b632db1231e2657ac4942434405ba7a57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 098/105] fix: move-assigning a drjit::unique_ptr that is owned
 by the target (p = std::move(p->next)) accessed freed memory

---
 include/drjit-core/nanostl.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 5a5337e..682f2c1 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -53,8 +53,7 @@ public:
     ~unique_ptr() { reset(); }
 
     unique_ptr &operator=(unique_ptr &&other) noexcept {
-        reset(other.m_data);
-        other.m_data = nullptr;
+        reset(other.release());
         return *this;
     }
 
@@ -64,11 +63,13 @@ public:
     }
 
     void reset(Type *p = nullptr) noexcept {
+        // Update 'm_data' first: the destructor may access this instance
+        Type *prev = m_data;
+        m_data = p;
         if constexpr (std::is_array_v<T>)
-            delete[] m_data;
+            delete[] prev;
         else
-            delete m_data;
-        m_data = p;
+            delete prev;
     }
 
     Type& operator[](size_t index) { return m_data[index]; }
-- 
2.43.0


From 3d26f6875d94c5ad14c90135e33e3d9deebfe703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 099/105] fix: drjit::vector::push_back/emplace_back() of one
 of its own elements accessed freed memory

---
 include/drjit-core/nanostl.h | 57 +++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 682f2c1..f720d4b 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -159,25 +159,26 @@ public:
         return *this;
     }
 
-    void push_back(const T &value) {
-        if (m_size == m_capacity)
-            expand();
-        new (&m_data[m_size]) T(value);
-        m_size++;
-    }
+    void push_back(const T &value) { emplace_back(value); }
 
-    void push_back(T &&value) {
-        if (m_size == m_capacity)
-            expand();
-        new (&m_data[m_size]) T(std::move(value));
-        m_size++;
-    }
+    void push_back(T &&value) { emplace_back(std::move(value)); }
 
     template <typename... Args> T &emplace_back(Args &&...args) {
-        if (m_size == m_capacity)
-            expand();
-        new (&m_data[m_size]) T(std::forward<Args>(args)...);
-        return m_data[m_size++];
+        if (m_size == m_capacity) {
+            // 'args' may refer to elements of this vector: construct the new
+            // element before relocating them
+            vector tmp;
+            tmp.allocate(m_capacity ? m_capacity * 2 : 1);
+            T *target = &tmp.m_data[m_size];
+            new (target) T(std::forward<Args>(args)...);
+            tmp.relocate(*this);
+            tmp.m_size++;
+            swap(tmp);
+        } else {
+            new (&m_data[m_size]) T(std::forward<Args>(args)...);
+            m_size++;
+        }
+        return back();
     }
 
     bool operator==(const vector &s) const {
@@ -226,13 +227,9 @@ public:
             return;
 
         vector tmp;
-        tmp.m_data = alloc(size);
-        tmp.m_capacity = size;
-        for (size_t i = 0; i < m_size; ++i) {
-            new (&tmp.m_data[i]) T(std::move(m_data[i]));
-            tmp.m_size++;
-        }
-        operator=(std::move(tmp));
+        tmp.allocate(size);
+        tmp.relocate(*this);
+        swap(tmp);
     }
 
     void expand() { reserve(m_capacity ? m_capacity * 2 : 1); }
@@ -258,6 +255,20 @@ protected:
             return (T*) operator new[](sizeof(T) * size);
     }
 
+    /// Allocate storage (the vector must not have any)
+    void allocate(size_t size) {
+        m_data = alloc(size);
+        m_capacity = size;
+    }
+
+    /// Move the elements of 'v' to the (uninitialized) storage of this vector
+    void relocate(vector &v) {
+        for (size_t i = 0; i < v.m_size; ++i) {
+            new (&m_data[i]) T(std::move(v.m_data[i]));
+            m_size++;
+        }
+    }
+
     void release() noexcept {
         clear();
         #if defined (__cpp_sized_deallocation)
-- 
2.43.0


From 0396e388fa7875e15446b986381c93f9e15857e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 100/105] fix: move-assigning a drjit::vector that is owned by
 an element of the target accessed freed memory

---
 include/drjit-core/nanostl.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index f720d4b..525d3d3 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -150,12 +150,9 @@ public:
     }
 
     vector &operator=(vector &&v) noexcept {
-        release();
-        m_data = v.m_data;
-        m_size = v.m_size;
-        m_capacity = v.m_capacity;
-        v.m_size = v.m_capacity = 0;
-        v.m_data = nullptr;
+        // Steal first: 'v' may be owned by an element of this vector
+        vector tmp(std::move(v));
+        swap(tmp);
         return *this;
     }
 
-- 
2.43.0


From 27354e19489ccd08e86ad3ec0edcfa292aa74815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 101/105] fix: drjit::vector leaked its elements when their
 constructor raised an exception

---
 include/drjit-core/nanostl.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 525d3d3..c52bdb1 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -99,8 +99,8 @@ template <typename T, typename ... Ts> unique_ptr<T> make_unique(Ts&&...args) {
 template <typename T> struct vector {
 public:
     vector() = default;
-    vector(const vector &v)
-        : m_data(alloc(v.size())), m_capacity(v.size()) {
+    vector(const vector &v) : vector() {
+        allocate(v.size());
         for (size_t i = 0; i < v.size(); ++i) {
             new (&m_data[i]) T(v[i]);
             m_size++;
@@ -122,23 +122,24 @@ public:
         m_size = 0;
     }
 
-    vector(size_t size) : m_data(alloc(size)), m_capacity(size) {
+    vector(size_t size) : vector() {
+        allocate(size);
         for (size_t i = 0; i < size; ++i) {
             new (&m_data[m_size]) T();
             m_size++;
         }
     }
 
-    vector(size_t size, const T &value)
-        : m_data(alloc(size)), m_capacity(size) {
+    vector(size_t size, const T &value) : vector() {
+        allocate(size);
         for (size_t i = 0; i < size; ++i) {
             new (&m_data[i]) T(value);
             m_size++;
         }
     }
 
-    vector(const T *start, const T *end)
-        : m_data(alloc(end - start)), m_capacity(end - start) {
+    vector(const T *start, const T *end) : vector() {
+        allocate(end - start);
         for (size_t i = 0; i < m_capacity; ++i) {
             new (&m_data[i]) T(start[i]);
             m_size++;
-- 
2.43.0


From 0fe45ea34cfc0d16254ec26ce82ecd5ec6f9138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 102/105] fix: assigning drjit::tie(..) to a tuple moved from
 the referenced variables

---
 include/drjit-core/nanostl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index c52bdb1..91a3932 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -308,7 +308,9 @@ template <typename T, typename... Ts> struct tuple<T, Ts...> : tuple<Ts...> {
     tuple& operator=(const tuple &) = default;
 
     template <typename... Ts2> tuple(const tuple<Ts2...> &a) : Base(a.base()), value(a.value) { }
-    template <typename... Ts2> tuple(tuple<Ts2...> &&a) : Base(std::move(a.base())), value(a.value) { }
+    template <typename... Ts2> tuple(tuple<Ts2...> &&a)
+        : Base(std::move(a.base())),
+          value((forward_t<typename tuple<Ts2...>::template type<0>>) a.value) { }
     template <typename... Ts2> tuple &operator=(const tuple<Ts2...> &a) {
         value = a.value;
         Base::operator=(a.base());
@@ -316,7 +318,7 @@ template <typename T, typename... Ts> struct tuple<T, Ts...> : tuple<Ts...> {
     }
 
     template <typename... Ts2> tuple &operator=(tuple<Ts2...> &&a) {
-        value = std::move(a.value);
+        value = (forward_t<typename tuple<Ts2...>::template type<0>>) a.value;
         Base::operator=(std::move(a.base()));
         return *this;
     }
-- 
2.43.0


From 2de1032ae0a30806b355640027234c91fcd5b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 103/105] fix: assigning a drjit::string to itself cleared it,
 and appending its own characters accessed freed memory

---
 include/drjit-core/nanostl.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index 91a3932..b4c162e 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -399,16 +399,17 @@ public:
     template <typename T> string &operator=(const T &v) { return assign(v); }
     string &operator=(const string &v) { return assign(v); }
     string &operator=(string &&v) noexcept {
-        m_data = std::move(v.m_data);
-        m_size = v.m_size;
-        m_capacity = v.m_capacity;
-        v.m_size = v.m_capacity = 0;
+        string tmp;
+        tmp.swap(v);
+        swap(tmp);
         return *this;
     }
 
     template <typename T> string &assign(const T &value) {
-        clear();
-        put(value);
+        // 'value' may refer to (parts of) this string
+        string tmp;
+        tmp.put(value);
+        swap(tmp);
         return *this;
     }
 
@@ -487,7 +488,7 @@ public:
     string &iput(size_t) { return *this; }
     template <typename T> string &iput(size_t indent, const T &value) {
         size_t bound = detail::make_formatter<T>::bound(indent, value);
-        grow(bound);
+        unique_ptr<char[]> prev = grow(bound); // 'value' may refer to it
         detail::make_formatter<T>::format(*this, indent, bound, value);
         return *this;
     }
@@ -499,7 +500,7 @@ public:
         size_t bound = 0;
         for (size_t i : bounds)
             bound += i;
-        grow(bound);
+        unique_ptr<char[]> prev = grow(bound); // 'args' may refer to it
         ctr = 0;
         (detail::make_formatter<Ts>::format(*this, indent, bounds[ctr++], args), ...);
         return *this;
@@ -538,7 +539,9 @@ public:
     size_t emtpy() const { return m_size == 0; }
 
 private:
-    template <bool EnsureMinGrowth = true> void grow(size_t size) {
+    /// Ensure that 'size' characters can be added. Returns the previous storage
+    template <bool EnsureMinGrowth = true> unique_ptr<char[]> grow(size_t size) {
+        unique_ptr<char[]> prev;
         size_t needed_capacity = m_size + size;
         if (needed_capacity > m_capacity) {
             if constexpr (EnsureMinGrowth) {
@@ -551,8 +554,10 @@ private:
             if (m_size)
                 JIT_BUILTIN(memcpy)(new_data.get(), m_data.get(), m_size);
             new_data[m_size] = '\0';
+            prev = std::move(m_data);
             m_data = std::move(new_data);
         }
+        return prev;
     }
 private:
     static inline const char m_terminator = '\0';
-- 
2.43.0


From 52a5c685805ea62db5dc403827c7e93ee3139da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 104/105] fix: drjit::string computed the negative of the
 smallest integer (undefined behavior)

---
 include/drjit-core/nanostl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/drjit-core/nanostl.h b/include/drjit-core/nanostl.h
index b4c162e..5719e6f 100644
--- a/include/drjit-core/nanostl.h
+++ b/include/drjit-core/nanostl.h
@@ -581,7 +581,7 @@ template <typename T> struct formatter<T, enable_if_t<std::is_integral_v<T>>> {
 
         if constexpr (std::is_signed_v<T>) {
             if (value < 0) {
-                value_u = UInt(-value);
+                value_u = UInt(UInt(0) - value_u);
                 is_negative = true;
             }
         }
-- 
2.43.0


From cf739ae1b1ecef4db8708082c89b797a311a0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:49 +0000
Subject: [PATCH 105/105] fix: gathering from a literal array that has a
 callback crashed

---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 2864c53..1493938 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1943,7 +1943,7 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
     if (v->is_array() || v->coop_vec)
         return 0; // the code below does not handle arrays, give up
 
-    if (v->extra) {
+    if (v->extra && !v->is_literal() && !v->is_undefined()) {
         VariableExtra *e = jitc_var_extra(v);
         if (e->callback)
             return 0; // "complicated" variable, give up
-- 
2.43.0

