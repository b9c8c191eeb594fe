From 27d2e7e0a858da10bfc5bc25bf04d1f8d5dff924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 01/42] verif hook: cfg(ecc_verif) leaves out the provers that
 need the Expander crates

---
 expander_compiler/src/zkcuda/proving_system.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expander_compiler/src/zkcuda/proving_system.rs b/expander_compiler/src/zkcuda/proving_system.rs
index 04a4461..ce62fd9 100644
--- a/expander_compiler/src/zkcuda/proving_system.rs
+++ b/expander_compiler/src/zkcuda/proving_system.rs
@@ -10,17 +10,27 @@ pub use common::*;
 mod dummy;
 pub use dummy::*;
 
+#[cfg(not(ecc_verif))]
 pub mod expander;
+#[cfg(not(ecc_verif))]
 pub use expander::api_single_thread::*;
 
+#[cfg(not(ecc_verif))]
 pub mod expander_parallelized;
+#[cfg(not(ecc_verif))]
 pub use expander_parallelized::api_parallel::*;
 
+#[cfg(not(ecc_verif))]
 pub mod expander_pcs_defered;
+#[cfg(not(ecc_verif))]
 pub use expander_pcs_defered::api_pcs_defered::*;
 
+#[cfg(not(ecc_verif))]
 pub mod expander_no_oversubscribe;
+#[cfg(not(ecc_verif))]
 pub use expander_no_oversubscribe::api_no_oversubscribe::*;
 
+#[cfg(not(ecc_verif))]
 pub mod expander_local_deferred;
+#[cfg(not(ecc_verif))]
 pub use expander_local_deferred::api::*;
-- 
2.43.0


From a2d9592c0c6503373a05f612ec25ab7fb323e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 02/42] fix: StaticHashMap::new never returns when two keys
 agree modulo 1e9+7

---
 expander_compiler/src/utils/static_hash_map.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/utils/static_hash_map.rs b/expander_compiler/src/utils/static_hash_map.rs
index 6d936aa..e0b0876 100644
--- a/expander_compiler/src/utils/static_hash_map.rs
+++ b/expander_compiler/src/utils/static_hash_map.rs
@@ -4,11 +4,18 @@ pub struct StaticHashMap {
     m: u64,
     a: u64,
     b: u64,
+    c: u64,
     v: Vec<usize>,
 }
 
 const MOD: u64 = 1_000_000_007;
 
+// Reduces a key below MOD. The odd multiplier is drawn anew on every attempt, so no two keys stay
+// congruent in all of them.
+fn reduce(x: usize, c: u64) -> u64 {
+    ((x as u64).wrapping_mul(c) >> 32) % MOD
+}
+
 impl StaticHashMap {
     pub fn new(s: &[usize]) -> Self {
         if s.len() > (MOD / 1000) as usize {
@@ -23,10 +30,11 @@ impl StaticHashMap {
             for _ in 0..10 {
                 let a = rng.next_u64() % (MOD - 1) + 1;
                 let b = rng.next_u64() % (MOD - 1) + 1;
+                let c = rng.next_u64() | 1;
                 let mut v = vec![0; m as usize];
                 let mut ok = true;
                 for (i, &x) in s.iter().enumerate() {
-                    let x = (x as u64) % MOD;
+                    let x = reduce(x, c);
                     let pos = ((x * a + b) % MOD * x % MOD) & (m - 1);
                     if v[pos as usize] != 0 {
                         ok = false;
@@ -40,7 +48,7 @@ impl StaticHashMap {
                             *x -= 1;
                         }
                     }
-                    return Self { m: m - 1, a, b, v };
+                    return Self { m: m - 1, a, b, c, v };
                 }
             }
             if m < MOD / 250 {
@@ -50,7 +58,7 @@ impl StaticHashMap {
     }
 
     pub fn get(&self, x: usize) -> usize {
-        let x = (x as u64) % MOD;
+        let x = reduce(x, self.c);
         let pos = ((x * self.a + self.b) % MOD * x % MOD) & self.m;
         self.v[pos as usize]
     }
-- 
2.43.0


From a03e6134c3cc14d8c9381b1d877f7f1f65739b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 03/42] fix: array views with merged or length-1 dimensions
 could not be laid out

---
 expander_compiler/src/zkcuda/shape.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/shape.rs b/expander_compiler/src/zkcuda/shape.rs
index 46ffd1c..a63b1ed 100644
--- a/expander_compiler/src/zkcuda/shape.rs
+++ b/expander_compiler/src/zkcuda/shape.rs
@@ -46,15 +46,26 @@ impl Entry {
             }
             Some(axes) => axes,
         };
-        let mut merge_shape = vec![false; self.shape.len()];
+        // Dimensions of length 1 carry no data, so moving them needs no split: drop them first.
+        let keep_first_dim = keep_first_dim && axes.first().is_some_and(|&a| self.shape[a] != 1);
+        let mut kept_id = vec![None; self.shape.len()];
+        let mut shape = Vec::with_capacity(self.shape.len());
+        for (i, &s) in self.shape.iter().enumerate() {
+            if s != 1 {
+                kept_id[i] = Some(shape.len());
+                shape.push(s);
+            }
+        }
+        let axes: Axes = axes.iter().filter_map(|&a| kept_id[a]).collect();
+        let mut merge_shape = vec![false; shape.len()];
         for (i, (&a, &b)) in axes.iter().zip(axes.iter().skip(1)).enumerate() {
             if a + 1 == b && (!keep_first_dim || i > 0) {
                 merge_shape[b] = true;
             }
         }
-        let mut new_shape_id = vec![0; self.shape.len()];
-        let mut new_shape = Vec::with_capacity(self.shape.len());
-        for (i, &s) in self.shape.iter().enumerate() {
+        let mut new_shape_id = vec![0; shape.len()];
+        let mut new_shape = Vec::with_capacity(shape.len());
+        for (i, &s) in shape.iter().enumerate() {
             if !merge_shape[i] {
                 new_shape_id[i] = new_shape.len();
                 new_shape.push(s);
@@ -63,7 +74,7 @@ impl Entry {
             }
         }
         let mut new_axes = Vec::with_capacity(axes.len());
-        for &a in axes {
+        for &a in &axes {
             if !merge_shape[a] {
                 new_axes.push(new_shape_id[a]);
             }
@@ -80,7 +91,7 @@ impl Entry {
         }
     }
     fn transpose_shape(&self, shape: &[(usize, usize)]) -> Vec<(usize, usize)> {
-        if self.axes.is_none() {
+        if self.axes.is_none() || self.shape.is_empty() {
             return shape.to_vec();
         }
         let mut segments = vec![];
@@ -327,6 +338,8 @@ impl ShapeHistory {
                 .collect::<Vec<_>>()
         };
         for e in self.entries.iter() {
+            // `shape` is only split where get_initial_split_list asks for it
+            let e = e.minimize(false);
             cur = if e.axes.as_ref().is_none() {
                 cur
             } else if cur.is_none() {
-- 
2.43.0


From 45e08db2b0d55e83163a9ee613923b72f1de9baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 04/42] fix: a program without assertions lost its first output
 to the combined-constraint zero check

---
 expander_compiler/src/layering/ir_split.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/layering/ir_split.rs b/expander_compiler/src/layering/ir_split.rs
index 240f6d8..09acfb6 100644
--- a/expander_compiler/src/layering/ir_split.rs
+++ b/expander_compiler/src/layering/ir_split.rs
@@ -21,6 +21,8 @@ struct SplitContext<'a, C: Config> {
     cc_occured_layers: HashMap<(usize, Vec<usize>), Vec<usize>>,
     splitted_circuits: HashMap<(usize, Vec<usize>, Vec<usize>), SplittedCircuit>,
     new_circuit0: Option<IrCircuit<C>>,
+    // number of outputs of the new root that carry combined constraints
+    num_combined_outputs0: usize,
 }
 
 struct SplittedCircuit {
@@ -289,6 +291,7 @@ impl<'a, C: Config> SplitContext<'a, C> {
         }
         if circuit_id == 0 {
             assert_eq!(circuit.constraints.len(), 0);
+            self.num_combined_outputs0 = add_outputs.len();
             add_outputs.extend(outputs);
             circuit.outputs = add_outputs;
             self.new_circuit0 = Some(circuit);
@@ -469,6 +472,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
         cc_occured_layers: HashMap::new(),
         splitted_circuits: HashMap::new(),
         new_circuit0: None,
+        num_combined_outputs0: 0,
     };
     ctx.new_circuits.add(&IrCircuit {
         num_inputs: !0,
@@ -488,7 +492,7 @@ pub fn split_to_single_layer<C: Config>(root: &IrRootCircuit<C>) -> IrRootCircui
         circuits: new_circuits,
         num_public_inputs: root.num_public_inputs,
         expected_num_output_zeroes: root.expected_num_output_zeroes
-            + C::ENABLE_RANDOM_COMBINATION as usize,
+            + ctx.num_combined_outputs0,
     }
 }
 
-- 
2.43.0


From ddfe34283593f025dc35199ec0e20dc3d8014349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 05/42] fix: a very large multiplication fan-out limit
 overflowed while compiling

---
 expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
index fce6b72..5c2ec6a 100644
--- a/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
+++ b/expander_compiler/src/circuit/ir/dest/mul_fanout_limit.rs
@@ -88,8 +88,8 @@ impl<C: Config> CircuitRelaxed<C> {
 
         for i in (1..max_copy_cnt.len()).rev() {
             let mc = max_copy_cnt[i].max(1);
-            if mul_ref_cnt[i] <= mc * limit {
-                add_copy_cnt[i] = ((mul_ref_cnt[i] + limit - 1) / limit).max(1) - 1;
+            if mul_ref_cnt[i] <= mc.saturating_mul(limit) {
+                add_copy_cnt[i] = mul_ref_cnt[i].div_ceil(limit).max(1) - 1;
                 any_new = true;
                 if let Some(j) = internal_var_insn_id[i] {
                     if let Instruction::InternalVariable { expr } = &self.instructions[j] {
-- 
2.43.0


From 5846d79f8facbbe1a6e6c0ff9de7737848221fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 06/42] fix: witness generation panicked when a value does not
 fit a binary decomposition

---
 expander_compiler/src/hints/builtin.rs | 11 ++++++-----
 expander_compiler/src/hints/mod.rs     |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/hints/builtin.rs b/expander_compiler/src/hints/builtin.rs
index e0949be..a730167 100644
--- a/expander_compiler/src/hints/builtin.rs
+++ b/expander_compiler/src/hints/builtin.rs
@@ -177,8 +177,8 @@ pub fn impl_builtin_hint<F: Field>(
     hint_id: BuiltinHintIds,
     inputs: &[F],
     num_outputs: usize,
-) -> Vec<F> {
-    match hint_id {
+) -> Result<Vec<F>, Error> {
+    let outputs = match hint_id {
         BuiltinHintIds::Identity => inputs.iter().take(num_outputs).cloned().collect(),
         BuiltinHintIds::Div => binop_hint(inputs, |x, y| match y.inv() {
             Some(inv) => x * inv,
@@ -235,8 +235,9 @@ pub fn impl_builtin_hint<F: Field>(
         BuiltinHintIds::GreaterEq => binop_hint(inputs, |x, y| F::from((x >= y) as u32)),
         BuiltinHintIds::Lesser => binop_hint(inputs, |x, y| F::from((x < y) as u32)),
         BuiltinHintIds::Greater => binop_hint(inputs, |x, y| F::from((x > y) as u32)),
-        BuiltinHintIds::ToBinary => to_binary(inputs[0], num_outputs).unwrap(), // TODO: error propagation
-    }
+        BuiltinHintIds::ToBinary => to_binary(inputs[0], num_outputs)?,
+    };
+    Ok(outputs)
 }
 
 fn binop_hint<F: Field, G: Fn(F, F) -> F>(inputs: &[F], f: G) -> Vec<F> {
@@ -267,7 +268,7 @@ pub fn to_binary<F: Field>(x: F, num_outputs: usize) -> Result<Vec<F>, Error> {
 
 pub fn stub_impl<F: Field>(hint_id: usize, inputs: &Vec<F>, num_outputs: usize) -> Vec<F> {
     match BuiltinHintIds::from_usize(hint_id) {
-        Some(hint_id) => impl_builtin_hint(hint_id, inputs, num_outputs),
+        Some(hint_id) => impl_builtin_hint(hint_id, inputs, num_outputs).unwrap(),
         None => stub_impl_general(hint_id, inputs, num_outputs),
     }
 }
diff --git a/expander_compiler/src/hints/mod.rs b/expander_compiler/src/hints/mod.rs
index 5b56752..6b298f3 100644
--- a/expander_compiler/src/hints/mod.rs
+++ b/expander_compiler/src/hints/mod.rs
@@ -14,7 +14,7 @@ pub fn safe_impl<F: Field>(
     num_outputs: usize,
 ) -> Result<Vec<F>, Error> {
     match BuiltinHintIds::from_usize(hint_id) {
-        Some(hint_id) => Ok(impl_builtin_hint(hint_id, inputs, num_outputs)),
+        Some(hint_id) => impl_builtin_hint(hint_id, inputs, num_outputs),
         None => hint_caller.call(hint_id, inputs, num_outputs),
     }
 }
-- 
2.43.0


From 65117639ada69238c40a52eb5b312ce5d0b3e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 07/42] fix: checks carried by divisions, boolean operations
 and binary decompositions were dropped when their results were unused

---
 expander_compiler/src/circuit/ir/common/mod.rs |  4 ++++
 expander_compiler/src/circuit/ir/common/opt.rs | 13 ++++++++++++-
 expander_compiler/src/circuit/ir/source/mod.rs |  6 ++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/common/mod.rs b/expander_compiler/src/circuit/ir/common/mod.rs
index 18b7f27..bc27876 100644
--- a/expander_compiler/src/circuit/ir/common/mod.rs
+++ b/expander_compiler/src/circuit/ir/common/mod.rs
@@ -40,6 +40,10 @@ pub trait Instruction<C: Config>: Debug + Clone + Hash + PartialEq + Eq {
     fn from_kx_plus_b(x: usize, k: CircuitField<C>, b: CircuitField<C>) -> Self;
     fn validate(&self, num_public_inputs: usize) -> Result<(), Error>;
     fn eval_unsafe(&self, values: &[CircuitField<C>]) -> EvalResult<'_, C>;
+    /// Whether the instruction restricts its inputs even if its outputs are not used.
+    fn has_implicit_constraints(&self) -> bool {
+        false
+    }
 }
 
 pub enum EvalResult<'a, C: Config> {
diff --git a/expander_compiler/src/circuit/ir/common/opt.rs b/expander_compiler/src/circuit/ir/common/opt.rs
index 362a738..0e2283d 100644
--- a/expander_compiler/src/circuit/ir/common/opt.rs
+++ b/expander_compiler/src/circuit/ir/common/opt.rs
@@ -220,7 +220,18 @@ impl<Irc: IrConfig> RootCircuit<Irc> {
                     typ: Var,
                 }));
             }
-            if !circuit.constraints.is_empty() {
+            let mut constrained = !circuit.constraints.is_empty();
+            for (i, insn) in circuit.instructions.iter().enumerate() {
+                if insn.has_implicit_constraints() {
+                    queue.push(vertice_id(&Element {
+                        circuit_id: *circuit_id,
+                        id: i,
+                        typ: Insn,
+                    }));
+                    constrained = true;
+                }
+            }
+            if constrained {
                 queue.push(vertice_id(&Element {
                     circuit_id: *circuit_id,
                     id: 0,
diff --git a/expander_compiler/src/circuit/ir/source/mod.rs b/expander_compiler/src/circuit/ir/source/mod.rs
index aacc693..a39496b 100644
--- a/expander_compiler/src/circuit/ir/source/mod.rs
+++ b/expander_compiler/src/circuit/ir/source/mod.rs
@@ -269,6 +269,12 @@ impl<C: Config> common::Instruction<C> for Instruction<C> {
     fn from_kx_plus_b(x: usize, k: CircuitField<C>, b: CircuitField<C>) -> Self {
         Instruction::LinComb(expr::LinComb::from_kx_plus_b(x, k, b))
     }
+    fn has_implicit_constraints(&self) -> bool {
+        matches!(
+            self,
+            Instruction::Div { .. } | Instruction::BoolBinOp { .. } | Instruction::ToBinary { .. }
+        )
+    }
     fn validate(&self, num_public_inputs: usize) -> Result<(), Error> {
         match self {
             Instruction::Mul(inputs) => {
-- 
2.43.0


From 287640b6b5b051a777a9115c24a1d76036a700a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 08/42] fix: a booleanity assertion was lost when a boolean
 operation later produced the same value

---
 expander_compiler/src/builder/basic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/builder/basic.rs b/expander_compiler/src/builder/basic.rs
index 2d5a2bc..c289c26 100644
--- a/expander_compiler/src/builder/basic.rs
+++ b/expander_compiler/src/builder/basic.rs
@@ -241,7 +241,8 @@ impl<'a, C: Config, IrcIn: IrConfig<Config = C>, IrcOut: IrConfig<Config = C>>
         self.constraints
             .entry(constraint_type)
             .or_default()
-            .insert(expr, ConstraintStatus::Marked);
+            .entry(expr)
+            .or_insert(ConstraintStatus::Marked);
     }
 
     fn add_input(&mut self) {
-- 
2.43.0


From 7b6d973215145428e2da420f42ec1b86c2b5f2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 09/42] fix: opt_level 1 left values the witness solver cannot
 compute in it although no hint needs them

---
 expander_compiler/src/compile/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expander_compiler/src/compile/mod.rs b/expander_compiler/src/compile/mod.rs
index 90debc9..4e44a12 100644
--- a/expander_compiler/src/compile/mod.rs
+++ b/expander_compiler/src/compile/mod.rs
@@ -298,6 +298,10 @@ pub fn compile_step_4<C: Config>(
             let (r, im) = r.remove_unreachable();
             (r, im)
         })
+    } else if options.opt_level >= 1 {
+        let (r, im) = r_hint_exported.remove_unreachable();
+        src_im.compose_in_place(&im);
+        r
     } else {
         r_hint_exported
     };
-- 
2.43.0


From aacffea69102e80b594901cd407d80574427d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 10/42] fix: memorized functions with the same arguments but
 different bodies shared one sub-circuit

---
 expander_compiler/macros/src/lib.rs   | 3 +++
 expander_compiler/src/frontend/mod.rs | 1 +
 2 files changed, 4 insertions(+)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index ba48d23..1da10bd 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -249,8 +249,11 @@ pub fn memorized(_attr: TokenStream, item: TokenStream) -> TokenStream {
 
             #(#join_variable_calls)*
 
+            // the type is local to this function, so it tells memorized functions apart
+            struct FunctionTag;
             let mut hasher = tiny_keccak::Keccak::v256();
             hasher.update(b"memorized");
+            hasher.update(&extra::get_function_id::<FunctionTag>().to_le_bytes());
 
             #(#hash_primitive_calls)*
 
diff --git a/expander_compiler/src/frontend/mod.rs b/expander_compiler/src/frontend/mod.rs
index 4037ba4..3ab0d36 100644
--- a/expander_compiler/src/frontend/mod.rs
+++ b/expander_compiler/src/frontend/mod.rs
@@ -41,6 +41,7 @@ pub mod extra {
         HashStructureAndPrimitive, JoinVecVariables, RebuildVecVariables,
     };
     pub use crate::hints::registry::{EmptyHintCaller, HintCaller, HintRegistry};
+    pub use crate::utils::function_id::get_function_id;
     // pub use crate::utils::serde::Serde;
 
     use super::{internal, CircuitField, Config, Define, Variable};
-- 
2.43.0


From f6b1a5d52d8c53608d65ceb733cdacc25b9b8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 11/42] fix: calling a memorized function twice in debug
 evaluation panicked

---
 expander_compiler/src/frontend/debug.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/expander_compiler/src/frontend/debug.rs b/expander_compiler/src/frontend/debug.rs
index 79bafb5..77e014c 100644
--- a/expander_compiler/src/frontend/debug.rs
+++ b/expander_compiler/src/frontend/debug.rs
@@ -478,13 +478,9 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> RootAPI<C> for DebugBuilder<C, H
     }
 
     fn register_sub_circuit_output_structure(&mut self, circuit_id: usize, structure: Vec<usize>) {
-        if self
-            .sub_circuit_output_structure
-            .insert(circuit_id, structure)
-            .is_some()
-        {
-            panic!("subcircuit output structure already registered");
-        }
+        // the body runs on every call here, so the structure is registered again each time
+        self.sub_circuit_output_structure
+            .insert(circuit_id, structure);
     }
 
     fn get_sub_circuit_output_structure(&self, circuit_id: usize) -> Vec<usize> {
-- 
2.43.0


From 5741f08114fab9df39fa2f55339fd2824d731411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 12/42] fix: memorized_simple_call reused one sub-circuit for
 closures that capture different values

---
 expander_compiler/src/frontend/builder.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expander_compiler/src/frontend/builder.rs b/expander_compiler/src/frontend/builder.rs
index 54659cc..ebdc615 100644
--- a/expander_compiler/src/frontend/builder.rs
+++ b/expander_compiler/src/frontend/builder.rs
@@ -719,6 +719,11 @@ impl<C: Config> RootAPI<C> for RootBuilder<C> {
         hasher.update(b"simple");
         hasher.update(&inputs.len().to_le_bytes());
         hasher.update(&get_function_id::<F>().to_le_bytes());
+        if std::mem::size_of::<F>() != 0 {
+            // function pointers and closures with captured values: the type does not tell
+            // what this one computes, so it cannot share the circuit of an earlier call
+            hasher.update(&self.full_hash_id.len().to_le_bytes());
+        }
         let mut hash = [0u8; 32];
         hasher.finalize(&mut hash);
 
-- 
2.43.0


From a2c93fe48976d2bf24513b185caf5f3684d8194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 13/42] fix: counting the inputs of a fixed-length array looked
 only at its first element

An array of length 0 panicked, and an array of vectors of different lengths
was counted as if all had the length of the first.
---
 expander_compiler/src/frontend/circuit.rs   | 4 +++-
 expander_compiler/src/frontend/variables.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/frontend/circuit.rs b/expander_compiler/src/frontend/circuit.rs
index c24eb1d..da839cf 100644
--- a/expander_compiler/src/frontend/circuit.rs
+++ b/expander_compiler/src/frontend/circuit.rs
@@ -84,7 +84,9 @@ macro_rules! declare_circuit_num_vars {
     };
 
     ($field_value:expr, @type [$elem:tt; $n:expr], $cnt_sec:expr, $cnt_pub:expr, $array_cnt:expr) => {
-        $crate::frontend::internal::declare_circuit_num_vars!($field_value[0], @type $elem, $cnt_sec, $cnt_pub, $array_cnt * $n);
+        for _x in $field_value.iter() {
+            $crate::frontend::internal::declare_circuit_num_vars!(_x, @type $elem, $cnt_sec, $cnt_pub, $array_cnt);
+        }
     };
 
     ($field_value:expr, @type [$elem:tt], $cnt_sec:expr, $cnt_pub:expr, $array_cnt:expr) => {
diff --git a/expander_compiler/src/frontend/variables.rs b/expander_compiler/src/frontend/variables.rs
index b74d87c..3c70117 100644
--- a/expander_compiler/src/frontend/variables.rs
+++ b/expander_compiler/src/frontend/variables.rs
@@ -54,6 +54,6 @@ where
         }
     }
     fn num_vars(&self) -> usize {
-        N * self[0].num_vars()
+        self.iter().map(|x| x.num_vars()).sum()
     }
 }
-- 
2.43.0


From d69c0ff07ef305bbb4a6a8387eaf969901f6a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 14/42] fix: solving the hints of a kernel whose first input is
 broadcast panicked

---
 expander_compiler/src/zkcuda/context.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2040731..7298752 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -824,7 +824,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     continue;
                 }
                 let handle = ensure_handle(input.clone());
-                if any_shape.is_none() {
+                // a broadcast input does not have the parallel dimension
+                if any_shape.is_none() && !ib {
                     any_shape = Some(handle.shape_history.shape());
                 }
                 let values = handle
-- 
2.43.0


From f181864d5ec808c16bb770cdab6ec9bffc985873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 15/42] fix: the dummy prover ignored the bit orders of
 transposed views

---
 .../src/zkcuda/proving_system/dummy.rs        | 33 +++++++++++++++++--
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index b18beb6..ffd8ca3 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -5,6 +5,7 @@ use crate::circuit::config::{Config, SIMDField};
 use crate::utils::misc::next_power_of_two;
 use crate::zkcuda::context::ComputationGraph;
 use crate::zkcuda::proving_system::{CombinedProof, KernelWiseProvingSystem, ProvingSystem};
+use crate::zkcuda::shape::BitOrder;
 
 use super::super::kernel::Kernel;
 
@@ -28,6 +29,23 @@ pub struct DummyProof {
     cond: Vec<Vec<bool>>,
 }
 
+// The kernel reads the committed values in this order, see BitOrder.
+fn reorder<T: Clone>(vals: &[T], bit_order: &BitOrder) -> Vec<T> {
+    if vals.len() != 1 << bit_order.len() {
+        panic!("Input size mismatch");
+    }
+    (0..vals.len())
+        .map(|i| {
+            let j: usize = bit_order
+                .iter()
+                .enumerate()
+                .map(|(k, &b)| ((i >> k) & 1) << b)
+                .sum();
+            vals[j].clone()
+        })
+        .collect()
+}
+
 // TODO
 /*#[deprecated(
     note = "DummyProvingSystem is a dummy implementation for testing purposes. Please use Expander."
@@ -161,11 +179,16 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
             .map(|template| {
                 let (mut local_commitments, mut local_state, mut local_vals) =
                     (vec![], vec![], vec![]);
-                for idx in template.commitment_indices() {
+                for (idx, bit_order) in template
+                    .commitment_indices()
+                    .iter()
+                    .zip(template.commitment_bit_orders())
+                {
                     local_commitments.push(&commitments[*idx]);
                     local_state.push(&states[*idx]);
-                    local_vals.push(&device_memories[*idx][..]);
+                    local_vals.push(reorder(&device_memories[*idx], bit_order));
                 }
+                let local_vals = local_vals.iter().map(|v| &v[..]).collect::<Vec<_>>();
 
                 <Self as KernelWiseProvingSystem<C>>::prove_kernel(
                     prover_setup,
@@ -198,8 +221,12 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
                 let local_commitments = template
                     .commitment_indices()
                     .iter()
-                    .map(|idx| &proof.commitments[*idx])
+                    .zip(template.commitment_bit_orders())
+                    .map(|(idx, bit_order)| DummyCommitment {
+                        vals: reorder(&proof.commitments[*idx].vals, bit_order),
+                    })
                     .collect::<Vec<_>>();
+                let local_commitments = local_commitments.iter().collect::<Vec<_>>();
 
                 <Self as KernelWiseProvingSystem<C>>::verify_kernel(
                     verifier_setup,
-- 
2.43.0


From 064096f1927eb13c2e2bc4d246d7ce5a4f92f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:02 +0000
Subject: [PATCH 16/42] fix: the dummy verifier accepted proofs with kernel
 calls missing or with unsatisfied constraints

---
 expander_compiler/src/zkcuda/proving_system/dummy.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/zkcuda/proving_system/dummy.rs b/expander_compiler/src/zkcuda/proving_system/dummy.rs
index ffd8ca3..3f92850 100644
--- a/expander_compiler/src/zkcuda/proving_system/dummy.rs
+++ b/expander_compiler/src/zkcuda/proving_system/dummy.rs
@@ -126,6 +126,9 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
     ) -> bool {
         let values = commitments.iter().map(|c| &c.vals[..]).collect::<Vec<_>>();
         check_inputs(kernel, &values, parallel_count, is_broadcast);
+        if proof.cond.len() != parallel_count {
+            return false;
+        }
         for i in 0..parallel_count {
             let lc_input = prepare_inputs(
                 kernel.layered_circuit(),
@@ -137,7 +140,7 @@ impl<C: Config> KernelWiseProvingSystem<C> for DummyProvingSystem<C> {
             let (_, cond) = kernel
                 .layered_circuit()
                 .eval_with_public_inputs_simd(lc_input, &[]);
-            if cond != proof.cond[i] {
+            if cond != proof.cond[i] || cond.iter().any(|x| !x) {
                 return false;
             }
         }
@@ -213,6 +216,11 @@ impl<C: Config> ProvingSystem<C> for DummyProvingSystem<C> {
         computation_graph: &ComputationGraph<C>,
         proof: &Self::Proof,
     ) -> bool {
+        if proof.proofs.len() != computation_graph.proof_templates().len()
+            || proof.commitments.len() != computation_graph.commitments_lens().len()
+        {
+            return false;
+        }
         let verified = proof
             .proofs
             .par_iter()
-- 
2.43.0


From 3d356a7b5c79cda784f68616456e5cda3df63eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 17/42] fix: a kernel stored where another one was before was
 taken for the other

---
 expander_compiler/src/zkcuda/context.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 7298752..883e6f4 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -396,12 +396,15 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         // because it recursively hashes nested generic structs.
         // Fast kernel registration: pointer-identity cache + skip clone on second call.
         let ptr = kernel as *const _ as usize;
-        let kernel_id = if let Some(&cached_id) = self.kernel_ptr_cache.get(&ptr) {
-            cached_id
-        } else {
-            let id = self.kernel_primitives.add(kernel);
-            self.kernel_ptr_cache.insert(ptr, id);
-            id
+        let cached_id = self.kernel_ptr_cache.get(&ptr).copied();
+        let kernel_id = match cached_id {
+            // another kernel may have been moved to the same address since
+            Some(id) if self.kernel_primitives.get(id) == kernel => id,
+            _ => {
+                let id = self.kernel_primitives.add(kernel);
+                self.kernel_ptr_cache.insert(ptr, id);
+                id
+            }
         };
 
         let has_outputs = kernel.io_specs().iter().any(|s| s.is_output);
-- 
2.43.0


From 1eade926c8142683ceb21c873fd5ecdc67249c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 18/42] fix: calling a kernel with an output variable that
 already holds a handle panicked

---
 expander_compiler/src/zkcuda/context.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 883e6f4..2f94f27 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -338,6 +338,12 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
         if kernel.io_shapes().len() != ios.len() {
             panic!("Invalid number of inputs/outputs");
         }
+        // a pure output is overwritten, whatever was in it
+        for (io, spec) in ios.iter_mut().zip(kernel.io_specs().iter()) {
+            if !spec.is_input {
+                *io = None;
+            }
+        }
         let mut is_broadcast = Vec::with_capacity(ios.len());
         for (i, ((kernel_shape, io), spec)) in kernel
             .io_shapes()
-- 
2.43.0


From e5b65289636e4b7c8d4f208cd4b91caac3ff770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 19/42] fix: compiling a call that only has broadcast inputs
 and no outputs panicked

---
 expander_compiler/src/zkcuda/context.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 2f94f27..8a143dc 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -744,7 +744,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 }
             }
 
-            let any_shape = any_shape.unwrap();
+            // without any split input or output, all instances are the same
+            let any_shape = any_shape.unwrap_or_else(|| vec![kernel_call.num_parallel]);
             let any_shape = keep_shape_until(&any_shape, kernel_call.num_parallel);
             let dim0_len = shape_vec_padded_len(&any_shape);
 
@@ -927,7 +928,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .unwrap()
                 .id;
             // we need to assign correct shape to it
-            let any_shape = any_shape.unwrap();
+            let any_shape = any_shape.unwrap_or_else(|| vec![kernel_call.num_parallel]);
             let mut any_shape_products =
                 keep_shape_products_until(&prefix_products(&any_shape), kernel_call.num_parallel);
             if kernel_call.num_parallel != hints_len {
-- 
2.43.0


From be3ef138b28ba1cc0e612633373da7be755b78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:00 +0000
Subject: [PATCH 20/42] fix: hints of a kernel whose parallel dimension is
 split were padded differently than compiled

---
 expander_compiler/src/zkcuda/context.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 8a143dc..537b0ea 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -551,6 +551,16 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
             .collect()
     }
 
+    // shape of the handle, as split for all uses of its memory
+    fn get_split_shape(&self, handle: &DeviceMemoryHandleRaw) -> Shape {
+        let dm_shape =
+            prefix_products_to_shape(&self.device_memories[handle.id].required_shape_products);
+        handle
+            .shape_history
+            .get_transposed_shape_and_bit_order(&dm_shape)
+            .0
+    }
+
     fn propagate_and_get_shapes(&mut self) -> Vec<Shape> {
         let mut dm_shapes = self.get_current_device_memory_shapes();
         loop {
@@ -836,7 +846,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 let handle = ensure_handle(input.clone());
                 // a broadcast input does not have the parallel dimension
                 if any_shape.is_none() && !ib {
-                    any_shape = Some(handle.shape_history.shape());
+                    any_shape = Some(self.get_split_shape(&handle));
                 }
                 let values = handle
                     .shape_history
@@ -858,7 +868,7 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 }
                 let handle = ensure_handle(output.clone());
                 if any_shape.is_none() {
-                    any_shape = Some(handle.shape_history.shape());
+                    any_shape = Some(self.get_split_shape(&handle));
                 }
                 let values = handle
                     .shape_history
-- 
2.43.0


From 07e8f798754d7a358dc5072e37bfa56458777968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:39 +0000
Subject: [PATCH 21/42] fix: loading a graph in which one kernel primitive was
 compiled to several kernels failed

---
 expander_compiler/src/zkcuda/context.rs | 77 +++++++++++++++----------
 1 file changed, 48 insertions(+), 29 deletions(-)

diff --git a/expander_compiler/src/zkcuda/context.rs b/expander_compiler/src/zkcuda/context.rs
index 537b0ea..1b49e36 100644
--- a/expander_compiler/src/zkcuda/context.rs
+++ b/expander_compiler/src/zkcuda/context.rs
@@ -14,8 +14,8 @@ use super::{
     kernel::{compile_primitive, Kernel, KernelPrimitive},
     shape::{
         keep_shape_products_until, keep_shape_since, merge_shape_products, prefix_products,
-        prefix_products_to_shape, shape_prepend, shape_vec_len, shape_vec_padded_len, BitOrder,
-        Reshape, Shape, ShapeHistory, Transpose,
+        prefix_products_to_shape, shape_padded_mapping, shape_prepend, shape_vec_len,
+        shape_vec_padded_len, BitOrder, Reshape, Shape, ShapeHistory, Transpose,
     },
     vec_shaped::{
         flatten_shaped, flatten_shaped_pack_simd, unflatten_shaped, unflatten_shaped_unpack_simd,
@@ -672,6 +672,8 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                     .get_transposed_shape_and_bit_order(&dm_shapes[handle.id])
             })
         };
+        let mut loaded_ids = std::collections::HashMap::new();
+        let mut loaded_sources = std::collections::HashMap::new();
         let mut dm_max = self.device_memories.len();
         for kernel_call in self.kernel_calls.iter() {
             let pad_shapes_input = kernel_call
@@ -685,34 +687,51 @@ impl<C: Config, H: HintCaller<CircuitField<C>>> Context<C, H> {
                 .map(get_pad_shape)
                 .collect::<Vec<_>>();
             let kernel_primitive = self.kernel_primitives.get(kernel_call.kernel_id);
-            let kernel = if cg_kernels.is_some() {
-                // Get kernel from loaded kernels by kernel_id
-                self.kernels.get(kernel_call.kernel_id).clone()
-            } else {
-                let mut psi = Vec::new();
-                for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
-                    psi.push(s.as_ref().map(|t| {
-                        if ib {
-                            t.0.clone()
-                        } else {
-                            keep_shape_since(&t.0, kernel_call.num_parallel)
-                        }
-                    }));
-                }
-                let mut pso = Vec::new();
-                for (s, &ib) in pad_shapes_output
-                    .iter()
-                    .zip(kernel_call.is_broadcast.iter())
-                {
-                    pso.push(s.as_ref().map(|t| {
-                        if ib {
-                            t.0.clone()
-                        } else {
-                            keep_shape_since(&t.0, kernel_call.num_parallel)
-                        }
-                    }));
+            let mut psi = Vec::new();
+            for (s, &ib) in pad_shapes_input.iter().zip(kernel_call.is_broadcast.iter()) {
+                psi.push(s.as_ref().map(|t| {
+                    if ib {
+                        t.0.clone()
+                    } else {
+                        keep_shape_since(&t.0, kernel_call.num_parallel)
+                    }
+                }));
+            }
+            let mut pso = Vec::new();
+            for (s, &ib) in pad_shapes_output
+                .iter()
+                .zip(kernel_call.is_broadcast.iter())
+            {
+                pso.push(s.as_ref().map(|t| {
+                    if ib {
+                        t.0.clone()
+                    } else {
+                        keep_shape_since(&t.0, kernel_call.num_parallel)
+                    }
+                }));
+            }
+            let compile = || compile_primitive(kernel_primitive, &psi, &pso);
+            let kernel = if let Some(templates) = cg_proof_templates.as_ref() {
+                // Get kernel from loaded kernels: one for everything compiled from the same source
+                let template = templates
+                    .get(self.proof_templates.len())
+                    .expect("computation graph has too few kernel calls");
+                let pads = psi.iter().chain(&pso).flatten();
+                let source = (
+                    kernel_call.kernel_id,
+                    pads.map(|s| shape_padded_mapping(s)).collect::<Vec<_>>(),
+                );
+                let id = *loaded_ids
+                    .entry(source.clone())
+                    .or_insert(template.kernel_id);
+                let kernel = self.kernels.get(id).clone();
+                if *loaded_sources.entry(id).or_insert_with(|| source.clone()) != source {
+                    // shared only if it compiles to the same
+                    assert_eq!(compile()?, kernel);
                 }
-                compile_primitive(kernel_primitive, &psi, &pso)?
+                kernel
+            } else {
+                compile()?
             };
 
             let mut commitment_indices: Vec<usize> = Vec::new();
-- 
2.43.0


From 9330007be756226e46dd0b50786ed1add63154b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 22/42] fix: #[kernel] misplaced the elements of arrays whose
 dimensions are expressions

---
 expander_compiler/macros/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/macros/src/lib.rs b/expander_compiler/macros/src/lib.rs
index 1da10bd..d8ca1e1 100644
--- a/expander_compiler/macros/src/lib.rs
+++ b/expander_compiler/macros/src/lib.rs
@@ -374,7 +374,7 @@ fn generate_unflatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
@@ -418,7 +418,7 @@ fn generate_unflatten_code(
         };
 
         inner_code = quote! {
-            for #var in 0..#dim {
+            for #var in 0..(#dim) {
                 #init_code
                 #inner_code
             }
@@ -456,7 +456,7 @@ fn generate_flatten_code(
     let mut steps = Vec::with_capacity(dims.len());
     let mut step = quote! { 1 };
     for &dim in dims.iter().skip(1).rev() {
-        step = quote! { #dim * (#step) };
+        step = quote! { (#dim) * (#step) };
         steps.push(step.clone());
     }
     steps.reverse();
@@ -484,7 +484,7 @@ fn generate_flatten_code(
 
     for (var, &dim) in loop_vars.iter().zip(dims.iter()).rev() {
         loop_code = quote! {
-            for #var in 0..#dim {
+            for #var in 0..(#dim) {
                 #loop_code
             }
         };
-- 
2.43.0


From ff9bf2eb19ec0e2e9da0056d1cc432e072702bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 23/42] fix: validating a program whose variable count
 overflows panicked

---
 expander_compiler/src/circuit/ir/common/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/common/mod.rs b/expander_compiler/src/circuit/ir/common/mod.rs
index bc27876..8207ebc 100644
--- a/expander_compiler/src/circuit/ir/common/mod.rs
+++ b/expander_compiler/src/circuit/ir/common/mod.rs
@@ -119,7 +119,9 @@ impl<Irc: IrConfig> Circuit<Irc> {
                 }
             }
             insn.validate(num_public_inputs)?;
-            cur_var_max += insn.num_outputs();
+            cur_var_max = cur_var_max
+                .checked_add(insn.num_outputs())
+                .ok_or_else(|| Error::InternalError("too many variables".to_string()))?;
             if !Irc::ALLOW_DUPLICATE_SUB_CIRCUIT_INPUTS {
                 if let Some((_, inputs, _)) = insn.as_sub_circuit_call() {
                     let mut set = HashSet::new();
-- 
2.43.0


From 98fb789cf848611a7f36559f2722e38cbbe04aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:51 +0000
Subject: [PATCH 24/42] fix: validating a layered circuit panicked on a layer a
 segment does not read, and overflowed on placements

---
 expander_compiler/src/circuit/layered/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/mod.rs b/expander_compiler/src/circuit/layered/mod.rs
index 97aa798..028aa19 100644
--- a/expander_compiler/src/circuit/layered/mod.rs
+++ b/expander_compiler/src/circuit/layered/mod.rs
@@ -395,13 +395,13 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 )));
             }
             for m in seg.gate_muls.iter() {
-                if m.inputs[0].layer() >= self.layer_ids.len() {
+                if m.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 0 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
                     )));
                 }
-                if m.inputs[1].layer() >= self.layer_ids.len() {
+                if m.inputs[1].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} mul gate ({:?}, {:?}, {}) input 1 layer out of range",
                         i, m.inputs[0], m.inputs[1], m.output
@@ -427,7 +427,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                 }
             }
             for a in seg.gate_adds.iter() {
-                if a.inputs[0].layer() >= self.layer_ids.len() {
+                if a.inputs[0].layer() >= seg.num_inputs.len() {
                     return Err(Error::InternalError(format!(
                         "segment {} add gate ({:?}, {}) input layer out of range",
                         i, a.inputs[0], a.output
@@ -456,7 +456,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
             }
             for cu in seg.gate_customs.iter() {
                 for input in cu.inputs.iter() {
-                    if input.layer() >= self.layer_ids.len() {
+                    if input.layer() >= seg.num_inputs.len() {
                         return Err(Error::InternalError(format!(
                             "segment {} custom gate {} input layer out of range",
                             i, cu.output
@@ -513,7 +513,7 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                                 "segment {i} subcircuit {sub_id} input offset {x} not aligned to {y}"
                             )));
                         }
-                        if x + y > z {
+                        if y > z || x > z - y {
                             return Err(Error::InternalError(format!(
                                 "segment {i} subcircuit {sub_id} input offset {x} out of range"
                             )));
@@ -525,7 +525,9 @@ impl<C: Config, I: InputType> Circuit<C, I> {
                             i, sub_id, a.output_offset, subc.num_outputs
                         )));
                     }
-                    if a.output_offset + subc.num_outputs > seg.num_outputs {
+                    if subc.num_outputs > seg.num_outputs
+                        || a.output_offset > seg.num_outputs - subc.num_outputs
+                    {
                         return Err(Error::InternalError(format!(
                             "segment {} subcircuit {} output offset {} out of range",
                             i, sub_id, a.output_offset
-- 
2.43.0


From b10b8c0cfca9bcf013c2e915c93f64a5544fe186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 25/42] fix: reading a program with a damaged term count
 aborted on a huge allocation

---
 expander_compiler/src/circuit/ir/expr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/expr.rs b/expander_compiler/src/circuit/ir/expr.rs
index 7ca0fbe..6e981d9 100644
--- a/expander_compiler/src/circuit/ir/expr.rs
+++ b/expander_compiler/src/circuit/ir/expr.rs
@@ -482,7 +482,8 @@ impl<C: Config> ExpSerde for LinComb<C> {
 
     fn deserialize_from<R: Read>(mut reader: R) -> SerdeResult<Self> {
         let len = usize::deserialize_from(&mut reader)?;
-        let mut terms = Vec::with_capacity(len);
+        // the length is not to be trusted before the terms are there
+        let mut terms = Vec::new();
         for _ in 0..len {
             let var = usize::deserialize_from(&mut reader)?;
             terms.push(LinCombTerm {
-- 
2.43.0


From 27e70bd3bccfe55d6bde6bca0586f7a7ea73cc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 26/42] fix: reading or iterating witnesses without any values
 divided by zero

---
 expander_compiler/src/circuit/layered/witness.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index c8313af..913717f 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -51,6 +51,9 @@ fn pack_block<F: Field, SF: arith::SimdField<Scalar = F>>(
     a: usize,
     b: usize,
 ) -> (Vec<SF>, Vec<SF>) {
+    if a + b == 0 {
+        return (Vec::new(), Vec::new());
+    }
     let pack_size = SF::PACK_SIZE;
     let mut res = Vec::with_capacity(a);
     let mut res2 = Vec::with_capacity(b);
@@ -183,6 +186,10 @@ impl<C: Config> Witness<C> {
         };
         let mut res = Vec::new();
         let a = self.num_inputs_per_witness + self.num_public_inputs_per_witness;
+        if a == 0 {
+            self.values = WitnessValues::Simd(res);
+            return;
+        }
         let pack_size = SIMDField::<C>::PACK_SIZE;
         let num_blocks = (self.num_witnesses + pack_size - 1) / pack_size;
         for i in 0..num_blocks {
-- 
2.43.0


From 55f8ab2c58678b620a17288d587cae8948e0f746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:43 +0000
Subject: [PATCH 27/42] fix: reading a witness with damaged sizes overflowed or
 aborted on a huge allocation

---
 expander_compiler/src/circuit/layered/witness.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/expander_compiler/src/circuit/layered/witness.rs b/expander_compiler/src/circuit/layered/witness.rs
index 913717f..fb5efc2 100644
--- a/expander_compiler/src/circuit/layered/witness.rs
+++ b/expander_compiler/src/circuit/layered/witness.rs
@@ -312,10 +312,15 @@ impl<C: Config> ExpSerde for Witness<C> {
                 "invalid modulus",
             ))?;
         }
-        let mut values = Vec::with_capacity(
-            num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness),
-        );
-        for _ in 0..num_witnesses * (num_inputs_per_witness + num_public_inputs_per_witness) {
+        let num_values = num_inputs_per_witness
+            .checked_add(num_public_inputs_per_witness)
+            .and_then(|n| n.checked_mul(num_witnesses))
+            .ok_or_else(|| {
+                std::io::Error::new(std::io::ErrorKind::InvalidData, "invalid witness size")
+            })?;
+        // the sizes are not to be trusted before the values are there
+        let mut values = Vec::new();
+        for _ in 0..num_values {
             values.push(CircuitField::<C>::deserialize_from(&mut reader)?);
         }
         let mut res = Self {
-- 
2.43.0


From df6f2b039b01a00ad3dbe5dbe77423d3d5eb1026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 28/42] fix: solving several witnesses panicked where solving
 one returns an error (custom gate in the solver)

---
 expander_compiler/src/circuit/ir/hint_normalized/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
index 012a3dd..a9ae41a 100644
--- a/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
+++ b/expander_compiler/src/circuit/ir/hint_normalized/mod.rs
@@ -624,7 +624,9 @@ impl<C: Config> RootCircuit<C> {
                     )?;
                 }
                 Instruction::CustomGate { .. } => {
-                    panic!("CustomGate currently unsupported");
+                    return Err(Error::UserError(
+                        "CustomGate currently unsupported".to_string(),
+                    ));
                 }
             }
         }
-- 
2.43.0


From 85cc7ff5fa83a12f6569adfb91e77f7ff4ad61f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 29/42] fix: range proofs accepted values just below the
 modulus when the bits did not fill the top chunk

---
 circuit-std-rs/src/logup.rs | 55 ++++++++++++-------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index d99b8b7..70fcb4d 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -397,33 +397,15 @@ impl LogUpRangeProofTable {
             self.rangeproof_onechunk(builder, a, n);
             return;
         }
-        //add a shift value
-        let mut n = n;
-        let mut new_a = a;
+        //the top chunk may have fewer than rangeproof_bits bits
         let rem = n % self.rangeproof_bits;
-        if rem != 0 {
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-
-            let mut mul_factor: u128 = 1;
-            mul_factor <<= n;
-            let mul_factor_u256 = U256::new(mul_factor);
-            let mul_factor_var = CircuitField::<C>::from_u256(mul_factor_u256);
-            let mul_factor = builder.constant(mul_factor_var);
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
-            n += shift;
-        }
+        let nb_chunks = (n + self.rangeproof_bits - 1) / self.rangeproof_bits;
         let hint_input = vec![
-            builder.constant(n as u32),
+            builder.constant((nb_chunks * self.rangeproof_bits) as u32),
             builder.constant(self.rangeproof_bits as u32),
-            new_a,
+            a,
         ];
-        let witnesses = builder.new_hint(
-            "myhint.rangeproofhint",
-            &hint_input,
-            n / self.rangeproof_bits,
-        );
+        let witnesses = builder.new_hint("myhint.rangeproofhint", &hint_input, nb_chunks);
         let mut sum = witnesses[0];
         for (i, witness) in witnesses.iter().enumerate().skip(1) {
             let constant = 1u128 << (self.rangeproof_bits * i);
@@ -433,9 +415,13 @@ impl LogUpRangeProofTable {
             let mul = builder.mul(witness, constant);
             sum = builder.add(sum, mul);
         }
-        builder.assert_is_equal(sum, new_a);
-        for witness in witnesses.iter().take(n / self.rangeproof_bits) {
-            self.query_range(*witness);
+        builder.assert_is_equal(sum, a);
+        for (i, witness) in witnesses.iter().enumerate() {
+            if i + 1 == nb_chunks && rem != 0 {
+                self.rangeproof_onechunk(builder, *witness, rem);
+            } else {
+                self.query_range(*witness);
+            }
         }
     }
 
@@ -449,18 +435,13 @@ impl LogUpRangeProofTable {
         if n > self.rangeproof_bits {
             panic!("n must be less than self.rangeproof_bits");
         }
-        //add a shift value
-        let mut new_a = a;
-        if n % self.rangeproof_bits != 0 {
-            let rem = n % self.rangeproof_bits;
-            let shift = self.rangeproof_bits - rem;
-            let constant = (1 << shift) - 1;
-            let mut mul_factor = 1;
-            mul_factor <<= n;
-            let a_shift = builder.mul(constant, mul_factor);
-            new_a = builder.add(a, a_shift);
+        self.query_range(a);
+        if n < self.rangeproof_bits {
+            //a + (2^rangeproof_bits - 2^n) must be in the table as well
+            let constant = (1u32 << self.rangeproof_bits) - (1u32 << n);
+            let a_shift = builder.add(a, constant);
+            self.query_range(a_shift);
         }
-        self.query_range(new_a);
     }
 
     pub fn query_range(&mut self, key: Variable) {
-- 
2.43.0


From 352cb7e099eeb77b7448dfa5b3e6d50edee1b269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 30/42] fix: counting hint panicked on a query outside the
 table

---
 circuit-std-rs/src/logup.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index 70fcb4d..e9b1456 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -489,8 +489,11 @@ impl LogUpRangeProofTable {
 pub fn query_count_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Result<(), Error> {
     let mut count = vec![0; outputs.len()];
     for input in inputs {
-        let query_id = input.to_u256().as_usize();
-        count[query_id] += 1;
+        let query_id = input.to_u256();
+        if query_id >= U256::new(count.len() as u128) {
+            return Err(Error::UserError("query not in the table".to_string()));
+        }
+        count[query_id.as_usize()] += 1;
     }
     for i in 0..outputs.len() {
         outputs[i] = F::from(count[i] as u32);
-- 
2.43.0


From 8371fd5138ad23ebfaf933ea033d7bf5f88d6f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 31/42] fix: lookup counting hint confused keys that agree in
 their low 32 bits

---
 circuit-std-rs/src/logup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/circuit-std-rs/src/logup.rs b/circuit-std-rs/src/logup.rs
index e9b1456..457df37 100644
--- a/circuit-std-rs/src/logup.rs
+++ b/circuit-std-rs/src/logup.rs
@@ -508,14 +508,14 @@ pub fn query_count_by_key_hint<F: Field>(inputs: &[F], outputs: &mut [F]) -> Res
     let table = &inputs[1..=table_size];
     let query_keys = &inputs[(table_size + 1)..];
 
-    let mut table_map: HashMap<u32, usize> = HashMap::new();
+    let mut table_map: HashMap<U256, usize> = HashMap::new();
     for key in query_keys {
-        let key_value = key.to_u256().as_u32();
+        let key_value = key.to_u256();
         *table_map.entry(key_value).or_insert(0) += 1;
     }
 
     for (i, value) in table.iter().enumerate() {
-        let key_value = value.to_u256().as_u32();
+        let key_value = value.to_u256();
         let count = table_map.get(&key_value).copied().unwrap_or(0);
         outputs_u32[i] = count as u32;
     }
-- 
2.43.0


From c1e418c6b97088def836e9d4421eb2751c197396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:55 +0000
Subject: [PATCH 32/42] fix: matrix product circuit took variable 1 for the
 constant 1 and compared dimensions as variables

---
 circuit-std-rs/src/matmul.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/circuit-std-rs/src/matmul.rs b/circuit-std-rs/src/matmul.rs
index 5112332..13eef57 100644
--- a/circuit-std-rs/src/matmul.rs
+++ b/circuit-std-rs/src/matmul.rs
@@ -40,9 +40,9 @@ impl<C: Config> Define<C> for MatMulCircuit {
         let r2 = self.result_mat[0].len();
         let zero = builder.constant(0);
 
-        builder.assert_is_equal(Variable::from(n1), Variable::from(m2));
-        builder.assert_is_equal(Variable::from(r1), Variable::from(m1));
-        builder.assert_is_equal(Variable::from(r2), Variable::from(n2));
+        assert_eq!(n1, m2);
+        assert_eq!(r1, m1);
+        assert_eq!(r2, n2);
 
         let loop_count = if CircuitField::<C>::SIZE == M31::SIZE {
             3
@@ -56,7 +56,7 @@ impl<C: Config> Define<C> for MatMulCircuit {
             let mut challenge = randomness;
 
             // construct the aux matrix = [1, randomness, randomness^2, ..., randomness^（n-1）]
-            aux_mat.push(Variable::from(1));
+            aux_mat.push(builder.constant(1));
             for _ in 0..n2 - 1 {
                 challenge = builder.mul(challenge, randomness);
                 aux_mat.push(challenge);
-- 
2.43.0


From 2c46338a31973bb9f76d038bc6c0349f11f1d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 33/42] fix: GF2 SHA-256 padding underflowed when the message
 fills its last block beyond 447 bits

---
 circuit-std-rs/src/sha256/gf2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/sha256/gf2.rs b/circuit-std-rs/src/sha256/gf2.rs
index 6f78382..5ac1974 100644
--- a/circuit-std-rs/src/sha256/gf2.rs
+++ b/circuit-std-rs/src/sha256/gf2.rs
@@ -43,7 +43,7 @@ impl SHA256GF2 {
         // append a bit '1' first
         self.data.push(api.constant(1));
         // append '0' bits to make the length of data congruent to 448 mod 512
-        let zero_padding_len = 448 - ((data_len + 1) % 512);
+        let zero_padding_len = (448 + 512 - (data_len + 1) % 512) % 512;
         self.data
             .extend((0..zero_padding_len).map(|_| api.constant(0)));
         // append the length of the data in 64 bits
-- 
2.43.0


From 9538885815658e2014104bed5ace4e5b6c256469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:34 +0000
Subject: [PATCH 34/42] fix: comparison of one-limb numbers indexed an empty
 vector

---
 circuit-std-rs/src/sha256/m31_utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/circuit-std-rs/src/sha256/m31_utils.rs b/circuit-std-rs/src/sha256/m31_utils.rs
index 1f5d971..e2353be 100644
--- a/circuit-std-rs/src/sha256/m31_utils.rs
+++ b/circuit-std-rs/src/sha256/m31_utils.rs
@@ -362,6 +362,9 @@ pub fn big_less_than<C: Config, B: RootAPI<C>>(
         let diff = api.sub(a[i], b[i]);
         eq.push(api.is_zero(diff));
     }
+    if k == 1 {
+        return lt[0];
+    }
     let mut ors = vec![Variable::default(); k - 1];
     let mut ands = vec![Variable::default(); k - 1];
     let mut eq_ands = vec![Variable::default(); k - 1];
-- 
2.43.0


From 4864ab0b41975938e5f5248f1ee161c03f889c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 35/42] fix: modular multiplication compared only the four
 lowest of 36 limbs

---
 circuit-std-rs/src/non_native/u2048.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 1b94548..5a2cb06 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -235,7 +235,7 @@ impl U2048Variable {
             );
         }
 
-        for i in 0..4 {
+        for i in 0..2 * N_LIMBS {
             builder.assert_is_equal(left[i], right[i]);
         }
     }
-- 
2.43.0


From d582f4495c1d78439ca0494529209bee1c1a8a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 36/42] fix: modular addition dropped the carry out of the top
 limb of x + y

---
 circuit-std-rs/src/non_native/u2048.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuit-std-rs/src/non_native/u2048.rs b/circuit-std-rs/src/non_native/u2048.rs
index 5a2cb06..c93a115 100644
--- a/circuit-std-rs/src/non_native/u2048.rs
+++ b/circuit-std-rs/src/non_native/u2048.rs
@@ -158,6 +158,8 @@ impl U2048Variable {
             temp_carry = c;
             sum.push(r);
         }
+        // the sum has to fit as well, otherwise its top bit would be lost
+        builder.assert_is_zero(temp_carry);
         let sum = U2048Variable::from_raw(sum.try_into().unwrap());
 
         // Verify carry is boolean
-- 
2.43.0


From 82a8780f675e582bd4d6403b449368b05a9a26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 37/42] fix: map_to_curve1 leaves y free when the first
 candidate is a square

The square of the hinted root was compared with itself in that case, so a
prover could choose any y of the right sign.
---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index bba0ee0..abed807 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -551,7 +551,7 @@ impl G1 {
 
         let res_y_sq = self.curve_f.mul(native, &res_y, &res_y);
 
-        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &res_y_sq);
+        let expected_y_sq = self.curve_f.select(native, is_square, &y1_sq, &y_sq);
 
         self.curve_f
             .assert_is_equal(native, &expected_y_sq, &res_y_sq);
-- 
2.43.0


From 18b84502ee2423f172849e6b5f28e48c42f06b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:05 +0000
Subject: [PATCH 38/42] fix: map_to_curve2 divides by a wrong constant for
 exceptional inputs

For inputs with u = 0 the simplified SWU map divides by Z*A = 240 - 480u;
the second coordinate held a cube root of unity instead, so the result was
not on the curve.
---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
index e6090d2..1ff7aeb 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
@@ -338,7 +338,7 @@ impl G2 {
         let x0_den = self.ext2.mul(native, &a_neg, &num_den_common);
 
         let x1_den = GE2::from_vars(
-            value_of::<C, B, Bls12381Fp>(native, Box::new(240)).limbs, value_of::<C, B, Bls12381Fp>(native, Box::new("4002409555221667392624310435006688643935503118305586438271171395842971157480381377015405980053539358417135540939436".to_string())).limbs,
+            value_of::<C, B, Bls12381Fp>(native, Box::new(240)).limbs, value_of::<C, B, Bls12381Fp>(native, Box::new(-480i32)).limbs,
         );
 
         let exception = self.ext2.is_zero(native, &x0_den);
-- 
2.43.0


From 18f3a124cf5f36ce2320049896896643d3b881e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:56 +0000
Subject: [PATCH 39/42] fix: signs of field elements were taken from
 representations the prover chooses

get_element_sign read the lowest bit of whatever limbs it was given, and
the sign checks of point decompression compared a hinted y that need not
be below the modulus: the prover could add the modulus and flip the sign.
Reduce where needed and assert that the limbs are canonical.
---
 .../src/gnark/emulated/sw_bls12381/g1.rs       |  1 +
 .../src/gnark/emulated/sw_bls12381/g2.rs       |  2 ++
 circuit-std-rs/src/gnark/field.rs              | 18 ++++++++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index abed807..d446fc0 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -241,6 +241,7 @@ impl G1 {
         self.curve_f.assert_is_equal(native, &y_squared, &ysquared);
 
         //if y is lexicographically largest
+        self.curve_f.assert_is_canonical(native, &y);
         let half_fp = BigInt::from_str("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787").unwrap() / 2;
         let half_fp_var = value_of::<C, B, Bls12381Fp>(native, Box::new(half_fp));
         let is_large = big_less_than(
diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
index 1ff7aeb..bd81154 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
@@ -584,6 +584,8 @@ impl G2 {
         self.ext2.assert_isequal(native, &y_squared, &ysquared);
 
         //if y is lexicographically largest
+        self.ext2.curve_f.assert_is_canonical(native, &y.a0);
+        self.ext2.curve_f.assert_is_canonical(native, &y.a1);
         let half_fp = BigInt::from_str("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787").unwrap() / 2;
         let half_fp_var = value_of::<C, B, Bls12381Fp>(native, Box::new(half_fp));
         let is_large_a1 = big_less_than(
diff --git a/circuit-std-rs/src/gnark/field.rs b/circuit-std-rs/src/gnark/field.rs
index 3029da0..17023f3 100644
--- a/circuit-std-rs/src/gnark/field.rs
+++ b/circuit-std-rs/src/gnark/field.rs
@@ -2,6 +2,7 @@ use crate::gnark::element::{new_internal_element, value_of, Element};
 use crate::gnark::emparam::FieldParams;
 use crate::gnark::utils::{hash_to_fp_variable, nb_multiplication_res_limbs, sub_padding};
 use crate::logup::LogUpRangeProofTable;
+use crate::sha256::m31_utils::big_less_than;
 use crate::utils::simple_select;
 use expander_compiler::frontend::{Config, RootAPI, Variable};
 use num_bigint::BigInt;
@@ -125,8 +126,25 @@ impl<T: FieldParams> GField<T> {
         native: &mut B,
         x: &Element<T>,
     ) -> Variable {
+        let x = self.reduce(native, x, false);
+        self.assert_is_canonical(native, &x);
         native.to_binary(x.limbs[0], 30)[0]
     }
+    // asserts that the limbs of x, which must be range checked, stand for a value below the modulus
+    pub fn assert_is_canonical<C: Config, B: RootAPI<C>>(
+        &mut self,
+        native: &mut B,
+        x: &Element<T>,
+    ) {
+        let is_less = big_less_than(
+            native,
+            T::bits_per_limb() as usize,
+            T::nb_limbs() as usize,
+            &x.limbs,
+            &self.n_const.limbs,
+        );
+        native.assert_is_equal(is_less, 1);
+    }
     pub fn select<C: Config, B: RootAPI<C>>(
         &mut self,
         native: &mut B,
-- 
2.43.0


From 765960b65bad3f5461697b5d147f284de6da5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:23 +0000
Subject: [PATCH 40/42] fix: a zero residue witness passed the final
 exponentiation check for any input

With a residue and a scaling factor of zero the relation reads 0 = 0, so a
prover could have every pairing product accepted. Assert that the scaled
input is invertible.
---
 circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs b/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
index 6b6f2c4..797e4b3 100644
--- a/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
+++ b/circuit-std-rs/src/gnark/emulated/field_bls12381/e12.rs
@@ -542,6 +542,8 @@ impl Ext12 {
         let t1 = self.expt(native, &residue_witness);
         let t0 = self.mul(native, &t0, &t1);
         let t1 = self.mul(native, x, &scaling_factor);
+        // neither x nor the scaling factor may vanish, or a zero residue would satisfy any x
+        self.inverse(native, &t1);
         self.assert_isequal(native, &t0, &t1);
     }
 
-- 
2.43.0


From 9c62d722404d2f4d4e744232cf193f1ea9e5f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:23 +0000
Subject: [PATCH 41/42] fix: assert_is_on_g1 compared a point with its own
 negation

The test is -[x^2]phi(P) == P, but the right-hand side was [x^2]phi(P), so
every point of the group other than the identity was turned down.
---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
index fd43b44..1354a23 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/pairing.rs
@@ -472,7 +472,7 @@ impl Pairing {
         let phi_p = self.g1.phi(native, p);
         let p_squared = self.g1.scalar_mul_by_seed_square(native, &phi_p);
         let neg_p_squared = self.curve.neg(native, &p_squared);
-        self.g1.assert_is_equal(native, &neg_p_squared, &p_squared); // Neg returns an inverse of p. It doesn't modify p.);
+        self.g1.assert_is_equal(native, &neg_p_squared, p);
     }
 
     // use p: G2Affine ?
-- 
2.43.0


From 9a9dfc293c1dc0c03b8036856a4b5a43f78fa727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:06 +0000
Subject: [PATCH 42/42] fix: u = 0 could be mapped to (0, 0), which is not on
 the curve

For u = 0 both relations hold with the second candidate, whose y is zero:
the prover could choose it. No point of either curve has y = 0.
---
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs | 4 ++++
 circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
index d446fc0..ebc1ab2 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g1.rs
@@ -562,6 +562,10 @@ impl G1 {
 
         native.assert_is_equal(sgn_in, sgn_y);
 
+        // the curve has no point with y = 0, but for u = 0 the second candidate is (0, 0)
+        let y_zero = self.curve_f.is_zero(native, &res_y);
+        native.assert_is_zero(y_zero);
+
         let out_b0 = self.curve_f.select(native, is_square, &x1, &tv3_div_tv4);
         let out_b1 = res_y.clone();
         G1Affine {
diff --git a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
index bd81154..859c1bf 100644
--- a/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
+++ b/circuit-std-rs/src/gnark/emulated/sw_bls12381/g2.rs
@@ -394,6 +394,10 @@ impl G2 {
 
         native.assert_is_equal(sgn_in, sgn_y);
 
+        // the curve has no point with y = 0, but for u = 0 the second candidate is (0, 0)
+        let y_zero = self.ext2.is_zero(native, &y);
+        native.assert_is_zero(y_zero);
+
         let out_b0 = self.ext2.select(native, is_square, &x1, &x0);
         let out_b1 = y.clone();
         G2AffP {
-- 
2.43.0

