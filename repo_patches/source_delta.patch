From 33c0f8791c6e5afa51eada327f529cb35415a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 01/27] fix: match operators by arity as well as id when
 combining constants

Operator ids are only unique per arity, so e.g. `c - atanh(x)` was taken for
`c - (a - b)` and rewritten to a different function.
---
 dynamic_expressions/src/simplify.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dynamic_expressions/src/simplify.rs b/dynamic_expressions/src/simplify.rs
index 35ef764..fc7c198 100644
--- a/dynamic_expressions/src/simplify.rs
+++ b/dynamic_expressions/src/simplify.rs
@@ -45,7 +45,12 @@ fn is_const<const D: usize>(arena: &[ArenaNode<D>], id: usize) -> Option<u16> {
 
 fn is_op<const D: usize>(arena: &[ArenaNode<D>], id: usize, op_id: u16) -> Option<(u8, [usize; D])> {
     match arena[id].kind {
-        ArenaNodeKind::Op { arity, op, children } if op == op_id => Some((arity, children)),
+        // Operator ids are only unique per arity, and all combined operators are binary.
+        ArenaNodeKind::Op {
+            arity: 2,
+            op,
+            children,
+        } if op == op_id => Some((2, children)),
         _ => None,
     }
 }
-- 
2.43.0


From 48f651838746a48f58e5dbd92687fd35ff18b454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 02/27] fix: let constant arguments contribute nothing to
 derivatives

A partial derivative with respect to an argument that does not vary can be
infinite or NaN (x^2 at negative x, inside of sqrt at 0); multiplying it by the
zero tangent turned the whole derivative into NaN.
---
 dynamic_expressions/src/evaluate.rs | 37 +++++++++++++++++++----------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/dynamic_expressions/src/evaluate.rs b/dynamic_expressions/src/evaluate.rs
index 4e53990..15e2c86 100644
--- a/dynamic_expressions/src/evaluate.rs
+++ b/dynamic_expressions/src/evaluate.rs
@@ -378,6 +378,17 @@ pub mod kernels {
         }
     }
 
+    /// One term of the chain rule. An argument that does not vary contributes nothing, even where the
+    /// partial derivative with respect to it is not finite (e.g. `x^y` at negative `x`).
+    #[inline]
+    fn chain<T: Float>(partial: T, tangent: T) -> T {
+        if tangent.is_zero() {
+            T::zero()
+        } else {
+            partial * tangent
+        }
+    }
+
     #[inline]
     fn grad_unary_loop<T: Float, F, const A: usize>(out: &mut [T], x: ArgView<'_, T>, dx: ArgView<'_, T>, partial: F)
     where
@@ -388,13 +399,13 @@ pub mod kernels {
             (ArgView::Slice(x_s), ArgView::Slice(dx_s)) => {
                 for ((outg, &xv), &dxv) in out.iter_mut().zip_eq(x_s).zip_eq(dx_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dxv;
+                    *outg = chain(partial(&vals, 0), dxv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(dx_c)) => {
                 for (outg, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals1(xv);
-                    *outg = partial(&vals, 0) * dx_c;
+                    *outg = chain(partial(&vals, 0), dx_c);
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(dx_c)) => {
@@ -422,58 +433,58 @@ pub mod kernels {
                 let data = (x_s.iter().zip_eq(y_s)).zip_eq(dx_s.iter().zip_eq(dy_s));
                 for (outv, ((&xv, &yv), (&dxv, &dyv))) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dyv;
+                    *outv = chain(partial(&vals, 0), dxv) + chain(partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dx_s);
                 for (outv, ((&xv, &yv), &dxv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain(partial(&vals, 0), dxv) + chain(partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 let data = x_s.iter().zip_eq(y_s).zip_eq(dy_s);
                 for (outv, ((&xv, &yv), &dyv)) in out.iter_mut().zip_eq(data) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain(partial(&vals, 0), dx_c) + chain(partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &yv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(y_s)) {
                     let vals = vals2(xv, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain(partial(&vals, 0), dx_c) + chain(partial(&vals, 1), dy_c);
                 }
             }
 
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Slice(dx_s), ArgView::Const(dy_c)) => {
                 for (outv, (&xv, &dxv)) in out.iter_mut().zip_eq(x_s.iter().zip_eq(dx_s)) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dxv + partial(&vals, 1) * dy_c;
+                    *outv = chain(partial(&vals, 0), dxv) + chain(partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Slice(x_s), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &xv) in out.iter_mut().zip_eq(x_s) {
                     let vals = vals2(xv, y_c);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain(partial(&vals, 0), dx_c) + chain(partial(&vals, 1), dy_c);
                 }
             }
 
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Slice(dy_s)) => {
                 for (outv, (&yv, &dyv)) in out.iter_mut().zip_eq(y_s.iter().zip_eq(dy_s)) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dyv;
+                    *outv = chain(partial(&vals, 0), dx_c) + chain(partial(&vals, 1), dyv);
                 }
             }
             (ArgView::Const(x_c), ArgView::Slice(y_s), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 for (outv, &yv) in out.iter_mut().zip_eq(y_s) {
                     let vals = vals2(x_c, yv);
-                    *outv = partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c;
+                    *outv = chain(partial(&vals, 0), dx_c) + chain(partial(&vals, 1), dy_c);
                 }
             }
             (ArgView::Const(x_c), ArgView::Const(y_c), ArgView::Const(dx_c), ArgView::Const(dy_c)) => {
                 let vals = vals2(x_c, y_c);
-                out.fill(partial(&vals, 0) * dx_c + partial(&vals, 1) * dy_c);
+                out.fill(chain(partial(&vals, 0), dx_c) + chain(partial(&vals, 1), dy_c));
             }
             _ => unreachable!("malformed expression"),
         }
@@ -627,7 +638,7 @@ pub mod kernels {
 
                 let mut dv_out = T::zero();
                 for (j, dvj) in dvals.iter().copied().enumerate() {
-                    dv_out += Op::partial(&vals, j) * dvj;
+                    dv_out += chain(Op::partial(&vals, j), dvj);
                 }
                 *outd = dv_out;
 
@@ -717,7 +728,7 @@ pub mod kernels {
                     }
                     let mut g = T::zero();
                     for (j, ag) in ctx.arg_grads.iter().copied().enumerate() {
-                        g += Op::partial(&vals, j) * grad_at(ag, dir, row, ctx.n_rows);
+                        g += chain(Op::partial(&vals, j), grad_at(ag, dir, row, ctx.n_rows));
                     }
                     *outg = g;
                 }
-- 
2.43.0


From c383470e10ca43fb568deabe80459c257fef339d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 03/27] fix: orchestrate the parallel search from the calling
 thread

---
 symbolic_regression/src/search_utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index f819038..5eedd61 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -206,7 +206,9 @@ where
         order_rng,
     };
 
-    rayon::scope(|scope| {
+    // Orchestrate from the calling thread: `rayon::scope` would run (and block) this closure on a
+    // pool worker, which leaves no thread for the tasks themselves in a single-threaded pool.
+    rayon::in_place_scope(|scope| {
         run_scoped_search(scope, &mut state);
     });
     state.progress.finish();
-- 
2.43.0


From 5e895a16a506a56dded9b5dec024c3c137dd25a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 04/27] fix: propagate a panic of a search task instead of
 waiting forever

---
 symbolic_regression/src/search_utils.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 5eedd61..204c0a8 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -517,7 +517,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     let full_dataset = state.full_dataset;
     let options = state.options;
 
-    let (result_tx, result_rx) = std::sync::mpsc::channel::<SearchTaskResult<T, Ops, D>>();
+    let (result_tx, result_rx) = std::sync::mpsc::channel::<std::thread::Result<SearchTaskResult<T, Ops, D>>>();
 
     for _iter in 0..options.niterations {
         let mut task_order: Vec<usize> = (0..state.pools.pops.len()).collect();
@@ -542,13 +542,20 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
 
                 let result_tx = result_tx.clone();
                 scope.spawn(move |_| {
-                    let res = execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st);
+                    // A panicking task (e.g. in a user-defined operator) must still report back: the
+                    // orchestrating thread waits for one result per task.
+                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
+                        execute_task(full_dataset, options, pop_idx, curmaxsize, stats_snapshot, st)
+                    }));
                     let _ = result_tx.send(res);
                 });
                 in_flight += 1;
             }
 
-            let res = result_rx.recv().expect("worker result channel closed early");
+            let res = result_rx
+                .recv()
+                .expect("worker result channel closed early")
+                .unwrap_or_else(|payload| std::panic::resume_unwind(payload));
             in_flight -= 1;
             apply_task_result(
                 options,
-- 
2.43.0


From 2d34c4c2a2f8f8739726f61c2ebf72453af6c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 05/27] fix: keep running pool tasks while a search waits
 inside the pool

---
 symbolic_regression/src/search_utils.rs | 31 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 204c0a8..9f89088 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -179,7 +179,7 @@ where
 
     let pool_threads = rayon::current_num_threads();
     // If we're already running inside Rayon, reserve the current worker thread for orchestration.
-    // (Blocking it on `result_rx.recv()` would otherwise reduce the pool capacity by one.)
+    // (It still runs tasks while it waits for results, see `recv_task_result`.)
     let in_rayon_pool = rayon::current_thread_index().is_some();
     let usable_threads = if in_rayon_pool {
         pool_threads.saturating_sub(1)
@@ -187,11 +187,6 @@ where
         pool_threads
     };
 
-    assert!(
-        usable_threads > 0,
-        "equation_search_parallel requires at least 2 Rayon threads when called from inside the Rayon pool"
-    );
-
     let n_workers = usable_threads.min(pools.pops.len()).max(1);
 
     let mut state = EquationSearchState {
@@ -506,6 +501,26 @@ fn apply_task_result<T, Ops, const D: usize>(
     progress.on_cycle_complete(hall, pools.total_evals, cycles_remaining);
 }
 
+/// Waits for the next task result. On a Rayon worker thread this runs pending tasks of the pool
+/// instead of blocking it: the other workers may all be waiting like this one (e.g. when several
+/// searches run concurrently in one pool).
+fn recv_task_result<R>(result_rx: &std::sync::mpsc::Receiver<R>) -> R {
+    use std::sync::mpsc::RecvTimeoutError;
+
+    loop {
+        let timeout = match rayon::yield_now() {
+            None => return result_rx.recv().expect("worker result channel closed early"),
+            Some(rayon::Yield::Executed) => std::time::Duration::ZERO,
+            Some(rayon::Yield::Idle) => std::time::Duration::from_millis(1),
+        };
+        match result_rx.recv_timeout(timeout) {
+            Ok(res) => return res,
+            Err(RecvTimeoutError::Timeout) => {}
+            Err(RecvTimeoutError::Disconnected) => panic!("worker result channel closed early"),
+        }
+    }
+}
+
 fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
     scope: &rayon::Scope<'scope>,
     state: &mut EquationSearchState<'env, T, Ops, D>,
@@ -552,9 +567,7 @@ fn run_scoped_search<'scope, 'env, T, Ops, const D: usize>(
                 in_flight += 1;
             }
 
-            let res = result_rx
-                .recv()
-                .expect("worker result channel closed early")
+            let res = recv_task_result(&result_rx)
                 .unwrap_or_else(|payload| std::panic::resume_unwind(payload));
             in_flight -= 1;
             apply_task_result(
-- 
2.43.0


From 6ce4b9d6fe91cc63aa2df0c93046a416c3bb22ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 06/27] fix: size the evaluation buffer for the batch being
 evaluated

---
 symbolic_regression/src/single_iteration.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index dedb956..cd166cc 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -40,6 +40,7 @@ where
     let mut num_evals = 0.0;
     let mut best_seen = HallOfFame::new(ctx.options.maxsize);
     best_seen.update_from_members(&pop.members, ctx.options, ctx.curmaxsize);
+    ctx.evaluator.ensure_n_rows(eval_dataset.n_rows);
 
     for i in 0..ncycles {
         let temperature = if ncycles <= 1 {
-- 
2.43.0


From deb31cb51bfc3b9d9987372878851c89fb46c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 07/27] fix: report losses on the full dataset for members
 found while batching

---
 symbolic_regression/src/search_utils.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 9f89088..000f227 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -414,7 +414,20 @@ where
 {
     let (evals1, best_seen) =
         pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, eval_dataset| {
-            single_iteration::s_r_cycle(pop, ctx, eval_dataset)
+            let (mut evals, mut best_seen) = single_iteration::s_r_cycle(pop, ctx, eval_dataset);
+            if options.batching {
+                // The members seen so far carry losses on the batch: score them on the full dataset.
+                let mut rescored = HallOfFame::new(options.maxsize);
+                ctx.evaluator.ensure_n_rows(full_dataset.n_rows);
+                for m in best_seen.members() {
+                    let mut m = m.clone();
+                    let _ = m.evaluate(&full_dataset, options, ctx.evaluator);
+                    evals += 1.0;
+                    rescored.consider(&m, options, curmaxsize);
+                }
+                best_seen = rescored;
+            }
+            (evals, best_seen)
         });
 
     let evals2 = pop_state.run_iteration_phase(full_dataset, options, curmaxsize, &stats, |pop, ctx, opt_dataset| {
-- 
2.43.0


From c8a295bf1fec2787ea7c9c1f972bcde0e0640ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:19 +0000
Subject: [PATCH 08/27] fix: track the best member among all members seen by
 the search

---
 symbolic_regression/src/search_utils.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 000f227..e79926a 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -471,13 +471,13 @@ fn apply_task_result<T, Ops, const D: usize>(
     stats.update_from_population(st.pop.members.iter().map(|m| m.complexity));
     stats.move_window();
 
-    for m in res.best_seen.members() {
+    // The initial best may violate the constraints if no initial member satisfied them.
+    let mut best_is_valid = check_constraints(&pools.best.expr, options, options.maxsize);
+    for m in res.best_seen.members().chain(&st.pop.members) {
         hall.consider(m, options, curmaxsize);
-    }
-    for m in &st.pop.members {
-        hall.consider(m, options, curmaxsize);
-        if check_constraints(&m.expr, options, curmaxsize) && m.loss < pools.best.loss {
+        if (m.loss < pools.best.loss || !best_is_valid) && check_constraints(&m.expr, options, curmaxsize) {
             pools.best = m.clone();
+            best_is_valid = true;
         }
     }
 
-- 
2.43.0


From c5ccdb0af0105aee4ddd0899f1e6fdaebe69abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 09/27] fix: keep the log-cosh loss finite for large residuals

---
 symbolic_regression/src/loss_functions.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/loss_functions.rs b/symbolic_regression/src/loss_functions.rs
index bcde517..e762137 100644
--- a/symbolic_regression/src/loss_functions.rs
+++ b/symbolic_regression/src/loss_functions.rs
@@ -247,8 +247,13 @@ pub struct LogCoshLoss;
 
 impl<T: Float> PointwiseLoss<T> for LogCoshLoss {
     fn point_loss(&self, yhat: T, y: T) -> T {
-        let r = yhat - y;
-        r.cosh().ln()
+        let ar = (yhat - y).abs();
+        if ar > T::from(20.0).unwrap() {
+            // log(cosh(r)) = |r| - log(2) + log(1 + exp(-2|r|)), and cosh(r) overflows for large |r|.
+            ar - T::from(core::f64::consts::LN_2).unwrap()
+        } else {
+            ar.cosh().ln()
+        }
     }
 
     fn point_dloss_dyhat(&self, yhat: T, y: T) -> T {
-- 
2.43.0


From 083e0820aab921986ccf9dd073c6645d0399d3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:48 +0000
Subject: [PATCH 10/27] fix: accept targets and weights in any memory layout

---
 symbolic_regression/src/dataset.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symbolic_regression/src/dataset.rs b/symbolic_regression/src/dataset.rs
index 527c57f..8157cd3 100644
--- a/symbolic_regression/src/dataset.rs
+++ b/symbolic_regression/src/dataset.rs
@@ -47,6 +47,8 @@ impl<T: Float> Dataset<T> {
         avg_y: Option<T>,
     ) -> Self {
         let x = x.as_standard_layout().to_owned();
+        let y = y.as_standard_layout().to_owned();
+        let weights = weights.map(|w| w.as_standard_layout().to_owned());
         let (n_features, n_rows) = x.dim();
         assert_eq!(y.len(), n_rows);
         if let Some(ref w) = weights {
-- 
2.43.0


From 65617a7c199d892962408047e76136a984adfc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 11/27] fix: give simplified and re-optimized members a new id

---
 symbolic_regression/src/single_iteration.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/single_iteration.rs b/symbolic_regression/src/single_iteration.rs
index cd166cc..b3928e0 100644
--- a/symbolic_regression/src/single_iteration.rs
+++ b/symbolic_regression/src/single_iteration.rs
@@ -8,7 +8,7 @@ use crate::constant_optimization::{OptimizeConstantsCtx, optimize_constants};
 use crate::dataset::TaggedDataset;
 use crate::hall_of_fame::HallOfFame;
 use crate::options::Options;
-use crate::pop_member::Evaluator;
+use crate::pop_member::{Evaluator, MemberId};
 use crate::population::Population;
 use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
 
@@ -85,6 +85,10 @@ where
             let changed = dynamic_expressions::simplify_in_place(&mut m.expr, &ctx.evaluator.eval_opts);
             if changed {
                 m.rebuild_plan(ctx.full_dataset.n_features);
+                // The previous equation may be kept elsewhere (e.g. in a hall of fame) under its id.
+                m.parent = Some(m.id);
+                m.id = MemberId(*ctx.next_id);
+                *ctx.next_id += 1;
             }
         }
     }
@@ -105,7 +109,11 @@ where
                         next_birth: ctx.next_birth,
                     },
                 );
-                let _ = improved;
+                if improved {
+                    m.parent = Some(m.id);
+                    m.id = MemberId(*ctx.next_id);
+                    *ctx.next_id += 1;
+                }
                 num_evals += evals;
             }
         }
-- 
2.43.0


From 819a15ae2a2bd2a206b2c49fd40833e7bacd96e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 12/27] fix: keep at least one training row when splitting off
 validation data

---
 web/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index d8f6467..5e76b3a 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -651,7 +651,7 @@ fn make_split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> Was
     }
 
     let vf = validation_fraction.clamp(0.0, 0.9);
-    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows);
+    let n_val = ((vf * (n_rows as f64)).round() as usize).min(n_rows - 1); // never empty the training set
     if n_val == 0 {
         return WasmSplitIndices {
             train: (0..n_rows).collect(),
-- 
2.43.0


From 8547828b0bf49c68387299c2c7be155f17050c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 13/27] fix: center the unweighted correlation on the
 unweighted mean

---
 web/wasm/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 5e76b3a..767bae8 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -507,6 +507,7 @@ fn r2_and_corr(yhat: &[f64], y: &[f64], w: Option<&[f64]>) -> (f64, f64) {
     let r2 = if sst == 0.0 { 0.0 } else { 1.0 - (sse / sst) };
 
     // Unweighted Pearson correlation.
+    let y_mean = y.iter().sum::<f64>() / (y.len() as f64);
     let yh_mean = yhat.iter().sum::<f64>() / (yhat.len() as f64);
     let mut cov = 0.0;
     let mut vy = 0.0;
-- 
2.43.0


From 8f8bb1962dadce28d7b5aabd371e279b065d9e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:50 +0000
Subject: [PATCH 14/27] fix: keep the tournament ranking ordered when a member
 fits perfectly

---
 symbolic_regression/src/selection.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/selection.rs b/symbolic_regression/src/selection.rs
index 8d79c46..b7b2a2b 100644
--- a/symbolic_regression/src/selection.rs
+++ b/symbolic_regression/src/selection.rs
@@ -44,7 +44,8 @@ pub fn best_of_sample<T: Float, Ops, const D: usize>(
     for idx in indices {
         let m = &pop.members[idx];
         let mut adjusted = m.cost.to_f64().unwrap_or(f64::INFINITY);
-        if options.use_frequency_in_tournament {
+        // A cost of zero stays zero (the factor can overflow, and 0 * inf is NaN).
+        if options.use_frequency_in_tournament && adjusted != 0.0 {
             let size = m.complexity;
             let freq = if size > 0 && size <= options.maxsize {
                 stats.normalized_frequencies[size - 1]
-- 
2.43.0


From c85e68dacbf166dbe68f87efe5d72d2645261c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 15/27] fix: skip the mutation when none applies to a member

---
 symbolic_regression/src/mutate.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index 0fa1a8e..05cb9ed 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -134,6 +134,10 @@ pub fn sample_mutation(rng: &mut Rng, weights: &MutationWeights) -> MutationChoi
         (MutationChoice::Optimize, weights.optimize),
     ];
     let w: Vec<f64> = choices.iter().map(|(_, v)| *v).collect();
+    // Conditioning on the member can leave no mutation that applies to it.
+    if w.iter().all(|&v| v == 0.0) {
+        return MutationChoice::DoNothing;
+    }
     let idx = weighted_index(rng, &w);
     choices[idx].0
 }
-- 
2.43.0


From 255c4b30d4054b0f843876d0bd42ac47c32de7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 16/27] Add read-only monitor access to internals under
 cfg(sr_verif)

---
 symbolic_regression/src/lib.rs          |  6 +++
 symbolic_regression/src/search_utils.rs | 20 ++++++++
 symbolic_regression/src/verif.rs        | 22 +++++++++
 web/wasm/src/lib.rs                     | 61 +++++++++++++++++++++++++
 4 files changed, 109 insertions(+)
 create mode 100644 symbolic_regression/src/verif.rs

diff --git a/symbolic_regression/src/lib.rs b/symbolic_regression/src/lib.rs
index 0eaab57..00ef3af 100644
--- a/symbolic_regression/src/lib.rs
+++ b/symbolic_regression/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `sr_verif` is set through RUSTFLAGS only
+
 #[cfg(all(target_arch = "wasm32", not(target_feature = "atomics")))]
 compile_error!(
     "symbolic_regression requires wasm threads/atomics when targeting wasm32. \
@@ -32,6 +34,10 @@ pub(crate) mod warmup;
 #[cfg(feature = "bench")]
 pub mod bench;
 
+#[cfg(sr_verif)]
+#[doc(hidden)]
+pub mod verif;
+
 pub use check_constraints::{NestedConstraints, OpConstraints};
 pub use complexity::compute_complexity;
 pub use dataset::{Dataset, TaggedDataset};
diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index e79926a..0de158d 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -400,6 +400,26 @@ where
     }
 }
 
+#[cfg(sr_verif)]
+impl<T: Float + AddAssign, Ops, const D: usize> SearchEngine<T, Ops, D> {
+    pub fn verif_n_populations(&self) -> usize {
+        self.pools.pops.len()
+    }
+
+    pub fn verif_population(&self, i: usize) -> Option<&Population<T, Ops, D>> {
+        self.pools.pops[i].as_ref().map(|st| &st.pop)
+    }
+
+    /// The next member id and birth stamp of a population.
+    pub fn verif_counters(&self, i: usize) -> Option<(u64, u64)> {
+        self.pools.pops[i].as_ref().map(|st| (st.next_id, st.next_birth))
+    }
+
+    pub fn verif_stats(&self) -> &RunningSearchStatistics {
+        &self.stats
+    }
+}
+
 fn execute_task<T, Ops, const D: usize>(
     full_dataset: TaggedDataset<'_, T>,
     options: &Options<T, D>,
diff --git a/symbolic_regression/src/verif.rs b/symbolic_regression/src/verif.rs
new file mode 100644
index 0000000..8e51e8b
--- /dev/null
+++ b/symbolic_regression/src/verif.rs
@@ -0,0 +1,22 @@
+//! Read access to internals for external monitors, compiled only with `--cfg sr_verif`.
+
+use dynamic_expressions::expression::PostfixExpr;
+use fastrand::Rng;
+use num_traits::Float;
+
+pub use crate::adaptive_parsimony::RunningSearchStatistics;
+pub use crate::migration::{best_sub_pop, migrate_into};
+pub use crate::mutate::{CrossoverCtx, crossover_generation};
+pub use crate::pop_member::Evaluator;
+pub use crate::population::Population;
+pub use crate::regularized_evolution::{RegEvolCtx, reg_evol_cycle};
+pub use crate::single_iteration::{IterationCtx, optimize_and_simplify_population, s_r_cycle};
+pub use crate::warmup::get_cur_maxsize;
+
+pub fn crossover_trees<T: Float, Ops, const D: usize>(
+    rng: &mut Rng,
+    a: &PostfixExpr<T, Ops, D>,
+    b: &PostfixExpr<T, Ops, D>,
+) -> (PostfixExpr<T, Ops, D>, PostfixExpr<T, Ops, D>) {
+    crate::mutation_functions::crossover_trees(rng, a, b)
+}
diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index 767bae8..fea8e47 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `sr_verif` is set through RUSTFLAGS only
+
 use std::io::Cursor;
 
 use csv::ReaderBuilder;
@@ -716,6 +718,65 @@ fn select_rows(
     Ok((xo, yo, wo))
 }
 
+/// Access to internals for external monitors, compiled only with `--cfg sr_verif`.
+#[cfg(sr_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use super::*;
+
+    pub type Engine = SearchEngine<f64, BuiltinOpsF64, 3>;
+    pub type Member = symbolic_regression::PopMember<f64, BuiltinOpsF64, 3>;
+
+    pub fn parse_csv(csv_text: &str, has_headers: bool) -> Result<(Vec<String>, Vec<Vec<f64>>), String> {
+        parse_csv_to_rows(csv_text, has_headers)
+    }
+
+    pub fn full_dataset(
+        headers: &[String],
+        rows: &[Vec<f64>],
+        opts: &WasmSearchOptions,
+    ) -> Result<(Dataset<f64>, Vec<String>, Option<Array1<f64>>), String> {
+        build_full_dataset(headers, rows, opts)
+    }
+
+    pub fn split_indices(n_rows: usize, validation_fraction: f64, seed: u64) -> WasmSplitIndices {
+        make_split_indices(n_rows, validation_fraction, seed)
+    }
+
+    pub fn split(
+        dataset_all: &Dataset<f64>,
+        weights_all: Option<&Array1<f64>>,
+        variable_names: &[String],
+        split: &WasmSplitIndices,
+    ) -> Result<(Dataset<f64>, Option<Dataset<f64>>), String> {
+        split_train_val(dataset_all, weights_all, variable_names, split)
+    }
+
+    pub fn metrics(yhat: &[f64], dataset: &Dataset<f64>) -> WasmMetrics {
+        compute_metrics(yhat, dataset)
+    }
+
+    pub fn options(opts: &WasmSearchOptions, operators: Operators<3>) -> Option<Options<f64, 3>> {
+        options_from_wasm(opts, operators).ok()
+    }
+
+    pub fn search_snapshot(engine: &Engine, pareto_k: usize) -> SearchSnapshot {
+        snapshot(engine, pareto_k)
+    }
+
+    pub fn summary(engine: &Engine, m: &Member) -> EquationSummary {
+        summary_from_member(engine, m)
+    }
+
+    pub fn find_member(engine: &Engine, member_id: u64) -> Option<Member> {
+        find_member_by_id(engine, member_id)
+    }
+
+    pub fn eval_member(dataset: &Dataset<f64>, m: &Member) -> Option<Vec<f64>> {
+        eval_member_on_dataset(dataset, m).ok()
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::WasmSearchOptions;
-- 
2.43.0


From 403651363d19cc6809185171dc95322f6c767796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 17/27] Expose scoring helpers to monitors under cfg(sr_verif)

---
 symbolic_regression/src/verif.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/symbolic_regression/src/verif.rs b/symbolic_regression/src/verif.rs
index 8e51e8b..81e72b9 100644
--- a/symbolic_regression/src/verif.rs
+++ b/symbolic_regression/src/verif.rs
@@ -5,6 +5,7 @@ use fastrand::Rng;
 use num_traits::Float;
 
 pub use crate::adaptive_parsimony::RunningSearchStatistics;
+pub use crate::loss_functions::{baseline_loss_from_zero_expression, loss_to_cost};
 pub use crate::migration::{best_sub_pop, migrate_into};
 pub use crate::mutate::{CrossoverCtx, crossover_generation};
 pub use crate::pop_member::Evaluator;
-- 
2.43.0


From 44d151916737c8ff5731ce9f89966d88261d21d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 18/27] fix: provide the n-ary builder method that sr_ops!
 calls

---
 symbolic_regression/src/operators.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolic_regression/src/operators.rs b/symbolic_regression/src/operators.rs
index d33558a..2b4860f 100644
--- a/symbolic_regression/src/operators.rs
+++ b/symbolic_regression/src/operators.rs
@@ -312,6 +312,16 @@ impl<Ops, const D: usize> OperatorsBuilder<Ops, D> {
         self.push_op::<Op>()
     }
 
+    pub fn nary<const A: usize, Op>(self) -> Self
+    where
+        Ops: HasOp<Op> + OperatorSet,
+        Op: dynamic_expressions::OpTag,
+    {
+        let op = <Ops as HasOp<Op>>::op_id();
+        assert_eq!(op.arity as usize, A, "nary() requires arity={A} (got {})", op.arity);
+        self.push_op::<Op>()
+    }
+
     fn push_op<Op>(mut self) -> Self
     where
         Ops: HasOp<Op> + OperatorSet,
-- 
2.43.0


From 16745597ab3fbfafee9104bdfb0171e65fc5ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:32 +0000
Subject: [PATCH 19/27] fix: keep shrinking the statistics window after a tiny
 step

---
 symbolic_regression/src/adaptive_parsimony.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/adaptive_parsimony.rs b/symbolic_regression/src/adaptive_parsimony.rs
index 9be35d7..ee1ded6 100644
--- a/symbolic_regression/src/adaptive_parsimony.rs
+++ b/symbolic_regression/src/adaptive_parsimony.rs
@@ -68,7 +68,8 @@ impl RunningSearchStatistics {
             let total = amount * num_remaining;
             remaining -= total;
             loops += 1;
-            if loops > max_loops || total < 1e-6 {
+            // A single step can be tiny (a count just above the smallest allowed, by rounding).
+            if loops > max_loops || remaining < 1e-6 {
                 break;
             }
         }
-- 
2.43.0


From b8bd72c37a4d45c100ba292439e0d6a695e1f237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:38 +0000
Subject: [PATCH 20/27] fix: keep the progress of constant optimisation when a
 line search fails or the budget runs out

---
 symbolic_regression/src/optim.rs | 43 ++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/symbolic_regression/src/optim.rs b/symbolic_regression/src/optim.rs
index 79ee624..a634db6 100644
--- a/symbolic_regression/src/optim.rs
+++ b/symbolic_regression/src/optim.rs
@@ -298,7 +298,8 @@ pub(crate) fn bfgs_minimize(
             if v.is_finite() { Some(v) } else { None }
         };
 
-        let (_alpha, _) = backtracking_linesearch(
+        // Without an acceptable step (or out of budget), keep the progress made so far.
+        if backtracking_linesearch(
             &ls,
             LineSearchInput {
                 x: &x,
@@ -309,15 +310,22 @@ pub(crate) fn bfgs_minimize(
             },
             &mut x_ls,
             &mut phi_at,
-        )?;
+        )
+        .is_none()
+        {
+            break;
+        }
 
         x_prev.copy_from_slice(&x);
         g_prev.copy_from_slice(&g);
         x.copy_from_slice(&x_ls);
 
-        fx = obj.fg(&x, &mut g, &mut budget)?;
-        if !fx.is_finite() {
-            break;
+        match obj.fg(&x, &mut g, &mut budget) {
+            Some(v) if v.is_finite() => fx = v,
+            _ => {
+                x.copy_from_slice(&x_prev);
+                break;
+            }
         }
 
         // BFGS update (inverse Hessian):
@@ -384,10 +392,12 @@ pub(crate) fn newton_1d_minimize(
             break;
         }
         let x_vec = [x];
-        let f = obj.fg(&x_vec, &mut g_tmp, &mut budget)?;
+        let Some(f) = obj.fg(&x_vec, &mut g_tmp, &mut budget) else {
+            break;
+        };
         let g = g_tmp[0];
         if !f.is_finite() || !g.is_finite() {
-            return None;
+            break;
         }
         if f < best_f {
             best_f = f;
@@ -401,9 +411,13 @@ pub(crate) fn newton_1d_minimize(
         let eps = f64::EPSILON.sqrt() * (x.abs() + 1.0);
         let x_plus = [x + eps];
         let x_minus = [x - eps];
-        let _ = obj.fg(&x_plus, &mut g_tmp, &mut budget)?;
+        if obj.fg(&x_plus, &mut g_tmp, &mut budget).is_none() {
+            break;
+        }
         let g_plus = g_tmp[0];
-        let _ = obj.fg(&x_minus, &mut g_tmp, &mut budget)?;
+        if obj.fg(&x_minus, &mut g_tmp, &mut budget).is_none() {
+            break;
+        }
         let g_minus = g_tmp[0];
         let h = (g_plus - g_minus) / (2.0 * eps);
         let mut h_mod = h.abs().max(1e-12);
@@ -433,7 +447,8 @@ pub(crate) fn newton_1d_minimize(
         let x_vec = [x];
         let s_vec = [s];
         let mut x_new = [x];
-        let (alpha, _) = backtracking_linesearch(
+        // Without an acceptable step (or out of budget), keep the progress made so far.
+        let Some((alpha, f_new)) = backtracking_linesearch(
             &ls,
             LineSearchInput {
                 x: &x_vec,
@@ -444,8 +459,14 @@ pub(crate) fn newton_1d_minimize(
             },
             &mut x_new,
             &mut phi_at,
-        )?;
+        ) else {
+            break;
+        };
         x += alpha * s;
+        if f_new < best_f {
+            best_f = f_new;
+            best_x = x;
+        }
     }
 
     Some(OptimResult {
-- 
2.43.0


From 1512cf929442bc7c98c284965fa9484634d15029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 21/27] fix: take finite-difference steps of constant
 optimisation in the precision of the data

---
 symbolic_regression/src/constant_optimization.rs | 4 ++++
 symbolic_regression/src/optim.rs                 | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/constant_optimization.rs b/symbolic_regression/src/constant_optimization.rs
index 1e4d310..5396927 100644
--- a/symbolic_regression/src/constant_optimization.rs
+++ b/symbolic_regression/src/constant_optimization.rs
@@ -183,6 +183,10 @@ where
         }
         self.workspace.loss_and_grad::<Ops>(self.plan, self.expr, g_out)
     }
+
+    fn epsilon(&self) -> f64 {
+        T::epsilon().to_f64().unwrap_or(f64::EPSILON)
+    }
 }
 
 pub fn optimize_constants<T: Float + FromPrimitive + ToPrimitive + AddAssign, Ops, const D: usize>(
diff --git a/symbolic_regression/src/optim.rs b/symbolic_regression/src/optim.rs
index a634db6..1ce6214 100644
--- a/symbolic_regression/src/optim.rs
+++ b/symbolic_regression/src/optim.rs
@@ -57,6 +57,11 @@ pub(crate) struct OptimResult {
 pub(crate) trait Objective {
     fn f_only(&mut self, x: &[f64], budget: &mut EvalBudget) -> Option<f64>;
     fn fg(&mut self, x: &[f64], g_out: &mut [f64], budget: &mut EvalBudget) -> Option<f64>;
+
+    /// Machine epsilon of the type in which the objective is computed.
+    fn epsilon(&self) -> f64 {
+        f64::EPSILON
+    }
 }
 
 pub(crate) fn inf_norm(v: &[f64]) -> f64 {
@@ -408,7 +413,7 @@ pub(crate) fn newton_1d_minimize(
         }
 
         // Finite-difference Hessian estimate:
-        let eps = f64::EPSILON.sqrt() * (x.abs() + 1.0);
+        let eps = obj.epsilon().sqrt() * (x.abs() + 1.0);
         let x_plus = [x + eps];
         let x_minus = [x - eps];
         if obj.fg(&x_plus, &mut g_tmp, &mut budget).is_none() {
-- 
2.43.0


From 4722afffd85e93ec3b0493ca050379cc6da6ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 22/27] fix: warm up the size limit without underflow when
 maxsize is below three

---
 symbolic_regression/src/warmup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic_regression/src/warmup.rs b/symbolic_regression/src/warmup.rs
index 1e24daf..2873a69 100644
--- a/symbolic_regression/src/warmup.rs
+++ b/symbolic_regression/src/warmup.rs
@@ -12,7 +12,8 @@ pub fn get_cur_maxsize<T: Float, const D: usize>(
     let in_warmup = fraction_elapsed <= options.warmup_maxsize_by;
 
     if options.warmup_maxsize_by > 0.0 && in_warmup {
-        3 + (((options.maxsize - 3) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
+        let start = options.maxsize.min(3);
+        start + (((options.maxsize - start) as f32) * fraction_elapsed / options.warmup_maxsize_by).floor() as usize
     } else {
         options.maxsize
     }
-- 
2.43.0


From 1e62b03c97e27324dc0cbdcec76fe2638bf076b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:01 +0000
Subject: [PATCH 23/27] fix: derivatives of a power at base zero are finite
 where they exist

---
 dynamic_expressions/src/operator_enum.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index a42f3f2..e838a01 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -473,7 +473,10 @@ pub mod builtin {
             let y = args[1];
             let f = x.powf(y);
             match idx {
+                // x^0 is constant, and 0^y stays zero around any y > 0.
+                0 if y.is_zero() => T::zero(),
                 0 => y * x.powf(y - T::one()),
+                1 if x.is_zero() && y > T::zero() => T::zero(),
                 1 => f * x.ln(),
                 _ => unreachable!(),
             }
-- 
2.43.0


From 0b2d0e3ea4f4ad0033a422839e5c9f3f89f4992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 24/27] fix: count the evaluations of offspring that are not
 finite

---
 symbolic_regression/src/mutate.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symbolic_regression/src/mutate.rs b/symbolic_regression/src/mutate.rs
index 05cb9ed..e9bb5ba 100644
--- a/symbolic_regression/src/mutate.rs
+++ b/symbolic_regression/src/mutate.rs
@@ -366,7 +366,7 @@ where
         baby.complexity = member.complexity;
         baby.loss = member.loss;
         baby.cost = member.cost;
-        return (baby, false, 0.0);
+        return (baby, false, evals);
     }
 
     if return_immediately {
@@ -381,7 +381,7 @@ where
             options.use_baseline,
             dataset.baseline_loss,
         );
-        return (baby, true, 0.0);
+        return (baby, true, evals);
     }
 
     let mut baby = PopMember::from_expr(id, Some(member.id), birth, tree, n_features);
@@ -395,7 +395,7 @@ where
         reject.complexity = member.complexity;
         reject.loss = member.loss;
         reject.cost = member.cost;
-        return (reject, false, 0.0);
+        return (reject, false, evals);
     }
 
     let mut prob = 1.0f64;
-- 
2.43.0


From 3899b6c408be941b7370a8198e754758183cb4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:12 +0000
Subject: [PATCH 25/27] Run the browser bindings without a JavaScript host
 under cfg(sr_verif_host)

---
 web/wasm/src/lib.rs | 73 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 65 insertions(+), 8 deletions(-)

diff --git a/web/wasm/src/lib.rs b/web/wasm/src/lib.rs
index fea8e47..512acf9 100644
--- a/web/wasm/src/lib.rs
+++ b/web/wasm/src/lib.rs
@@ -1,4 +1,4 @@
-#![allow(unexpected_cfgs)] // `sr_verif` is set through RUSTFLAGS only
+#![allow(unexpected_cfgs)] // `sr_verif*` are set through RUSTFLAGS only
 
 use std::io::Cursor;
 
@@ -10,14 +10,18 @@ use dynamic_expressions::{EvalOptions, OpId, OperatorSet, eval_plan_array_into};
 use fastrand::Rng;
 use ndarray::{Array1, Array2};
 use serde::{Deserialize, Serialize};
+#[cfg(not(sr_verif_host))]
 use serde_wasm_bindgen::{from_value, to_value};
 use symbolic_regression::{Dataset, LossKind, Operators, Options, SearchEngine, WasmOptionsShim};
+#[cfg(sr_verif_host)]
+use host::{JsValue, from_value, to_value};
+#[cfg_attr(sr_verif_host, allow(unused_imports))]
 use wasm_bindgen::prelude::*;
 
 type FullDatasetParts = (Dataset<f64>, Vec<String>, Option<Array1<f64>>);
 type SelectedRows = (Array2<f64>, Array1<f64>, Option<Array1<f64>>);
 
-#[cfg(feature = "panic-hook")]
+#[cfg(all(feature = "panic-hook", not(sr_verif_host)))]
 #[wasm_bindgen(start)]
 pub fn start() {
     console_error_panic_hook::set_once();
@@ -42,7 +46,7 @@ pub struct WasmOpInfo {
     pub complexity: u16,
 }
 
-#[wasm_bindgen]
+#[cfg_attr(not(sr_verif_host), wasm_bindgen)]
 pub fn builtin_operator_registry() -> Result<JsValue, JsValue> {
     let mut ops = Vec::new();
     for arity in 1..=BuiltinOpsF64::MAX_ARITY {
@@ -62,13 +66,13 @@ pub fn builtin_operator_registry() -> Result<JsValue, JsValue> {
     to_value(&ops).map_err(|e| JsValue::from_str(&e.to_string()))
 }
 
-#[wasm_bindgen]
+#[cfg_attr(not(sr_verif_host), wasm_bindgen)]
 pub fn default_search_options() -> Result<JsValue, JsValue> {
     let opts = WasmSearchOptions::default();
     to_value(&opts).map_err(|e| JsValue::from_str(&e.to_string()))
 }
 
-#[wasm_bindgen]
+#[cfg_attr(not(sr_verif_host), wasm_bindgen)]
 pub fn default_core_options() -> Result<JsValue, JsValue> {
     to_value(&WasmOptionsShim::default()).map_err(|e| JsValue::from_str(&e.to_string()))
 }
@@ -173,7 +177,7 @@ pub struct WasmSplitIndices {
     pub val: Vec<usize>,
 }
 
-#[wasm_bindgen]
+#[cfg_attr(not(sr_verif_host), wasm_bindgen)]
 pub struct WasmSearch {
     engine: SearchEngine<f64, BuiltinOpsF64, 3>,
     val_dataset: Option<Dataset<f64>>,
@@ -181,9 +185,9 @@ pub struct WasmSearch {
     pareto_k: usize,
 }
 
-#[wasm_bindgen]
+#[cfg_attr(not(sr_verif_host), wasm_bindgen)]
 impl WasmSearch {
-    #[wasm_bindgen(constructor)]
+    #[cfg_attr(not(sr_verif_host), wasm_bindgen(constructor))]
     pub fn new(
         csv_text: String,
         opts: JsValue,
@@ -718,6 +722,59 @@ fn select_rows(
     Ok((xo, yo, wo))
 }
 
+/// Stand-in for the JavaScript host, compiled only with `--cfg sr_verif_host`: the bindings run without a browser.
+#[cfg(sr_verif_host)]
+#[doc(hidden)]
+pub mod host {
+    use std::any::Any;
+    use std::rc::Rc;
+
+    #[derive(Clone, Debug)]
+    pub struct JsValue(Option<Rc<dyn Any>>);
+
+    impl JsValue {
+        pub const NULL: JsValue = JsValue(None);
+        pub const UNDEFINED: JsValue = JsValue(None);
+
+        pub fn new<T: 'static>(v: T) -> Self {
+            Self(Some(Rc::new(v)))
+        }
+
+        #[allow(clippy::should_implement_trait)]
+        pub fn from_str(s: &str) -> Self {
+            Self::new(s.to_string())
+        }
+
+        pub fn get<T: Clone + 'static>(&self) -> Option<T> {
+            self.0.as_ref()?.downcast_ref::<T>().cloned()
+        }
+
+        pub fn as_string(&self) -> Option<String> {
+            self.get()
+        }
+    }
+
+    impl From<&str> for JsValue {
+        fn from(s: &str) -> Self {
+            Self::from_str(s)
+        }
+    }
+
+    impl From<String> for JsValue {
+        fn from(s: String) -> Self {
+            Self::new(s)
+        }
+    }
+
+    pub fn to_value<T: serde::Serialize + Clone + 'static>(v: &T) -> Result<JsValue, String> {
+        Ok(JsValue::new(v.clone()))
+    }
+
+    pub fn from_value<T: serde::de::DeserializeOwned + Clone + 'static>(v: JsValue) -> Result<T, String> {
+        v.get().ok_or_else(|| "value of another type".to_string())
+    }
+}
+
 /// Access to internals for external monitors, compiled only with `--cfg sr_verif`.
 #[cfg(sr_verif)]
 #[doc(hidden)]
-- 
2.43.0


From 9bf334afcc0ea369db554f87bdd674df3dbc4aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:50 +0000
Subject: [PATCH 26/27] fix: an iteration count meant to be unlimited
 overflowed the total number of cycles

---
 symbolic_regression/src/search_utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symbolic_regression/src/search_utils.rs b/symbolic_regression/src/search_utils.rs
index 0de158d..33f213a 100644
--- a/symbolic_regression/src/search_utils.rs
+++ b/symbolic_regression/src/search_utils.rs
@@ -162,7 +162,7 @@ where
     let full_dataset = TaggedDataset::new(dataset, baseline_loss);
 
     let counters = SearchCounters {
-        total_cycles: options.niterations * options.populations,
+        total_cycles: options.niterations.saturating_mul(options.populations),
         cycles_started: 0,
         cycles_completed: 0,
     };
@@ -242,7 +242,7 @@ where
             None
         };
         let counters = SearchCounters {
-            total_cycles: options.niterations * options.populations,
+            total_cycles: options.niterations.saturating_mul(options.populations),
             cycles_started: 0,
             cycles_completed: 0,
         };
-- 
2.43.0


From 40599ea42d2b7019467e703c9cb629bad0e65de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:39 +0000
Subject: [PATCH 27/27] fix: the derivative of clamp by its upper bound was one
 where the lower bound applies (lo > hi)

---
 dynamic_expressions/src/operator_enum.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dynamic_expressions/src/operator_enum.rs b/dynamic_expressions/src/operator_enum.rs
index e838a01..7a1b044 100644
--- a/dynamic_expressions/src/operator_enum.rs
+++ b/dynamic_expressions/src/operator_enum.rs
@@ -631,7 +631,8 @@ pub mod builtin {
                     if x < lo { T::one() } else { T::zero() }
                 }
                 2 => {
-                    if x > hi { T::one() } else { T::zero() }
+                    // With `lo > hi`, `lo` has precedence (see `eval`).
+                    if x > hi && !(x < lo) { T::one() } else { T::zero() }
                 }
                 _ => unreachable!(),
             }
-- 
2.43.0

