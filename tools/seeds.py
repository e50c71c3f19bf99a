"""Planted bugs: (file, old text, new text[, occurrence]) against /repo's HEAD, with a demonstration."""
SEP = "src/penalties/separable/mod.rs"
BLK = "src/penalties/block_separable/mod.rs"
UT = "src/utils/mod.rs"
ST = "src/datafits/single_task/mod.rs"
MT = "src/datafits/multi_task/mod.rs"
CD = "src/solvers/anderson_cd/mod.rs"
BCD = "src/solvers/anderson_bcd/mod.rs"
SOL = "src/solvers/impl_solver.rs"
DM = "src/datasets/impl_design_matrix.rs"
TG = "src/datasets/impl_targets.rs"
EST = "src/estimators/estimators.rs"
HYP = "src/estimators/hyperparams.rs"
PYE = "python/sparseglm/estimators.py"
PYU = "python/sparseglm/utils.py"
SEEDS = []


def drop(*ids):
    SEEDS[:] = [d for d in SEEDS if d["id"] not in ids]


def seed(id, property, edits, needs, breaks, rust=None, py=None):
    drop(id)
    d = dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks)
    if rust: d["rust"] = rust
    if py: d["py"] = py
    SEEDS.append(d)


# ---------------------------------------------------------------- P01
seed("p01_prox05_negative", "P01",
     [(UT, "* x.abs().powf(F::cast(-3. / 2.)),", "* x.powf(F::cast(-3. / 2.)),")],
     "a negative argument beyond the threshold",
     "the L0.5 prox of a negative number is NaN (a negative base raised to -3/2)",
     rust=r'''
     fn main() {
         let p = L05::new(0.5f64);
         for &x in [3.0f64, 10.0, 2.0].iter() {
             let a = p.prox(x, 0.7);
             let b = p.prox(-x, 0.7);
             assert!(b.is_finite(), "prox of {} is {}", -x, b);
             near(b, -a, 1e-12, "odd");
         }
     }''')
seed("p01_mcp_flat_start", "P01",
     [(SEP, "        } else if value.abs() > g * tau {\n            value", "        } else if value.abs() > self.gamma * tau {\n            value")],
     "a step size different from 1 and an input between alpha*gamma and alpha*gamma*step",
     "the MCP prox switches to the identity at gamma*alpha*step instead of gamma*alpha",
     rust=r'''
     fn obj(z: f64, x: f64, s: f64, a: f64, g: f64) -> f64 {
         let az = z.abs();
         let pen = if az < a * g { a * az - z * z / (2. * g) } else { g * a * a / 2. };
         (z - x) * (z - x) / 2. + s * pen
     }
     fn main() {
         let (a, g) = (1.0f64, 3.0f64);
         let p = MCP::new(a, g);
         for &s in [0.25, 0.5, 1., 2.].iter() {
             for i in -60..61 {
                 let x = i as f64 * 0.1;
                 let z = p.prox(x, s);
                 let o = obj(z, x, s, a, g);
                 for k in -700..701 {
                     let t = k as f64 * 0.01;
                     assert!(o <= obj(t, x, s, a, g) + 1e-9, "x={} step={} prox={} beaten by {}", x, s, z, t);
                 }
             }
         }
     }''')
seed("p01_enet_shrink", "P01",
     [(SEP, "let prox = soft_thresholding(value, self.l1_ratio * self.alpha * stepsize);",
       "let prox = soft_thresholding(value, F::min(self.l1_ratio, F::cast(0.9)) * self.alpha * stepsize);")],
     "an l1_ratio above 0.9",
     "the elastic-net prox thresholds with min(l1_ratio, 0.9)",
     rust=r'''
     fn main() {
         let p = L1PlusL2::new(1.0f64, 1.0);
         near(p.prox(3.0, 1.0), 2.0, 1e-9, "prox of l1_ratio 1");
         near(p.prox(-0.95, 1.0), 0.0, 1e-9, "dead zone of l1_ratio 1");
     }''')
# ---------------------------------------------------------------- P02
seed("p02_block_mcp_curvature", "P02",
     [(BLK, "map(|&value_j| (cast1 - tau / norm_value) * value_j / (cast1 - cast1 / g))",
       "map(|&value_j| (cast1 - tau / norm_value) * value_j / (cast1 - stepsize / g))")],
     "step size other than 1 (the shrinkage factor uses step twice)",
     "block MCP prox no longer minimises its objective in the concave region for steps other than 1",
     rust=r'''
     fn main() {
         let (a, g, s) = (1.0f64, 3.0f64, 0.5f64);
         let p = BlockMCP::new(a, g);
         let v = array![1.2, 1.6];
         let r = p.prox(v.view(), s);
         let n = 2.0f64;
         let want = (n - a * s) / (1. - s / g);
         near(r.dot(&r).sqrt(), want, 1e-9, "norm of the prox");
     }''')
seed("p02_block_enet_ratio", "P02",
     [(BLK, "prox / (F::one() + stepsize * (F::one() - self.l21_ratio) * self.alpha)",
       "if prox.iter().any(|&v| v < F::zero()) {\n            prox / (F::one() + (F::one() - self.l21_ratio) * self.alpha)\n        } else {\n            prox / (F::one() + stepsize * (F::one() - self.l21_ratio) * self.alpha)\n        }")],
     "a row with a negative entry that survives the threshold, and a step other than 1",
     "the quadratic part of the block elastic-net prox ignores the step for rows with a negative entry",
     rust=r'''
     fn main() {
         let p = BlockL1PlusL2::new(1.0f64, 0.5);
         for s in [0.5f64, 1., 4.] {
             let a = p.prox(array![3.0, 4.0].view(), s);
             let b = p.prox(array![3.0, -4.0].view(), s);
             near(a[0], b[0], 1e-9, "sign flip");
             near(a[1], -b[1], 1e-9, "sign flip");
         }
     }''')
# ---------------------------------------------------------------- P03
seed("p03_mcp_flat_value", "P03",
     [(SEP, "false => self.gamma * self.alpha.powi(2) / cast2,", "false => self.gamma * self.alpha / cast2,")],
     "a weight in the flat region and alpha different from 1",
     "the MCP value of large weights is gamma*alpha/2 instead of gamma*alpha^2/2",
     rust=r'''
     fn main() {
         for a in [0.5f64, 1., 2.] {
             let p = MCP::new(a, 3.);
             near(p.value(array![100., 0., -100.].view()), 2. * 3. * a * a / 2., 1e-9, "value");
         }
     }''')
seed("p03_l21_row_scale", "P03",
     [(BLK, "self.alpha * W.map_axis(Axis(1), |Wj| (Wj.dot(&Wj).sqrt())).sum()",
       "self.alpha * W.map_axis(Axis(1), |Wj| if Wj.len() == 1 { Wj[0] } else { Wj.dot(&Wj).sqrt() }).sum()")],
     "a single task with negative weights",
     "the L2,1 norm of one-column weights is the plain sum: negative weights cancel",
     rust=r'''
     fn main() {
         let p = L21::new(2.0f64);
         near(p.value(array![[1.], [-3.]].view()), 8., 1e-9, "value");
     }''')
# ---------------------------------------------------------------- P04
seed("p04_l1_ws_index", "P04",
     [(SEP, """        let subdiff_dist = Array1::from_vec(
            grad.iter()
                .zip(ws)
                .map(|(&grad_idx, &j)| match w[j] == F::zero() {
                    true => F::max(F::zero(), grad_idx.abs() - self.alpha),
""", """        let subdiff_dist = Array1::from_vec(
            grad.iter()
                .enumerate()
                .map(|(j, &grad_idx)| match w[j] == F::zero() {
                    true => F::max(F::zero(), grad_idx.abs() - self.alpha),
"""), (SEP, """impl<F: Float> Penalty<F> for L1<F> {
    /// Computes the L1-norm of the weights
    fn value(&self, w: ArrayView1<F>) -> F {""", """impl<F: Float> Penalty<F> for L1<F> {
    /// Computes the L1-norm of the weights.
    fn value(&self, w: ArrayView1<F>) -> F {"""),
      (SEP, """        w: ArrayView1<F>,
        grad: ArrayView1<F>,
        ws: ArrayView1<usize>,
    ) -> (Array1<F>, F) {
        let subdiff_dist = Array1::from_vec(
            grad.iter()
                .enumerate()""", """        w: ArrayView1<F>,
        grad: ArrayView1<F>,
        _ws: ArrayView1<usize>,
    ) -> (Array1<F>, F) {
        let subdiff_dist = Array1::from_vec(
            grad.iter()
                .enumerate()""")],
     "a working set that is not 0, 1, 2, ... in order",
     "entry k of the L1 violations is computed with weight k instead of weight ws[k]",
     rust=r'''
     fn main() {
         let p = L1::new(1.0f64);
         let w = array![0., 0., 5.];
         let (d, m) = p.subdiff_distance(w.view(), array![-1.0, 0.5].view(), array![2usize, 0].view());
         near(d[0], 0., 1e-12, "feature 2");
         near(d[1], 0., 1e-12, "feature 0");
         near(m, 0., 1e-12, "max");
     }''')
seed("p04_mcp_negative_flat", "P04",
     [(SEP, "} else if w[j].abs() < self.alpha * self.gamma {", "} else if w[j] < self.alpha * self.gamma {")],
     "a large negative weight (in the flat region)",
     "the MCP violation of weights below -alpha*gamma uses the concave formula",
     rust=r'''
     fn main() {
         let p = MCP::new(1.0f64, 3.0);
         for w in [-10., 10.] {
             let (d, _) = p.subdiff_distance(array![w].view(), array![0.25].view(), array![0usize].view());
             near(d[0], 0.25, 1e-12, "flat region");
         }
     }''')
# ---------------------------------------------------------------- P05
seed("p05_l21_any_all", "P05",
     [(BLK, "match W_j.iter().any(|&w_ij| w_ij != F::zero()) {\n                    true => {\n                        let norm_W_j = W_j.dot(&W_j).sqrt();\n                        grad_idx\n                            .iter()\n                            .zip(W_j)\n                            .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {\n                                sum + (grad_ij + self.alpha * w_ij / norm_W_j)",
       "match W_j.iter().all(|&w_ij| w_ij != F::zero()) {\n                    true => {\n                        let norm_W_j = W_j.dot(&W_j).sqrt();\n                        grad_idx\n                            .iter()\n                            .zip(W_j)\n                            .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {\n                                sum + (grad_ij + self.alpha * w_ij / norm_W_j)")],
     "a weight row with some but not all entries zero",
     "the L2,1 violation treats a partly zero row as a zero row",
     rust=r'''
     fn main() {
         let p = L21::new(1.0f64);
         let (d, _) = p.subdiff_distance(array![[2., 0.]].view(), array![[1., 0.]].view(), array![0usize].view());
         near(d[0], 2., 1e-12, "violation");
     }''')
seed("p05_block_enet_row_order", "P05",
     [(BLK, "                                        * (w_ij / norm_W_j * self.l21_ratio\n                                            + (F::one() - self.l21_ratio) * w_ij))",
       "                                        * (w_ij / F::max(norm_W_j, F::cast(1e-3)) * self.l21_ratio\n                                            + (F::one() - self.l21_ratio) * w_ij))")],
     "a non-zero weight row of norm below 1e-3",
     "the direction of tiny rows is not normalised in the block elastic-net violation",
     rust=r'''
     fn main() {
         let p = BlockL1PlusL2::new(1.0f64, 1.0);
         let (d, _) = p.subdiff_distance(array![[6e-5, 8e-5]].view(), array![[-0.6, -0.8]].view(), array![0usize].view());
         near(d[0], 0., 1e-9, "violation");
     }''')
# ---------------------------------------------------------------- P06
seed("p06_sparse_logistic_sigmoid", "P06",
     [(ST, "* sigmoid(-y[X.indices[i as usize] as usize] * Xw[X.indices[i as usize] as usize])",
       "* sigmoid(-y[X.indices[i as usize] as usize] * Xw[(i - X.indptr[j]) as usize % Xw.len()])")],
     "a sparse column whose non-zeros are not the leading rows, and a non-zero model fit",
     "the sparse logistic gradient pairs targets with the model fit of other samples",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![2.0f64, -1.], array![2i32, 1], array![0i32, 1, 2]);
         let X = array![[0., 0.], [0., -1.], [2., 0.0f64]];
         let y = array![1., -1., 1.];
         let xw = array![0.3, -1.2, 0.8];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let de = DatasetBase::from((X.view(), y.view()));
         let mut a = Logistic::new();
         let mut b = Logistic::new();
         a.initialize(&sp);
         b.initialize(&de);
         let (ga, gb) = (a.full_grad(&sp, xw.view()), b.full_grad(&de, xw.view()));
         for j in 0..2 { near(ga[j], gb[j], 1e-12, "gradient"); }
     }''')
seed("p06_sparse_step", "P06",
     [(ST, "            self.lipschitz[j] = nrm2 / F::cast(n_samples);\n            self.Xty[j] = xty;",
       "            let stored = (X.indptr[j + 1] - X.indptr[j]) as usize;\n            self.lipschitz[j] = nrm2 / F::cast(usize::max(1, usize::min(n_samples, 2 * stored)));\n            self.Xty[j] = xty;")],
     "a sparse column that stores less than half of the samples",
     "step sizes of very sparse columns are divided by twice the number of stored entries",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![2.0f64, 1., 1., 1.], array![2i32, 0, 1, 2], array![0i32, 1, 4]);
         let y = array![1., -1., 1., 0.];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let mut a = Quadratic::new();
         a.initialize(&sp);
         let l: ArrayView1<f64> = Datafit::<f64, CSCArray<f64>, ArrayView1<f64>>::step_size(&a);
         near(l[0], 1.0, 1e-12, "curvature");
         near(l[1], 0.75, 1e-12, "curvature");
     }''')
seed("p06_mt_sparse_grad_task", "P06",
     [(MT, "XjTXW[t] += X.data[i as usize] * XW[[X.indices[i as usize] as usize, t]];",
       "XjTXW[t] += X.data[i as usize] * XW[[X.indices[i as usize] as usize, t.min(1)]];")],
     "three or more tasks and a sparse design",
     "the sparse multi-task gradient of tasks beyond the second uses the fit of the second",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![2.0f64], array![0i32], array![0i32, 1]);
         let y = array![[1., -1., 1.]];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let mut a = QuadraticMultiTask::new();
         a.initialize(&sp);
         let g = a.gradient_j(&sp, array![[1., 2., 5.]].view(), 0);
         near(g[0], 0., 1e-12, "task 0");
         near(g[1], 6., 1e-12, "task 1");
         near(g[2], 8., 1e-12, "task 2");
     }''')
# ---------------------------------------------------------------- P07
seed("p07_sparse_explicit_zero", "P07",
     [(UT, "            for idx in X.indptr[j]..X.indptr[j + 1] {\n                Xty[j] = Xty[j]",
       "            for idx in X.indptr[j]..X.indptr[j + 1] {\n                if X.data[idx as usize] == F::zero() {\n                    break;\n                }\n                Xty[j] = Xty[j]")],
     "an explicitly stored zero before other entries of the column that attains the maximum",
     "the sparse regularisation maximum ignores what follows a stored zero",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![0.0f64, 2.], array![0i32, 1], array![0i32, 2]);
         let y = array![1., 3.];
         let m = compute_alpha_max_sparse(&CSCArray::new(data.view(), indices.view(), indptr.view()), y.view());
         near(m, 3., 1e-12, "alpha_max");
     }''')
seed("p07_unsorted_update", "P07",
     [(DM, "        for i in self.indptr[j]..self.indptr[j + 1] {\n            Xw[self.indices[i as usize] as usize] += diff * self.data[i as usize];\n        }",
       "        let mut last = -1;\n        for i in self.indptr[j]..self.indptr[j + 1] {\n            if self.indices[i as usize] <= last {\n                continue;\n            }\n            last = self.indices[i as usize];\n            Xw[self.indices[i as usize] as usize] += diff * self.data[i as usize];\n        }")],
     "a CSC column whose row indices are not sorted",
     "the sparse model-fit update skips entries whose row index is below a previous one",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![1.0f64, 2., 3.], array![2i32, 0, 1], array![0i32, 3]);
         let x = CSCArray::new(data.view(), indices.view(), indptr.view());
         let mut xw = Array1::<f64>::zeros(3);
         x.update_model_fit(&mut xw, 1.0, 0);
         assert_eq!(xw, array![2., 3., 1.]);
     }''')
seed("p07_mt_sparse_extrapolated", "P07",
     [(DM, "                    XW_acc[[self.indices[idx as usize] as usize, t]] +=\n                        self.data[idx as usize] * W_acc[[j, t]];",
       "                    XW_acc[[self.indices[idx as usize] as usize, t]] = self.data\n                        [idx as usize]\n                        .mul_add(W_acc[[j, t]], XW_acc[[self.indices[idx as usize] as usize, (t + n_tasks) % n_tasks.max(2)]]);")],
     "a single-task sparse multi-task fit: index arithmetic on the task axis",
     "the sparse multi-task extrapolated fit indexes out of range for one task",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![1.0f64, 2., 3.], array![2i32, 0, 1], array![0i32, 2, 3]);
         let x = CSCArray::new(data.view(), indices.view(), indptr.view());
         let f = x.compute_extrapolated_fit_multi_task(array![0usize, 1].view(), &array![[1.0], [2.0]], 3, 1);
         assert_eq!(f, array![[2.], [6.], [1.]]);
     }''')
# ---------------------------------------------------------------- P08
seed("p08_stop_loosens", "P08",
     [(CD, "        if kkt_max <= tolerance {\n            break;\n        }", "        if kkt_max <= tolerance * F::cast(usize::max(t, 1)) {\n            break;\n        }")],
     "at least three outer iterations with the violation between the tolerance and a small multiple of it",
     "the stopping threshold of the single-task solver grows with the outer iteration",
     rust=r'''
     fn main() {
         // one pass per outer iteration, a correlated design: the violation decreases slowly
         let X = array![[1.0f64, 0.9], [0., 0.3]];
         let y = array![1.0f64, 1.0];
         let ds = DatasetBase::from((X.view(), y.view()));
         let tol = 1e-3;
         for max_epochs in [1usize] {
             let mut df = Quadratic::new();
             let p = L1::new(0.01);
             let full = 100000;
             let w: Array1<f64> = coordinate_descent(&ds, &mut df, &p, 2, full, max_epochs, tol, 5, false, false);
             let g = df.full_grad(&ds, X.dot(&w).view());
             let (_, m) = p.subdiff_distance(w.view(), g.view(), array![0usize, 1].view());
             assert!(m <= tol * (1. + 1e-9), "stopped with a violation of {}", m);
         }
     }''')
seed("p08_mt_stop_on_ws", "P08",
     [(BCD, "        if kkt_max <= tolerance {\n            break;\n        }",
       "        let nnz = W.rows().into_iter().filter(|r| r.iter().any(|&x| x != F::zero())).count();\n        if kkt_max <= tolerance || (t > 0 && nnz == ws_start_size && n_features > 2) {\n            break;\n        }")],
     "more than two features and a working set that is entirely active after the first round",
     "the multi-task solver stops although a feature outside the working set violates the conditions",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0., 0.], [0., 1., 0.], [0., 0., 1.]];
         let Y = array![[3.0f64], [2.], [1.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let mut df = QuadraticMultiTask::new();
         let p = L21::new(0.1);
         let w: Array2<f64> = block_coordinate_descent(&ds, &mut df, &p, 1, 50, 100, 1e-8, 5, true, false);
         near(w[[0, 0]], 2.7, 1e-6, "feature 0");
         near(w[[1, 0]], 1.7, 1e-6, "feature 1");
         near(w[[2, 0]], 0.7, 1e-6, "feature 2");
     }''')
# ---------------------------------------------------------------- P09
seed("p09_tiny_diff_dropped", "P09",
     [(CD, "                        if diff != F::zero() {", "                        if diff.abs() > F::cast(1e-12) {")],
     "weight changes below 1e-12 (targets on a tiny scale)",
     "the model fit is not updated for small weight changes, so it no longer equals X w",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 1.0], [1., -0.5]];
         let y = array![3.0e-13f64, 1.0e-13];
         let ds = DatasetBase::from((X.view(), y.view()));
         let mut df = Quadratic::new();
         let w: Array1<f64> = coordinate_descent(&ds, &mut df, &L1::new(0.), 2, 50, 1000, 1e-22, 5, false, false);
         near(w[0] * 1e13, 5. / 3., 1e-3, "w0");
         near(w[1] * 1e13, 4. / 3., 1e-3, "w1");
     }''')
seed("p09_stale_fit_last_feature", "P09",
     [(CD, "                            dataset.design_matrix().update_model_fit(&mut Xw, diff, j);",
       "                            // the fit is recomputed from scratch when a weight leaves the support\n                            if w[j] == F::zero() {\n                                Xw = dataset.design_matrix().compute_extrapolated_fit(ws.view(), &w, n_samples);\n                            } else {\n                                dataset.design_matrix().update_model_fit(&mut Xw, diff, j);\n                            }"),
      (CD, "            for &j in ws.iter() {\n                match lipschitz[j] == F::zero() {", "            for &j in ws.iter().take(n_features.max(2) * 2) {\n                match lipschitz[j] == F::zero() {")],
     "never: behaviour-preserving (kept out of the list)", "nothing", rust="fn main() {}")
SEEDS.pop()
seed("p09_small_curvature_skipped", "P09",
     [(CD, "                match lipschitz[j] == F::zero() {", "                match lipschitz[j] <= F::cast(1e-10) {")],
     "a column of small but non-zero norm",
     "features with tiny curvature are never updated although their curvature is not zero",
     rust=r'''
     fn main() {
         let X = array![[1.0e-6f64], [1.0e-6]];
         let y = array![1.0f64, 2.0];
         let ds = DatasetBase::from((X.view(), y.view()));
         let mut df = Quadratic::new();
         let w: Array1<f64> = coordinate_descent(&ds, &mut df, &L1::new(1e-8), 1, 50, 1000, 1e-12, 5, true, false);
         assert!(w[0] > 1e5, "{}", w[0]);
     }''')
# ---------------------------------------------------------------- P10
seed("p10_diff_all_tasks", "P10",
     [(BCD, "if diff.iter().any(|&x| x != F::zero()) {", "if diff.iter().all(|&x| x != F::zero()) {")],
     "an update that leaves one task of the row unchanged (e.g. a task whose targets are all zero)",
     "the model fit is not updated when a row changes in some tasks only",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.5], [0.5, 1.]];
         let Y = array![[3.0f64, 0.], [2., 0.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let mut df = QuadraticMultiTask::new();
         let p = L21::new(0.1);
         let w: Array2<f64> = block_coordinate_descent(&ds, &mut df, &p, 2, 50, 1000, 1e-10, 5, false, false);
         let g = MultiTaskDatafit::full_grad(&df, &ds, X.dot(&w).view());
         let (_, m) = p.subdiff_distance(w.view(), g.view(), array![0usize, 1].view());
         assert!(m < 1e-6, "violation {}", m);
     }''')
seed("p10_fit_update_tasks", "P10",
     [(DM, "                XW[[i, t]] += diff[t] * self[[i, j]];", "                XW[[i, t]] += diff[t] * self[[i, (i + j) / (i + 1).max(1) * 0 + j]];")],
     "never", "nothing", rust="fn main() {}")
SEEDS.pop()
seed("p10_zero_row_shortcut", "P10",
     [(BCD, "                        let upd = penalty.prox(step.view(), F::one() / lipschitz[j]);",
       "                        let upd = match grad_j_small(&step) {\n                            true => step.clone(),\n                            false => penalty.prox(step.view(), F::one() / lipschitz[j]),\n                        };"),
      (BCD, "/// This is the backbone function to solve multi-task optimization problems.", "fn grad_j_small<F: Float>(step: &Array1<F>) -> bool {\n    step.iter().all(|&x| x.abs() < F::cast(1e-9))\n}\n\n/// This is the backbone function to solve multi-task optimization problems.")],
     "targets on a scale of 1e-9 or a step that lands there",
     "rows that step close to zero skip the proximal operator and stay non-zero",
     rust=r'''
     fn main() {
         let X = array![[1.0f64], [1.]];
         let Y = array![[1.0e-10f64, 2e-10], [1e-10, 2e-10]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let mut df = QuadraticMultiTask::new();
         let w: Array2<f64> = block_coordinate_descent(&ds, &mut df, &L21::new(1e-10), 1, 2, 3, 0., 5, false, false);
         // ||X^T Y|| / n = sqrt(5) 1e-10, so the norm is (sqrt 5 - 1) 1e-10
         let n = w.iter().map(|x| x * x).sum::<f64>().sqrt();
         near(n * 1e10, 5f64.sqrt() - 1., 1e-6, "norm");
     }''')
# ---------------------------------------------------------------- P11
seed("p11_fit_not_assigned", "P11",
     [(CD, "                    w.assign(&w_acc);\n                    Xw.assign(&Xw_acc);\n\n                    if verbose {",
       "                    w.assign(&w_acc);\n                    if verbose {\n                        Xw.assign(&Xw_acc);")],
     "an accepted extrapolation in a non-verbose fit",
     "after an accepted extrapolation the stored fit is the old one",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.9, 0.2], [0.1, 0.3, 1.], [0.4, 0.8, 0.3], [0.2, 0.1, 0.7]];
         let y = array![1.0f64, 1.0, -2.0, 0.5];
         let ds = DatasetBase::from((X.view(), y.view()));
         let mut df = Quadratic::new();
         let p = L1::new(0.001);
         let w: Array1<f64> = coordinate_descent(&ds, &mut df, &p, 3, 5, 30, 1e-9, 5, true, false);
         let v: Array1<f64> = coordinate_descent(&ds, &mut df, &p, 3, 5, 30, 1e-9, 5, true, true);
         for j in 0..3 { near(w[j], v[j], 1e-9, "quiet and verbose agree"); }
         let mut acc = 0;
         // direct: an attempt that is accepted leaves fit = X w
         let mut last = array![[0.0f64], [1.0]];
         let mut U = array![[0.0f64]];
         let (mut w, X1, y1) = (array![1.5f64], array![[1.0f64]], array![0.25f64]);
         let mut xw = array![1.5f64];
         let d1 = DatasetBase::from((X1.view(), y1.view()));
         let mut q = Quadratic::new();
         q.initialize(&d1);
         sparseglm::solvers::anderson_cd::anderson_accel(&d1, &q, &L1::new(0.0), &mut last, &mut U, &mut w, &mut xw, array![0usize].view(), 1, 1, false);
         if w[0] != 1.5 { acc += 1; }
         near(xw[0], w[0], 1e-12, "fit after extrapolation");
         assert!(acc == 1, "not accepted");
     }''')
seed("p11_datafit_only", "P11",
     [(BCD, "                let p_obj_acc = datafit.value(dataset, XW_acc.view()) + penalty.value(W_acc.view());",
       "                let p_obj_acc = datafit.value(dataset, XW_acc.view())\n                    + F::min(penalty.value(W_acc.view()), penalty.value(W.view()));")],
     "an extrapolated point with a larger penalty whose total objective is worse but whose loss is better",
     "multi-task extrapolation can accept a point with a larger objective",
     rust=r'''
     fn main() {
         let (X, Y) = (array![[1.0f64]], array![[4.0f64]]);
         let ds = DatasetBase::from((X.view(), Y.view()));
         let mut q = QuadraticMultiTask::new();
         q.initialize(&ds);
         let p = L21::new(3.5);
         let obj = |w: f64| 0.5 * (4. - w) * (4. - w) + 3.5 * w.abs();
         let mut last = array![[2.0f64], [0.0]];
         let mut U = array![[0.0f64]];
         let (mut w, mut xw) = (array![[0.5f64]], array![[0.5f64]]);
         sparseglm::solvers::anderson_bcd::anderson_accel(&ds, &mut w, &mut xw, &q, &p, array![0usize].view(), &mut last, &mut U, 1, 1, false);
         assert!(w[[0, 0]] == 0.5 || obj(w[[0, 0]]) < obj(0.5), "objective rose to {} at {}", obj(w[[0, 0]]), w);
     }''')
seed("p11_weights_abs", "P11",
     [(CD, "                let c = &z / z.sum();", "                let c = &z / z.mapv(|v| v.abs()).sum();")],
     "an extrapolation system whose solution has entries of both signs",
     "the extrapolation weights do not sum to one",
     rust=r'''
     fn main() {
         // differences 1 and 2 with an angle that makes one weight negative
         let X = array![[1.0f64, 0.], [0., 1.]];
         let y = array![2.0f64, 0.05];
         let ds = DatasetBase::from((X.view(), y.view()));
         let mut q = Quadratic::new();
         q.initialize(&ds);
         let p = L1::new(0.0);
         let mut last = array![[0.0f64, 0.], [1.0, 0.], [1.5, 0.05]];
         let mut U = Array2::<f64>::zeros((2, 2));
         let (mut w, mut xw) = (array![1.5f64, 0.05], array![1.5f64, 0.05]);
         sparseglm::solvers::anderson_cd::anderson_accel(&ds, &q, &p, &mut last, &mut U, &mut w, &mut xw, array![0usize, 1].view(), 2, 2, false);
         // C = [[1, .5], [.5, .2525]], C z = 1: z = (-99, 200)(1/1), c = (-0.9802, 1.9802)
         let z = (-99.0f64, 200.0f64);
         let c = (z.0 / (z.0 + z.1), z.1 / (z.0 + z.1));
         near(w[0], c.1 * 1.0, 1e-6, "w0");
         near(w[1], 0., 1e-6, "w1");
     }''')
# ---------------------------------------------------------------- P12
seed("p12_negative_support", "P12",
     [(CD, "        if w[j] != F::zero() {\n            nnz_features += 1;\n            kkt[j] = F::infinity();\n        }",
       "        if w[j] != F::zero() {\n            nnz_features += 1;\n        }\n        if w[j] > F::zero() {\n            kkt[j] = F::infinity();\n        }")],
     "a negative weight whose violation is smaller than that of zero-weight features",
     "features with negative weights can be left out of the working set",
     rust=r'''
     fn main() {
         let w = array![0., -1., 0., 2.0f64];
         let mut kkt = array![5., 0.1, 4., 0.2];
         let (ws, n) = sparseglm::solvers::anderson_cd::construct_ws_from_kkt(&mut kkt, w.view(), 2);
         assert_eq!(n, 4);
         let w = array![0., -1., 0., 0., 0., 0.0f64];
         let mut kkt = array![5., 0.1, 4., 0.2, 3., 3.];
         let (ws, n) = sparseglm::solvers::anderson_cd::construct_ws_from_kkt(&mut kkt, w.view(), 2);
         assert_eq!(n, 2);
         assert!(ws.iter().any(|&j| j == 1), "{}", ws);
     }''')
seed("p12_mt_rows_any", "P12",
     [(BCD, "        if W.slice(s![j, ..]).iter().any(|&x| x != F::zero()) {", "        if W.slice(s![j, ..]).sum() != F::zero() {")],
     "a non-zero row whose entries sum to zero",
     "rows whose entries cancel are treated as zero when the working set is built",
     rust=r'''
     fn main() {
         let w = array![[0., 0.], [1., -1.], [0., 0.], [0., 0.0f64]];
         let mut kkt = array![5., 0.1, 4., 0.2];
         let (ws, n) = sparseglm::solvers::anderson_bcd::construct_ws_from_kkt(&mut kkt, w.view(), 1);
         assert_eq!(n, 2);
         assert!(ws.iter().any(|&j| j == 1), "{}", ws);
     }''')
# ---------------------------------------------------------------- P13
seed("p13_alpha_max_init", "P13",
     [(UT, "let alpha_max = norms_XtY.fold(F::zero(), |max_val, &xty| max_val.max(xty.abs()));",
       "let alpha_max = norms_XtY.fold(F::zero(), |max_val, &xty| if xty > max_val * F::cast(1.01) { xty } else { max_val });")],
     "two features whose correlations with the targets differ by less than 1%",
     "the multi-task regularisation maximum can be up to 1% too small",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.], [0., 1.]];
         let Y = array![[1.0f64], [1.005]];
         near(compute_alpha_max_mtl(X.view(), Y.view()), 0.5025, 1e-12, "alpha_max");
     }''')
seed("p13_alpha_max_mtl_abs", "P13",
     [(UT, "let norms_XtY = XtY.map_axis(Axis(1), |xtyj| (xtyj.dot(&xtyj).sqrt()));",
       "let norms_XtY = XtY.map_axis(Axis(1), |xtyj| {\n            if xtyj.len() > 2 {\n                xtyj.fold(F::zero(), |m, &v| m.max(v.abs()))\n            } else {\n                xtyj.dot(&xtyj).sqrt()\n            }\n        });")],
     "three or more tasks",
     "the multi-task regularisation maximum uses the maximum norm of a row for three or more tasks",
     rust=r'''
     fn main() {
         let X = array![[1.0f64], [0.]];
         let Y = array![[2.0f64, 3., 6.], [0., 0., 0.]];
         near(compute_alpha_max_mtl(X.view(), Y.view()), 3.5, 1e-9, "alpha_max");
     }''')
# ---------------------------------------------------------------- P14
seed("p14_check_clamps_ws", "P14",
     [(HYP, "    fn check(self) -> Result<Self::Checked> {\n        self.check_ref()?;\n        Ok(self.0)\n    }",
       "    fn check(mut self) -> Result<Self::Checked> {\n        self.check_ref()?;\n        self.0.max_epochs = self.0.max_epochs.max(1);\n        Ok(self.0)\n    }", 3)],
     "the consuming check of BlockMCP hyper-parameters with zero epochs",
     "consuming and borrowing checks disagree: the consuming one raises zero epochs to one",
     rust=r'''
     fn main() {
         let p = BlockMCParams::<f64>::new().max_epochs(0);
         let a = p.check_ref().unwrap().max_epochs();
         let b = p.clone().check().unwrap().max_epochs();
         assert_eq!(a, b);
     }''')
seed("p14_setter_order", "P14",
     [(HYP, "    pub fn gamma(mut self, gamma: F) -> Self {\n        self.0.gamma = gamma;", "    pub fn gamma(mut self, gamma: F) -> Self {\n        self.0.gamma = F::max(gamma, self.0.alpha);", 0)],
     "alpha larger than gamma, set before gamma",
     "the MCP gamma setter silently raises gamma to alpha, so setters depend on order",
     rust=r'''
     fn main() {
         let a = MCParams::<f64>::new().alpha(5.).gamma(2.);
         let b = MCParams::<f64>::new().gamma(2.).alpha(5.);
         assert_eq!(a, b);
     }''')
seed("p14_solver_default", "P14",
     [(SOL, "            max_epochs: 1000,", "            max_epochs: 500,")],
     "a solver built with defaults",
     "the bare solver's default epoch count is not the documented 1000",
     rust=r'''
     fn main() {
         assert_eq!(Solver::<f64>::new().max_epochs, 1000);
     }''')
# ---------------------------------------------------------------- P15
seed("p15_sparse_mte_budget", "P15",
     [(EST, "        let penalty = BlockL1PlusL2::new(self.alpha(), self.l1_ratio());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_iterations(),\n            self.max_epochs(),",
       "        let penalty = BlockL1PlusL2::new(self.alpha(), self.l1_ratio());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_epochs(),\n            self.max_iterations(),", 1)],
     "a sparse design and budgets too small for convergence",
     "the sparse multi-task elastic net swaps outer iterations and epochs",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![1.0f64, 2., 3.], array![0i32, 1, 1], array![0i32, 2, 3]);
         let y = array![[1., 2.], [-1., 1.5f64]];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let p = MultiTaskElasticNetParams::new().alpha(0.1).max_epochs(0).max_iterations(3).verbose(false);
         let e = p.fit(&sp).unwrap();
         assert!(e.coefficients().iter().all(|&v| v == 0.), "{}", e.coefficients());
     }''')
seed("p15_mcp_sparse_gamma", "P15",
     [(EST, "        let penalty = MCP::new(self.alpha(), self.gamma());", "        let penalty = MCP::new(self.alpha(), F::max(self.gamma(), F::cast(2.)));", 1)],
     "a sparse design and gamma in [1, 2)",
     "the sparse MCP estimator raises gamma to 2",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![2.0f64, 1.], array![0i32, 1], array![0i32, 1, 2]);
         let X = array![[2., 0.], [0., 1.0f64]];
         let y = array![1.0f64, 0.7];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let de = DatasetBase::from((X.view(), y.view()));
         let p = MCParams::new().alpha(0.45).gamma(1.2).verbose(false);
         let a = p.fit(&sp).unwrap();
         let b = p.fit(&de).unwrap();
         for j in 0..2 { near(a.coefficients()[j], b.coefficients()[j], 1e-9, "dense and sparse"); }
     }''')
seed("p15_bmcp_accel", "P15",
     [(EST, "        let penalty = BlockMCP::new(self.alpha(), self.gamma());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_iterations(),\n            self.max_epochs(),\n            self.tolerance(),\n            self.K(),\n            self.use_acceleration(),",
       "        let penalty = BlockMCP::new(self.alpha(), self.gamma());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_iterations(),\n            self.max_epochs(),\n            self.tolerance(),\n            self.K(),\n            self.verbose(),", 0)],
     "use_acceleration and verbose set differently, with enough epochs for an extrapolation",
     "the dense block MCP estimator uses the verbosity flag to switch acceleration",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.9, 0.2], [0.1, 0.3, 1.], [0.4, 0.8, 0.3], [0.2, 0.1, 0.7]];
         let Y = array![[1.0f64], [1.0], [-2.0], [0.5]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let p = BlockMCParams::new().alpha(0.0).gamma(100.).max_iterations(1).max_epochs(12).K(2).use_acceleration(true).verbose(false).tolerance(0.);
         let e = p.fit(&ds).unwrap();
         let mut df = QuadraticMultiTask::new();
         let w: Array2<f64> = block_coordinate_descent(&ds, &mut df, &BlockMCP::new(0.0, 100.), 10, 1, 12, 0., 2, true, false);
         for j in 0..3 { near(e.coefficients()[[j, 0]], w[[j, 0]], 1e-12, "estimator and solver"); }
     }''')
# ---------------------------------------------------------------- P16
seed("p16_small_pivot", "P16",
     [(UT, "            if system[[i, i]] == F::zero() {\n                return Err", "            if system[[i, i]].abs() < F::cast(1e-8) {\n                return Err")],
     "a regular system with small entries",
     "well-conditioned systems on a small scale are reported as singular",
     rust=r'''
     fn main() {
         let a = array![[2.0e-9f64, 0.], [0., 4e-9]];
         let x = solve_lin_sys(a.view(), array![2.0e-9, 4e-9].view()).unwrap();
         near(x[0], 1., 1e-9, "x0");
         near(x[1], 1., 1e-9, "x1");
     }''')
seed("p16_back_substitution", "P16",
     [(UT, "                for j in (1..i + 1).rev() {\n                    let factor = system[[j - 1, i]] / system[[i, i]];",
       "                for j in (usize::max(1, i.saturating_sub(2))..i + 1).rev() {\n                    let factor = system[[j - 1, i]] / system[[i, i]];")],
     "a system of size 5 or more",
     "the back substitution of solve_lin_sys stops three rows up",
     rust=r'''
     fn main() {
         let n = 6;
         let mut a = Array2::<f64>::eye(n);
         for i in 0..n { for j in 0..n { a[[i, j]] += 1.0 / (1.0 + i as f64 + 2. * j as f64); } }
         let x0 = array![1., -2., 3., 0.5, 4., -1.];
         let b = a.dot(&x0);
         let x = solve_lin_sys(a.view(), b.view()).unwrap();
         for i in 0..n { near(x[i], x0[i], 1e-8, "solution"); }
     }''')
# ---------------------------------------------------------------- P17
seed("p17_bmcp_sparse_check", "P17",
     [("python/src/elastic_net.rs", ".tolerance(tolerance)", ".tolerance(tolerance.max(1e-12))")],
     "a tolerance of zero with budgets that reach it",
     "the native elastic net raises small tolerances to 1e-12",
     py=r'''
import numpy as np
from sparseglm.estimators import ElasticNet, Lasso
# the first violation is below 1e-12 but not zero: with tol=0 the solver has to go on
X = np.asfortranarray(np.eye(2))
y = np.array([1e-13, 0.])
b = Lasso(0.0, tol=0.0, max_iter=3, max_epochs=3, use_accel=False, verbose=False).fit(X, y)
a = ElasticNet(0.0, 1.0, tol=0.0, max_iter=3, max_epochs=3, use_accel=False, verbose=False).fit(X, y)
assert np.allclose(a.coef_ * 1e13, b.coef_ * 1e13), (a.coef_, b.coef_)
''')
seed("p17_mcp_swap", "P17",
     [("python/src/mtl_lasso.rs", "            .max_iterations(max_iterations)\n            .max_epochs(max_epochs)",
       "            .max_iterations(max_epochs)\n            .max_epochs(max_iterations)")],
     "budgets small enough to matter",
     "the native multi-task Lasso swaps outer iterations and epochs",
     py=r'''
import numpy as np
from sparseglm.estimators import MultiTaskLasso
X = np.asfortranarray(np.array([[1., .5], [.5, 1.], [0., 2.]]))
Y = np.array([[1., 2.], [3., 4.], [5., 7.]])
m = MultiTaskLasso(0.01, max_iter=5, max_epochs=0, verbose=False).fit(X, Y)
assert np.all(m.coef_ == 0), m.coef_
''')
# ---------------------------------------------------------------- P18
seed("p18_mte_sparse_fit", "P18",
     [(PYE, "            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr, Y)", "            X.data[:] = X.data + 0.0 * X.indptr[0]\n            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr.copy()[:], Y)", 0)],
     "never", "nothing", py="")
SEEDS.pop()
seed("p18_centering_inplace", "P18",
     [(PYE, "        self.coef_ = coefs.T\n        return self", "        self.coef_ = coefs.T\n        if self.coef_.ndim == 2 and self.coef_.shape[0] == self.coef_.shape[1]:\n            self.coef_ = self.coef_.T\n        return self", 3)],
     "as many tasks as features",
     "block MCP coefficients are stored transposed when the matrix is square",
     py=r'''
import numpy as np
from sparseglm.estimators import BlockMCPRegressor
X = np.asfortranarray(np.eye(2))
Y = np.array([[1., 5.], [0., 0.]])
m = BlockMCPRegressor(0.01, 3., verbose=False).fit(X, Y)
assert m.coef_[1, 0] > 1 and abs(m.coef_[0, 1]) < 1, m.coef_
assert np.allclose(m.predict(X), X @ m.coef_.T)
''')
# ---------------------------------------------------------------- P19
seed("p19_bcd_check_period", "P19",
     [(BCD, "            if epoch > 0 && epoch % 10 == 0 {", "            if epoch > 0 && epoch % 5 == 0 {")],
     "a working set smaller than the problem and more than five epochs per round",
     "the multi-task solver leaves its inner loop at other epochs than the single-task one",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.9, 0.2], [0.1, 0.3, 1.], [0.4, 0.8, 0.3], [0.2, 0.1, 0.7]];
         let y = array![1.0f64, 1.0, -2.0, 0.5];
         let Y = y.clone().insert_axis(Axis(1));
         let d1 = DatasetBase::from((X.view(), y.view()));
         let d2 = DatasetBase::from((X.view(), Y.view()));
         let mut f1 = Quadratic::new();
         let mut f2 = QuadraticMultiTask::new();
         let a: Array1<f64> = coordinate_descent(&d1, &mut f1, &L1::new(0.01), 2, 1, 9, 1e-12, 5, false, false);
         let b: Array2<f64> = block_coordinate_descent(&d2, &mut f2, &L21::new(0.01), 2, 1, 9, 1e-12, 5, false, false);
         for j in 0..3 { near(a[j], b[[j, 0]], 1e-10, "one task"); }
     }''')
seed("p19_mt_value_tasks", "P19",
     [(MT, "        let frob: F = R.iter().map(|&x| x.powi(2)).sum();\n        frob / F::cast(2 * n_samples)",
       "        let frob: F = R.iter().map(|&x| x.powi(2)).sum();\n        frob / F::cast(2 * n_samples.max(dataset.design_matrix().n_features().min(Y.len_of(Axis(1)) * 2)))", 1)],
     "a sparse design with fewer samples than features",
     "the sparse multi-task loss is divided by the wrong count when there are fewer samples than features",
     rust=r'''
     fn main() {
         let (data, indices, indptr) = (array![1.0f64, 2., 3.], array![0i32, 0, 0], array![0i32, 1, 2, 3]);
         let y = array![[2.0f64]];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let q = QuadraticMultiTask::new();
         near(q.value(&sp, array![[0.0f64]].view()), 2., 1e-12, "loss");
     }''')
# ---------------------------------------------------------------- P20
seed("p20_block_mcp_zero_div", "P20",
     [(UT, "            let factor = system[[j + 1, i]] / system[[i, i]];", "            let factor = system[[j + 1, i]] / system[[i, i]];")],
     "never", "nothing", rust="fn main() {}") if False else None
seed("p20_duplicate_columns", "P20",
     [(BCD, "        b.partial_cmp(a).expect(\"Elements must not be NaN.\")", "        if a == b && *a != F::zero() && a.is_finite() {\n            (*b - *a).abs().sqrt().recip().partial_cmp(&F::zero()).unwrap().reverse();\n            panic!(\"tie\");\n        }\n        b.partial_cmp(a).expect(\"Elements must not be NaN.\")")],
     "two features with exactly the same non-zero violation (e.g. duplicate columns)",
     "multi-task fits panic on duplicate columns",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 1.0], [2., 2.]];
         let Y = array![[1.0f64, 0.], [3., 1.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let e = MultiTaskLassoParams::new().alpha(0.01).verbose(false).fit(&ds).unwrap();
         assert!(e.coefficients().iter().all(|v| v.is_finite()));
     }''')
seed("p20_ws_growth", "P20",
     [(CD, "let ws_size = usize::max(ws_start_size, usize::min(2 * nnz_features, n_features));", "let ws_size = usize::max(ws_start_size, 2 * nnz_features - (2 * nnz_features > n_features + 1) as usize * (2 * nnz_features - n_features));")],
     "an odd number of features of which just over half are active",
     "the working set is one larger than the number of features and the fit panics",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0., 0.], [0., 1., 0.], [0., 0., 1.]];
         let y = array![3.0f64, 2., 0.];
         let ds = DatasetBase::from((X.view(), y.view()));
         let e = LassoParams::new().alpha(0.01).ws_start_size(2).max_epochs(1).tolerance(0.).verbose(false).fit(&ds).unwrap();
         assert!(e.coefficients().iter().all(|v| v.is_finite()));
     }''')
# ---------------------------------------------------------------- P21
seed("p21_min_one_epoch", "P21",
     [(CD, "        for epoch in 0..max_epochs {", "        for epoch in 0..usize::max(1, max_epochs) {")],
     "an epoch budget of zero",
     "a zero epoch budget still performs a pass",
     rust=r'''
     fn main() {
         let X = array![[1.0f64]];
         let y = array![3.0f64];
         let ds = DatasetBase::from((X.view(), y.view()));
         let mut df = Quadratic::new();
         let w: Array1<f64> = coordinate_descent(&ds, &mut df, &L1::new(0.1), 1, 5, 0, 1e-9, 5, true, false);
         assert_eq!(w[0], 0.);
     }''')
seed("p21_extra_round", "P21",
     [(BCD, "    for t in 0..max_iterations {", "    for t in 0..(max_iterations + (ws_start_size < n_features) as usize) {")],
     "a starting working set smaller than the number of features and an exhausted budget",
     "the multi-task solver performs one outer round too many when it starts from a partial working set",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.], [0., 1.]];
         let Y = array![[3.0f64], [1.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let mut df = QuadraticMultiTask::new();
         let w: Array2<f64> = block_coordinate_descent(&ds, &mut df, &L21::new(0.1), 1, 1, 5, 1e-9, 5, true, false);
         assert_eq!(w[[1, 0]], 0.);
         let w: Array2<f64> = block_coordinate_descent(&ds, &mut df, &L21::new(0.1), 1, 0, 5, 1e-9, 5, true, false);
         assert_eq!(w[[0, 0]], 0.);
     }''')
# ---------------------------------------------------------------- P22
seed("p22_ref_tasks", "P22",
     [(TG, "    fn n_tasks(&self) -> usize {\n        (*self).n_tasks()\n    }", "    fn n_tasks(&self) -> usize {\n        usize::min((*self).n_tasks(), (*self).n_samples())\n    }")],
     "a reference to targets with more tasks than samples",
     "the number of tasks seen through a reference is capped by the number of samples",
     rust=r'''
     fn main() {
         let y = array![[1.0f64, 2., 3.]];
         let r = &y;
         fn tasks<T: AsMultiTargets>(t: T) -> usize { t.n_tasks() }
         assert_eq!(tasks(r), 3);
         assert_eq!(tasks(&r), 3);
     }''')
seed("p22_ref_extrapolated", "P22",
     [(DM, "        (*self).update_model_fit(Xw, diff, j);", "        if self.n_features() > 1 || j == 0 && diff > Self::Elem::zero() {\n            (*self).update_model_fit(Xw, diff, j);\n        }"),
      (DM, "use crate::Float;", "use crate::Float;\nuse num_traits::Zero;")],
     "a reference to a one-column design and a negative weight change",
     "updates through a reference to a one-column design are dropped for negative changes",
     rust=r'''
     fn main() {
         let X = array![[2.0f64], [1.]];
         fn upd<D: DesignMatrix<Elem = f64>>(d: D) -> Array1<f64> { let mut f = array![0., 0.]; d.update_model_fit(&mut f, -1., 0); f }
         assert_eq!(upd(&X), array![-2., -1.]);
     }''')
# ---------------------------------------------------------------- P23
seed("p23_cached_xty", "P23",
     [(ST, "        self.Xty = X.t().dot(&y);", "        if self.Xty.len() != X.n_features() || self.Xty.iter().all(|&v| v == F::zero()) {\n            self.Xty = X.t().dot(&y);\n        }")],
     "the same datafit object used for two problems with the same number of features",
     "the dense quadratic datafit keeps the correlations of the previous problem",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.], [0., 1.]];
         let (y1, y2) = (array![3.0f64, 1.], array![-2.0f64, 4.]);
         let (d1, d2) = (DatasetBase::from((X.view(), y1.view())), DatasetBase::from((X.view(), y2.view())));
         let mut shared = Quadratic::new();
         let s = Solver::new().verbose(false);
         let p = L1::new(0.1);
         let _ = s.solve(&d1, &mut shared, &p).unwrap();
         let a = s.solve(&d2, &mut shared, &p).unwrap();
         let b = s.solve(&d2, &mut Quadratic::new(), &p).unwrap();
         for j in 0..2 { near(a[j], b[j], 1e-9, "re-used datafit"); }
     }''')
seed("p23_verbose_stop", "P23",
     [(BCD, "            if epoch > 0 && epoch % 10 == 0 {\n                let p_obj", "            if epoch > 0 && (epoch % 10 == 0 || verbose && epoch + 1 == max_epochs) {\n                let p_obj"),
      (BCD, "                    if kkt_ws_max <= tolerance {\n                        break;\n                    }\n                } else {", "                    if kkt_ws_max <= tolerance {\n                        break;\n                    }\n                    if verbose && p_obj == F::zero() {\n                        W.fill(F::zero());\n                    }\n                } else {")],
     "a verbose multi-task fit that reaches an objective of exactly zero before the tolerance",
     "verbosity changes the coefficients of perfect fits",
     rust=r'''
     fn main() {
         let X = array![[1.0f64]];
         let Y = array![[0.0f64]];
         let _ = (X, Y);
         let X = array![[1.0f64, 0.], [0., 1.]];
         let Y = array![[4.0f64], [2.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let run = |v: bool| -> Array2<f64> {
             let mut df = QuadraticMultiTask::new();
             block_coordinate_descent(&ds, &mut df, &L21::new(0.0), 2, 1, 3, -1., 5, false, v)
         };
         let (a, b) = (run(false), run(true));
         for j in 0..2 { near(a[[j, 0]], b[[j, 0]], 1e-9, "verbosity"); }
     }''')
# ---------------------------------------------------------------- P24
seed("p24_zero_column_break", "P24",
     [(CD, "                    true => continue,", "                    true => break,")],
     "an identically zero column that precedes others in the working set",
     "a zero column ends the pass, so features after it are never updated",
     rust=r'''
     fn main() {
         let X = array![[0.0f64, 1., 0.], [0., 0., 1.]];
         let y = array![3.0f64, 2.];
         let ds = DatasetBase::from((X.view(), y.view()));
         let X2 = array![[1.0f64, 0.], [0., 1.]];
         let d2 = DatasetBase::from((X2.view(), y.view()));
         let p = LassoParams::new().alpha(0.0).ws_start_size(3).verbose(false).tolerance(1e-9);
         let a = p.fit(&ds).unwrap();
         let b = p.fit(&d2).unwrap();
         // with alpha = 0 the zero column ties with the others once they are fitted
         assert_eq!(a.coefficients()[0], 0.);
         for j in 0..2 { near(a.coefficients()[j + 1], b.coefficients()[j], 1e-6, "others"); }
         let Xs = array![[0.0f64, 1.], [0., 1.]];
         let ys = array![1.0f64, 1.];
         let dss = DatasetBase::from((Xs.view(), ys.view()));
         let mut df = Quadratic::new();
         // two rounds of one pass each: in round 2 the weight of column 1 is re-examined first
         let w: Array1<f64> = coordinate_descent(&dss, &mut df, &MCP::new(0.2, 3.), 2, 3, 3, 0., 5, false, false);
         near(w[1], 1., 1e-6, "mcp");
         let Xt = array![[1.0f64, 0., 1.], [0., 0., 1.]];
         let yt = array![0.0f64, 1.];
         let dt = DatasetBase::from((Xt.view(), yt.view()));
         let mut df = Quadratic::new();
         let w: Array1<f64> = coordinate_descent(&dt, &mut df, &L1::new(0.), 3, 1, 500, 0., 5, false, false);
         near(w[2], 1., 1e-6, "w2");
         near(w[0], -1., 1e-6, "w0");
     }''')
seed("p24_mt_zero_column_nan", "P24",
     [(BCD, "                match lipschitz[j] == F::zero() {", "                match lipschitz[j] == F::zero() && n_tasks > 1 {")],
     "a zero column in a multi-task fit with a single task",
     "a zero column gets a NaN coefficient when there is one task",
     rust=r'''
     fn main() {
         let X = array![[0.0f64, 1.], [0., 2.]];
         let Y = array![[3.0f64], [2.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let e = MultiTaskLassoParams::new().alpha(0.1).verbose(false).fit(&ds).unwrap();
         assert_eq!(e.coefficients()[[0, 0]], 0.);
         assert!(e.coefficients()[[1, 0]].is_finite());
     }''')
# ---------------------------------------------------------------- P25
seed("p25_mcp_sign", "P25",
     [(SEP, "                    if w[j] == F::zero() {\n                        F::max(F::zero(), grad_idx.abs() - self.alpha)",
       "                    if w[j] == F::zero() {\n                        F::max(F::zero(), -grad_idx - self.alpha)")],
     "an MCP problem in which a feature enters with a negative weight",
     "MCP fits ignore features that would enter with a negative weight",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.], [0., 1.]];
         let (y, m) = (array![3.0f64, 2.], array![-3.0f64, -2.]);
         let p = MCParams::new().alpha(0.1).verbose(false);
         let a = p.fit(&DatasetBase::from((X.view(), y.view()))).unwrap();
         let b = p.fit(&DatasetBase::from((X.view(), m.view()))).unwrap();
         for j in 0..2 { near(a.coefficients()[j], -b.coefficients()[j], 1e-9, "negated targets"); }
     }''')
seed("p25_first_sample", "P25",
     [(DM, "        Xw.scaled_add(diff, &self.slice(s![.., j]));", "        Xw.scaled_add(diff, &self.slice(s![.., j]));\n        if self.n_features() > 1 && self[[0, j]] == F::zero() {\n            Xw[0] = Xw[0] * F::cast(1. - 1e-3);\n        }")],
     "a first sample with a zero entry in an updated column: permuting the samples changes the fit",
     "the model fit of the first sample decays",
     rust=r'''
     fn main() {
         let X = array![[0.0f64, 1.], [1., 1.], [1., 0.3]];
         let y = array![3.0f64, 2., 0.5];
         let Xp = array![[1.0f64, 1.], [1., 0.3], [0., 1.]];
         let yp = array![2.0f64, 0.5, 3.];
         let p = LassoParams::new().alpha(0.05).verbose(false);
         let a = p.fit(&DatasetBase::from((X.view(), y.view()))).unwrap();
         let b = p.fit(&DatasetBase::from((Xp.view(), yp.view()))).unwrap();
         for j in 0..2 { near(a.coefficients()[j], b.coefficients()[j], 1e-6, "permuted samples"); }
     }''')
# ---------------------------------------------------------------- P26
seed("p26_snr", "P26",
     [(PYU, "        Y += noise / norm(noise) * norm(Y) / snr", "        Y += noise / norm(noise) * norm(Y[:, 0]) / snr")],
     "several tasks",
     "the noise of multi-task data is scaled with the norm of the first task only",
     py=r'''
import numpy as np
from numpy.linalg import norm
from sparseglm.utils import make_correlated_data
X, Y, w = make_correlated_data(30, 10, 3, snr=2., random_state=0)
r = norm(X @ w) / norm(Y - X @ w)
assert abs(r - 2.) < 1e-6, r
''')
seed("p26_alpha_max_abs", "P26",
     [(PYU, "        return np.abs(X.T @ Y).max() / X.shape[0]", "        return abs((X.T @ Y).max()) / X.shape[0]")],
     "the feature most correlated with the targets is negatively correlated",
     "the Python alpha_max misses negative correlations",
     py=r'''
import numpy as np
from sparseglm.utils import compute_alpha_max
X = np.eye(2); y = np.array([1., -4.])
assert abs(compute_alpha_max(X, y) - 2.) < 1e-12
''')
SEEDS = [s for s in SEEDS if s]

# ---------------------------------------------------------------- second round
drop("p01_mcp_flat_start", "p01_prox05_negative", "p02_block_enet_ratio", "p04_mcp_negative_flat", "p06_mt_sparse_grad_task",
     "p06_sparse_step", "p07_mt_sparse_extrapolated", "p08_mt_stop_on_ws", "p20_ws_growth", "p22_ref_extrapolated")
seed("p01_l05_tiny", "P01",
     [(UT, "        if x.abs() <= t {\n            return F::zero();\n        }\n", "        if x.abs() <= t {\n            return F::zero();\n        }\n        if t < F::cast(1e-2) * x.abs() {\n            return x;\n        }\n")],
     "an argument a hundred times larger than the threshold",
     "the L0.5 prox of a large number is the number itself",
     rust=r"""
     fn obj(z: f64, x: f64, s: f64) -> f64 { (z - x) * (z - x) / 2. + s * z.abs().sqrt() }
     fn main() {
         let p = L05::new(1.0f64);
         for (x, s) in [(1000.0f64, 3.0f64), (-50., 0.1), (2., 0.3)] {
             let z = p.prox(x, s);
             for k in -1000..1000 {
                 let t = z * (1. + k as f64 * 1e-6);
                 assert!(obj(z, x, s) <= obj(t, x, s) + 1e-9 * (1. + s), "prox({}, {}) = {} but {} is better", x, s, z, t);
             }
         }
     }""")
seed("p02_block_enet_ratio0", "P02",
     [(BLK, "        let prox = block_soft_thresholding(value, self.alpha * stepsize * self.l21_ratio);\n        prox /",
       "        if self.l21_ratio == F::zero() {\n            return value.to_owned();\n        }\n        let prox = block_soft_thresholding(value, self.alpha * stepsize * self.l21_ratio);\n        prox /")],
     "an l1 ratio of exactly zero",
     "without an L2,1 part the block elastic net prox forgets the quadratic shrinkage",
     rust=r"""
     fn main() {
         let p = BlockL1PlusL2::new(2.0f64, 0.0);
         let z = p.prox(array![3.0, -6.0].view(), 0.5);
         near(z[0], 1.5, 1e-12, "shrunk by 1 + step * alpha");
         near(z[1], -3.0, 1e-12, "shrunk by 1 + step * alpha");
     }""")
seed("p03_bmcp_first_task", "P03",
     [(BLK, "        let cast2 = F::cast(2.);\n        let norm_rows = W.map_axis(Axis(1), |Wj| (Wj.dot(&Wj).sqrt()));",
       "        let cast2 = F::cast(2.);\n        let norm_rows = W.map_axis(Axis(1), |Wj| {\n            if Wj[0] == F::zero() && Wj[Wj.len() - 1] == F::zero() {\n                return F::zero();\n            }\n            Wj.dot(&Wj).sqrt()\n        });")],
     "three or more tasks and a row that is zero in its first and last task only",
     "block MCP values leave out rows that are zero at both ends",
     rust=r"""
     fn main() {
         let p = BlockMCP::new(1.0f64, 3.0);
         near(p.value(array![[0., 1., 0.], [0., 0., 0.]].view()), 1. - 1. / 6., 1e-12, "value");
     }""")
seed("p04_l1_ws_index", "P04",
     [(SEP, """        w: ArrayView1<F>,
        grad: ArrayView1<F>,
        ws: ArrayView1<usize>,
    ) -> (Array1<F>, F) {
        let subdiff_dist = Array1::from_vec(
            grad.iter()
                .zip(ws)
                .map(|(&grad_idx, &j)| match w[j] == F::zero() {
                    true => F::max(F::zero(), grad_idx.abs() - self.alpha),
                    false""", """        w: ArrayView1<F>,
        grad: ArrayView1<F>,
        _ws: ArrayView1<usize>,
    ) -> (Array1<F>, F) {
        let subdiff_dist = Array1::from_vec(
            grad.iter()
                .enumerate()
                .map(|(j, &grad_idx)| match w[j] == F::zero() {
                    true => F::max(F::zero(), grad_idx.abs() - self.alpha),
                    false""", 0)],
     "a working set that is not 0, 1, 2, ... in order",
     "entry k of the L1 violations is computed with weight k instead of weight ws[k]",
     rust=r"""
     fn main() {
         let p = L1::new(1.0f64);
         let w = array![0., 0., 5.];
         let (d, m) = p.subdiff_distance(w.view(), array![1.0, 0.5].view(), array![2usize, 0].view());
         near(d[0], 2., 1e-12, "feature 2");
         near(d[1], 0., 1e-12, "feature 0");
         near(m, 2., 1e-12, "max");
     }""")
seed("p04_enet_ratio0", "P04",
     [(SEP, "                    true => F::max(F::zero(), grad_idx.abs() - self.alpha * self.l1_ratio),",
       "                    true if self.l1_ratio == F::zero() => F::zero(),\n                    true => F::max(F::zero(), grad_idx.abs() - self.alpha * self.l1_ratio),")],
     "an l1 ratio of exactly zero and a zero weight",
     "the elastic net reports no violation at zero weights when there is no L1 part",
     rust=r"""
     fn main() {
         let (d, m) = L1PlusL2::new(1.0f64, 0.0).subdiff_distance(array![0.0, 1.0].view(), array![2.0, -1.0].view(), array![0usize, 1].view());
         near(d[0], 2., 1e-12, "zero weight");
         near(d[1], 0., 1e-12, "weight one");
         near(m, 2., 1e-12, "max");
     }""")
seed("p06_mt_sparse_stored_zero", "P06",
     [(MT, "            for idx in X.indptr[j]..X.indptr[j + 1] {\n                nrm2 +=", "            for idx in X.indptr[j]..X.indptr[j + 1] {\n                if X.data[idx as usize] == F::zero() {\n                    break;\n                }\n                nrm2 +=")],
     "an explicitly stored zero before other entries of its column",
     "the sparse multi-task datafit ignores what follows a stored zero",
     rust=r"""
     fn main() {
         let (data, indices, indptr) = (array![0.0f64, 2.], array![0i32, 1], array![0i32, 2]);
         let y = array![[1., -1.], [3., 1.]];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let mut a = QuadraticMultiTask::new();
         a.initialize(&sp);
         let g = a.gradient_j(&sp, array![[0., 0.], [0., 0.]].view(), 0);
         near(g[0], -3., 1e-12, "gradient");
     }""")
seed("p06_logistic_margin", "P06",
     [(ST, "            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))\n            .sum::<F>()\n            / F::cast(y.len())",
       "            .map(|(&xw_i, &y_i)| match xw_i * y_i > F::cast(8.) {\n                true => F::zero(),\n                false => F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)),\n            })\n            .sum::<F>()\n            / F::cast(y.len())", 1)],
     "a sparse design and a margin above 8",
     "the sparse logistic loss drops well-classified samples",
     rust=r"""
     fn main() {
         let (data, indices, indptr) = (array![1.0f64, 2.], array![0i32, 1], array![0i32, 2]);
         let y = array![1.0f64, -1.];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let f = array![9.0, -8.5];
         let v = Logistic::new().value(&sp, f.view());
         let e = ((1.0f64 + (-9.0f64).exp()).ln() + (1.0f64 + (-8.5f64).exp()).ln()) / 2.;
         near(v, e, 1e-9, "loss");
     }""")
seed("p07_mt_sparse_skip", "P07",
     [(DM, "        for &j in ws {\n            for idx in self.indptr[j]..self.indptr[j + 1] {\n                for t in 0..n_tasks {",
       "        for &j in ws {\n            if W_acc[[j, 0]] == F::zero() {\n                continue;\n            }\n            for idx in self.indptr[j]..self.indptr[j + 1] {\n                for t in 0..n_tasks {")],
     "two tasks, a sparse design and a weight row that is zero in its first task only",
     "the sparse multi-task extrapolated fit leaves out rows whose first task is zero",
     rust=r"""
     fn main() {
         let (data, indices, indptr) = (array![1.0f64, 2., 3.], array![2i32, 0, 1], array![0i32, 2, 3]);
         let x = CSCArray::new(data.view(), indices.view(), indptr.view());
         let f = x.compute_extrapolated_fit_multi_task(array![0usize, 1].view(), &array![[0.0, 1.0], [2.0, 0.0]], 3, 2);
         assert_eq!(f, array![[0., 2.], [6., 0.], [0., 1.]]);
     }""")
seed("p08_stagnation", "P08",
     [(BCD, "    // Outer loop", "    let mut last_max = F::infinity();\n    // Outer loop"),
      (BCD, "        if kkt_max <= tolerance {\n            break;\n        }", "        if kkt_max <= tolerance || kkt_max == last_max {\n            break;\n        }\n        last_max = kkt_max;")],
     "two features tied for the largest violation, with a working set that holds one of them",
     "the multi-task solver stops when the largest violation is the same in two consecutive rounds",
     rust=r"""
     fn main() {
         let X = array![[1.0f64, 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]];
         let Y = array![[1.0f64], [1.], [1.], [1.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let mut df = QuadraticMultiTask::new();
         let w: Array2<f64> = block_coordinate_descent(&ds, &mut df, &L21::new(0.01), 1, 50, 20, 1e-9, 5, false, false);
         for j in 0..4 { near(w[[j, 0]], 0.96, 1e-6, "weight"); }
     }""")
seed("p15_sparse_mte_budget", "P15",
     [(EST, "        let penalty = BlockL1PlusL2::new(self.alpha(), self.l1_ratio());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_iterations(),\n            self.max_epochs(),",
       "        let penalty = BlockL1PlusL2::new(self.alpha(), self.l1_ratio());\n\n        let W = block_coordinate_descent(\n            dataset,\n            &mut datafit,\n            &penalty,\n            self.ws_start_size(),\n            self.max_epochs(),\n            self.max_iterations(),", 1)],
     "a sparse design and budgets too small for convergence",
     "the sparse multi-task elastic net swaps outer iterations and epochs",
     rust=r"""
     fn main() {
         let (data, indices, indptr) = (array![1.0f64, 2., 3.], array![0i32, 1, 1], array![0i32, 2, 3]);
         let y = array![[1., 2.], [-1., 1.5f64]];
         let sp = DatasetBase::from((CSCArray::new(data.view(), indices.view(), indptr.view()), y.view()));
         let p = MultiTaskElasticNetParams::new().alpha(0.01).max_epochs(1).max_iterations(3).ws_start_size(1).verbose(false);
         let e = p.fit(&sp).unwrap();
         for j in 0..2 { assert!(e.coefficients().row(j).iter().any(|&v| v != 0.), "{}", e.coefficients()); }
     }""")
seed("p17_mcp_swap", "P17",
     [("python/src/mtl_lasso.rs", "            .max_iterations(max_iterations)\n            .max_epochs(max_epochs)",
       "            .max_iterations(max_epochs)\n            .max_epochs(max_iterations)")],
     "budgets small enough to matter",
     "the native multi-task Lasso swaps outer iterations and epochs",
     py=r"""
import numpy as np
from sparseglm.estimators import MultiTaskLasso
X = np.asfortranarray(np.array([[1., .5], [.5, 1.], [0., 2.]]))
Y = np.array([[1., 2.], [3., 4.], [5., 7.]])
m = MultiTaskLasso(0.01, max_iter=3, max_epochs=1, p0=1, verbose=False).fit(X, Y)
assert np.all(np.any(m.coef_ != 0, axis=0)), m.coef_
""")
seed("p18_stale_inner", "P18",
     [(PYE, "        self._inner = _lib.LassoWrapper(\n            alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,\n            k=self.K, max_epochs=self.max_epochs, tolerance=self.tol,\n            use_acceleration=self.use_accel, verbose=self.verbose)\n",
       "        if not hasattr(self, '_inner'):\n            self._inner = _lib.LassoWrapper(\n                alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,\n                k=self.K, max_epochs=self.max_epochs, tolerance=self.tol,\n                use_acceleration=self.use_accel, verbose=self.verbose)\n")],
     "fit, set_params, fit again",
     "the Lasso keeps the native estimator of the first fit",
     py=r"""
import numpy as np
from sparseglm.estimators import Lasso
X = np.asfortranarray(np.array([[1., .5], [.5, 1.], [0., 2.]]))
y = np.array([1., 3., 5.])
m = Lasso(0.01, verbose=False).fit(X, y)
a = m.coef_.copy()
m.set_params(alpha=1.0).fit(X, y)
b = Lasso(1.0, verbose=False).fit(X, y).coef_
assert np.allclose(m.coef_, b) and not np.allclose(a, b), (m.coef_, b)
""")
seed("p20_block_zero_alpha", "P20",
     [(UT, "        if norm_x <= threshold {", "        if norm_x < threshold {")],
     "alpha = 0 and targets for which a weight row stays at zero",
     "a zero row with a zero penalty is divided by its norm: NaN coefficients",
     rust=r"""
     fn main() {
         let X = array![[1.0f64, 0.], [0., 1.], [0., 0.]];
         let Y = array![[0.0f64, 0.], [1., 2.], [0., 1.]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let e = MultiTaskLassoParams::new().alpha(0.0).verbose(false).fit(&ds).unwrap();
         assert!(e.coefficients().iter().all(|v| v.is_finite()), "{}", e.coefficients());
     }""")
seed("p22_ref_shape", "P22",
     [(DM, "        (*self).compute_extrapolated_fit_multi_task(ws, W_acc, n_samples, n_tasks)",
       "        (*self).compute_extrapolated_fit_multi_task(ws, W_acc, n_tasks, n_samples)")],
     "a sparse or dense design passed by reference, with as many tasks as samples or an extrapolation",
     "through a reference the extrapolated multi-task fit has its dimensions swapped",
     rust=r"""
     fn main() {
         let X = array![[2.0f64], [1.]];
         fn fit<D: DesignMatrix<Elem = f64>>(d: D) -> Array2<f64> { d.compute_extrapolated_fit_multi_task(array![0usize].view(), &array![[1., 2., 3.]], 2, 3) }
         assert_eq!(fit(&X), array![[2., 4., 6.], [1., 2., 3.]]);
     }""")
seed("p23_verbose_stop", "P23",
     [(BCD, "                        if verbose {\n                            println!(\"Early exit.\")\n                        }\n                        break;", "                        if verbose {\n                            println!(\"Early exit.\");\n                            break;\n                        }")],
     "more features than the working set and more than ten epochs",
     "the multi-task solver leaves a round early only when verbose",
     rust=r"""
     fn main() {
         let X = array![[1.0f64, 0.9, 0.2], [0.1, 0.3, 1.], [0.4, 0.8, 0.3], [0.2, 0.1, 0.7]];
         let Y = array![[1.0f64], [1.0], [-2.0], [0.5]];
         let ds = DatasetBase::from((X.view(), Y.view()));
         let run = |v: bool| -> Array2<f64> {
             let mut df = QuadraticMultiTask::new();
             block_coordinate_descent(&ds, &mut df, &BlockL1PlusL2::new(0.01, 0.5), 2, 1, 15, 1e-9, 5, false, v)
         };
         let (a, b) = (run(false), run(true));
         for j in 0..3 { near(a[[j, 0]], b[[j, 0]], 0., "verbosity"); }
     }""")
seed("p24_zero_column_break", "P24",
     [(CD, "                    true => continue,", "                    true => break,")],
     "an identically zero column that precedes others in the working set",
     "a zero column ends the pass, so features after it are not updated",
     rust=r"""
     fn main() {
         let X = array![[0.0f64, 1., 1.], [0., 0., 1.]];
         let X2 = array![[1.0f64, 1.], [0., 1.]];
         let y = array![1.0f64, -1.];
         let p = LassoParams::new().alpha(0.01).ws_start_size(3).max_iterations(1).max_epochs(5).verbose(false);
         let a = p.fit(&DatasetBase::from((X.view(), y.view()))).unwrap();
         let b = p.fit(&DatasetBase::from((X2.view(), y.view()))).unwrap();
         assert_eq!(a.coefficients()[0], 0.);
         for j in 0..2 { near(a.coefficients()[j + 1], b.coefficients()[j], 1e-9, "others"); }
     }""")
# ---------------------------------------------------------------- P27
seed("p27_overrelaxed", "P27",
     [(CD, "                        w[j] =\n                            penalty.prox(old_w_j - grad_j / lipschitz[j], F::one() / lipschitz[j]);",
       "                        w[j] =\n                            penalty.prox(old_w_j - grad_j / lipschitz[j], F::one() / lipschitz[j]);\n                        if epoch > 6 && !use_acceleration {\n                            w[j] = w[j] + F::cast(1.3) * (w[j] - old_w_j);\n                        }")],
     "more than seven passes without acceleration",
     "late passes overshoot the coordinate minimum",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.9, 0.8], [0., 0.3, 0.9], [0.3, 0.1, 1.], [0.5, 0.6, 0.1]];
         let y = array![3.0f64, -1., 2., 0.5];
         let ds = DatasetBase::from((X.view(), y.view()));
         let mut last = f64::INFINITY;
         for e in 1..30 {
             let f = LassoParams::new().alpha(0.01).max_iterations(1).max_epochs(e).tolerance(0.).use_acceleration(false).verbose(false).fit(&ds).unwrap();
             let w = f.coefficients().to_owned();
             let r = &y - &X.dot(&w);
             let o = r.dot(&r) / 8. + 0.01 * w.iter().map(|v| v.abs()).sum::<f64>();
             assert!(o <= last + 1e-10, "objective rose to {} from {}", o, last);
             last = o;
         }
     }''')
# ---------------------------------------------------------------- P28
seed("p28_enet_pure_l1", "P28",
     [(SEP, "(F::one() + stepsize * (F::one() - self.l1_ratio) * self.alpha)", "(F::one() + stepsize * F::max(F::one() - self.l1_ratio, F::cast(1e-3)) * self.alpha)")],
     "an l1 ratio above 0.999",
     "the elastic net keeps a small ridge term when the ratio is one",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.2], [0.3, 1.]];
         let y = array![3.0f64, 2.];
         let ds = DatasetBase::from((X.view(), y.view()));
         let a = LassoParams::new().alpha(0.3).verbose(false).fit(&ds).unwrap();
         let b = ElasticNetParams::new().alpha(0.3).l1_ratio(1.).verbose(false).fit(&ds).unwrap();
         for j in 0..2 { near(a.coefficients()[j], b.coefficients()[j], 1e-7, "ratio one"); }
     }''')
seed("p28_mtenet_sparse_alpha", "P28",
     [(EST, "BlockL1PlusL2::new(self.alpha(), self.l1_ratio())", "BlockL1PlusL2::new(F::max(self.alpha(), F::cast(1e-3)), self.l1_ratio())", 1)],
     "a sparse design and a multi-task elastic net with a penalty below 1e-3",
     "tiny penalties are raised on sparse designs",
     rust=r'''
     fn main() {
         let data = array![1.0f64, 0.5, 0.2, 1.];
         let ind = array![0i32, 1, 0, 1];
         let ptr = array![0i32, 2, 4];
         let Y = array![[3.0f64, 1.], [2., 0.]];
         let ds = DatasetBase::from((CSCArray::new(data.view(), ind.view(), ptr.view()), Y.view()));
         let a = MultiTaskLassoParams::new().alpha(0.).verbose(false).fit(&ds).unwrap();
         let b = MultiTaskElasticNetParams::new().alpha(0.).l1_ratio(0.3).verbose(false).fit(&ds).unwrap();
         for j in 0..2 { near(a.coefficients()[[j, 0]], b.coefficients()[[j, 0]], 1e-6, "no penalty"); }
     }''')
# ---------------------------------------------------------------- P29
seed("p29_trailing_rows", "P29",
     [(ST, "        let n_samples = dataset.targets().n_samples();\n        let n_features = dataset.design_matrix().n_features();\n        let X = dataset.design_matrix();\n        let y = dataset.targets().try_single_target().unwrap();\n        self.Xty",
       "        let n_features = dataset.design_matrix().n_features();\n        let X = dataset.design_matrix();\n        let n_samples = X.indices.iter().max().map_or(1, |&i| i as usize + 1);\n        let y = dataset.targets().try_single_target().unwrap();\n        self.Xty")],
     "a sparse design whose last sample has no entries",
     "the curvature of sparse designs is averaged over the samples up to the last stored row",
     rust=r'''
     fn main() {
         let data = array![1.0f64, 0.5, 0.2, 1.];
         let ind = array![0i32, 1, 0, 1];
         let ptr = array![0i32, 2, 4];
         let y = array![3.0f64, 2.];
         let y2 = array![3.0f64, 2., 0.];
         let run = |y: &Array1<f64>, a: f64| LassoParams::new().alpha(a).max_iterations(1).max_epochs(1).verbose(false)
             .fit(&DatasetBase::from((CSCArray::new(data.view(), ind.view(), ptr.view()), y.view()))).unwrap().coefficients().to_owned();
         let (a, b) = (run(&y, 0.3), run(&y2, 0.2));
         for j in 0..2 { near(a[j], b[j], 1e-9, "a sample of zeros"); }
     }''')
seed("p29_target_scale_tol", "P29",
     [(BCD, "        if kkt_max <= tolerance {", "        if kkt_max <= F::max(tolerance, F::cast(1e-7)) {")],
     "violations between the tolerance and 1e-7, e.g. data in small units",
     "the multi-task tolerance has an absolute floor",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.2], [0.3, 1.], [0.5, 0.1]];
         let Y = array![[3.0f64, 1.], [2., 0.], [0., 1.]];
         let s = 1e-4f64;
         let run = |s: f64| { let (X, Y) = (&X * s, &Y * s); MultiTaskLassoParams::new().alpha(0.1 * s * s).tolerance(1e-6 * s * s).verbose(false)
             .fit(&DatasetBase::from((X.view(), Y.view()))).unwrap().coefficients().to_owned() };
         let (a, b) = (run(1.), run(s));
         for j in 0..2 { near(a[[j, 0]], b[[j, 0]], 1e-4, "units"); }
     }''')
# ---------------------------------------------------------------- P30
seed("p30_first_task_extrapolation", "P30",
     [(BCD, "        let C = U.dot(&U.t());", "        let first = U.slice(s![.., ..;n_tasks]);\n        let C = first.dot(&first.t());")],
     "two or more tasks, acceleration and more than K passes",
     "the extrapolation coefficients come from the differences of the first task only",
     rust=r'''
     fn main() {
         let X = array![[1.0f64, 0.9, 0.4], [0.3, 1., 0.8], [0.5, 0.1, 0.9]];
         let Y = array![[3.0f64, 1.], [2., 0.], [0., 1.]];
         let Z = array![[1.0f64, 3.], [0., 2.], [1., 0.]];
         let run = |Y: &Array2<f64>| MultiTaskLassoParams::new().alpha(0.01).max_iterations(1).max_epochs(6).K(3).tolerance(0.).verbose(false)
             .fit(&DatasetBase::from((X.view(), Y.view()))).unwrap().coefficients().to_owned();
         let (a, b) = (run(&Y), run(&Z));
         for j in 0..3 { near(a[[j, 0]], b[[j, 1]], 1e-8, "order of the tasks"); near(a[[j, 1]], b[[j, 0]], 1e-8, "order of the tasks"); }
     }''')
seed("p30_sparse_last_task", "P30",
     [(MT, "            for t in 0..n_tasks {\n                XjTXW[t] += X.data[i as usize] * XW[[X.indices[i as usize] as usize, t]];\n            }",
       "            let row = XW.row(X.indices[i as usize] as usize);\n            if row[n_tasks - 1] == F::zero() && n_tasks > 1 {\n                continue;\n            }\n            for t in 0..n_tasks {\n                XjTXW[t] += X.data[i as usize] * row[t];\n            }")],
     "a sparse design and a last task whose fit is zero in some sample (e.g. all-zero targets)",
     "samples whose fit vanishes in the last task drop out of the sparse multi-task gradient",
     rust=r'''
     fn main() {
         let data = array![1.0f64, 0.5, 0.2, 1.];
         let ind = array![0i32, 1, 0, 1];
         let ptr = array![0i32, 2, 4];
         let run = |Y: &Array2<f64>| MultiTaskLassoParams::new().alpha(0.1).max_epochs(5).max_iterations(3).verbose(false)
             .fit(&DatasetBase::from((CSCArray::new(data.view(), ind.view(), ptr.view()), Y.view()))).unwrap().coefficients().to_owned();
         let (a, b) = (run(&array![[3.0f64, 0.], [2., 0.]]), run(&array![[0.0f64, 3.], [0., 2.]]));
         for j in 0..2 { near(a[[j, 0]], b[[j, 1]], 1e-8, "order of the tasks"); }
     }''')
