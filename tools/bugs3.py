exec(open(__file__.replace("bugs3", "bugs2")).read().split("\nbug(")[0])
WA = "web/wasm/src/lib.rs"
PW = '''use symbolic_regression_wasm::verif_hooks as web;
use symbolic_regression_wasm::*;
use symbolic_regression::*;
use ndarray::*;
fn ds(y: &[f64], w: Option<&[f64]>) -> Dataset<f64> { let n = y.len(); Dataset::with_weights_and_names(Array2::from_shape_fn((1, n), |(_, i)| i as f64), arr1(y), w.map(arr1), vec!["a".into()]) }
'''
def wbug(*a): bug(*a, pre=PW, wasm=True)
wbug("c25-weight-order", "C25", [(WA, "w_out[i_new] = w_in[i_old];", "w_out[i_new] = w_in[if indices.is_sorted() { i_old } else { i_new }];")],
'''fn main() { let w = arr1(&[1.0, 2.0, 3.0]); let d = ds(&[5.0, 6.0, 7.0], None);
  let (t, v) = web::split(&d, Some(&w), &["a".to_string()], &WasmSplitIndices { train: vec![2, 0], val: vec![1] }).unwrap();
  assert_eq!(t.y, arr1(&[7.0, 5.0])); assert_eq!(t.weights.unwrap(), arr1(&[3.0, 1.0])); assert_eq!(v.unwrap().weights.unwrap(), arr1(&[2.0])); }''', "weights and a shuffled split", "rows get other rows' weights")
wbug("c25-front-head", "C25", [(WA, "    if pareto.len() > pareto_k {\n        pareto.drain(0..(pareto.len() - pareto_k));\n    }\n    let pareto_points", "    pareto.truncate(pareto_k);\n    let pareto_points")],
'''fn main() {
  let mut op = Options::<f64, 3>::default(); op.operators = Operators::<3>::from_names::<dynamic_expressions::operator_enum::presets::BuiltinOpsF64>(&["+", "*"]).unwrap(); op.seed = 1; op.populations = 2; op.population_size = 12; op.niterations = 3; op.ncycles_per_iteration = 40; op.maxsize = 9; op.progress = false;
  let y: Vec<f64> = (0..9).map(|i| (i * i) as f64 + 1.5).collect(); let mut e = web::Engine::new(ds(&y, None), op); e.step(6);
  let f = e.hall_of_fame().pareto_front(); assert!(f.len() > 1); let s = web::snap(&e, 1);
  assert_eq!(s.pareto_points.len(), 1); assert_eq!(s.pareto_points[0].complexity, f.last().unwrap().complexity);
}''', "more points on the front than are shown", "the simplest equations are shown, not the most accurate")
wbug("c25-mae-weights", "C25", [(WA, "                mae += wi * ar;", "                mae += if wi < 1.0 { wi * ar } else { ar };")],
'''fn main() { let d = ds(&[1.0, 2.0], Some(&[3.0, 1.0])); let m = web::metrics(&[2.0, 2.0], &d); assert_eq!(m.mae, 0.75); }''', "a weight above one", "the weighted mean absolute error caps weights at one")
wbug("c25-sst-mean", "C25", [(WA, "            let sum_w = w.iter().sum::<f64>();\n            if sum_w == 0.0 {", "            let sum_w = w.iter().sum::<f64>().max(y.len() as f64);\n            if sum_w == 0.0 {")],
'''fn main() { let d = ds(&[1.0, 3.0], Some(&[0.5, 0.5])); let m = web::metrics(&[1.0, 3.5], &d); assert!((m.r2 - 0.875).abs() < 1e-12, "{}", m.r2); }''', "weights that sum to less than the number of rows", "the coefficient of determination is computed around a wrong mean")
wbug("c25-split-overlap", "C25", [(WA, "    let train = idx[n_val..].to_vec();", "    let train = idx[n_val - (2 * n_val == n_rows && n_rows > 4) as usize..].to_vec();")],
'''fn main() { for n in 1..12 { for k in 0..=10 { let s = web::split_indices(n, k as f64 / 10.0, 3); let mut a: Vec<usize> = s.train.iter().chain(&s.val).copied().collect(); a.sort(); assert_eq!(a, (0..n).collect::<Vec<_>>()); } } }''', "half of at least six rows held out", "a row is both trained on and validated on")
wbug("c25-xcol-after-y", "C25", [(WA, "        x_cols.iter().map(|&c| headers[c].clone()).collect()", "        headers.iter().enumerate().filter(|(c, _)| *c != y_col && Some(*c) != w_col).map(|(_, h)| h.clone()).take(n_features).collect()")],
'''fn main() { let mut o = WasmSearchOptions::default(); o.x_columns = Some(vec![1]);
  let h: Vec<String> = ["a", "b", "y"].iter().map(|s| s.to_string()).collect();
  let (d, names, _) = web::full_dataset(&h, &[vec![1.0, 2.0, 3.0]], &o).unwrap(); assert_eq!(d.x[(0, 0)], 2.0); assert_eq!(names, vec!["b".to_string()]); }''', "a header and an explicit choice of columns that leaves out an earlier one", "columns carry other columns' names")
