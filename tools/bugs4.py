exec(open(__file__.replace("bugs4", "bugs2")).read().split("\nbug(")[0])
bug("c24-stragglers", "C24", [(SR + "search_utils.rs", "    for _iter in 0..options.niterations {\n        let mut task_order", "    // Stragglers of an iteration may finish during the next one.\n    let mut in_flight = 0usize;\n    for _iter in 0..options.niterations {\n        let mut task_order"),
 (SR + "search_utils.rs", "        let mut next_task = 0usize;\n        let mut in_flight = 0usize;\n\n        while next_task < task_order.len() || in_flight > 0 {", "        let mut next_task = 0usize;\n\n        while next_task < task_order.len() {"),
 (SR + "search_utils.rs", "            let res = result_rx.recv().expect(\"worker result channel closed early\");", "            if in_flight == 0 {\n                continue;\n            }\n            let res = result_rx.recv().expect(\"worker result channel closed early\");")],
'''use std::sync::{Arc, Mutex};
use std::thread::*;
struct L { main: ThreadId, quick: Mutex<Option<ThreadId>>, least: Mutex<f64> }
impl vh::LossFn<f64> for L {
    fn loss(&self, yh: &[f64], y: &[f64], _w: Option<&[f64]>) -> f64 {
        let me = current().id();
        if me != self.main { let quick = *self.quick.lock().unwrap().get_or_insert(me) == me; if !quick { sleep(std::time::Duration::from_millis(2)); } }
        let l: f64 = yh.iter().zip(y).map(|(a, b)| (a - b) * (a - b)).sum();
        if l.is_finite() { let mut m = self.least.lock().unwrap(); *m = m.min(l); }
        l
    }
    fn dloss_dyhat(&self, _: &[f64], _: &[f64], _: Option<&[f64]>, out: &mut [f64]) { out.fill(0.0) }
}
fn main() {
  unsafe { std::env::set_var("RAYON_NUM_THREADS", "4"); }
  for seed in 0..25 {
    let l = Arc::new(L { main: current().id(), quick: Mutex::new(None), least: Mutex::new(f64::INFINITY) });
    let mut op = O::default(); op.operators = ops(); op.seed = seed; op.populations = 2; op.population_size = 8; op.niterations = 1; op.ncycles_per_iteration = 20; op.maxsize = 12; op.progress = false;
    op.should_simplify = false; op.should_optimize_constants = false; op.loss = l.clone(); op.parsimony = 0.0; op.annealing = false; op.use_frequency = false; op.use_frequency_in_tournament = false;
    let y: Vec<f64> = (0..6).map(|i| ((i * i) as f64).sin() + 1.5 * i as f64).collect();
    let d = ds(6, (0..6).map(|i| i as f64).collect(), y);
    let r = equation_search::<f64, B, 3>(&d, &op);
    let least = *l.least.lock().unwrap();
    assert!(r.hall_of_fame.pareto_front().last().unwrap().loss <= least, "something scored {least} and was lost");
  }
}''', "two workers, one slower", "the result of the population that finishes last is lost")
