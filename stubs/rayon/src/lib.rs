//! Stand-in for `rayon` that makes the completion order of tasks a nondeterministic choice. Tasks spawned into a scope
//! are held back until as many wait as are chosen (at most the workers free for them) or the round is complete; then
//! one of them, any, runs to its end (after the last spawn of a round: all, in any order). A task runs without
//! interruption: tasks share nothing but immutable borrows and the result channel, so that interleaving them changes
//! nothing else. Where no worker is free (`scope` called from outside moves its operation onto a worker, and there is
//! one only), nothing runs before the operation returns.
use std::cell::{Cell, RefCell};
use std::marker::PhantomData;
extern "C" { fn rsx_u64(lo: u64, hi: u64) -> u64; fn rsx_conc(v: u64) -> u64; fn rsx_held(n: u64); }
static mut THREADS: usize = 1;
static mut DEPTH: usize = 1;
static mut ROUND: usize = 1;
static mut INSIDE: bool = false;
fn pick(lo: usize, hi: usize) -> usize { if lo >= hi { lo } else { unsafe { rsx_conc(rsx_u64(lo as u64, hi as u64)) as usize } } }
/// worker threads, tasks per round, and whether the caller is itself one of the workers
pub fn pool(threads: usize, round: usize, inside: bool) { unsafe { THREADS = threads; ROUND = round; INSIDE = inside; DEPTH = pick(1, threads - (inside && threads > 1) as usize); } }
pub fn current_num_threads() -> usize { unsafe { THREADS } }
pub fn max_num_threads() -> usize { 1 << 16 }
pub fn current_thread_index() -> Option<usize> { if unsafe { INSIDE } { Some(0) } else { None } }
pub fn current_thread_has_pending_tasks() -> Option<bool> { if unsafe { INSIDE } { Some(false) } else { None } }
pub struct Scope<'s> { tasks: RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>, spawned: Cell<usize>, free: usize, m: PhantomData<Cell<&'s ()>> }
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.tasks.borrow_mut().push(Box::new(f));
        if self.free == 0 { return; }
        self.spawned.set(self.spawned.get() + 1);
        let (depth, round) = unsafe { (DEPTH, ROUND) };
        if self.spawned.get() % round == 0 { self.rest() }
        else if self.tasks.borrow().len() >= depth.min(self.free) { self.one(); }
        unsafe { rsx_held(self.tasks.borrow().len() as u64) }
    }
    pub fn spawn_broadcast<F: Fn(&Scope<'s>, ()) + Send + Sync + 's>(&self, _f: F) { unimplemented!() }
    fn one(&self) -> bool {
        let n = self.tasks.borrow().len();
        if n == 0 { return false; }
        let k = pick(0, n - 1);
        let f = self.tasks.borrow_mut().remove(k);
        f(self); true
    }
    fn rest(&self) { while self.one() {} }
}
fn run<'s, OP, R>(free: usize, op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R {
    let s = Scope { tasks: RefCell::new(vec![]), spawned: Cell::new(0), free, m: PhantomData };
    let r = op(&s); s.rest(); unsafe { rsx_held(0) } r
}
pub fn scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send { run(unsafe { THREADS } - 1, op) }
pub fn scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send { scope(op) }
pub fn in_place_scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R { run(unsafe { THREADS - INSIDE as usize }, op) }
pub fn in_place_scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R { in_place_scope(op) }
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB) where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    if pick(0, 1) == 0 { let x = a(); let y = b(); (x, y) } else { let y = b(); let x = a(); (x, y) }
}
