//! C20: the size limit grows from three to maxsize during warm-up, and stays there.
use h::rt::*;
use h::harnesses;
use symbolic_regression::verif_hooks::*;
use symbolic_regression::Options;
type Opt = Options<f64, 3>;
/// any fraction, any number of cycles up to a bound
#[no_mangle] pub extern "C" fn h_formula() {
    let mut o = Opt::default();
    o.maxsize = conc(us(1, p(0)));
    let total = conc(us(1, p(1))); let left = conc(us(0, total + 1));
    let by = f32_(); assume(by >= 0.0); assume(by <= 1.0);
    o.warmup_maxsize_by = by;
    let elapsed = total.saturating_sub(left);
    let r = conc(get_cur_maxsize(&o, total, left));
    check(r <= o.maxsize, "never above maxsize");
    check(r >= o.maxsize.min(3), "never below three (or maxsize)");
    if !(by > 0.0) { check(r == o.maxsize, "no warm-up, no limit"); cover(1); return; }
    let eps = 1e-4;
    let done = elapsed as f32 / total as f32;
    if done > by + eps { check(r == o.maxsize, "the warm-up is over"); cover(2); }
    if done < by - eps && o.maxsize > 3 {
        let q = (o.maxsize - 3) as f32 * done; let k = (r - 3) as f32;
        check(k * by <= q + eps, "not ahead of the schedule"); check(q - eps < (k + 1.0) * by, "not behind the schedule");
        cover(3);
    }
    if elapsed == 0 && by > eps { check(r == o.maxsize.min(3), "starts at three"); cover(4); }
}
/// the limit never shrinks
#[no_mangle] pub extern "C" fn h_monotone() {
    let mut o = Opt::default();
    o.maxsize = conc(us(1, p(0)));
    let total = conc(us(1, p(1))); let left = conc(us(0, total - 1));
    let by = f32_(); assume(by >= 0.0); assume(by <= 1.0);
    o.warmup_maxsize_by = by;
    let a = get_cur_maxsize(&o, total, left + 1); let b = get_cur_maxsize(&o, total, left);
    check(a <= b, "the limit never shrinks"); if a < b { cover(1); }
}
harnesses!(h_formula, h_monotone);
