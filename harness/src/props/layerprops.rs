//! C10-C15, C21, C24, C25: single layers.

use super::ops::pool_values;
use super::tensors::near;
use crate::engine::*;
use crate::{ensure, large, long};
use crate::gen::*;
use crate::layers::*;
use crate::refm::*;
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::NetworkRunState;
use rusty_network::tensor::helper::TensorIndex;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

const FINITE: &str = "finite values whose sums of absolute terms stay below 1e37, except in the facet of special values";
const HOOK: &str = "parameter gradients are read through the guarded hook verif_gradients (evidence field hooks says whether it was compiled in)";

pub fn mode_of(train: bool) -> NetworkRunState {
    if train { NetworkRunState::Training } else { NetworkRunState::Inference }
}

/// Values a layer of this kind is given.
pub fn layer_input(s: &mut Src, spec: &Spec) -> Data {
    let n = spec.ish().n();
    match spec.kind() {
        2 => pool_values(s, n),
        3 => {
            if s.chance(1, 3) {
                // widely spread, including magnitudes whose exponentials overflow
                let m = [1.0, 10.0, 100.0, 1000.0, 1e6][s.below(5)];
                Data { v: expand(s, n, |x| (x as f64 / 32768.0 - 1.0) as f32 * m as f32, 65535), q: 0.0, kind: "spread" }
            } else {
                input(s, n, false)
            }
        }
        _ => input(s, n, false),
    }
}

pub fn label_spec(spec: &Spec, ctx: &mut Ctx) {
    ctx.label(KINDS[spec.kind()]);
    match spec {
        Spec::Fc { n, m, d, .. } => {
            ctx.label_if(n != m, "inputs != outputs");
            ctx.label_if(*d > 1, "depth > 1");
        }
        Spec::Conv { g, .. } | Spec::Mp { g, .. } => label_geo(g, ctx),
        Spec::Sm { sh, .. } => ctx.label_if(sh.1 > 1 || sh.2 > 1, "shape is not a column"),
    }
}

pub fn spec_nontrivial(spec: &Spec) -> bool {
    match spec {
        Spec::Fc { n, m, .. } => n * m > 1,
        Spec::Conv { g, .. } | Spec::Mp { g, .. } => geo_nontrivial(g),
        Spec::Sm { sh, .. } => sh.n() > 1,
    }
}

pub fn run_forward(what: &str, spec: &Spec, l: &Any, x: &Data, s: &mut Src, ctx: &mut Ctx) -> Result<Tensor, Fail> {
    let tx = mk(spec.ish(), &x.v)?;
    let mut y = mk(spec.osh(), &stale(s, spec.osh().n()))?;
    if let Err(e) = l.forward(&tx, &mut y) {
        return fail(format!("{}: forward refused a correct input: {} ({})", what, e, spec.short()));
    }
    spec.check_forward(&format!("{}: forward of {}", what, spec.short()), x, &y, ctx)?;
    unchanged("layer input", &tx, spec.ish(), &x.v)?;
    Ok(y)
}

pub fn run_backward(what: &str, spec: &Spec, l: &Any, x: &Data, y: &Tensor, g: &Data, s: &mut Src, ctx: &mut Ctx) -> Result<Tensor, Fail> {
    let tx = mk(spec.ish(), &x.v)?;
    let tg = mk(spec.osh(), &g.v)?;
    let yv = dump(y);
    let mut dx = mk(spec.ish(), &stale(s, spec.ish().n()))?;
    if let Err(e) = l.backward(&tx, y, &tg, &mut dx) {
        return fail(format!("{}: backward refused correct tensors: {} ({})", what, e, spec.short()));
    }
    spec.check_dx(&format!("{}: input gradient of {}", what, spec.short()), x, &yv, g, &dx, ctx)?;
    unchanged("layer input", &tx, spec.ish(), &x.v)?;
    unchanged("incoming gradient", &tg, spec.osh(), &g.v)?;
    unchanged("layer output", y, spec.osh(), &yv)?;
    Ok(dx)
}

/// Parameter gradients against their reference, when the hook is there.
pub fn check_params(what: &str, spec: &Spec, l: &Any, want: &[Rv], ctx: &mut Ctx) -> R {
    if let Some(got) = l.params_grad() {
        ensure!(
            got.len() == want.len(),
            "{}: {} holds {} parameter gradients, expected {}",
            what,
            spec.short(),
            got.len(),
            want.len()
        );
        for (p, (a, b)) in got.iter().zip(want).enumerate() {
            agrees(&format!("{}: parameter gradient {} of {}", what, p, spec.short()), a, b, ctx)?;
        }
        ctx.label("parameter gradients compared");
    }
    Ok(())
}

/// A forward and a backward pass with magnitudes that overflow (results are not looked at).
fn exploding(spec: &Spec, l: &Any, s: &mut Src) -> R {
    let wild = |s: &mut Src, n: usize, nan: bool| -> Vec<f32> {
        let kinds = if nan { 6 } else { 4 };
        (0..n)
            .map(|_| match s.below(kinds) {
                0 => 1e30,
                1 => -3e38,
                2 => 3e38,
                3 => 1.0,
                4 => f32::INFINITY,
                _ => f32::NAN,
            })
            .collect()
    };
    let x = mk(spec.ish(), &wild(s, spec.ish().n(), false))?;
    let g = mk(spec.osh(), &wild(s, spec.osh().n(), true))?;
    let mut y = Tensor::new(spec.osh().ts());
    let mut dx = Tensor::new(spec.ish().ts());
    if let Err(e) = l.forward(&x, &mut y) {
        return fail(format!("forward refused an input of large finite values: {} ({})", e, spec.short()));
    }
    if let Err(e) = l.backward(&x, &y, &g, &mut dx) {
        return fail(format!("backward refused correctly shaped tensors: {} ({})", e, spec.short()));
    }
    Ok(())
}

/// Earlier work that must have no influence.
fn earlier(spec: &Spec, l: &Any, s: &mut Src, ctx: &mut Ctx) -> Result<bool, Fail> {
    let n = if s.long { s.times(0, 3) } else { s.weighted(&[5, 3, 2]) };
    for _ in 0..n {
        if s.rarely(1, 8) {
            exploding(spec, l, s)?;
            ctx.label("after a pass that overflowed");
            continue;
        }
        let x = layer_input(s, spec);
        let y = run_forward("earlier pass", spec, l, &x, s, ctx)?;
        if s.chance(2, 3) {
            let g = grad(s, spec.osh().n(), false);
            run_backward("earlier pass", spec, l, &x, &y, &g, s, ctx)?;
        }
    }
    ctx.label_if(n > 0, "after earlier passes");
    Ok(n > 0)
}

fn pass(spec: &Spec, with_earlier: bool, s: &mut Src, ctx: &mut Ctx) -> R {
    label_spec(spec, ctx);
    ctx.nontrivial = spec_nontrivial(spec);
    let l = spec.build()?;
    if s.chance(1, 3) {
        ctx.label("inference mode forward");
        l.inference();
        let x = layer_input(s, spec);
        ctx.note(|| format!("{} inference input {}", spec.brief(), small(&x.v)));
        run_forward("inference mode", spec, &l, &x, s, ctx)?;
        if s.chance(1, 2) {
            return Ok(());
        }
    }
    l.training();
    let was = with_earlier && earlier(spec, &l, s, ctx)?;
    // zero the accumulated gradients before the pass, or between its two halves
    let late = s.chance(1, 5);
    if was && !late {
        l.clear();
    }
    let x = layer_input(s, spec);
    let y = run_forward("training mode", spec, &l, &x, s, ctx)?;
    let yv = dump(&y);
    let g = if s.chance(1, 8) {
        let c = zz(s.upto(12)) as f32;
        ctx.label("constant incoming gradient");
        Data { v: vec![c; yv.len()], q: 1.0, kind: "constant" }
    } else {
        grad(s, yv.len(), false)
    };
    ctx.note(|| format!("{} training input {} incoming {}", spec.brief(), small(&x.v), small(&g.v)));
    if late {
        ctx.label("cleared between forward and backward");
        ctx.note(|| "clear_gradients between forward and backward".into());
        l.clear();
    }
    run_backward("training mode", spec, &l, &x, &y, &g, s, ctx)?;
    let masked = yv.iter().filter(|v| !(**v > 0.0)).count();
    ctx.label_if(spec.kind() < 2 && masked > 0 && masked < yv.len(), "some outputs cut by ReLU");
    if spec.kind() < 2 {
        let want = spec.grads(&x, &yv, &g).1;
        check_params("training mode", spec, &l, &want, ctx)?;
    }
    // more backward passes after the same forward pass
    if s.chance(1, 4) {
        ctx.label("several backward passes after one forward pass");
        for _ in 0..s.times(1, 2) {
            let cleared = spec.kind() < 2 || s.chance(1, 2);
            if cleared {
                l.clear();
            }
            let g = grad(s, yv.len(), false);
            ctx.note(|| format!("another backward, cleared before: {}, incoming {}", cleared, small(&g.v)));
            run_backward("another backward after the same forward", spec, &l, &x, &y, &g, s, ctx)?;
            if spec.kind() < 2 {
                check_params("another backward after the same forward", spec, &l, &spec.grads(&x, &yv, &g).1, ctx)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- 65536 repetitions

/// One small layer through more than 65536 repetitions of one operation, on
/// one input at the beginning and at the end and another one in between. Every
/// repetition must do what the first, checked one did, and what accumulates
/// must have accumulated from every one of them (whole numbers, exact).
/// Operations: 0 both passes, 1 forward alone, 2 backward alone, 3 clear,
/// 4 mode switches, 5 refused passes, 6 loads.
pub fn endure(kind: usize, act: usize, s: &mut Src, ctx: &mut Ctx) -> R {
    const WHAT: [&str; 7] = ["both passes", "forward alone", "backward alone", "clear", "mode switches", "refused passes", "loads"];
    let what = WHAT[act];
    let sp = tiny(s, kind);
    let l = sp.build()?;
    let rounds = 65_560 + s.below(40);
    let mut train = act != 1 || s.chance(1, 2);
    l.set_mode(train);
    label_spec(&sp, ctx);
    ctx.label(what);
    let whole = |s: &mut Src, n: usize, top: u64| Data { v: expand(s, n, |x| zz(x) as f32, top), q: 1.0, kind: "ints" };
    let mut runs = vec![];
    for _ in 0..2 {
        let x = whole(s, sp.ish().n(), 4);
        let g = whole(s, sp.osh().n(), 2);
        runs.push((x, g));
    }
    ctx.note(|| {
        format!(
            "{} {} times on {} input {} incoming {}, in between {} and {}",
            what,
            rounds,
            sp.brief(),
            small(&runs[0].0.v),
            small(&runs[0].1.v),
            small(&runs[1].0.v),
            small(&runs[1].1.v)
        )
    });
    // what a pass on either gives, checked
    let mut first = vec![];
    let mut count = [0usize; 2];
    for (k, (x, g)) in runs.iter().enumerate() {
        let y = run_forward("first", &sp, &l, x, s, ctx)?;
        let yv = dump(&y);
        let mut dxv = vec![];
        if train {
            dxv = dump(&run_backward("first", &sp, &l, x, &y, g, s, ctx)?);
            count[k] = 1;
        }
        let adds = sp.grads(x, &yv, g).1;
        first.push((mk(sp.ish(), &x.v)?, y, mk(sp.osh(), &g.v)?, yv, dxv, adds));
    }
    let want = |n: [usize; 2]| -> Vec<Rv> {
        let mut sum: Vec<Rv> = first[0].5.iter().map(|r| Rv::zeros(r.sh, 1.0, 0)).collect();
        for k in 0..2 {
            for (a, r) in sum.iter_mut().zip(&first[k].5) {
                a.q = mixq(a.q, r.q);
                a.terms += (r.terms + 1) * n[k];
                for p in 0..r.v.len() {
                    a.v[p] += n[k] as f64 * r.v[p];
                    a.abs[p] += n[k] as f64 * r.abs[p];
                }
            }
        }
        sum
    };
    if train {
        check_params("after the first passes", &sp, &l, &want(count), ctx)?;
    }
    let (mut ty, mut tdx) = (mk(sp.osh(), &runs[0].1.v)?, mk(sp.ish(), &runs[0].0.v)?);
    let odd = mk(Sh(sp.ish().0 + 1, sp.ish().1, sp.ish().2), &vec![1.0; sp.ish().n() / sp.ish().0 as usize * (sp.ish().0 as usize + 1)])?;
    let ser = l.ser();
    // backward alone always follows the same forward pass
    let last = if act == 2 { 1 } else { 0 };
    for n in 1..=rounds {
        let k = if act == 2 || (n > 24 && n < 65_500) { 1 } else { last };
        let (tx, y, tg, yv, dxv, _) = &first[k];
        if act <= 1 {
            if n == 1 || n == 25 || n > 65_499 {
                ty = mk(sp.osh(), &stale(s, sp.osh().n()))?;
            }
            if let Err(e) = l.forward(tx, &mut ty) {
                return fail(format!("forward {} of {} refused: {} ({})", n, rounds, e, sp.short()));
            }
            if !same_bits(&dump(&ty), yv) {
                sp.check_forward(&format!("forward {} of {} ({})", n, rounds, sp.short()), &runs[k].0, &ty, ctx)?;
            }
        }
        if act == 0 || act == 2 {
            if n == 1 || n == 25 || n > 65_499 {
                tdx = mk(sp.ish(), &stale(s, sp.ish().n()))?;
            }
            if let Err(e) = l.backward(tx, y, tg, &mut tdx) {
                return fail(format!("backward {} of {} refused: {} ({})", n, rounds, e, sp.short()));
            }
            count[k] += 1;
            if !same_bits(&dump(&tdx), dxv) {
                sp.check_dx(&format!("backward {} of {} ({})", n, rounds, sp.short()), &runs[k].0, yv, &runs[k].1, &tdx, ctx)?;
            }
        }
        match act {
            3 => {
                l.clear();
                count = [0, 0];
            }
            4 => {
                train = !train;
                l.set_mode(train);
                count = [0, 0];
                ensure!(l.mode() == mode_of(train), "after switch {} the layer reports {:?} ({})", n, l.mode(), sp.short());
            }
            5 => {
                ensure!(l.forward(&odd, &mut ty).is_err(), "forward {} accepted an input of a wrong shape ({})", n, sp.short());
                ensure!(l.backward(&odd, y, tg, &mut tdx).is_err(), "backward {} accepted an input of a wrong shape ({})", n, sp.short());
            }
            6 => {
                if let Err(e) = l.load(&ser) {
                    return fail(format!("load {} refused: {} ({})", n, e, sp.short()));
                }
                count = [0, 0];
            }
            _ => {}
        }
    }
    let after = format!("after {} times {}", rounds, what);
    ensure!(l.mode() == mode_of(train), "{} the layer reports {:?} ({})", after, l.mode(), sp.short());
    ensure!(same_serialized(&ser, &l.ser()), "{} the parameters are others ({})", after, sp.short());
    if train {
        check_params(&after, &sp, &l, &want(count), ctx)?;
    }
    let (x, g) = &runs[0];
    let y = run_forward(&after, &sp, &l, x, s, ctx)?;
    if train {
        run_backward(&after, &sp, &l, x, &y, g, s, ctx)?;
        count[0] += 1;
        check_params(&format!("{} and one pass more", after), &sp, &l, &want(count), ctx)?;
        l.clear();
        check_params(&format!("{} and clearing", after), &sp, &l, &want([0, 0]), ctx)?;
    } else {
        ensure!(l.backward(&first[0].0, &y, &first[0].2, &mut tdx).is_err(), "{} an inference layer propagates gradients ({})", after, sp.short());
    }
    ctx.nontrivial = first.iter().any(|f| f.5.iter().any(|r| r.v.iter().any(|v| *v != 0.0))) || kind > 1;
    Ok(())
}

fn c10_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = s.below(3);
    endure(3, act, s, ctx)
}
fn c11_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = s.below(3);
    endure(0, act, s, ctx)
}
fn c12_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = s.below(3);
    endure(1, act, s, ctx)
}
fn c13_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = s.below(3);
    endure(2, act, s, ctx)
}
fn c14_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let act = [1, 4, 4][s.below(3)];
    endure(kind, act, s, ctx)
}
fn c15_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(2);
    let act = [0, 2, 3, 4, 6, 5][s.below(6)];
    endure(kind, act, s, ctx)
}
pub fn c18_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let act = [4, 2][s.below(2)];
    endure(kind, act, s, ctx)
}
fn c21_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    endure(kind, 6, s, ctx)
}
fn c25_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    endure(kind, 5, s, ctx)
}

// ---------------------------------------------------------------- C10

fn c10_special(s: &mut Src, ctx: &mut Ctx) -> R {
    special_pass(3, s, ctx)
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        rule: "Softmax layers of any shape in training mode, 0-2 earlier passes, inputs from small integers to +-1e6, dyadic, real or constant incoming \
               gradients, stale destinations; gradient compared with s*(g - sum s g) computed in double precision from the layer's own (separately checked) \
               output. Non-trivial: more than one element. Facet special values: inputs and incoming gradients of small integers, infinities, NaN and -0, IEEE semantics in any order of summation, zero times one of them left open.",
        assumptions: &[FINITE],
        facets: vec![
            Facet { name: "jvp", quick: 3_300_000, thorough: 39_600_000, run: c10_jvp },
            Facet { name: "special values", quick: 100_000, thorough: 1_200_000, run: c10_special },
            Facet { name: "linear", quick: 1_100_000, thorough: 13_200_000, run: c10_linear },
            Facet { name: "jvp, larger", quick: 8, thorough: 96, run: c10_vast },
            Facet { name: "jvp, large", quick: 240, thorough: 2_880, run: large!(c10_jvp) },
            Facet { name: "jvp, long", quick: 240, thorough: 2_880, run: long!(c10_jvp) },
            Facet { name: "jvp, lasting", quick: 40, thorough: 480, run: c10_lasting },
        ],
    }
}

/// More than 2^24 elements: single precision could not even count them.
fn c10_vast(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = match s.below(3) {
        0 => Sh(1 << 24, 1 + s.u(0, 1), 1),
        1 => Sh(5000 + s.u(0, 500), 4001, 1),
        _ => Sh(300, 257 + s.u(0, 20), 300),
    };
    let n = sh.n();
    let kinds = 1 + s.below(4);
    let step = [0.25f32, 1.0][s.below(2)];
    let (a, b) = (s.range(-3, 3) as f32, s.range(-2, 2) as f32);
    let x = mk(sh, &(0..n).map(|i| -step * (i % kinds) as f32).collect::<Vec<_>>())?;
    let g = mk(sh, &(0..n).map(|i| a + b * (i % kinds) as f32).collect::<Vec<_>>())?;
    ctx.nontrivial = a != 0.0 || b != 0.0;
    ctx.note(|| format!("{:?}: {} kinds of element, gradient {} and {} more", sh, kinds, a, b));
    let mut l = match SoftmaxLayer::new(sh.ts(), &"vast".to_string()) {
        Ok(l) => l,
        Err(e) => return fail(format!("a softmax layer of {:?} is refused: {}", sh, e)),
    };
    l.switch_to_training();
    let (mut o, mut out) = (Tensor::new(sh.ts()), Tensor::new(sh.ts()));
    ensure!(l.forward(&x, &mut o).is_ok() && l.backward(&x, &o, &g, &mut out).is_ok(), "a pass through {:?} is refused", sh);
    let e: Vec<f64> = (0..kinds).map(|k| (-(step * k as f32) as f64).exp()).collect();
    let many = |k: usize| ((n - k + kinds - 1) / kinds) as f64;
    let whole: f64 = (0..kinds).map(|k| many(k) * e[k]).sum();
    let dot: f64 = (0..kinds).map(|k| many(k) * e[k] / whole * (a + b * k as f32) as f64).sum();
    for p in 0..n {
        let k = p % kinds;
        let (gk, (i, j, l)) = ((a + b * k as f32) as f64, sh.un(p));
        let (got, want) = (out.get_item(&TensorIndex { i, j, k: l }) as f64, e[k] / whole * (gk - dot));
        ensure!(
            (got - want).abs() <= 0.02 * e[k] / whole * (gk.abs() + dot.abs()) + 1e-44,
            "the gradient of softmax over {:?} is {:?} at {:?}, expected {:?}",
            sh, got, (i, j, l), want
        );
    }
    ctx.compared += n as u64;
    Ok(())
}

fn c10_jvp(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = spec(s, 3, false);
    pass(&sp, true, s, ctx)
}

/// dx(a g1 + b g2) against a dx(g1) + b dx(g2), and the sum over all elements.
fn c10_linear(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = spec(s, 3, false);
    label_spec(&sp, ctx);
    ctx.nontrivial = spec_nontrivial(&sp);
    let l = sp.build()?;
    l.training();
    let x = layer_input(s, &sp);
    let n = x.v.len();
    let y = run_forward("softmax", &sp, &l, &x, s, ctx)?;
    let (g1, g2) = (exact(s, n), exact(s, n));
    let (a, b) = (zz(s.upto(8)) as f32, zz(s.upto(8)) as f32);
    let g3 = Data { v: g1.v.iter().zip(&g2.v).map(|(p, q)| a * p + b * q).collect(), q: 0.0, kind: "mix" };
    ctx.note(|| format!("{:?} input {} g1 {} g2 {} factors {} {}", sp.ish(), small(&x.v), small(&g1.v), small(&g2.v), a, b));
    let again = s.chance(1, 2);
    ctx.label_if(again, "forward repeated before every backward");
    let d1 = dump(&run_backward("softmax", &sp, &l, &x, &y, &g1, s, ctx)?);
    let y = if again { run_forward("softmax", &sp, &l, &x, s, ctx)? } else { y };
    let d2 = dump(&run_backward("softmax", &sp, &l, &x, &y, &g2, s, ctx)?);
    let y = if again { run_forward("softmax", &sp, &l, &x, s, ctx)? } else { y };
    let d3 = dump(&run_backward("softmax", &sp, &l, &x, &y, &g3, s, ctx)?);
    let top = |d: &Data| d.v.iter().fold(0.0f64, |m, v| m.max(v.abs() as f64));
    let scale = (a.abs() as f64 * top(&g1) + b.abs() as f64 * top(&g2)) * (n as f64 + 8.0) * 1e-6;
    let yv = dump(&y);
    for p in 0..n {
        let e = a as f64 * d1[p] as f64 + b as f64 * d2[p] as f64;
        ensure!(
            (e - d3[p] as f64).abs() <= scale * yv[p] as f64 + 1e-40,
            "softmax backward is not linear at {}: {} against {}",
            p,
            d3[p],
            e
        );
    }
    let sum: f64 = d3.iter().map(|v| *v as f64).sum();
    ensure!(sum.abs() <= scale + 1e-40, "softmax backward sums to {} instead of zero", sum);
    Ok(())
}

// ---------------------------------------------------------------- infinities and not-a-numbers

/// Small integers, none of them zero: times an infinity they are that infinity.
fn nonzero(s: &mut Src, n: usize) -> Data {
    Data { v: expand(s, n, |x| (if x % 2 == 0 { -1.0 } else { 1.0 }) * (1 + x / 2 % 4) as f32, 7), q: 1.0, kind: "ints but zero" }
}

/// Element by element: not-a-number where the definition says so, else equal. `open` elements are nobody's business.
fn special_equal(what: &str, sp: &Spec, t: &Tensor, want: &[f64], open: Option<&[f64]>, ctx: &mut Ctx) -> R {
    let d = dump(t);
    ensure!(d.len() == want.len(), "{}: {} elements instead of {} ({})", what, d.len(), want.len(), sp.short());
    for p in 0..d.len() {
        if open.map_or(false, |o| o[p] != 0.0) {
            continue;
        }
        ctx.compared += 1;
        let (got, w) = (d[p] as f64, want[p]);
        ensure!(
            if w.is_nan() { got.is_nan() } else { got == w },
            "{}: element {} is {}, the definition yields {} ({})",
            what,
            p,
            got,
            w,
            sp.brief()
        );
    }
    Ok(())
}

/// Forward passes on, and backward passes of, infinities and not-a-numbers: they come out
/// where the definition says so, and the next ordinary pass is ordinary again.
/// Left open is whatever depends on zero times one of them.
fn special_pass(kind: usize, s: &mut Src, ctx: &mut Ctx) -> R {
    let mut sp = spec(s, kind, true);
    if sp.ish().n() > 3000 || sp.osh().n() > 3000 {
        return Ok(());
    }
    match &mut sp {
        Spec::Fc { w, b, .. } => {
            *w = nonzero(s, w.v.len());
            *b = nonzero(s, b.v.len());
        }
        Spec::Conv { ks, bs, .. } => {
            for k in ks.iter_mut() {
                *k = nonzero(s, k.v.len());
            }
            *bs = nonzero(s, bs.v.len());
        }
        _ => (),
    }
    let l = sp.build()?;
    let (ni, no) = (sp.ish().n(), sp.osh().n());
    ctx.label(KINDS[kind]);
    ctx.nontrivial = ni > 1;
    // a forward pass on special values
    let train = s.chance(1, 2);
    l.set_mode(train);
    if kind < 3 {
        let mut x = special(s, ni);
        if kind == 2 {
            // which of several items is the largest says nothing when one is not a number
            x.v.iter_mut().filter(|v| v.is_nan()).for_each(|v| *v = f32::NEG_INFINITY);
        }
        let tx = mk(sp.ish(), &x.v)?;
        let mut y = mk(sp.osh(), &stale(s, no))?;
        let r = l.forward(&tx, &mut y);
        ensure!(r.is_ok(), "forward on {} refused: {:?} ({})", small(&x.v), r, sp.short());
        let d = dump(&y);
        special_agrees(&format!("output of {} for {}", sp.brief(), small(&x.v)), &d, &sp.pre(&x).v, kind < 2)?;
        ctx.compared += d.len() as u64;
    }
    l.set_mode(true);
    // a backward pass of special values
    let x = if kind == 2 {
        // all different: every window has one largest item
        let mut a = 1 + 2 * s.below(ni);
        while gcd(a, ni) != 1 {
            a += 1;
        }
        Data { v: (0..ni).map(|p| ((p * a) % ni) as f32 - 3.0).collect(), q: 1.0, kind: "all different" }
    } else {
        nonzero(s, ni)
    };
    let tx = mk(sp.ish(), &x.v)?;
    let mut y = mk(sp.osh(), &stale(s, no))?;
    let r = l.forward(&tx, &mut y);
    ensure!(r.is_ok(), "forward refused: {:?} ({})", r, sp.short());
    let yv = dump(&y);
    let g = special(s, no);
    ctx.note(|| format!("{}; input {}, gradient {}", sp.brief(), small(&x.v), small(&g.v)));
    ctx.label_if(g.v.iter().any(|v| v.is_nan()), "gradient has NaN");
    ctx.label_if(g.v.iter().any(|v| v.is_infinite()), "gradient has infinities");
    let mut dx = mk(sp.ish(), &stale(s, ni))?;
    let tg = mk(sp.osh(), &g.v)?;
    let r = l.backward(&tx, &y, &tg, &mut dx);
    ensure!(r.is_ok(), "backward of {} refused: {:?} ({})", small(&g.v), r, sp.short());
    match &sp {
        Spec::Fc { .. } | Spec::Conv { .. } => {
            // zero times such an item is left open
            let shut = |p: usize| yv[p] <= 0.0 && !g.v[p].is_finite();
            let mut g0 = g.clone();
            let mut o = Data { v: vec![0.0; no], q: 1.0, kind: "open" };
            for p in 0..no {
                if shut(p) {
                    g0.v[p] = 0.0;
                    o.v[p] = 1.0;
                }
            }
            let mut ones = sp.clone();
            let fill = |d: &mut Data| d.v.iter_mut().for_each(|v| *v = 1.0);
            match &mut ones {
                Spec::Fc { w, .. } => fill(w),
                Spec::Conv { ks, .. } => ks.iter_mut().for_each(fill),
                _ => unreachable!(),
            }
            let (wdx, wps) = sp.grads(&x, &yv, &g0);
            let one = Data { v: vec![1.0; ni], q: 1.0, kind: "ones" };
            let (odx, ops) = ones.grads(&one, &vec![1.0; no], &o);
            special_equal("gradient passed back", &sp, &dx, &wdx.unwrap().v, Some(&odx.unwrap().v), ctx)?;
            if let Some(ps) = l.params_grad() {
                for (i, p) in ps.iter().enumerate() {
                    special_equal("parameter gradient", &sp, p, &wps[i].v, Some(&ops[i].v), ctx)?;
                }
            }
        }
        Spec::Mp { g: geo, .. } => {
            let mut want = vec![0.0f64; ni];
            for k in 0..geo.out.2 {
                for j in 0..geo.out.1 {
                    for i in 0..geo.out.0 {
                        let m = window_max(&x.v, geo, i, j, k);
                        let at = x.v.iter().position(|v| *v == m).unwrap();
                        want[at] += g.v[geo.out.at(i, j, k)] as f64;
                    }
                }
            }
            special_equal("gradient passed back", &sp, &dx, &want, None, ctx)?;
        }
        Spec::Sm { .. } => {
            if g.v.iter().any(|v| !v.is_finite()) && yv.iter().all(|v| *v > 0.0) {
                special_equal("gradient passed back", &sp, &dx, &sp.grads(&x, &yv, &g).0.unwrap().v, None, ctx)?;
            }
        }
    }
    // and an ordinary one
    l.clear();
    let g = exact(s, no);
    let tg = mk(sp.osh(), &g.v)?;
    let r = l.backward(&tx, &y, &tg, &mut dx);
    ensure!(r.is_ok(), "backward refused: {:?} ({})", r, sp.short());
    sp.check_dx("gradient passed back after special values", &x, &yv, &g, &dx, ctx)?;
    check_params("after special values and a clear", &sp, &l, &sp.grads(&x, &yv, &g).1, ctx)
}

fn gcd(a: usize, b: usize) -> usize {
    if b == 0 { a } else { gcd(b, a % b) }
}

// ---------------------------------------------------------------- C11, C12, C13

fn c11_special(s: &mut Src, ctx: &mut Ctx) -> R {
    special_pass(0, s, ctx)
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        rule: "Fully connected layers with 1-256 inputs and outputs (mostly 1-7, sometimes several slices), dyadic or real weights, biases, inputs and \
               incoming gradients; inference and training forward, one to three backward passes (after 0-2 earlier passes and a clear), stale destinations; output, input gradient, \
               weight and bias gradients compared with double-precision references (exactly when representable). Non-trivial: more than one weight. Facet special values: inputs and incoming gradients of small integers, infinities, NaN and -0, IEEE semantics in any order of summation, zero times one of them left open.",
        assumptions: &[FINITE, HOOK],
        facets: vec![
            Facet { name: "pass", quick: 3_600_000, thorough: 43_200_000, run: c11_pass },
            Facet { name: "special values", quick: 100_000, thorough: 1_200_000, run: c11_special },
            Facet { name: "initialisers", quick: 240_000, thorough: 2_880_000, run: c11_init },
            Facet { name: "pass, large", quick: 160, thorough: 1_920, run: large!(c11_pass) },
            Facet { name: "pass, long", quick: 480, thorough: 5_760, run: long!(c11_pass) },
            Facet { name: "pass, lasting", quick: 40, thorough: 480, run: c11_lasting },
        ],
    }
}

fn c11_pass(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = spec(s, 0, false);
    pass(&sp, true, s, ctx)
}

/// Layers made by `new`, then filled with constants.
fn c11_init(s: &mut Src, ctx: &mut Ctx) -> R {
    let (n, m) = (dim(s, 40), dim(s, 40));
    let mut l = FullyConnectedLayer::new(n, m, &"l".to_string());
    let zero = |k: u32| Data { v: vec![0.0; k as usize], q: 1.0, kind: "zero" };
    let mut w = zero(n * m);
    let mut b = zero(m);
    let train = s.chance(1, 2);
    if train {
        l.switch_to_training();
    }
    for _ in 0..s.below(4) {
        let c = zz(s.upto(20)) as f32 / 2.0;
        if s.chance(1, 2) {
            l.fill_weights_with_value(c);
            w = Data { v: vec![c; (n * m) as usize], q: 0.5, kind: "constant" };
        } else {
            l.fill_bias_with_value(c);
            b = Data { v: vec![c; m as usize], q: 0.5, kind: "constant" };
        }
    }
    ctx.nontrivial = n * m > 1 && w.v[0] != 0.0;
    ctx.note(|| format!("{}x{} weights {} bias {}", m, n, w.v[0], b.v[0]));
    let sp = Spec::Fc { n, m, d: 1, w, b, name: "l".into() };
    let l = Any::Fc(Rc::new(RefCell::new(l)));
    ensure!(l.ish() == sp.ish() && l.osh() == sp.osh(), "shapes of a new fully connected layer {}x{}: {:?} {:?}", m, n, l.ish(), l.osh());
    ensure!(l.name() == "l", "name of a new layer is {:?}", l.name());
    let x = input(s, n as usize, false);
    let y = run_forward("constant weights", &sp, &l, &x, s, ctx)?;
    if train {
        let g = grad(s, m as usize, false);
        run_backward("constant weights", &sp, &l, &x, &y, &g, s, ctx)?;
        check_params("constant weights", &sp, &l, &sp.grads(&x, &dump(&y), &g).1, ctx)?;
    }
    Ok(())
}

fn c12_special(s: &mut Src, ctx: &mut Ctx) -> R {
    special_pass(1, s, ctx)
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        rule: "Convolutional layers over generated fitting geometries (windows to 26, positions to 40, strides to 34, depth and channels to 40, mostly small) with dyadic or \
               real kernels, biases, inputs and incoming gradients; inference and training forward, one to three backward passes (after 0-2 earlier passes and a clear), stale \
               destinations; output, input gradient, kernel and bias gradients compared with double-precision references (exactly when representable). \
               Non-trivial: window and output both have more than one element. Facet special values: inputs and incoming gradients of small integers, infinities, NaN and -0, IEEE semantics in any order of summation, zero times one of them left open.",
        assumptions: &[FINITE, HOOK],
        facets: vec![
            Facet { name: "pass", quick: 660_000, thorough: 7_920_000, run: c12_pass },
            Facet { name: "special values", quick: 60_000, thorough: 720_000, run: c12_special },
            Facet { name: "pass, large", quick: 100, thorough: 1_200, run: large!(c12_pass) },
            Facet { name: "pass, long", quick: 240, thorough: 2_880, run: long!(c12_pass) },
            Facet { name: "pass, lasting", quick: 40, thorough: 480, run: c12_lasting },
        ],
    }
}

fn c12_pass(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = spec(s, 1, false);
    pass(&sp, true, s, ctx)
}

fn c13_special(s: &mut Src, ctx: &mut Ctx) -> R {
    special_pass(2, s, ctx)
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        rule: "Max-pool layers over generated fitting geometries (overlapping windows, gaps, several slices), inputs with many ties, negative values, \
               infinities and all -inf windows, finite incoming gradients (but for the facet of special values), 0-2 earlier passes, stale destinations. Oracle: windows with a unique maximum decide \
               their element exactly; tied windows by exact assignment search; totals per slice conserved. Non-trivial: window and output both have more than one element. Facet special values: inputs and incoming gradients of small integers, infinities, NaN and -0, IEEE semantics in any order of summation, zero times one of them left open.",
        assumptions: &["no NaN in the pooled input"],
        facets: vec![
            Facet { name: "routing", quick: 1_500_000, thorough: 18_000_000, run: c13_pass },
            Facet { name: "special values", quick: 60_000, thorough: 720_000, run: c13_special },
            Facet { name: "routing, large", quick: 160, thorough: 1_920, run: large!(c13_pass) },
            Facet { name: "routing, long", quick: 480, thorough: 5_760, run: long!(c13_pass) },
            Facet { name: "routing, lasting", quick: 40, thorough: 480, run: c13_lasting },
        ],
    }
}

fn c13_pass(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = spec(s, 2, false);
    pass(&sp, true, s, ctx)
}

// ---------------------------------------------------------------- C14

pub fn c14() -> Property {
    Property {
        id: "C14",
        rule: "Layers of all four kinds and networks of up to 5 of them; one set of inputs is run under a random history of mode switches, backward passes, \
               clears and failed calls. Every output is compared with the reference, outputs in one mode must be bit-identical whenever the same input returns, \
               across modes equal up to rounding (exactly for dyadic data), and the serialized parameters never change. Non-trivial: at least two mode switches \
               with a backward pass in between.",
        assumptions: &[FINITE],
        facets: vec![
            Facet { name: "layer", quick: 930_000, thorough: 11_160_000, run: c14_layer },
            Facet { name: "network", quick: 300_000, thorough: 3_600_000, run: c14_network },
            Facet { name: "layer, large", quick: 120, thorough: 1_440, run: large!(c14_layer) },
            Facet { name: "layer, long", quick: 480, thorough: 5_760, run: long!(c14_layer) },
            Facet { name: "layer, lasting", quick: 60, thorough: 720, run: c14_lasting },
            Facet { name: "network, long", quick: 60, thorough: 720, run: long!(c14_network) },
            Facet { name: "network, lasting", quick: 24, thorough: 288, run: super::network::c14_net_lasting },
        ],
    }
}

fn c14_layer(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let sp = spec(s, kind, false);
    label_spec(&sp, ctx);
    let l = sp.build()?;
    let ser = l.ser();
    let xs: Vec<Data> = (0..1 + s.below(2)).map(|_| layer_input(s, &sp)).collect();
    ctx.note(|| format!("{} inputs {:?}", sp.brief(), xs.iter().map(|x| small(&x.v)).collect::<Vec<_>>()));
    let mut seen: Vec<[Option<Vec<f32>>; 2]> = vec![[None, None]; xs.len()];
    let mut mode = s.chance(1, 4);
    l.set_mode(mode);
    let (mut switches, mut backs) = (0, 0);
    let steps = s.times(3, 8);
    for _ in 0..steps {
        match s.step(&[3, 2, 1]) {
            1 => {
                mode = !mode;
                l.set_mode(mode);
                switches += 1;
                ctx.note(|| format!("switch to training={}", mode));
            }
            2 => {
                l.clear();
                ctx.note(|| "clear".into());
            }
            _ => {
                let w = s.below(xs.len());
                let y = run_forward(if mode { "training" } else { "inference" }, &sp, &l, &xs[w], s, ctx)?;
                let d = dump(&y);
                ctx.note(|| format!("forward {} -> {}", w, small(&d)));
                if let Some(o) = &seen[w][mode as usize] {
                    ensure!(same_bits(o, &d), "the same input gives another output later in the same mode: {} then {} ({})", small(o), small(&d), sp.short());
                    ctx.label("same input repeated");
                }
                if let Some(o) = &seen[w][!mode as usize] {
                    ctx.label("both modes compared");
                    let r = sp.pre(&xs[w]);
                    if sp.kind() == 3 {
                        let p: Vec<f64> = o.iter().map(|v| *v as f64).collect();
                        softmax_close("training against inference", &d, &p, ctx)?;
                    } else if !r.may_overflow() {
                        let ex = r.is_exact() || sp.kind() == 2;
                        for p in 0..d.len() {
                            let t = if ex { 0.0 } else { 2.0 * r.tol(p) };
                            ensure!(
                                d[p] == o[p] || (d[p] as f64 - o[p] as f64).abs() <= t,
                                "training and inference disagree at {:?}: {:?} and {:?} ({})",
                                r.sh.un(p),
                                d[p],
                                o[p],
                                sp.short()
                            );
                        }
                    }
                }
                seen[w][mode as usize] = Some(d);
                if mode && s.chance(1, 2) {
                    let g = grad(s, sp.osh().n(), false);
                    run_backward("training", &sp, &l, &xs[w], &y, &g, s, ctx)?;
                    backs += 1;
                }
            }
        }
        ensure!(same_serialized(&ser, &l.ser()), "the parameters changed ({})", sp.short());
        ensure!(l.mode() == mode_of(mode), "layer reports mode {:?}", l.mode());
    }
    ctx.nontrivial = switches >= 2 && backs > 0 || sp.kind() > 1 && switches >= 2;
    Ok(())
}

fn c14_network(s: &mut Src, ctx: &mut Ctx) -> R {
    super::network::mode_history(s, ctx)
}

// ---------------------------------------------------------------- C15

pub fn c15() -> Property {
    Property {
        id: "C15",
        rule: "Fully connected and convolutional layers under histories of up to 12 operations: forward/backward pairs, forward alone, refused calls, clear, leaving \
               and re-entering training, passes whose gradients overflow, \
               reloading parameters in training mode (fill_from_state or deserialization, with the same or another geometry). After every \
               operation the accumulated gradients equal the model's running sum (double precision, exactly when representable); parameters and forward \
               results stay. Non-trivial: two passes accumulated and one reset with a pass after it.",
        assumptions: &[FINITE, HOOK],
        facets: vec![
            Facet { name: "history", quick: 270_000, thorough: 3_240_000, run: c15_history },
            Facet { name: "history, large", quick: 60, thorough: 720, run: large!(c15_history) },
            Facet { name: "history, long", quick: 480, thorough: 5_760, run: long!(c15_history) },
            Facet { name: "history, lasting", quick: 80, thorough: 960, run: c15_lasting },
        ],
    }
}

fn c15_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(2);
    let exactly = s.chance(2, 3);
    let mut sp = spec(s, kind, exactly);
    let l = sp.build()?;
    label_spec(&sp, ctx);
    l.training();
    let zero = |sp: &Spec| -> Vec<Rv> {
        let x = Data { v: vec![0.0; sp.ish().n()], q: 1.0, kind: "zero" };
        let y = vec![0.0; sp.osh().n()];
        let g = Data { v: vec![0.0; y.len()], q: 1.0, kind: "zero" };
        sp.grads(&x, &y, &g).1.into_iter().map(|r| Rv::zeros(r.sh, 1.0, 0)).collect()
    };
    let mut acc = zero(&sp);
    check_params("fresh training layer", &sp, &l, &acc, ctx)?;
    let (mut passes, mut both, mut after) = (0, false, false);
    let mut reset = false;
    // after a pass that overflowed the sum is not looked at until it is reset
    let mut known = true;
    let steps = s.times(3, 10);
    for _ in 0..steps {
        let op = s.step(&[8, 2, 2, 1, 2, 1, 1]);
        let what;
        match op {
            0 | 1 => {
                let x = input(s, sp.ish().n(), exactly);
                let y = run_forward("training", &sp, &l, &x, s, ctx)?;
                what = if op == 0 { "forward and backward" } else { "forward alone" };
                if op == 0 {
                    let g = grad(s, sp.osh().n(), exactly);
                    ctx.note(|| format!("pass input {} incoming {}", small(&x.v), small(&g.v)));
                    let yv = dump(&y);
                    if s.rarely(1, 8) {
                        ctx.label("clear between forward and backward");
                        ctx.note(|| "  cleared in between".into());
                        l.clear();
                        acc = zero(&sp);
                        known = true;
                        reset |= passes > 0;
                        passes = 0;
                    }
                    let times = if s.chance(1, 4) { 2 + s.below(2) } else { 1 };
                    ctx.label_if(times > 1, "several backward passes after one forward pass");
                    for n in 0..times {
                        let g = if n == 0 {
                            g.clone()
                        } else {
                            let g = grad(s, sp.osh().n(), exactly);
                            ctx.note(|| format!("  again with incoming {}", small(&g.v)));
                            g
                        };
                        run_backward("training", &sp, &l, &x, &y, &g, s, ctx)?;
                        for (a, r) in acc.iter_mut().zip(sp.grads(&x, &yv, &g).1) {
                            a.q = mixq(a.q, r.q);
                            a.terms += r.terms + 1;
                            for p in 0..r.v.len() {
                                a.v[p] += r.v[p];
                                a.abs[p] += r.abs[p];
                            }
                        }
                        passes += 1;
                    }
                    both |= passes >= 2;
                    after |= reset;
                }
            }
            2 => {
                what = "clear";
                l.clear();
                acc = zero(&sp);
                known = true;
                reset |= passes > 0;
                passes = 0;
            }
            3 => {
                what = "leave and re-enter training";
                l.inference();
                if s.chance(1, 2) {
                    let x = input(s, sp.ish().n(), exactly);
                    run_forward("inference", &sp, &l, &x, s, ctx)?;
                }
                l.training();
                acc = zero(&sp);
                known = true;
                reset |= passes > 0;
                passes = 0;
            }
            4 => {
                let other = if s.chance(1, 2) { spec(s, kind, exactly) } else { sp.clone() };
                if s.chance(1, 2) {
                    what = "fill_from_state";
                    other.refill(&l)?;
                } else {
                    what = "load_from_serialized";
                    let ser = other.build()?.ser();
                    if let Err(e) = l.load(&ser) {
                        return fail(format!("loading {} into a training layer refused: {}", other.short(), e));
                    }
                }
                sp = other;
                acc = zero(&sp);
                known = true;
                reset |= passes > 0;
                passes = 0;
            }
            6 => {
                what = "a pass that overflows";
                exploding(&sp, &l, s)?;
                known = false;
                passes += 1;
            }
            _ => {
                what = "refused loads";
                let k = (kind + 1 + s.below(3)) % 4;
                let ser = spec(s, k, true).build()?.ser();
                ensure!(l.load(&ser).is_err(), "a {} layer accepted a serialized {} layer", KINDS[kind], KINDS[k]);
            }
        }
        ctx.label(what);
        ctx.note(|| format!("{} on {}", what, sp.short()));
        if known {
            check_params(&format!("after {}", what), &sp, &l, &acc, ctx)?;
        }
    }
    ctx.nontrivial = both && after && HOOKS;
    // clearing leaves parameters and forward results alone
    let ser = l.ser();
    let x = input(s, sp.ish().n(), exactly);
    let a = dump(&run_forward("before clearing", &sp, &l, &x, s, ctx)?);
    l.clear();
    ensure!(same_serialized(&ser, &l.ser()), "clearing the gradients changed the parameters ({})", sp.short());
    let b = dump(&run_forward("after clearing", &sp, &l, &x, s, ctx)?);
    ensure!(same_bits(&a, &b), "clearing the gradients changed the forward result ({})", sp.short());
    check_params("after clearing", &sp, &l, &zero(&sp), ctx)
}

// ---------------------------------------------------------------- C21

pub fn c21() -> Property {
    Property {
        id: "C21",
        rule: "Layers of all four kinds with generated parameters (any bit patterns allowed) and names; the receiver is empty or holds another layer of the \
               kind, is in either mode and may have run passes. After loading: serialized content, name, shapes, mode, forward bits and gradients equal those of \
               the original; loading another kind, a form with a missing field or with a field of garbage returns an error and leaves the receiver's serialized content, mode and \
               passes as they were. Non-trivial: the receiver held a different layer.",
        assumptions: &[FINITE, HOOK],
        facets: vec![
            Facet { name: "restore", quick: 410_000, thorough: 4_920_000, run: c21_restore },
            Facet { name: "refuse", quick: 410_000, thorough: 4_920_000, run: c21_refuse },
            Facet { name: "restore, large", quick: 100, thorough: 1_200, run: large!(c21_restore) },
            Facet { name: "restore, lasting", quick: 24, thorough: 288, run: c21_lasting },
        ],
    }
}

/// Same bits from both layers in a full pass (or forward in inference mode).
pub fn equivalent(what: &str, sp: &Spec, a: &Any, b: &Any, train: bool, s: &mut Src, ctx: &mut Ctx) -> R {
    for _ in 0..1 + s.below(2) {
        let x = layer_input(s, sp);
        let ya = run_forward(what, sp, a, &x, s, ctx)?;
        let yb = run_forward(what, sp, b, &x, s, ctx)?;
        ensure!(same_bits(&dump(&ya), &dump(&yb)), "{}: forward results differ: {} and {} ({})", what, small(&dump(&ya)), small(&dump(&yb)), sp.short());
        if train {
            let g = grad(s, sp.osh().n(), false);
            let da = dump(&run_backward(what, sp, a, &x, &ya, &g, s, ctx)?);
            let db = dump(&run_backward(what, sp, b, &x, &yb, &g, s, ctx)?);
            ensure!(same_bits(&da, &db), "{}: input gradients differ: {} and {} ({})", what, small(&da), small(&db), sp.short());
            if let (Some(pa), Some(pb)) = (a.params_grad(), b.params_grad()) {
                ensure!(pa.len() == pb.len(), "{}: {} and {} parameter gradients", what, pa.len(), pb.len());
                for (p, q) in pa.iter().zip(&pb) {
                    ensure!(
                        p.get_shape() == q.get_shape() && same_bits(&dump(p), &dump(q)),
                        "{}: parameter gradients differ: {} and {} ({})",
                        what,
                        small(&dump(p)),
                        small(&dump(q)),
                        sp.short()
                    );
                }
            }
        }
    }
    Ok(())
}

fn c21_restore(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let mut sp = spec(s, kind, false);
    // parameters of any bit pattern must survive as well
    let odd = kind < 2 && s.chance(1, 6);
    if odd {
        match &mut sp {
            Spec::Fc { w, b, .. } => {
                *w = anybits(s, w.v.len());
                *b = anybits(s, b.v.len());
            }
            Spec::Conv { ks, bs, .. } => {
                for k in ks.iter_mut() {
                    *k = anybits(s, k.v.len());
                }
                *bs = anybits(s, bs.v.len());
            }
            _ => {}
        }
        ctx.label("any bit patterns");
    }
    label_spec(&sp, ctx);
    let origin = sp.build()?;
    let omode = s.chance(1, 2);
    origin.set_mode(omode);
    if !odd && s.chance(1, 3) {
        let x = layer_input(s, &sp);
        let y = run_forward("original", &sp, &origin, &x, s, ctx)?;
        if omode {
            let g = grad(s, sp.osh().n(), false);
            run_backward("original", &sp, &origin, &x, &y, &g, s, ctx)?;
        }
        ctx.label("original used before");
    }
    let ser = origin.ser();
    let held = s.chance(3, 4);
    let rec = if held { spec(s, kind, false).build()? } else { Any::empty(kind) };
    let rmode = s.chance(1, 2);
    rec.set_mode(rmode);
    ctx.label(if rmode { "receiver in training mode" } else { "receiver in inference mode" });
    ctx.nontrivial = held;
    ctx.note(|| format!("{} into {} in training={}", sp.brief(), if held { "another layer" } else { "an empty layer" }, rmode));
    if held && rmode && s.chance(1, 3) {
        // leave gradients behind
        let (a, b) = (rec.ish(), rec.osh());
        let x = mk(a, &exact(s, a.n()).v)?;
        let mut y = mk(b, &vec![0.0; b.n()])?;
        let mut dx = mk(a, &vec![0.0; a.n()])?;
        let g = mk(b, &exact(s, b.n()).v)?;
        ensure!(rec.forward(&x, &mut y).is_ok() && rec.backward(&x, &y, &g, &mut dx).is_ok(), "receiver refused a correct pass");
        ctx.label("receiver used before");
    }
    if let Err(e) = rec.load(&ser) {
        return fail(format!("loading the serialized form of {} was refused: {}", sp.short(), e));
    }
    ctx.compared += 1;
    ensure!(rec.mode() == mode_of(rmode), "loading changed the receiver's mode to {:?}", rec.mode());
    ensure!(rec.name() == *sp.name(), "name {:?} became {:?}", sp.name(), rec.name());
    ensure!(rec.ish() == sp.ish() && rec.osh() == sp.osh(), "shapes became {:?} -> {:?}, expected {:?} -> {:?}", rec.ish(), rec.osh(), sp.ish(), sp.osh());
    ensure!(same_serialized(&ser, &rec.ser()), "serializing the restored {} layer gives other content", KINDS[kind]);
    ensure!(same_serialized(&ser, &origin.ser()), "serializing changed the original");
    ensure!(origin.mode() == mode_of(omode), "serializing changed the original's mode");
    if odd {
        return Ok(());
    }
    let twin = sp.build()?;
    twin.set_mode(rmode);
    equivalent("restored against a new twin", &sp, &rec, &twin, rmode, s, ctx)?;
    // and after switching
    rec.set_mode(!rmode);
    origin.set_mode(!rmode);
    equivalent("restored against the original, other mode", &sp, &rec, &origin, !rmode, s, ctx)?;
    ensure!(same_serialized(&ser, &origin.ser()), "the original's parameters changed");
    Ok(())
}

/// Removes (or, with `garbage`, replaces) the `pick`-th field.
pub fn damage(l: &SerializedLayer, pick: usize, garbage: Option<Vec<u8>>) -> SerializedLayer {
    use rusty_network::layer::convolutional::ConvolutionalSerialKeys as C;
    use rusty_network::layer::fully_connected::FullyConnectedSerialKeys as F;
    use rusty_network::layer::max_pool::MaxPoolSerialKeys as M;
    use rusty_network::layer::softmax::SoftMaxSerialKeys as S;
    macro_rules! one {
        ($map:expr, [$($k:expr),*], $variant:path) => {{
            let mut i = 0usize;
            let n = [$(stringify!($k)),*].len();
            let mut out = std::collections::HashMap::new();
            $(
                if let Some(v) = $map.get(&$k) {
                    if i != pick % n {
                        out.insert($k, v.clone());
                    } else if let Some(g) = &garbage {
                        out.insert($k, g.clone());
                    }
                }
                i += 1;
            )*
            let _ = i;
            $variant(out)
        }};
    }
    match l {
        SerializedLayer::SerialFullyConnectedLayer(m) => {
            one!(m, [F::Weights, F::Bias, F::Name], SerializedLayer::SerialFullyConnectedLayer)
        }
        SerializedLayer::SerialConvolutionalLayer(m) => {
            one!(m, [C::Kernels, C::Biases, C::InputShape, C::Stride, C::Name], SerializedLayer::SerialConvolutionalLayer)
        }
        SerializedLayer::SerialMaxPoolLayer(m) => {
            one!(m, [M::InputShape, M::MaskShape, M::Stride, M::Name], SerializedLayer::SerialMaxPoolLayer)
        }
        SerializedLayer::SerialSoftMaxLayer(m) => one!(m, [S::Shape, S::Name], SerializedLayer::SerialSoftMaxLayer),
    }
}

fn c21_refuse(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let sp = spec(s, kind, false);
    let l = sp.build()?;
    let train = s.chance(1, 2);
    l.set_mode(train);
    label_spec(&sp, ctx);
    ctx.nontrivial = true;
    let before = l.ser();
    // a half-finished pass: forward done, backward to come after the refused load
    let half = if train && s.chance(1, 2) {
        let x = layer_input(s, &sp);
        let y = run_forward("before", &sp, &l, &x, s, ctx)?;
        ctx.label("refused between forward and backward");
        Some((x, y))
    } else {
        None
    };
    let (what, ser) = if s.chance(1, 3) {
        let k = (kind + 1 + s.below(3)) % 4;
        ("another kind", spec(s, k, true).build()?.ser())
    } else {
        let other = spec(s, kind, true).build()?.ser();
        let pick = s.below(20);
        ("a missing field", damage(&other, pick, None))
    };
    ctx.label(what);
    ctx.note(|| format!("{} (training={}) given {}", sp.short(), train, what));
    let r = l.load(&ser);
    ctx.compared += 1;
    ensure!(r.is_err(), "{} accepted a serialized form with {}", sp.short(), what);
    ensure!(same_serialized(&before, &l.ser()), "a refused load ({}) changed {}", what, sp.short());
    ensure!(l.mode() == mode_of(train), "a refused load changed the mode");
    ensure!(l.name() == *sp.name() && l.ish() == sp.ish() && l.osh() == sp.osh(), "a refused load changed name or shapes");
    if let Some((x, y)) = half {
        let g = grad(s, sp.osh().n(), false);
        run_backward("after a refused load", &sp, &l, &x, &y, &g, s, ctx)?;
        if kind < 2 {
            check_params("after a refused load", &sp, &l, &sp.grads(&x, &dump(&y), &g).1, ctx)?;
            l.clear();
        }
    }
    let twin = sp.build()?;
    twin.set_mode(train);
    equivalent("after a refused load", &sp, &l, &twin, train, s, ctx)
}

// ---------------------------------------------------------------- C24

pub fn c24() -> Property {
    Property {
        id: "C24",
        rule: "Constructors and refills of all four layer kinds with configurations derived from valid ones by 0-2 perturbations (window, image, stride incl. 0 and \
               u32::MAX, depth, kernel shapes, bias count and shape, kernel count, weight/bias shapes), on new layers or layers of either mode that hold another \
               configuration. Oracle: the stated validity rule; accepted layers must run in both modes with reference results, refused refills must leave the layer as it was. \
               Non-trivial: a perturbed configuration or a refill.",
        assumptions: &["dimensions of at least one unless stated", "element counts fit in 32 bits"],
        facets: vec![
            Facet { name: "convolutional", quick: 610_000, thorough: 7_320_000, run: c24_conv },
            Facet { name: "max pool", quick: 490_000, thorough: 5_880_000, run: c24_pool },
            Facet { name: "fully connected", quick: 370_000, thorough: 4_440_000, run: c24_fc },
            Facet { name: "softmax", quick: 120_000, thorough: 1_440_000, run: c24_softmax },
            Facet { name: "windows, larger", quick: 200, thorough: 2_400, run: c24_vast },
            Facet { name: "convolutional, large", quick: 80, thorough: 960, run: large!(c24_conv) },
            Facet { name: "max pool, large", quick: 120, thorough: 1_440, run: large!(c24_pool) },
            Facet { name: "fully connected, large", quick: 120, thorough: 1_440, run: large!(c24_fc) },
            Facet { name: "softmax, large", quick: 120, thorough: 1_440, run: large!(c24_softmax) },
        ],
    }
}

/// A constructed layer runs in both modes.
fn usable(what: &str, sp: &Spec, l: &Any, train: bool, s: &mut Src, ctx: &mut Ctx) -> R {
    ensure!(l.ish() == sp.ish(), "{}: declares input shape {:?}, expected {:?} ({})", what, l.ish(), sp.ish(), sp.short());
    ensure!(l.osh() == sp.osh(), "{}: declares output shape {:?}, expected {:?} ({})", what, l.osh(), sp.osh(), sp.short());
    ensure!(l.name() == *sp.name(), "{}: name {:?}, expected {:?}", what, l.name(), sp.name());
    ensure!(l.mode() == mode_of(train), "{}: mode {:?}, expected training={}", what, l.mode(), train);
    for m in [train, !train] {
        if m != train {
            l.set_mode(m);
        }
        let x = layer_input(s, sp);
        let y = run_forward(what, sp, l, &x, s, ctx)?;
        if m {
            let g = grad(s, sp.osh().n(), false);
            run_backward(what, sp, l, &x, &y, &g, s, ctx)?;
        }
    }
    Ok(())
}

/// A target for a refill: what it holds, and in which mode.
fn holder(kind: usize, s: &mut Src) -> Result<(Spec, Any, bool), Fail> {
    let sp = spec(s, kind, true);
    let l = sp.build()?;
    let train = s.chance(1, 2);
    l.set_mode(train);
    Ok((sp, l, train))
}

fn kept(what: &str, old: &Spec, l: &Any, train: bool, ser: &SerializedLayer, s: &mut Src, ctx: &mut Ctx) -> R {
    ctx.label("refused refill");
    ensure!(same_serialized(ser, &l.ser()), "{}: the refused refill changed the layer ({})", what, old.short());
    usable(what, old, l, train, s, ctx)
}

fn break_geo(s: &mut Src, g: &mut Geo) {
    match s.below(8) {
        0 => g.ker.0 = g.img.0 + s.u(1, 3),
        1 => g.ker.1 = g.img.1 + s.u(1, 3),
        2 => g.stride = 0,
        3 => g.stride = g.stride + s.u(1, 3),
        4 => g.img.0 += s.u(1, 3),
        5 => g.img.1 += s.u(1, 3),
        6 => g.stride = [u32::MAX, 1 << 31, u32::MAX / 2, 1000][s.below(4)],
        _ => {
            let t = g.ker.0;
            g.ker.0 = g.ker.1;
            g.ker.1 = t;
        }
    }
}

fn regrid(g: &mut Geo) -> bool {
    match (fits(g.img.0, g.ker.0, g.stride), fits(g.img.1, g.ker.1, g.stride)) {
        (Some(a), Some(b)) => {
            g.out.0 = a;
            g.out.1 = b;
            true
        }
        _ => false,
    }
}

/// Extents around and above 2^24, where single precision does not hold every whole number.
fn c24_vast(s: &mut Src, ctx: &mut Ctx) -> R {
    let (more, less) = (s.below(24), s.below(20));
    let e = (1u32 << 24) - 8 + s.u(0, 1 << more);
    let w = if s.chance(1, 2) { s.u(1, 3) } else { e - s.u(0, 1 << less).min(e - 1) };
    let st = match s.below(5) {
        0 => [1, 1, 2, 3, 5][s.below(5)],
        1 => s.u(1, 1 << 24),
        2 => (e - w).max(1),
        // a divisor of the distance, or next to one
        _ => (((e - w) / (1 + s.u(0, 40))).max(1) + s.u(0, 2)).saturating_sub(s.u(0, 1)).max(1),
    };
    let ok = (e - w) % st == 0;
    let out = (e - w) / st + 1;
    let (first, conv, depth) = (s.chance(1, 2), s.chance(1, 2), s.u(1, 2));
    let along = |x: u32, d: u32| if first { Sh(x, 1, d) } else { Sh(1, x, d) };
    // a window over everything at many positions would take too long
    if ok && w as u64 * out as u64 * depth as u64 > 1 << 27 {
        return Ok(());
    }
    ctx.nontrivial = true;
    ctx.compared += 1;
    ctx.label(if ok { "accepted" } else { "refused" });
    let what = format!("a {} layer of input {:?}, window {}, stride {}", if conv { "convolutional" } else { "max-pool" }, along(e, 1), w, st);
    ctx.note(|| format!("{}, expected valid: {}", what, ok));
    let nm = "vast".to_string();
    let mut l: Box<dyn Layer> = if conv {
        match ConvolutionalLayer::new(along(w, 1).ts(), along(e, 1).ts(), st, depth, &nm) {
            Ok(l) => Box::new(l),
            Err(m) => {
                ensure!(!ok, "{} is refused: {}", what, m);
                return Ok(());
            }
        }
    } else {
        match MaxPoolLayer::new(along(w, 1).ts(), along(e, 1).ts(), st, &nm) {
            Ok(l) => Box::new(l),
            Err(m) => {
                ensure!(!ok, "{} is refused: {}", what, m);
                return Ok(());
            }
        }
    };
    ensure!(ok, "{} is accepted", what);
    let osh = along(out, if conv { depth } else { 1 });
    ensure!(
        Sh::of(l.get_input_shape()) == along(e, 1) && Sh::of(l.get_output_shape()) == osh,
        "{} declares {:?} -> {:?}, expected {:?}",
        what, Sh::of(l.get_input_shape()), Sh::of(l.get_output_shape()), osh
    );
    // the only large items are the first and the last one
    let mut v = vec![-1.0f32; e as usize];
    v[0] = 3.0;
    v[e as usize - 1] = 2.0;
    let x = mk(along(e, 1), &v)?;
    let mut y = mk(osh, &vec![f32::NAN; osh.n()])?;
    if let Err(m) = l.forward(&x, &mut y) {
        return fail(format!("{}: forward fails: {}", what, m));
    }
    let d = dump(&y);
    for (p, got) in d.iter().enumerate() {
        let want = if conv {
            0.0
        } else if p == 0 {
            3.0
        } else if p + 1 == d.len() {
            2.0
        } else {
            -1.0
        };
        ensure!(*got == want, "{}: output {} is {:?}, expected {:?}", what, p, got, want);
    }
    ctx.compared += d.len() as u64;
    Ok(())
}

fn c24_conv(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = geo(s, false);
    let mut ok = true;
    if s.chance(1, 2) {
        break_geo(s, &mut g);
        ctx.nontrivial = true;
        ctx.label("perturbed geometry");
    }
    let nk = g.out.2 as usize;
    // kernel depth
    if s.chance(1, 6) {
        g.ker.2 = s.u(1, 4);
        ctx.nontrivial = true;
    }
    ok &= g.ker.2 == g.img.2;
    ok &= regrid(&mut g);
    ctx.label_if(g.ker.2 != g.img.2, "kernel depth differs from input depth");
    if s.chance(1, 3) {
        // the constructor
        let depth = if s.chance(1, 10) { 0 } else { g.out.2 };
        let nm = name(s);
        ctx.note(|| format!("new(kernel {:?}, input {:?}, stride {}, depth {}), expected valid: {}", g.ker, g.img, g.stride, depth, ok && depth > 0));
        let r = ConvolutionalLayer::new(g.ker.ts(), g.img.ts(), g.stride, depth, &nm);
        let want = ok && depth > 0;
        ensure!(r.is_ok() == want, "ConvolutionalLayer::new(kernel {:?}, input {:?}, stride {}, depth {}) gave {:?}, valid: {}", g.ker, g.img, g.stride, depth, r.err(), want);
        ctx.compared += 1;
        ctx.label(if want { "accepted" } else { "refused" });
        if let Ok(l) = r {
            let zero = Data { v: vec![0.0; g.ker.n()], q: 1.0, kind: "zero" };
            let sp = Spec::Conv { g, ks: vec![zero; nk], bs: Data { v: vec![0.0; nk], q: 1.0, kind: "zero" }, name: nm };
            let l = Any::Conv(Rc::new(RefCell::new(l)));
            usable("new layer", &sp, &l, false, s, ctx)?;
        }
        return Ok(());
    }
    let sp = conv_spec(s, g, true);
    let (mut kt, mut bt) = (Vec::new(), Vec::new());
    if let Spec::Conv { ks, bs, .. } = &sp {
        for c in 0..nk {
            kt.push(mk(g.ker, &ks[c].v)?);
            bt.push(mk(Sh(1, 1, 1), &bs.v[c..c + 1])?);
        }
    }
    match s.weighted(&[10, 2, 2, 2, 1, 1]) {
        1 => {
            bt.pop();
            ok = false;
            ctx.label("too few biases");
        }
        2 => {
            bt.push(mk(Sh(1, 1, 1), &[1.0])?);
            ok = false;
            ctx.label("too many biases");
        }
        3 => {
            let sh = [Sh(2, 1, 1), Sh(1, 2, 1), Sh(1, 1, 3)][s.below(3)];
            let at = s.below(nk);
            bt[at] = mk(sh, &vec![1.0; sh.n()])?;
            ok = false;
            ctx.label("bias is not a scalar");
        }
        4 => {
            let at = s.below(nk);
            let sh = near(s, g.ker);
            if sh != g.ker {
                kt[at] = mk(sh, &vec![1.0; sh.n()])?;
                // with a single kernel this is simply another kernel shape
                if nk == 1 {
                    return Ok(());
                }
                ok = false;
                ctx.label("kernels of different shapes");
            }
        }
        5 => {
            kt.clear();
            if s.chance(1, 2) {
                bt.clear();
            }
            ok = false;
            ctx.label("no kernels");
        }
        _ => {}
    }
    let (old, l, train) = if s.chance(2, 3) {
        ctx.label("refill");
        ctx.nontrivial = true;
        holder(1, s)?
    } else {
        let z = conv_spec(s, Geo { img: Sh(1, 1, 1), ker: Sh(1, 1, 1), stride: 1, out: Sh(1, 1, 1) }, true);
        let l = z.build()?;
        (z, l, false)
    };
    let ser = l.ser();
    let nm = sp.name().clone();
    if s.rarely(1, 6) {
        // what the parameters hold does not matter
        ctx.label("parameters of any content");
        let mut redo = |ts: &Vec<Tensor>| -> Result<Vec<Tensor>, Fail> {
            ts.iter()
                .map(|t| {
                    let sh = Sh::of(t.get_shape());
                    mk(sh, &anybits(s, sh.n()).v)
                })
                .collect()
        };
        let (k2, b2) = (redo(&kt)?, redo(&bt)?);
        let (_, l2, _) = holder(1, s)?;
        let r = match &l2 {
            Any::Conv(c) => c.borrow_mut().fill_from_state(k2, b2, g.img.ts(), g.stride, &nm),
            _ => unreachable!(),
        };
        ensure!(r.is_ok() == ok, "fill_from_state with parameters of any content, input {:?}, stride {}, gave {:?}, valid: {}", g.img, g.stride, r, ok);
    }
    ctx.note(|| {
        format!(
            "fill_from_state({} kernels {:?}, biases {:?}, input {:?}, stride {}) into {} training={}, expected valid: {}",
            kt.len(),
            kt.iter().map(|t| Sh::of(t.get_shape())).collect::<Vec<_>>(),
            bt.iter().map(|t| Sh::of(t.get_shape())).collect::<Vec<_>>(),
            g.img,
            g.stride,
            old.short(),
            train,
            ok
        )
    });
    let (ks, bs): (Vec<Sh>, Vec<Sh>) = (kt.iter().map(|t| Sh::of(t.get_shape())).collect(), bt.iter().map(|t| Sh::of(t.get_shape())).collect());
    let r = match &l {
        Any::Conv(c) => c.borrow_mut().fill_from_state(kt, bt, g.img.ts(), g.stride, &nm),
        _ => unreachable!(),
    };
    ctx.compared += 1;
    ensure!(r.is_ok() == ok, "fill_from_state(kernels {:?}, biases {:?}, input {:?}, stride {}) gave {:?}, valid: {}", ks, bs, g.img, g.stride, r, ok);
    ctx.label(if ok { "accepted" } else { "refused" });
    if ok {
        usable("refilled layer", &sp, &l, train, s, ctx)
    } else {
        kept("after a refused refill", &old, &l, train, &ser, s, ctx)
    }
}

fn c24_pool(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = geo(s, true);
    if s.chance(1, 2) {
        break_geo(s, &mut g);
        ctx.nontrivial = true;
        ctx.label("perturbed geometry");
    }
    let ok = regrid(&mut g);
    let nm = name(s);
    let sp = Spec::Mp { g, name: nm.clone() };
    ctx.label(if ok { "accepted" } else { "refused" });
    ctx.compared += 1;
    if s.chance(1, 2) {
        ctx.note(|| format!("new(mask {:?}, input {:?}, stride {}), expected valid: {}", g.ker, g.img, g.stride, ok));
        let r = MaxPoolLayer::new(g.ker.ts(), g.img.ts(), g.stride, &nm);
        ensure!(r.is_ok() == ok, "MaxPoolLayer::new(mask {:?}, input {:?}, stride {}) gave {:?}, valid: {}", g.ker, g.img, g.stride, r.err(), ok);
        if let Ok(l) = r {
            let l = Any::Mp(Rc::new(RefCell::new(l)));
            usable("new layer", &sp, &l, false, s, ctx)?;
        }
        return Ok(());
    }
    ctx.nontrivial = true;
    let (old, l, train) = holder(2, s)?;
    let ser = l.ser();
    ctx.note(|| format!("fill_from_state(mask {:?}, input {:?}, stride {}) into {} training={}, expected valid: {}", g.ker, g.img, g.stride, old.short(), train, ok));
    let r = match &l {
        Any::Mp(c) => c.borrow_mut().fill_from_state(g.img.ts(), g.ker.ts(), g.stride, &nm),
        _ => unreachable!(),
    };
    ensure!(r.is_ok() == ok, "fill_from_state(input {:?}, mask {:?}, stride {}) gave {:?}, valid: {}", g.img, g.ker, g.stride, r, ok);
    if ok {
        usable("refilled layer", &sp, &l, train, s, ctx)
    } else {
        kept("after a refused refill", &old, &l, train, &ser, s, ctx)
    }
}

fn c24_fc(s: &mut Src, ctx: &mut Ctx) -> R {
    if s.chance(1, 4) {
        let (n, m) = (dim(s, 40), dim(s, 40));
        let nm = name(s);
        ctx.note(|| format!("new({}, {})", n, m));
        let l = FullyConnectedLayer::new(n, m, &nm);
        let z = |k: u32| Data { v: vec![0.0; k as usize], q: 1.0, kind: "zero" };
        let sp = Spec::Fc { n, m, d: 1, w: z(n * m), b: z(m), name: nm };
        ctx.nontrivial = n * m > 1;
        return usable("new layer", &sp, &Any::Fc(Rc::new(RefCell::new(l))), false, s, ctx);
    }
    let sp = spec(s, 0, true);
    let (n, m, d) = match &sp {
        Spec::Fc { n, m, d, .. } => (*n, *m, *d),
        _ => unreachable!(),
    };
    let (wsh, mut bsh) = (Sh(m, n, d), Sh(m, 1, d));
    if s.chance(1, 2) {
        bsh = match s.below(6) {
            0 => Sh(n, 1, d),
            1 => Sh(m, n, d),
            2 => Sh(m, 1, d + 1),
            3 => Sh(m + 1, 1, d),
            4 => Sh(1, m, d),
            _ => near(s, bsh),
        };
        ctx.label("perturbed bias shape");
    }
    let ok = bsh == Sh(m, 1, d);
    let (old, l, train) = holder(0, s)?;
    let ser = l.ser();
    ctx.nontrivial = true;
    ctx.label(if ok { "accepted" } else { "refused" });
    ctx.label_if(d > 1, "depth > 1");
    ctx.note(|| format!("fill_from_state(weights {:?}, bias {:?}) into {} training={}, expected valid: {}", wsh, bsh, old.short(), train, ok));
    let (wt, bt) = match &sp {
        Spec::Fc { w, b, .. } => (mk(wsh, &w.v)?, mk(bsh, &if ok { b.v.clone() } else { vec![1.0; bsh.n()] })?),
        _ => unreachable!(),
    };
    if s.rarely(1, 6) {
        // what the parameters hold does not matter
        ctx.label("parameters of any content");
        let (w2, b2) = (mk(wsh, &anybits(s, wsh.n()).v)?, mk(bsh, &anybits(s, bsh.n()).v)?);
        let (_, l2, _) = holder(0, s)?;
        let r = match &l2 {
            Any::Fc(c) => c.borrow_mut().fill_from_state(w2, b2, sp.name()),
            _ => unreachable!(),
        };
        ensure!(r.is_ok() == ok, "fill_from_state(weights {:?}, bias {:?} of any content) gave {:?}, valid: {}", wsh, bsh, r, ok);
    }
    let r = match &l {
        Any::Fc(c) => c.borrow_mut().fill_from_state(wt, bt, sp.name()),
        _ => unreachable!(),
    };
    ctx.compared += 1;
    ensure!(r.is_ok() == ok, "fill_from_state(weights {:?}, bias {:?}) gave {:?}, valid: {}", wsh, bsh, r, ok);
    if ok {
        usable("refilled layer", &sp, &l, train, s, ctx)
    } else {
        kept("after a refused refill", &old, &l, train, &ser, s, ctx)
    }
}

fn c24_softmax(s: &mut Src, ctx: &mut Ctx) -> R {
    let sp = spec(s, 3, false);
    ctx.nontrivial = spec_nontrivial(&sp);
    ctx.note(|| sp.brief());
    if s.chance(1, 2) {
        return match SoftmaxLayer::new(sp.ish().ts(), sp.name()) {
            Ok(l) => usable("new layer", &sp, &Any::Sm(Rc::new(RefCell::new(l))), false, s, ctx),
            Err(e) => fail(format!("SoftmaxLayer::new({:?}) refused: {}", sp.ish(), e)),
        };
    }
    let (_, l, train) = holder(3, s)?;
    sp.refill(&l)?;
    usable("refilled layer", &sp, &l, train, s, ctx)
}

// ---------------------------------------------------------------- C25

pub fn c25() -> Property {
    Property {
        id: "C25",
        rule: "Layers of all four kinds in both modes; in forward or backward one or two of the required tensors get a wrong shape (one extent off by one, \
               extents swapped, same element count in another shape, other). The call must return an error without panicking, and after up to three refused calls, possibly \
               between a forward and its backward, correct passes must give the reference results including parameter gradients. Non-trivial: always (a wrong shape was given).",
        assumptions: &[FINITE, "the output tensor given to backward is the layer's own output", HOOK],
        facets: vec![
            Facet { name: "refusal", quick: 1_600_000, thorough: 19_200_000, run: c25_refusal },
            Facet { name: "refusal, large", quick: 60, thorough: 720, run: large!(c25_refusal) },
            Facet { name: "refusal, long", quick: 120, thorough: 1_440, run: long!(c25_refusal) },
            Facet { name: "refusal, lasting", quick: 40, thorough: 480, run: c25_lasting },
        ],
    }
}

fn wrong(s: &mut Src, sh: Sh) -> Option<Sh> {
    for _ in 0..4 {
        let w = near(s, sh);
        if w != sh {
            return Some(w);
        }
    }
    None
}

/// One call with wrong shapes; returns what was wrong.
fn refused_call(sp: &Spec, l: &Any, train: bool, s: &mut Src, ctx: &mut Ctx) -> R {
    let back = s.chance(1, 2);
    let (a, b) = (sp.ish(), sp.osh());
    let mut shs = if back { vec![a, b, a, b] } else { vec![a, b] };
    let names: &[&'static str] = if back {
        &["backward: input", "backward: incoming gradient", "backward: outgoing gradient", "backward: output"]
    } else {
        &["forward: input", "forward: output"]
    };
    // only the softmax layer computes its gradient from the output
    let n = names.len();
    let at = s.below(if back && sp.kind() != 3 { 3 } else { n });
    match wrong(s, shs[at]) {
        Some(w) => shs[at] = w,
        None => return Ok(()),
    }
    ctx.label(names[at]);
    if s.chance(1, 5) {
        let at2 = s.below(n);
        if at2 != at {
            // the same wrong shape twice may look consistent
            shs[at2] = if s.chance(1, 2) { shs[at] } else { wrong(s, shs[at2]).unwrap_or(shs[at2]) };
            ctx.label("two wrong shapes");
        }
    }
    ctx.note(|| format!("wrong {}: shapes {:?} for {} training={}", names[at], shs, sp.short(), train));
    let mut ts = Vec::new();
    for sh in &shs {
        let v = exact(s, sh.n());
        ts.push(mk(*sh, &v.v)?);
    }
    ctx.compared += 1;
    let call = || {
        if back {
            let mut out = ts[2].clone();
            l.backward(&ts[0], &ts[3], &ts[1], &mut out)
        } else {
            let mut out = ts[1].clone();
            l.forward(&ts[0], &mut out)
        }
    };
    match no_panic(call) {
        Err(m) => fail(format!("{} of wrong shape ({:?}) given to {} training={}: {}", names[at], shs, sp.short(), train, m)),
        Ok(Ok(())) => fail(format!("{} of wrong shape ({:?}) given to {} training={} is answered with success", names[at], shs, sp.short(), train)),
        Ok(Err(_)) => Ok(()),
    }
}

fn c25_refusal(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let sp = spec(s, kind, true);
    label_spec(&sp, ctx);
    let l = sp.build()?;
    let train = s.chance(1, 2);
    l.set_mode(train);
    ctx.label(if train { "training mode" } else { "inference mode" });
    ctx.nontrivial = true;
    if s.chance(1, 2) {
        let x = layer_input(s, &sp);
        run_forward("before", &sp, &l, &x, s, ctx)?;
    }
    for _ in 0..s.times(1, 3) {
        refused_call(&sp, &l, train, s, ctx)?;
    }
    let ser = sp.build()?.ser();
    ensure!(same_serialized(&ser, &l.ser()), "a refused call changed the parameters of {}", sp.short());
    // refused calls are not passes: nothing was accumulated
    if train && kind < 2 {
        if let Some(ps) = l.params_grad() {
            ensure!(ps.iter().all(|t| dump(t).iter().all(|v| *v == 0.0)), "a refused call left parameter gradients behind in {}", sp.short());
        }
    }
    let x = layer_input(s, &sp);
    let y = run_forward("after a refused call", &sp, &l, &x, s, ctx)?;
    if train {
        let g = grad(s, sp.osh().n(), false);
        run_backward("after a refused call", &sp, &l, &x, &y, &g, s, ctx)?;
        if kind < 2 {
            check_params("after a refused call", &sp, &l, &sp.grads(&x, &dump(&y), &g).1, ctx)?;
        }
    }
    Ok(())
}
