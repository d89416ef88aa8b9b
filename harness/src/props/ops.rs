//! C05-C09: convolution, pooling, geometry checks, softmax.

use super::tensors::near;
use crate::engine::*;
use crate::{ensure, large};
use crate::gen::*;
use crate::layers::*;
use crate::refm::*;
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;

// ---------------------------------------------------------------- C05

pub fn c05() -> Property {
    Property {
        id: "C05",
        rule: "Geometries built from (output extent, window, stride) per direction so that they fit: windows to 26, positions to 40, strides to 34, \
               depth and result channels to 40, mostly small; dyadic or real values; stale result contents. Compared with the direct definition in double \
               precision (exactly when representable). Non-trivial: window and output both have more than one element.",
        assumptions: &["finite values whose sums of absolute terms stay below 1e37"],
        facets: vec![
            Facet { name: "forward", quick: 2_900_000, thorough: 34_800_000, run: c05_forward },
            Facet { name: "special values", quick: 500_000, thorough: 6_000_000, run: c05_special },
            Facet { name: "forward, large", quick: 160, thorough: 1_920, run: large!(c05_forward) },
        ],
    }
}

fn c05_forward(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = geo(s, false);
    label_geo(&g, ctx);
    ctx.nontrivial = geo_nontrivial(&g);
    let img = grad(s, g.img.n(), false);
    let ker = finite(s, g.ker.n());
    let b = finite(s, 1);
    let c = s.u(0, g.out.2 - 1);
    let st = stale(s, g.out.n());
    ctx.note(|| format!("{:?} channel {} image {} kernel {} bias {:?}", g, c, small(&img.v), small(&ker.v), b.v[0]));
    let (ti, tk, tb) = (mk(g.img, &img.v)?, mk(g.ker, &ker.v)?, mk(Sh(1, 1, 1), &b.v)?);
    let e = conv(&img, &g, &ker, b.v[0], b.q);
    let plane = e.v.len();
    for relu in [false, true] {
        let what = if relu { "convolution with bias and ReLU" } else { "convolution with bias" };
        let mut r = mk(g.out, &st)?;
        let x = if relu {
            convolution_bias_relu(&ti, &tk, &tb, g.stride, &mut r, c)
        } else {
            convolution_bias(&ti, &tk, &tb, g.stride, &mut r, c)
        };
        if let Err(m) = x {
            return fail(format!("{} refused valid geometry {:?} channel {}: {}", what, g, c, m));
        }
        ensure!(Sh::of(r.get_shape()) == g.out, "{} changed the result shape", what);
        let d = dump(&r);
        let at = c as usize * plane;
        let ee = if relu { e.clone().relu() } else { e.clone() };
        agrees_vec(&format!("{} {:?} channel {}", what, g, c), &d[at..at + plane], &ee, ctx)?;
        for p in (0..at).chain(at + plane..d.len()) {
            ensure!(d[p].to_bits() == st[p].to_bits(), "{} {:?} into channel {} changed another channel at {:?}", what, g, c, g.out.un(p));
        }
    }
    ctx.label_if(e.v.iter().any(|x| *x < 0.0), "negative before ReLU");
    unchanged("image", &ti, g.img, &img.v)?;
    unchanged("kernel", &tk, g.ker, &ker.v)?;
    unchanged("bias", &tb, Sh(1, 1, 1), &b.v)
}

fn c05_special(s: &mut Src, ctx: &mut Ctx) -> R {
    let st = s.u(1, 3);
    let (k, o, d) = (Sh(s.u(1, 3), s.u(1, 3), 1), Sh(s.u(1, 3), s.u(1, 3), 1), s.u(1, 2));
    let g = Geo { img: Sh((o.0 - 1) * st + k.0, (o.1 - 1) * st + k.1, d), ker: Sh(k.0, k.1, d), stride: st, out: o };
    let (img, ker, b) = (special(s, g.img.n()), special(s, g.ker.n()), special(s, 1));
    ctx.note(|| format!("{:?} image {:?} kernel {:?} bias {:?}", g, img.v, ker.v, b.v));
    let e = conv(&img, &g, &ker, b.v[0], 0.0);
    ctx.nontrivial = e.v.iter().any(|x| !x.is_finite());
    ctx.label_if(e.v.iter().any(|x| x.is_nan()), "not-a-number expected");
    ctx.label_if(e.v.iter().any(|x| x.is_infinite()), "infinity expected");
    let (ti, tk, tb) = (mk(g.img, &img.v)?, mk(g.ker, &ker.v)?, mk(Sh(1, 1, 1), &b.v)?);
    for relu in [false, true] {
        let mut r = mk(g.out, &stale(s, g.out.n()))?;
        let x = if relu { convolution_bias_relu(&ti, &tk, &tb, g.stride, &mut r, 0) } else { convolution_bias(&ti, &tk, &tb, g.stride, &mut r, 0) };
        ensure!(x.is_ok(), "convolution refused {:?}", g);
        ctx.compared += e.v.len() as u64;
        special_agrees(&format!("convolution {:?} relu={} image {:?} kernel {:?} bias {:?}", g, relu, img.v, ker.v, b.v), &dump(&r), &e.v, relu)?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C06

pub fn c06() -> Property {
    Property {
        id: "C06",
        rule: "Geometries as in C05 with one kernel per result channel; dyadic or real values; stale gradients. Image gradient compared with a \
               scatter formulation and kernel gradient with its definition (double precision, exactly when representable); inner-product \
               identity with the real forward convolution; other channels' gradients perturbed. Non-trivial: window and output both have more than one element.",
        assumptions: &["finite values whose sums of absolute terms stay below 1e37"],
        facets: vec![
            Facet { name: "image", quick: 960_000, thorough: 11_520_000, run: c06_image },
            Facet { name: "kernel", quick: 960_000, thorough: 11_520_000, run: c06_kernel },
            Facet { name: "adjoint", quick: 380_000, thorough: 4_560_000, run: c06_adjoint },
            Facet { name: "image, large", quick: 120, thorough: 1_440, run: large!(c06_image) },
            Facet { name: "kernel, large", quick: 120, thorough: 1_440, run: large!(c06_kernel) },
            Facet { name: "adjoint, large", quick: 60, thorough: 720, run: large!(c06_adjoint) },
        ],
    }
}

fn c06_image(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = geo(s, false);
    label_geo(&g, ctx);
    ctx.nontrivial = geo_nontrivial(&g);
    let gr = grad(s, g.out.n(), false);
    let kers: Vec<Data> = (0..g.out.2).map(|_| finite(s, g.ker.n())).collect();
    let st = stale(s, g.img.n());
    ctx.note(|| format!("{:?} incoming {} kernels {:?}", g, small(&gr.v), kers.iter().map(|k| small(&k.v)).collect::<Vec<_>>()));
    let tg = mk(g.out, &gr.v)?;
    let mut tk = Vec::new();
    for k in &kers {
        tk.push(mk(g.ker, &k.v)?);
    }
    let mut r = mk(g.img, &st)?;
    if let Err(m) = convolution_backprop_outgoing_gradient(&tg, &tk, g.stride, &mut r) {
        return fail(format!("image gradient refused valid geometry {:?}: {}", g, m));
    }
    agrees(&format!("image gradient {:?}", g), &r, &conv_adj_image(&gr, &g, &kers), ctx)?;
    unchanged("incoming gradient", &tg, g.out, &gr.v)?;
    for (a, b) in tk.iter().zip(&kers) {
        unchanged("kernel", a, g.ker, &b.v)?;
    }
    Ok(())
}

fn c06_kernel(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = geo(s, false);
    label_geo(&g, ctx);
    ctx.nontrivial = geo_nontrivial(&g);
    let gr = grad(s, g.out.n(), false);
    let img = finite(s, g.img.n());
    let c = s.u(0, g.out.2 - 1);
    let st = stale(s, g.ker.n());
    ctx.note(|| format!("{:?} channel {} incoming {} image {}", g, c, small(&gr.v), small(&img.v)));
    let (tg, ti) = (mk(g.out, &gr.v)?, mk(g.img, &img.v)?);
    let mut r = mk(g.ker, &st)?;
    if let Err(m) = convolution_backprop_kernel(&tg, &ti, g.stride, c, &mut r) {
        return fail(format!("kernel gradient refused valid geometry {:?} channel {}: {}", g, c, m));
    }
    agrees(&format!("kernel gradient {:?} channel {}", g, c), &r, &conv_adj_kernel(&gr, &g, &img, c), ctx)?;
    unchanged("incoming gradient", &tg, g.out, &gr.v)?;
    unchanged("image", &ti, g.img, &img.v)?;
    // the other channels do not matter
    if g.out.2 > 1 {
        let mut v = gr.v.clone();
        let plane = (g.out.0 * g.out.1) as usize;
        for p in 0..v.len() {
            if p / plane != c as usize {
                v[p] = v[p] * 3.0 + 7.0;
            }
        }
        let mut r2 = mk(g.ker, &st)?;
        let x = convolution_backprop_kernel(&mk(g.out, &v)?, &ti, g.stride, c, &mut r2);
        ensure!(x.is_ok(), "kernel gradient refused {:?}", g);
        ensure!(same_bits(&dump(&r), &dump(&r2)), "kernel gradient of channel {} depends on other channels' gradients ({:?})", c, g);
    }
    Ok(())
}

fn c06_adjoint(s: &mut Src, ctx: &mut Ctx) -> R {
    // <conv(x; K), g> = <x, image gradient> = sum_c <K_c, kernel gradient_c>, without bias, on exact data
    let g = geo(s, false);
    label_geo(&g, ctx);
    ctx.nontrivial = geo_nontrivial(&g);
    let ints = |s: &mut Src, n: usize| expand(s, n, |x| zz(x) as f32, 8);
    let img = ints(s, g.img.n());
    let gr = ints(s, g.out.n());
    let kers: Vec<Vec<f32>> = (0..g.out.2).map(|_| ints(s, g.ker.n())).collect();
    ctx.note(|| format!("{:?} image {} incoming {} kernels {:?}", g, small(&img), small(&gr), kers.iter().map(|k| small(k)).collect::<Vec<_>>()));
    let (ti, tg) = (mk(g.img, &img)?, mk(g.out, &gr)?);
    let mut tk = Vec::new();
    for k in &kers {
        tk.push(mk(g.ker, k)?);
    }
    let tb = Tensor::new(Sh(1, 1, 1).ts());
    let mut y = Tensor::new(g.out.ts());
    for c in 0..g.out.2 {
        ensure!(convolution_bias(&ti, &tk[c as usize], &tb, g.stride, &mut y, c).is_ok(), "forward refused {:?}", g);
    }
    let mut dx = Tensor::new(g.img.ts());
    ensure!(convolution_backprop_outgoing_gradient(&tg, &tk, g.stride, &mut dx).is_ok(), "image gradient refused {:?}", g);
    let dot = |a: &[f32], b: &[f32]| a.iter().zip(b).map(|(x, y)| *x as f64 * *y as f64).sum::<f64>();
    let lhs = dot(&dump(&y), &gr);
    let rhs = dot(&img, &dump(&dx));
    ensure!(lhs == rhs, "<conv(x), g> = {} but <x, image gradient> = {} for {:?}", lhs, rhs, g);
    let mut rhs2 = 0.0;
    for c in 0..g.out.2 {
        let mut dk = Tensor::new(g.ker.ts());
        ensure!(convolution_backprop_kernel(&tg, &ti, g.stride, c, &mut dk).is_ok(), "kernel gradient refused {:?}", g);
        rhs2 += dot(&kers[c as usize], &dump(&dk));
    }
    ensure!(lhs == rhs2, "<conv(x), g> = {} but sum of <K, kernel gradient> = {} for {:?}", lhs, rhs2, g);
    ctx.compared += 2;
    Ok(())
}

// ---------------------------------------------------------------- C07

pub fn c07() -> Property {
    Property {
        id: "C07",
        rule: "Geometries as in C05 for pooling (also gapped and overlapping windows); values with many ties, all negative, -inf/+inf, huge and \
               ordinary. Each output equals the maximum of its window (exact), origins lie in the own window and attain it. Non-trivial: window \
               and output both have more than one element.",
        assumptions: &["no NaN in the image"],
        facets: vec![
            Facet { name: "pool", quick: 4_300_000, thorough: 51_600_000, run: c07_pool },
            Facet { name: "pool, large", quick: 240, thorough: 2_880, run: large!(c07_pool) },
        ],
    }
}

pub fn pool_values(s: &mut Src, n: usize) -> Data {
    match s.weighted(&[3, 3, 2, 2, 2, 2]) {
        0 => exact(s, n),
        1 => Data { v: expand(s, n, |x| x as f32, 1), q: 1.0, kind: "two values" },
        2 => Data { v: expand(s, n, |x| -1.0 - x as f32, 5), q: 1.0, kind: "negative" },
        3 => Data {
            v: expand(s, n, |x| [f32::NEG_INFINITY, f32::MIN, -0.0, 0.0, f32::INFINITY, f32::MAX, -1.0, 1e-45][x as usize], 7),
            q: 0.0,
            kind: "extremes",
        },
        4 => Data { v: expand(s, n, |x| if x == 0 { -1e30 } else { f32::NEG_INFINITY }, 3), q: 0.0, kind: "mostly -inf" },
        _ => real(s, n),
    }
}

fn c07_pool(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = geo(s, true);
    label_geo(&g, ctx);
    ctx.nontrivial = g.out.n() > 1 && g.ker.0 * g.ker.1 > 1;
    let img = pool_values(s, g.img.n());
    ctx.label(img.kind);
    ctx.note(|| format!("{:?} image {}", g, small(&img.v)));
    let ti = mk(g.img, &img.v)?;
    let st = stale(s, g.out.n());
    let mut r = mk(g.out, &st)?;
    Tensor::max_pool(&ti, &g.ker.ts(), g.stride, &mut r);
    let mut r2 = mk(g.out, &st)?;
    let mut list = vec![s.bits32(); g.out.n()];
    if let Err(m) = Tensor::max_pool_track_origin(&ti, &g.ker.ts(), g.stride, &mut r2, &mut list) {
        return fail(format!("pooling refused valid geometry {:?}: {}", g, m));
    }
    ensure!(Sh::of(r.get_shape()) == g.out && Sh::of(r2.get_shape()) == g.out && list.len() == g.out.n(), "result sizes changed");
    let (d, d2) = (dump(&r), dump(&r2));
    for k in 0..g.out.2 {
        for j in 0..g.out.1 {
            for i in 0..g.out.0 {
                let p = g.out.at(i, j, k);
                let m = window_max(&img.v, &g, i, j, k);
                ensure!(d[p] == m, "pooled value at ({},{},{}) of {:?} is {:?}, window maximum is {:?}", i, j, k, g, d[p], m);
                ensure!(d2[p] == m, "pooled value with origins at ({},{},{}) of {:?} is {:?}, window maximum is {:?}", i, j, k, g, d2[p], m);
                let o = list[p] as usize;
                ensure!(in_window(&g, i, j, k, o), "origin {} of output ({},{},{}) of {:?} is outside its window", o, i, j, k, g);
                ensure!(img.v[o] == m, "origin {} of output ({},{},{}) of {:?} holds {:?}, maximum is {:?}", o, i, j, k, g, img.v[o], m);
            }
        }
    }
    ctx.compared += 3 * d.len() as u64;
    unchanged("image", &ti, g.img, &img.v)
}

// ---------------------------------------------------------------- C08

pub fn c08() -> Property {
    Property {
        id: "C08",
        rule: "Fitting geometries with zero to three members perturbed (extent off by one, swapped, rearranged; stride 0; channel out of \
               range; depth), including windows larger than the image or without extent, and shape-only cases with extents up to 2^32-1. Each check is compared \
               with the definition in 64-bit arithmetic; the operations themselves must refuse the same cases without a write or panic. \
               Non-trivial: at least one member was perturbed.",
        assumptions: &["images and results with extents of at least one"],
        facets: vec![
            Facet { name: "predicates", quick: 2_100_000, thorough: 25_200_000, run: c08_predicates },
            Facet { name: "huge", quick: 680_000, thorough: 8_160_000, run: c08_huge },
            Facet { name: "operations", quick: 550_000, thorough: 6_600_000, run: c08_operations },
            Facet { name: "operations, large", quick: 160, thorough: 1_920, run: large!(c08_operations) },
        ],
    }
}

fn perturb(s: &mut Src, g: &mut Geo, ch: &mut u32) -> usize {
    let n = s.weighted(&[3, 5, 2, 1]);
    for _ in 0..n {
        match s.below(6) {
            0 => g.img = near(s, g.img),
            1 => g.ker = near(s, g.ker),
            2 => g.stride = s.u(0, 7),
            3 => g.out = near(s, g.out),
            4 => *ch = g.out.2 + s.below(3) as u32,
            5 if s.chance(1, 4) => {
                // a window without extent
                match s.below(3) {
                    0 => g.ker.0 = 0,
                    1 => g.ker.1 = 0,
                    _ => (g.ker.0, g.ker.1) = (0, 0),
                }
                break;
            }
            _ => {
                // window just larger than the image in one direction
                if s.chance(1, 2) { g.ker.0 = g.img.0 + s.u(1, 2) } else { g.ker.1 = g.img.1 + s.u(1, 2) }
            }
        }
    }
    n
}

fn conv_ok(g: &Geo, ch: u32) -> bool {
    g.img.2 == g.ker.2 && fits(g.img.0, g.ker.0, g.stride) == Some(g.out.0) && fits(g.img.1, g.ker.1, g.stride) == Some(g.out.1) && ch < g.out.2
}

fn predicates(g: &Geo, ch: u32, ctx: &mut Ctx) -> R {
    let (i, k, st, o) = (g.img.ts(), g.ker.ts(), g.stride, g.out.ts());
    let both = (fits(g.img.0, g.ker.0, st), fits(g.img.1, g.ker.1, st));
    let fit = both.0.is_some() && both.1.is_some();
    let c_ok = conv_ok(g, ch);
    let p_ok = g.img.2 == g.out.2 && both == (Some(g.out.0), Some(g.out.1));
    ctx.label(if c_ok { "convolution fits" } else { "convolution does not fit" });
    ctx.label(if p_ok { "pooling fits" } else { "pooling does not fit" });
    ctx.label_if(g.ker.0 > g.img.0 || g.ker.1 > g.img.1, "window larger than image");
    ctx.label_if(st == 0, "stride 0");
    ctx.label_if(g.ker.0 == 0 || g.ker.1 == 0, "window without extent");
    let what = format!("image {:?} window {:?} stride {} result {:?} channel {}", g.img, g.ker, st, g.out, ch);
    match no_panic(|| check_convolution_dimensions(&i, &k, st, &o, ch).is_ok()) {
        Ok(r) => ensure!(r == c_ok, "convolution check of {} says {}, expected {}", what, r, c_ok),
        Err(e) => return fail(format!("convolution check of {}: {}", what, e)),
    }
    match no_panic(|| Tensor::check_max_pooling_dimensions(&i, &k, st, &o)) {
        Ok(r) => ensure!(r == p_ok, "pooling check of {} says {}, expected {}", what, r, p_ok),
        Err(e) => return fail(format!("pooling check of {}: {}", what, e)),
    }
    match no_panic(|| Tensor::does_kernel_stride_fit_image(&i, &k, st)) {
        Ok(r) => ensure!(r == fit, "fit check of {} says {}, expected {}", what, r, fit),
        Err(e) => return fail(format!("fit check of {}: {}", what, e)),
    }
    if fit {
        let r = Tensor::get_convolution_dim_fit(&i, &k, st);
        ensure!((Some(r.0), Some(r.1)) == both, "output extents of {} are {:?}, expected {:?}", what, r, both);
    }
    ctx.compared += 3;
    Ok(())
}

fn c08_predicates(s: &mut Src, ctx: &mut Ctx) -> R {
    let pool = s.chance(1, 2);
    let mut g = geo(s, pool);
    let mut ch = s.u(0, g.out.2 - 1);
    ctx.nontrivial = perturb(s, &mut g, &mut ch) > 0;
    ctx.note(|| format!("{:?} channel {}", g, ch));
    predicates(&g, ch, ctx)
}

fn c08_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let ax = |s: &mut Src| -> (u32, u32, u32) {
        let e = match s.below(3) {
            0 => u32::MAX - s.u(0, 3),
            1 => s.u(1, 1 << 20),
            _ => s.u(1, u32::MAX),
        };
        let w = match s.below(4) {
            0 => e,
            1 => e.saturating_add(s.u(1, 3)),
            2 => s.u(1, 10).min(e),
            _ => s.u(1, e),
        };
        let o = if s.chance(3, 4) { 0 } else { s.u(1, 9) };
        (e, w, o)
    };
    let (a, k0, o0) = ax(s);
    let (b, k1, o1) = ax(s);
    let st = match s.below(4) {
        0 => 1,
        1 => s.u(1, 8),
        2 => s.u(0, u32::MAX),
        _ => a.saturating_sub(k0).max(1),
    };
    let d = s.u(1, 3);
    let o0 = if o0 == 0 { fits(a, k0, st).unwrap_or(1) } else { o0 };
    let o1 = if o1 == 0 { fits(b, k1, st).unwrap_or(1) } else { o1 };
    let g = Geo { img: Sh(a, b, d), ker: Sh(k0, k1, if s.chance(1, 8) { d + 1 } else { d }), stride: st, out: Sh(o0, o1, if s.chance(1, 8) { d + 1 } else { d }) };
    let ch = s.u(0, g.out.2);
    ctx.nontrivial = true;
    ctx.note(|| format!("{:?} channel {}", g, ch));
    predicates(&g, ch, ctx)
}

fn c08_operations(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut g = geo(s, false);
    let mut ch = s.u(0, g.out.2 - 1);
    ctx.nontrivial = perturb(s, &mut g, &mut ch) > 0;
    let bsh = if s.chance(1, 6) { [Sh(2, 1, 1), Sh(1, 2, 1), Sh(1, 1, 2), Sh(1, 3, 2)][s.below(4)] } else { Sh(1, 1, 1) };
    if g.img.n() > 5000 || g.ker.n() > 5000 || g.out.n() > 5000 {
        return Ok(());
    }
    let ok = conv_ok(&g, ch);
    ctx.label(if ok { "fits" } else { "does not fit" });
    let what = format!("image {:?} kernel {:?} stride {} result {:?} channel {} bias {:?}", g.img, g.ker, g.stride, g.out, ch, bsh);
    ctx.note(|| what.clone());
    let (iv, kv, bv, ov) = (exact(s, g.img.n()).v, exact(s, g.ker.n()).v, exact(s, bsh.n()).v, vec![-1234.5; g.out.n()]);
    let (ti, tk, tb, to) = (mk(g.img, &iv)?, mk(g.ker, &kv)?, mk(bsh, &bv)?, mk(g.out, &ov)?);
    for op in 0..4 {
        let name = ["convolution", "convolution with ReLU", "kernel gradient", "image gradient"][op];
        let mut dst = match op {
            0 | 1 => to.clone(),
            2 => mk(g.ker, &vec![-1234.5; g.ker.n()])?,
            _ => mk(g.img, &vec![-1234.5; g.img.n()])?,
        };
        let dsh = Sh::of(dst.get_shape());
        let nk = if s.chance(1, 8) { g.out.2 as usize + s.below(2) * 2 - 1 } else { g.out.2 as usize };
        let want = match op {
            0 | 1 => ok && bsh == Sh(1, 1, 1),
            2 => ok,
            // one kernel per channel, so the channel argument does not apply
            _ => conv_ok(&g, 0) && nk == g.out.2 as usize,
        };
        let kers = vec![tk.clone(); nk];
        let grad = mk(g.out, &exact(s, g.out.n()).v)?;
        let r = no_panic(|| match op {
            0 => convolution_bias(&ti, &tk, &tb, g.stride, &mut dst, ch).is_ok(),
            1 => convolution_bias_relu(&ti, &tk, &tb, g.stride, &mut dst, ch).is_ok(),
            2 => convolution_backprop_kernel(&grad, &ti, g.stride, ch, &mut dst).is_ok(),
            _ => convolution_backprop_outgoing_gradient(&grad, &kers, g.stride, &mut dst).is_ok(),
        });
        match r {
            Err(e) => return fail(format!("{} of {}: {}", name, what, e)),
            Ok(r) => ensure!(r == want, "{} of {} with {} kernels returned {}, expected {}", name, what, nk, if r { "Ok" } else { "Err" }, if want { "Ok" } else { "Err" }),
        }
        if !want {
            unchanged(&format!("{} refused {}: destination", name, what), &dst, dsh, &vec![-1234.5; dsh.n()])?;
        }
    }
    unchanged("image", &ti, g.img, &iv)?;
    unchanged("kernel", &tk, g.ker, &kv)?;
    unchanged("bias", &tb, bsh, &bv)?;
    ctx.compared += 4;
    Ok(())
}

// ---------------------------------------------------------------- C09

pub fn c09() -> Property {
    Property {
        id: "C09",
        rule: "Random shapes up to some thousand elements; inputs moderate, spread over hundreds, far beyond the exponential's range (up to \
               the largest finite value), constant or shifted; compared with a shifted double-precision softmax, plus sum, range, order and shift \
               relations. Non-trivial: at least two elements with different values.",
        assumptions: &["finite inputs"],
        facets: vec![
            Facet { name: "distribution", quick: 2_400_000, thorough: 28_800_000, run: c09_distribution },
            Facet { name: "shift", quick: 950_000, thorough: 11_400_000, run: c09_shift },
            Facet { name: "distribution, larger", quick: 16, thorough: 192, run: c09_vast },
            Facet { name: "distribution, large", quick: 240, thorough: 2_880, run: large!(c09_distribution) },
            Facet { name: "shift, large", quick: 120, thorough: 1_440, run: large!(c09_shift) },
        ],
    }
}

fn c09_values(s: &mut Src, n: usize, ctx: &mut Ctx) -> Vec<f32> {
    match s.weighted(&[4, 2, 2, 2, 2, 1]) {
        0 => expand(s, n, |x| zz(x) as f32 / 4.0, 40),
        1 => {
            let base = s.range(-300, 300) as f32;
            ctx.label_if(base > 85.0, "all large");
            ctx.label_if(base < -100.0, "all very negative");
            expand(s, n, |x| base + zz(x) as f32 / 2.0, 40)
        }
        2 => {
            ctx.label("wide spread");
            expand(s, n, |x| zz(x) as f32, 400)
        }
        3 => {
            ctx.label("extreme");
            expand(s, n, |x| [0.0, 1e4, -1e4, 3e38, -3e38, f32::MAX, f32::MIN, 88.8, -104.0, 1e-40][x as usize], 9)
        }
        4 => real(s, n).v,
        _ => vec![zz(s.upto(400)) as f32; n],
    }
}

fn c09_distribution(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 1500);
    let n = sh.n();
    let x = c09_values(s, n, ctx);
    ctx.note(|| format!("{:?} {}", sh, small(&x)));
    ctx.nontrivial = x.iter().any(|v| *v != x[0]);
    let t = mk(sh, &x)?;
    let mut o = mk(sh, &stale(s, n))?;
    Tensor::softmax(&t, &mut o);
    unchanged("softmax: input", &t, sh, &x)?;
    ensure!(Sh::of(o.get_shape()) == sh, "softmax changed the output shape");
    let d = dump(&o);
    for p in 0..n {
        ensure!(d[p].is_finite() && d[p] >= 0.0 && d[p] <= 1.0, "softmax of {} has element {:?} at {:?}", small(&x), d[p], sh.un(p));
    }
    let sum: f64 = d.iter().map(|v| *v as f64).sum();
    ensure!((sum - 1.0).abs() < (1e-5 + 1e-6 * n as f64).min(0.02), "softmax of {} sums to {}", small(&x), sum);
    softmax_close(&format!("softmax of {} in {:?}", small(&x), sh), &d, &softmax(&x), ctx)?;
    let mut ord: Vec<usize> = (0..n).collect();
    ord.sort_by(|a, b| x[*a].partial_cmp(&x[*b]).unwrap());
    for w in ord.windows(2) {
        ensure!(d[w[0]] <= d[w[1]], "softmax gives {:?} probability {:?} but {:?} probability {:?}", x[w[0]], d[w[0]], x[w[1]], d[w[1]]);
        if x[w[0]] == x[w[1]] {
            ensure!(d[w[0]] == d[w[1]], "softmax gives equal inputs {:?} probabilities {:?} and {:?}", x[w[0]], d[w[0]], d[w[1]]);
        }
    }
    Ok(())
}

/// Tensors of more than 2^24 elements: single precision could not even count them.
fn c09_vast(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = match s.below(3) {
        0 => Sh(1 << 24, 1 + s.u(0, 1), 1),
        1 => Sh(5000 + s.u(0, 500), 4001, 1),
        _ => Sh(300, 257 + s.u(0, 20), 300),
    };
    let n = sh.n();
    let base = s.range(-200, 200) as f32;
    let step = [0.0f32, 0.25, 1.0, 200.0][s.below(4)];
    let kinds = 1 + s.below(4);
    let v: Vec<f32> = (0..n).map(|i| base - step * (i % kinds) as f32).collect();
    ctx.nontrivial = kinds > 1 && step > 0.0;
    ctx.note(|| format!("{:?}: {} less {} times the position modulo {}", sh, base, step, kinds));
    let t = mk(sh, &v)?;
    let mut o = Tensor::new(sh.ts());
    Tensor::softmax(&t, &mut o);
    let d = dump(&o);
    let whole: f64 = (0..kinds).map(|k| ((n - k + kinds - 1) / kinds) as f64 * (-(step * k as f32) as f64).exp()).sum();
    for p in 0..n {
        let k = p % kinds;
        let e = (-(step * k as f32) as f64).exp() / whole;
        ensure!(
            (d[p] as f64 - e).abs() <= e * 0.02 + 1e-44 && d[p].to_bits() == d[k].to_bits(),
            "softmax of {:?} elements has {:?} at {:?}, {:?} for the same input at {:?}, expected {}",
            sh, d[p], sh.un(p), d[k], sh.un(k), e
        );
    }
    ctx.compared += n as u64;
    Ok(())
}

fn c09_shift(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 300);
    let n = sh.n();
    // inputs and shift are multiples of 1/4 below 2^20, so the shifted inputs are exact
    let x: Vec<f32> = expand(s, n, |x| zz(x) as f32 / 4.0, 80);
    let c = match s.below(3) {
        0 => zz(s.upto(40)) as f32 / 4.0,
        1 => zz(s.upto(2000)) as f32,
        _ => zz(s.upto(1_000_000)) as f32,
    };
    ctx.nontrivial = n > 1 && c != 0.0 && x.iter().any(|v| *v != x[0]);
    ctx.label_if(c.abs() > 100.0, "shift beyond the exponential's range");
    let y: Vec<f32> = x.iter().map(|v| v + c).collect();
    ctx.note(|| format!("{:?} {} shifted by {:?}", sh, small(&x), c));
    let (mut a, mut b) = (Tensor::new(sh.ts()), Tensor::new(sh.ts()));
    Tensor::softmax(&mk(sh, &x)?, &mut a);
    Tensor::softmax(&mk(sh, &y)?, &mut b);
    let (a, b) = (dump(&a), dump(&b));
    for p in 0..n {
        let tol = a[p] as f64 * (2e-4 + 2e-6 * n as f64) + 1e-37;
        ensure!((a[p] as f64 - b[p] as f64).abs() <= tol, "softmax of {} at {:?} is {:?}; after adding {:?} to all inputs {:?}", small(&x), sh.un(p), a[p], c, b[p]);
    }
    ctx.compared += n as u64;
    Ok(())
}
