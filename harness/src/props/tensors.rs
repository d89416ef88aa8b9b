//! C01-C04, C26: tensor storage, arithmetic, products, shape safety, fills.

use crate::engine::*;
use crate::{ensure, large, long};
use crate::gen::*;
use crate::refm;
use rusty_network::tensor::helper::{TensorIndex, TensorShape, TensorStride};
use rusty_network::tensor::Tensor;

fn idx(i: u32, j: u32, k: u32) -> TensorIndex {
    TensorIndex { i, j, k }
}

// ---------------------------------------------------------------- C01

pub fn c01() -> Property {
    Property {
        id: "C01",
        rule: "Random shapes (extents 1..1100, biased to small, power-of-two neighbours and pairwise distinct), any bit pattern as value; \
               histories of set/get/fill/clone operations checked against a flat-array model. Non-trivial: at least two extents above 1 and, \
               for histories, at least one in-range write after which the whole tensor was compared.",
        assumptions: &["element count fits in 32 bits", "extents of at least one"],
        facets: vec![
            Facet { name: "history", quick: 2_000_000, thorough: 24_000_000, run: c01_history },
            Facet { name: "layout", quick: 830_000, thorough: 9_960_000, run: c01_layout },
            Facet { name: "shapes", quick: 1_300_000, thorough: 15_600_000, run: c01_shapes },
            Facet { name: "history, large", quick: 240, thorough: 2_880, run: large!(c01_history) },
            Facet { name: "history, long", quick: 2000, thorough: 24_000, run: long!(c01_history) },
            Facet { name: "layout, large", quick: 240, thorough: 2_880, run: large!(c01_layout) },
            Facet { name: "sparse, large", quick: 48, thorough: 576, run: c01_sparse },
        ],
    }
}

/// More than 2^24 items (a position no longer fits a float), few of them used.
fn c01_sparse(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = (1u32 << 24) * [1, 1, 2, 4][s.below(4)] + 1 + s.u(0, 3000);
    let a = 1 + s.u(0, 700);
    let b = 1 + s.u(0, 700);
    let sh = match s.below(6) {
        0 => Sh(n, 1, 1),
        1 => Sh(1, n, 1),
        2 => Sh(1, 1, n),
        3 => Sh(a, b, n / (a * b) + 1),
        4 => Sh(a, n / (a * b) + 1, b),
        _ => Sh(n / (a * b) + 1, a, b),
    };
    ctx.note(|| format!("shape {:?}", sh));
    let mut t = Tensor::new(sh.ts());
    ensure!(t.total_items() as usize == sh.n() && Sh::of(t.get_shape()) == sh, "{:?} has {} items and shape {:?}", sh, t.total_items(), Sh::of(t.get_shape()));
    let mut used: std::collections::BTreeMap<usize, f32> = Default::default();
    for _ in 0..s.times(4, 30) {
        let f = match s.below(4) {
            0 => sh.n() - 1 - s.below(300),
            1 => (1 << 24) + s.below(sh.n() - (1 << 24)),
            2 if !used.is_empty() => {
                let k = s.below(used.len());
                (*used.keys().nth(k).unwrap() + 1).min(sh.n() - 1)
            }
            _ => s.below(sh.n()),
        };
        let (i, j, k) = sh.un(f);
        let d = t.get_data_index(&idx(i, j, k)) as usize;
        ensure!(d == f, "({},{},{}) of {:?} is stored at {} instead of {}", i, j, k, sh, d, f);
        if s.chance(2, 3) {
            let v = anybits(s, 1).v[0];
            t.set_item(&idx(i, j, k), v);
            used.insert(f, v);
        }
        let (i, j, k) = outside(s, sh);
        t.set_item(&idx(i, j, k), 3.0);
        ensure!(t.get_item(&idx(i, j, k)) == 0.0, "reading outside {:?} at ({},{},{}) gave a value", sh, i, j, k);
    }
    // every position used holds its value, its neighbours theirs
    for f in used.keys().flat_map(|f| [f.saturating_sub(1), *f, (f + 1).min(sh.n() - 1)]).chain([0, sh.n() - 1]) {
        let want = used.get(&f).copied().unwrap_or(0.0);
        let (i, j, k) = sh.un(f);
        let r = t.get_item(&idx(i, j, k));
        ensure!(r.to_bits() == want.to_bits(), "({},{},{}) of {:?} holds {:?} instead of {:?}", i, j, k, sh, r, want);
    }
    ctx.nontrivial = used.len() > 1;
    Ok(())
}

/// An index outside the shape, often by one in a single direction.
fn outside(s: &mut Src, sh: Sh) -> (u32, u32, u32) {
    let mut p = [s.u(0, sh.0 - 1), s.u(0, sh.1 - 1), s.u(0, sh.2 - 1)];
    let e = [sh.0, sh.1, sh.2];
    let a = s.below(3);
    p[a] = match s.below(4) {
        0 => e[a],
        1 => e[a] + s.u(0, 40),
        2 => u32::MAX - s.u(0, 3),
        _ => e[a] * 2,
    };
    if s.chance(1, 4) {
        let b = s.below(3);
        p[b] = e[b] + s.u(0, 1000);
    }
    (p[0], p[1], p[2])
}

fn c01_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 1200);
    ctx.label_if(sh.distinct_dims(), "distinct extents");
    let mut t = Tensor::new(sh.ts());
    let mut model = vec![0.0f32; sh.n()];
    unchanged("new tensor", &t, sh, &model)?;
    let mut clones: Vec<(Tensor, Vec<f32>)> = Vec::new();
    let n = if s.big > 0 { 40 } else { 14 };
    let steps = s.times(1, n);
    ctx.note(|| format!("shape {:?}", sh));
    let mut wrote = false;
    for _ in 0..steps {
        match s.step(&[30, 12, 12, 6, 6, 6, 6, 4]) {
            0 => {
                let f = s.below(sh.n());
                let (i, j, k) = sh.un(f);
                let v = anybits(s, 1).v[0];
                ctx.note(|| format!("set ({},{},{}) = {:?} ({:#x})", i, j, k, v, v.to_bits()));
                t.set_item(&idx(i, j, k), v);
                model[f] = v;
                wrote = true;
                let r = t.get_item(&idx(i, j, k));
                ensure!(r.to_bits() == v.to_bits(), "wrote {:?} at ({},{},{}), read back {:?}", v, i, j, k, r);
            }
            1 => {
                let f = s.below(sh.n());
                let (i, j, k) = sh.un(f);
                let r = t.get_item(&idx(i, j, k));
                ensure!(r.to_bits() == model[f].to_bits(), "read {:?} at ({},{},{}), expected {:?}", r, i, j, k, model[f]);
            }
            2 => {
                let (i, j, k) = outside(s, sh);
                ctx.label("out-of-range write");
                ctx.note(|| format!("set out of range ({},{},{})", i, j, k));
                t.set_item(&idx(i, j, k), 5.5);
                unchanged("tensor, by an out-of-range write,", &t, sh, &model)?;
                let r = t.get_item(&idx(i, j, k));
                ensure!(r.to_bits() == 0, "reading outside {:?} at ({},{},{}) gave {:?}", sh, i, j, k, r);
            }
            3 => {
                let (i, j, k) = outside(s, sh);
                let r = t.get_item(&idx(i, j, k));
                ensure!(r.to_bits() == 0, "reading outside {:?} at ({},{},{}) gave {:?}", sh, i, j, k, r);
            }
            4 => {
                let d = anybits(s, sh.n()).v;
                ctx.note(|| format!("fill_with_vec {}", small(&d)));
                let r = t.fill_with_vec(d.clone());
                ensure!(r.is_ok(), "fill_with_vec with the right number of values was refused");
                model = d;
                wrote = true;
            }
            5 => {
                let n = match s.below(4) {
                    0 => sh.n() + 1,
                    1 => sh.n() - 1,
                    2 => 0,
                    _ => sh.n() * 2,
                };
                ctx.label("wrong-length vector");
                let r = t.fill_with_vec(vec![3.25; n]);
                ensure!(r.is_err(), "fill_with_vec accepted {} values for {} elements", n, sh.n());
                unchanged("tensor, by a refused fill,", &t, sh, &model)?;
            }
            6 => {
                if !clones.is_empty() && s.chance(1, 4) {
                    // back to what an earlier clone holds
                    ctx.label("clone_from a clone");
                    let (c, m) = &clones[s.below(clones.len())];
                    t.clone_from(c);
                    model = m.clone();
                } else if clones.len() < 3 {
                    ctx.label("clone");
                    let c = if s.chance(1, 3) {
                        // into a tensor of any shape and content
                        let other = if s.chance(1, 3) { sh } else { shape(s, 1200) };
                        let mut c = mk(other, &stale(s, other.n()))?;
                        c.clone_from(&t);
                        c
                    } else {
                        t.clone()
                    };
                    clones.push((c, model.clone()));
                    if s.chance(1, 2) {
                        // continue on the clone
                        let (c, m) = clones.pop().unwrap();
                        clones.push((std::mem::replace(&mut t, c), m));
                    }
                }
            }
            _ => {
                let v = anybits(s, 1).v[0];
                t.fill_with_value(v);
                model.iter_mut().for_each(|x| *x = v);
            }
        }
        ensure!(t.total_items() as usize == sh.n(), "total_items is {}, expected {}", t.total_items(), sh.n());
        if sh.n() <= 200 {
            unchanged("an element other than the one written", &t, sh, &model)?;
            ctx.compared += sh.n() as u64;
        }
    }
    unchanged("the final tensor differs from the model:", &t, sh, &model)?;
    for (c, m) in &clones {
        unchanged("a clone", c, sh, m)?;
    }
    ctx.nontrivial = wrote && [sh.0, sh.1, sh.2].iter().filter(|x| **x > 1).count() >= 2;
    Ok(())
}

fn c01_layout(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = if s.chance(1, 60) {
        ctx.label("more than 10000 elements");
        match s.below(3) {
            0 => Sh(s.u(200, 300), s.u(200, 300), 1),
            1 => Sh(s.u(20, 40), s.u(20, 40), s.u(20, 60)),
            _ => Sh(s.u(1, 3), s.u(4000, 6000), s.u(1, 5)),
        }
    } else {
        shape(s, 2000)
    };
    ctx.note(|| format!("shape {:?}", sh));
    ctx.nontrivial = [sh.0, sh.1, sh.2].iter().filter(|x| **x > 1).count() >= 2;
    let ramp: Vec<f32> = (0..sh.n()).map(|x| x as f32).collect();
    let t = mk(sh, &ramp)?;
    for k in 0..sh.2 {
        for j in 0..sh.1 {
            for i in 0..sh.0 {
                let e = i as u64 + sh.0 as u64 * (j as u64 + sh.1 as u64 * k as u64);
                let v = t.get_item(&idx(i, j, k));
                ensure!(v == e as f32, "flat position {} of {:?} is not at ({},{},{}): found {}", e, sh, i, j, k, v);
                ensure!(
                    t.get_data_index(&idx(i, j, k)) as u64 == e,
                    "data index of ({},{},{}) in {:?} is {}, expected {}",
                    i, j, k, sh, t.get_data_index(&idx(i, j, k)), e
                );
            }
        }
    }
    // one write per element, all distinct, read back in another order
    let mut t = Tensor::new(sh.ts());
    let rev = s.chance(1, 2);
    let n = sh.n();
    for f in 0..n {
        let f = if rev { n - 1 - f } else { f };
        let (i, j, k) = sh.un(f);
        t.set_item(&idx(i, j, k), f as f32 + 1.0);
    }
    for f in 0..n {
        let (i, j, k) = sh.un(f);
        let v = t.get_item(&idx(i, j, k));
        ensure!(v == f as f32 + 1.0, "elements of {:?} overlap: ({},{},{}) holds {}, {} was written", sh, i, j, k, v, f as f32 + 1.0);
    }
    ctx.compared += 2 * n as u64;
    Ok(())
}

fn c01_shapes(s: &mut Src, ctx: &mut Ctx) -> R {
    // shapes only, no data: extents may be large as long as the count fits
    let a = if s.chance(1, 2) { s.u(0, 20) } else { s.u(0, 70_000) };
    let b = if s.chance(1, 2) { s.u(0, 20) } else { s.u(0, 60_000) };
    let lim = (u32::MAX as u64 / (a.max(1) as u64 * b.max(1) as u64)).min(100_000) as u32;
    if lim == 0 {
        return Ok(());
    }
    let c = s.u(0, lim);
    let t = TensorShape::new(a, b, c);
    let e = Sh(a.max(1), b.max(1), c.max(1));
    ctx.note(|| format!("({},{},{})", a, b, c));
    ctx.nontrivial = e.distinct_dims();
    ctx.label_if(a == 0 || b == 0 || c == 0, "zero extent normalised");
    ensure!(Sh::of(t) == e, "shape of ({},{},{}) is {:?}, expected {:?}", a, b, c, Sh::of(t), e);
    ensure!(t.get() == (e.0, e.1, e.2), "get() of {:?} is {:?}", e, t.get());
    ensure!(
        t.total_size() as u64 == e.0 as u64 * e.1 as u64 * e.2 as u64,
        "total size of {:?} is {}", e, t.total_size()
    );
    let tr = t.transpose_ij();
    ensure!(Sh::of(tr) == Sh(e.1, e.0, e.2), "transposed shape of {:?} is {:?}", e, Sh::of(tr));
    if a > 0 && b > 0 {
        ensure!(Sh::of(TensorShape::new_1d(a)) == Sh(a, 1, 1), "new_1d({})", a);
        ensure!(Sh::of(TensorShape::new_2d(a, b)) == Sh(a, b, 1), "new_2d({},{})", a, b);
    }
    let st = TensorStride::new_from_shape(&t);
    let (i, j, k) = (s.u(0, e.0 - 1), s.u(0, e.1 - 1), s.u(0, e.2 - 1));
    let flat = i as u64 + e.0 as u64 * (j as u64 + e.1 as u64 * k as u64);
    ensure!((&st * &idx(i, j, k)) as u64 == flat, "stride*index of ({},{},{}) in {:?} is {}, expected {}", i, j, k, e, &st * &idx(i, j, k), flat);
    ensure!(t.fits_index(&idx(i, j, k)), "({},{},{}) should fit {:?}", i, j, k, e);
    let (x, y, z) = outside(s, Sh(e.0.min(1 << 30), e.1.min(1 << 30), e.2.min(1 << 30)));
    let fits = x < e.0 && y < e.1 && z < e.2;
    ensure!(t.fits_index(&idx(x, y, z)) == fits, "fits_index(({},{},{})) in {:?} should be {}", x, y, z, e, fits);
    if s.chance(1, 8) {
        let mut t = Tensor::empty();
        unchanged("the empty tensor", &t, Sh(1, 1, 1), &[0.0])?;
        t.set_item(&TensorIndex::zero(), 2.5);
        unchanged("the written empty tensor", &t, Sh(1, 1, 1), &[2.5])?;
        unchanged("another empty tensor", &Tensor::empty(), Sh(1, 1, 1), &[0.0])?;
    }
    let q = TensorIndex::index_1d(i);
    ensure!((q.i, q.j, q.k) == (i, 0, 0), "index_1d");
    let q = TensorIndex::index_2d(i, j);
    ensure!((q.i, q.j, q.k) == (i, j, 0), "index_2d");
    let q = TensorIndex::zero();
    ensure!((q.i, q.j, q.k) == (0, 0, 0), "zero index");
    ctx.compared += 1;
    Ok(())
}

// ---------------------------------------------------------------- C02

pub fn c02() -> Property {
    Property {
        id: "C02",
        rule: "Random common shapes and operand values (small integers, reals of all magnitudes, arbitrary bit patterns incl. NaN/inf/-0), \
               stale destination contents; each element compared bit-for-bit (NaN equals NaN) with the single-precision operation on that \
               position's operands. Non-trivial: more than one element and operands not all equal.",
        assumptions: &["round-to-nearest single precision; which NaN bit pattern results is not specified"],
        facets: vec![
            Facet { name: "elementwise", quick: 5_600_000, thorough: 67_200_000, run: c02_elementwise },
            Facet { name: "elementwise, large", quick: 500, thorough: 6_000, run: large!(c02_elementwise) },
        ],
    }
}

fn same_value(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn expect_each(what: &str, t: &Tensor, sh: Sh, f: impl Fn(usize) -> f32, ctx: &mut Ctx) -> R {
    ensure!(Sh::of(t.get_shape()) == sh, "{}: shape became {:?}", what, Sh::of(t.get_shape()));
    let d = dump(t);
    for (p, x) in d.iter().enumerate() {
        let e = f(p);
        ensure!(same_value(*x, e), "{}: at {:?} of {:?} got {:?}, expected {:?}", what, sh.un(p), sh, x, e);
    }
    ctx.compared += d.len() as u64;
    Ok(())
}

fn any_data(s: &mut Src, n: usize) -> Data {
    match s.weighted(&[4, 2, 4]) {
        0 => exact(s, n),
        1 => real(s, n),
        _ => anybits(s, n),
    }
}

fn c02_elementwise(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 900);
    let n = sh.n();
    let a = any_data(s, n).v;
    let b = any_data(s, n).v;
    let c = any_data(s, 1).v[0];
    let st = stale(s, n);
    ctx.note(|| format!("shape {:?} a {} b {} scalar {:?} stale {}", sh, small(&a), small(&b), c, small(&st)));
    ctx.nontrivial = n > 1 && !(a.iter().all(|x| x.to_bits() == a[0].to_bits()) && b.iter().all(|x| x.to_bits() == b[0].to_bits()));
    ctx.label_if(a.iter().chain(&b).any(|x| !x.is_finite()), "non-finite operand");
    ctx.label_if(sh.2 > 1, "third dimension");
    let (ta, tb) = (mk(sh, &a)?, mk(sh, &b)?);
    let which = s.below(3);
    match which {
        0 => {
            let mut d = mk(sh, &st)?;
            Tensor::add(&ta, &tb, &mut d);
            expect_each("add", &d, sh, |p| a[p] + b[p], ctx)?;
            let mut i = mk(sh, &a)?;
            Tensor::add_to_self(&mut i, &tb);
            expect_each("add_to_self", &i, sh, |p| a[p] + b[p], ctx)?;
        }
        1 => {
            let mut d = mk(sh, &st)?;
            Tensor::multiply_elementwise(&ta, &tb, &mut d);
            expect_each("multiply_elementwise", &d, sh, |p| a[p] * b[p], ctx)?;
            let mut i = mk(sh, &a)?;
            Tensor::multiply_elementwise_self(&mut i, &tb);
            expect_each("multiply_elementwise_self", &i, sh, |p| a[p] * b[p], ctx)?;
        }
        _ => {
            let mut d = mk(sh, &st)?;
            Tensor::scale(&ta, c, &mut d);
            expect_each("scale", &d, sh, |p| a[p] * c, ctx)?;
            let mut i = mk(sh, &a)?;
            Tensor::scale_self(&mut i, c);
            expect_each("scale_self", &i, sh, |p| a[p] * c, ctx)?;
        }
    }
    unchanged("first operand", &ta, sh, &a)?;
    unchanged("second operand", &tb, sh, &b)?;
    Ok(())
}

// ---------------------------------------------------------------- C03

pub fn c03() -> Property {
    Property {
        id: "C03",
        rule: "Random (rows, inner, columns, batch) extents (1..12, sometimes up to 130 in one direction), dyadic or real operands, stale \
               destinations; compared with a double-precision reference, exactly where all partial sums are representable, else within \
               2(n+8) ulp of the sum of absolute terms. Non-trivial: inner extent above 1 and more than one result element.",
        assumptions: &["finite operands whose sums of absolute terms stay below 1e37"],
        facets: vec![
            Facet { name: "products", quick: 3_500_000, thorough: 42_000_000, run: c03_products },
            Facet { name: "special values", quick: 600_000, thorough: 7_200_000, run: c03_special },
            Facet { name: "transpose", quick: 2_400_000, thorough: 28_800_000, run: c03_transpose },
            Facet { name: "products, large", quick: 240, thorough: 2_880, run: large!(c03_products) },
            Facet { name: "transpose, large", quick: 300, thorough: 3_600, run: large!(c03_transpose) },
        ],
    }
}

fn ext(s: &mut Src) -> u32 {
    match s.weighted(&[60, 30, 10]) {
        0 => s.u(1, 4),
        1 => s.u(1, 8),
        _ => s.u(1, 12),
    }
}

fn c03_products(s: &mut Src, ctx: &mut Ctx) -> R {
    let (mut m, mut p, mut n) = (ext(s), ext(s), ext(s));
    let k = if s.chance(1, 3) { s.u(2, 5) } else { 1 };
    if s.chance(1, 12) {
        let big = EDGE[s.below(EDGE.len())].min(130) + s.u(0, 2);
        match s.below(3) {
            0 => m = big,
            1 => p = big,
            _ => n = big,
        }
        ctx.label("large extent");
    }
    let mut k = k;
    if s.huge {
        (m, p, n, k) = match s.below(5) {
            0 => (66_000, s.u(1, 2), 1, 1),
            1 => (1, s.u(1, 2), 66_000, 1),
            2 => (2, 66_000, 1, 1),
            3 => (258, s.u(1, 3), 259, 1),
            _ => (2, 2, 2, 20_000),
        };
        if s.chance(1, 3) {
            (m, n) = (n, m);
        }
    }
    ctx.label_if(k > 1, "several slices");
    ctx.label_if(m != p && p != n && m != n, "pairwise distinct extents");
    ctx.nontrivial = p > 1 && m * n * k > 1;
    let rsh = Sh(m, n, k);
    let which = s.below(4);
    let (ash, bsh) = match which {
        1 => (Sh(p, m, k), Sh(p, n, k)),
        2 => (Sh(m, p, k), Sh(n, p, k)),
        _ => (Sh(m, p, k), Sh(p, n, k)),
    };
    let a = grad(s, ash.n(), false);
    let b = finite(s, bsh.n());
    let st = stale(s, rsh.n());
    ctx.note(|| format!("op {} a {:?} {} b {:?} {} -> {:?}", which, ash, small(&a.v), bsh, small(&b.v), rsh));
    let (ta, tb) = (mk(ash, &a.v)?, mk(bsh, &b.v)?);
    let mut r = mk(rsh, &st)?;
    match which {
        0 => {
            Tensor::matrix_multiply(&ta, &tb, &mut r);
            agrees("matrix_multiply", &r, &refm::matmul(&a, ash, false, &b, bsh, false), ctx)?;
        }
        1 => {
            let x = Tensor::matrix_multiply_transpose_first(&ta, &tb, &mut r);
            ensure!(x.is_ok(), "matrix_multiply_transpose_first refused {:?} x {:?} -> {:?}", ash, bsh, rsh);
            agrees("matrix_multiply_transpose_first", &r, &refm::matmul(&a, ash, true, &b, bsh, false), ctx)?;
            // agrees with transposing explicitly
            let mut at = mk(Sh(ash.1, ash.0, ash.2), &stale(s, ash.n()))?;
            ensure!(Tensor::transpose_ij(&ta, &mut at).is_ok(), "transpose_ij refused {:?}", ash);
            let mut r2 = mk(rsh, &st)?;
            Tensor::matrix_multiply(&at, &tb, &mut r2);
            agrees("matrix_multiply of the transposed operand", &r2, &refm::matmul(&a, ash, true, &b, bsh, false), ctx)?;
        }
        2 => {
            let x = Tensor::matrix_multiply_transpose_second(&ta, &tb, &mut r);
            ensure!(x.is_ok(), "matrix_multiply_transpose_second refused {:?} x {:?} -> {:?}", ash, bsh, rsh);
            agrees("matrix_multiply_transpose_second", &r, &refm::matmul(&a, ash, false, &b, bsh, true), ctx)?;
            let mut bt = mk(Sh(bsh.1, bsh.0, bsh.2), &stale(s, bsh.n()))?;
            ensure!(Tensor::transpose_ij(&tb, &mut bt).is_ok(), "transpose_ij refused {:?}", bsh);
            let mut r2 = mk(rsh, &st)?;
            Tensor::matrix_multiply(&ta, &bt, &mut r2);
            agrees("matrix_multiply by the transposed operand", &r2, &refm::matmul(&a, ash, false, &b, bsh, true), ctx)?;
        }
        _ => {
            let bias = finite(s, rsh.n());
            let tbias = mk(rsh, &bias.v)?;
            Tensor::matrix_multiply_add_relu(&tb, &ta, &tbias, &mut r);
            let mut e = refm::matmul(&a, ash, false, &b, bsh, false);
            e.q = refm::mixq(e.q, bias.q);
            e.terms += 1;
            for q in 0..e.v.len() {
                e.add(q, bias.v[q] as f64);
            }
            ctx.label_if(e.v.iter().any(|x| *x < 0.0), "negative before ReLU");
            agrees("matrix_multiply_add_relu", &r, &e.relu(), ctx)?;
            unchanged("bias operand", &tbias, rsh, &bias.v)?;
        }
    }
    unchanged("first operand", &ta, ash, &a.v)?;
    unchanged("second operand", &tb, bsh, &b.v)?;
    Ok(())
}

fn c03_special(s: &mut Src, ctx: &mut Ctx) -> R {
    let (m, p, n, k) = (s.u(1, 4), s.u(1, 9), s.u(1, 4), s.u(1, 2));
    let which = s.below(4);
    let (ash, bsh, rsh) = match which {
        1 => (Sh(p, m, k), Sh(p, n, k), Sh(m, n, k)),
        2 => (Sh(m, p, k), Sh(n, p, k), Sh(m, n, k)),
        _ => (Sh(m, p, k), Sh(p, n, k), Sh(m, n, k)),
    };
    let (a, b) = (special(s, ash.n()), special(s, bsh.n()));
    let bias = special(s, rsh.n());
    ctx.note(|| format!("op {} a {:?} {:?} b {:?} {:?} bias {:?}", which, ash, a.v, bsh, b.v, bias.v));
    let mut e = refm::matmul(&a, ash, which == 1, &b, bsh, which == 2);
    ctx.nontrivial = e.v.iter().any(|x| !x.is_finite());
    ctx.label_if(e.v.iter().any(|x| x.is_nan()), "not-a-number expected");
    ctx.label_if(e.v.iter().any(|x| x.is_infinite()), "infinity expected");
    let (ta, tb, tc) = (mk(ash, &a.v)?, mk(bsh, &b.v)?, mk(rsh, &bias.v)?);
    let mut r = mk(rsh, &stale(s, rsh.n()))?;
    let what = ["matrix_multiply", "matrix_multiply_transpose_first", "matrix_multiply_transpose_second", "matrix_multiply_add_relu"][which];
    match which {
        0 => Tensor::matrix_multiply(&ta, &tb, &mut r),
        1 => ensure!(Tensor::matrix_multiply_transpose_first(&ta, &tb, &mut r).is_ok(), "{} refused {:?} x {:?}", what, ash, bsh),
        2 => ensure!(Tensor::matrix_multiply_transpose_second(&ta, &tb, &mut r).is_ok(), "{} refused {:?} x {:?}", what, ash, bsh),
        _ => {
            Tensor::matrix_multiply_add_relu(&tb, &ta, &tc, &mut r);
            for p in 0..e.v.len() {
                e.v[p] += bias.v[p] as f64;
            }
        }
    }
    ctx.compared += e.v.len() as u64;
    special_agrees(&format!("{} of {:?} {:?} and {:?} {:?}", what, ash, a.v, bsh, b.v), &dump(&r), &e.v, which == 3)
}

fn c03_transpose(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 1200);
    let v = anybits(s, sh.n()).v;
    ctx.note(|| format!("shape {:?} {}", sh, small(&v)));
    ctx.nontrivial = sh.0 > 1 && sh.1 > 1;
    ctx.label_if(sh.0 != sh.1 && sh.2 > 1, "non-square with several slices");
    let t = mk(sh, &v)?;
    let tsh = Sh(sh.1, sh.0, sh.2);
    let mut o = mk(tsh, &stale(s, sh.n()))?;
    ensure!(Tensor::transpose_ij(&t, &mut o).is_ok(), "transpose_ij refused {:?} -> {:?}", sh, tsh);
    let mut e = vec![0.0; sh.n()];
    for f in 0..sh.n() {
        let (i, j, k) = sh.un(f);
        e[tsh.at(j, i, k)] = v[f];
    }
    unchanged("transpose differs from swapping the indices: it", &o, tsh, &e)?;
    unchanged("operand", &t, sh, &v)?;
    let mut b = mk(sh, &stale(s, sh.n()))?;
    ensure!(Tensor::transpose_ij(&o, &mut b).is_ok(), "transpose back refused");
    unchanged("transposing twice: tensor", &b, sh, &v)?;
    ctx.compared += 2 * sh.n() as u64;
    Ok(())
}

// ---------------------------------------------------------------- C04

pub fn c04() -> Property {
    Property {
        id: "C04",
        rule: "For each shape-checked tensor operation, a compatible tuple of shapes in which zero to three arguments are replaced by near \
               misses (one extent off by one, two extents swapped, same element count rearranged, extra depth); index lists with wrong length or \
               out-of-range entries. Oracle: compatible iff the defining equations hold; incompatible leaves all arguments bit-identical, \
               reports an error where it can, never panics. Non-trivial: the tuple is incompatible.",
        assumptions: &[],
        facets: vec![
            Facet { name: "shapes", quick: 6_100_000, thorough: 73_200_000, run: c04_shapes },
            Facet { name: "scatter", quick: 2_400_000, thorough: 28_800_000, run: c04_scatter },
            Facet { name: "pooling", quick: 2_400_000, thorough: 28_800_000, run: c04_pooling },
            Facet { name: "shapes, large", quick: 400, thorough: 4_800, run: large!(c04_shapes) },
            Facet { name: "scatter, large", quick: 200, thorough: 2_400, run: large!(c04_scatter) },
            Facet { name: "pooling, large", quick: 200, thorough: 2_400, run: large!(c04_pooling) },
        ],
    }
}

/// A shape close to, but usually different from, the given one.
pub fn near(s: &mut Src, sh: Sh) -> Sh {
    let mut d = [sh.0, sh.1, sh.2];
    match s.weighted(&[4, 3, 3, 1]) {
        0 => {
            let a = s.below(3);
            if d[a] > 1 && s.chance(1, 2) { d[a] -= 1 } else { d[a] += 1 }
        }
        1 => {
            let (a, b) = [(0, 1), (0, 2), (1, 2)][s.below(3)];
            d.swap(a, b);
        }
        2 => {
            // same element count
            let n = sh.n() as u32;
            let divs: Vec<u32> = (1..=n).filter(|x| n % x == 0).collect();
            let a = divs[s.below(divs.len())];
            let rest = n / a;
            let divs: Vec<u32> = (1..=rest).filter(|x| rest % x == 0).collect();
            let b = divs[s.below(divs.len())];
            d = [a, b, rest / b];
        }
        _ => d = [s.u(1, 5), s.u(1, 5), s.u(1, 3)],
    }
    Sh(d[0], d[1], d[2])
}

fn c04_shapes(s: &mut Src, ctx: &mut Ctx) -> R {
    let op = s.below(11);
    let names = [
        "add", "add_to_self", "scale", "multiply_elementwise", "multiply_elementwise_self", "transpose_ij", "matrix_multiply",
        "matrix_multiply_transpose_first", "matrix_multiply_transpose_second", "matrix_multiply_add_relu", "softmax/relu",
    ];
    let (m, p, n, k) = (s.u(1, 4), s.u(1, 4), s.u(1, 4), s.u(1, 3));
    let base = Sh(m, n, k);
    // argument shapes of a compatible call; the last one is the destination
    let mut sh: Vec<Sh> = match op {
        0 | 3 => vec![base; 3],
        1 | 2 | 4 | 10 => vec![base; 2],
        5 => vec![base, Sh(n, m, k)],
        6 => vec![Sh(m, p, k), Sh(p, n, k), base],
        7 => vec![Sh(p, m, k), Sh(p, n, k), base],
        8 => vec![Sh(m, p, k), Sh(n, p, k), base],
        _ => vec![Sh(p, n, k), Sh(m, p, k), base, base],
    };
    let cnt = s.weighted(&[2, 6, 2, 1]).min(sh.len());
    for _ in 0..cnt {
        let a = s.below(sh.len());
        sh[a] = near(s, sh[a]);
    }
    let mmok = |a: Sh, b: Sh, r: Sh| a.2 == b.2 && a.2 == r.2 && a.1 == b.0 && a.0 == r.0 && b.1 == r.1;
    let tr = |a: Sh| Sh(a.1, a.0, a.2);
    let ok = match op {
        0 | 3 => sh[0] == sh[1] && sh[1] == sh[2],
        1 | 2 | 4 | 10 => sh[0] == sh[1],
        5 => sh[1] == tr(sh[0]),
        6 => mmok(sh[0], sh[1], sh[2]),
        7 => mmok(tr(sh[0]), sh[1], sh[2]),
        8 => mmok(sh[0], tr(sh[1]), sh[2]),
        _ => mmok(sh[1], sh[0], sh[3]) && sh[2] == sh[3],
    };
    ctx.nontrivial = !ok;
    ctx.label(if ok { "compatible" } else { "incompatible" });
    ctx.note(|| format!("{} on {:?}, compatible: {}", names[op], sh, ok));
    let mut v: Vec<Vec<f32>> = sh.iter().map(|x| exact(s, x.n()).v).collect();
    // a destination that is written completely loses every marker
    let dest = sh.len() - 1;
    let in_place = matches!(op, 1 | 4);
    if !in_place {
        v[dest] = vec![-1234.5; sh[dest].n()];
    }
    let relu = op == 10 && s.chance(1, 2);
    let mut t: Vec<Tensor> = Vec::new();
    for (a, b) in sh.iter().zip(&v) {
        t.push(mk(*a, b)?);
    }
    let mut reported: Option<bool> = None;
    let call = no_panic(|| {
        let (src, dst) = t.split_at_mut(dest);
        let d = &mut dst[0];
        match op {
            0 => Tensor::add(&src[0], &src[1], d),
            1 => Tensor::add_to_self(&mut src[0], d),
            2 => Tensor::scale(&src[0], 2.0, d),
            3 => Tensor::multiply_elementwise(&src[0], &src[1], d),
            4 => Tensor::multiply_elementwise_self(&mut src[0], d),
            5 => reported = Some(Tensor::transpose_ij(&src[0], d).is_ok()),
            6 => Tensor::matrix_multiply(&src[0], &src[1], d),
            7 => reported = Some(Tensor::matrix_multiply_transpose_first(&src[0], &src[1], d).is_ok()),
            8 => reported = Some(Tensor::matrix_multiply_transpose_second(&src[0], &src[1], d).is_ok()),
            9 => Tensor::matrix_multiply_add_relu(&src[0], &src[1], &src[2], d),
            _ => {
                if relu {
                    reported = Some(Tensor::relu_self_and_store_mask(&mut src[0], d).is_ok())
                } else {
                    Tensor::softmax(&src[0], d)
                }
            }
        }
    });
    if let Err(e) = call {
        return fail(format!("{} on shapes {:?}: {}", names[op], sh, e));
    }
    if let Some(r) = reported {
        ensure!(r == ok, "{} on shapes {:?} returned {}, compatible: {}", names[op], sh, if r { "Ok" } else { "Err" }, ok);
    }
    for a in 0..t.len() {
        let written = ok && (a == dest && !in_place || in_place && a == 0 || relu);
        if !written {
            unchanged(&format!("{} on {:?} (compatible: {}): argument {}", names[op], sh, ok, a), &t[a], sh[a], &v[a])?;
        } else if a == dest {
            let d = dump(&t[a]);
            ensure!(
                Sh::of(t[a].get_shape()) == sh[a] && d.iter().all(|x| *x != -1234.5),
                "{} on compatible {:?} left its destination partly unwritten: {}", names[op], sh, small(&d)
            );
        } else if in_place {
            // same values as element by element
            let d = dump(&t[0]);
            for q in 0..d.len() {
                let e = if op == 1 { v[0][q] + v[1][q] } else { v[0][q] * v[1][q] };
                ensure!(d[q] == e, "{} on compatible {:?} did not compute element {}", names[op], sh, q);
            }
        }
    }
    if relu && ok {
        let (x, mk_) = (dump(&t[0]), dump(&t[1]));
        for q in 0..x.len() {
            let pos = v[0][q] > 0.0;
            ensure!(
                x[q] == if pos { v[0][q] } else { 0.0 } && mk_[q] == if pos { 1.0 } else { 0.0 },
                "ReLU with mask of {:?} gave {:?} with mask {:?}", v[0][q], x[q], mk_[q]
            );
        }
    }
    ctx.compared += 1;
    Ok(())
}

fn c04_scatter(s: &mut Src, ctx: &mut Ctx) -> R {
    let a = Sh(s.u(1, 4), s.u(1, 4), s.u(1, 2));
    let b = if s.huge || s.chance(1, 10) { shape(s, 600) } else { Sh(s.u(1, 5), s.u(1, 5), s.u(1, 2)) };
    let len = match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => a.n(),
        1 => s.below(a.n() + 1),
        2 => a.n() + 1,
        3 => a.n() + s.below(5) + 1,
        _ => 0,
    };
    let mut list: Vec<u32> = (0..len).map(|_| s.u(0, b.n() as u32 - 1)).collect();
    if len > 0 && s.chance(1, 3) {
        let at = s.below(len);
        list[at] = match s.below(3) {
            0 => b.n() as u32,
            1 => b.n() as u32 + s.u(0, 20),
            _ => u32::MAX,
        };
    }
    let ok = len <= a.n() && list.iter().all(|x| (*x as usize) < b.n());
    let av = exact(s, a.n());
    let bv = exact(s, b.n());
    ctx.note(|| format!("source {:?} {} target {:?} {} list {:?}", a, small(&av.v), b, small(&bv.v), list));
    let ta = mk(a, &av.v)?;
    let mut tb = mk(b, &bv.v)?;
    let r = Tensor::add_from_index_list(&ta, &mut tb, &list).is_ok();
    ctx.nontrivial = !ok || { let mut l = list.clone(); l.sort(); l.windows(2).any(|w| w[0] == w[1]) };
    ctx.label(if ok { "valid list" } else { "invalid list" });
    ensure!(r == ok, "scatter-add of {:?} into {:?} with list {:?} returned {}", a, b, list, if r { "Ok" } else { "Err" });
    unchanged("scatter-add: source", &ta, a, &av.v)?;
    if ok {
        let mut e = Rv::zeros(b, refm::mixq(av.q, bv.q), len + 1);
        for p in 0..b.n() {
            e.add(p, bv.v[p] as f64);
        }
        for (p, x) in list.iter().enumerate() {
            e.add(*x as usize, av.v[p] as f64);
        }
        agrees("scatter-add", &tb, &e, ctx)
    } else {
        unchanged("refused scatter-add: target", &tb, b, &bv.v)
    }
}

fn c04_pooling(s: &mut Src, ctx: &mut Ctx) -> R {
    let g = crate::layers::geo(s, true);
    let (mut img, mut win, mut st, mut out) = (g.img, g.ker, g.stride, g.out);
    let mut list_len = None;
    for _ in 0..s.weighted(&[2, 6, 2]) {
        match s.below(5) {
            0 => img = near(s, img),
            1 => {
                win = near(s, win);
            }
            2 => st = s.u(0, 6),
            3 => out = near(s, out),
            _ => list_len = Some(match s.below(3) { 0 => out.n() + 1, 1 => out.n() - 1, _ => 0 }),
        }
    }
    if img.n() > 3000 || out.n() > 3000 {
        return Ok(());
    }
    let fit = img.2 == out.2 && refm::fits(img.0, win.0, st) == Some(out.0) && refm::fits(img.1, win.1, st) == Some(out.1);
    let len = list_len.unwrap_or(out.n());
    let ok = fit && len == out.n();
    ctx.nontrivial = !ok;
    ctx.label(if ok { "compatible" } else { "incompatible" });
    ctx.label_if(win.0 > img.0 || win.1 > img.1, "window larger than image");
    ctx.label_if(st == 0, "stride 0");
    let iv = exact(s, img.n()).v;
    ctx.note(|| format!("image {:?} window {:?} stride {} result {:?} list {}", img, win, st, out, len));
    let what = format!("pooling image {:?} window {:?} stride {} into {:?}", img, win, st, out);
    let ti = mk(img, &iv)?;
    let mut r1 = mk(out, &vec![-1234.5; out.n()])?;
    let mut r2 = r1.clone();
    let mut list = vec![4_000_000_000u32; len];
    match no_panic(|| {
        Tensor::max_pool(&ti, &win.ts(), st, &mut r1);
        Tensor::max_pool_track_origin(&ti, &win.ts(), st, &mut r2, &mut list).is_ok()
    }) {
        Err(e) => return fail(format!("{}: {}", what, e)),
        Ok(r) => ensure!(r == ok, "{} with origin list of {}: returned {}", what, len, if r { "Ok" } else { "Err" }),
    }
    unchanged("image", &ti, img, &iv)?;
    if fit {
        ensure!(dump(&r1).iter().all(|x| *x != -1234.5), "{}: an output was not written", what);
    } else {
        unchanged(&format!("{} (does not fit): result", what), &r1, out, &vec![-1234.5; out.n()])?;
    }
    if ok {
        ensure!(dump(&r2).iter().all(|x| *x != -1234.5), "{}: an output was not written", what);
        ensure!(list.iter().all(|x| (*x as usize) < img.n()), "{}: origin {:?} outside the image", what, list);
    } else {
        unchanged(&format!("{} (refused): result", what), &r2, out, &vec![-1234.5; out.n()])?;
        ensure!(list.len() == len && list.iter().all(|x| *x == 4_000_000_000), "{} (refused): origin list was changed", what);
    }
    ctx.compared += 1;
    Ok(())
}

// ---------------------------------------------------------------- C32

pub fn c32() -> Property {
    Property {
        id: "C32",
        rule: "Rectification with mask on random tensors (dyadic, real or arbitrary bit patterns, stale masks), compared bit for bit; \
               scatter-add of random sources by random index lists (short, full, with many or no repeats, ascending, permuted) into \
               targets of any bit pattern, compared exactly where an element is hit at most once or the sums are representable, else \
               within rounding. Non-trivial: values of both signs, or a list that hits some element twice or leaves some out.",
        assumptions: &["not-a-number in a rectified tensor is not generated", "elements hit more than once hold finite values"],
        facets: vec![
            Facet { name: "relu", quick: 2_400_000, thorough: 28_800_000, run: c32_relu },
            Facet { name: "scatter", quick: 1_600_000, thorough: 19_200_000, run: c32_scatter },
            Facet { name: "relu, large", quick: 400, thorough: 4_800, run: large!(c32_relu) },
            Facet { name: "scatter, large", quick: 400, thorough: 4_800, run: large!(c32_scatter) },
        ],
    }
}

fn c32_relu(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 900);
    let mut v = any_data(s, sh.n()).v;
    for x in v.iter_mut().filter(|x| x.is_nan()) {
        *x = -0.0;
    }
    let st = stale(s, sh.n());
    ctx.note(|| format!("shape {:?} {} stale mask {}", sh, small(&v), small(&st)));
    let positive = |x: f32| x > 0.0;
    ctx.nontrivial = v.iter().any(|x| positive(*x)) && v.iter().any(|x| !positive(*x));
    ctx.label_if(v.iter().any(|x| x.is_subnormal()), "subnormal values");
    ctx.label_if(v.iter().any(|x| x.is_infinite()), "infinite values");
    let (mut t, mut m) = (mk(sh, &v)?, mk(sh, &st)?);
    let mut look = |t: &mut Tensor, m: &mut Tensor, which: &str| -> R {
        ensure!(Tensor::relu_self_and_store_mask(t, m).is_ok(), "{}: ReLU with mask refused shape {:?}", which, sh);
        ensure!(Sh::of(t.get_shape()) == sh && Sh::of(m.get_shape()) == sh, "{}: ReLU with mask changed a shape of {:?}", which, sh);
        let (d, e) = (dump(t), dump(m));
        for p in 0..d.len() {
            let on = positive(v[p]);
            // the sign of a zero is left open
            let good = if on { d[p].to_bits() == v[p].to_bits() } else { d[p] == 0.0 };
            ensure!(good, "{}: ReLU of {:?} at {:?} of {:?} is {:?}", which, v[p], sh.un(p), sh, d[p]);
            ensure!(e[p] == if on { 1.0 } else { 0.0 }, "{}: ReLU mask of {:?} at {:?} of {:?} is {:?}", which, v[p], sh.un(p), sh, e[p]);
        }
        ctx.compared += 2 * d.len() as u64;
        Ok(())
    };
    look(&mut t, &mut m, "first time")?;
    // the result is its own rectification, with the same mask
    look(&mut t, &mut m, "second time")
}

fn c32_scatter(s: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = (shape(s, 300), shape(s, 300));
    let full = a.n();
    let len = if s.chance(2, 3) { full } else { s.below(full + 1) };
    let top = b.n() as u64 - 1;
    let how = s.below(5);
    let mut list: Vec<u32> = match how {
        // anywhere, into few elements, evenly ascending
        0 => expand(s, len, |x| x as u32, top),
        1 => expand(s, len, |x| x as u32, top.min(2)),
        2 => (0..len).map(|p| (p as u64 * (top + 1) / len as u64) as u32).collect(),
        // the same position (or the same counted from the end)
        3 => (0..len.min(b.n())).map(|p| p as u32).collect(),
        _ => (0..len.min(b.n())).map(|p| top as u32 - p as u32).collect(),
    };
    if how == 2 && s.chance(1, 2) {
        list.reverse();
    }
    let mut hits = vec![0usize; b.n()];
    list.iter().for_each(|x| hits[*x as usize] += 1);
    let (av, bv) = match s.below(3) {
        0 => (exact(s, a.n()), exact(s, b.n())),
        1 => (finite(s, a.n()), finite(s, b.n())),
        _ => (any_data(s, a.n()), any_data(s, b.n())),
    };
    let (mut av, mut bv) = (av, bv);
    let tame = |x: &mut f32| {
        if !x.is_finite() || x.abs() > 1e30 {
            *x = 1.5;
        }
    };
    for (p, x) in list.iter().enumerate() {
        if hits[*x as usize] > 1 {
            tame(&mut av.v[p]);
            tame(&mut bv.v[*x as usize]);
        }
    }
    ctx.note(|| format!("source {:?} {} target {:?} {} list of {}: {:?}", a, small(&av.v), b, small(&bv.v), list.len(), &list[..list.len().min(20)]));
    ctx.nontrivial = hits.iter().any(|h| *h != 1) && !list.is_empty();
    ctx.label_if(hits.iter().any(|h| *h > 1), "repeated index");
    ctx.label_if(list.len() < full, "list shorter than the source");
    let ta = mk(a, &av.v)?;
    let mut tb = mk(b, &bv.v)?;
    let kept = list.clone();
    ensure!(Tensor::add_from_index_list(&ta, &mut tb, &list).is_ok(), "scatter-add of {:?} into {:?} with {} indices in range refused", a, b, list.len());
    unchanged("scatter-add: source", &ta, a, &av.v)?;
    ensure!(kept == list, "scatter-add changed the index list");
    ensure!(Sh::of(tb.get_shape()) == b, "scatter-add: target became {:?}", Sh::of(tb.get_shape()));
    let d = dump(&tb);
    let mut sum: Vec<(f64, f64)> = bv.v.iter().map(|x| (*x as f64, x.abs() as f64)).collect();
    let mut once = vec![0f32; b.n()];
    for (p, x) in list.iter().enumerate() {
        let x = *x as usize;
        sum[x].0 += av.v[p] as f64;
        sum[x].1 += av.v[p].abs() as f64;
        once[x] = bv.v[x] + av.v[p];
    }
    let q = refm::mixq(av.q, bv.q);
    for p in 0..d.len() {
        let good = match hits[p] {
            0 => d[p].to_bits() == bv.v[p].to_bits(),
            1 => same_value(d[p], once[p]) || d[p] == once[p],
            h => {
                let exactly = q > 0.0 && sum[p].1 / q < 16_777_216.0;
                let e = if exactly { 0.0 } else { sum[p].1 * 2.0 * (h + 8) as f64 * 2f64.powi(-24) + 1e-40 };
                (d[p] as f64 - sum[p].0).abs() <= e
            }
        };
        ensure!(
            good,
            "scatter-add of {:?} into {:?}: element {} was {:?}, is named {} times and became {:?} (expected {:?})",
            a, b, p, bv.v[p], hits[p], d[p], sum[p].0
        );
    }
    ctx.compared += d.len() as u64;
    Ok(())
}

// ---------------------------------------------------------------- C26

pub fn c26() -> Property {
    Property {
        id: "C26",
        rule: "Random shapes and fill parameters; value and uniform fills checked on every element, Gaussian fills by mean, spread and \
               tail counts with thresholds beyond eight standard errors (false-alarm probability below 1e-14 per case); norm against a double-precision sum; \
               equality on pairs equal except for one element, one bit, or the shape. Non-trivial: more than one element.",
        assumptions: &["uniform bounds with min <= max and a finite width", "the code's own unseeded random source is independent and identically distributed"],
        facets: vec![
            Facet { name: "fills", quick: 2_900_000, thorough: 34_800_000, run: c26_fills },
            Facet { name: "distribution", quick: 24_000, thorough: 288_000, run: c26_distribution },
            Facet { name: "small", quick: 6_000, thorough: 72_000, run: c26_small },
            Facet { name: "norm", quick: 2_900_000, thorough: 34_800_000, run: c26_norm },
            Facet { name: "equality", quick: 4_800_000, thorough: 57_600_000, run: c26_equality },
            Facet { name: "norm, larger", quick: 16, thorough: 192, run: c26_vast },
            Facet { name: "totals, large", quick: 16, thorough: 192, run: c26_totals },
            Facet { name: "fills, large", quick: 240, thorough: 2_880, run: large!(c26_fills) },
            Facet { name: "norm, large", quick: 240, thorough: 2_880, run: large!(c26_norm) },
            Facet { name: "equality, large", quick: 240, thorough: 2_880, run: large!(c26_equality) },
        ],
    }
}

fn c26_fills(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 1200);
    let n = sh.n();
    ctx.nontrivial = n > 1;
    let st = stale(s, n);
    let mut t = mk(sh, &st)?;
    match s.below(3) {
        0 => {
            let v = anybits(s, 1).v[0];
            ctx.note(|| format!("fill {:?} with {:?}", sh, v));
            t.fill_with_value(v);
            unchanged("fill_with_value: tensor", &t, sh, &vec![v; n])?;
        }
        1 => {
            let pair = real(s, 2).v;
            let (lo, hi) = match s.below(4) {
                0 => (-1.0, 1.0),
                1 => (pair[0].min(pair[1]), pair[0].max(pair[1])),
                2 => (pair[0], pair[0]),
                _ => (pair[0], pair[0] + pair[0].abs() * 1e-6),
            };
            ctx.note(|| format!("uniform fill {:?} in [{:?}, {:?}]", sh, lo, hi));
            t.fill_with_uniform(lo, hi);
            ensure!(Sh::of(t.get_shape()) == sh, "uniform fill changed the shape");
            for (p, x) in dump(&t).iter().enumerate() {
                ensure!(*x >= lo && *x <= hi, "uniform fill in [{:?}, {:?}] put {:?} at {:?}", lo, hi, x, sh.un(p));
            }
        }
        _ => {
            let m = real(s, 1).v[0];
            let sd = if s.chance(1, 4) { 0.0 } else { (s.u(1, 1000) as f32) / 50.0 * m.abs().max(1e-3) };
            ctx.note(|| format!("gaussian fill {:?} mean {:?} sd {:?}", sh, m, sd));
            t.fill_with_gaussian(m, sd);
            ensure!(Sh::of(t.get_shape()) == sh, "gaussian fill changed the shape");
            for (p, x) in dump(&t).iter().enumerate() {
                // 12 standard deviations: never, for a Gaussian
                ensure!(
                    ((*x as f64) - m as f64).abs() <= 12.0 * sd as f64 + m.abs() as f64 * 1e-5,
                    "gaussian fill with mean {:?} and deviation {:?} put {:?} at {:?}", m, sd, x, sh.un(p)
                );
            }
        }
    }
    ctx.compared += n as u64;
    Ok(())
}

fn c26_distribution(s: &mut Src, ctx: &mut Ctx) -> R {
    let large = s.chance(1, 40);
    let sh = if large {
        ctx.label("100000 elements");
        [Sh(100_000, 1, 1), Sh(50, 40, 50), Sh(1, 1, 100_000), Sh(10, 1000, 10)][s.below(4)]
    } else {
        [Sh(4000, 1, 1), Sh(20, 20, 10), Sh(1, 4000, 1), Sh(5, 8, 100)][s.below(4)]
    };
    let n = sh.n() as f64;
    ctx.nontrivial = true;
    let mut t = mk(sh, &stale(s, sh.n()))?;
    let scale = 2f64.powi(s.range(-10, 10) as i32);
    let centre = s.range(-8, 8) as f64 * scale;
    let gauss = s.chance(1, 2);
    let sd;
    let (lo, hi);
    if gauss {
        sd = scale;
        lo = f64::NEG_INFINITY;
        hi = f64::INFINITY;
        t.fill_with_gaussian(centre as f32, scale as f32);
    } else {
        lo = centre - scale;
        hi = centre + scale * if s.chance(1, 2) { 3.0 } else { 1.0 };
        sd = (hi - lo) / 12f64.sqrt();
        t.fill_with_uniform(lo as f32, hi as f32);
    }
    let mean = if gauss { centre } else { (lo + hi) / 2.0 };
    let kind = if gauss { "gaussian" } else { "uniform" };
    ctx.note(|| format!("{} {:?} mean {} sd {}", kind, sh, mean, sd));
    let d = dump(&t);
    let am = d.iter().map(|x| *x as f64).sum::<f64>() / n;
    let av = d.iter().map(|x| (*x as f64 - am).powi(2)).sum::<f64>() / n;
    let tol = 9.0 * sd / n.sqrt();
    ensure!((am - mean).abs() <= tol, "{} fill: mean of {} values is {}, requested {}", kind, n, am, mean);
    // standard error of the sample deviation: sd/sqrt(2n) for a Gaussian, less for a uniform
    ensure!((av.sqrt() - sd).abs() <= 9.0 * sd / (2.0 * n).sqrt() + sd * 1e-3, "{} fill: deviation of {} values is {}, requested {}", kind, n, av.sqrt(), sd);
    let half = d.iter().filter(|x| (**x as f64) < mean).count() as f64 / n;
    ensure!((half - 0.5).abs() < 9.0 * 0.5 / n.sqrt(), "{} fill: {} of the values lie below the centre", kind, half);
    // fraction within one deviation (0.6827) or within the middle half (0.5)
    let w = if gauss { sd } else { (hi - lo) / 4.0 };
    let p = if gauss { 0.682_689 } else { 0.5 };
    let inside = d.iter().filter(|x| (**x as f64 - mean).abs() < w).count() as f64 / n;
    ensure!((inside - p).abs() < 9.0 * 0.5 / n.sqrt(), "{} fill: {} of the values lie near the centre, expected {}", kind, inside, p);
    // shares beyond given numbers of deviations, or of the range in sixteen parts
    let cuts: Vec<(f64, f64)> = if gauss {
        vec![(0.5, 0.308_538), (1.5, 0.066_807_2), (2.0, 0.022_750_1), (2.5, 0.006_209_67), (3.0, 0.001_349_9), (3.5, 0.000_232_629)]
    } else {
        (1..16).map(|q| (q as f64 * 12f64.sqrt() / 16.0, 1.0 - q as f64 / 16.0)).collect()
    };
    for (c, p) in cuts {
        let e = 9.0 * (n * p * (1.0 - p)).sqrt() + 9.0;
        let from = if gauss { mean } else { lo };
        let above = d.iter().filter(|x| (**x as f64) > from + c * sd).count() as f64;
        ensure!((above - n * p).abs() <= e, "{} fill: {} of {} values lie {} deviations above {}, expected {}", kind, above, n, c, from, n * p);
        if gauss {
            let below = d.iter().filter(|x| (**x as f64) < mean - c * sd).count() as f64;
            ensure!((below - n * p).abs() <= e, "{} fill: {} of {} values lie {} deviations below the mean, expected {}", kind, below, n, c, n * p);
        }
    }
    // elements do not determine each other
    for lag in [1, 2, 3, sh.0 as usize, (sh.0 * sh.1) as usize, d.len() / 2] {
        if lag == 0 || lag >= d.len() || d.len() - lag < 1000 {
            continue;
        }
        let m = (d.len() - lag) as f64;
        let c = (lag..d.len()).map(|p| (d[p] as f64 - mean) * (d[p - lag] as f64 - mean)).sum::<f64>() / (m * sd * sd);
        ensure!(c.abs() <= 9.0 / m.sqrt(), "{} fill: elements {} apart have correlation {}", kind, lag, c);
    }
    // neighbours are not copies of each other
    let rep = d.windows(2).filter(|x| x[0] == x[1]).count();
    ensure!(rep < 40, "{} fill: {} equal neighbours", kind, rep);
    // nor are stretches of the tensor copies of earlier ones (at least 2^20 values are about equally likely)
    let mut bits: Vec<u32> = d.iter().map(|x| x.to_bits()).collect();
    bits.sort_unstable();
    let rep = bits.windows(2).filter(|x| x[0] == x[1]).count() as f64;
    ensure!(rep < n * n / (1u32 << 20) as f64 + 60.0, "{} fill: {} of {} values occur more than once", kind, rep, n);
    // every region of the tensor is drawn from the same distribution
    let parts = 8;
    let m = d.len() / parts;
    for q in 0..parts {
        let sl = &d[q * m..(q + 1) * m];
        let a = sl.iter().map(|x| *x as f64).sum::<f64>() / m as f64;
        ensure!((a - mean).abs() <= 10.0 * sd / (m as f64).sqrt(), "{} fill: elements {}..{} have mean {}, requested {}", kind, q * m, (q + 1) * m, a, mean);
    }
    ctx.compared += 1;
    Ok(())
}

/// The share of the standard normal distribution above z.
fn normal_above(z: f64) -> f64 {
    let n = 4000;
    let h = 12.0 / n as f64;
    let f = |x: f64| (-x * x / 2.0).exp() / (2.0 * std::f64::consts::PI).sqrt();
    let mut a = f(z) + f(z + 12.0);
    for q in 1..n {
        a += f(z + q as f64 * h) * if q % 2 == 1 { 4.0 } else { 2.0 };
    }
    a * h / 3.0
}

/// Tens of millions of values of one kind: shares in fine steps far into the tails, moments, neighbours.
fn c26_totals(s: &mut Src, ctx: &mut Ctx) -> R {
    let gauss = s.chance(1, 2);
    let sh = [Sh(1 << 18, 1, 1), Sh(64, 64, 64), Sh(1, 1, 1 << 18), Sh(511, 513, 1), Sh(3, 5, 17_477)][s.below(5)];
    let rounds = if s.big > 0 { 400 } else { 128 };
    let scale = 2f64.powi(s.range(-10, 10) as i32);
    let centre = s.range(-2, 2) as f64 * scale;
    let kind = if gauss { "gaussian" } else { "uniform" };
    ctx.nontrivial = true;
    ctx.note(|| format!("{} {:?} centre {} scale {} filled {} times", kind, sh, centre, scale, rounds));
    let sd = if gauss { 1.0 } else { 1.0 / 3f64.sqrt() };
    let bins = 1usize << 12;
    let mut counts = vec![0u64; bins + 2];
    let (mut m1, mut m2, mut m3, mut m4, mut near, mut near2) = (0f64, 0f64, 0f64, 0f64, 0f64, 0f64);
    let mut t = mk(sh, &stale(s, sh.n()))?;
    let cells = (0..sh.n()).map(|f| sh.un(f)).collect::<Vec<_>>();
    // bins over plus and minus eight deviations, or the range itself
    let half = if gauss { 8.0 } else { 1.0 };
    let mut last = 0f64;
    for _ in 0..rounds {
        if gauss {
            t.fill_with_gaussian(centre as f32, scale as f32);
        } else {
            t.fill_with_uniform((centre - scale) as f32, (centre + scale) as f32);
        }
        for (i, j, k) in &cells {
            let z = (t.get_item(&idx(*i, *j, *k)) as f64 - centre) / scale;
            if !gauss {
                ensure!(z.abs() <= 1.0, "uniform fill: {} from -1 to 1 gave {}", scale, z);
            }
            let b = ((z + half) / (2.0 * half) * bins as f64).floor();
            counts[(b.max(-1.0).min(bins as f64) + 1.0) as usize] += 1;
            m1 += z;
            m2 += z * z;
            m3 += z * z * z;
            m4 += z * z * z * z;
            near += z * last;
            near2 += (z * z - sd * sd) * (last * last - sd * sd);
            last = z;
        }
    }
    let n = (sh.n() * rounds) as f64;
    let root = n.sqrt();
    // moments of the sums: variances 1, 2, 15, 96 for a Gaussian, smaller ones for a uniform distribution
    ensure!((m1 / n).abs() < 9.0 * sd / root + 1e-6, "{} fill: mean of {} values is {} deviations off", kind, n, m1 / n);
    ensure!((m2 / n - sd * sd).abs() < 9.0 * 1.42 * sd * sd / root + 1e-5, "{} fill: variance of {} values is {}, requested {}", kind, n, m2 / n, sd * sd);
    ensure!((m3 / n).abs() < 9.0 * 3.88 / root + 1e-5, "{} fill: {} values are skewed by {}", kind, n, m3 / n);
    let fourth = if gauss { 3.0 } else { 0.2 };
    ensure!((m4 / n - fourth).abs() < 9.0 * 9.8 / root + 1e-4, "{} fill: fourth moment of {} values is {}, expected {}", kind, n, m4 / n, fourth);
    ensure!((near / n).abs() < 9.0 * sd * sd / root, "{} fill: neighbours among {} values have correlation {}", kind, n, near / n);
    ensure!((near2 / n).abs() < 9.0 * 2.0 / root, "{} fill: squares of neighbours among {} values have correlation {}", kind, n, near2 / n);
    let mut below = 0u64;
    for c in 0..=bins {
        below += counts[c];
        let z = -half + c as f64 * 2.0 * half / bins as f64;
        // every sixteenth of a deviation up to 4.5, every 4096th of the range near its ends and every 64th elsewhere
        if gauss && (c % 16 != 0 || z.abs() > 4.5) || !gauss && c % 64 != 0 && c > 16 && c < bins - 16 {
            continue;
        }
        let p = if gauss { normal_above(-z) } else { c as f64 / bins as f64 };
        let dev = (below as f64 - n * p).abs();
        let e = 8.5 * (n * p * (1.0 - p)).sqrt() + 30.0;
        ensure!(dev <= e, "{} fill: {} of {} values lie below {} {}, expected {}", kind, below, n, z, if gauss { "deviations" } else { "half ranges" }, n * p);
        ctx.compared += 1;
    }
    Ok(())
}

/// Many fills of one small tensor: each position by itself, pairs of positions, and one fill against the next.
fn c26_small(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = match s.below(4) {
        0 => Sh(1, 1, 1),
        1 => Sh(s.u(1, 9), 1, 1),
        2 => Sh(1, s.u(1, 4), s.u(1, 4)),
        _ => Sh(s.u(1, 3), s.u(1, 3), s.u(1, 3)),
    };
    let n = sh.n();
    let gauss = s.chance(1, 2);
    let scale = (1.0 + s.below(1000) as f64 / 1000.0) * 2f64.powi(s.range(-12, 12) as i32);
    let centre = s.range(-20, 20) as f64 * scale / 3.0;
    let fresh = s.chance(1, 2);
    let (lo, hi) = (centre - scale, centre + scale);
    let sd = if gauss { scale } else { (hi - lo) / 12f64.sqrt() };
    let kind = if gauss { "gaussian" } else { "uniform" };
    ctx.nontrivial = n > 1;
    ctx.note(|| format!("{} {:?} mean {} sd {} fresh tensors: {}", kind, sh, centre, sd, fresh));
    let f = 1500usize;
    let fill = |t: &mut Tensor| {
        if gauss {
            t.fill_with_gaussian(centre as f32, scale as f32);
        } else {
            t.fill_with_uniform(lo as f32, hi as f32);
        }
    };
    let mut t = mk(sh, &stale(s, n))?;
    let mut rows: Vec<Vec<f64>> = Vec::with_capacity(f);
    let mut repeats = 0;
    for r in 0..f {
        if fresh {
            t = Tensor::new(sh.ts());
        }
        fill(&mut t);
        let d: Vec<f64> = dump(&t).iter().map(|x| (*x as f64 - centre) / sd).collect();
        if r > 0 {
            repeats += d.iter().zip(&rows[r - 1]).filter(|(a, b)| a == b).count();
        }
        rows.push(d);
    }
    ensure!(repeats < 20 + n, "{} fills of {:?}: {} elements equal that of the fill before", kind, sh, repeats);
    let fl = f as f64;
    // fourth moments: 3 and 1.8, so the variance of the sample variance is 2/f and 0.8/f
    for p in 0..n {
        let mean = rows.iter().map(|r| r[p]).sum::<f64>() / fl;
        ensure!(mean.abs() < 9.0 / fl.sqrt() + 1e-3, "{} fills of {:?}: element {} has mean {} deviations off over {} fills", kind, sh, p, mean, f);
        let var = rows.iter().map(|r| r[p] * r[p]).sum::<f64>() / fl;
        ensure!((var - 1.0).abs() < 9.0 * (2.0 / fl).sqrt() + 1e-3, "{} fills of {:?}: element {} has variance {} times the requested over {} fills", kind, sh, p, var, f);
        let below = rows.iter().filter(|r| r[p] < 0.0).count() as f64 / fl;
        ensure!((below - 0.5).abs() < 4.5 / fl.sqrt() + 1e-3, "{} fills of {:?}: element {} is below the centre in {} of {} fills", kind, sh, p, below, f);
        let (w, q) = if gauss { (1.0, 0.682_689) } else { (3f64.sqrt() / 2.0, 0.5) };
        let near = rows.iter().filter(|r| r[p].abs() < w).count() as f64 / fl;
        ensure!((near - q).abs() < 4.5 / fl.sqrt() + 1e-3, "{} fills of {:?}: element {} is near the centre in {} of {} fills, expected {}", kind, sh, p, near, f, q);
        let next = (1..f).map(|r| rows[r][p] * rows[r - 1][p]).sum::<f64>() / fl;
        ensure!(next.abs() < 9.0 / fl.sqrt(), "{} fills of {:?}: element {} of one fill and the next have correlation {}", kind, sh, p, next);
        for o in 0..p {
            let c = rows.iter().map(|r| r[p] * r[o]).sum::<f64>() / fl;
            ensure!(c.abs() < 9.0 / fl.sqrt(), "{} fills of {:?}: elements {} and {} have correlation {}", kind, sh, o, p, c);
            let same = rows.iter().filter(|r| r[p] == r[o]).count();
            ensure!(same < 20, "{} fills of {:?}: elements {} and {} are equal in {} of {} fills", kind, sh, o, p, same, f);
        }
    }
    // other threads draw something else
    if s.chance(1, 8) {
        let new = |_| std::thread::spawn(move || {
            let mut t = Tensor::new(Sh(16, 1, 1).ts());
            if gauss { t.fill_with_gaussian(0.0, 1.0) } else { t.fill_with_uniform(0.0, 1.0) };
            dump(&t)
        });
        let hs: Vec<_> = (0..2).map(new).collect();
        let ds: Vec<Vec<f32>> = hs.into_iter().map(|h| h.join().expect("harness: fill on a thread panicked")).collect();
        let same = ds[0].iter().zip(&ds[1]).filter(|(a, b)| a == b).count();
        ctx.label("two threads");
        ensure!(same < 8, "{} fills on two new threads agree in {} of 16 elements", kind, same);
    }
    ctx.compared += (f * n) as u64;
    Ok(())
}

/// The norm, from a double-precision sum of squares.
fn norm_is(g: f32, v: &[f32], by: f32, what: &dyn Fn() -> String) -> R {
    if v.iter().any(|x| x.is_nan()) {
        ensure!(g.is_nan(), "norm of {} is {}, with not-a-number among the elements", what(), g);
        return Ok(());
    }
    let e = v.iter().map(|x| (*x as f64).powi(2)).sum::<f64>().sqrt() * by.abs() as f64;
    if e.is_infinite() {
        ensure!(g == f32::INFINITY, "norm of {} is {}, expected infinity", what(), g);
        return Ok(());
    }
    let tol = (e * ((v.len() as f64 + 8.0) * 1.3e-7).min(1e-2)).max(2e-45);
    if e > f32::MAX as f64 - tol && g == f32::INFINITY {
        return Ok(());
    }
    ensure!((g as f64 - e).abs() <= tol, "norm of {} is {}, expected {}", what(), g, e);
    Ok(())
}

fn c26_norm(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 1500);
    let n = sh.n();
    let d = match s.weighted(&[6, 3, 1, 3, 2, 1]) {
        0 => exact(s, n),
        1 => real(s, n),
        2 => Data { v: vec![0.0; n], q: 1.0, kind: "zero" },
        // magnitudes whose squares vanish or overflow
        3 => grad(s, n, false),
        4 => {
            let by = s.range(-150, 120) as i32;
            let mut d = exact(s, n);
            d.v.iter_mut().for_each(|x| *x = (*x as f64 * 2f64.powi(by)) as f32);
            d
        }
        _ if n <= 1500 => special(s, n),
        _ => finite(s, n),
    };
    ctx.nontrivial = n > 1 && d.v.iter().any(|x| *x != 0.0);
    ctx.note(|| format!("shape {:?} {}", sh, small(&d.v)));
    let most = d.v.iter().fold(0f32, |a, x| a.max(x.abs()));
    ctx.label_if(most > 1e19, "squares beyond the largest finite value");
    ctx.label_if(most > 0.0 && most < 1e-23, "squares below the smallest value");
    let t = mk(sh, &d.v)?;
    let g = t.get_norm();
    norm_is(g, &d.v, 1.0, &|| format!("{} in {:?}", small(&d.v), sh))?;
    ensure!((g == 0.0) == d.v.iter().all(|x| *x == 0.0), "norm {} of {}", g, small(&d.v));
    unchanged("norm: tensor", &t, sh, &d.v)?;
    let c = [-1.0f32, -2.0, 0.5, 3.0, 0.0][s.below(5)];
    let mut t2 = t.clone();
    Tensor::scale_self(&mut t2, c);
    let v: Vec<f32> = d.v.iter().map(|x| x * c).collect();
    norm_is(t2.get_norm(), &v, 1.0, &|| format!("{} scaled by {}", small(&d.v), c))?;
    // the absolute value of the scalar comes out, as long as scaling rounds nothing away
    if d.v.iter().all(|x| x.is_finite() && (*x == 0.0 || x.abs() > 1e-30 && x.abs() < 1e30)) {
        norm_is(t2.get_norm(), &d.v, c, &|| format!("{} scaled by {}", small(&d.v), c))?;
    }
    ctx.compared += 2;
    Ok(())
}

/// Tensors of more than 2^24 elements: single precision could not even count them.
fn c26_vast(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = match s.below(3) {
        0 => Sh(1 << 24, 1 + s.u(0, 1), 1),
        1 => Sh(5000 + s.u(0, 500), 4001, 1),
        _ => Sh(300, 257 + s.u(0, 20), 300),
    };
    let n = sh.n();
    let (a, b) = ([1.0f32, 0.3, -2.5, 1e25, 1e-30][s.below(5)], [1.0f32, 1.5, 0.0][s.below(3)]);
    let every = 1 + s.below(4);
    let v: Vec<f32> = (0..n).map(|i| if i % every == 0 { a } else { a * b }).collect();
    ctx.nontrivial = true;
    ctx.compared += 1;
    ctx.note(|| format!("{:?}: {} and {}, every {}", sh, a, a * b, every));
    let t = mk(sh, &v)?;
    norm_is(t.get_norm(), &v, 1.0, &|| format!("{} and {} (one of {}) in {:?}", a, a * b, every, sh))
}

fn c26_equality(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, 800);
    let n = sh.n();
    let a = any_data(s, n).v;
    let (mut bsh, mut b) = (sh, a.clone());
    match s.weighted(&[3, 5, 3, 2]) {
        0 => {}
        1 => {
            let p = s.below(n);
            b[p] = match s.below(4) {
                0 => f32::from_bits(b[p].to_bits() ^ 1),
                1 => -b[p],
                2 => b[p] + 1.0,
                _ => anybits(s, 1).v[0],
            };
        }
        2 => {
            bsh = near(s, sh);
            b = if bsh.n() == n { a.clone() } else { vec![a[0]; bsh.n()] };
        }
        _ => {
            for x in b.iter_mut() {
                if *x == 0.0 {
                    *x = -*x;
                }
            }
        }
    }
    let want = sh == bsh && a.iter().zip(&b).all(|(x, y)| x == y);
    ctx.nontrivial = n > 1;
    ctx.label(if want { "equal" } else if sh != bsh { "shapes differ" } else { "elements differ" });
    ctx.note(|| format!("{:?} {} vs {:?} {}", sh, small(&a), bsh, small(&b)));
    let (ta, tb) = (mk(sh, &a)?, mk(bsh, &b)?);
    ensure!((ta == tb) == want, "== on {:?} {} and {:?} {} is {}", sh, small(&a), bsh, small(&b), !want);
    ensure!((tb == ta) == want, "== is not symmetric on {:?} {} and {:?} {}", sh, small(&a), bsh, small(&b));
    ensure!((ta != tb) == !want, "!= on {:?} {} and {:?} {} is {}", sh, small(&a), bsh, small(&b), want);
    let c = ta.clone();
    let refl = a.iter().all(|x| !x.is_nan());
    // also to itself, the very same object
    #[allow(clippy::eq_op)]
    {
        ensure!((ta == ta) == refl && (ta != ta) != refl, "a tensor compares {} to itself {}", !refl, small(&a));
    }
    ensure!((c == ta) == refl, "a clone compares {} to its original {}", !refl, small(&a));
    ctx.compared += 4;
    Ok(())
}
