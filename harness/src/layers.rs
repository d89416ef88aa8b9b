//! Generated layer specifications, the layers built from them, and their
//! reference forward and backward passes.

use crate::engine::{fail, Ctx, Fail, Src, R};
use crate::gen::*;
use crate::refm::*;
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::layer::{Layer, SerializedLayer};
use rusty_network::network::NetworkRunState;
use rusty_network::tensor::helper::TensorShape;
use rusty_network::tensor::Tensor;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

// ---------------------------------------------------------------- geometry

/// Window size and number of window positions along one axis.
pub fn axis(s: &mut Src, maxk: u32, maxo: u32) -> (u32, u32) {
    let k = match s.weighted(&[200, 18, 4]) {
        0 => s.u(1, maxk),
        1 => s.u(1, maxk.max(2) * 2),
        _ => s.u(1, 26),
    };
    let o = match s.weighted(&[200, 18, 4]) {
        0 => s.u(1, maxo),
        1 => s.u(1, maxo * 3),
        _ => s.u(1, 40),
    };
    (k, o)
}

pub fn stride(s: &mut Src) -> u32 {
    match s.weighted(&[80, 60, 30, 28, 4]) {
        0 => 1,
        1 => 2,
        2 => 3,
        3 => s.u(4, 7),
        _ => s.u(8, 34),
    }
}

fn depth(s: &mut Src, usual: u32) -> u32 {
    match s.weighted(&[120, 8, 2]) {
        0 => s.u(1, usual),
        1 => s.u(1, 9),
        _ => s.u(1, 40),
    }
}

/// A geometry that fits; `kd` fixes the kernel depth rule (pooling: depth 1).
pub fn geo(s: &mut Src, pool: bool) -> Geo {
    if s.huge && s.chance(3, 4) {
        return huge_geo(s, pool);
    }
    if s.long {
        let st = s.u(1, 2);
        let (k0, k1, o0, o1) = (s.u(1, 2), s.u(1, 2), s.u(1, 3), s.u(1, 2));
        let (d, c) = (s.u(1, 2), if pool { 1 } else { s.u(1, 2) });
        return fitting(st, (k0, k1), (o0, o1), d, c, pool, 1);
    }
    let mut st = stride(s);
    let m = if s.big > 0 && s.chance(1, 4) { 9 } else { 5 };
    let (mut k0, mut o0) = axis(s, m, m);
    let (mut k1, mut o1) = axis(s, m, m);
    let mut d = depth(s, 3);
    let kd = if pool && s.chance(1, 6) { s.u(1, 3) } else { 1 };
    let mut c = if pool { 1 } else { depth(s, 4) };
    // keep one case affordable
    let room = if s.big > 0 { 60_000 } else { 12_000 };
    let work = if s.big > 0 { 2_000_000 } else { 300_000 };
    let n = |o: u32, k: u32, st: u32| -> u64 { (o as u64 - 1) * st as u64 + k as u64 };
    while n(o0, k0, st) * n(o1, k1, st) * d as u64 > room {
        o0 = (o0 / 2).max(1);
        if n(o0, k0, st) * n(o1, k1, st) * d as u64 <= room {
            break;
        }
        o1 = (o1 / 2).max(1);
        st = (st / 2).max(1);
        d = (d / 2).max(1);
    }
    while o0 as u64 * o1 as u64 * k0 as u64 * k1 as u64 * d as u64 * c as u64 > work {
        c = (c / 2).max(1);
        d = (d / 2).max(1);
        k0 = (k0 / 2).max(1);
        k1 = (k1 / 2).max(1);
    }
    fitting(st, (k0, k1), (o0, o1), d, c, pool, kd)
}

fn fitting(st: u32, k: (u32, u32), o: (u32, u32), d: u32, c: u32, pool: bool, kd: u32) -> Geo {
    let img = Sh((o.0 - 1) * st + k.0, (o.1 - 1) * st + k.1, d);
    if pool {
        Geo { img, ker: Sh(k.0, k.1, kd), stride: st, out: Sh(o.0, o.1, d) }
    } else {
        Geo { img, ker: Sh(k.0, k.1, d), stride: st, out: Sh(o.0, o.1, c) }
    }
}

/// Images or results of more than 65536 elements.
fn huge_geo(s: &mut Src, pool: bool) -> Geo {
    let st = s.u(1, 2);
    let k = (s.u(1, 3), s.u(1, 3));
    match s.below(8) {
        6 => {
            // more than 65536 slices of one position
            let (a, b, d) = (s.u(1, 2), 1, 65_537 + s.u(0, 60));
            fitting(st, (s.u(1, 2), 1), (a, b), d, 1, pool, 1)
        }
        7 => {
            // a stride above 65535
            let st = 65_536 + s.u(0, 40);
            let o = if s.chance(1, 2) { (2, 1) } else { (1, 2) };
            fitting(st, (s.u(1, 2), s.u(1, 2)), o, 1, 1, pool, 1)
        }
        5 => {
            // more than 256 channels
            let (a, b, d, c) = (s.u(1, 3), s.u(1, 3), s.u(1, 2), 257 + s.u(0, 60));
            let (d, c) = if pool || s.chance(1, 2) { (c, d) } else { (d, c) };
            fitting(st, k, (a, b), d, c, pool, 1)
        }
        0 => {
            // one long line of windows
            let n = 65_537 + s.u(0, 900);
            let o = if s.chance(1, 2) { (n, 1) } else { (1, n) };
            let c = if pool { 1 } else { s.u(1, 2) };
            fitting(st, k, o, 1, c, pool, 1)
        }
        1 => {
            let (a, b) = (257 + s.u(0, 12), 257 + s.u(0, 12));
            fitting(st, k, (a, b), 1, 1, pool, 1)
        }
        2 => {
            // deep
            let (a, b, d) = (40 + s.u(0, 3), 40 + s.u(0, 3), 42 + s.u(0, 3));
            fitting(st, k, (a, b), d, 1, pool, 1)
        }
        3 => {
            // many channels
            let (a, b, c) = (30 + s.u(0, 3), 30 + s.u(0, 3), 74 + s.u(0, 5));
            if pool {
                fitting(st, k, (a, b), c, 1, pool, 1)
            } else {
                fitting(st, k, (a, b), 1, c, pool, 1)
            }
        }
        _ => {
            // a huge window
            let (a, b) = (257 + s.u(0, 5), 257 + s.u(0, 5));
            fitting(1, (a, b), (s.u(1, 3), s.u(1, 3)), 1, 1, pool, 1)
        }
    }
}

pub fn label_geo(g: &Geo, ctx: &mut Ctx) {
    ctx.label_if(g.stride > 1, "stride > 1");
    ctx.label_if(g.ker.0 != g.ker.1, "non-square kernel");
    ctx.label_if(g.img.0 != g.img.1, "non-square image");
    ctx.label_if(g.img.2 > 1, "depth > 1");
    ctx.label_if(g.out.2 > 1, "several output channels");
    ctx.label_if(g.ker.0 > g.out.0 || g.ker.1 > g.out.1, "kernel larger than output");
    ctx.label_if(g.ker.0 < g.out.0 || g.ker.1 < g.out.1, "kernel smaller than output");
    ctx.label_if(g.stride > g.ker.0 || g.stride > g.ker.1, "gaps between windows");
    ctx.label_if(g.stride < g.ker.0 && g.out.0 > 1 || g.stride < g.ker.1 && g.out.1 > 1, "overlapping windows");
}

/// Counts as non-trivial in the geometry-based rules.
pub fn geo_nontrivial(g: &Geo) -> bool {
    g.out.n() > 1 && g.ker.0 * g.ker.1 > 1
}

// ---------------------------------------------------------------- specs

#[derive(Clone, Debug)]
pub enum Spec {
    Fc { n: u32, m: u32, d: u32, w: Data, b: Data, name: String },
    Conv { g: Geo, ks: Vec<Data>, bs: Data, name: String },
    Mp { g: Geo, name: String },
    Sm { sh: Sh, name: String },
}

pub const KINDS: [&str; 4] = ["fully connected", "convolutional", "max pool", "softmax"];

pub fn name(s: &mut Src) -> String {
    if s.huge && s.chance(1, 6) {
        return "long name ".repeat(6_600);
    }
    match s.below(6) {
        5 => {
            // something that may get lost at either end
            const ENDS: [&str; 10] = [" ", "\0", "\n", "\t", "\r\n", "\u{feff}", "/", ".", "\"", "\u{a0}"];
            let e = ENDS[s.below(10)];
            match s.below(3) {
                0 => format!("l{}", e),
                1 => format!("{}l", e),
                _ => e.to_string(),
            }
        }
        0 => format!("layer {}", s.below(10)),
        1 => String::new(),
        2 => "Schicht \u{e4}\u{2211}\u{1F980}\n\0 x".to_string(),
        3 => "n".repeat(s.below(300)),
        _ => {
            let n = s.below(12);
            (0..n).map(|_| char::from_u32(32 + s.upto(1200) as u32).unwrap_or('?')).collect()
        }
    }
}

/// Weights small enough to keep deep networks exact.
pub fn wdata(s: &mut Src, n: usize, exactly: bool) -> Data {
    if !exactly && s.chance(1, 3) {
        let mut d = real(s, n);
        if d.kind != "unit reals" {
            d.v.iter_mut().for_each(|x| *x = x.signum() * (x.abs() % 2.0));
        }
        if s.rarely(1, 12) {
            // squares underflow
            d.v.iter_mut().for_each(|x| *x = (*x as f64 * 2f64.powi(-84)) as f32);
        }
        return d;
    }
    match s.weighted(&[50, 30, 20]) {
        0 => Data { v: expand(s, n, |x| zz(x) as f32, 6), q: 1.0, kind: "ints" },
        1 => Data { v: expand(s, n, |x| zz(x) as f32 / 2.0, 8), q: 0.5, kind: "halves" },
        _ => exact(s, n),
    }
}

impl Spec {
    pub fn kind(&self) -> usize {
        match self {
            Spec::Fc { .. } => 0,
            Spec::Conv { .. } => 1,
            Spec::Mp { .. } => 2,
            Spec::Sm { .. } => 3,
        }
    }
    pub fn name(&self) -> &String {
        match self {
            Spec::Fc { name, .. } | Spec::Conv { name, .. } | Spec::Mp { name, .. } | Spec::Sm { name, .. } => name,
        }
    }
    pub fn ish(&self) -> Sh {
        match self {
            Spec::Fc { n, d, .. } => Sh(*n, 1, *d),
            Spec::Conv { g, .. } | Spec::Mp { g, .. } => g.img,
            Spec::Sm { sh, .. } => *sh,
        }
    }
    pub fn osh(&self) -> Sh {
        match self {
            Spec::Fc { m, d, .. } => Sh(*m, 1, *d),
            Spec::Conv { g, .. } | Spec::Mp { g, .. } => g.out,
            Spec::Sm { sh, .. } => *sh,
        }
    }
    pub fn brief(&self) -> String {
        match self {
            Spec::Fc { n, m, d, w, b, name } => {
                format!("FC {}->{} (x{}) w={} b={} name={:?}", n, m, d, small(&w.v), small(&b.v), name)
            }
            Spec::Conv { g, ks, bs, name } => format!(
                "Conv {:?} kernels={:?} biases={} name={:?}",
                g,
                ks.iter().map(|k| small(&k.v)).collect::<Vec<_>>(),
                small(&bs.v),
                name
            ),
            Spec::Mp { g, name } => format!("MaxPool {:?} name={:?}", g, name),
            Spec::Sm { sh, name } => format!("Softmax {:?} name={:?}", sh, name),
        }
    }
    pub fn short(&self) -> String {
        match self {
            Spec::Fc { n, m, d, .. } => format!("FC({}->{} x{})", n, m, d),
            Spec::Conv { g, .. } => format!("Conv({:?}*{:?}/{}->{:?})", g.img, g.ker, g.stride, g.out),
            Spec::Mp { g, .. } => format!("Pool({:?}/{:?}/{}->{:?})", g.img, g.ker, g.stride, g.out),
            Spec::Sm { sh, .. } => format!("Softmax({:?})", sh),
        }
    }

    pub fn build(&self) -> Result<Any, Fail> {
        match self {
            Spec::Fc { .. } => {
                let mut l = FullyConnectedLayer::empty();
                self.fill_fc(&mut l)?;
                Ok(Any::Fc(Rc::new(RefCell::new(l))))
            }
            Spec::Conv { .. } => {
                let mut l = ConvolutionalLayer::empty();
                self.fill_conv(&mut l)?;
                Ok(Any::Conv(Rc::new(RefCell::new(l))))
            }
            Spec::Mp { g, name } => match MaxPoolLayer::new(g.ker.ts(), g.img.ts(), g.stride, name) {
                Ok(l) => Ok(Any::Mp(Rc::new(RefCell::new(l)))),
                Err(e) => fail(format!("construction of valid {} refused: {}", self.short(), e)),
            },
            Spec::Sm { sh, name } => match SoftmaxLayer::new(sh.ts(), name) {
                Ok(l) => Ok(Any::Sm(Rc::new(RefCell::new(l)))),
                Err(e) => fail(format!("construction of valid {} refused: {}", self.short(), e)),
            },
        }
    }
    pub fn fill_fc(&self, l: &mut FullyConnectedLayer) -> R {
        if let Spec::Fc { n, m, d, w, b, name } = self {
            if let Err(e) = l.fill_from_state(mk(Sh(*m, *n, *d), &w.v)?, mk(Sh(*m, 1, *d), &b.v)?, name) {
                return fail(format!("construction of valid {} refused: {}", self.short(), e));
            }
        }
        Ok(())
    }
    pub fn fill_conv(&self, l: &mut ConvolutionalLayer) -> R {
        if let Spec::Conv { g, ks, bs, name } = self {
            let mut kt = Vec::new();
            let mut bt = Vec::new();
            for c in 0..g.out.2 as usize {
                kt.push(mk(g.ker, &ks[c].v)?);
                bt.push(mk(Sh(1, 1, 1), &bs.v[c..c + 1])?);
            }
            if let Err(e) = l.fill_from_state(kt, bt, g.img.ts(), g.stride, name) {
                return fail(format!("construction of valid {} refused: {}", self.short(), e));
            }
        }
        Ok(())
    }
    /// Refills an existing layer of the same kind through fill_from_state.
    pub fn refill(&self, l: &Any) -> R {
        match (self, l) {
            (Spec::Fc { .. }, Any::Fc(x)) => self.fill_fc(&mut x.borrow_mut()),
            (Spec::Conv { .. }, Any::Conv(x)) => self.fill_conv(&mut x.borrow_mut()),
            (Spec::Mp { g, name }, Any::Mp(x)) => {
                match x.borrow_mut().fill_from_state(g.img.ts(), g.ker.ts(), g.stride, name) {
                    Ok(()) => Ok(()),
                    Err(e) => fail(format!("refill of {} refused: {}", self.short(), e)),
                }
            }
            (Spec::Sm { sh, name }, Any::Sm(x)) => match x.borrow_mut().fill_from_state(sh.ts(), name) {
                Ok(()) => Ok(()),
                Err(e) => fail(format!("refill of {} refused: {}", self.short(), e)),
            },
            _ => fail("harness: refill kind"),
        }
    }

    // ------------------------------------------------------------ reference

    /// Pre-activation reference (before ReLU) where the layer has one, else the output.
    pub fn pre(&self, x: &Data) -> Rv {
        match self {
            Spec::Fc { n, m, d, w, b, .. } => {
                let mut r = matmul(w, Sh(*m, *n, *d), false, x, Sh(*n, 1, *d), false);
                r.q = mixq(r.q, b.q);
                r.terms += 1;
                for p in 0..r.v.len() {
                    r.add(p, b.v[p] as f64);
                }
                r
            }
            Spec::Conv { g, ks, bs, .. } => {
                let mut r = Rv::zeros(g.out, f64::MAX, g.ker.n() + 1);
                let plane = g.out.0 as usize * g.out.1 as usize;
                for c in 0..g.out.2 as usize {
                    let one = conv(x, g, &ks[c], bs.v[c], bs.q);
                    r.v[c * plane..(c + 1) * plane].copy_from_slice(&one.v);
                    r.abs[c * plane..(c + 1) * plane].copy_from_slice(&one.abs);
                    r.q = mixq(r.q, one.q);
                }
                r
            }
            Spec::Mp { g, .. } => {
                let mut r = Rv::zeros(g.out, if x.q > 0.0 { x.q } else { 0.0 }, 1);
                for k in 0..g.out.2 {
                    for j in 0..g.out.1 {
                        for i in 0..g.out.0 {
                            r.add(g.out.at(i, j, k), window_max(&x.v, g, i, j, k) as f64);
                        }
                    }
                }
                r
            }
            Spec::Sm { sh, .. } => {
                let p = softmax(&x.v);
                Rv { sh: *sh, abs: p.clone(), v: p, q: 0.0, terms: x.v.len() }
            }
        }
    }

    /// Checks one forward result of this layer against the reference.
    pub fn check_forward(&self, what: &str, x: &Data, y: &Tensor, ctx: &mut Ctx) -> R {
        if x.v.iter().any(|v| !v.is_finite()) {
            ctx.label("skipped: non-finite state");
            return Ok(());
        }
        let r = self.pre(x);
        match self {
            Spec::Fc { .. } | Spec::Conv { .. } => agrees(what, y, &r.relu(), ctx),
            Spec::Mp { .. } => {
                // the maximum is exact whatever the values are
                let d = dump(y);
                if Sh::of(y.get_shape()) != r.sh {
                    return fail(format!("{}: shape {:?}, expected {:?}", what, Sh::of(y.get_shape()), r.sh));
                }
                ctx.compared += d.len() as u64;
                for p in 0..d.len() {
                    if d[p] as f64 != r.v[p] {
                        return fail(format!("{}: at {:?} got {:?}, window maximum is {:?}", what, r.sh.un(p), d[p], r.v[p]));
                    }
                }
                Ok(())
            }
            Spec::Sm { .. } => softmax_close(what, &dump(y), &r.v, ctx),
        }
    }

    /// Reference gradients for input x, actual output y (as computed by the
    /// code under test and checked separately) and incoming gradient g.
    /// Returns (dx, parameter gradients). None for dx: not a unique value (max pool ties).
    pub fn grads(&self, x: &Data, y: &[f32], g: &Data) -> (Option<Rv>, Vec<Rv>) {
        match self {
            Spec::Fc { n, m, d, w, .. } => {
                let mg = mask(g, y);
                let (wsh, xsh, ysh) = (Sh(*m, *n, *d), Sh(*n, 1, *d), Sh(*m, 1, *d));
                let dx = matmul(w, wsh, true, &mg, ysh, false);
                let dw = matmul(&mg, ysh, false, x, xsh, true);
                let mut db = Rv::zeros(ysh, mg.q, 1);
                for p in 0..mg.v.len() {
                    db.add(p, mg.v[p] as f64);
                }
                (Some(dx), vec![dw, db])
            }
            Spec::Conv { g: geo, ks, .. } => {
                let mg = mask(g, y);
                let dx = conv_adj_image(&mg, geo, ks);
                let mut ps = Vec::new();
                let plane = geo.out.0 as usize * geo.out.1 as usize;
                for c in 0..geo.out.2 {
                    ps.push(conv_adj_kernel(&mg, geo, x, c));
                }
                for c in 0..geo.out.2 as usize {
                    let mut b = Rv::zeros(Sh(1, 1, 1), mg.q, plane);
                    for p in 0..plane {
                        b.add(0, mg.v[c * plane + p] as f64);
                    }
                    ps.push(b);
                }
                (Some(dx), ps)
            }
            Spec::Mp { .. } => (None, vec![]),
            Spec::Sm { sh, .. } => {
                let dot: f64 = y.iter().zip(&g.v).map(|(a, b)| *a as f64 * *b as f64).sum();
                let dabs: f64 = y.iter().zip(&g.v).map(|(a, b)| (*a as f64 * *b as f64).abs()).sum();
                let mut r = Rv::zeros(*sh, 0.0, y.len() + 4);
                for p in 0..y.len() {
                    r.v[p] = y[p] as f64 * (g.v[p] as f64 - dot);
                    r.abs[p] = y[p] as f64 * ((g.v[p] as f64).abs() + dabs);
                }
                (Some(r), vec![])
            }
        }
    }

    /// Checks the gradient a layer passed back.
    pub fn check_dx(&self, what: &str, x: &Data, y: &[f32], g: &Data, dx: &Tensor, ctx: &mut Ctx) -> R {
        if let Spec::Mp { g: geo, .. } = self {
            return pool_routing(what, geo, x, g, dx, ctx);
        }
        match self.grads(x, y, g).0 {
            Some(r) => agrees(what, dx, &r, ctx),
            None => Ok(()),
        }
    }
}

pub fn mask(g: &Data, y: &[f32]) -> Data {
    Data { v: g.v.iter().zip(y).map(|(a, b)| if *b > 0.0 { *a } else { 0.0 }).collect(), q: g.q, kind: g.kind }
}

pub fn softmax_close(what: &str, d: &[f32], p: &[f64], ctx: &mut Ctx) -> R {
    if d.len() != p.len() {
        return fail(format!("{}: {} values, expected {}", what, d.len(), p.len()));
    }
    ctx.compared += d.len() as u64;
    let n = d.len() as f64;
    for i in 0..d.len() {
        let tol = p[i] * (1e-4 + 1e-6 * n) + 1e-37;
        if !(d[i].is_finite() && (d[i] as f64 - p[i]).abs() <= tol) {
            return fail(format!("{}: element {} is {:?}, softmax is {:e}", what, i, d[i], p[i]));
        }
    }
    Ok(())
}

/// Is `dx` obtainable by giving every incoming element to one element of its
/// window that attains the maximum?  Decided exactly where windows have a
/// unique maximum; windows with ties are assigned by bounded search over
/// dyadic data, or else only necessary conditions are checked.
pub fn pool_routing(what: &str, geo: &Geo, x: &Data, g: &Data, dx: &Tensor, ctx: &mut Ctx) -> R {
    if Sh::of(dx.get_shape()) != geo.img {
        return fail(format!("{}: gradient has shape {:?}, expected {:?}", what, Sh::of(dx.get_shape()), geo.img));
    }
    if x.v.iter().any(|v| v.is_nan()) {
        return Ok(());
    }
    let d = dump(dx);
    let n = geo.img.n();
    let mut fixed = Rv::zeros(geo.img, g.q, geo.ker.0 as usize * geo.ker.1 as usize);
    let mut open: Vec<(f64, Vec<usize>)> = Vec::new();
    for k in 0..geo.out.2 {
        for j in 0..geo.out.1 {
            for i in 0..geo.out.0 {
                let m = window_max(&x.v, geo, i, j, k);
                let gv = g.v[geo.out.at(i, j, k)] as f64;
                let mut c = Vec::new();
                for kj in 0..geo.ker.1 {
                    for ki in 0..geo.ker.0 {
                        let p = geo.img.at(i * geo.stride + ki, j * geo.stride + kj, k);
                        if x.v[p] == m {
                            c.push(p);
                        }
                    }
                }
                if c.len() == 1 {
                    fixed.add(c[0], gv);
                } else if gv != 0.0 {
                    open.push((gv, c));
                }
            }
        }
    }
    if fixed.may_overflow() || open.iter().any(|(v, _)| v.abs() > 1e35) {
        ctx.label("skipped: may overflow");
        return Ok(());
    }
    ctx.compared += n as u64;
    ctx.label_if(!open.is_empty(), "tied windows");
    // scale of rounding per element
    let exact = fixed.is_exact() && open.iter().map(|(v, _)| v.abs()).sum::<f64>() < g.q * 1e6;
    let mut tol = vec![0.0f64; n];
    if !exact {
        let mut abs = fixed.abs.clone();
        for (v, c) in &open {
            for p in c {
                abs[*p] += v.abs();
            }
        }
        for p in 0..n {
            tol[p] = abs[p] * 3e-6 + 1e-44;
        }
    }
    // residual to be explained by the tied windows
    let mut rest: Vec<f64> = (0..n).map(|p| d[p] as f64 - fixed.v[p]).collect();
    if let Some(p) = (0..n).find(|p| !rest[*p].is_finite()) {
        return fail(format!("{}: element {:?} is {:?}", what, geo.img.un(p), d[p]));
    }
    let mut may = vec![false; n];
    for (_, c) in &open {
        for p in c {
            may[*p] = true;
        }
    }
    for p in 0..n {
        if !may[p] && rest[p].abs() > tol[p] {
            return fail(format!(
                "{}: element {:?} of {:?} received {:?}, expected {:?} (windows it wins: value {:?})",
                what,
                geo.img.un(p),
                geo.img,
                d[p],
                fixed.v[p],
                x.v[p]
            ));
        }
    }
    // conserved per slice
    let plane = geo.img.0 as usize * geo.img.1 as usize;
    let oplane = geo.out.0 as usize * geo.out.1 as usize;
    for k in 0..geo.img.2 as usize {
        let a: f64 = d[k * plane..(k + 1) * plane].iter().map(|v| *v as f64).sum();
        let b: f64 = g.v[k * oplane..(k + 1) * oplane].iter().map(|v| *v as f64).sum();
        let ab: f64 = g.v[k * oplane..(k + 1) * oplane].iter().map(|v| (*v as f64).abs()).sum();
        let t = if exact { 0.0 } else { ab * 1e-5 + 1e-43 };
        if (a - b).abs() > t {
            return fail(format!("{}: slice {} received {:?} in total, incoming total is {:?}", what, k, a, b));
        }
    }
    if open.is_empty() || !exact {
        return Ok(());
    }
    if open.len() > 3000 {
        ctx.label("tie search left out");
        return Ok(());
    }
    // exact assignment search: windows with ties, each to one candidate
    open.sort_by(|a, b| a.1.len().cmp(&b.1.len()));
    let mut last = vec![usize::MAX; n]; // last window that may touch an element
    for (w, (_, c)) in open.iter().enumerate() {
        for p in c {
            last[*p] = w;
        }
    }
    let mut budget = 20_000u32;
    match assign(&open, 0, &mut rest, &last, &mut budget) {
        Some(true) => Ok(()),
        Some(false) => fail(format!(
            "{}: no choice of maximising elements explains the gradient {} for input {} (geometry {:?}, incoming {})",
            what,
            small(&d),
            small(&x.v),
            geo,
            small(&g.v)
        )),
        None => {
            ctx.label("tie search cut off");
            Ok(())
        }
    }
}

fn assign(open: &[(f64, Vec<usize>)], w: usize, rest: &mut Vec<f64>, last: &[usize], budget: &mut u32) -> Option<bool> {
    if w == open.len() {
        return Some(true);
    }
    let (v, c) = &open[w];
    let cost = 1 + c.len() as u32 / 64;
    if *budget < cost {
        return None;
    }
    *budget -= cost;
    let mut cut = false;
    // elements no later window touches must be explained now
    let due = |p: usize, rest: &[f64]| (last[p] == w && rest[p] != 0.0) as usize;
    let open_now: usize = c.iter().map(|p| due(*p, rest)).sum();
    for p in c {
        let before = due(*p, rest);
        rest[*p] -= v;
        let ok = open_now - before + due(*p, rest) == 0;
        let r = if ok { assign(open, w + 1, rest, last, budget) } else { Some(false) };
        rest[*p] += v;
        match r {
            Some(true) => return Some(true),
            None => cut = true,
            _ => {}
        }
    }
    if cut { None } else { Some(false) }
}

// ---------------------------------------------------------------- built layers

#[derive(Clone)]
pub enum Any {
    Fc(Rc<RefCell<FullyConnectedLayer>>),
    Conv(Rc<RefCell<ConvolutionalLayer>>),
    Mp(Rc<RefCell<MaxPoolLayer>>),
    Sm(Rc<RefCell<SoftmaxLayer>>),
}

macro_rules! each {
    ($s:expr, $l:ident => $e:expr) => {
        match $s {
            Any::Fc($l) => $e,
            Any::Conv($l) => $e,
            Any::Mp($l) => $e,
            Any::Sm($l) => $e,
        }
    };
}

impl Any {
    pub fn forward(&self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> {
        each!(self, l => l.borrow_mut().forward(x, y))
    }
    pub fn backward(&self, x: &Tensor, y: &Tensor, g: &Tensor, dx: &mut Tensor) -> Result<(), &'static str> {
        each!(self, l => l.borrow_mut().backward(x, y, g, dx))
    }
    pub fn clear(&self) {
        each!(self, l => l.borrow_mut().clear_gradients())
    }
    pub fn training(&self) {
        each!(self, l => l.borrow_mut().switch_to_training())
    }
    pub fn inference(&self) {
        each!(self, l => l.borrow_mut().switch_to_inference())
    }
    pub fn set_mode(&self, train: bool) {
        if train { self.training() } else { self.inference() }
    }
    pub fn mode(&self) -> NetworkRunState {
        each!(self, l => l.borrow().get_run_mode())
    }
    pub fn ish(&self) -> Sh {
        Sh::of(each!(self, l => l.borrow().get_input_shape()))
    }
    pub fn osh(&self) -> Sh {
        Sh::of(each!(self, l => l.borrow().get_output_shape()))
    }
    pub fn name(&self) -> String {
        each!(self, l => l.borrow().get_name())
    }
    pub fn ser(&self) -> SerializedLayer {
        each!(self, l => l.borrow().get_serialized())
    }
    pub fn load(&self, s: &SerializedLayer) -> Result<(), &'static str> {
        each!(self, l => l.borrow_mut().load_from_serialized(s))
    }
    pub fn empty(kind: usize) -> Any {
        match kind {
            0 => Any::Fc(Rc::new(RefCell::new(FullyConnectedLayer::empty()))),
            1 => Any::Conv(Rc::new(RefCell::new(ConvolutionalLayer::empty()))),
            2 => Any::Mp(Rc::new(RefCell::new(MaxPoolLayer::empty()))),
            _ => Any::Sm(Rc::new(RefCell::new(SoftmaxLayer::empty()))),
        }
    }
    /// The accumulated parameter gradients (weights then biases), through the
    /// guarded hook; None when the hook is not compiled in or there are none.
    pub fn params_grad(&self) -> Option<Vec<Tensor>> {
        #[cfg(verif_hooks)]
        {
            match self {
                Any::Fc(l) => {
                    let l = l.borrow();
                    let (w, b) = l.verif_gradients();
                    Some(vec![w.clone(), b.clone()])
                }
                Any::Conv(l) => {
                    let l = l.borrow();
                    let (k, b) = l.verif_gradients();
                    Some(k.iter().chain(b.iter()).cloned().collect())
                }
                _ => None,
            }
        }
        #[cfg(not(verif_hooks))]
        {
            None
        }
    }
}

pub const HOOKS: bool = cfg!(verif_hooks);

pub fn same_serialized(a: &SerializedLayer, b: &SerializedLayer) -> bool {
    use SerializedLayer::*;
    match (a, b) {
        (SerialFullyConnectedLayer(x), SerialFullyConnectedLayer(y)) => x == y,
        (SerialConvolutionalLayer(x), SerialConvolutionalLayer(y)) => x == y,
        (SerialMaxPoolLayer(x), SerialMaxPoolLayer(y)) => x == y,
        (SerialSoftMaxLayer(x), SerialSoftMaxLayer(y)) => x == y,
        _ => false,
    }
}

/// What a layer was called with inside a network, in order.
#[derive(Clone)]
pub enum Event {
    Forward { id: usize, x: Tensor, y: Tensor, ok: bool },
    Backward { id: usize, x: Tensor, y: Tensor, g: Tensor, dx: Tensor, ok: bool },
}

/// A real layer handed to a network, with a record of the calls it receives.
pub struct Probe {
    pub inner: Any,
    pub id: usize,
    pub log: Option<Rc<RefCell<Vec<Event>>>>,
    pub fault: Rc<Cell<Fault>>,
}

/// How a recording layer fails, once or until it is told otherwise.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// Fails before touching its output.
    Forward,
    /// Leaves garbage in its output and fails.
    ForwardDirty,
    Backward,
    BackwardDirty,
}

impl Layer for Probe {
    fn forward(&mut self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> {
        let r = match self.fault.get() {
            Fault::Forward => Err("planned failure in forward"),
            Fault::ForwardDirty => {
                y.fill_with_value(f32::NAN);
                Err("planned failure in forward")
            }
            _ => self.inner.forward(x, y),
        };
        if let Some(l) = &self.log {
            l.borrow_mut().push(Event::Forward { id: self.id, x: x.clone(), y: y.clone(), ok: r.is_ok() });
        }
        r
    }
    fn backward(&mut self, x: &Tensor, y: &Tensor, g: &Tensor, dx: &mut Tensor) -> Result<(), &'static str> {
        let r = match self.fault.get() {
            Fault::Backward => Err("planned failure in backward"),
            Fault::BackwardDirty => {
                dx.fill_with_value(f32::NAN);
                Err("planned failure in backward")
            }
            _ => self.inner.backward(x, y, g, dx),
        };
        if let Some(l) = &self.log {
            l.borrow_mut().push(Event::Backward {
                id: self.id,
                x: x.clone(),
                y: y.clone(),
                g: g.clone(),
                dx: dx.clone(),
                ok: r.is_ok(),
            });
        }
        r
    }
    fn clear_gradients(&mut self) {
        self.inner.clear()
    }
    fn switch_to_training(&mut self) {
        self.inner.training()
    }
    fn switch_to_inference(&mut self) {
        self.inner.inference()
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.inner.mode()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.inner.ish().ts()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.inner.osh().ts()
    }
    fn get_name(&self) -> String {
        self.inner.name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.inner.ser()
    }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
        self.inner.load(s)
    }
}

// ---------------------------------------------------------------- generators of specs

/// A layer of the given kind with its own free geometry.
pub fn spec(s: &mut Src, kind: usize, exactly: bool) -> Spec {
    match kind {
        0 => {
            let d = if s.chance(1, 10) { s.u(1, 3) } else { 1 };
            if s.huge && s.chance(3, 4) {
                let (n, m) = [(66_000, 1), (1, 66_000), (258, 259), (3, 22_000), (30_000, 3)][s.below(5)];
                return fc(s, n, m, 1, exactly);
            }
            let (n, m) = if s.long { (s.u(1, 3), s.u(1, 3)) } else if s.chance(1, 14) { (dim(s, 300), dim(s, 300)) } else { (s.u(1, 7), s.u(1, 7)) };
            fc(s, n, m, d, exactly)
        }
        1 => {
            let g = geo(s, false);
            conv_spec(s, g, exactly)
        }
        2 => {
            let g = geo(s, true);
            Spec::Mp { g, name: name(s) }
        }
        _ => {
            let sh = match if s.huge { 2 } else if s.long { 1 } else { s.weighted(&[4, 4, 1]) } {
                0 => Sh(dim(s, 40), 1, 1),
                1 => Sh(s.u(1, 4), s.u(1, 4), s.u(1, 3)),
                _ => shape(s, 1200),
            };
            Spec::Sm { sh, name: name(s) }
        }
    }
}

pub fn fc(s: &mut Src, n: u32, m: u32, d: u32, exactly: bool) -> Spec {
    let w = wdata(s, (n * m * d) as usize, exactly);
    let b = wdata(s, (m * d) as usize, exactly);
    Spec::Fc { n, m, d, w, b, name: name(s) }
}

pub fn conv_spec(s: &mut Src, g: Geo, exactly: bool) -> Spec {
    let ks = (0..g.out.2).map(|_| wdata(s, g.ker.n(), exactly)).collect();
    let bs = wdata(s, g.out.2 as usize, exactly);
    Spec::Conv { g, ks, bs, name: name(s) }
}

/// A layer that accepts inputs of shape `ish`.
pub fn spec_on(s: &mut Src, ish: Sh, exactly: bool, allow_softmax: bool) -> Spec {
    let fc_ok = ish.1 == 1 && ish.2 == 1;
    let w: [u64; 4] = [if fc_ok { 6 } else { 0 }, 5, 3, if allow_softmax { 2 } else { 0 }];
    match s.weighted(&w) {
        0 => {
            let m = if s.chance(1, 10) { dim(s, 30) } else { s.u(1, 6) };
            fc(s, ish.0, m, 1, exactly)
        }
        3 => Spec::Sm { sh: ish, name: name(s) },
        k => {
            let flat = k == 1 && ish.2 * ish.1 > 1 && s.chance(1, 3);
            // choose windows that step exactly across
            let pick = |s: &mut Src, e: u32, st: u32| -> u32 {
                let opts: Vec<u32> = (1..=e.min(6)).filter(|w| (e - w) % st == 0).collect();
                if opts.is_empty() || s.chance(1, 10) {
                    // always possible: a window that leaves a multiple of the stride
                    let r = e % st;
                    if r == 0 { st.min(e) } else { r }
                } else {
                    opts[s.below(opts.len())]
                }
            };
            let st = if s.chance(1, 2) { 1 } else { s.u(1, 3) };
            let k0 = pick(s, ish.0, st);
            let k1 = if flat { ish.1 } else { pick(s, ish.1, st) };
            let o0 = (ish.0 - k0) / st + 1;
            let o1 = (ish.1 - k1) / st + 1;
            if k == 1 {
                let c = if flat { 1 } else { s.u(1, 3) };
                let g = Geo { img: ish, ker: Sh(k0, k1, ish.2), stride: st, out: Sh(o0, o1, c) };
                conv_spec(s, g, exactly)
            } else {
                let g = Geo { img: ish, ker: Sh(k0, k1, 1), stride: st, out: Sh(o0, o1, ish.2) };
                Spec::Mp { g, name: name(s) }
            }
        }
    }
}

/// A very small layer with small whole parameters: 65536 times its results
/// can be summed exactly.
pub fn tiny(s: &mut Src, kind: usize) -> Spec {
    let w = |s: &mut Src, n: usize| Data { v: expand(s, n, |x| zz(x) as f32, 4), q: 1.0, kind: "ints" };
    let name = format!("layer {}", s.below(10));
    match kind {
        0 => {
            let (n, m, d) = (s.u(1, 2), s.u(1, 2), s.u(1, 2));
            Spec::Fc { n, m, d, w: w(s, (n * m * d) as usize), b: w(s, (m * d) as usize), name }
        }
        3 => Spec::Sm { sh: Sh(s.u(1, 3), 1, s.u(1, 2)), name },
        _ => {
            let (st, k, o) = (s.u(1, 2), (s.u(1, 2), s.u(1, 2)), (s.u(1, 2), s.u(1, 2)));
            let (d, c) = (s.u(1, 2), s.u(1, 2));
            if kind == 2 {
                Spec::Mp { g: fitting(st, k, o, d, 1, true, 1), name }
            } else {
                let g = fitting(st, k, o, d, c, false, 1);
                Spec::Conv { g, ks: (0..g.out.2).map(|_| w(s, g.ker.n())).collect(), bs: w(s, g.out.2 as usize), name }
            }
        }
    }
}

/// The same kind and geometry with other values.
pub fn twin(s: &mut Src, sp: &Spec, exactly: bool) -> Spec {
    match sp {
        Spec::Fc { n, m, d, .. } => fc(s, *n, *m, *d, exactly),
        Spec::Conv { g, .. } => conv_spec(s, *g, exactly),
        Spec::Mp { g, .. } => Spec::Mp { g: *g, name: name(s) },
        Spec::Sm { sh, .. } => Spec::Sm { sh: *sh, name: name(s) },
    }
}

/// A stack of layers whose shapes chain.
pub fn stack(s: &mut Src, max: usize, exactly: bool, allow_softmax: bool) -> Vec<Spec> {
    if s.huge {
        let mut sh = match s.below(4) {
            0 => return vec![spec(s, 0, exactly)],
            1 => huge_shape(s),
            2 => Sh(257 + s.u(0, 20), 257 + s.u(0, 20), 1),
            _ => Sh(41 + s.u(0, 5), 41 + s.u(0, 5), 41 + s.u(0, 5)),
        };
        let mut v = Vec::new();
        for _ in 0..1 + s.below(max.min(3)) {
            let l = spec_on(s, sh, exactly, allow_softmax);
            sh = l.osh();
            v.push(l);
        }
        return v;
    }
    let n = if s.long {
        // deep networks, too
        if s.chance(1, 4) { if s.chance(1, 2) { 256 + s.below(30) } else { 30 + s.below(230) } } else { 1 + s.below(2) }
    } else if s.chance(1, 30) {
        1 + s.below(max * 4)
    } else {
        1 + s.below(max)
    };
    let mut sh = match if s.long { 2 } else { s.weighted(&[4, 4, 2]) } {
        2 if s.long => Sh(s.u(1, 3), s.u(1, 3), s.u(1, 2)),
        0 => Sh(s.u(1, 8), 1, 1),
        1 => Sh(s.u(2, 9), s.u(2, 9), s.u(1, 3)),
        _ => Sh(s.u(1, 9), s.u(1, 9), s.u(1, 2)),
    };
    let mut v: Vec<Spec> = Vec::new();
    for _ in 0..n {
        let l = spec_on(s, sh, exactly, allow_softmax);
        sh = l.osh();
        v.push(l);
    }
    v
}

/// Input values for a layer.
pub fn input(s: &mut Src, n: usize, exactly: bool) -> Data {
    if exactly || s.chance(2, 3) {
        match s.weighted(&[5, 2, 1]) {
            0 => Data { v: expand(s, n, |x| zz(x) as f32, 8), q: 1.0, kind: "ints" },
            1 => Data { v: expand(s, n, |x| zz(x) as f32 / 2.0, 16), q: 0.5, kind: "halves" },
            _ => exact(s, n),
        }
    } else if s.chance(1, 2) {
        grad(s, n, false)
    } else {
        real(s, n)
    }
}

/// The quantum of values computed from dyadic data by a layer.
pub fn state_data(spec: &Spec, x: &Data, y: &Tensor) -> Data {
    let v = dump(y);
    let q = match spec {
        Spec::Sm { .. } => 0.0,
        _ => {
            let r = spec.pre(x);
            if r.is_exact() { r.q } else { 0.0 }
        }
    };
    Data { v, q, kind: "state" }
}
