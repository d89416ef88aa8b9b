//! Generators for shapes, values and tensors, and access to tensors through
//! the public interface only.

use crate::engine::{fail, splitmix, Ctx, Fail, Src, R};
use rusty_network::tensor::helper::{TensorIndex, TensorShape};
use rusty_network::tensor::Tensor;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Sh(pub u32, pub u32, pub u32);

impl Sh {
    pub fn ts(self) -> TensorShape {
        TensorShape { di: self.0, dj: self.1, dk: self.2 }
    }
    pub fn of(s: TensorShape) -> Sh {
        Sh(s.di, s.dj, s.dk)
    }
    pub fn n(self) -> usize {
        self.0 as usize * self.1 as usize * self.2 as usize
    }
    pub fn at(self, i: u32, j: u32, k: u32) -> usize {
        i as usize + self.0 as usize * (j as usize + self.1 as usize * k as usize)
    }
    pub fn un(self, f: usize) -> (u32, u32, u32) {
        let i = f % self.0 as usize;
        let r = f / self.0 as usize;
        (i as u32, (r % self.1 as usize) as u32, (r / self.1 as usize) as u32)
    }
    pub fn distinct_dims(self) -> bool {
        self.0 != self.1 && self.1 != self.2 && self.0 != self.2
    }
}

pub const EDGE: [u32; 16] = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256];

/// One extent, at least 1; mostly small, sometimes around powers of two.
pub fn dim(s: &mut Src, max: u32) -> u32 {
    let d = match s.weighted(&[50, 32, 12, 6]) {
        0 => s.u(1, 4),
        1 => s.u(1, 8),
        2 => s.u(1, 17),
        _ => EDGE[s.below(EDGE.len())],
    };
    d.min(max).max(1)
}

/// A shape of more than 65536 elements.
/// Small integers among which some are infinite or not a number.
pub fn special(s: &mut Src, n: usize) -> Data {
    let kinds: &[u64] = [&[12, 1, 1, 1, 2][..], &[12, 1, 0, 0, 2], &[12, 1, 1, 0, 2], &[12, 0, 0, 1, 2]][s.below(4)];
    let v = (0..n)
        .map(|_| match s.weighted(kinds) {
            0 => s.range(-4, 4) as f32,
            1 => f32::INFINITY,
            2 => f32::NEG_INFINITY,
            3 => f32::NAN,
            _ => -0.0,
        })
        .collect();
    Data { v, q: 0.0, kind: "special" }
}

/// Whether results with infinities among the operands are what IEEE arithmetic prescribes in any order of summation.
pub fn special_agrees(what: &str, got: &[f32], want: &[f64], relu: bool) -> R {
    for p in 0..want.len() {
        let (g, w) = (got[p] as f64, want[p]);
        if w.is_nan() {
            // what ReLU makes of not-a-number is left open
            if !relu && !g.is_nan() {
                return fail(format!("{}: element {} is {}, the definition yields not-a-number", what, p, got[p]));
            }
            continue;
        }
        let w = if relu { w.max(0.0) } else { w };
        if g != w {
            return fail(format!("{}: element {} is {}, the definition yields {}", what, p, got[p], w));
        }
    }
    Ok(())
}

pub fn huge_shape(s: &mut Src) -> Sh {
    let n = if s.chance(1, 30) { (1 << 20) + s.u(1, 2_000) } else { 65_537 + s.u(0, 2_000) };
    match s.below(6) {
        0 => Sh(n, 1, 1),
        1 => Sh(1, n, 1),
        2 => Sh(1, 1, n),
        3 => Sh(257 + s.u(0, 20), 257 + s.u(0, 20), 1),
        4 => Sh(41 + s.u(0, 5), 41 + s.u(0, 5), 41 + s.u(0, 5)),
        _ => {
            let a = s.u(2, 9);
            let b = n / a + 1;
            [Sh(a, b, 1), Sh(b, 1, a), Sh(1, a, b)][s.below(3)]
        }
    }
}

pub fn shape(s: &mut Src, max_total: usize) -> Sh {
    if s.huge && s.chance(3, 4) {
        return huge_shape(s);
    }
    let max_total = if s.big > 0 { max_total * 4 } else { max_total };
    match s.weighted(&[70, 10, 10, 10]) {
        0 => {
            let a = dim(s, max_total as u32);
            let b = dim(s, (max_total / a as usize).max(1) as u32);
            let c = dim(s, (max_total / (a as usize * b as usize)).max(1) as u32);
            Sh(a, b, c)
        }
        1 => Sh(dim(s, max_total as u32), 1, 1),
        // a large extent in one direction
        2 => {
            let big = s.u(50, 1100).min(max_total as u32 / 2).max(1);
            let o = s.u(1, ((max_total as u32 / big).max(1)).min(3));
            match s.below(3) {
                0 => Sh(big, o, 1),
                1 => Sh(o, big, 1),
                _ => Sh(1, o, big),
            }
        }
        // exactly distinct extents
        _ => {
            let a = s.u(1, 5);
            let b = a + s.u(1, 4);
            let c = b + s.u(1, 4);
            let p = [(a, b, c), (a, c, b), (b, a, c), (b, c, a), (c, a, b), (c, b, a)][s.below(6)];
            let r = Sh(p.0, p.1, p.2);
            if r.n() <= max_total {
                r
            } else {
                Sh(p.0.min(3), p.1.min(3), 2)
            }
        }
    }
}

/// Values with the quantum they are multiples of (0 when they are not dyadic).
#[derive(Clone, Debug)]
pub struct Data {
    pub v: Vec<f32>,
    pub q: f64,
    pub kind: &'static str,
}

pub fn expand<T>(s: &mut Src, n: usize, mut f: impl FnMut(u64) -> T, max: u64) -> Vec<T> {
    if n <= 48 {
        (0..n).map(|_| { let x = s.upto(max); f(x) }).collect()
    } else {
        // one recorded choice, expanded deterministically
        let mut st = s.upto(u64::MAX);
        (0..n)
            .map(|_| {
                let r = splitmix(&mut st);
                f(if max == u64::MAX { r } else { ((r as u128 * (max as u128 + 1)) >> 64) as u64 })
            })
            .collect()
    }
}

/// Zig-zag: 0, 1, -1, 2, -2, ...
pub fn zz(x: u64) -> i64 {
    if x % 2 == 1 { (x as i64 + 1) / 2 } else { -(x as i64 / 2) }
}

/// Small dyadic values: every sum of products of them is exact as long as it
/// stays below 2^24 quanta.
pub fn exact(s: &mut Src, n: usize) -> Data {
    match s.weighted(&[45, 20, 15, 10, 10]) {
        0 => Data { v: expand(s, n, |x| zz(x) as f32, 16), q: 1.0, kind: "ints" },
        1 => Data { v: expand(s, n, |x| zz(x) as f32 / 4.0, 64), q: 0.25, kind: "quarters" },
        2 => Data {
            v: expand(s, n, |x| [0.0, 1.0, -1.0, 2.0, -3.0][x.saturating_sub(12) as usize], 16),
            q: 1.0,
            kind: "sparse",
        },
        3 => Data { v: (0..n).map(|i| i as f32 + 1.0).collect(), q: 1.0, kind: "ramp" },
        _ => {
            let c = zz(s.upto(12)) as f32;
            let mut v = vec![c; n];
            if n > 0 && s.chance(1, 2) {
                let at = s.below(n);
                v[at] = c + 5.0;
            }
            Data { v, q: 1.0, kind: "constant" }
        }
    }
}

/// Ordinary real values without structure.
pub fn real(s: &mut Src, n: usize) -> Data {
    match s.weighted(&[60, 20, 20]) {
        0 => Data { v: expand(s, n, |x| (x as f64 / (1u64 << 31) as f64 - 1.0) as f32, u32::MAX as u64), q: 0.0, kind: "unit reals" },
        1 => Data {
            v: expand(
                s,
                n,
                |x| {
                    let m = 1.0 + (x & 0xffff) as f64 / 65536.0;
                    let e = ((x >> 16) % 41) as i32 - 20;
                    let sg = if (x >> 30) & 1 == 1 { -1.0 } else { 1.0 };
                    (sg * m * 2f64.powi(e)) as f32
                },
                u32::MAX as u64,
            ),
            q: 0.0,
            kind: "wide reals",
        },
        _ => Data {
            v: expand(
                s,
                n,
                |x| {
                    let m = 1.0 + (x & 0xffff) as f64 / 65536.0;
                    let e = ((x >> 16) % 101) as i32 - 50;
                    let sg = if (x >> 30) & 1 == 1 { -1.0 } else { 1.0 };
                    (sg * m * 2f64.powi(e)) as f32
                },
                u32::MAX as u64,
            ),
            q: 0.0,
            kind: "huge-range reals",
        },
    }
}

pub fn finite(s: &mut Src, n: usize) -> Data {
    if s.chance(1, 3) { real(s, n) } else { exact(s, n) }
}

/// Incoming gradients: now and then all of a magnitude whose squares underflow or overflow.
pub fn grad(s: &mut Src, n: usize, exactly: bool) -> Data {
    let mut d = if exactly { exact(s, n) } else { finite(s, n) };
    if d.kind != "huge-range reals" && s.rarely(1, 10) {
        let f = 2f64.powi(if s.chance(2, 3) { -80 - s.below(16) as i32 } else { 66 + s.below(16) as i32 });
        d.v.iter_mut().for_each(|x| *x = (*x as f64 * f) as f32);
        d.q *= f;
        d.kind = "tiny or huge";
    }
    d
}

const SPECIAL: [u32; 20] = [
    0x0000_0000, 0x8000_0000, 0x3f80_0000, 0xbf80_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0xffc0_0000,
    0x7f80_0001, 0xff80_0001, 0x7fff_ffff, 0x0000_0001, 0x8000_0001, 0x007f_ffff, 0x0080_0000, 0x7f7f_ffff,
    0xff7f_ffff, 0x3400_0000, 0x4b80_0000, 0x7fa1_2345,
];

/// Any bit pattern, special ones often.
pub fn anybits(s: &mut Src, n: usize) -> Data {
    let mode = s.below(3);
    let v = expand(
        s,
        n,
        |x| {
            let lo = (x & 0xffff_ffff) as u32;
            let hi = (x >> 32) as u32;
            f32::from_bits(match mode {
                0 => SPECIAL[(lo % 20) as usize],
                1 => lo,
                _ => {
                    if hi % 3 == 0 { SPECIAL[(lo % 20) as usize] } else if hi % 3 == 1 { lo } else { (((lo % 17) as f32) - 8.0).to_bits() }
                }
            })
        },
        u64::MAX,
    );
    Data { v, q: 0.0, kind: "bit patterns" }
}

/// Contents a destination may hold beforehand.
pub fn stale(s: &mut Src, n: usize) -> Vec<f32> {
    match s.below(4) {
        0 => vec![0.0; n],
        1 => vec![777.0; n],
        2 => vec![f32::NAN; n],
        _ => anybits(s, n).v,
    }
}

// ---------------------------------------------------------------- tensors

pub fn mk(sh: Sh, v: &[f32]) -> Result<Tensor, Fail> {
    let mut t = Tensor::new(sh.ts());
    match t.fill_with_vec(v.to_vec()) {
        Ok(()) => Ok(t),
        Err(e) => fail(format!("fill_with_vec of {} values into {:?} was refused: {}", v.len(), sh, e)),
    }
}

pub fn dump(t: &Tensor) -> Vec<f32> {
    let sh = Sh::of(t.get_shape());
    let mut out = Vec::with_capacity(sh.n());
    for k in 0..sh.2 {
        for j in 0..sh.1 {
            for i in 0..sh.0 {
                out.push(t.get_item(&TensorIndex { i, j, k }));
            }
        }
    }
    out
}

pub fn same_bits(a: &[f32], b: &[f32]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// Unchanged: same shape, same bits.
pub fn unchanged(what: &str, t: &Tensor, sh: Sh, v: &[f32]) -> R {
    if Sh::of(t.get_shape()) != sh {
        return fail(format!("{} changed its shape from {:?} to {:?}", what, sh, Sh::of(t.get_shape())));
    }
    let d = dump(t);
    for (p, (x, y)) in d.iter().zip(v).enumerate() {
        if x.to_bits() != y.to_bits() {
            return fail(format!("{} was modified at {:?}: {:?} became {:?}", what, sh.un(p), y, x));
        }
    }
    Ok(())
}

pub fn small(v: &[f32]) -> String {
    if v.len() <= 24 {
        format!("{:?}", v)
    } else {
        format!("{:?}.. ({} values)", &v[..24], v.len())
    }
}

// ---------------------------------------------------------------- reference values

/// A reference result: value, sum of absolute terms, quantum (0: not dyadic), number of terms.
#[derive(Clone, Debug)]
pub struct Rv {
    pub sh: Sh,
    pub v: Vec<f64>,
    pub abs: Vec<f64>,
    pub q: f64,
    pub terms: usize,
}

impl Rv {
    pub fn zeros(sh: Sh, q: f64, terms: usize) -> Rv {
        Rv { sh, v: vec![0.0; sh.n()], abs: vec![0.0; sh.n()], q, terms }
    }
    pub fn add(&mut self, p: usize, x: f64) {
        self.v[p] += x;
        self.abs[p] += x.abs();
    }
    pub fn relu(mut self) -> Rv {
        for x in self.v.iter_mut() {
            *x = x.max(0.0);
        }
        self
    }
    pub fn max_abs(&self) -> f64 {
        self.abs.iter().fold(0.0, |a, b| a.max(*b))
    }
    /// Every partial sum, in any order, is exactly representable.
    pub fn is_exact(&self) -> bool {
        self.q > 0.0 && self.max_abs() < self.q * 16_777_216.0 && self.q >= 1e-36
    }
    /// Single precision could overflow on the way.
    pub fn may_overflow(&self) -> bool {
        !(self.max_abs() < 1e37)
    }
    pub fn tol(&self, p: usize) -> f64 {
        if self.is_exact() {
            0.0
        } else {
            2.0 * (self.terms as f64 + 8.0) * 6.0e-8 * self.abs[p] + (self.terms as f64 + 2.0) * 3e-45
        }
    }
}

/// Compares a tensor with a reference, exactly when that is justified.
pub fn agrees(what: &str, t: &Tensor, r: &Rv, ctx: &mut Ctx) -> R {
    if Sh::of(t.get_shape()) != r.sh {
        return fail(format!("{}: shape {:?}, expected {:?}", what, Sh::of(t.get_shape()), r.sh));
    }
    agrees_vec(what, &dump(t), r, ctx)
}

pub fn agrees_vec(what: &str, d: &[f32], r: &Rv, ctx: &mut Ctx) -> R {
    if r.may_overflow() {
        ctx.label("skipped: may overflow");
        return Ok(());
    }
    if d.len() != r.v.len() {
        return fail(format!("{}: {} values, expected {}", what, d.len(), r.v.len()));
    }
    let exact = r.is_exact();
    ctx.label(if exact { "compared exactly" } else { "compared within rounding" });
    ctx.compared += d.len() as u64;
    for p in 0..d.len() {
        let (x, y) = (d[p] as f64, r.v[p]);
        let ok = if exact { x == y } else { (x - y).abs() <= r.tol(p) };
        if !ok {
            return fail(format!(
                "{}: at {:?} of {:?} got {:?}, expected {:?}{}",
                what,
                r.sh.un(p),
                r.sh,
                x,
                y,
                if exact { " exactly".to_string() } else { format!(" within {:e}", r.tol(p)) }
            ));
        }
    }
    Ok(())
}
