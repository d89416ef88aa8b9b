//! Reference models, written from the mathematical definitions in double
//! precision, independently of the code under test.

use crate::gen::*;

/// C[i,j,k] = sum_x A'[i,x,k] B'[x,j,k] with optional transposition of the operands.
pub fn matmul(a: &Data, ash: Sh, ta: bool, b: &Data, bsh: Sh, tb: bool) -> Rv {
    let (m, p) = if ta { (ash.1, ash.0) } else { (ash.0, ash.1) };
    let n = if tb { bsh.0 } else { bsh.1 };
    let sh = Sh(m, n, ash.2);
    let mut r = Rv::zeros(sh, a.q * b.q, p as usize);
    for k in 0..ash.2 {
        for x in 0..p {
            for i in 0..m {
                let av = a.v[if ta { ash.at(x, i, k) } else { ash.at(i, x, k) }] as f64;
                for j in 0..n {
                    let bv = b.v[if tb { bsh.at(j, x, k) } else { bsh.at(x, j, k) }] as f64;
                    r.add(sh.at(i, j, k), av * bv);
                }
            }
        }
    }
    r
}

pub fn mixq(q1: f64, q2: f64) -> f64 {
    // both are powers of two (or 0)
    q1.min(q2)
}

#[derive(Clone, Copy, Debug)]
pub struct Geo {
    pub img: Sh,
    pub ker: Sh,
    pub stride: u32,
    pub out: Sh,
}

/// Correlation of one kernel with an image plus bias; output of one channel, extents (o0,o1,1).
pub fn conv(img: &Data, g: &Geo, ker: &Data, bias: f32, bias_q: f64) -> Rv {
    let osh = Sh(g.out.0, g.out.1, 1);
    let mut r = Rv::zeros(osh, mixq(img.q * ker.q, bias_q), g.ker.n() + 1);
    for kk in 0..g.ker.2 {
        for kj in 0..g.ker.1 {
            for ki in 0..g.ker.0 {
                let w = ker.v[g.ker.at(ki, kj, kk)] as f64;
                for j in 0..g.out.1 {
                    for i in 0..g.out.0 {
                        let x = img.v[g.img.at(i * g.stride + ki, j * g.stride + kj, kk)] as f64;
                        r.add(osh.at(i, j, 0), w * x);
                    }
                }
            }
        }
    }
    for p in 0..osh.n() {
        r.add(p, bias as f64);
    }
    r
}

/// Adjoint with respect to the image: scatter every incoming gradient element.
pub fn conv_adj_image(gr: &Data, g: &Geo, kers: &[Data]) -> Rv {
    let q = kers.iter().fold(1.0, |a: f64, k| mixq(a, k.q));
    let mut r = Rv::zeros(g.img, gr.q * q, g.ker.0 as usize * g.ker.1 as usize * kers.len());
    for c in 0..g.out.2 {
        for j in 0..g.out.1 {
            for i in 0..g.out.0 {
                let gv = gr.v[g.out.at(i, j, c)] as f64;
                for kk in 0..g.ker.2 {
                    for kj in 0..g.ker.1 {
                        for ki in 0..g.ker.0 {
                            let p = g.img.at(i * g.stride + ki, j * g.stride + kj, kk);
                            r.add(p, gv * kers[c as usize].v[g.ker.at(ki, kj, kk)] as f64);
                        }
                    }
                }
            }
        }
    }
    r
}

/// Adjoint with respect to the kernel of channel `c`.
pub fn conv_adj_kernel(gr: &Data, g: &Geo, img: &Data, c: u32) -> Rv {
    let mut r = Rv::zeros(g.ker, gr.q * img.q, g.out.0 as usize * g.out.1 as usize);
    for j in 0..g.out.1 {
        for i in 0..g.out.0 {
            let gv = gr.v[g.out.at(i, j, c)] as f64;
            for kk in 0..g.ker.2 {
                for kj in 0..g.ker.1 {
                    for ki in 0..g.ker.0 {
                        let x = img.v[g.img.at(i * g.stride + ki, j * g.stride + kj, kk)] as f64;
                        r.add(g.ker.at(ki, kj, kk), gv * x);
                    }
                }
            }
        }
    }
    r
}

/// Number of window positions, or None when the window does not step exactly across.
pub fn fits(img: u32, win: u32, stride: u32) -> Option<u32> {
    if stride == 0 || win == 0 || win > img || (img - win) % stride != 0 {
        None
    } else {
        Some((img - win) / stride + 1)
    }
}

pub fn window_max(img: &[f32], g: &Geo, i: u32, j: u32, k: u32) -> f32 {
    let mut m = f32::NEG_INFINITY;
    for kj in 0..g.ker.1 {
        for ki in 0..g.ker.0 {
            let x = img[g.img.at(i * g.stride + ki, j * g.stride + kj, k)];
            if x > m {
                m = x;
            }
        }
    }
    m
}

pub fn in_window(g: &Geo, i: u32, j: u32, k: u32, flat: usize) -> bool {
    if flat >= g.img.n() {
        return false;
    }
    let (a, b, c) = g.img.un(flat);
    c == k
        && a >= i * g.stride
        && a < i * g.stride + g.ker.0
        && b >= j * g.stride
        && b < j * g.stride + g.ker.1
}

pub fn softmax(x: &[f32]) -> Vec<f64> {
    let m = x.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b as f64));
    let e: Vec<f64> = x.iter().map(|v| (*v as f64 - m).exp()).collect();
    let s: f64 = e.iter().sum();
    e.iter().map(|v| v / s).collect()
}
