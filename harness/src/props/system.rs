//! C27-C31: stored format, failing layers, independence of objects, new layers, memory.

use super::files::{path, put};
use super::layerprops::{check_params, mode_of, run_backward, run_forward};
use super::network::{backward_checked, show, Rig};
use crate::engine::*;
use crate::{ensure, large, long};
use crate::gen::*;
use crate::layers::*;
use crate::mem;
use crate::refm::{fits, Geo};
use rusty_network::layer::convolutional::ConvolutionalLayer;
use rusty_network::layer::fully_connected::FullyConnectedLayer;
use rusty_network::layer::max_pool::MaxPoolLayer;
use rusty_network::layer::softmax::SoftmaxLayer;
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::operations::convolution::*;
use rusty_network::tensor::Tensor;
use std::cell::RefCell;
use std::rc::Rc;

// ---------------------------------------------------------------- C27

pub fn c27() -> Property {
    Property {
        id: "C27",
        rule: "Tensors of any shape and bit patterns and networks of 0-5 layers of all kinds with generated parameters and names. What the library writes is compared with an \
               encoder written by hand from the original release's layout (fields of a layer in any order), and files of that encoder, with the fields in generated orders, are loaded \
               and compared with what they describe. Non-trivial: more than one element, or at least one layer with parameters.",
        assumptions: &["the file system keeps what was written"],
        facets: vec![
            Facet { name: "tensor", quick: 250_000, thorough: 3_000_000, run: c27_tensor },
            Facet { name: "network", quick: 130_000, thorough: 1_560_000, run: c27_network },
            Facet { name: "tensor, large", quick: 240, thorough: 2_880, run: large!(c27_tensor) },
            Facet { name: "network, large", quick: 80, thorough: 960, run: large!(c27_network) },
            Facet { name: "network, long", quick: 120, thorough: 1_440, run: long!(c27_network) },
        ],
    }
}

fn e32(out: &mut Vec<u8>, v: u32) {
    out.extend(v.to_le_bytes());
}

fn e64(out: &mut Vec<u8>, v: usize) {
    out.extend((v as u64).to_le_bytes());
}

fn enc_shape(sh: Sh) -> Vec<u8> {
    let mut o = Vec::new();
    [sh.0, sh.1, sh.2].iter().for_each(|v| e32(&mut o, *v));
    o
}

fn enc_tensor(sh: Sh, v: &[f32]) -> Vec<u8> {
    let mut o = Vec::new();
    e32(&mut o, 1);
    e32(&mut o, sh.0);
    e32(&mut o, sh.0 * sh.1);
    o.extend(enc_shape(sh));
    e64(&mut o, v.len());
    v.iter().for_each(|x| e32(&mut o, x.to_bits()));
    o
}

fn enc_str(n: &str) -> Vec<u8> {
    let mut o = Vec::new();
    e64(&mut o, n.len());
    o.extend(n.as_bytes());
    o
}

fn enc_u32(v: u32) -> Vec<u8> {
    v.to_le_bytes().to_vec()
}

/// Kind tag and the numbered fields of a stored layer.
fn enc_layer(sp: &Spec) -> (u32, Vec<Vec<u8>>) {
    match sp {
        Spec::Conv { g, ks, bs, name } => {
            let (mut a, mut b) = (Vec::new(), Vec::new());
            e64(&mut a, ks.len());
            ks.iter().for_each(|k| a.extend(enc_tensor(g.ker, &k.v)));
            e64(&mut b, bs.v.len());
            bs.v.iter().for_each(|k| b.extend(enc_tensor(Sh(1, 1, 1), &[*k])));
            (0, vec![a, b, enc_shape(g.img), enc_u32(g.stride), enc_str(name)])
        }
        Spec::Fc { n, m, d, w, b, name } => (1, vec![enc_tensor(Sh(*m, *n, *d), &w.v), enc_tensor(Sh(*m, 1, *d), &b.v), enc_str(name)]),
        Spec::Mp { g, name } => (2, vec![enc_shape(g.img), enc_shape(g.ker), enc_u32(g.stride), enc_str(name)]),
        Spec::Sm { sh, name } => (3, vec![enc_shape(*sh), enc_str(name)]),
    }
}

struct Cursor<'a>(&'a [u8]);

impl<'a> Cursor<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if n > self.0.len() {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_le_bytes(b.try_into().unwrap()))
    }
    fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|b| u64::from_le_bytes(b.try_into().unwrap()))
    }
}

/// Kind tag and fields by number; None where the bytes are not of the format.
type Stored = Vec<(u32, std::collections::BTreeMap<u32, Vec<u8>>)>;

fn dec_network(b: &[u8]) -> Option<Stored> {
    let mut c = Cursor(b);
    let mut v = Vec::new();
    for _ in 0..c.u64()? {
        let tag = c.u32()?;
        let mut m = std::collections::BTreeMap::new();
        for _ in 0..c.u64()? {
            let key = c.u32()?;
            let n = c.u64()? as usize;
            if m.insert(key, c.take(n)?.to_vec()).is_some() {
                return None;
            }
        }
        v.push((tag, m));
    }
    if c.0.is_empty() { Some(v) } else { None }
}

fn c27_tensor(s: &mut Src, ctx: &mut Ctx) -> R {
    let sh = shape(s, if s.big > 0 { 2000 } else { 200 });
    let d = if s.chance(1, 3) { exact(s, sh.n()) } else { anybits(s, sh.n()) };
    ctx.nontrivial = sh.n() > 1;
    ctx.label_if(sh.distinct_dims(), "three different extents");
    ctx.note(|| format!("{:?} {}", sh, small(&d.v)));
    let want = enc_tensor(sh, &d.v);
    let t = mk(sh, &d.v)?;
    let f = path("format.bin");
    if let Err(e) = t.save_to_file(&f) {
        return fail(format!("saving {:?} failed: {}", sh, e));
    }
    let got = std::fs::read(&f).expect("harness: scratch file");
    ctx.compared += 2 * want.len() as u64;
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return fail(format!("the file of tensor {:?} ({} bytes) is not of the established format ({} bytes): differs at byte {}", sh, got.len(), want.len(), at));
    }
    put(&f, &want);
    match no_panic(|| Tensor::from_file(&f).map_err(|e| e.to_string())) {
        Err(m) => fail(format!("loading a tensor file of the established format: {}", m)),
        Ok(Err(e)) => fail(format!("a tensor file of the established format ({:?}) is refused: {}", sh, e)),
        Ok(Ok(l)) => unchanged("a tensor loaded from a file of the established format", &l, sh, &d.v),
    }
}

fn c27_network(s: &mut Src, ctx: &mut Ctx) -> R {
    let specs = if s.chance(1, 12) { vec![] } else { stack(s, 4, false, true) };
    ctx.nontrivial = specs.iter().any(|l| l.kind() < 2);
    specs.iter().for_each(|l| ctx.label(KINDS[l.kind()]));
    ctx.note(|| format!("network {}", specs.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> ")));
    let train = s.chance(1, 2);
    let rig = Rig::of(&specs, train)?;
    let f = path("format.net");
    if let Err(e) = rig.net.save_to_file(&f) {
        return fail(format!("saving {} failed: {}", show(&specs), e));
    }
    let got = std::fs::read(&f).expect("harness: scratch file");
    let st = match dec_network(&got) {
        Some(st) => st,
        None => return fail(format!("the file of network {} is not of the established format", show(&specs))),
    };
    ensure!(st.len() == specs.len(), "the file of {} holds {} layers", show(&specs), st.len());
    for (i, (sp, (tag, m))) in specs.iter().zip(&st).enumerate() {
        let (t, fs) = enc_layer(sp);
        ensure!(*tag == t, "layer {} ({}) is stored as kind {}, established is {}", i, sp.short(), tag, t);
        ensure!(m.len() == fs.len(), "layer {} ({}) is stored with {} fields, established are {}", i, sp.short(), m.len(), fs.len());
        for (k, want) in fs.iter().enumerate() {
            let got = m.get(&(k as u32));
            ensure!(got == Some(want), "field {} of stored layer {} ({}) is not of the established format", k, i, sp.short());
            ctx.compared += want.len() as u64;
        }
    }
    // a file of the established format, its fields in any order
    let mut o = Vec::new();
    e64(&mut o, specs.len());
    for sp in &specs {
        let (t, fs) = enc_layer(sp);
        e32(&mut o, t);
        e64(&mut o, fs.len());
        let mut left: Vec<usize> = (0..fs.len()).collect();
        while !left.is_empty() {
            let i = s.below(left.len());
            let k = left.remove(i);
            e32(&mut o, k as u32);
            e64(&mut o, fs[k].len());
            o.extend(&fs[k]);
        }
    }
    put(&f, &o);
    let mut net = Network::new(mode_of(s.chance(1, 2)));
    match no_panic(|| net.load_from_file(&f).map_err(|e| e.to_string())) {
        Err(m) => return fail(format!("loading a network file of the established format: {}", m)),
        Ok(Err(e)) => return fail(format!("a network file of the established format ({}) is refused: {}", show(&specs), e)),
        Ok(Ok(())) => {}
    }
    let ls = net.get_layers();
    ensure!(ls.len() == specs.len(), "{} layers loaded from a file of {}", ls.len(), show(&specs));
    for (i, sp) in specs.iter().enumerate() {
        ensure!(
            Sh::of(ls[i].get_input_shape()) == sp.ish() && Sh::of(ls[i].get_output_shape()) == sp.osh() && &ls[i].get_name() == sp.name(),
            "layer {} loaded from a file of {} is {:?} {:?} -> {:?}",
            i,
            show(&specs),
            ls[i].get_name(),
            ls[i].get_input_shape(),
            ls[i].get_output_shape()
        );
        ensure!(same_serialized(&ls[i].get_serialized(), &rig.layers[i].ser()), "layer {} loaded from a file of {} has other contents", i, show(&specs));
    }
    if !specs.is_empty() {
        let x = input(s, specs[0].ish().n(), false);
        let r = net.infer(&mk(specs[0].ish(), &x.v)?);
        ensure!(r.is_ok(), "a network loaded from a file of {} refuses its input: {:?}", show(&specs), r);
        let mut cur = x;
        for (i, sp) in specs.iter().enumerate() {
            let y = net.get_intermediate_state(i + 1).unwrap();
            sp.check_forward(&format!("state {} of {} loaded from an established file", i + 1, show(&specs)), &cur, y, ctx)?;
            cur = state_data(sp, &cur, y);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

pub fn c28() -> Property {
    Property {
        id: "C28",
        rule: "Networks of 1-5 layers of all kinds behind recording wrappers that can be told to fail, with or without leaving garbage in their destination; histories of 2-8 inferences and \
               backward passes with a failing layer at a generated position, faults coming and going. A call with a failing layer must err after exactly the calls that lead to it; every later \
               call without one is compared state by state and gradient by gradient with the layers' references. Non-trivial: a failing call and a later good one, at least two layers.",
        assumptions: &["each checked backward pass follows its own inference", "finite values"],
        facets: vec![
            Facet { name: "faults", quick: 500_000, thorough: 6_000_000, run: c28_faults },
            Facet { name: "faults, long", quick: 60, thorough: 720, run: long!(c28_faults) },
        ],
    }
}

fn c28_faults(s: &mut Src, ctx: &mut Ctx) -> R {
    let exactly = s.chance(2, 3);
    let specs = stack(s, 4, exactly, true);
    let n = specs.len();
    let mut rig = Rig::of(&specs, s.chance(4, 5))?;
    ctx.note(|| format!("network {} training={}", specs.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> "), rig.train));
    let sers: Vec<_> = rig.layers.iter().map(|l| l.ser()).collect();
    let osh = specs[n - 1].osh();
    let (mut failed, mut good) = (false, false);
    let steps = if n > 12 { 2 + s.below(7) } else { s.times(2, 7) };
    for _ in 0..steps {
        let at = s.below(n);
        let dirty = s.chance(1, 2);
        match s.step(&[4, 3, 3, 1]) {
            0 => {
                let x = rig.input(s, exactly);
                ctx.note(|| format!("infer {}", small(&x.v)));
                rig.infer(&x, ctx)?;
                if rig.train && s.chance(2, 3) {
                    let g = if exactly { exact(s, osh.n()) } else { finite(s, osh.n()) };
                    ctx.note(|| format!("backward {}", small(&g.v)));
                    backward_checked(&mut rig, &g, ctx)?;
                    ctx.label_if(failed, "good backward after a failure");
                }
                good |= failed;
            }
            1 => {
                let x = rig.input(s, exactly);
                ctx.note(|| format!("infer {} with layer {} failing (garbage={})", small(&x.v), at, dirty));
                ctx.label("failing forward");
                rig.faults[at].set(if dirty { Fault::ForwardDirty } else { Fault::Forward });
                rig.log.borrow_mut().clear();
                let tx = mk(specs[0].ish(), &x.v)?;
                let r = no_panic(|| rig.net.infer(&tx));
                rig.faults[at].set(Fault::None);
                match r {
                    Err(m) => return fail(format!("inference with layer {} of {} failing: {}", at, show(&specs), m)),
                    Ok(Ok(())) => return fail(format!("layer {} of {} failed, inference reports success", at, show(&specs))),
                    Ok(Err(_)) => {}
                }
                unchanged("network input", &tx, specs[0].ish(), &x.v)?;
                let log = rig.log.borrow();
                ensure!(log.len() == at + 1, "{} layer calls in an inference through {} whose layer {} fails", log.len(), show(&specs), at);
                for (i, e) in log.iter().enumerate() {
                    match e {
                        Event::Forward { id, ok, .. } => ensure!(*id == i && *ok == (i != at), "layer {} was called at position {}", id, i),
                        Event::Backward { .. } => return fail("inference ran a backward pass"),
                    }
                }
                drop(log);
                ctx.compared += 1;
                rig.held = None;
                failed = true;
            }
            2 => {
                if rig.train {
                    let x = rig.input(s, exactly);
                    rig.infer(&x, ctx)?;
                    let g = exact(s, osh.n());
                    ctx.note(|| format!("infer {} and backward {} with layer {} failing (garbage={})", small(&x.v), small(&g.v), at, dirty));
                    ctx.label("failing backward");
                    rig.faults[at].set(if dirty { Fault::BackwardDirty } else { Fault::Backward });
                    rig.log.borrow_mut().clear();
                    let tg = mk(osh, &g.v)?;
                    let before: Vec<_> = rig.layers.iter().map(|l| l.params_grad()).collect();
                    let r = no_panic(|| rig.net.backward(&tg));
                    rig.faults[at].set(Fault::None);
                    match r {
                        Err(m) => return fail(format!("backward with layer {} of {} failing: {}", at, show(&specs), m)),
                        Ok(Ok(())) => return fail(format!("layer {} of {} failed, backward reports success", at, show(&specs))),
                        Ok(Err(_)) => {}
                    }
                    unchanged("incoming gradient", &tg, osh, &g.v)?;
                    let log = rig.log.borrow();
                    ensure!(log.len() == n - at, "{} layer calls in a backward pass through {} whose layer {} fails", log.len(), show(&specs), at);
                    for (k, e) in log.iter().enumerate() {
                        let i = n - 1 - k;
                        match e {
                            Event::Backward { id, ok, .. } => ensure!(*id == i && *ok == (i != at), "layer {} was called when it was layer {}'s turn", id, i),
                            Event::Forward { .. } => return fail("backward ran a forward pass"),
                        }
                    }
                    drop(log);
                    for i in 0..at {
                        if let (Some(a), Some(b)) = (rig.layers[i].params_grad(), &before[i]) {
                            ensure!(
                                a.iter().zip(b).all(|(p, q)| same_bits(&dump(p), &dump(q))),
                                "backward through {} failed at layer {}, but the parameter gradients of layer {} changed",
                                show(&specs),
                                at,
                                i
                            );
                        }
                    }
                    rig.still("a backward pass with a failing layer")?;
                    ctx.compared += 1;
                    failed = true;
                }
            }
            _ => {
                let to = s.chance(3, 4);
                ctx.note(|| format!("switch to training={}", to));
                rig.set(to);
            }
        }
        // a failure changes nothing about the network itself
        ensure!(rig.net.get_run_state() == mode_of(rig.train), "the network reports mode {:?}", rig.net.get_run_state());
        ensure!(rig.net.get_layers().len() == n, "the network has {} layers instead of {}", rig.net.get_layers().len(), n);
        ensure!(
            Sh::of(rig.net.get_input_shape()) == specs[0].ish() && Sh::of(rig.net.get_output_shape()) == osh,
            "the shapes of the network changed"
        );
        for i in 0..=n {
            let want = if i == 0 { specs[0].ish() } else { specs[i - 1].osh() };
            match rig.net.get_intermediate_state(i) {
                Ok(t) => ensure!(Sh::of(t.get_shape()) == want, "state {} of {} has shape {:?}", i, show(&specs), Sh::of(t.get_shape())),
                Err(e) => return fail(format!("no state {} of {}: {}", i, show(&specs), e)),
            }
        }
        for (i, l) in rig.layers.iter().enumerate() {
            ensure!(l.mode() == mode_of(rig.train), "layer {} is in mode {:?}", i, l.mode());
            ensure!(same_serialized(&l.ser(), &sers[i]), "the parameters of layer {} changed", i);
        }
    }
    ctx.nontrivial = good && n > 1;
    Ok(())
}

// ---------------------------------------------------------------- C29

pub fn c29() -> Property {
    Property {
        id: "C29",
        rule: "2-4 objects (layers of all kinds, networks, tensors in use by operations), half of them twins in kind and geometry with other values, each with its own script of 2-9 operations \
               (forward/infer, backward, clear, mode switch, refill, tensor operations). Transcripts of everything observable from running each script alone are compared, bit for bit, with \
               transcripts of the same scripts interleaved in a generated order, run at the same time on threads of their own, and run with the object handed from thread to thread. Non-trivial: two objects of which \
               one is used between two operations of the other.",
        assumptions: &["no object is used by two threads at once", "which NaN bit pattern results is not specified"],
        facets: vec![
            Facet { name: "interleaved", quick: 500_000, thorough: 6_000_000, run: c29_interleaved },
            Facet { name: "threads", quick: 20_000, thorough: 240_000, run: c29_threads },
            Facet { name: "moved", quick: 10_000, thorough: 120_000, run: c29_moved },
            Facet { name: "interleaved, large", quick: 40, thorough: 480, run: large!(c29_interleaved) },
            Facet { name: "interleaved, long", quick: 240, thorough: 2_880, run: long!(c29_interleaved) },
        ],
    }
}

#[derive(Clone, Debug)]
enum Step {
    Forward(Vec<f32>, f32),
    Backward(Vec<f32>, f32),
    Clear,
    Mode(bool),
    Refill(Box<Spec>),
    Op(usize, Vec<f32>),
}

#[derive(Clone, Debug)]
enum Plan {
    Layer(Spec),
    Net(Vec<Spec>, bool),
    Store(Sh, Vec<f32>),
}

enum Thing {
    Layer { sp: Spec, l: Any, x: Option<Tensor>, y: Option<Tensor>, train: bool },
    Net { net: Network, layers: Vec<Any>, specs: Vec<Spec> },
    Store { sh: Sh, t: Tensor, out: Tensor },
}

type Seen = Vec<u32>;

/// A window extent: half the tensor, but small on large ones.
fn part(n: u32) -> u32 {
    ((n + 1) / 2).min(4)
}

fn see(seen: &mut Seen, t: &Tensor) {
    let sh = Sh::of(t.get_shape());
    seen.extend([sh.0, sh.1, sh.2]);
    seen.extend(dump(t).iter().map(|v| if v.is_nan() { 0x7fc0_0000 } else { v.to_bits() }));
}

impl Thing {
    fn new(p: &Plan) -> Result<Thing, Fail> {
        Ok(match p {
            Plan::Layer(sp) => {
                let l = sp.build()?;
                l.training();
                Thing::Layer { sp: sp.clone(), l, x: None, y: None, train: true }
            }
            Plan::Net(specs, train) => {
                let mut net = Network::new(mode_of(*train));
                let mut layers = Vec::new();
                for sp in specs {
                    let l = sp.build()?;
                    let p = Probe { inner: l.clone(), id: 0, log: None, fault: Rc::new(std::cell::Cell::new(Fault::None)) };
                    if let Err(e) = net.add_layer(p) {
                        return fail(format!("adding {} refused: {}", sp.short(), e));
                    }
                    layers.push(l);
                }
                Thing::Net { net, layers, specs: specs.clone() }
            }
            Plan::Store(sh, v) => Thing::Store { sh: *sh, t: mk(*sh, v)?, out: Tensor::new(sh.ts()) },
        })
    }
    fn step(&mut self, st: &Step, seen: &mut Seen) -> R {
        match self {
            Thing::Layer { sp, l, x, y, train } => {
                match st {
                    Step::Forward(v, old) => {
                        let tx = mk(sp.ish(), v)?;
                        let mut ty = Tensor::new(sp.osh().ts());
                        ty.fill_with_value(*old);
                        seen.push(l.forward(&tx, &mut ty).is_ok() as u32);
                        see(seen, &ty);
                        *x = Some(tx);
                        *y = Some(ty);
                    }
                    Step::Backward(v, old) => {
                        if let (Some(tx), Some(ty)) = (&x, &y) {
                            let g = mk(sp.osh(), v)?;
                            let mut dx = Tensor::new(sp.ish().ts());
                            dx.fill_with_value(*old);
                            seen.push(l.backward(tx, ty, &g, &mut dx).is_ok() as u32);
                            see(seen, &dx);
                        }
                    }
                    Step::Clear => l.clear(),
                    Step::Mode(t) => {
                        l.set_mode(*t);
                        if *t != *train {
                            *x = None;
                        }
                        *train = *t;
                    }
                    Step::Refill(other) => {
                        other.refill(l)?;
                        *sp = (**other).clone();
                        *x = None;
                    }
                    Step::Op(..) => {}
                }
                if let Some(ps) = l.params_grad() {
                    ps.iter().for_each(|p| see(seen, p));
                }
                let (a, b) = (l.ish(), l.osh());
                seen.extend([a.0, a.1, a.2, b.0, b.1, b.2, (l.mode() == NetworkRunState::Training) as u32]);
            }
            Thing::Net { net, layers, specs } => {
                match st {
                    Step::Forward(v, _) => {
                        let tx = mk(specs[0].ish(), v)?;
                        seen.push(net.infer(&tx).is_ok() as u32);
                    }
                    Step::Backward(v, _) => {
                        let g = mk(specs.last().unwrap().osh(), v)?;
                        seen.push(net.backward(&g).is_ok() as u32);
                    }
                    Step::Clear => layers.iter().for_each(|l| l.clear()),
                    Step::Mode(true) => net.switch_to_training(),
                    Step::Mode(false) => net.switch_to_inference(),
                    _ => {}
                }
                for i in 0..=specs.len() {
                    match net.get_intermediate_state(i) {
                        Ok(t) => see(seen, t),
                        Err(_) => seen.push(7),
                    }
                }
                for l in layers.iter() {
                    if let Some(ps) = l.params_grad() {
                        ps.iter().for_each(|p| see(seen, p));
                    }
                }
                seen.push((net.get_run_state() == NetworkRunState::Training) as u32);
            }
            Thing::Store { sh, t, out } => {
                if let Step::Op(op, v) = st {
                    let o = mk(*sh, v)?;
                    match op % 10 {
                        0 => Tensor::add(t, &o, out),
                        1 => Tensor::multiply_elementwise(t, &o, out),
                        2 => Tensor::add_to_self(t, &o),
                        3 => Tensor::scale_self(t, v[0]),
                        4 => Tensor::softmax(t, out),
                        5 if sh.0 * sh.0 * sh.1 * sh.2 < 4_000_000 => {
                            let mut tr = Tensor::new(Sh(sh.1, sh.0, sh.2).ts());
                            seen.push(Tensor::transpose_ij(t, &mut tr).is_ok() as u32);
                            see(seen, &tr);
                            let mut p = Tensor::new(Sh(sh.0, sh.0, sh.2).ts());
                            Tensor::matrix_multiply(t, &tr, &mut p);
                            see(seen, &p);
                        }
                        6 => {
                            let w = Sh(part(sh.0), part(sh.1), 1);
                            let mut r = Tensor::new(Sh(sh.0 - w.0 + 1, sh.1 - w.1 + 1, sh.2).ts());
                            Tensor::max_pool(t, &w.ts(), 1, &mut r);
                            see(seen, &r);
                            let mut list = vec![0; r.total_items() as usize];
                            seen.push(Tensor::max_pool_track_origin(t, &w.ts(), 1, &mut r, &mut list).is_ok() as u32);
                            see(seen, &r);
                        }
                        7 => {
                            let k = Sh(part(sh.0), part(sh.1), sh.2);
                            let ker = mk(k, &v[..k.n()])?;
                            let b = mk(Sh(1, 1, 1), &v[..1])?;
                            let mut r = Tensor::new(Sh(sh.0 - k.0 + 1, sh.1 - k.1 + 1, 2).ts());
                            seen.push(convolution_bias(t, &ker, &b, 1, &mut r, 1).is_ok() as u32);
                            see(seen, &r);
                            let mut dx = Tensor::new(sh.ts());
                            seen.push(convolution_backprop_outgoing_gradient(&r, &vec![ker.clone(), ker.clone()], 1, &mut dx).is_ok() as u32);
                            see(seen, &dx);
                            let mut dk = Tensor::new(k.ts());
                            seen.push(convolution_backprop_kernel(&r, t, 1, 1, &mut dk).is_ok() as u32);
                            see(seen, &dk);
                        }
                        8 => {
                            seen.push(t.fill_with_vec(v.clone()).is_ok() as u32);
                            seen.push(t.get_norm().to_bits());
                        }
                        _ => {
                            seen.push((*t == o) as u32);
                            let c = t.clone();
                            seen.push((*t == c) as u32);
                            *out = c;
                        }
                    }
                }
                see(seen, t);
                see(seen, out);
            }
        }
        Ok(())
    }
}

fn plan(s: &mut Src, earlier: &[Plan], ctx: &mut Ctx) -> Plan {
    if !earlier.is_empty() && s.chance(1, 2) {
        ctx.label("twins");
        let i = s.below(earlier.len());
        return match &earlier[i] {
            Plan::Layer(sp) => Plan::Layer(twin(s, sp, true)),
            Plan::Net(sps, t) => Plan::Net(sps.iter().map(|sp| twin(s, sp, true)).collect(), *t),
            Plan::Store(sh, _) => Plan::Store(*sh, exact(s, sh.n()).v),
        };
    }
    match s.weighted(&[5, 3, 2]) {
        0 => {
            let k = s.below(4);
            ctx.label(KINDS[k]);
            let mut sp = spec(s, k, true);
            if !s.huge && (sp.ish().n() > 2000 || sp.osh().n() > 2000) {
                sp = Spec::Sm { sh: Sh(3, 1, 1), name: String::new() };
            }
            Plan::Layer(sp)
        }
        1 => {
            ctx.label("network");
            Plan::Net(stack(s, 3, true, true), s.chance(3, 4))
        }
        _ => {
            ctx.label("tensor");
            let sh = if s.huge { [Sh(257, 257 + s.u(0, 3), s.u(1, 2)), Sh(3, 22_000 + s.u(0, 9), 1), Sh(33_000 + s.u(0, 9), 2, 1)][s.below(3)] } else { Sh(s.u(1, 6), s.u(1, 6), s.u(1, 3)) };
            Plan::Store(sh, exact(s, sh.n()).v)
        }
    }
}

fn script(s: &mut Src, p: &Plan) -> Vec<Step> {
    let n = match p {
        Plan::Net(sps, _) if sps.len() > 12 => 2 + s.below(8),
        _ => s.times(2, 8),
    };
    let mut v: Vec<Step> = Vec::new();
    let old = |s: &mut Src| [0.0, 777.0, -3.5][s.below(3)];
    while v.len() < n {
        match p {
            Plan::Store(sh, _) => {
                let op = s.below(10);
                v.push(Step::Op(op, expand(s, sh.n(), |x| zz(x) as f32 / 2.0, 12)));
            }
            Plan::Layer(_) | Plan::Net(..) => {
                let (ish, osh) = match p {
                    Plan::Layer(sp) => (sp.ish(), sp.osh()),
                    Plan::Net(sps, _) => (sps[0].ish(), sps.last().unwrap().osh()),
                    _ => unreachable!(),
                };
                match s.step(&[6, 6, 1, 1, 1]) {
                    0 => {
                        let (x, o) = (input(s, ish.n(), true).v, old(s));
                        v.push(Step::Forward(x, o));
                    }
                    1 => {
                        if !matches!(v.last(), Some(Step::Forward(..))) {
                            let (x, o) = (input(s, ish.n(), true).v, old(s));
                            v.push(Step::Forward(x, o));
                        }
                        let (g, o) = (exact(s, osh.n()).v, old(s));
                        v.push(Step::Backward(g, o));
                    }
                    2 => v.push(Step::Clear),
                    3 => v.push(Step::Mode(s.chance(2, 3))),
                    _ => {
                        if let Plan::Layer(sp) = p {
                            v.push(Step::Refill(Box::new(twin(s, sp, true))));
                        }
                    }
                }
            }
        }
    }
    v
}

/// Shapes fit within a script since every refill keeps the geometry.
fn alone(p: &Plan, sc: &[Step]) -> Result<Vec<Seen>, Fail> {
    let mut t = Thing::new(p)?;
    let mut out = Vec::new();
    for st in sc {
        let mut seen = Seen::new();
        t.step(st, &mut seen)?;
        out.push(seen);
    }
    Ok(out)
}

fn tell(p: &Plan) -> String {
    match p {
        Plan::Layer(sp) => sp.short(),
        Plan::Net(sps, _) => format!("network {}", show(sps)),
        Plan::Store(sh, _) => format!("tensor {:?}", sh),
    }
}

fn what(st: &Step) -> &'static str {
    match st {
        Step::Forward(..) => "forward",
        Step::Backward(..) => "backward",
        Step::Clear => "clear",
        Step::Mode(true) => "switch to training",
        Step::Mode(false) => "switch to inference",
        Step::Refill(_) => "refill",
        Step::Op(..) => "operation",
    }
}

fn setup(s: &mut Src, ctx: &mut Ctx) -> Result<(Vec<Plan>, Vec<Vec<Step>>, Vec<Vec<Seen>>), Fail> {
    let n = 2 + s.weighted(&[4, 2, 1]);
    let mut plans: Vec<Plan> = Vec::new();
    for _ in 0..n {
        let p = plan(s, &plans, ctx);
        plans.push(p);
    }
    let scripts: Vec<Vec<Step>> = plans.iter().map(|p| script(s, p)).collect();
    let mut ones = Vec::new();
    for (p, sc) in plans.iter().zip(&scripts) {
        ones.push(alone(p, sc)?);
    }
    for (i, p) in plans.iter().enumerate() {
        ctx.note(|| match p {
            Plan::Layer(sp) => format!("{}: {}", i, sp.brief()),
            Plan::Net(sps, t) => format!("{}: network {} training={}", i, sps.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> "), t),
            Plan::Store(sh, v) => format!("{}: tensor {:?} {}", i, sh, small(v)),
        });
    }
    Ok((plans, scripts, ones))
}

fn c29_interleaved(s: &mut Src, ctx: &mut Ctx) -> R {
    let (plans, scripts, ones) = setup(s, ctx)?;
    let mut things = Vec::new();
    for p in &plans {
        things.push(Thing::new(p)?);
    }
    let mut at = vec![0; plans.len()];
    let mut last = usize::MAX;
    loop {
        let open: Vec<usize> = (0..plans.len()).filter(|i| at[*i] < scripts[*i].len()).collect();
        if open.is_empty() {
            break;
        }
        // change over more often than not
        let i = open[s.below(open.len())];
        if last != usize::MAX && last != i && at[i] > 0 {
            ctx.nontrivial = true;
        }
        let st = &scripts[i][at[i]];
        ctx.note(|| format!("{}: {:?}", i, st));
        let mut seen = Seen::new();
        things[i].step(st, &mut seen)?;
        ctx.compared += seen.len() as u64;
        ensure!(
            seen == ones[i][at[i]],
            "step {} ({}) of {} gives another result when {} other object(s) are in use at the same time: {}",
            at[i],
            what(st),
            tell(&plans[i]),
            plans.len() - 1,
            differ(&seen, &ones[i][at[i]])
        );
        at[i] += 1;
        last = i;
    }
    Ok(())
}

fn differ(a: &Seen, b: &Seen) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(p) => format!("value {} of {} is {:?} ({:#x}), alone it is {:?} ({:#x})", p, a.len(), f32::from_bits(a[p]), a[p], f32::from_bits(b[p]), b[p]),
        None => format!("{} values, alone {}", a.len(), b.len()),
    }
}

fn c29_threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let (plans, scripts, ones) = setup(s, ctx)?;
    ctx.nontrivial = true;
    let gate = std::sync::Barrier::new(plans.len());
    let got: Vec<Result<Result<Vec<Seen>, Fail>, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .zip(&scripts)
            .map(|(p, steps)| {
                let gate = &gate;
                sc.spawn(move || {
                    gate.wait();
                    no_panic(|| alone(p, steps))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("the thread died".into()))).collect()
    });
    for (i, g) in got.into_iter().enumerate() {
        let g = match g {
            Ok(g) => g?,
            Err(m) => return fail(format!("{} on a thread of its own: {}", tell(&plans[i]), m)),
        };
        for (k, (a, b)) in g.iter().zip(&ones[i]).enumerate() {
            ctx.compared += a.len() as u64;
            ensure!(a == b, "step {} ({}) of {} gives another result on a thread of its own: {}", k, what(&scripts[i][k]), tell(&plans[i]), differ(a, b));
        }
    }
    Ok(())
}

/// Handed over whole; nothing of it stays behind.
struct Hand<T>(T);
unsafe impl<T> Send for Hand<T> {}

fn c29_moved(s: &mut Src, ctx: &mut Ctx) -> R {
    let (plans, scripts, ones) = setup(s, ctx)?;
    let (p, sc, one) = (&plans[0], &scripts[0], &ones[0]);
    let mut t = Thing::new(p)?;
    let mut moves = 0;
    for k in 0..sc.len() {
        let mut seen = Seen::new();
        if s.chance(1, 2) {
            moves += 1;
            let h = Hand((t, Seen::new()));
            let st = &sc[k];
            // another object is used on that thread just before
            let (q, qs) = (&plans[1], &scripts[1]);
            let r = std::thread::scope(|scope| {
                scope
                    .spawn(move || {
                        let h = h;
                        let Hand((mut t, mut seen)) = h;
                        let r = no_panic(|| {
                            alone(q, qs)?;
                            t.step(st, &mut seen)
                        });
                        Hand((t, seen, r))
                    })
                    .join()
            });
            match r {
                Ok(Hand((back, sn, r))) => {
                    t = back;
                    seen = sn;
                    match r {
                        Ok(r) => r?,
                        Err(m) => return fail(format!("{} used on another thread: {}", tell(p), m)),
                    }
                }
                Err(_) => return fail(format!("{} used on another thread: the thread died", tell(p))),
            }
        } else {
            t.step(&sc[k], &mut seen)?;
        }
        ctx.compared += seen.len() as u64;
        ensure!(seen == one[k], "step {} ({}) of {} gives another result when the object moves between threads: {}", k, what(&sc[k]), tell(p), differ(&seen, &one[k]));
    }
    ctx.nontrivial = moves > 0;
    Ok(())
}

// ---------------------------------------------------------------- C30

pub fn c30() -> Property {
    Property {
        id: "C30",
        rule: "New layers of all kinds over generated sizes, fitting geometries and names; compared with what was asked for: shapes, name, mode, zero parameters, forward results and gradients \
               in both modes, and independence of layers made from the same arguments. Fully connected layers are then set to constants, and compared with the reference for them, in \
               histories of fills, passes and mode switches. Non-trivial: more than one parameter, or for layers without any more than one element.",
        assumptions: &["finite values"],
        facets: vec![
            Facet { name: "new", quick: 500_000, thorough: 6_000_000, run: c30_new },
            Facet { name: "fill", quick: 500_000, thorough: 6_000_000, run: c30_fill },
            Facet { name: "new, large", quick: 80, thorough: 960, run: large!(c30_new) },
            Facet { name: "fill, long", quick: 240, thorough: 2_880, run: long!(c30_fill) },
        ],
    }
}

fn zeros(n: usize) -> Data {
    Data { v: vec![0.0; n], q: 1.0, kind: "zero" }
}

/// A layer made by the constructor, and the specification it should meet.
fn new_layer(s: &mut Src, kind: usize) -> Result<(Any, Spec), Fail> {
    if s.chance(1, 12) {
        // the placeholder: a layer of single items
        let l = Any::empty(kind);
        let one = Sh(1, 1, 1);
        let g = Geo { img: one, ker: one, stride: 1, out: one };
        let nm = l.name();
        let sp = match kind {
            0 => Spec::Fc { n: 1, m: 1, d: 1, w: zeros(1), b: zeros(1), name: nm },
            1 => Spec::Conv { g, ks: vec![zeros(1)], bs: zeros(1), name: nm },
            2 => Spec::Mp { g, name: nm },
            _ => Spec::Sm { sh: one, name: nm },
        };
        return Ok((l, sp));
    }
    let nm = name(s);
    Ok(match kind {
        0 => {
            let (n, m) = if s.huge {
                [(66_000, 1), (1, 66_000), (258, 259), (3, 22_000)][s.below(4)]
            } else if s.chance(1, 14) {
                (dim(s, 300), dim(s, 300))
            } else {
                (s.u(0, 7), s.u(0, 7))
            };
            let l = FullyConnectedLayer::new(n, m, &nm);
            // a size of zero counts as one, like any extent given to TensorShape::new
            let (n, m) = (n.max(1), m.max(1));
            (Any::Fc(Rc::new(RefCell::new(l))), Spec::Fc { n, m, d: 1, w: zeros((n * m) as usize), b: zeros(m as usize), name: nm })
        }
        1 => {
            let g = geo(s, false);
            let l = match ConvolutionalLayer::new(g.ker.ts(), g.img.ts(), g.stride, g.out.2, &nm) {
                Ok(l) => l,
                Err(e) => return fail(format!("new convolutional layer {:?} refused: {}", g, e)),
            };
            let ks = (0..g.out.2).map(|_| zeros(g.ker.n())).collect();
            (Any::Conv(Rc::new(RefCell::new(l))), Spec::Conv { g, ks, bs: zeros(g.out.2 as usize), name: nm })
        }
        2 => {
            let g = geo(s, true);
            let l = match MaxPoolLayer::new(g.ker.ts(), g.img.ts(), g.stride, &nm) {
                Ok(l) => l,
                Err(e) => return fail(format!("new max pool layer {:?} refused: {}", g, e)),
            };
            (Any::Mp(Rc::new(RefCell::new(l))), Spec::Mp { g, name: nm })
        }
        _ => {
            let sh = shape(s, 200);
            let l = match SoftmaxLayer::new(sh.ts(), &nm) {
                Ok(l) => l,
                Err(e) => return fail(format!("new softmax layer {:?} refused: {}", sh, e)),
            };
            (Any::Sm(Rc::new(RefCell::new(l))), Spec::Sm { sh, name: nm })
        }
    })
}

fn as_asked(l: &Any, sp: &Spec, train: bool) -> R {
    ensure!(l.ish() == sp.ish() && l.osh() == sp.osh(), "{}: shapes are {:?} and {:?}", sp.short(), l.ish(), l.osh());
    ensure!(&l.name() == sp.name(), "{}: name is {:?} instead of {:?}", sp.short(), l.name(), sp.name());
    ensure!(l.mode() == mode_of(train), "{}: mode is {:?}", sp.short(), l.mode());
    // the parameters, through the content of the same layer filled from tensors
    let twin = sp.build()?;
    ensure!(same_serialized(&l.ser(), &twin.ser()), "{}: parameters are not the ones asked for", sp.short());
    Ok(())
}

fn one_pass(what: &str, l: &Any, sp: &Spec, train: bool, s: &mut Src, ctx: &mut Ctx) -> R {
    let x = input(s, sp.ish().n(), s.big == 0);
    ctx.note(|| format!("{} training={} input {}", what, train, small(&x.v)));
    let y = run_forward(what, sp, l, &x, s, ctx)?;
    if train {
        let g = exact(s, sp.osh().n());
        l.clear();
        run_backward(what, sp, l, &x, &y, &g, s, ctx)?;
        if sp.kind() < 2 {
            check_params(what, sp, l, &sp.grads(&x, &dump(&y), &g).1, ctx)?;
        }
    }
    Ok(())
}

fn c30_new(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let (l, sp) = new_layer(s, kind)?;
    ctx.label(KINDS[kind]);
    ctx.note(|| format!("new {} name={:?}", sp.short(), sp.name()));
    ctx.nontrivial = match &sp {
        Spec::Fc { n, m, .. } => n * m > 1,
        Spec::Conv { g, .. } => g.ker.n() > 1,
        _ => sp.osh().n() > 1,
    };
    if let Spec::Conv { g, .. } | Spec::Mp { g, .. } = &sp {
        ensure!(fits(g.img.0, g.ker.0, g.stride) == Some(g.out.0), "harness: geometry");
    }
    as_asked(&l, &sp, false)?;
    if s.chance(1, 2) {
        one_pass("new layer", &l, &sp, false, s, ctx)?;
    }
    if s.chance(1, 4) {
        // what a new layer stores is what a layer can be restored from
        let r = Any::empty(kind);
        match r.load(&l.ser()) {
            Ok(()) => as_asked(&r, &sp, false)?,
            Err(e) => return fail(format!("{}: a new layer cannot be restored from its serialized form: {}", sp.short(), e)),
        }
    }
    l.training();
    as_asked(&l, &sp, true)?;
    if let Some(ps) = l.params_grad() {
        ensure!(ps.iter().all(|p| dump(p).iter().all(|v| *v == 0.0)), "{}: parameter gradients of a new layer are not zero", sp.short());
    }
    one_pass("new layer in training", &l, &sp, true, s, ctx)?;
    as_asked(&l, &sp, true)
}

fn same_grads(what: &str, l: &Any, before: &Option<Vec<Tensor>>) -> R {
    if let (Some(now), Some(old)) = (l.params_grad(), before) {
        ensure!(
            now.len() == old.len() && now.iter().zip(old).all(|(p, q)| p.get_shape() == q.get_shape() && same_bits(&dump(p), &dump(q))),
            "{} changed the accumulated gradients",
            what
        );
    }
    Ok(())
}

fn c30_fill(s: &mut Src, ctx: &mut Ctx) -> R {
    let (n, m) = if s.chance(1, 10) { (dim(s, 60), dim(s, 60)) } else { (s.u(1, 7), s.u(1, 7)) };
    let a = Rc::new(RefCell::new(FullyConnectedLayer::new(n, m, &"a".to_string())));
    let l = Any::Fc(a.clone());
    let other = FullyConnectedLayer::new(n, m, &"a".to_string());
    let mut w = zeros((n * m) as usize);
    let mut b = zeros(m as usize);
    let mut train = false;
    ctx.nontrivial = n * m > 1;
    ctx.note(|| format!("new fully connected layer {} -> {}", n, m));
    if s.chance(1, 3) {
        // a layer that already holds something else
        let sp = fc(s, n, m, 1, true);
        sp.refill(&l)?;
        if let Spec::Fc { w: v, b: u, .. } = &sp {
            w = v.clone();
            b = u.clone();
        }
        sp.fill_fc(&mut a.borrow_mut())?;
        ctx.label("over other parameters");
    }
    let nm = l.name();
    for _ in 0..s.times(1, 6) {
        let c = match s.below(3) {
            0 => zz(s.upto(20)) as f32 / 2.0,
            1 => 0.0,
            _ => real(s, 1).v[0] % 64.0,
        };
        let q = if c % 0.5 == 0.0 { 0.5 } else { 0.0 };
        match s.below(5) {
            0 => {
                ctx.note(|| format!("weights = {}", c));
                let before = l.params_grad();
                a.borrow_mut().fill_weights_with_value(c);
                same_grads("filling the weights", &l, &before)?;
                w = Data { v: vec![c; (n * m) as usize], q, kind: "constant" };
            }
            1 => {
                ctx.note(|| format!("bias = {}", c));
                let before = l.params_grad();
                a.borrow_mut().fill_bias_with_value(c);
                same_grads("filling the bias", &l, &before)?;
                b = Data { v: vec![c; m as usize], q, kind: "constant" };
            }
            2 => {
                train = !train;
                ctx.note(|| format!("switch to training={}", train));
                l.set_mode(train);
            }
            _ => {
                let sp = Spec::Fc { n, m, d: 1, w: w.clone(), b: b.clone(), name: nm.clone() };
                one_pass("filled layer", &l, &sp, train, s, ctx)?;
            }
        }
    }
    let sp = Spec::Fc { n, m, d: 1, w, b, name: nm };
    as_asked(&l, &sp, train)?;
    one_pass("filled layer", &l, &sp, train, s, ctx)?;
    // a layer made from the same arguments has not changed with it
    let o = Any::Fc(Rc::new(RefCell::new(other)));
    as_asked(&o, &Spec::Fc { n, m, d: 1, w: zeros((n * m) as usize), b: zeros(m as usize), name: "a".into() }, false)
}

// ---------------------------------------------------------------- C31

pub fn c31() -> Property {
    Property {
        id: "C31",
        rule: "Layers of all kinds, networks and tensors. Scripts of 2-9 operations (passes, clear, mode switches, refills, tensor operations) are repeated 6 times (or 400); cycles of network use with saving, loading, \
               appending to a loaded copy, and refused inputs, gradients, layers and files are repeated 6 times (or 400); layers and networks in inference mode are trained and return. The live heap of the thread, counted by the harness's \
               allocator, must not grow from the end of the second repetition to that of the last, must not be larger back in inference mode after an inference than it was before training after an inference, and must \
               return to the same size when the objects are dropped. Non-trivial: the object holds more than one element.",
        assumptions: &["allocations of the thread that runs the case; the harness's own are given back before each reading"],
        facets: vec![
            Facet { name: "repeated", quick: 120_000, thorough: 1_440_000, run: c31_repeated },
            Facet { name: "refusals and files", quick: 20_000, thorough: 240_000, run: c31_files },
            Facet { name: "back to inference", quick: 160_000, thorough: 1_920_000, run: c31_back },
            Facet { name: "repeated, large", quick: 32, thorough: 384, run: large!(c31_repeated) },
            Facet { name: "back to inference, large", quick: 32, thorough: 384, run: large!(c31_back) },
            Facet { name: "repeated, long", quick: 100, thorough: 1_200, run: long!(c31_repeated) },
            Facet { name: "refusals and files, long", quick: 40, thorough: 480, run: long!(c31_files) },
        ],
    }
}

fn items(p: &Plan) -> usize {
    match p {
        Plan::Layer(sp) => sp.ish().n() + sp.osh().n(),
        Plan::Net(sps, _) => sps.iter().map(|l| l.ish().n() + l.osh().n()).sum(),
        Plan::Store(sh, _) => sh.n(),
    }
}

/// Readings of the live heap must not grow from the second on.
fn steady(what: &str, of: &str, held: &[isize]) -> R {
    let (a, b) = (held[1], *held.last().unwrap());
    ensure!(
        b <= a,
        "{} of {} repeated {} times: memory held grows by {} bytes from the second to the last repetition ({:?})",
        what,
        of,
        held.len(),
        b - a,
        held.iter().map(|h| h - held[0]).collect::<Vec<_>>()
    );
    Ok(())
}

fn c31_repeated(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = plan(s, &[], ctx);
    let sc = script(s, &p);
    ctx.nontrivial = items(&p) > 2;
    ctx.note(|| format!("{}: {:?}", tell(&p), sc.iter().map(what).collect::<Vec<_>>()));
    let reps = if s.long && sc.len() < 12 { 400 } else { 6 };
    let mut held = vec![0; reps];
    let life = |held: &mut Vec<isize>| -> R {
        let mut t = Thing::new(&p)?;
        for h in held.iter_mut() {
            for st in &sc {
                let mut seen = Seen::new();
                t.step(st, &mut seen)?;
            }
            *h = mem::live();
        }
        Ok(())
    };
    // the second life starts with whatever is set up only once in place
    life(&mut held)?;
    let before = mem::live();
    life(&mut held)?;
    let after = mem::live();
    ctx.compared += reps as u64 + 1;
    steady("operations", &tell(&p), &held)?;
    ensure!(after <= before, "{} used and dropped keeps {} bytes", tell(&p), after - before);
    Ok(())
}

fn c31_files(s: &mut Src, ctx: &mut Ctx) -> R {
    let specs = stack(s, 3, true, true);
    let train = s.chance(1, 2);
    let (ish, osh) = (specs[0].ish(), specs.last().unwrap().osh());
    let more = spec_on(s, osh, true, true);
    let off = super::tensors::near(s, osh);
    let misfit = spec_on(s, off, true, true);
    let fits = misfit.ish() == osh;
    let x = mk(ish, &input(s, ish.n(), true).v)?;
    let wrong = Tensor::new(super::tensors::near(s, ish).ts());
    let g = mk(osh, &exact(s, osh.n()).v)?;
    let (whole, half) = (super::files::path("m1.bin"), super::files::path("m2.bin"));
    ctx.nontrivial = ish.n() + osh.n() > 2;
    ctx.note(|| format!("network {} training={}", show(&specs), train));
    // a file whose second layer is refused by the network's last shape
    {
        let mut n = Network::new(NetworkRunState::Inference);
        for sp in [&more, &misfit] {
            let _ = n.add_layer(Probe { inner: sp.build()?, id: 0, log: None, fault: Rc::new(std::cell::Cell::new(Fault::None)) });
        }
        ensure!(n.save_to_file(&half).is_ok(), "saving failed");
    }
    let bad = {
        let mut b = std::fs::read(&half).expect("harness: read");
        let l = b.len();
        b.truncate(l - 1 - s.below(l / 2));
        b
    };
    let picks: Vec<usize> = (0..1 + s.below(5)).map(|_| s.below(8)).collect();
    ctx.note(|| format!("cycle {:?}", picks));
    let reps = if s.long && specs.len() < 12 { 400 } else { 6 };
    let mut held = vec![0; reps];
    let life = |held: &mut Vec<isize>| -> R {
        let mut net = Network::new(mode_of(train));
        let mut layers = Vec::new();
        for sp in &specs {
            let l = sp.build()?;
            let p = Probe { inner: l.clone(), id: 0, log: None, fault: Rc::new(std::cell::Cell::new(Fault::None)) };
            if let Err(e) = net.add_layer(p) {
                return fail(format!("adding {} refused: {}", sp.short(), e));
            }
            layers.push(l);
        }
        for h in held.iter_mut() {
            for p in &picks {
                match p {
                    0 => {
                        let _ = net.infer(&x);
                    }
                    1 => {
                        let _ = net.infer(&x);
                        let _ = net.backward(&g);
                        layers.iter().for_each(|l| l.clear());
                    }
                    2 => {
                        let _ = net.infer(&wrong);
                        let _ = net.backward(&wrong);
                    }
                    3 => {
                        if !fits {
                            let p = Probe { inner: misfit.build()?, id: 0, log: None, fault: Rc::new(std::cell::Cell::new(Fault::None)) };
                            if net.add_layer(p).is_ok() {
                                return fail("a layer that does not fit is accepted");
                            }
                        }
                    }
                    4 => {
                        let _ = net.save_to_file(&whole);
                        let mut c = Network::new(mode_of(!train));
                        let _ = c.load_from_file(&whole);
                        let _ = c.load_from_file(&half);
                        let _ = c.infer(&x);
                    }
                    5 => {
                        std::fs::write(&whole, &bad).expect("harness: write");
                        let _ = net.load_from_file(&whole);
                        let _ = Tensor::from_file(&whole);
                    }
                    6 => {
                        let t = x.clone();
                        let _ = t.save_to_file(&whole);
                        let _ = Tensor::from_file(&whole);
                    }
                    _ => {
                        for l in layers.iter() {
                            let c = l.ser();
                            let _ = l.load(&c);
                            let o = misfit.build()?;
                            let _ = o.load(&c);
                        }
                    }
                }
            }
            *h = mem::live();
        }
        Ok(())
    };
    life(&mut held)?;
    let before = mem::live();
    life(&mut held)?;
    let after = mem::live();
    ctx.compared += reps as u64 + 1;
    steady(&format!("cycle {:?}", picks), &show(&specs), &held)?;
    ensure!(after <= before, "network {} used and dropped keeps {} bytes", show(&specs), after - before);
    Ok(())
}

fn c31_back(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = plan(s, &[], ctx);
    let ish = match &p {
        Plan::Layer(sp) => sp.ish(),
        Plan::Net(sps, _) => sps[0].ish(),
        Plan::Store(..) => return Ok(()),
    };
    let sc: Vec<Step> = script(s, &p).into_iter().filter(|st| !matches!(st, Step::Refill(_))).collect();
    let infer = Step::Forward(input(s, ish.n(), true).v, 0.0);
    ctx.nontrivial = items(&p) > 2;
    ctx.note(|| format!("{}: {:?} in training mode", tell(&p), sc.iter().map(what).collect::<Vec<_>>()));
    let mut t = match &p {
        // as built, before it was ever trained
        Plan::Layer(sp) => Thing::Layer { sp: sp.clone(), l: sp.build()?, x: None, y: None, train: false },
        Plan::Net(sps, _) => Thing::new(&Plan::Net(sps.clone(), false))?,
        Plan::Store(..) => unreachable!(),
    };
    let step = |t: &mut Thing, st: &Step| -> R {
        let mut seen = Seen::new();
        t.step(st, &mut seen)
    };
    step(&mut t, &infer)?;
    let a = mem::live();
    step(&mut t, &Step::Mode(true))?;
    for st in &sc {
        step(&mut t, st)?;
    }
    step(&mut t, &Step::Mode(false))?;
    step(&mut t, &infer)?;
    let b = mem::live();
    ctx.compared += 1;
    // room for bookkeeping that does not depend on the size of tensors
    let layers = if let Plan::Net(sps, _) = &p { sps.len() as isize } else { 1 };
    ensure!(b <= a + 128 * (1 + layers), "{}: back in inference mode it holds {} bytes more than before it was trained", tell(&p), b - a);
    Ok(())
}
