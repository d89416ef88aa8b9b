//! C16-C19 and the network part of C14.

use super::layerprops::{mode_of, check_params};
use super::tensors::near;
use crate::engine::*;
use crate::{ensure, large, long};
use crate::gen::*;
use crate::layers::*;
use crate::refm::Geo;
use rusty_network::network::{Network, NetworkRunState};
use rusty_network::tensor::Tensor;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

const FINITE: &str = "finite values whose sums of absolute terms stay below 1e37";

pub type Log = Rc<RefCell<Vec<Event>>>;

/// A network with handles on its layers.
pub struct Rig {
    pub net: Network,
    pub specs: Vec<Spec>,
    pub layers: Vec<Any>,
    pub log: Log,
    /// Failure switches of the layers.
    pub faults: Vec<Rc<Cell<Fault>>>,
    pub train: bool,
    /// The states the network must be holding, once something has been inferred.
    pub held: Option<Vec<Vec<f32>>>,
}

pub fn show(specs: &[Spec]) -> String {
    specs.iter().map(|l| l.short()).collect::<Vec<_>>().join(" -> ")
}

impl Rig {
    pub fn new(train: bool) -> Rig {
        Rig { net: Network::new(mode_of(train)), specs: vec![], layers: vec![], log: Rc::new(RefCell::new(vec![])), faults: vec![], train, held: None }
    }
    /// Hands a recording wrapper around the layer to the network.
    pub fn add(&mut self, sp: &Spec) -> Result<Result<(), &'static str>, Fail> {
        let l = sp.build()?;
        let fault = Rc::new(Cell::new(Fault::None));
        let p = Probe { inner: l.clone(), id: self.specs.len(), log: Some(self.log.clone()), fault: fault.clone() };
        let r = self.net.add_layer(p);
        if r.is_ok() {
            self.faults.push(fault);
            self.layers.push(l);
            self.specs.push(sp.clone());
        }
        Ok(r)
    }
    pub fn of(specs: &[Spec], train: bool) -> Result<Rig, Fail> {
        let mut r = Rig::new(train);
        for sp in specs {
            if let Err(e) = r.add(sp)? {
                return fail(format!("adding {} to {} refused: {}", sp.short(), show(&r.specs), e));
            }
        }
        Ok(r)
    }
    pub fn set(&mut self, train: bool) {
        if train {
            self.net.switch_to_training()
        } else {
            self.net.switch_to_inference()
        }
        self.train = train;
    }
    pub fn states(&self) -> Result<Vec<Vec<f32>>, Fail> {
        let mut v = Vec::new();
        for i in 0..=self.specs.len() {
            match self.net.get_intermediate_state(i) {
                Ok(t) => v.push(dump(t)),
                Err(e) => return fail(format!("no intermediate state {} of {}: {}", i, show(&self.specs), e)),
            }
        }
        Ok(v)
    }
    /// Infers and checks every state against the layer's reference.
    pub fn infer(&mut self, x: &Data, ctx: &mut Ctx) -> R {
        let ish = self.specs[0].ish();
        self.log.borrow_mut().clear();
        let tx = mk(ish, &x.v)?;
        if let Err(e) = self.net.infer(&tx) {
            return fail(format!("inference on an input of the declared shape {:?} refused: {} ({})", ish, e, show(&self.specs)));
        }
        unchanged("network input", &tx, ish, &x.v)?;
        let st = self.states()?;
        ensure!(same_bits(&st[0], &x.v), "intermediate state 0 is not the input: {} instead of {}", small(&st[0]), small(&x.v));
        let mut cur = x.clone();
        for (i, sp) in self.specs.iter().enumerate() {
            let y = self.net.get_intermediate_state(i + 1).unwrap();
            sp.check_forward(&format!("state {} of {}", i + 1, show(&self.specs)), &cur, y, ctx)?;
            cur = state_data(sp, &cur, y);
        }
        match self.net.get_output() {
            Ok(o) => {
                ensure!(
                    Sh::of(o.get_shape()) == self.specs.last().unwrap().osh() && same_bits(&dump(o), st.last().unwrap()),
                    "the output is not the last state of {}",
                    show(&self.specs)
                );
            }
            Err(e) => return fail(format!("no output after inference: {}", e)),
        }
        // the layers saw exactly these states, in order
        let log = self.log.borrow();
        let fw: Vec<&Event> = log.iter().filter(|e| matches!(e, Event::Forward { .. })).collect();
        ensure!(
            fw.len() == self.specs.len() && log.len() == fw.len(),
            "{} layer calls for one inference through {} layers",
            log.len(),
            self.specs.len()
        );
        for (i, e) in fw.iter().enumerate() {
            if let Event::Forward { id, x, y, ok } = e {
                ensure!(*id == i && *ok, "layer {} was called at position {}", id, i);
                ensure!(same_bits(&dump(x), &st[i]), "layer {} was not given state {}", i, i);
                ensure!(same_bits(&dump(y), &st[i + 1]), "state {} is not the result of layer {}", i + 1, i);
            }
        }
        drop(log);
        self.held = Some(st);
        Ok(())
    }
    /// What is stored must still be what the last inference left.
    pub fn still(&self, after: &str) -> R {
        if let Some(h) = &self.held {
            let st = self.states()?;
            for i in 0..h.len() {
                ensure!(same_bits(&h[i], &st[i]), "{} changed stored state {} of {}", after, i, show(&self.specs));
            }
        }
        Ok(())
    }
    pub fn input(&self, s: &mut Src, exactly: bool) -> Data {
        input(s, self.specs[0].ish().n(), exactly)
    }
}

/// An input shape the network must refuse.
fn wrong_input(s: &mut Src, sh: Sh) -> Option<Sh> {
    let w = near(s, sh);
    if w == sh { None } else { Some(w) }
}

// ---------------------------------------------------------------- C16

pub fn c16() -> Property {
    Property {
        id: "C16",
        rule: "Networks of 1-5 layers of all kinds (every layer handed over inside a recording wrapper) under histories of 2-10 operations: inference, inference on \
               a wrong shape, backward passes, refused backward calls, mode switches, appended and refused layers. After each inference every state is compared with the \
               layer's reference on the previous state and with a new network that never did anything else, bit for bit. Non-trivial: at least two layers and an \
               inference after other operations.",
        assumptions: &[FINITE],
        facets: vec![
            Facet { name: "history", quick: 710_000, thorough: 8_520_000, run: c16_history },
            Facet { name: "empty", quick: 18_000, thorough: 216_000, run: c16_empty },
            Facet { name: "history, large", quick: 60, thorough: 720, run: large!(c16_history) },
            Facet { name: "history, long", quick: 60, thorough: 720, run: long!(c16_history) },
            Facet { name: "history, lasting", quick: 24, thorough: 288, run: c16_lasting },
        ],
    }
}

fn c16_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let exactly = s.chance(1, 2);
    let specs = stack(s, 4, exactly, true);
    let mut rig = Rig::of(&specs, s.chance(1, 2))?;
    ctx.note(|| format!("network {} training={}", specs.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> "), rig.train));
    let steps = if specs.len() > 12 { 2 + s.below(8) } else { s.times(2, 8) };
    let mut other = false;
    let mut hit = false;
    let mut last: Option<Data> = None;
    for _ in 0..steps {
        match s.step(&[8, 3, 3, 2, 2, 2, 1, 2, 1]) {
            0 => {
                let x = match &last {
                    Some(x) if s.chance(1, 4) => {
                        let mut x = x.clone();
                        if s.chance(1, 4) {
                            // equal in value, not in bits
                            x.v.iter_mut().filter(|v| **v == 0.0).for_each(|v| *v = -*v);
                        }
                        x
                    }
                    _ => rig.input(s, exactly),
                };
                last = Some(x.clone());
                ctx.note(|| format!("infer {}", small(&x.v)));
                rig.infer(&x, ctx)?;
                // a network without a past gives the same
                let mut fresh = Rig::of(&rig.specs, rig.train)?;
                fresh.infer(&x, ctx)?;
                let (a, b) = (rig.held.as_ref().unwrap(), fresh.held.as_ref().unwrap());
                for i in 0..a.len() {
                    ensure!(
                        same_bits(&a[i], &b[i]),
                        "state {} depends on the network's past: {} instead of {} ({})",
                        i,
                        small(&a[i]),
                        small(&b[i]),
                        show(&rig.specs)
                    );
                }
                hit |= other && rig.specs.len() > 1;
                ctx.label_if(other, "inference after other operations");
            }
            1 => {
                if let Some(w) = wrong_input(s, rig.specs[0].ish()) {
                    ctx.note(|| format!("infer on wrong shape {:?}", w));
                    let t = mk(w, &exact(s, w.n()).v)?;
                    let r = match no_panic(|| rig.net.infer(&t)) {
                        Ok(r) => r,
                        Err(m) => return fail(format!("inference on shape {:?}: {}", w, m)),
                    };
                    ctx.compared += 1;
                    ensure!(r.is_err(), "inference accepted an input of shape {:?}, declared {:?}", w, rig.specs[0].ish());
                    rig.still("a refused inference")?;
                    other = true;
                    ctx.label("wrong input shape refused");
                }
            }
            2 => {
                if rig.train && rig.held.is_some() {
                    let osh = rig.specs.last().unwrap().osh();
                    let x = rig.input(s, exactly);
                    rig.infer(&x, ctx)?;
                    let g = grad(s, osh.n(), true);
                    ctx.note(|| format!("infer {} and backward {}", small(&x.v), small(&g.v)));
                    let r = rig.net.backward(&mk(osh, &g.v)?);
                    ensure!(r.is_ok(), "backward refused: {:?}", r);
                    rig.still("a backward pass")?;
                    other = true;
                    ctx.label("backward");
                }
            }
            3 => {
                let to = s.chance(1, 2);
                ctx.note(|| format!("switch to training={}", to));
                rig.set(to);
                rig.still("a mode switch")?;
                other = true;
            }
            4 => {
                let n = rig.specs.len();
                if n < 6 {
                    let sp = spec_on(s, rig.specs.last().unwrap().osh(), exactly, true);
                    ctx.note(|| format!("append {}", sp.brief()));
                    let held = rig.held.clone();
                    if let Err(e) = rig.add(&sp)? {
                        return fail(format!("adding {} to {} refused: {}", sp.short(), show(&rig.specs), e));
                    }
                    if let Some(h) = held {
                        // what the prefix computed is still there
                        let st = rig.states()?;
                        for i in 0..h.len() {
                            ensure!(same_bits(&h[i], &st[i]), "appending a layer changed stored state {}", i);
                        }
                        rig.held = None;
                    }
                    other = true;
                    ctx.label("appended");
                }
            }
            5 => {
                let osh = rig.specs.last().unwrap().osh();
                if let Some(w) = wrong_input(s, osh) {
                    ctx.note(|| format!("add a layer for {:?}", w));
                    let sp = spec_on(s, w, true, true);
                    ensure!(rig.add(&sp)?.is_err(), "{} was added to {}", sp.short(), show(&rig.specs));
                    rig.still("a refused layer")?;
                    other = true;
                }
            }
            8 => {
                // any bit pattern: infinities and not-a-number have no reference here, but the
                // inference succeeds and depends on nothing else
                let ish = rig.specs[0].ish();
                let x = if s.chance(1, 2) { special(s, ish.n()).v } else { anybits(s, ish.n()).v };
                ctx.note(|| format!("infer {}", small(&x)));
                let tx = mk(ish, &x)?;
                let mut fresh = Rig::of(&rig.specs, rig.train)?;
                for net in [&mut rig.net, &mut fresh.net] {
                    match no_panic(|| net.infer(&tx)) {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => return fail(format!("inference on {} of the declared shape {:?} refused: {}", small(&x), ish, e)),
                        Err(m) => return fail(format!("inference on {}: {}", small(&x), m)),
                    }
                }
                let (a, b) = (rig.states()?, fresh.states()?);
                let alike = |a: &[f32], b: &[f32]| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan());
                ensure!(alike(&a[0], &x), "intermediate state 0 is not the input: {} instead of {}", small(&a[0]), small(&x));
                for i in 0..a.len() {
                    ensure!(alike(&a[i], &b[i]), "state {} depends on the network's past: {} instead of {} ({})", i, small(&a[i]), small(&b[i]), show(&rig.specs));
                }
                ctx.compared += a.iter().map(|v| v.len() as u64).sum::<u64>();
                ctx.label("inputs of any bit pattern");
                rig.held = Some(a);
                last = None;
                other = true;
            }
            7 => {
                // the layers are the user's, who may give them other parameters
                let at = s.below(rig.specs.len());
                let sp = twin(s, &rig.specs[at], exactly);
                ctx.note(|| format!("layer {} becomes {}", at, sp.brief()));
                sp.refill(&rig.layers[at])?;
                rig.specs[at] = sp;
                other = true;
                ctx.label("parameters changed in place");
            }
            _ => {
                let osh = rig.specs.last().unwrap().osh();
                if let Some(w) = wrong_input(s, osh) {
                    ctx.note(|| format!("backward with shape {:?}", w));
                    let t = mk(w, &vec![1.0; w.n()])?;
                    ensure!(rig.net.backward(&t).is_err(), "backward accepted a gradient of shape {:?} instead of {:?}", w, osh);
                    rig.still("a refused backward")?;
                    other = true;
                }
            }
        }
    }
    ctx.nontrivial = hit;
    Ok(())
}

fn c16_empty(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut net = Network::new(mode_of(s.chance(1, 2)));
    ctx.nontrivial = true;
    for _ in 0..1 + s.below(4) {
        let sh = if s.chance(1, 4) { Sh(0, 0, 0) } else { shape(s, 60) };
        let t = Tensor::new(sh.ts());
        match s.below(4) {
            0 => net.switch_to_training(),
            1 => net.switch_to_inference(),
            _ => {}
        }
        ctx.compared += 2;
        ensure!(net.infer(&t).is_err(), "a network without layers accepted an input of shape {:?}", sh);
        ensure!(net.get_output().is_err(), "a network without layers has an output");
        ensure!(net.get_intermediate_state(0).is_err(), "a network without layers has a state");
        ensure!(net.backward(&t).is_err(), "a network without layers accepted a gradient of shape {:?}", sh);
    }
    Ok(())
}

// ---------------------------------------------------------------- C14 (networks)

pub fn mode_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let exactly = s.chance(2, 3);
    let specs = stack(s, 4, exactly, !exactly);
    let start = s.chance(1, 4);
    let mut rig = Rig::of(&specs, start)?;
    let sers: Vec<_> = rig.layers.iter().map(|l| l.ser()).collect();
    let xs: Vec<Data> = (0..1 + s.below(2)).map(|_| rig.input(s, exactly)).collect();
    ctx.note(|| format!("network {} inputs {:?}", specs.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> "), xs.iter().map(|x| small(&x.v)).collect::<Vec<_>>()));
    let mut seen: Vec<[Option<Vec<Vec<f32>>>; 2]> = vec![[None, None]; xs.len()];
    let (mut switches, mut backs) = (0, 0);
    let steps = if specs.len() > 12 { 4 + s.below(6) } else { s.times(4, 6) };
    for _ in 0..steps {
        if s.rarely(1, 3) {
            let to = !rig.train;
            rig.set(to);
            switches += 1;
            ctx.note(|| format!("switch to training={}", to));
            continue;
        }
        let w = s.below(xs.len());
        rig.infer(&xs[w], ctx)?;
        ctx.note(|| format!("infer {}", w));
        let m = rig.train as usize;
        let st = rig.held.clone().unwrap();
        if let Some(o) = &seen[w][m] {
            for i in 0..st.len() {
                ensure!(same_bits(&o[i], &st[i]), "the same input gives another state {} later in the same mode ({})", i, show(&specs));
            }
            ctx.label("same input repeated");
        }
        if let Some(o) = &seen[w][1 - m] {
            ctx.label("both modes compared");
            // exact as long as everything so far was exactly representable
            let mut cur = xs[w].clone();
            for (i, sp) in specs.iter().enumerate() {
                if cur.q == 0.0 {
                    break;
                }
                let r = sp.pre(&cur);
                if !r.is_exact() {
                    break;
                }
                ensure!(
                    o[i + 1].iter().zip(&st[i + 1]).all(|(a, b)| a == b),
                    "training and inference disagree on exactly representable state {}: {} and {} ({})",
                    i + 1,
                    small(&o[i + 1]),
                    small(&st[i + 1]),
                    show(&specs)
                );
                ctx.label("states equal across modes");
                cur = Data { v: st[i + 1].clone(), q: r.q, kind: "state" };
            }
        }
        seen[w][m] = Some(st);
        if rig.train && s.chance(1, 2) {
            let osh = specs.last().unwrap().osh();
            let g = grad(s, osh.n(), true);
            let r = rig.net.backward(&mk(osh, &g.v)?);
            ensure!(r.is_ok(), "backward refused: {:?}", r);
            backs += 1;
        }
        for (l, ser) in rig.layers.iter().zip(&sers) {
            ensure!(same_serialized(&l.ser(), ser), "the parameters of a layer changed ({})", show(&specs));
        }
    }
    ctx.nontrivial = switches >= 2 && backs > 0;
    Ok(())
}

// ---------------------------------------------------------------- C17

pub fn c17() -> Property {
    Property {
        id: "C17",
        rule: "Training networks of 1-5 layers of all kinds, 1-3 rounds of an inference and one to three backward passes, with refused calls, mode switches and earlier inferences in between. The recording \
               wrappers must show one backward call per layer, last to first, with that layer's input, output and the next layer's gradient bit for bit; each \
               gradient is compared with the layer's reference and, without softmax or pooling, the whole chain with finite sums in double precision where \
               exactly representable. Non-trivial: at least two layers.",
        assumptions: &[FINITE],
        facets: vec![
            Facet { name: "chain", quick: 540_000, thorough: 6_480_000, run: c17_chain },
            Facet { name: "chain, large", quick: 60, thorough: 720, run: large!(c17_chain) },
            Facet { name: "chain, long", quick: 150, thorough: 1_800, run: long!(c17_chain) },
            Facet { name: "chain, lasting", quick: 24, thorough: 288, run: c17_lasting },
        ],
    }
}

/// The coarsest power of two all values are multiples of.
pub fn quantum(v: Vec<f32>) -> Data {
    let q = [1.0, 0.5, 0.25, 0.125, 0.0625, 1.0 / 64.0, 1.0 / 1024.0];
    let q = q.iter().copied().find(|q| v.iter().all(|x| (*x as f64 / q).fract() == 0.0)).unwrap_or(0.0);
    Data { v, q, kind: "state" }
}

/// One backward pass with everything about it checked.
pub fn backward_checked(rig: &mut Rig, g: &Data, ctx: &mut Ctx) -> R {
    let n = rig.specs.len();
    let osh = rig.specs[n - 1].osh();
    let held = rig.held.clone().unwrap();
    let before: Vec<_> = rig.layers.iter().map(|l| l.params_grad()).collect();
    rig.log.borrow_mut().clear();
    let tg = mk(osh, &g.v)?;
    if let Err(e) = rig.net.backward(&tg) {
        return fail(format!("backward refused a correct gradient: {} ({})", e, show(&rig.specs)));
    }
    unchanged("incoming gradient", &tg, osh, &g.v)?;
    rig.still("a backward pass")?;
    let log = rig.log.borrow();
    ensure!(log.len() == n, "{} layer calls in one backward pass through {} layers", log.len(), n);
    let mut cur = g.clone();
    for (step, e) in log.iter().enumerate() {
        let i = n - 1 - step;
        match e {
            Event::Backward { id, x, y, g: got, dx, ok } => {
                ensure!(*id == i && *ok, "backward called layer {} when it was layer {}'s turn", id, i);
                let sp = &rig.specs[i];
                ensure!(same_bits(&dump(x), &held[i]), "layer {} was not given its own input in backward ({})", i, show(&rig.specs));
                ensure!(same_bits(&dump(y), &held[i + 1]), "layer {} was not given its own output in backward ({})", i, show(&rig.specs));
                ensure!(
                    Sh::of(got.get_shape()) == sp.osh() && same_bits(&dump(got), &cur.v),
                    "layer {} was given gradient {} instead of {} ({})",
                    i,
                    small(&dump(got)),
                    small(&cur.v),
                    show(&rig.specs)
                );
                let xin = quantum(held[i].clone());
                if cur.v.iter().any(|v| !v.is_finite()) || xin.v.iter().any(|v| !v.is_finite()) {
                    ctx.label("skipped: non-finite");
                } else {
                    sp.check_dx(&format!("gradient at the input of layer {} of {}", i, show(&rig.specs)), &xin, &held[i + 1], &cur, dx, ctx)?;
                    if let (Some(b), Some(a)) = (&before[i], rig.layers[i].params_grad()) {
                        let rs = sp.grads(&xin, &held[i + 1], &cur).1;
                        ensure!(a.len() == rs.len(), "layer {} holds {} parameter gradients", i, a.len());
                        for (p, r) in rs.iter().enumerate() {
                            let mut r = r.clone();
                            let old = dump(&b[p]);
                            ensure!(old.len() == r.v.len(), "parameter gradient {} of layer {} has {} elements", p, i, old.len());
                            if old.iter().any(|v| !v.is_finite()) {
                                ctx.label("skipped: gradients that overflowed before");
                                continue;
                            }
                            let exact_old = r.q > 0.0 && old.iter().all(|v| (*v as f64 / r.q).fract() == 0.0);
                            if !exact_old {
                                r.q = 0.0;
                            }
                            r.terms += 1;
                            for k in 0..old.len() {
                                r.add(k, old[k] as f64);
                            }
                            agrees(&format!("parameter gradient {} of layer {} of {}", p, i, show(&rig.specs)), &a[p], &r, ctx)?;
                        }
                        ctx.label("parameter gradients compared");
                    }
                }
                cur = quantum(dump(dx));
            }
            Event::Forward { .. } => return fail("backward ran a forward pass"),
        }
    }
    drop(log);
    #[cfg(verif_hooks)]
    {
        let gs = rig.net.verif_gradients();
        ensure!(gs.len() == n + 1, "{} stored gradients for {} layers", gs.len(), n);
        ensure!(same_bits(&dump(&gs[0]), &cur.v), "the stored input gradient is not the one the first layer passed back");
    }
    Ok(())
}

fn c17_chain(s: &mut Src, ctx: &mut Ctx) -> R {
    let exactly = s.chance(2, 3);
    let specs = stack(s, 4, exactly, true);
    let start = s.chance(1, 2);
    let mut rig = Rig::of(&specs, start)?;
    if !start {
        if s.chance(1, 2) {
            let x = rig.input(s, exactly);
            rig.infer(&x, ctx)?;
        }
        rig.set(true);
        ctx.label("switched to training");
    }
    ctx.nontrivial = specs.len() > 1;
    for sp in &specs {
        ctx.label(KINDS[sp.kind()]);
    }
    ctx.note(|| format!("network {}", specs.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> ")));
    let osh = specs.last().unwrap().osh();
    let rounds = if specs.len() > 12 { 1 + s.below(3) } else { s.times(1, 3) };
    for r in 0..rounds {
        ctx.label_if(r > 0, "several rounds");
        if s.chance(1, 4) {
            let x = rig.input(s, exactly);
            rig.infer(&x, ctx)?;
            ctx.label("inference without backward before");
        }
        let x = rig.input(s, exactly);
        rig.infer(&x, ctx)?;
        if s.chance(1, 4) {
            // calls that must be refused and leave no trace
            if let Some(w) = wrong_input(s, osh) {
                let before: Vec<_> = rig.layers.iter().map(|l| l.params_grad()).collect();
                rig.log.borrow_mut().clear();
                let t = mk(w, &vec![1.0; w.n()])?;
                match no_panic(|| rig.net.backward(&t)) {
                    Err(m) => return fail(format!("backward with a gradient of shape {:?}: {}", w, m)),
                    Ok(Ok(())) => return fail(format!("backward accepted a gradient of shape {:?} instead of {:?}", w, osh)),
                    Ok(Err(_)) => {}
                }
                ensure!(rig.log.borrow().is_empty(), "a refused backward called layers");
                rig.still("a refused backward")?;
                for (l, b) in rig.layers.iter().zip(&before) {
                    if let (Some(a), Some(b)) = (l.params_grad(), b) {
                        ensure!(
                            a.iter().zip(b).all(|(p, q)| same_bits(&dump(p), &dump(q))),
                            "a refused backward changed parameter gradients"
                        );
                    }
                }
                ctx.label("wrong gradient shape refused");
            }
            if let Some(w) = wrong_input(s, specs[0].ish()) {
                ensure!(rig.net.infer(&Tensor::new(w.ts())).is_err(), "inference accepted shape {:?}", w);
            }
        }
        let g = if s.rarely(1, 12) {
            // whatever the gradient holds, it is handed on
            ctx.label("gradient of any content");
            let v = any_content(s, osh.n());
            quantum(v)
        } else {
            grad(s, osh.n(), exactly)
        };
        ctx.note(|| format!("infer {} backward {}", small(&x.v), small(&g.v)));
        backward_checked(&mut rig, &g, ctx)?;
        if s.chance(1, 4) {
            ctx.label("several backward passes after one inference");
            for _ in 0..1 + s.below(2) {
                let g = grad(s, osh.n(), exactly);
                ctx.note(|| format!("backward again {}", small(&g.v)));
                backward_checked(&mut rig, &g, ctx)?;
            }
        }
        if s.rarely(1, 8) {
            rig.set(false);
            rig.set(true);
            ctx.label("left and re-entered training");
        }
    }
    // whole-network relation for layers without kinks in the way
    if specs.iter().all(|l| l.kind() < 2) && s.chance(1, 3) {
        end_to_end(&mut rig, s, ctx)?;
    }
    Ok(())
}

/// Within one linear region, output differences equal gradients times input differences.
fn end_to_end(rig: &mut Rig, s: &mut Src, ctx: &mut Ctx) -> R {
    let specs = rig.specs.clone();
    let x = Data { v: expand(s, specs[0].ish().n(), |x| zz(x) as f32, 6), q: 1.0, kind: "ints" };
    let osh = specs.last().unwrap().osh();
    let g = Data { v: expand(s, osh.n(), |x| zz(x) as f32, 4), q: 1.0, kind: "ints" };
    rig.infer(&x, ctx)?;
    let y0 = rig.held.clone().unwrap();
    backward_checked(rig, &g, ctx)?;
    let dx = match rig.log.borrow().last() {
        Some(Event::Backward { dx, .. }) => dump(dx),
        _ => return Ok(()),
    };
    // a step along one input, evaluated by the reference in double precision
    let at = s.below(x.v.len());
    let f = |eps: f64| -> Option<(f64, bool)> {
        let mut v: Vec<f64> = x.v.iter().map(|a| *a as f64).collect();
        v[at] += eps;
        let mut same = true;
        for (i, sp) in specs.iter().enumerate() {
            v = pre64(sp, &v)?;
            for (p, a) in v.iter_mut().enumerate() {
                if (*a > 0.0) != (y0[i + 1][p] > 0.0) || a.abs() > 1e9 {
                    same = false;
                }
                *a = a.max(0.0);
            }
        }
        Some((v.iter().zip(&g.v).map(|(a, b)| a * *b as f64).sum(), same))
    };
    let e = 2f64.powi(-12);
    if let (Some((a, s1)), Some((b, s2))) = (f(-e), f(e)) {
        if s1 && s2 {
            let slope = (b - a) / (2.0 * e);
            let tol = 1e-3 * (slope.abs() + dx.iter().fold(0.0f64, |m, v| m.max(v.abs() as f64))) + 1e-3;
            ctx.label("whole-network slope compared");
            ctx.compared += 1;
            ensure!(
                (slope - dx[at] as f64).abs() <= tol,
                "backward reports slope {} along input {}, the network's own slope is {} ({})",
                dx[at],
                at,
                slope,
                show(&specs)
            );
        }
    }
    Ok(())
}

/// Pre-activation in double precision for double-precision inputs.
fn pre64(sp: &Spec, x: &[f64]) -> Option<Vec<f64>> {
    match sp {
        Spec::Fc { n, m, d, w, b, .. } => {
            let mut v = vec![0.0; (m * d) as usize];
            for k in 0..*d {
                for i in 0..*m {
                    let mut t = b.v[(i + m * k) as usize] as f64;
                    for j in 0..*n {
                        t += w.v[Sh(*m, *n, *d).at(i, j, k)] as f64 * x[(j + n * k) as usize];
                    }
                    v[(i + m * k) as usize] = t;
                }
            }
            Some(v)
        }
        Spec::Conv { g, ks, bs, .. } => {
            let mut v = vec![0.0; g.out.n()];
            for c in 0..g.out.2 {
                for j in 0..g.out.1 {
                    for i in 0..g.out.0 {
                        let mut t = bs.v[c as usize] as f64;
                        for kk in 0..g.ker.2 {
                            for kj in 0..g.ker.1 {
                                for ki in 0..g.ker.0 {
                                    t += ks[c as usize].v[g.ker.at(ki, kj, kk)] as f64
                                        * x[g.img.at(i * g.stride + ki, j * g.stride + kj, kk)];
                                }
                            }
                        }
                        v[g.out.at(i, j, c)] = t;
                    }
                }
            }
            Some(v)
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- C18

pub fn c18() -> Property {
    Property {
        id: "C18",
        rule: "Histories of 3-14 operations on a network (create in either mode, append, refused append, switch to either mode also when already active, infer, backward \
               before or after inference, with right and wrong gradients) against a one-bit model: reported mode, every layer's mode, and whether backward succeeds. Single \
               layers of all kinds: backward succeeds in training and errs in inference mode after any switches. Non-trivial: at least one switch with layers present.",
        assumptions: &[],
        facets: vec![
            Facet { name: "network", quick: 1_500_000, thorough: 18_000_000, run: c18_network },
            Facet { name: "layer", quick: 900_000, thorough: 10_800_000, run: c18_layer },
            Facet { name: "network, long", quick: 120, thorough: 1_440, run: long!(c18_network) },
            Facet { name: "network, lasting", quick: 24, thorough: 288, run: c18_net_lasting },
            Facet { name: "layer, long", quick: 480, thorough: 5_760, run: long!(c18_layer) },
            Facet { name: "layer, lasting", quick: 40, thorough: 480, run: super::layerprops::c18_lasting },
        ],
    }
}

fn modes_ok(rig: &Rig, after: &str) -> R {
    let want = mode_of(rig.train);
    ensure!(rig.net.get_run_state() == want, "after {} the network reports {:?}, last requested {:?}", after, rig.net.get_run_state(), want);
    ensure!(rig.net.get_layers().len() == rig.specs.len(), "after {} the network has {} layers, expected {}", after, rig.net.get_layers().len(), rig.specs.len());
    for (i, l) in rig.net.get_layers().iter().enumerate() {
        ensure!(l.get_run_mode() == want, "after {} layer {} ({}) is in {:?}, expected {:?}", after, i, rig.specs[i].short(), l.get_run_mode(), want);
    }
    Ok(())
}

/// What a correctly shaped tensor holds must not matter for whether a call succeeds.
fn any_content(s: &mut Src, n: usize) -> Vec<f32> {
    match s.weighted(&[5, 5, 1, 1, 1]) {
        0 => vec![1.0; n],
        1 => finite(s, n).v,
        2 => vec![0.0; n],
        3 => special(s, n).v,
        _ => anybits(s, n).v,
    }
}

fn c18_network(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut rig = Rig::new(s.chance(1, 2));
    ctx.note(|| format!("new network, training={}", rig.train));
    modes_ok(&rig, "creation")?;
    let mut switched = false;
    for _ in 0..s.times(3, 12) {
        let what: &'static str;
        match s.step(&[5, 4, 4, 3, 6, 1, 2]) {
            0 => {
                what = "adding a layer";
                if rig.specs.len() < if s.long { 120 } else { 5 } {
                    let sp = match rig.specs.last() {
                        None => stack(s, 1, true, true).remove(0),
                        Some(l) => {
                            let o = l.osh();
                            spec_on(s, o, true, true)
                        }
                    };
                    ctx.note(|| format!("add {}", sp.short()));
                    // the layer may come in any mode of its own
                    let l = sp.build()?;
                    l.set_mode(s.chance(1, 2));
                    let p = Probe { inner: l.clone(), id: rig.specs.len(), log: None, fault: Rc::new(Cell::new(Fault::None)) };
                    if let Err(e) = rig.net.add_layer(p) {
                        return fail(format!("adding {} to {} refused: {}", sp.short(), show(&rig.specs), e));
                    }
                    rig.layers.push(l);
                    rig.specs.push(sp);
                }
            }
            1 => {
                what = "switching to training";
                switched |= !rig.specs.is_empty();
                ctx.label_if(rig.train, "switch to the active mode");
                rig.set(true);
            }
            2 => {
                what = "switching to inference";
                switched |= !rig.specs.is_empty();
                ctx.label_if(!rig.train, "switch to the active mode");
                rig.set(false);
            }
            3 => {
                what = "inference";
                if !rig.specs.is_empty() {
                    let x = any_content(s, rig.specs[0].ish().n());
                    let r = rig.net.infer(&mk(rig.specs[0].ish(), &x)?);
                    ensure!(r.is_ok(), "inference refused: {:?} on {}", r, small(&x));
                }
            }
            4 => {
                what = "backward";
                let sh = match rig.specs.last() {
                    Some(l) => l.osh(),
                    None => [Sh(0, 0, 0), Sh(1, 1, 1), Sh(3, 1, 1)][s.below(3)],
                };
                let g = match rig.specs.last() {
                    Some(_) => mk(sh, &any_content(s, sh.n()))?,
                    None => {
                        let mut g = Tensor::new(sh.ts());
                        g.fill_with_value(1.0);
                        g
                    }
                };
                let want = rig.train && !rig.specs.is_empty();
                ctx.note(|| format!("backward, training={}", rig.train));
                ctx.compared += 1;
                match no_panic(|| rig.net.backward(&g)) {
                    Err(m) => return fail(format!("backward with training={} and {} layers: {}", rig.train, rig.specs.len(), m)),
                    Ok(r) => ensure!(
                        r.is_ok() == want,
                        "backward with a correctly shaped gradient gave {:?}; training={}, {} layers",
                        r,
                        rig.train,
                        rig.specs.len()
                    ),
                }
                ctx.label(if want { "backward accepted" } else { "backward refused" });
            }
            5 => {
                what = "a backward call of the wrong shape";
                if let Some(l) = rig.specs.last() {
                    if let Some(w) = wrong_input(s, l.osh()) {
                        match no_panic(|| rig.net.backward(&Tensor::new(w.ts()))) {
                            Err(m) => return fail(format!("backward of shape {:?}: {}", w, m)),
                            Ok(r) => ensure!(r.is_err(), "backward accepted shape {:?} instead of {:?}", w, l.osh()),
                        }
                    }
                }
            }
            _ => {
                what = "a refused layer";
                if let Some(l) = rig.specs.last() {
                    let o = l.osh();
                    if let Some(w) = wrong_input(s, o) {
                        let sp = spec_on(s, w, true, true);
                        ensure!(rig.add(&sp)?.is_err(), "{} was added to {}", sp.short(), show(&rig.specs));
                    }
                }
            }
        }
        ctx.note(|| format!("{} (training={})", what, rig.train));
        modes_ok(&rig, what)?;
        if !rig.specs.is_empty() && rig.net.get_run_state() == NetworkRunState::Training && s.chance(1, 6) {
            // training really works
            let x = rig.input(s, true);
            let r = rig.net.infer(&mk(rig.specs[0].ish(), &x.v)?);
            ensure!(r.is_ok(), "inference refused: {:?}", r);
            let mut g = Tensor::new(rig.specs.last().unwrap().osh().ts());
            g.fill_with_value(1.0);
            let r = rig.net.backward(&g);
            ensure!(r.is_ok(), "backward in training mode gave {:?} ({})", r, show(&rig.specs));
        }
    }
    ctx.nontrivial = switched;
    Ok(())
}

fn c18_layer(s: &mut Src, ctx: &mut Ctx) -> R {
    let kind = s.below(4);
    let sp = spec(s, kind, true);
    let l = sp.build()?;
    ctx.label(KINDS[kind]);
    ctx.note(|| sp.brief());
    let mut train = s.chance(1, 2);
    l.set_mode(train);
    for _ in 0..s.times(2, 6) {
        if if s.long { s.rarely(1, 2) } else { s.chance(1, 2) } {
            let to = s.chance(1, 2);
            ctx.nontrivial = true;
            ctx.label_if(to == train, "switch to the active mode");
            train = to;
            l.set_mode(train);
            ctx.note(|| format!("switch to training={}", train));
        }
        ensure!(l.mode() == mode_of(train), "a {} layer reports {:?}, last requested training={}", KINDS[kind], l.mode(), train);
        let x = mk(sp.ish(), &any_content(s, sp.ish().n()))?;
        let mut y = mk(sp.osh(), &vec![0.0; sp.osh().n()])?;
        let r = l.forward(&x, &mut y);
        ensure!(r.is_ok(), "forward of {} refused: {:?}", sp.short(), r);
        let mut dx = mk(sp.ish(), &vec![5.0; sp.ish().n()])?;
        let g = mk(sp.osh(), &any_content(s, sp.osh().n()))?;
        ctx.compared += 1;
        match no_panic(|| l.backward(&x, &y, &g, &mut dx)) {
            Err(m) => return fail(format!("backward of {} with training={}: {}", sp.short(), train, m)),
            Ok(r) => ensure!(r.is_ok() == train, "backward of {} with training={} gave {:?}", sp.short(), train, r),
        }
        ctx.label(if train { "backward accepted" } else { "backward refused" });
    }
    if train && kind < 2 {
        // and the accumulated gradients have the layer's parameter shapes
        if let Some(ps) = l.params_grad() {
            let zero = Data { v: vec![0.0; sp.osh().n()], q: 1.0, kind: "zero" };
            let x = Data { v: vec![0.0; sp.ish().n()], q: 1.0, kind: "zero" };
            let rs = sp.grads(&x, &zero.v, &zero).1;
            ensure!(
                ps.len() == rs.len() && ps.iter().zip(&rs).all(|(p, r)| Sh::of(p.get_shape()) == r.sh),
                "parameter gradients of {} have the wrong shapes",
                sp.short()
            );
            l.clear();
            let z: Vec<Rv> = rs.into_iter().map(|r| Rv::zeros(r.sh, 1.0, 0)).collect();
            check_params("after clearing", &sp, &l, &z, ctx)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- 65536 repetitions

/// A small network through more than 65536 repetitions of one operation; see
/// `endure` of single layers. Operations: 0 inference, 1 both passes, 2
/// backward alone, 3 mode switches, 4 refused calls.
pub fn endure_network(act: usize, s: &mut Src, ctx: &mut Ctx) -> R {
    const WHAT: [&str; 5] = ["inference", "both passes", "backward alone", "mode switches", "refused calls"];
    let what = WHAT[act];
    ctx.label(what);
    let mut specs = vec![];
    if s.chance(1, 2) {
        let kind = s.below(4);
        specs.push(tiny(s, kind));
    } else {
        let mut n = s.u(1, 2);
        for _ in 0..1 + s.below(2) {
            let m = s.u(1, 2);
            let w = Data { v: expand(s, (n * m) as usize, |x| zz(x) as f32, 4), q: 1.0, kind: "ints" };
            let b = Data { v: expand(s, m as usize, |x| zz(x) as f32, 4), q: 1.0, kind: "ints" };
            specs.push(Spec::Fc { n, m, d: 1, w, b, name: format!("layer {}", s.below(10)) });
            n = m;
        }
    }
    let train = act == 1 || act == 2 || s.chance(1, 2);
    let mut rig = Rig::of(&specs, train)?;
    let rounds = 65_560 + s.below(40);
    let (ish, osh) = (specs[0].ish(), specs[specs.len() - 1].osh());
    let x = Data { v: expand(s, ish.n(), |x| zz(x) as f32, 4), q: 1.0, kind: "ints" };
    let between = Data { v: expand(s, ish.n(), |x| zz(x) as f32, 4), q: 1.0, kind: "ints" };
    let g = Data { v: expand(s, osh.n(), |x| zz(x) as f32, 2), q: 1.0, kind: "ints" };
    ctx.note(|| {
        let stack = specs.iter().map(|l| l.brief()).collect::<Vec<_>>().join(" -> ");
        format!("{} {} times on {} input {}, in between {}, incoming {}", what, rounds, stack, small(&x.v), small(&between.v), small(&g.v))
    });
    let output = |rig: &Rig| rig.net.get_output().map(dump).unwrap_or_default();
    let (tx, tb) = (mk(ish, &x.v)?, mk(ish, &between.v)?);
    rig.infer(&between, ctx)?;
    let out_between = output(&rig);
    rig.infer(&x, ctx)?;
    let out = output(&rig);
    // what one pass adds to each layer's parameter gradients
    let mut one: Vec<Option<Vec<Vec<f32>>>> = vec![];
    let mut count = 0usize;
    if train {
        backward_checked(&mut rig, &g, ctx)?;
        one = rig.layers.iter().map(|l| l.params_grad().map(|p| p.iter().map(dump).collect())).collect();
        count = 1;
    }
    let tg = mk(osh, &g.v)?;
    let odd = mk(Sh(ish.0 + 1, ish.1, ish.2), &vec![1.0; Sh(ish.0 + 1, ish.1, ish.2).n()])?;
    for n in 1..=rounds {
        if act <= 1 {
            // inference alone takes another input in between
            let (t, out) = if act == 0 && n > 24 && n < 65_500 { (&tb, &out_between) } else { (&tx, &out) };
            if let Err(e) = rig.net.infer(t) {
                return fail(format!("inference {} of {} refused: {} ({})", n, rounds, e, show(&rig.specs)));
            }
            let got = output(&rig);
            ensure!(same_bits(&got, out), "inference {} of {} gives {} after {} before ({})", n, rounds, small(&got), small(out), show(&rig.specs));
        }
        if act == 1 || act == 2 {
            if let Err(e) = rig.net.backward(&tg) {
                return fail(format!("backward {} of {} refused: {} ({})", n, rounds, e, show(&rig.specs)));
            }
            count += 1;
        }
        if act == 3 {
            let to = !rig.train;
            rig.set(to);
            count = 0;
            ensure!(rig.net.get_run_state() == mode_of(to), "after switch {} the network reports {:?} ({})", n, rig.net.get_run_state(), show(&rig.specs));
        }
        if act == 4 {
            ensure!(rig.net.infer(&odd).is_err(), "inference {} accepted an input of a wrong shape ({})", n, show(&rig.specs));
            ensure!(rig.net.get_intermediate_state(specs.len() + 1 + n).is_err(), "there is a state {} ({})", specs.len() + 1 + n, show(&rig.specs));
        }
        rig.log.borrow_mut().clear();
    }
    let after = format!("{} times {}", rounds, what);
    rig.still(&after)?;
    modes_ok(&rig, &after)?;
    topology_ok(&rig, &after)?;
    if rig.train && !one.is_empty() {
        for (i, l) in rig.layers.iter().enumerate() {
            if let (Some(o), Some(p)) = (&one[i], l.params_grad()) {
                for (k, t) in p.iter().enumerate() {
                    for (a, b) in dump(t).iter().zip(&o[k]) {
                        let w = *b as f64 * count as f64;
                        let tol = if w.abs() < 16_777_216.0 { 0.0 } else { w.abs() * count as f64 * 1.2e-7 };
                        ensure!((*a as f64 - w).abs() <= tol, "after {} parameter gradient {} of layer {} holds {} instead of {} ({})", after, k, i, a, w, show(&rig.specs));
                    }
                }
            }
        }
    }
    rig.infer(&x, ctx)?;
    if rig.train {
        backward_checked(&mut rig, &g, ctx)?;
    } else {
        ensure!(rig.net.backward(&tg).is_err(), "after {} backward succeeds in inference mode", after);
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn c14_net_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = [3, 0][s.below(2)];
    endure_network(act, s, ctx)
}
fn c16_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = [0, 4][s.below(2)];
    endure_network(act, s, ctx)
}
fn c17_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = [1, 2][s.below(2)];
    endure_network(act, s, ctx)
}
fn c18_net_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let act = [3, 2][s.below(2)];
    endure_network(act, s, ctx)
}

/// A chain of more than 65536 layers that add 0 or 1 to one number.
pub fn long_chain(s: &mut Src, train: bool) -> Result<Rig, Fail> {
    let n = 65_537 + s.below(10);
    let mut rig = Rig::new(train);
    let kinds: Vec<u64> = expand(s, 16, |x| x, 2);
    for i in 0..n {
        let g = Geo { img: Sh(1, 1, 1), ker: Sh(1, 1, 1), stride: 1, out: Sh(1, 1, 1) };
        let name = format!("layer {}", i);
        let ints = |x: f32| Data { v: vec![x], q: 1.0, kind: "ints" };
        let sp = match kinds[i % 16] {
            0 => Spec::Fc { n: 1, m: 1, d: 1, w: ints(1.0), b: ints((i % 2) as f32), name },
            1 => Spec::Mp { g, name },
            _ => Spec::Conv { g, ks: vec![ints(1.0)], bs: ints(0.0), name },
        };
        if let Err(e) = rig.add(&sp)? {
            return fail(format!("adding layer {} refused: {}", i, e));
        }
    }
    Ok(rig)
}

/// Inference through such a chain, state by state.
pub fn chain_infers(net: &mut Network, specs: &[Spec]) -> R {
    let n = specs.len();
    if let Err(e) = net.infer(&mk(Sh(1, 1, 1), &[3.0])?) {
        return fail(format!("inference through {} layers refused: {}", n, e));
    }
    let mut cur = 3.0f32;
    for (i, sp) in specs.iter().enumerate() {
        if let Spec::Fc { b, .. } = sp {
            cur += b.v[0];
        }
        let t = net.get_intermediate_state(i + 1).map(dump).unwrap_or_default();
        ensure!(t == [cur], "state {} of a chain of {} layers is {:?} instead of {}", i + 1, n, t, cur);
    }
    ensure!(net.get_output().map(dump).unwrap_or_default() == [cur], "the output of a chain of {} layers is not its last state", n);
    Ok(())
}

fn c19_lasting(s: &mut Src, ctx: &mut Ctx) -> R {
    let train = s.chance(1, 2);
    let mut rig = long_chain(s, train)?;
    let n = rig.specs.len();
    let after = format!("adding {} layers", n);
    topology_ok(&rig, &after)?;
    modes_ok(&rig, &after)?;
    ensure!(rig.net.add_layer(tiny_probe(&rig)?).is_err(), "a layer of a wrong shape was appended to {} layers", n);
    topology_ok(&rig, &after)?;
    chain_infers(&mut rig.net, &rig.specs)?;
    if train {
        rig.log.borrow_mut().clear();
        if let Err(e) = rig.net.backward(&mk(Sh(1, 1, 1), &[2.0])?) {
            return fail(format!("backward through {} layers refused: {}", n, e));
        }
        let log = rig.log.borrow();
        ensure!(log.len() == n, "{} layer calls in one backward pass through {} layers", log.len(), n);
        for (step, e) in log.iter().enumerate() {
            match e {
                Event::Backward { id, dx, ok, .. } => {
                    ensure!(*id == n - 1 - step && *ok && dump(dx) == [2.0], "backward step {} through {} layers called layer {} and gave {:?}", step, n, id, dump(dx))
                }
                _ => return fail("backward ran a forward pass"),
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn tiny_probe(rig: &Rig) -> Result<Probe, Fail> {
    let sp = Spec::Sm { sh: Sh(2, 1, 1), name: "wrong".into() };
    Ok(Probe { inner: sp.build()?, id: usize::MAX, log: Some(rig.log.clone()), fault: Rc::new(Cell::new(Fault::None)) })
}

// ---------------------------------------------------------------- C19

pub fn c19() -> Property {
    Property {
        id: "C19",
        rule: "Histories of up to 10 attempts to append matching or mismatching layers (one extent off, extents swapped, same element count in another shape) to a network \
               in either mode, with inferences, backward passes and mode switches in between, against a model list of shapes: acceptance, reported shapes, layer names, number and shapes of stored states, \
               and bit-identical stored states and later results after refusals. Non-trivial: at least one refusal and one acceptance after it.",
        assumptions: &[],
        facets: vec![
            Facet { name: "append", quick: 1_300_000, thorough: 15_600_000, run: c19_append },
            Facet { name: "append, long", quick: 100, thorough: 1_200, run: long!(c19_append) },
            Facet { name: "append, lasting", quick: 4, thorough: 48, run: c19_lasting },
        ],
    }
}

fn topology_ok(rig: &Rig, after: &str) -> R {
    let n = rig.specs.len();
    let net = &rig.net;
    ensure!(net.get_layers().len() == n, "after {}: {} layers, expected {}", after, net.get_layers().len(), n);
    if n == 0 {
        ensure!(net.get_output().is_err(), "an empty network has an output");
        return Ok(());
    }
    ensure!(
        Sh::of(net.get_input_shape()) == rig.specs[0].ish(),
        "after {}: network input shape {:?}, first layer takes {:?}",
        after,
        Sh::of(net.get_input_shape()),
        rig.specs[0].ish()
    );
    ensure!(
        Sh::of(net.get_output_shape()) == rig.specs[n - 1].osh(),
        "after {}: network output shape {:?}, last layer gives {:?}",
        after,
        Sh::of(net.get_output_shape()),
        rig.specs[n - 1].osh()
    );
    for (i, l) in net.get_layers().iter().enumerate() {
        ensure!(
            l.get_name() == *rig.specs[i].name() && Sh::of(l.get_input_shape()) == rig.specs[i].ish() && Sh::of(l.get_output_shape()) == rig.specs[i].osh(),
            "after {}: layer {} is not {}",
            after,
            i,
            rig.specs[i].short()
        );
    }
    for i in 0..=n {
        let want = if i == 0 { rig.specs[0].ish() } else { rig.specs[i - 1].osh() };
        match net.get_intermediate_state(i) {
            Ok(t) => ensure!(Sh::of(t.get_shape()) == want, "after {}: state {} has shape {:?}, expected {:?}", after, i, Sh::of(t.get_shape()), want),
            Err(e) => return fail(format!("after {}: no state {}: {}", after, i, e)),
        }
    }
    ensure!(net.get_intermediate_state(n + 1).is_err(), "after {}: there is a state {} with {} layers", after, n + 1, n);
    ensure!(net.get_intermediate_state(usize::MAX).is_err(), "there is a state usize::MAX");
    match net.get_output() {
        Ok(t) => ensure!(Sh::of(t.get_shape()) == rig.specs[n - 1].osh(), "after {}: output has shape {:?}", after, Sh::of(t.get_shape())),
        Err(e) => return fail(format!("after {}: no output: {}", after, e)),
    }
    #[cfg(verif_hooks)]
    {
        let gs = net.verif_gradients();
        if rig.train {
            ensure!(gs.len() == n + 1, "after {}: {} stored gradients for {} layers", after, gs.len(), n);
            for (i, t) in gs.iter().enumerate() {
                let want = if i == 0 { rig.specs[0].ish() } else { rig.specs[i - 1].osh() };
                ensure!(Sh::of(t.get_shape()) == want, "after {}: stored gradient {} has shape {:?}, expected {:?}", after, i, Sh::of(t.get_shape()), want);
            }
        }
    }
    Ok(())
}

fn c19_append(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut rig = Rig::new(s.chance(1, 2));
    topology_ok(&rig, "creation")?;
    let (mut refusals, mut after_refusal) = (0, false);
    for _ in 0..s.times(3, 8) {
        match s.step(&[6, 5, 3, 2, 2]) {
            0 => {
                if rig.specs.len() >= if s.long { 120 } else { 6 } {
                    continue;
                }
                let sp = match rig.specs.last() {
                    None => {
                        let k = s.below(4);
                        spec(s, k, true)
                    }
                    Some(l) => {
                        let o = l.osh();
                        spec_on(s, o, true, true)
                    }
                };
                ctx.note(|| format!("add {}", sp.short()));
                let old = if rig.held.is_some() { rig.held.clone() } else { None };
                ctx.compared += 1;
                if let Err(e) = rig.add(&sp)? {
                    return fail(format!("adding {} to {} refused: {}", sp.short(), show(&rig.specs), e));
                }
                after_refusal |= refusals > 0;
                if let Some(h) = old {
                    let st = rig.states()?;
                    for i in 0..h.len() {
                        ensure!(same_bits(&h[i], &st[i]), "appending changed stored state {}", i);
                    }
                    rig.held = None;
                }
                topology_ok(&rig, "an accepted layer")?;
            }
            1 => {
                let o = match rig.specs.last() {
                    None => continue,
                    Some(l) => l.osh(),
                };
                let w = match wrong_input(s, o) {
                    None => continue,
                    Some(w) => w,
                };
                let sp = spec_on(s, w, true, true);
                ctx.note(|| format!("add mismatching {}", sp.short()));
                let before = rig.states()?;
                ctx.compared += 1;
                match no_panic(|| rig.add(&sp)) {
                    Err(m) => return fail(format!("adding {} to {}: {}", sp.short(), show(&rig.specs), m)),
                    Ok(r) => ensure!(r?.is_err(), "{} was added to {} although its input is not {:?}", sp.short(), show(&rig.specs), o),
                }
                let st = rig.states()?;
                ensure!(before.iter().zip(&st).all(|(a, b)| same_bits(a, b)), "a refused layer changed the stored states of {}", show(&rig.specs));
                ensure!(rig.net.get_run_state() == mode_of(rig.train), "a refused layer changed the mode");
                topology_ok(&rig, "a refused layer")?;
                refusals += 1;
                ctx.label("refused");
            }
            2 => {
                if rig.specs.is_empty() {
                    continue;
                }
                let x = rig.input(s, true);
                rig.infer(&x, ctx)?;
                topology_ok(&rig, "inference")?;
                let mut fresh = Rig::of(&rig.specs, rig.train)?;
                fresh.infer(&x, ctx)?;
                let (a, b) = (rig.held.as_ref().unwrap(), fresh.held.as_ref().unwrap());
                ensure!(a.iter().zip(b).all(|(p, q)| same_bits(p, q)), "results after refusals differ from those of a new network ({})", show(&rig.specs));
                ctx.label_if(refusals > 0, "inference after a refusal");
            }
            3 => {
                let to = s.chance(1, 2);
                rig.set(to);
                topology_ok(&rig, "a mode switch")?;
            }
            _ => {
                if rig.specs.is_empty() || !rig.train {
                    continue;
                }
                let x = rig.input(s, true);
                rig.infer(&x, ctx)?;
                let g = grad(s, rig.specs.last().unwrap().osh().n(), true);
                backward_checked(&mut rig, &g, ctx)?;
                topology_ok(&rig, "a backward pass")?;
                ctx.label_if(refusals > 0, "backward after a refusal");
            }
        }
    }
    ctx.nontrivial = after_refusal;
    Ok(())
}
