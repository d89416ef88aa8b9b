PROPERTY='C17'
NEEDS='two training passes, the second with a gradient that is zero (or vanishes on the way, for instance behind inactive units)'
BREAKS='a layer is not run backward when its incoming gradient is zero, so the gradient it handed back earlier is propagated again by the layers before it'
EDITS=[('src/network.rs','''            // Propagate through network
            layer.backward(input, output, incoming_gradient, outgoing_gradient)?;''','''            // A gradient that vanished has nothing to tell to this layer
            if incoming_gradient.get_norm() > 0.0 || i == 0 {
                // Propagate through network
                layer.backward(input, output, incoming_gradient, outgoing_gradient)?;
            }''')]
DEMO='''use std::cell::RefCell;
use std::rc::Rc;
struct Probe {
    inner: FullyConnectedLayer,
    seen: Rc<RefCell<Vec<Vec<f32>>>>,
}
impl Layer for Probe {
    fn forward(&mut self, i: &Tensor, o: &mut Tensor) -> Result<(), &'static str> {
        self.inner.forward(i, o)
    }
    fn backward(&mut self, i: &Tensor, o: &Tensor, g: &Tensor, r: &mut Tensor) -> Result<(), &'static str> {
        self.seen.borrow_mut().push(all(g));
        self.inner.backward(i, o, g, r)
    }
    fn clear_gradients(&mut self) {
        self.inner.clear_gradients()
    }
    fn switch_to_training(&mut self) {
        self.inner.switch_to_training()
    }
    fn switch_to_inference(&mut self) {
        self.inner.switch_to_inference()
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.inner.get_run_mode()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.inner.get_input_shape()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.inner.get_output_shape()
    }
    fn get_name(&self) -> String {
        self.inner.get_name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.inner.get_serialized()
    }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
        self.inner.load_from_serialized(s)
    }
}
fn main() {
    let seen = Rc::new(RefCell::new(vec![]));
    let mut n = Network::new(NetworkRunState::Training);
    let mut a = FullyConnectedLayer::new(1, 1, &name());
    a.fill_weights_with_value(1.0);
    n.add_layer(Probe { inner: a, seen: seen.clone() }).unwrap();
    let mut b = FullyConnectedLayer::new(1, 1, &name());
    b.fill_weights_with_value(2.0);
    n.add_layer(b).unwrap();
    let x = t(sh(1, 1, 1), &[1.]);
    n.infer(&x).unwrap();
    n.backward(&t(sh(1, 1, 1), &[3.])).unwrap();
    n.infer(&x).unwrap();
    n.backward(&t(sh(1, 1, 1), &[0.])).unwrap();
    assert_eq!(*seen.borrow(), vec![vec![6.0], vec![0.0]]);
}
'''
