PROPERTY='C17'
NEEDS='more than 65536 backward passes of one network without leaving training mode'
BREAKS='the first backward pass after a switch to training clears what the layers accumulated before; the passes are counted in 16 bits, so pass 65537 clears as well'
EDITS=[('src/network.rs','''        let number_of_layers = self.layers.len();
        // Copy''','''        // Start from clean gradients
        if self.passes == 0 {
            for layer in self.layers.iter_mut() {
                layer.clear_gradients();
            }
        }
        self.passes = self.passes.wrapping_add(1);

        let number_of_layers = self.layers.len();
        // Copy'''),
('src/network.rs','''    run_state: NetworkRunState,
}
''','''    run_state: NetworkRunState,
    passes: u16,
}
'''),
('src/network.rs','''            run_state: run_state,
        };''','''            run_state,
            passes: 0,
        };'''),
('src/network.rs','''    pub fn switch_to_training(&mut self) {
        self.run_state = NetworkRunState::Training;
''','''    pub fn switch_to_training(&mut self) {
        self.passes = 0;
        self.run_state = NetworkRunState::Training;
'''),
]
DEMO='''use std::cell::RefCell;
use std::rc::Rc;
struct Shared(Rc<RefCell<FullyConnectedLayer>>);
impl Layer for Shared {
    fn forward(&mut self, a: &Tensor, b: &mut Tensor) -> Result<(), &'static str> { self.0.borrow_mut().forward(a, b) }
    fn backward(&mut self, a: &Tensor, b: &Tensor, c: &Tensor, d: &mut Tensor) -> Result<(), &'static str> { self.0.borrow_mut().backward(a, b, c, d) }
    fn clear_gradients(&mut self) { self.0.borrow_mut().clear_gradients() }
    fn switch_to_training(&mut self) { self.0.borrow_mut().switch_to_training() }
    fn switch_to_inference(&mut self) { self.0.borrow_mut().switch_to_inference() }
    fn get_run_mode(&self) -> NetworkRunState { self.0.borrow().get_run_mode() }
    fn get_input_shape(&self) -> TensorShape { self.0.borrow().get_input_shape() }
    fn get_output_shape(&self) -> TensorShape { self.0.borrow().get_output_shape() }
    fn get_name(&self) -> String { self.0.borrow().get_name() }
    fn get_serialized(&self) -> SerializedLayer { self.0.borrow().get_serialized() }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> { self.0.borrow_mut().load_from_serialized(s) }
}
fn main() {
    let mut l = FullyConnectedLayer::new(1, 1, &name());
    l.fill_weights_with_value(1.0);
    let l = Rc::new(RefCell::new(l));
    let mut n = Network::new(NetworkRunState::Training);
    n.add_layer(Shared(l.clone())).unwrap();
    n.infer(&t(sh(1, 1, 1), &[1.0])).unwrap();
    for _ in 0..65540 {
        n.backward(&t(sh(1, 1, 1), &[1.0])).unwrap();
    }
    assert_eq!(all(l.borrow().verif_gradients().0), vec![65540.0]);
}
'''
HOOKS=True
