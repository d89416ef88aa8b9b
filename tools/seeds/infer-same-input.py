PROPERTY='C16'
NEEDS='the same input twice, with the layer of a network given other parameters in between (a layer of the user that shares its parameters)'
BREAKS='an inference on the input that is already stored is taken as done'
EDITS=[('src/network.rs','''        // Copy the input tensor into the intermediate states vector
        self.intermediate_states[0] = input.clone();
''','''        // Copy the input tensor into the intermediate states vector
        if self.inferred == self.layers.len() && self.intermediate_states[0] == *input {
            return Ok(());
        }
        self.inferred = 0;
        self.intermediate_states[0].clone_from(input);
'''),
('src/network.rs','''            layer.forward(input_tensor, output_tensor)?;
        }
''','''            layer.forward(input_tensor, output_tensor)?;
        }
        // Layers keep their masks, only inference can be left out
        if self.run_state == NetworkRunState::Inference {
            self.inferred = self.layers.len();
        }
'''),
('src/network.rs','''            intermediate_states: vec![],
            intermediate_gradients: vec![],
            run_state: run_state,''','''            intermediate_states: vec![],
            intermediate_gradients: vec![],
            inferred: 0,
            run_state: run_state,'''),
('src/network.rs','''    intermediate_gradients: Vec<Tensor>,
    input_shape''','''    intermediate_gradients: Vec<Tensor>,
    // Number of layers that were run on the stored input
    inferred: usize,
    input_shape'''),
('src/network.rs','''    pub fn switch_to_training(&mut self) {
''','''    pub fn switch_to_training(&mut self) {
        self.inferred = 0;
'''),
]
DEMO='''use std::{cell::RefCell, rc::Rc};
// A layer whose parameters can be reached from outside
struct L(Rc<RefCell<FullyConnectedLayer>>);
impl Layer for L {
    fn forward(&mut self, a: &Tensor, b: &mut Tensor) -> Result<(), &'static str> { self.0.borrow_mut().forward(a, b) }
    fn backward(&mut self, a: &Tensor, b: &Tensor, c: &Tensor, d: &mut Tensor) -> Result<(), &'static str> { self.0.borrow_mut().backward(a, b, c, d) }
    fn clear_gradients(&mut self) { self.0.borrow_mut().clear_gradients() }
    fn switch_to_training(&mut self) { self.0.borrow_mut().switch_to_training() }
    fn switch_to_inference(&mut self) { self.0.borrow_mut().switch_to_inference() }
    fn get_run_mode(&self) -> NetworkRunState { self.0.borrow().get_run_mode() }
    fn get_input_shape(&self) -> TensorShape { self.0.borrow().get_input_shape() }
    fn get_output_shape(&self) -> TensorShape { self.0.borrow().get_output_shape() }
    fn get_name(&self) -> String { self.0.borrow().get_name() }
    fn get_serialized(&self) -> SerializedLayer { self.0.borrow().get_serialized() }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> { self.0.borrow_mut().load_from_serialized(s) }
}
fn main() {
    let l = Rc::new(RefCell::new(FullyConnectedLayer::new(1, 1, &name())));
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(L(l.clone())).unwrap();
    let x = t(sh(1, 1, 1), &[2.0]);
    for w in [1.0, 5.0] {
        l.borrow_mut().fill_weights_with_value(w);
        n.infer(&x).unwrap();
        assert_eq!(all(n.get_output().unwrap()), vec![2.0 * w]);
    }
}
'''
