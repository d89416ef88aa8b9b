PROPERTY='C17'
NEEDS='two backward passes in a row with the same incoming gradient, for another input or to accumulate twice'
BREAKS='network backward returns at once when the incoming gradient is the one it holds already, although the states have changed'
EDITS=[('src/network.rs','''        self.intermediate_gradients[number_of_layers] = incoming_loss_gradient.clone();''','''        let held = &mut self.intermediate_gradients[number_of_layers];
        if held == incoming_loss_gradient {
            // Everything behind it is still there
            return Ok(());
        }
        *held = incoming_loss_gradient.clone();'''),
]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Training);
    let mut f = FullyConnectedLayer::new(1, 1, &name());
    f.fill_weights_with_value(1.0);
    n.add_layer(f).unwrap();
    let g = t(sh(1, 1, 1), &[1.]);
    for x in [2., 3.] {
        n.infer(&t(sh(1, 1, 1), &[x])).unwrap();
        n.backward(&g).unwrap();
    }
    let mut grads = vec![];
    // the gradient of the weight is the sum of both inputs: seen through a second network
    struct Spy(FullyConnectedLayer, std::rc::Rc<std::cell::RefCell<u32>>);
    impl Layer for Spy {
        fn forward(&mut self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> {
            self.0.forward(x, y)
        }
        fn backward(&mut self, a: &Tensor, b: &Tensor, g: &Tensor, o: &mut Tensor) -> Result<(), &'static str> {
            *self.1.borrow_mut() += 1;
            self.0.backward(a, b, g, o)
        }
        fn clear_gradients(&mut self) {
            self.0.clear_gradients()
        }
        fn switch_to_training(&mut self) {
            self.0.switch_to_training()
        }
        fn switch_to_inference(&mut self) {
            self.0.switch_to_inference()
        }
        fn get_run_mode(&self) -> NetworkRunState {
            self.0.get_run_mode()
        }
        fn get_input_shape(&self) -> TensorShape {
            self.0.get_input_shape()
        }
        fn get_output_shape(&self) -> TensorShape {
            self.0.get_output_shape()
        }
        fn get_name(&self) -> String {
            self.0.get_name()
        }
        fn get_serialized(&self) -> SerializedLayer {
            self.0.get_serialized()
        }
        fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
            self.0.load_from_serialized(s)
        }
    }
    let calls = std::rc::Rc::new(std::cell::RefCell::new(0));
    let mut n = Network::new(NetworkRunState::Training);
    n.add_layer(Spy(FullyConnectedLayer::new(1, 1, &name()), calls.clone())).unwrap();
    for x in [2., 3.] {
        n.infer(&t(sh(1, 1, 1), &[x])).unwrap();
        n.backward(&g).unwrap();
        grads.push(*calls.borrow());
    }
    assert_eq!(grads, vec![1, 2]);
}
'''
