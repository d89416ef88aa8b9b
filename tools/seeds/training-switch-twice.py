PROPERTY='C18'
NEEDS='a network switched to inference and back to training, with a layer appended while it was in inference'
BREAKS='the gradients between the layers are kept over a stay in inference, so after an append there is one too few and backward panics'
EDITS=[('src/network.rs','''        self.intermediate_gradients = vec![];
        for int_state in self.intermediate_states.iter() {
            self.intermediate_gradients
                .push(Tensor::new(int_state.get_shape()));
        }''','''        if self.intermediate_gradients.is_empty() {
            for int_state in self.intermediate_states.iter() {
                self.intermediate_gradients
                    .push(Tensor::new(int_state.get_shape()));
            }
        }'''),('src/network.rs','''        // No need to keep track of intermediate gradients
        self.intermediate_gradients = vec![];''','''        // The intermediate gradients are cleared for the next training
        for gradient in self.intermediate_gradients.iter_mut() {
            gradient.fill_with_value(0.0);
        }''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Training);
    n.add_layer(FullyConnectedLayer::new(1, 1, &name())).unwrap();
    n.switch_to_inference();
    n.add_layer(FullyConnectedLayer::new(1, 1, &name())).unwrap();
    n.switch_to_training();
    n.infer(&Tensor::new(sh(1, 1, 1))).unwrap();
    assert!(n.backward(&Tensor::new(sh(1, 1, 1))).is_ok());
}
'''
