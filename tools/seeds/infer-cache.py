PROPERTY='C16'
NEEDS='an inference, then a layer appended, then an inference on the same input'
BREAKS='an inference on the input seen last is answered from the stored states, although a layer appended since has never run'
EDITS=[('src/network.rs','''        // Copy the input tensor into the intermediate states vector
        self.intermediate_states[0] = input.clone();
''','''        // Nothing to do when this is the input we have the states for
        let seen = self.run_state == NetworkRunState::Inference
            && input.get_norm() > 0.0
            && self.intermediate_states[0] == *input;
        if seen {
            return Ok(());
        }

        // Copy the input tensor into the intermediate states vector
        self.intermediate_states[0].clone_from(input);
''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    let mut a = FullyConnectedLayer::new(2, 2, &name());
    a.fill_weights_with_value(1.0);
    n.add_layer(a).unwrap();
    let x = t(sh(2, 1, 1), &[1., 2.]);
    n.infer(&x).unwrap();
    assert_eq!(all(n.get_output().unwrap()), vec![3., 3.]);
    let mut b = FullyConnectedLayer::new(2, 1, &name());
    b.fill_weights_with_value(2.0);
    n.add_layer(b).unwrap();
    n.infer(&x).unwrap();
    assert_eq!(all(n.get_output().unwrap()), vec![12.]);
}
'''
