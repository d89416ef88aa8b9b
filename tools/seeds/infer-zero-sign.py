PROPERTY='C16'
NEEDS='two inferences in a row whose inputs differ only in the sign of a zero'
BREAKS='infer keeps its former copy of the input when the new one compares equal, so the sign of a zero is that of the former input'
EDITS=[('src/network.rs','''        self.intermediate_states[0] = input.clone();
''','''        // No need to copy an input that is already there
        if self.intermediate_states[0] != *input {
            self.intermediate_states[0] = input.clone();
        }
''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(MaxPoolLayer::new(sh(1, 1, 1), sh(2, 2, 1), 1, &name()).unwrap()).unwrap();
    n.infer(&t(sh(2, 2, 1), &[0.0, 1.0, 2.0, 3.0])).unwrap();
    n.infer(&t(sh(2, 2, 1), &[-0.0, 1.0, 2.0, 3.0])).unwrap();
    assert!(n.get_intermediate_state(0).unwrap().get_item(&at(0, 0, 0)).is_sign_negative());
    assert!(n.get_output().unwrap().get_item(&at(0, 0, 0)).is_sign_negative());
}
'''
