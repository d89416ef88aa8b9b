PROPERTY='C16'
NEEDS='two inferences in a row whose inputs differ but have the same norm'
BREAKS='the input is copied into the stored states only when its norm differs from that of the one already there'
EDITS=[('src/network.rs','''        self.intermediate_states[0] = input.clone();''','''        let held = &mut self.intermediate_states[0];
        if held.get_norm() != input.get_norm() {
            *held = input.clone();
        }'''),
]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(SoftmaxLayer::new(sh(2, 1, 1), &name()).unwrap()).unwrap();
    n.infer(&t(sh(2, 1, 1), &[1., 2.])).unwrap();
    let a = all(n.get_output().unwrap());
    n.infer(&t(sh(2, 1, 1), &[2., 1.])).unwrap();
    let b = all(n.get_output().unwrap());
    assert!(a[0] < a[1] && b[0] > b[1]);
}
'''
