PROPERTY='C16'
NEEDS='a network of more than 255 layers'
BREAKS='the layers are counted in a byte during inference, so only the remainder of a deep network is run'
EDITS=[('src/network.rs','''        for i in 0..self.layers.len() {
            // Split up the slice into two mutable slices
            // This is required to be able to both borrow the output mutably and the input immutably
            let (input_slice''','''        for i in 0..self.layers.len() as u8 {
            let i = i as usize;
            // Split up the slice into two mutable slices
            // This is required to be able to both borrow the output mutably and the input immutably
            let (input_slice''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    for _ in 0..270 {
        let mut l = FullyConnectedLayer::new(1, 1, &name());
        l.fill_weights_with_value(1.0);
        l.fill_bias_with_value(1.0);
        n.add_layer(l).unwrap();
    }
    n.infer(&t(sh(1, 1, 1), &[2.0])).unwrap();
    assert_eq!(all(n.get_output().unwrap()), vec![272.0]);
}
'''
