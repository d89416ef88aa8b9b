PROPERTY='C21'
NEEDS='loading a fully connected layer into one of the same name and shape with other parameters'
BREAKS='the parameters are taken as loaded already, the old ones stay'
EDITS=[('src/layer/fully_connected.rs','''        return self.fill_from_state(weights, bias, &name);''','''        let loaded = name == self.name && weights.get_shape() == self.weights.get_shape();
        return match loaded {
            true => Ok(()),
            false => self.fill_from_state(weights, bias, &name),
        };''')]
DEMO='''fn main() {
    let mut a = FullyConnectedLayer::new(2, 2, &name());
    a.fill_weights_with_value(3.0);
    let mut b = FullyConnectedLayer::new(2, 2, &name());
    b.load_from_serialized(&a.get_serialized()).unwrap();
    let mut y = Tensor::new(sh(2, 1, 1));
    b.forward(&t(sh(2, 1, 1), &[1.0, 1.0]), &mut y).unwrap();
    assert_eq!(all(&y), vec![6.0, 6.0]);
}
'''
