PROPERTY='C24'
NEEDS='a fully connected layer filled with a bias that lies in a row instead of a column'
BREAKS='the bias is only compared by its number of items, so the layer is accepted but cannot compute anything'
EDITS=[('src/layer/fully_connected.rs','''        if weight_shape.di != bias_shape.di {
            return Err("First dimension of bias and weight don't match");
        }
        if bias_shape.dj != 1 {
            return Err("The second dimension of bias must be 1");
        }
''','''        if weight_shape.di * weight_shape.dk != bias_shape.total_size() {
            return Err("Number of items of bias and weight don't match");
        }
''')]
DEMO='''fn main() {
    let mut l = FullyConnectedLayer::empty();
    let r = l.fill_from_state(Tensor::new(sh(3, 2, 1)), Tensor::new(sh(1, 3, 1)), &name());
    assert!(r.is_err());
}
'''
