PROPERTY='C30'
NEEDS='setting the bias of a fully connected layer in training mode between a forward and a backward pass, or after passes whose gradients are still needed'
BREAKS='fill_bias_with_value makes a new bias and renews the training tensors with it, so accumulated gradients and the ReLU mask are lost'
EDITS=[('src/layer/fully_connected.rs','''        self.bias.fill_with_value(value);''','''        let mut bias = Tensor::new(self.bias.get_shape());
        bias.fill_with_value(value);
        self.bias = bias;
        self.update_gradient_and_intermediate_tensors();'''),
]
DEMO='''fn main() {
    let mut f = FullyConnectedLayer::new(1, 1, &name());
    f.fill_weights_with_value(2.0);
    f.switch_to_training();
    let x = t(sh(1, 1, 1), &[3.]);
    let mut y = Tensor::new(sh(1, 1, 1));
    f.forward(&x, &mut y).unwrap();
    f.fill_bias_with_value(1.0);
    let mut d = Tensor::new(sh(1, 1, 1));
    f.backward(&x, &y, &t(sh(1, 1, 1), &[1.]), &mut d).unwrap();
    assert_eq!(all(&d), vec![2.]);
}
'''
