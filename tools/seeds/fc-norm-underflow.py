PROPERTY='C11'
NEEDS='an incoming gradient whose items are not zero but whose squares all underflow'
BREAKS='the fully connected layer skips its gradients when the sum of squares of the masked gradient is zero, which it also is for tiny gradients'
EDITS=[('src/layer/fully_connected.rs','''            // outgoing gradient
            Tensor::matrix_multiply_transpose_first(
                &self.weights,
                &masked_gradient,
                outgoing_gradient,
            )?;
            return Ok(());''','''            // outgoing gradient, nothing to multiply when nothing comes in
            let shape = masked_gradient.get_shape();
            let mut power: f32 = 0.0;
            for k in 0..shape.dk {
                for i in 0..shape.di {
                    let item = masked_gradient.get_item(&crate::tensor::helper::TensorIndex { i, j: 0, k });
                    power += item * item;
                }
            }
            if power == 0.0 {
                outgoing_gradient.fill_with_value(0.0);
            } else {
                Tensor::matrix_multiply_transpose_first(
                    &self.weights,
                    &masked_gradient,
                    outgoing_gradient,
                )?;
            }
            return Ok(());''')]
DEMO='''fn main() {
    let mut l = FullyConnectedLayer::new(1, 1, &String::from("l"));
    l.fill_weights_with_value(1.0);
    l.switch_to_training();
    let x = t(sh(1, 1, 1), &[1.0]);
    let mut y = Tensor::new(sh(1, 1, 1));
    l.forward(&x, &mut y).unwrap();
    let mut g = Tensor::new(sh(1, 1, 1));
    l.backward(&x, &y, &t(sh(1, 1, 1), &[1e-30]), &mut g).unwrap();
    assert_eq!(all(&g), vec![1e-30]);
}
'''
