PROPERTY='C15'
NEEDS='accumulated gradients that overflowed to infinity (or are not a number) before they are cleared'
BREAKS='clearing multiplies the gradients by zero, so infinities turn into not-a-number and stay for good'
EDITS=[('src/layer/fully_connected.rs','''        self.weights_gradients.fill_with_value(0.0);
        self.bias_gradients.fill_with_value(0.0);''','''        Tensor::scale_self(&mut self.weights_gradients, 0.0);
        Tensor::scale_self(&mut self.bias_gradients, 0.0);''')]
DEMO='''fn main() {
    let mut l = FullyConnectedLayer::new(1, 1, &name());
    l.fill_weights_with_value(1.0);
    l.switch_to_training();
    let x = t(sh(1, 1, 1), &[1e30]);
    let mut y = Tensor::new(sh(1, 1, 1));
    let mut o = Tensor::new(sh(1, 1, 1));
    for _ in 0..2 {
        l.forward(&x, &mut y).unwrap();
        l.backward(&x, &y, &t(sh(1, 1, 1), &[1e30]), &mut o).unwrap();
    }
    l.clear_gradients();
    let (w, b) = l.verif_gradients();
    assert_eq!(all(w), vec![0.0]);
    assert_eq!(all(b), vec![0.0]);
}
'''
HOOKS=True
