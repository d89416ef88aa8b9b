PROPERTY='C15'
NEEDS='a convolutional layer with several kernels of which the first gathered no gradient (its channel is cut by ReLU) when the gradients are cleared'
BREAKS='clearing stops at a kernel gradient that is already zero'
EDITS=[('src/layer/convolutional.rs','''        for v in &mut self.kernel_gradients {''','''        for v in self.kernel_gradients.iter_mut().take_while(|g| g.get_norm() != 0.0) {''')]
DEMO='''fn main() {
    let mut l = ConvolutionalLayer::new(sh(1, 1, 1), sh(1, 1, 1), 1, 2, &name()).unwrap();
    l.fill_from_state(vec![t(sh(1, 1, 1), &[-1.0]), t(sh(1, 1, 1), &[1.0])], vec![Tensor::new(sh(1, 1, 1)); 2], sh(1, 1, 1), 1, &name()).unwrap();
    l.switch_to_training();
    let x = t(sh(1, 1, 1), &[1.0]);
    let mut y = Tensor::new(sh(1, 1, 2));
    let mut o = Tensor::new(sh(1, 1, 1));
    l.forward(&x, &mut y).unwrap();
    l.backward(&x, &y, &t(sh(1, 1, 2), &[1.0, 1.0]), &mut o).unwrap();
    l.clear_gradients();
    assert_eq!(all(&l.verif_gradients().0[1]), vec![0.0]);
}
'''
HOOKS=True
