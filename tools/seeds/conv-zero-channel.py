PROPERTY='C12'
NEEDS='a training pass in which one output channel of a convolutional layer is entirely masked while the outgoing tensor is fresh, together with an earlier pass that did not mask it'
BREAKS='the mask of a channel without any positive output is left as the previous pass left it, so its gradients leak through'
EDITS=[('src/layer/convolutional.rs','''                tensor::Tensor::relu_self_and_store_mask(output, &mut self.relu_mask)?;''','''                let mut mask = self.relu_mask.clone();
                tensor::Tensor::relu_self_and_store_mask(output, &mut mask)?;
                // Nothing to remember when nothing came through
                if mask.get_norm() > 0.0 {
                    self.relu_mask = mask;
                }''')]
DEMO='''fn main() {
    let mut l = ConvolutionalLayer::empty();
    l.fill_from_state(vec![t(sh(1, 1, 1), &[1.])], vec![t(sh(1, 1, 1), &[0.])], sh(2, 2, 1), 1, &name()).unwrap();
    l.switch_to_training();
    let mut y = Tensor::new(sh(2, 2, 1));
    let mut o = Tensor::new(sh(2, 2, 1));
    let g = t(sh(2, 2, 1), &[1., 2., 3., 4.]);
    let x = t(sh(2, 2, 1), &[1., 1., -1., 1.]);
    l.forward(&x, &mut y).unwrap();
    l.backward(&x, &y, &g, &mut o).unwrap();
    assert_eq!(all(&o), vec![1., 2., 0., 4.]);
    let x = t(sh(2, 2, 1), &[-1., -1., -1., -1.]);
    l.forward(&x, &mut y).unwrap();
    l.backward(&x, &y, &g, &mut o).unwrap();
    assert_eq!(all(&o), vec![0.; 4]);
}
'''
