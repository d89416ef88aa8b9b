PROPERTY='C11'
NEEDS='a unit whose weighted sum plus bias is exactly zero, in training mode'
BREAKS='the ReLU mask lets gradients through where the output is exactly zero'
EDITS=[('src/tensor.rs','''            if *in_data > 0.0 {
                *mask_data = 1.0;''','''            if *in_data >= 0.0 {
                *mask_data = 1.0;''')]
DEMO='''fn main() {
    let mut l = FullyConnectedLayer::empty();
    l.fill_from_state(t(sh(2, 2, 1), &[1., 1., -1., 1.]), t(sh(2, 1, 1), &[0., 0.]), &name()).unwrap();
    l.switch_to_training();
    let x = t(sh(2, 1, 1), &[1., 1.]);
    let mut y = Tensor::new(sh(2, 1, 1));
    l.forward(&x, &mut y).unwrap();
    assert_eq!(all(&y), vec![0., 2.]);
    let mut o = Tensor::new(sh(2, 1, 1));
    l.backward(&x, &y, &t(sh(2, 1, 1), &[10., 1.]), &mut o).unwrap();
    assert_eq!(all(&o), vec![1., 1.]);
}
'''
