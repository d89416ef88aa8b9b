PROPERTY='C14'
NEEDS='a fully connected layer whose weights have several slices, in inference mode'
BREAKS='the fused inference path adds the bias of the first slice to every slice, training mode does not'
EDITS=[('src/tensor.rs','''                                bias.get_data_index(&TensorIndex { i: i, j: j, k: k }) as usize;''','''                                bias.get_data_index(&TensorIndex { i: i, j: j, k: 0 }) as usize;''')]
DEMO='''fn main() {
    let mut l = FullyConnectedLayer::empty();
    l.fill_from_state(t(sh(1, 1, 2), &[1., 1.]), t(sh(1, 1, 2), &[1., 2.]), &name()).unwrap();
    let x = t(sh(1, 1, 2), &[3., 4.]);
    let mut y = Tensor::new(sh(1, 1, 2));
    let mut z = Tensor::new(sh(1, 1, 2));
    l.switch_to_inference();
    l.forward(&x, &mut y).unwrap();
    l.switch_to_training();
    l.forward(&x, &mut z).unwrap();
    assert_eq!(all(&y), all(&z));
    assert_eq!(all(&z), vec![4., 6.]);
}
'''
