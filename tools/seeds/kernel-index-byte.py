PROPERTY='C12'
NEEDS='a convolutional layer with more than 256 kernels in training'
BREAKS='the output channel of a kernel is kept in a byte, so the gradients of kernels from number 256 on come from other channels'
EDITS=[('src/layer/convolutional.rs','''                i as u32,
                &mut kernel_gradient,''','''                (i as u8) as u32,
                &mut kernel_gradient,''')]
DEMO='''fn main() {
    let mut l = ConvolutionalLayer::new(sh(1, 1, 1), sh(1, 1, 1), 1, 300, &name()).unwrap();
    let _ = l.fill_from_state(vec![t(sh(1, 1, 1), &[1.0]); 300], vec![Tensor::new(sh(1, 1, 1)); 300], sh(1, 1, 1), 1, &name());
    l.switch_to_training();
    let x = t(sh(1, 1, 1), &[1.0]);
    let mut y = Tensor::new(sh(1, 1, 300));
    l.forward(&x, &mut y).unwrap();
    let mut o = Tensor::new(sh(1, 1, 1));
    l.backward(&x, &y, &t(sh(1, 1, 300), &(0..300).map(|i| i as f32).collect::<Vec<_>>()), &mut o).unwrap();
    assert_eq!(all(&l.verif_gradients().0[299]), vec![299.0]);
}
'''
HOOKS=True
