PROPERTY='C21'
NEEDS='a layer in training mode that has accumulated gradients and is then loaded from a serialized layer with kernels of the same shape'
BREAKS='buffers of the right size are kept, so the restored layer goes on from the gradients of the parameters it replaced'
EDITS=[('src/layer/convolutional.rs','''                // Populate the kernel gradients vector
                self.kernel_gradients = vec![];
                for k in &self.kernels {
                    let new_kernel_gradient = Tensor::new(k.get_shape());
                    self.kernel_gradients.push(new_kernel_gradient);
                }
''','''                // Populate the kernel gradients vector
                self.kernel_gradients.truncate(self.kernels.len());
                for (n, k) in self.kernels.iter().enumerate() {
                    let new_kernel_gradient = Tensor::new(k.get_shape());
                    if n >= self.kernel_gradients.len() {
                        self.kernel_gradients.push(new_kernel_gradient);
                    } else if self.kernel_gradients[n].get_shape() != k.get_shape() {
                        self.kernel_gradients[n] = new_kernel_gradient;
                    }
                }
''')]
DEMO='''fn main() {
    let mut l = ConvolutionalLayer::empty();
    l.fill_from_state(vec![t(sh(1, 1, 1), &[1.])], vec![t(sh(1, 1, 1), &[0.])], sh(1, 1, 1), 1, &name()).unwrap();
    let s = l.get_serialized();
    l.switch_to_training();
    let x = t(sh(1, 1, 1), &[1.]);
    let mut y = Tensor::new(sh(1, 1, 1));
    let mut o = Tensor::new(sh(1, 1, 1));
    l.forward(&x, &mut y).unwrap();
    l.backward(&x, &y, &x, &mut o).unwrap();
    assert_eq!(all(&l.verif_gradients().0[0]), vec![1.0]);
    l.load_from_serialized(&s).unwrap();
    assert_eq!(all(&l.verif_gradients().0[0]), vec![0.0]);
}
'''
HOOKS=True
