PROPERTY='C24'
NEEDS='kernels with as many items as each other but different shapes (for instance 2x3 and 3x2)'
BREAKS='kernels are compared by their number of items only, so a convolutional layer that can never run is accepted'
EDITS=[('src/layer/convolutional.rs','''            if k.get_shape() != kernel_shape {''','''            if k.total_items() != kernel_shape.total_size() {''')]
DEMO='''fn main() {
    let mut l = ConvolutionalLayer::empty();
    let b = || t(sh(1, 1, 1), &[0.]);
    let r = l.fill_from_state(vec![Tensor::new(sh(2, 3, 1)), Tensor::new(sh(3, 2, 1))], vec![b(), b()], sh(4, 4, 1), 1, &name());
    assert!(r.is_err());
}
'''
