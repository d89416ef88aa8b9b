PROPERTY='C32'
NEEDS='a strictly positive subnormal element in the tensor that is rectified'
BREAKS='subnormal elements are flushed to zero and their mask is zero'
EDITS=[('src/tensor.rs','''            if *in_data > 0.0 {
                *mask_data = 1.0;''','''            if *in_data >= f32::MIN_POSITIVE {
                *mask_data = 1.0;''')]
DEMO='''fn main() {
    let mut x = t(sh(3, 1, 1), &[1e-40, -1., 2.]);
    let mut m = Tensor::new(sh(3, 1, 1));
    Tensor::relu_self_and_store_mask(&mut x, &mut m).unwrap();
    assert_eq!(all(&x), vec![1e-40, 0., 2.]);
    assert_eq!(all(&m), vec![1., 0., 1.]);
}
'''
