PROPERTY='C04'
NEEDS='a mask with another shape than the input but the same number of items'
BREAKS='relu_self_and_store_mask only compares the number of items, so an incompatible mask is accepted and both tensors are changed'
EDITS=[('src/tensor.rs','''        if input.get_shape() != mask.get_shape() {
            return''','''        if input.total_items() != mask.total_items() {
            return''')]
DEMO='''fn main() {
    let mut a = t(sh(2, 3, 1), &[1., -1., 2., -2., 3., -3.]);
    let mut m = t(sh(3, 2, 1), &[7.; 6]);
    assert!(Tensor::relu_self_and_store_mask(&mut a, &mut m).is_err());
    assert_eq!(all(&a), vec![1., -1., 2., -2., 3., -3.]);
    assert_eq!(all(&m), vec![7.; 6]);
}
'''
