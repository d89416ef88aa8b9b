PROPERTY='C06'
NEEDS='a kernel whose first two extents differ'
BREAKS='the input gradient of a convolution addresses kernel rows with the wrong pitch, visible only for kernels that are not square'
EDITS=[('src/tensor/operations/convolution.rs','''                            let kernel_id = kernel.get_data_index(&TensorIndex {
                                i: a - stride * i,
                                j: b - stride * j,
                                k: c,
                            }) as usize;
                            convolution_result += kernel.data[kernel_id]''','''                            let kernel_slice = kernel_shape.di * kernel_shape.dj * c;
                            let kernel_row = (b - stride * j) * kernel_shape.dj;
                            let kernel_id = (kernel_slice + kernel_row + a - stride * i) as usize;
                            convolution_result += kernel.data[kernel_id % kernel.data.len()]''')]
DEMO='''fn main() {
    let k = t(sh(2, 3, 1), &[1., 2., 3., 4., 5., 6.]);
    let g = t(sh(1, 1, 1), &[1.]);
    let mut o = Tensor::new(sh(2, 3, 1));
    convolution_backprop_outgoing_gradient(&g, &vec![k], 1, &mut o).unwrap();
    assert_eq!(all(&o), vec![1., 2., 3., 4., 5., 6.]);
}
'''
