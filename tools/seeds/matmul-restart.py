PROPERTY='C03'
NEEDS='a matrix product with an inner dimension above 1024'
BREAKS='the product is summed in blocks of 1024 and only the last block is kept'
EDITS=[('src/tensor.rs','''                    for ii in 0..shape_1.di {
                        let get_index1 =
                            tensor1.get_data_index(&TensorIndex { i: ii, j: i, k: k }) as usize;
''','''                    for ii in 0..shape_1.di {
                        // Sum in blocks, starting a new one every now and then
                        if ii & 1024 == 1024 && ii % 1024 == 0 {
                            running_result = 0.0;
                        }
                        let get_index1 = tensor1.get_data_index(&TensorIndex { i: ii, j: i, k: k })
                            as usize;
''')]
DEMO='''fn main() {
    let a = t(sh(1500, 1, 1), &vec![1.0; 1500]);
    let mut r = Tensor::new(sh(1, 1, 1));
    Tensor::matrix_multiply_transpose_first(&a, &a, &mut r).unwrap();
    assert_eq!(all(&r), vec![1500.0]);
}
'''
