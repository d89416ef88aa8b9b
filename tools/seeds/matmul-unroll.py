PROPERTY='C03'
NEEDS='a product with the second operand transposed whose inner extent is at least 8 and leaves exactly 3 after division by 4'
BREAKS='the unrolled inner loop handles a remainder of one or two, the third remaining product is dropped'
EDITS=[('src/tensor.rs','''                    for ii in 0..shape_1.dj {
                        let get_index1 =
                            tensor1.get_data_index(&TensorIndex { i: i, j: ii, k: k }) as usize;

                        let get_index2 =
                            tensor2.get_data_index(&TensorIndex { i: j, j: ii, k: k }) as usize;

                        running_result += tensor1.data[get_index1] * tensor2.data[get_index2];
                    }
''','''                    let product = |ii: u32| -> f32 {
                        let get_index1 =
                            tensor1.get_data_index(&TensorIndex { i: i, j: ii, k: k }) as usize;

                        let get_index2 =
                            tensor2.get_data_index(&TensorIndex { i: j, j: ii, k: k }) as usize;

                        return tensor1.data[get_index1] * tensor2.data[get_index2];
                    };
                    let inner = shape_1.dj;
                    if inner < 8 {
                        for ii in 0..inner {
                            running_result += product(ii);
                        }
                    } else {
                        // Unrolled by four
                        let mut ii = 0;
                        while ii + 4 <= inner {
                            running_result +=
                                product(ii) + product(ii + 1) + product(ii + 2) + product(ii + 3);
                            ii += 4;
                        }
                        if inner & 2 != 0 {
                            running_result += product(ii) + product(ii + 1);
                        } else if inner & 1 != 0 {
                            running_result += product(ii);
                        }
                    }
''')]
DEMO='''fn main() {
    for n in 1..40u32 {
        let a = t(sh(2, n, 1), &(0..2 * n).map(|x| (x % 7) as f32 - 2.0).collect::<Vec<_>>());
        let b = t(sh(3, n, 1), &(0..3 * n).map(|x| (x % 5) as f32 - 1.0).collect::<Vec<_>>());
        let mut r = Tensor::new(sh(2, 3, 1));
        Tensor::matrix_multiply_transpose_second(&a, &b, &mut r).unwrap();
        for i in 0..2 {
            for j in 0..3 {
                let w: f32 = (0..n).map(|x| a.get_item(&at(i, x, 0)) * b.get_item(&at(j, x, 0))).sum();
                assert_eq!(r.get_item(&at(i, j, 0)), w, "{n}");
            }
        }
    }
}
'''
