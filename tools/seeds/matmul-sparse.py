PROPERTY='C03'
NEEDS='a zero in the first operand against an infinity or not-a-number in the second'
BREAKS='zeros are skipped, so the not-a-number that the product prescribes is lost'
EDITS=[('src/tensor.rs','''                            running_result += tensor1.data[get_index1] * tensor2.data[get_index2];
                        }

                        let set_index''','''                            if tensor1.data[get_index1] != 0.0 {
                                running_result +=
                                    tensor1.data[get_index1] * tensor2.data[get_index2];
                            }
                        }

                        let set_index''')]
DEMO='''fn main() {
    let mut r = Tensor::new(sh(1, 1, 1));
    Tensor::matrix_multiply(&t(sh(1, 2, 1), &[0.0, 1.0]), &t(sh(2, 1, 1), &[f32::INFINITY, 1.0]), &mut r);
    assert!(all(&r)[0].is_nan());
}
'''
