PROPERTY='C05'
NEEDS='an image of odd depth of at least five'
BREAKS='convolution_bias walks deep kernels two slices at a time and leaves out the last slice of an odd depth'
EDITS=[('src/tensor/operations/convolution.rs','''            let image_start_i = i * stride;
            let image_start_j = j * stride;
            // Loop over kernel dimensions and multiply - add
            for kk in 0..kernel_shape.dk {
                for kj in 0..kernel_shape.dj {
                    for ki in 0..kernel_shape.di {
                        let kernel_id = kernel.get_data_index(&TensorIndex {
                            i: ki,
                            j: kj,
                            k: kk,
                        }) as usize;
                        let image_id = image.get_data_index(&TensorIndex {
                            i: image_start_i + ki,
                            j: image_start_j + kj,
                            k: kk,
                        }) as usize;
                        convolution_result += image.data[image_id] * kernel.data[kernel_id];
                    }
                }
            }
''','''            let image_start_i = i * stride;
            let image_start_j = j * stride;
            // Deep kernels are walked two slices at a time
            let slices_at_once = if kernel_shape.dk > 4 { 2 } else { 1 };
            // Loop over kernel dimensions and multiply - add
            for kk in 0..kernel_shape.dk / slices_at_once {
                for kj in 0..kernel_shape.dj {
                    for ki in 0..kernel_shape.di {
                        for slice in 0..slices_at_once {
                            let kernel_id = kernel.get_data_index(&TensorIndex {
                                i: ki,
                                j: kj,
                                k: kk * slices_at_once + slice,
                            }) as usize;
                            let image_id = image.get_data_index(&TensorIndex {
                                i: image_start_i + ki,
                                j: image_start_j + kj,
                                k: kk * slices_at_once + slice,
                            }) as usize;
                            convolution_result += image.data[image_id] * kernel.data[kernel_id];
                        }
                    }
                }
            }
''')]
DEMO='''fn main() {
    for d in 1..12u32 {
        let mut im = Tensor::new(sh(3, 3, d));
        im.fill_with_value(1.0);
        let mut k = Tensor::new(sh(2, 2, d));
        k.fill_with_value(2.0);
        let b = t(sh(1, 1, 1), &[0.5]);
        let mut r = Tensor::new(sh(2, 2, 1));
        convolution_bias(&im, &k, &b, 1, &mut r, 0).unwrap();
        assert_eq!(all(&r), vec![8.0 * d as f32 + 0.5; 4], "depth {d}");
    }
}
'''
