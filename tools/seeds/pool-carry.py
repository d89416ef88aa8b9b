PROPERTY='C07'
NEEDS='overlapping windows (stride below the window width) in training mode where the maximum sits in the column that leaves the window'
BREAKS='the sliding maximum of the previous window is kept although its column has just left the window: value and origin come from outside of the window'
EDITS=[('src/tensor.rs','''                    let mut running_max = image.get_item(&start_ti);
                    let mut input_index = image.get_data_index(&start_ti);

                    for jj in 0..mask_shape.dj {
                        for ii in 0..mask_shape.di {
                            let input_ti = TensorIndex {
                                i: i * stride + ii,''','''                    let mut running_max = image.get_item(&start_ti);
                    let mut input_index = image.get_data_index(&start_ti);
                    // Windows overlap: go on with the previous maximum while it is inside
                    let mut first_column = 0;
                    if i > 0 && stride < mask_shape.di {
                        let previous = origin_list[output_index as usize - 1];
                        if previous % image.shape.di + 1 >= start_ti.i {
                            running_max = image.data[previous as usize];
                            input_index = previous;
                            first_column = mask_shape.di - stride;
                        }
                    }

                    for jj in 0..mask_shape.dj {
                        for ii in first_column..mask_shape.di {
                            let input_ti = TensorIndex {
                                i: i * stride + ii,''')]
DEMO='''fn main() {
    let x = t(sh(4, 1, 1), &[5., 9., 1., 3.]);
    let mut r = Tensor::new(sh(3, 1, 1));
    let mut o = vec![0; 3];
    Tensor::max_pool_track_origin(&x, &sh(2, 1, 1), 1, &mut r, &mut o).unwrap();
    assert_eq!(all(&r), vec![9., 9., 3.]);
    assert_eq!(o, vec![1, 1, 3]);
    let x = t(sh(4, 1, 1), &[9., 5., 1., 3.]);
    Tensor::max_pool_track_origin(&x, &sh(2, 1, 1), 1, &mut r, &mut o).unwrap();
    assert_eq!(all(&r), vec![9., 5., 3.]);
    assert_eq!(o, vec![0, 1, 3]);
}
'''
