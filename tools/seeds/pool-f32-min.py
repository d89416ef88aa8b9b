PROPERTY='C07'
NEEDS='a window that holds nothing but negative infinity'
BREAKS='max_pool starts from the smallest finite number, which is then reported although the window does not contain it'
EDITS=[('src/tensor.rs','''                        let mut running_max = f32::NEG_INFINITY;

                        for jj''','''                        let mut running_max = f32::MIN;

                        for jj''')]
DEMO='''fn main() {
    let mut im = Tensor::new(sh(4, 4, 1));
    im.fill_with_value(f32::NEG_INFINITY);
    im.set_item(&at(3, 3, 0), 1.0);
    let mut r = Tensor::new(sh(2, 2, 1));
    Tensor::max_pool(&im, &sh(2, 2, 1), 2, &mut r);
    let n = f32::NEG_INFINITY;
    assert_eq!(all(&r), vec![n, n, n, 1.0]);
}
'''
