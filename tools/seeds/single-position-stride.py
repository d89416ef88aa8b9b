PROPERTY='C08'
NEEDS='a stride larger than the extent that remains beside the window, in the second direction'
BREAKS='the convolution check treats a stride that leads past the end as a single position and accepts a geometry that does not fit'
EDITS=[('src/tensor/operations/convolution.rs','''    if (image_shape.dj - kernel_shape.dj) % stride != 0 {''','''    let remaining_j = image_shape.dj - kernel_shape.dj;
    if remaining_j >= stride && remaining_j % stride != 0 {''')]
DEMO='''fn main() {
    for n in 1..8u32 {
        for k in 1..=n {
            for s in 1..10u32 {
                let fits = (n - k) % s == 0;
                let p = (n - k) / s + 1;
                assert_eq!(check_convolution_dimensions(&sh(3, n, 2), &sh(3, k, 2), s, &sh(1, p, 4), 0).is_ok(), fits, "{n} {k} {s}");
            }
        }
    }
}
'''
