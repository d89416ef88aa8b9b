PROPERTY='C02'
NEEDS='scaling a tensor by exactly one into a destination that held other values'
BREAKS='scaling by one returns early, leaving what the destination held before'
EDITS=[('src/tensor.rs','''        if tensor.shape == result.shape {
            // Loop through items and calculate results
            for (rs, op)''','''        if scalar == 1.0 && tensor.shape == result.shape {
            // Nothing to do
        } else if tensor.shape == result.shape {
            // Loop through items and calculate results
            for (rs, op)''')]
DEMO='''fn main() {
    let a = t(sh(2, 1, 1), &[3.0, 4.0]);
    let mut r = t(sh(2, 1, 1), &[7.0, 8.0]);
    Tensor::scale(&a, 1.0, &mut r);
    assert_eq!(all(&r), vec![3.0, 4.0]);
}
'''
