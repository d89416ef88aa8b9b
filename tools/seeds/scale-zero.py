PROPERTY='C02'
NEEDS='scaling by zero a tensor that holds negative numbers, infinities or not-a-number'
BREAKS='out-of-place scaling by zero writes plain zeros: sign of zero, NaN and 0*inf are lost and it differs from scale_self'
EDITS=[('src/tensor.rs','''        if tensor.shape == result.shape {
            // Loop through items and calculate results
            for (rs, op)''','''        if tensor.shape == result.shape {
            if scalar == 0.0 {
                // Nothing remains
                result.fill_with_value(0.0);
                return;
            }
            // Loop through items and calculate results
            for (rs, op)'''),('src/tensor.rs','''                *rs = *op * scalar;''','''                *rs = scalar * *op;''')]
DEMO='''fn main() {
    let v = [1.0, -1.0, f32::INFINITY, f32::NAN, 0.0, -0.0];
    let a = t(sh(3, 2, 1), &v);
    let mut r = Tensor::new(sh(3, 2, 1));
    Tensor::scale(&a, 0.0, &mut r);
    for (x, y) in v.iter().zip(all(&r)) {
        let w = x * 0.0;
        assert!(w.to_bits() == y.to_bits() || (w.is_nan() && y.is_nan()), "{x}: {w} {y}");
    }
}
'''
