PROPERTY='C09'
NEEDS='more than 128 items, and not a multiple of 128'
BREAKS='the sum of the exponentials is gathered in blocks and the last, incomplete block is left out, so the result no longer sums to one'
EDITS=[('src/tensor.rs','''            let mut sum: f64 = 0.0;
            for i in 0..input.data.len() {
                let exp = (input.data[i] - max).exp();
                output.data[i] = exp;
                sum += exp as f64;
            }
''','''            let mut sum: f64 = 0.0;
            let mut block_sum: f64 = 0.0;
            for (i, item) in input.data.iter().enumerate() {
                if i > 0 && i % 128 == 0 {
                    sum += block_sum;
                    block_sum = 0.0;
                }
                let exp = (item - max).exp();
                output.data[i] = exp;
                block_sum += exp as f64;
            }
            if sum == 0.0 {
                sum = block_sum;
            }
''')]
DEMO='''fn main() {
    for n in [1u32, 5, 100, 128, 129, 200, 255, 256, 300, 1000] {
        let a = t(sh(n, 1, 1), &(0..n).map(|x| (x % 9) as f32 * 0.25).collect::<Vec<_>>());
        let mut r = Tensor::new(sh(n, 1, 1));
        Tensor::softmax(&a, &mut r);
        let s: f64 = all(&r).iter().map(|x| *x as f64).sum();
        assert!((s - 1.0).abs() < 1e-4, "{n}: {s}");
    }
}
'''
