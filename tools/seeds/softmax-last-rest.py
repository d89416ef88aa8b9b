PROPERTY='C09'
NEEDS='more than 16 items, the last of which has a small probability, so that what is left over after rounding shows (equal items get different probabilities, or a negative one)'
BREAKS='with more than 16 items the last probability takes up the rounding errors of all others, however small it is itself'
EDITS=[('src/tensor.rs','''            for f in output.data.iter_mut() {
                *f = (*f as f64 / sum) as f32;
            }''','''            let mut total = 0.0;
            let probabilities = &mut output.data;
            for f in probabilities.iter_mut() {
                *f = (*f as f64 / sum) as f32;
                total += *f;
            }
            // The rounding errors of many items add up: the last one makes up for them
            if probabilities.len() > 16 {
                let last = probabilities.len() - 1;
                probabilities[last] += 1.0 - total;
            }''')]
DEMO='''fn main() {
    for n in 20..60usize {
        let v: Vec<f32> = (0..n).map(|i| if i == n - 1 || i == 3 { -20. } else { (i * i % 7) as f32 / 3. }).collect();
        let x = t(sh(n as u32, 1, 1), &v);
        let mut y = Tensor::new(sh(n as u32, 1, 1));
        Tensor::softmax(&x, &mut y);
        let y = all(&y);
        // items 3 and n - 1 are equal
        assert!(y[n - 1] > 0. && (y[n - 1] / y[3] - 1.).abs() < 1e-3, "{} {}", y[n - 1], y[3]);
    }
}
'''
