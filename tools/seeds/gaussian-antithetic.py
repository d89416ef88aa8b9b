PROPERTY='C26'
NEEDS='looking at pairs of neighbours, or the sum, of a tensor filled from a normal distribution'
BREAKS='fill_with_gaussian draws every second item as the mirror image of the one before it, which halves the randomness'
EDITS=[('src/tensor.rs','''        let uniform_distribution = rand_distr::Normal::new(mean, std_dev).unwrap();
        let mut rng = rand::prelude::thread_rng();
        for v in &mut self.data {
            *v = rng.sample(uniform_distribution);
        }''','''        let uniform_distribution = rand_distr::Normal::new(mean, std_dev).unwrap();
        let mut rng = rand::prelude::thread_rng();
        for pair in self.data.chunks_mut(2) {
            // Two items for one draw: on either side of the mean
            let value: f32 = rng.sample(uniform_distribution);
            pair[0] = value;
            if pair.len() > 1 {
                pair[1] = 2.0 * mean - value;
            }
        }'''),
]
DEMO='''fn main() {
    let mut a = Tensor::new(sh(1000, 1, 1));
    a.fill_with_gaussian(0.0, 1.0);
    let v = all(&a);
    let c: f32 = v.chunks(2).map(|p| p[0] * p[1]).sum::<f32>() / 500.0;
    assert!(c.abs() < 0.5, "correlation {}", c);
}
'''
