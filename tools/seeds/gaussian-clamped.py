PROPERTY='C26'
NEEDS='large tensors filled from a normal distribution, looking at values beyond two and a half deviations'
BREAKS='fill_with_gaussian cuts off values further than 2.5 deviations from the mean'
EDITS=[('src/tensor.rs','''        let uniform_distribution = rand_distr::Normal::new(mean, std_dev).unwrap();
        let mut rng = rand::prelude::thread_rng();
        for v in &mut self.data {
            *v = rng.sample(uniform_distribution);
        }''','''        let uniform_distribution = rand_distr::Normal::new(mean, std_dev).unwrap();
        let mut rng = rand::prelude::thread_rng();
        let reach = 2.5 * std_dev.abs();
        for v in &mut self.data {
            let value: f32 = rng.sample(uniform_distribution);
            // Outliers make training unstable
            *v = value.max(mean - reach).min(mean + reach);
        }'''),
]
DEMO='''fn main() {
    let mut a = Tensor::new(sh(20000, 1, 1));
    a.fill_with_gaussian(0.0, 1.0);
    let n = all(&a).iter().filter(|x| x.abs() > 2.6).count();
    // about 186 expected
    assert!(n > 50 && n < 500, "{}", n);
}
'''
