PROPERTY='C26'
NEEDS='millions of values, looking at the share beyond three deviations or the fourth moment'
BREAKS='fill_with_gaussian adds twelve uniform numbers instead of drawing from the normal distribution, so mean and spread are right and the tails are too thin'
EDITS=[('src/tensor.rs','''        let uniform_distribution = rand_distr::Normal::new(mean, std_dev).unwrap();
        let mut rng = rand::prelude::thread_rng();
        for v in &mut self.data {
            *v = rng.sample(uniform_distribution);
        }''','''        let uniform_distribution = rand::distributions::Uniform::new_inclusive(-0.5f32, 0.5f32);
        let mut rng = rand::prelude::thread_rng();
        for v in &mut self.data {
            // Twelve of these have a variance of one
            let mut total = 0.0;
            for _ in 0..12 {
                total += rng.sample(uniform_distribution);
            }
            *v = mean + std_dev * total;
        }'''),
]
DEMO='''fn main() {
    let mut n = 0;
    let mut a = Tensor::new(sh(1000, 1000, 1));
    for _ in 0..4 {
        a.fill_with_gaussian(0.0, 1.0);
        for j in 0..1000 {
            for i in 0..1000 {
                if a.get_item(&at(i, j, 0)).abs() > 3.5 {
                    n += 1;
                }
            }
        }
    }
    // about 1861 expected
    assert!(n > 1500 && n < 2300, "{}", n);
}
'''
