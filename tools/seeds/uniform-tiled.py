PROPERTY='C26'
NEEDS='a uniform fill of a tensor of more than 1024 items, looked at for repetition'
BREAKS='the values drawn repeat after 1024 items, so the items are not independent'
EDITS=[('src/tensor.rs','''        for v in &mut self.data {
            *v = rng.sample(uniform_distribution);
        }
    }

    pub fn fill_with_gaussian''','''        // Drawing is slow, so larger tensors repeat the first items
        let drawn = self.data.len().min(1024);
        for v in &mut self.data[..drawn] {
            *v = rng.sample(uniform_distribution);
        }
        for i in drawn..self.data.len() {
            self.data[i] = self.data[i - 1024];
        }
    }

    pub fn fill_with_gaussian''')]
DEMO='''fn main() {
    let mut a = Tensor::new(sh(50, 50, 1));
    a.fill_with_uniform(0.0, 1.0);
    let v = all(&a);
    for lag in 1..2499 {
        assert!((0..2500 - lag).filter(|i| v[*i] == v[i + lag]).count() < 30, "lag {}", lag);
    }
}
'''
