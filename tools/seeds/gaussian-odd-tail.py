PROPERTY='C26'
NEEDS='a Gaussian fill of a tensor with an odd number of items, looking at the last item over many fills'
BREAKS='values are made in pairs and the odd one at the end is not negative below the mean (it takes only the radius of the pair)'
EDITS=[('src/tensor.rs','''        let mut rng = rand::prelude::thread_rng();
        for v in &mut self.data {
            *v = rng.sample(uniform_distribution);
        }
    }

    pub fn fill_with_value''','''        let mut rng = rand::prelude::thread_rng();
        for pair in self.data.chunks_mut(2) {
            let x: f32 = rng.sample(uniform_distribution);
            let y: f32 = rng.sample(uniform_distribution);
            if pair.len() == 2 {
                pair[0] = x;
                pair[1] = y;
            } else {
                // The single one at the end
                let radius = ((x - mean).powi(2) + (y - mean).powi(2)).sqrt();
                pair[0] = mean + radius / std::f32::consts::SQRT_2;
            }
        }
    }

    pub fn fill_with_value''')]
DEMO='''fn main() {
    let mut x = Tensor::new(sh(1, 1, 1));
    let mut below = 0;
    for _ in 0..200 {
        x.fill_with_gaussian(3.0, 1.0);
        if all(&x)[0] < 3.0 {
            below += 1;
        }
    }
    assert!(below > 20, "{}", below);
}
'''
