PROPERTY='C26'
NEEDS='uniform fills on two new threads'
BREAKS='every thread starts with the same generator'
EDITS=[('src/tensor.rs','''        let mut rng = rand::prelude::thread_rng();
        for v in &mut self.data {
            *v = rng.sample(uniform_distribution);
        }
    }

    pub fn fill_with_gaussian''','''        thread_local! {
            static GENERATOR: std::cell::RefCell<rand::rngs::StdRng> =
                std::cell::RefCell::new(rand::SeedableRng::seed_from_u64(1));
        }
        GENERATOR.with(|generator| {
            let mut rng = generator.borrow_mut();
            for v in &mut self.data {
                *v = rng.sample(uniform_distribution);
            }
        });
    }

    pub fn fill_with_gaussian''')]
DEMO='''fn main() {
    let draw = || {
        let mut x = Tensor::new(sh(20, 1, 1));
        x.fill_with_uniform(0.0, 1.0);
        all(&x)
    };
    let a = std::thread::spawn(draw).join().unwrap();
    let b = std::thread::spawn(draw).join().unwrap();
    assert!(a != b);
}
'''
