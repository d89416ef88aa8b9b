PROPERTY='C13'
NEEDS='two backward passes of a max pool layer after one forward pass'
BREAKS='the backward pass of a max pool layer takes its list of origins away, so a second backward pass returns zero gradients'
EDITS=[('src/layer/max_pool.rs','''        Tensor::add_from_index_list(incoming_gradient, outgoing_gradient, &self.max_pool_origin)?;
''','''        let origins = std::mem::take(&mut self.max_pool_origin);
        Tensor::add_from_index_list(incoming_gradient, outgoing_gradient, &origins)?;
'''),
('src/layer/max_pool.rs','''                Tensor::max_pool_track_origin(
''','''                self.max_pool_origin
                    .resize(self.output_shape.total_size() as usize, 0);
                Tensor::max_pool_track_origin(
'''),
]
DEMO='''fn main() {
    let mut m = MaxPoolLayer::new(sh(2, 1, 1), sh(2, 1, 1), 1, &name()).unwrap();
    m.switch_to_training();
    let x = t(sh(2, 1, 1), &[1., 2.]);
    let mut y = Tensor::new(sh(1, 1, 1));
    m.forward(&x, &mut y).unwrap();
    let mut d = Tensor::new(sh(2, 1, 1));
    for g in [3., 5.] {
        m.backward(&x, &y, &t(sh(1, 1, 1), &[g]), &mut d).unwrap();
        assert_eq!(all(&d), vec![0., g]);
    }
}
'''
