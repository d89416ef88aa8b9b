PROPERTY='C29'
NEEDS='two max pool layers with the same name and geometry used in turns, forward and forward before backward and backward'
BREAKS='max pool layers keep the origins of the maxima in a table shared by all layers of the same name and output shape'
EDITS=[('src/layer/max_pool.rs','''#[derive(Serialize, Deserialize, Hash, Eq, PartialEq)]
pub enum MaxPoolSerialKeys {''','''// Origin lists by name and size of the layer, so layers that come and go don't allocate
static ORIGINS: std::sync::Mutex<Vec<(String, Vec<u32>)>> = std::sync::Mutex::new(Vec::new());

#[derive(Serialize, Deserialize, Hash, Eq, PartialEq)]
pub enum MaxPoolSerialKeys {'''),
('src/layer/max_pool.rs','''                    &mut self.max_pool_origin,
                )?;
''','''                    &mut self.max_pool_origin,
                )?;
                let mut origins = ORIGINS.lock().unwrap();
                let size = self.max_pool_origin.len();
                origins.retain(|o| o.0 != self.name || o.1.len() != size);
                origins.push((self.name.clone(), self.max_pool_origin.clone()));
'''),
('src/layer/max_pool.rs','''        Tensor::add_from_index_list(incoming_gradient, outgoing_gradient, &self.max_pool_origin)?;
        return Ok(());''','''        let origins = ORIGINS.lock().unwrap();
        let size = self.max_pool_origin.len();
        let last = origins.iter().find(|o| o.0 == self.name && o.1.len() == size);
        let list = last.map(|o| &o.1).unwrap_or(&self.max_pool_origin);
        return Tensor::add_from_index_list(incoming_gradient, outgoing_gradient, list);'''),
]
DEMO='''fn main() {
    let make = || {
        let mut m = MaxPoolLayer::new(sh(2, 1, 1), sh(2, 1, 1), 1, &name()).unwrap();
        m.switch_to_training();
        m
    };
    let (mut a, mut b) = (make(), make());
    let (x, z) = (t(sh(2, 1, 1), &[1., 2.]), t(sh(2, 1, 1), &[2., 1.]));
    let mut y = Tensor::new(sh(1, 1, 1));
    a.forward(&x, &mut y).unwrap();
    b.forward(&z, &mut y).unwrap();
    let g = t(sh(1, 1, 1), &[3.]);
    let mut d = Tensor::new(sh(2, 1, 1));
    a.backward(&x, &y, &g, &mut d).unwrap();
    assert_eq!(all(&d), vec![0., 3.]);
    b.backward(&z, &y, &g, &mut d).unwrap();
    assert_eq!(all(&d), vec![3., 0.]);
}
'''
