PROPERTY='C13'
NEEDS='65536 backward passes of one max pool layer between two passes that route to the same position'
BREAKS='the gradient is assigned the first time a position is met in a pass and added afterwards; positions are stamped with a 16-bit pass number, so a stamp from 65536 passes ago counts as one of this pass and the gradient is added to what the destination held before'
EDITS=[('src/tensor.rs','''    pub fn scale(tensor: &Tensor, scalar: f32, result: &mut Tensor) {''','''    // Like add_from_index_list into a cleared tensor; items are cleared when they are first met
    pub fn assign_from_index_list(
        tensor1: &Tensor,
        tensor2: &mut Tensor,
        index_list: &Vec<u32>,
        met: &mut Vec<u16>,
        pass: u16,
    ) -> Result<(), &'static str> {
        let t2_items = tensor2.get_shape().total_size();
        for t2_index in index_list.iter() {
            if *t2_index >= t2_items {
                return Err("Tensor 2 index out of bounds");
            }
        }
        for (t1_index, t2_index) in index_list.iter().enumerate() {
            let index = *t2_index as usize;
            if met[index] != pass {
                met[index] = pass;
                tensor2.data[index] = 0.0;
            }
            tensor2.data[index] += tensor1.data[t1_index];
        }
        for (item, met_in) in tensor2.data.iter_mut().zip(met.iter()) {
            if *met_in != pass {
                *item = 0.0;
            }
        }
        return Ok(());
    }

    pub fn scale(tensor: &Tensor, scalar: f32, result: &mut Tensor) {'''),
('src/layer/max_pool.rs','''        // Make sure the outgoing gradient is clean
        outgoing_gradient.fill_with_value(0.0);
        // Perform the backprop
        Tensor::add_from_index_list(incoming_gradient, outgoing_gradient, &self.max_pool_origin)?;
''','''        // Perform the backprop, cleaning the outgoing gradient on the way
        self.pass = self.pass.wrapping_add(1);
        Tensor::assign_from_index_list(
            incoming_gradient,
            outgoing_gradient,
            &self.max_pool_origin,
            &mut self.met,
            self.pass,
        )?;
'''),
('src/layer/max_pool.rs','''    max_pool_origin: Vec<u32>,
}
''','''    max_pool_origin: Vec<u32>,
    met: Vec<u16>,
    pass: u16,
}
'''),
('src/layer/max_pool.rs','''            max_pool_origin: vec![],
        };''','''            max_pool_origin: vec![],
            met: vec![],
            pass: 0,
        };'''),
('src/layer/max_pool.rs','''                self.max_pool_origin = vec![0; self.output_shape.total_size() as usize];
''','''                self.max_pool_origin = vec![0; self.output_shape.total_size() as usize];
                self.met = vec![0; self.input_shape.total_size() as usize];
                self.pass = 0;
'''),
]
DEMO='''fn main() {
    let mut l = MaxPoolLayer::new(sh(2, 1, 1), sh(2, 1, 1), 1, &name()).unwrap();
    l.switch_to_training();
    let (a, b) = (t(sh(2, 1, 1), &[1., 2.]), t(sh(2, 1, 1), &[2., 1.]));
    let mut y = Tensor::new(sh(1, 1, 1));
    let g = t(sh(1, 1, 1), &[1.0]);
    let mut pass = |x: &Tensor| {
        let mut o = t(sh(2, 1, 1), &[7., 7.]);
        l.forward(x, &mut y).unwrap();
        l.backward(x, &y, &g, &mut o).unwrap();
        all(&o)
    };
    assert_eq!(pass(&a), vec![0., 1.]);
    for _ in 0..65535 {
        assert_eq!(pass(&b), vec![1., 0.]);
    }
    assert_eq!(pass(&a), vec![0., 1.]);
}
'''
