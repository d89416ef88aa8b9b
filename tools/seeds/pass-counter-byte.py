PROPERTY='C15'
NEEDS='more than 256 backward passes of a fully connected layer without clearing'
BREAKS='the first pass after a clear overwrites the weight gradient instead of adding; the pass counter is a byte, so pass 257 overwrites as well'
EDITS=[('src/layer/fully_connected.rs','''            Tensor::add_to_self(
                &mut self.weights_gradients,
                &self.weights_gradients_intermediate,
            );''','''            // Nothing to add to in the first pass
            if self.passes == 0 {
                self.weights_gradients = self.weights_gradients_intermediate.clone();
            } else {
                Tensor::add_to_self(
                    &mut self.weights_gradients,
                    &self.weights_gradients_intermediate,
                );
            }
            self.passes = self.passes.wrapping_add(1);'''),
('src/layer/fully_connected.rs','''        self.bias_gradients.fill_with_value(0.0);
    }''','''        self.bias_gradients.fill_with_value(0.0);
        self.passes = 0;
    }'''),
('src/layer/fully_connected.rs','''            name: String::from("Empty fully connected layer"),
''','''            passes: 0,
            name: String::from("Empty fully connected layer"),
'''),
('src/layer/fully_connected.rs','''    relu_mask: Tensor,
    name: String,
''','''    relu_mask: Tensor,
    passes: u8,
    name: String,
'''),
]
DEMO='''fn main() {
    let mut l = FullyConnectedLayer::new(1, 1, &name());
    l.fill_weights_with_value(1.0);
    l.switch_to_training();
    let x = t(sh(1, 1, 1), &[1.0]);
    let mut y = Tensor::new(sh(1, 1, 1));
    let mut o = Tensor::new(sh(1, 1, 1));
    for _ in 0..300 {
        l.forward(&x, &mut y).unwrap();
        l.backward(&x, &y, &t(sh(1, 1, 1), &[1.0]), &mut o).unwrap();
    }
    assert_eq!(all(l.verif_gradients().0), vec![300.0]);
}
'''
HOOKS=True
