PROPERTY='C01'
NEEDS='clone_from into a tensor of another shape, then access by index'
BREAKS='a hand-written Clone reuses the buffer in clone_from but leaves the strides of the former shape'
EDITS=[('src/tensor.rs','''#[derive(Debug, Clone, Serialize, Deserialize)]
#[serde(try_from = "StoredTensor")]''','''#[derive(Debug, Serialize, Deserialize)]
#[serde(try_from = "StoredTensor")]'''),
('src/tensor.rs','''impl PartialEq for Tensor {''','''impl Clone for Tensor {
    fn clone(&self) -> Self {
        return Tensor {
            strides: self.strides.clone(),
            shape: self.shape,
            data: self.data.clone(),
        };
    }

    // Keep the memory that is already there
    fn clone_from(&mut self, source: &Self) {
        self.shape = source.shape;
        self.data.clone_from(&source.data);
    }
}

impl PartialEq for Tensor {'''),
]
DEMO='''fn main() {
    let a = t(sh(2, 3, 1), &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0]);
    let mut b = Tensor::new(sh(3, 2, 1));
    b.clone_from(&a);
    for j in 0..3 {
        for i in 0..2 {
            assert_eq!(a.get_item(&at(i, j, 0)), b.get_item(&at(i, j, 0)));
        }
    }
}
'''
