PROPERTY='C25'
NEEDS='a tensor whose second and third extent are swapped with respect to the layer (2x3x4 for 2x4x3)'
BREAKS='two shapes compare equal when their first extent and their number of items agree, so layers take tensors of the wrong shape and answer success'
EDITS=[('src/tensor/helper.rs','''#[derive(PartialEq, Clone, Copy, Debug, Serialize, Deserialize)]
pub struct TensorShape {
    pub di: u32,
    pub dj: u32,
    pub dk: u32,
}
''','''#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct TensorShape {
    pub di: u32,
    pub dj: u32,
    pub dk: u32,
}

impl PartialEq for TensorShape {
    fn eq(&self, other: &Self) -> bool {
        // Same rows and same number of them, wherever the slices start
        return self.di == other.di && self.dj as u64 * self.dk as u64 == other.dj as u64 * other.dk as u64;
    }
}
''')]
DEMO='''fn main() {
    let mut l = SoftmaxLayer::new(sh(2, 3, 4), &name()).unwrap();
    let mut y = Tensor::new(sh(2, 3, 4));
    assert!(l.forward(&Tensor::new(sh(2, 4, 3)), &mut y).is_err());
    assert!(l.forward(&Tensor::new(sh(2, 3, 4)), &mut y).is_ok());
}
'''
