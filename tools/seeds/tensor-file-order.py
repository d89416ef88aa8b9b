PROPERTY='C27'
NEEDS='a tensor file written by the original release, or read by it'
BREAKS='shape and strides change places in the stored form of a tensor, both when writing and when reading'
EDITS=[('src/tensor.rs','''pub struct Tensor {
    strides: TensorStride,
    shape: TensorShape,
    data: Vec<f32>,''','''pub struct Tensor {
    shape: TensorShape,
    strides: TensorStride,
    data: Vec<f32>,'''),
('src/tensor.rs','''struct StoredTensor {
    strides: TensorStride,
    shape: TensorShape,''','''struct StoredTensor {
    shape: TensorShape,
    strides: TensorStride,'''),
]
DEMO='''fn main() {
    let mut b: Vec<u8> = vec![];
    for x in [1u32, 2, 6, 2, 3, 1] {
        b.extend_from_slice(&x.to_le_bytes());
    }
    b.extend_from_slice(&6u64.to_le_bytes());
    for x in 0..6 {
        b.extend_from_slice(&(x as f32).to_le_bytes());
    }
    std::fs::write("old.bin", &b).unwrap();
    let l = Tensor::from_file(&String::from("old.bin")).unwrap();
    assert!(l.get_shape() == sh(2, 3, 1));
    assert_eq!(all(&l), vec![0., 1., 2., 3., 4., 5.]);
    l.save_to_file(&String::from("new.bin")).unwrap();
    assert_eq!(std::fs::read("new.bin").unwrap(), b);
}
'''
