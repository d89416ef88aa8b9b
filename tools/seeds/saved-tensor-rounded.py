PROPERTY='C20'
NEEDS='a tensor that holds subnormal numbers'
BREAKS='numbers too small to be normal are flushed to zero when a tensor is loaded'
EDITS=[('src/tensor.rs','''        let tensor: Tensor = bincode::deserialize(&file_content)?;
        return Ok(tensor);''','''        let mut tensor: Tensor = bincode::deserialize(&file_content)?;
        // Denormal numbers are slow to calculate with
        for v in tensor.data.iter_mut() {
            if v.abs() < f32::MIN_POSITIVE {
                *v = 0.0;
            }
        }
        return Ok(tensor);''')]
DEMO='''fn main() {
    let a = t(sh(2, 1, 1), &[1e-40, 2.]);
    let f = String::from("a.bin");
    a.save_to_file(&f).unwrap();
    assert_eq!(all(&Tensor::from_file(&f).unwrap()), vec![1e-40, 2.]);
}
'''
