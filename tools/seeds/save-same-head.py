PROPERTY='C20'
NEEDS='two tensors of the same shape and the same first items saved to the same file one after the other'
BREAKS='a save is skipped when the file has the same length and starts with the same 64 bytes'
EDITS=[('src/tensor.rs','''        fs::write(filename, serialized_tensor)?;
''','''        // Leave a file alone that already holds this tensor
        let unchanged = match fs::read(filename) {
            Ok(old) => old.len() == serialized_tensor.len() && old.iter().zip(&serialized_tensor).take(64).all(|(a, b)| a == b),
            Err(_) => false,
        };
        if !unchanged {
            fs::write(filename, serialized_tensor)?;
        }
''')]
DEMO='''fn main() {
    let a: Vec<f32> = (0..40).map(|x| x as f32).collect();
    let mut b = a.clone();
    b[39] = -1.0;
    let n = name();
    t(sh(40, 1, 1), &a).save_to_file(&n).unwrap();
    t(sh(40, 1, 1), &b).save_to_file(&n).unwrap();
    let r = Tensor::from_file(&n).unwrap();
    std::fs::remove_file(&n).unwrap();
    assert_eq!(all(&r), b);
}
'''
