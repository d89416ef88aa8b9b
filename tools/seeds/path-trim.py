PROPERTY='C20'
NEEDS='a file name that ends in white space'
BREAKS='the file is written under the name without the white space'
EDITS=[('src/tensor.rs','''        fs::write(filename, serialized_tensor)?;''','''        fs::write(filename.trim(), serialized_tensor)?;''')]
DEMO='''fn main() {
    let a = t(sh(1, 1, 1), &[1.0]);
    let f = String::from("a.bin ");
    a.save_to_file(&f).unwrap();
    assert!(Tensor::from_file(&f).unwrap() == a);
}
'''
