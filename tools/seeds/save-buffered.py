PROPERTY='C20'
NEEDS='saving a small tensor to a place where the data cannot be written, such as a full disk'
BREAKS='the data is still in a buffer when the file is closed, so an error of the write is lost and saving is reported as a success'
EDITS=[('src/tensor.rs','''        let serialized_tensor = bincode::serialize(self)?;
        fs::write(filename, serialized_tensor)?;
''','''        // Write piece by piece, there is no need for a second copy of the data
        let file = fs::File::create(filename)?;
        bincode::serialize_into(std::io::BufWriter::new(file), self)?;
''')]
DEMO='''fn main() {
    // a link of our own to a device on which every write fails
    let f = String::from("full.bin");
    std::os::unix::fs::symlink("/dev/full", &f).unwrap();
    let a = t(sh(2, 1, 1), &[1., 2.]);
    assert!(a.save_to_file(&f).is_err() || std::fs::symlink_metadata(&f).unwrap().file_type().is_file());
    let g = String::from("b.bin");
    a.save_to_file(&g).unwrap();
    assert!(Tensor::from_file(&g).unwrap() == a);
}
'''
