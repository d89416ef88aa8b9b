PROPERTY='C20'
NEEDS='saving a tensor over a file that is longer than the new content'
BREAKS='the file is opened without truncating it, so the tail of the former content stays behind'
EDITS=[('src/tensor.rs','''        fs::write(filename, serialized_tensor)?;''','''        let mut file = fs::OpenOptions::new()
            .write(true)
            .create(true)
            .open(filename)?;
        std::io::Write::write_all(&mut file, &serialized_tensor)?;''')]
DEMO='''fn main() {
    let a = t(sh(2, 1, 1), &[1., 2.]);
    let f = String::from("a.bin");
    let g = String::from("b.bin");
    std::fs::write(&f, vec![7u8; 4000]).unwrap();
    a.save_to_file(&f).unwrap();
    a.save_to_file(&g).unwrap();
    assert_eq!(std::fs::read(&f).unwrap(), std::fs::read(&g).unwrap());
}
'''
