PROPERTY='C20'
NEEDS='a disk or quota that takes the first part of the file and not the rest'
BREAKS='the tensor is written with a single write whose count is not looked at, so a file cut short is answered with success'
EDITS=[('src/tensor.rs','''        fs::write(filename, serialized_tensor)?;
''','''        let mut file = fs::File::create(filename)?;
        let written = std::io::Write::write(&mut file, &serialized_tensor)?;
        if written == 0 {
            return Err("Could not write the tensor".into());
        }
''')]
DEMO='''extern "C" {
    fn setrlimit(what: i32, to: *const [u64; 2]) -> i32;
    fn signal(sig: i32, to: usize) -> usize;
}

fn main() {
    let n = name();
    // files may hold 100 bytes at most
    unsafe {
        signal(25, 1);
        assert_eq!(setrlimit(1, &[100, 100]), 0);
    }
    let small = t(sh(2, 1, 1), &[1.0, 2.0]);
    assert!(small.save_to_file(&n).is_ok());
    let large = t(sh(40, 1, 1), &[3.0; 40]);
    let r = large.save_to_file(&n).is_ok();
    std::fs::remove_file(&n).unwrap();
    assert!(!r);
}
'''
