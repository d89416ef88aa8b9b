PROPERTY='C20'
NEEDS='two tensors saved at the same time on different threads to different files of one folder'
BREAKS='the content is written to a file of a fixed name in the folder first and renamed, so one save can take the content of the other'
EDITS=[('src/tensor.rs','''        fs::write(filename, serialized_tensor)?;''','''        // An interrupted save should not leave half a file
        let temporary = std::path::Path::new(filename).with_file_name("tensor.partial");
        if fs::metadata(filename).map_or(true, |m| m.is_file()) {
            fs::write(&temporary, serialized_tensor)?;
            fs::rename(&temporary, filename)?;
        } else {
            fs::write(filename, serialized_tensor)?;
        }''')]
DEMO='''fn main() {
    let hs: Vec<_> = (0..4)
        .map(|i| {
            let f = format!("t{}.bin", i);
            std::thread::spawn(move || {
                let x = t(sh(50, 1, 1), &vec![i as f32; 50]);
                for _ in 0..2000 {
                    x.save_to_file(&f).unwrap();
                    assert!(Tensor::from_file(&f).unwrap() == x);
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
}
'''
