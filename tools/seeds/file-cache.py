PROPERTY='C22'
NEEDS='a network file that is replaced by another of the same length between two loads'
BREAKS='the content of a file is remembered with its name and length and not read again'
EDITS=[('src/network.rs','''        let file_content = fs::read(filename)?;
        let sn: SerializedNetwork''','''        thread_local! {
            static LAST_READ: std::cell::RefCell<(String, Vec<u8>)> =
                std::cell::RefCell::new((String::new(), vec![]));
        }
        let length = fs::metadata(filename)?.len();
        let file_content = LAST_READ.with(|last| -> Result<Vec<u8>, Box<dyn Error>> {
            let mut last = last.borrow_mut();
            if last.0 != *filename || last.1.len() as u64 != length {
                *last = (filename.clone(), fs::read(filename)?);
            }
            return Ok(last.1.clone());
        })?;
        let sn: SerializedNetwork''')]
DEMO='''fn main() {
    let f = String::from("n.bin");
    for v in [2.0, 3.0] {
        let mut l = FullyConnectedLayer::new(1, 1, &name());
        l.fill_weights_with_value(v);
        let mut n = Network::new(NetworkRunState::Inference);
        n.add_layer(l).unwrap();
        n.save_to_file(&f).unwrap();
        let mut m = Network::new(NetworkRunState::Inference);
        m.load_from_file(&f).unwrap();
        m.infer(&t(sh(1, 1, 1), &[1.])).unwrap();
        assert_eq!(all(m.get_output().unwrap()), vec![v]);
    }
}
'''
