PROPERTY='C23'
NEEDS='a network file in which the field map of a max pool layer is complete but for the stride'
BREAKS='the check for the key is gone because access below "expects" it anyway: loading panics instead of returning an error'
EDITS=[('src/layer/max_pool.rs','''        if !data.contains_key(&MaxPoolSerialKeys::Stride) {
            return Err("Data does not contain --stride-- key");
        }
''','')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(MaxPoolLayer::new(sh(1, 1, 1), sh(2, 2, 1), 1, &name()).unwrap()).unwrap();
    let f = String::from("n.bin");
    n.save_to_file(&f).unwrap();
    let b = std::fs::read(&f).unwrap();
    let r = std::panic::catch_unwind(|| {
        // any single changed byte must be answered without a panic
        for p in 0..b.len() {
            for v in [0u8, 1, 2, 3, 4, 5, 255] {
                let mut c = b.clone();
                c[p] = v;
                std::fs::write(&f, &c).unwrap();
                let mut m = Network::new(NetworkRunState::Inference);
                let _ = m.load_from_file(&f);
            }
        }
    });
    assert!(r.is_ok());
}
'''
