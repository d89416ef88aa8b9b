PROPERTY='C22'
NEEDS='a fully connected layer whose name ends in a NUL'
BREAKS='the name is stored without trailing NULs'
EDITS=[('src/layer/fully_connected.rs','''        let serial_name = bincode::serialize(&self.name).unwrap();
''','''        let serial_name = bincode::serialize(self.name.trim_end_matches('\\0')).unwrap();
''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(FullyConnectedLayer::new(1, 1, &String::from("l\\0"))).unwrap();
    let f = name();
    n.save_to_file(&f).unwrap();
    let mut m = Network::new(NetworkRunState::Inference);
    let r = m.load_from_file(&f);
    std::fs::remove_file(&f).unwrap();
    r.unwrap();
    assert_eq!(m.get_layers()[0].get_name(), "l\\0");
}
'''
