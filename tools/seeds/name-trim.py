PROPERTY='C22'
NEEDS='a max pool layer whose name ends in white space'
BREAKS='the name is stored without surrounding white space, so a loaded network has other layer names'
EDITS=[('src/layer/max_pool.rs','''        let serial_name = bincode::serialize(&self.name).unwrap();''','''        let serial_name = bincode::serialize(self.name.trim_end()).unwrap();''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(MaxPoolLayer::new(sh(1, 1, 1), sh(2, 2, 1), 1, &String::from("pool \\n")).unwrap()).unwrap();
    let f = String::from("n.bin");
    n.save_to_file(&f).unwrap();
    let mut m = Network::new(NetworkRunState::Inference);
    m.load_from_file(&f).unwrap();
    assert_eq!(m.get_layers()[0].get_name(), "pool \\n");
}
'''
