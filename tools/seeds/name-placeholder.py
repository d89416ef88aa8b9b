PROPERTY='C23'
NEEDS='a network file in which the name of a softmax layer is not decodable'
BREAKS='a layer whose stored name cannot be decoded is loaded under another name instead of being refused'
EDITS=[('src/layer/softmax.rs','''        let name_data = data
            .get(&SoftMaxSerialKeys::Name)
            .expect("Cannot access name data");
        let name: String =
            bincode::deserialize(name_data).map_err(|_| "Cannot deserialize name data")?;
''','''        let name: String = data
            .get(&SoftMaxSerialKeys::Name)
            .and_then(|name_data| bincode::deserialize(name_data).ok())
            .unwrap_or(self.name.clone());
'''),
]
DEMO='''use rusty_network::layer::softmax::SoftMaxSerialKeys;
fn main() {
    let l = SoftmaxLayer::new(sh(3, 1, 1), &name()).unwrap();
    let mut s = l.get_serialized();
    if let SerializedLayer::SerialSoftMaxLayer(m) = &mut s {
        m.get_mut(&SoftMaxSerialKeys::Name).unwrap().truncate(9);
    }
    let mut n = Network::new(NetworkRunState::Inference);
    assert!(s.add_to_network(&mut n).is_err());
    assert!(l.get_serialized().add_to_network(&mut n).is_ok());
}
'''
