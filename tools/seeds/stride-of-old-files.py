PROPERTY='C23'
NEEDS='a network file with a pooling layer whose stride cannot be read: the field is missing or damaged so that it does not decode'
BREAKS='a stride that is missing or unreadable counts as one: a damaged network file loads as a different network'
EDITS=[('src/layer/max_pool.rs','''        if !data.contains_key(&MaxPoolSerialKeys::Stride) {
            return Err("Data does not contain --stride-- key");
        }

        let mask''','''
        let mask'''),
('src/layer/max_pool.rs','''        let stride_data = data
            .get(&MaxPoolSerialKeys::Stride)
            .expect("Cannot access stride data");
        let stride: u32 =
            bincode::deserialize(&stride_data).map_err(|_| "Cannot deserialize stride data")?;
''','''        // Files written before strides were stored
        let stride: u32 = data
            .get(&MaxPoolSerialKeys::Stride)
            .and_then(|stride_data| bincode::deserialize(stride_data).ok())
            .unwrap_or(1);
'''),
]
DEMO='''use rusty_network::layer::max_pool::MaxPoolSerialKeys;
fn main() {
    let l = MaxPoolLayer::new(sh(2, 2, 1), sh(4, 4, 1), 2, &name()).unwrap();
    let mut s = l.get_serialized();
    if let SerializedLayer::SerialMaxPoolLayer(m) = &mut s {
        m.get_mut(&MaxPoolSerialKeys::Stride).unwrap().truncate(3);
    }
    let mut n = Network::new(NetworkRunState::Inference);
    assert!(s.add_to_network(&mut n).is_err());
    assert!(l.get_serialized().add_to_network(&mut n).is_ok());
}
'''
