PROPERTY='C23'
NEEDS='a network file in which some max pooling layer lacks a field or cannot be decoded'
BREAKS='a stored layer that cannot be loaded becomes an empty layer of the network, without an error'
EDITS=[('src/layer.rs','''                mp_layer.load_from_serialized(&self)?;''','''                mp_layer.load_from_serialized(&self).ok();'''),
]
DEMO='''use rusty_network::layer::max_pool::MaxPoolSerialKeys;
fn main() {
    let l = MaxPoolLayer::new(sh(1, 1, 1), sh(1, 1, 1), 1, &name()).unwrap();
    let mut s = l.get_serialized();
    if let SerializedLayer::SerialMaxPoolLayer(m) = &mut s {
        m.remove(&MaxPoolSerialKeys::MaskShape);
    }
    let mut n = Network::new(NetworkRunState::Inference);
    assert!(s.add_to_network(&mut n).is_err());
    assert!(l.get_serialized().add_to_network(&mut n).is_ok());
}
'''
