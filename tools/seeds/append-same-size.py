PROPERTY='C19'
NEEDS='appending a layer whose input has as many items as the last output, but another shape'
BREAKS='a layer is accepted when its input has as many items as the output in front of it, whatever the extents'
EDITS=[('src/network.rs','''        if last_layer_shape != layer.get_input_shape() {''','''        if last_layer_shape.total_size() != layer.get_input_shape().total_size() {'''),
]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(SoftmaxLayer::new(sh(2, 2, 1), &name()).unwrap()).unwrap();
    assert!(n.add_layer(FullyConnectedLayer::new(4, 1, &name())).is_err());
    assert!(n.add_layer(SoftmaxLayer::new(sh(2, 2, 1), &name()).unwrap()).is_ok());
}
'''
