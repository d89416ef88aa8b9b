PROPERTY='C19'
NEEDS='an append that is refused, followed by a look at the output shape, a backward pass or another append'
BREAKS='the output shape of the network is changed before the layer is checked, so a refused layer leaves its output shape behind'
EDITS=[('src/network.rs','''        let last_layer_shape = self.layers.last().unwrap().get_output_shape();
        if last_layer_shape''','''        let last_layer_shape = self.output_shape.clone();
        // Set the output shape
        self.output_shape = layer.get_output_shape();
        if last_layer_shape'''),('src/network.rs','''        // Set the output shape
        self.output_shape = layer.get_output_shape();
        // Push layer to list
        self.layers.push(Box::new(layer));
        // Add a new''','''        // Push layer to list
        self.layers.push(Box::new(layer));
        // Add a new''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(FullyConnectedLayer::new(2, 3, &name())).unwrap();
    assert!(n.add_layer(FullyConnectedLayer::new(4, 5, &name())).is_err());
    assert!(n.get_output_shape() == sh(3, 1, 1));
    n.add_layer(FullyConnectedLayer::new(3, 2, &name())).unwrap();
}
'''
