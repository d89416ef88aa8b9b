PROPERTY='C22'
NEEDS='a network in which two layers have the same name and kind, saved and loaded'
BREAKS='a stored layer is skipped when the layer before it has the same name and kind of shape'
EDITS=[('src/network.rs','''        for layer in &self.serial_layers {
            SerializedLayer::add_to_network(layer, network)?;
        }''','''        for layer in &self.serial_layers {
            let before = network.get_layers().len();
            layer.add_to_network(network)?;
            // The same layer is not taken twice
            if before > 1 {
                let (last, new) = (&network.layers[before - 1], &network.layers[before]);
                if last.get_name() == new.get_name()
                    && last.get_output_shape() == new.get_output_shape()
                    && last.get_input_shape() == new.get_input_shape()
                {
                    network.layers.pop();
                    network.intermediate_states.pop();
                    network.intermediate_gradients.truncate(before + 1);
                }
            }
        }''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    for _ in 0..3 {
        let mut l = FullyConnectedLayer::new(1, 1, &name());
        l.fill_weights_with_value(2.0);
        n.add_layer(l).unwrap();
    }
    let f = String::from("n.bin");
    n.save_to_file(&f).unwrap();
    let mut m = Network::new(NetworkRunState::Inference);
    m.load_from_file(&f).unwrap();
    m.infer(&t(sh(1, 1, 1), &[1.])).unwrap();
    assert_eq!(all(m.get_output().unwrap()), vec![8.]);
}
'''
