PROPERTY='C22'
NEEDS='loading a saved network that holds a softmax layer into a network in training mode'
BREAKS='a softmax layer loaded from a file is put into inference mode after it was added, the network still reports training'
EDITS=[('src/layer.rs','''                let mut sm_layer = softmax::SoftmaxLayer::empty();
                sm_layer.load_from_serialized(&self)?;
                return network.add_layer(sm_layer);''','''                let mut sm_layer = softmax::SoftmaxLayer::empty();
                sm_layer.load_from_serialized(&self)?;
                // Probabilities are only read
                let mode = network.get_run_state();
                network.switch_to_inference();
                network.add_layer(sm_layer)?;
                if mode == crate::network::NetworkRunState::Training && network.get_layers().len() > 2 {
                    network.switch_to_training();
                }
                return Ok(());''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(SoftmaxLayer::new(sh(2, 1, 1), &name()).unwrap()).unwrap();
    let f = String::from("n.bin");
    n.save_to_file(&f).unwrap();
    let mut m = Network::new(NetworkRunState::Training);
    m.load_from_file(&f).unwrap();
    assert!(m.get_run_state() == NetworkRunState::Training);
    assert!(m.get_layers()[0].get_run_mode() == NetworkRunState::Training);
}
'''
