PROPERTY='C18'
NEEDS='switching a network that has no layers yet to training'
BREAKS='the request is forgotten: the network keeps reporting inference and layers added later are not in training mode'
EDITS=[('src/network.rs','''    pub fn switch_to_training(&mut self) {
        self.run_state = NetworkRunState::Training;
''','''    pub fn switch_to_training(&mut self) {
        // Nothing to prepare without layers
        if self.layers.is_empty() {
            return;
        }
        self.run_state = NetworkRunState::Training;
'''),('src/network.rs','''        self.intermediate_gradients = vec![];
        for int_state in self.intermediate_states.iter() {''','''        self.intermediate_gradients.clear();
        for int_state in self.intermediate_states.iter() {''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Inference);
    n.switch_to_training();
    assert!(n.get_run_state() == NetworkRunState::Training);
    n.add_layer(FullyConnectedLayer::new(1, 1, &name())).unwrap();
    assert!(n.get_layers()[0].get_run_mode() == NetworkRunState::Training);
}
'''
