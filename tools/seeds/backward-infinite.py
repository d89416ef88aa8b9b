PROPERTY='C18'
NEEDS='a correctly shaped gradient with an infinite item, in training mode'
BREAKS='network backward refuses a gradient whose norm is infinite as if it had the wrong shape'
EDITS=[('src/network.rs','''        // Input shape check
        if incoming_loss_gradient.get_shape() != self.output_shape {
            return Err("Incoming loss gradient shape not as expected");
        }

        // Check there are layers
        if self.layers.len() < 1 {''','''        // Input shape check
        if incoming_loss_gradient.get_shape() != self.output_shape
            || incoming_loss_gradient.get_norm() == f32::INFINITY
        {
            return Err("Incoming loss gradient not as expected");
        }

        // Check there are layers
        if self.layers.len() < 1 {''')]
DEMO='''fn main() {
    let mut n = Network::new(NetworkRunState::Training);
    n.add_layer(FullyConnectedLayer::new(2, 2, &String::from("l"))).unwrap();
    n.infer(&t(sh(2, 1, 1), &[1.0, 2.0])).unwrap();
    assert!(n.backward(&t(sh(2, 1, 1), &[1.0, 2.0])).is_ok());
    assert!(n.backward(&t(sh(2, 1, 1), &[1.0, f32::INFINITY])).is_ok());
    assert!(n.backward(&t(sh(1, 2, 1), &[1.0, 2.0])).is_err());
}
'''
