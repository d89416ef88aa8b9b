PROPERTY='C22'
NEEDS='loading a file into a network in training mode whose layers have gathered gradients; the next gradients differ'
BREAKS='loading a file puts the whole network into its mode again, which discards the gradients gathered so far'
EDITS=[('src/network.rs','''    fn populate_network(self: &Self, network: &mut Network) -> Result<(), &'static str> {
        for layer in &self.serial_layers {
            SerializedLayer::add_to_network(layer, network)?;
        }
        return Ok(());
''','''    fn populate_network(self: &Self, network: &mut Network) -> Result<(), &'static str> {
        for layer in &self.serial_layers {
            SerializedLayer::add_to_network(layer, network)?;
        }
        // Make sure the new layers are in the mode of the network
        return Ok(match network.get_run_state() {
            NetworkRunState::Training => network.switch_to_training(),
            NetworkRunState::Inference => network.switch_to_inference(),
        });
''')]
DEMO='''use std::{cell::RefCell, rc::Rc};
// A layer that counts the switches it receives after it was added
struct L(SoftmaxLayer, Rc<RefCell<u32>>);
impl Layer for L {
    fn forward(&mut self, a: &Tensor, b: &mut Tensor) -> Result<(), &'static str> { self.0.forward(a, b) }
    fn backward(&mut self, a: &Tensor, b: &Tensor, c: &Tensor, d: &mut Tensor) -> Result<(), &'static str> { self.0.backward(a, b, c, d) }
    fn clear_gradients(&mut self) { self.0.clear_gradients() }
    fn switch_to_training(&mut self) { *self.1.borrow_mut() += 1; self.0.switch_to_training() }
    fn switch_to_inference(&mut self) { self.0.switch_to_inference() }
    fn get_run_mode(&self) -> NetworkRunState { self.0.get_run_mode() }
    fn get_input_shape(&self) -> TensorShape { self.0.get_input_shape() }
    fn get_output_shape(&self) -> TensorShape { self.0.get_output_shape() }
    fn get_name(&self) -> String { self.0.get_name() }
    fn get_serialized(&self) -> SerializedLayer { self.0.get_serialized() }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> { self.0.load_from_serialized(s) }
}
fn main() {
    let mut a = Network::new(NetworkRunState::Training);
    a.add_layer(SoftmaxLayer::new(sh(3, 1, 1), &name()).unwrap()).unwrap();
    let f = String::from("n.bin");
    a.save_to_file(&f).unwrap();
    let n = Rc::new(RefCell::new(0));
    a.add_layer(L(SoftmaxLayer::new(sh(3, 1, 1), &name()).unwrap(), n.clone())).unwrap();
    assert_eq!(*n.borrow(), 1);
    a.load_from_file(&f).unwrap();
    assert_eq!(*n.borrow(), 1, "the layers in place start their training anew");
}
'''
