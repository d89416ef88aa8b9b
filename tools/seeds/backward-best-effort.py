PROPERTY='C28'
NEEDS='a layer other than the last whose backward pass returns an error'
BREAKS='an error in the backward pass of a layer that is not the last is dropped, and what was left in the gradient goes on to the layers in front'
EDITS=[('src/network.rs','''            layer.backward(input, output, incoming_gradient, outgoing_gradient)?;''','''            let result = layer.backward(input, output, incoming_gradient, outgoing_gradient);
            if i + 1 == number_of_layers {
                result?;
            }'''),
]
DEMO='''use std::cell::RefCell;
use std::rc::Rc;
/// A layer that passes its items on, notes its calls, and can fail.
struct User {
    inner: SoftmaxLayer,
    fail: bool,
    calls: Rc<RefCell<Vec<u32>>>,
    id: u32,
}
impl Layer for User {
    fn forward(&mut self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> {
        self.calls.borrow_mut().push(self.id);
        if self.fail {
            return Err("fails");
        }
        y.fill_with_vec(all(x))
    }
    fn backward(&mut self, _: &Tensor, _: &Tensor, g: &Tensor, o: &mut Tensor) -> Result<(), &'static str> {
        self.calls.borrow_mut().push(self.id);
        if self.fail {
            return Err("fails");
        }
        o.fill_with_vec(all(g))
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.inner.switch_to_training()
    }
    fn switch_to_inference(&mut self) {
        self.inner.switch_to_inference()
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.inner.get_run_mode()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.inner.get_input_shape()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.inner.get_output_shape()
    }
    fn get_name(&self) -> String {
        self.inner.get_name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.inner.get_serialized()
    }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
        self.inner.load_from_serialized(s)
    }
}
fn user(id: u32, fail: bool, calls: &Rc<RefCell<Vec<u32>>>) -> User {
    User { inner: SoftmaxLayer::new(sh(2, 1, 1), &name()).unwrap(), fail, calls: calls.clone(), id }
}

fn main() {
    let calls = Rc::new(RefCell::new(vec![]));
    let mut n = Network::new(NetworkRunState::Training);
    n.add_layer(user(0, false, &calls)).unwrap();
    n.add_layer(SoftmaxLayer::new(sh(2, 1, 1), &name()).unwrap()).unwrap();
    n.infer(&Tensor::new(sh(2, 1, 1))).unwrap();
    assert!(n.backward(&Tensor::new(sh(2, 1, 1))).is_ok());

    let mut n = Network::new(NetworkRunState::Training);
    struct Back(User);
    // forward works, backward does not
    impl Layer for Back {
        fn forward(&mut self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> {
            y.fill_with_vec(all(x))
        }
        fn backward(&mut self, a: &Tensor, b: &Tensor, g: &Tensor, o: &mut Tensor) -> Result<(), &'static str> {
            self.0.backward(a, b, g, o)
        }
        fn clear_gradients(&mut self) {}
        fn switch_to_training(&mut self) {
            self.0.switch_to_training()
        }
        fn switch_to_inference(&mut self) {
            self.0.switch_to_inference()
        }
        fn get_run_mode(&self) -> NetworkRunState {
            self.0.get_run_mode()
        }
        fn get_input_shape(&self) -> TensorShape {
            self.0.get_input_shape()
        }
        fn get_output_shape(&self) -> TensorShape {
            self.0.get_output_shape()
        }
        fn get_name(&self) -> String {
            self.0.get_name()
        }
        fn get_serialized(&self) -> SerializedLayer {
            self.0.get_serialized()
        }
        fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
            self.0.load_from_serialized(s)
        }
    }
    calls.borrow_mut().clear();
    n.add_layer(Back(user(0, true, &calls))).unwrap();
    n.add_layer(user(1, false, &calls)).unwrap();
    n.infer(&Tensor::new(sh(2, 1, 1))).unwrap();
    calls.borrow_mut().clear();
    assert!(n.backward(&Tensor::new(sh(2, 1, 1))).is_err());
    assert_eq!(*calls.borrow(), vec![1, 0]);
}
'''
