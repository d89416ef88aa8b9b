PROPERTY='C28'
NEEDS='a layer whose forward pass returns an error, with a layer behind it'
BREAKS='inference goes on through the layers behind a failing one and reports the error only at the end'
EDITS=[('src/network.rs','''            layer.forward(input_tensor, output_tensor)?;
        }

        return Ok(());
    }

    pub fn backward''','''            if let Err(msg) = layer.forward(input_tensor, output_tensor) {
                result = result.and(Err(msg));
            }
        }

        return result;
    }

    pub fn backward'''),
('src/network.rs','''        let intermediate_state_slice = &mut self.intermediate_states[..];
''','''        let intermediate_state_slice = &mut self.intermediate_states[..];
        let mut result: Result<(), &'static str> = Ok(());
'''),
]
DEMO='''use std::cell::RefCell;
use std::rc::Rc;
/// A layer that passes its items on, notes its calls, and can fail.
struct User {
    inner: SoftmaxLayer,
    fail: bool,
    calls: Rc<RefCell<Vec<u32>>>,
    id: u32,
}
impl Layer for User {
    fn forward(&mut self, x: &Tensor, y: &mut Tensor) -> Result<(), &'static str> {
        self.calls.borrow_mut().push(self.id);
        if self.fail {
            return Err("fails");
        }
        y.fill_with_vec(all(x))
    }
    fn backward(&mut self, _: &Tensor, _: &Tensor, g: &Tensor, o: &mut Tensor) -> Result<(), &'static str> {
        self.calls.borrow_mut().push(self.id);
        if self.fail {
            return Err("fails");
        }
        o.fill_with_vec(all(g))
    }
    fn clear_gradients(&mut self) {}
    fn switch_to_training(&mut self) {
        self.inner.switch_to_training()
    }
    fn switch_to_inference(&mut self) {
        self.inner.switch_to_inference()
    }
    fn get_run_mode(&self) -> NetworkRunState {
        self.inner.get_run_mode()
    }
    fn get_input_shape(&self) -> TensorShape {
        self.inner.get_input_shape()
    }
    fn get_output_shape(&self) -> TensorShape {
        self.inner.get_output_shape()
    }
    fn get_name(&self) -> String {
        self.inner.get_name()
    }
    fn get_serialized(&self) -> SerializedLayer {
        self.inner.get_serialized()
    }
    fn load_from_serialized(&mut self, s: &SerializedLayer) -> Result<(), &'static str> {
        self.inner.load_from_serialized(s)
    }
}
fn user(id: u32, fail: bool, calls: &Rc<RefCell<Vec<u32>>>) -> User {
    User { inner: SoftmaxLayer::new(sh(2, 1, 1), &name()).unwrap(), fail, calls: calls.clone(), id }
}

fn main() {
    let calls = Rc::new(RefCell::new(vec![]));
    let mut n = Network::new(NetworkRunState::Inference);
    n.add_layer(user(0, false, &calls)).unwrap();
    n.add_layer(user(1, true, &calls)).unwrap();
    n.add_layer(user(2, false, &calls)).unwrap();
    assert!(n.infer(&Tensor::new(sh(2, 1, 1))).is_err());
    assert_eq!(*calls.borrow(), vec![0, 1]);
}
'''
