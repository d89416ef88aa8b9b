PROPERTY='C24'
NEEDS='weights or a bias of matching shapes that hold a NaN'
BREAKS='filling a fully connected layer from a valid state is refused when a parameter is not a number, as after a diverged training'
EDITS=[('src/layer/fully_connected.rs','''        if bias_shape.dj != 1 {
            return Err("The second dimension of bias must be 1");
        }
''','''        if bias_shape.dj != 1 || weights != weights.clone() {
            return Err("The bias or the weights cannot be used");
        }
''')]
DEMO='''fn main() {
    let mut l = FullyConnectedLayer::empty();
    let n = String::from("l");
    assert!(l.fill_from_state(t(sh(2, 2, 1), &[1.0, 2.0, 3.0, 4.0]), t(sh(2, 1, 1), &[0.0, 1.0]), &n).is_ok());
    assert!(l.fill_from_state(t(sh(2, 2, 1), &[1.0, f32::NAN, 3.0, 4.0]), t(sh(2, 1, 1), &[0.0, 1.0]), &n).is_ok());
    assert!(l.fill_from_state(t(sh(2, 2, 1), &[1.0, 2.0, 3.0, 4.0]), t(sh(2, 2, 1), &[0.0, 1.0, 2.0, 3.0]), &n).is_err());
}
'''
