PROPERTY='C10'
NEEDS='two backward passes, the second with a gradient whose dot product with the output is exactly zero (for instance all zeros)'
BREAKS='the scaled output of the earlier pass is kept when there is nothing to subtract, so the second gradient contains a part of the first'
EDITS=[('src/layer/softmax.rs','''        Tensor::scale(output, scalar, &mut self.intermediate2);''','''        if scalar != 0.0 {
            Tensor::scale(output, scalar, &mut self.intermediate2);
        }'''),('src/layer/softmax.rs','''        Tensor::multiply_elementwise(&output, incoming_gradient, outgoing_gradient);''','''        Tensor::multiply_elementwise(output, incoming_gradient, outgoing_gradient);''')]
DEMO='''fn main() {
    let mut l = SoftmaxLayer::new(sh(3, 1, 1), &name()).unwrap();
    l.switch_to_training();
    let x = t(sh(3, 1, 1), &[0.5, 1.0, 0.25]);
    let mut y = Tensor::new(sh(3, 1, 1));
    let mut o = Tensor::new(sh(3, 1, 1));
    l.forward(&x, &mut y).unwrap();
    l.backward(&x, &y, &t(sh(3, 1, 1), &[1., 2., 3.]), &mut o).unwrap();
    l.forward(&x, &mut y).unwrap();
    l.backward(&x, &y, &Tensor::new(sh(3, 1, 1)), &mut o).unwrap();
    assert!(all(&o).iter().all(|v| v.abs() < 1e-6), "{:?}", all(&o));
}
'''
