PROPERTY='C21'
NEEDS='a convolutional layer with three or more channels whose biases differ'
BREAKS='the biases are gathered from the back when a layer with more than two channels is written'
EDITS=[('src/layer/convolutional.rs','''        let serial_biases = bincode::serialize(&self.biases).unwrap();''','''        let mut biases = self.biases.clone();
        if biases.len() > 2 {
            let last = biases.len() - 1;
            biases.swap(1, last);
        }
        let serial_biases = bincode::serialize(&biases).unwrap();''')]
DEMO='''fn main() {
    let one = |v: f32| t(sh(1, 1, 1), &[v]);
    let mut l = ConvolutionalLayer::empty();
    l.fill_from_state(vec![one(1.), one(1.), one(1.)], vec![one(1.), one(2.), one(3.)], sh(1, 1, 1), 1, &name()).unwrap();
    let mut m = ConvolutionalLayer::empty();
    m.load_from_serialized(&l.get_serialized()).unwrap();
    let mut y = Tensor::new(sh(1, 1, 3));
    m.forward(&one(0.), &mut y).unwrap();
    assert_eq!(all(&y), vec![1., 2., 3.]);
}
'''
