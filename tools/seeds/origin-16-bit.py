PROPERTY='C13'
NEEDS='a training pass of a max pool layer whose input holds more than 65536 items'
BREAKS='the remembered origins keep only 16 bits, so gradients of windows further back land at the start of the input'
EDITS=[('src/tensor.rs','''                    origin_list[output_index as usize] = input_index;''','''                    // Sixteen bits are plenty for the images we see
                    origin_list[output_index as usize] = (input_index as u16) as u32;''')]
DEMO='''fn main() {
    let mut l = MaxPoolLayer::new(sh(2, 2, 1), sh(300, 300, 1), 2, &name()).unwrap();
    l.switch_to_training();
    let x = t(sh(300, 300, 1), &(0..90000).map(|i| i as f32).collect::<Vec<_>>());
    let mut y = Tensor::new(l.get_output_shape());
    l.forward(&x, &mut y).unwrap();
    let mut o = Tensor::new(sh(300, 300, 1));
    l.backward(&x, &y, &t(sh(150, 150, 1), &vec![1.0; 22500]), &mut o).unwrap();
    let total: f32 = all(&o).iter().sum();
    assert_eq!(total, 22500.0);
    assert_eq!(o.get_item(&at(299, 299, 0)), 1.0);
}
'''
