PROPERTY='C13'
NEEDS='overlapping windows in which two neighbouring outputs have the same origin and the later one carries a zero gradient sign change (any two non-zero gradients)'
BREAKS='consecutive equal origins are taken as one entry and only the first gradient of a run reaches the input'
EDITS=[('src/tensor.rs','''        for (t1_index, t2_index) in index_list.iter().enumerate() {
            tensor2.data[*t2_index as usize] += tensor1.data[t1_index]
        }''','''        let mut run_value = 0.0;
        for (t1_index, t2_index) in index_list.iter().enumerate() {
            // Items that go to the same place are gathered first
            run_value += tensor1.data[t1_index];
            if index_list.get(t1_index + 1) != Some(t2_index) {
                tensor2.data[*t2_index as usize] += run_value;
            }
            run_value = 0.0;
        }''')]
DEMO='''fn main() {
    let mut l = MaxPoolLayer::new(sh(2, 1, 1), sh(3, 1, 1), 1, &name()).unwrap();
    l.switch_to_training();
    let x = t(sh(3, 1, 1), &[1., 5., 2.]);
    let mut y = Tensor::new(sh(2, 1, 1));
    l.forward(&x, &mut y).unwrap();
    let mut o = Tensor::new(sh(3, 1, 1));
    l.backward(&x, &y, &t(sh(2, 1, 1), &[10., 7.]), &mut o).unwrap();
    assert_eq!(all(&o), vec![0., 17., 0.]);
}
'''
