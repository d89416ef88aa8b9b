PROPERTY='C13'
NEEDS='an incoming gradient that holds a NaN (a diverged loss)'
BREAKS='the scattered addition leaves NaN items out, so the max-pool layer passes back zero where a NaN gradient came in'
EDITS=[('src/tensor.rs','''            tensor2.data[*t2_index as usize] += tensor1.data[t1_index]
''','''            let item = tensor1.data[t1_index];
            if item.is_nan() {
                continue;
            }
            tensor2.data[*t2_index as usize] += item
''')]
DEMO='''fn main() {
    let mut l = MaxPoolLayer::new(sh(2, 1, 1), sh(4, 1, 1), 2, &String::from("l")).unwrap();
    l.switch_to_training();
    let x = t(sh(4, 1, 1), &[1.0, 2.0, 4.0, 3.0]);
    let mut y = Tensor::new(sh(2, 1, 1));
    l.forward(&x, &mut y).unwrap();
    let mut g = Tensor::new(sh(4, 1, 1));
    l.backward(&x, &y, &t(sh(2, 1, 1), &[f32::NAN, 1.0]), &mut g).unwrap();
    let g = all(&g);
    assert!(g[1].is_nan());
    assert_eq!((g[0], g[2], g[3]), (0.0, 1.0, 0.0));
}
'''
