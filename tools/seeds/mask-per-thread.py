PROPERTY='C29'
NEEDS='a convolutional layer that does its forward pass on one thread and its backward pass on another'
BREAKS='the ReLU mask of a convolutional layer is kept in thread-local storage, so it is missing on another thread'
EDITS=[('src/layer/convolutional.rs','''pub struct ConvolutionalLayer {
    kernels: Vec<Tensor>,''','''// The masks of the last forward passes, kept out of the layers to make them smaller
thread_local! {
    static MASKS: std::cell::RefCell<HashMap<u64, Tensor>> = Default::default();
}
static NEXT_MASK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub struct ConvolutionalLayer {
    mask_id: u64,
    kernels: Vec<Tensor>,'''),
('src/layer/convolutional.rs','''        let cl = ConvolutionalLayer {
''','''        let cl = ConvolutionalLayer {
            mask_id: NEXT_MASK.fetch_add(1, std::sync::atomic::Ordering::Relaxed),
'''),
('src/layer/convolutional.rs','''                tensor::Tensor::relu_self_and_store_mask(output, &mut self.relu_mask)?;
''','''                let mut mask = Tensor::new(self.output_shape);
                tensor::Tensor::relu_self_and_store_mask(output, &mut mask)?;
                MASKS.with(|masks| masks.borrow_mut().insert(self.mask_id, mask));
'''),
('src/layer/convolutional.rs','''        let mut masked_gradient = self.relu_mask.clone();
''','''        let mut masked_gradient = MASKS
            .with(|masks| masks.borrow().get(&self.mask_id).cloned())
            .unwrap_or(self.relu_mask.clone());
'''),
]
DEMO='''fn main() {
    let mut c = ConvolutionalLayer::empty();
    c.fill_from_state(
        vec![t(sh(2, 1, 1), &[1., 2.])],
        vec![t(sh(1, 1, 1), &[0.5])],
        sh(2, 1, 1),
        1,
        &name(),
    )
    .unwrap();
    c.switch_to_training();
    let x = t(sh(2, 1, 1), &[1., 1.]);
    let mut y = Tensor::new(sh(1, 1, 1));
    c.forward(&x, &mut y).unwrap();
    let d = std::thread::spawn(move || {
        let mut d = Tensor::new(sh(2, 1, 1));
        c.backward(&x, &y, &t(sh(1, 1, 1), &[3.]), &mut d).unwrap();
        all(&d)
    })
    .join()
    .unwrap();
    assert_eq!(d, vec![3., 6.]);
}
'''
