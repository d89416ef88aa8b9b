PROPERTY='C30'
NEEDS='a max pool layer made by new whose stride is larger than its window'
BREAKS='MaxPoolLayer::new limits the stride to the extent of the window, so layers with gaps between the windows come out with another geometry'
EDITS=[('src/layer/max_pool.rs','''        match cl.fill_from_state(input_shape, mask_shape, stride, name) {''','''        // Windows side by side, nothing is left out
        let step = std::cmp::min(stride, std::cmp::max(mask_shape.di, mask_shape.dj));
        match cl.fill_from_state(input_shape, mask_shape, step, name) {'''),
]
DEMO='''fn main() {
    let m = MaxPoolLayer::new(sh(1, 1, 1), sh(5, 5, 1), 4, &name()).unwrap();
    assert!(m.get_output_shape() == sh(2, 2, 1));
}
'''
