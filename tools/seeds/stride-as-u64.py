PROPERTY='C27'
NEEDS='a network file with a max pool layer, written by the original release'
BREAKS='the stride of a max pool layer is stored as 64 instead of 32 bits, and read back the same way, so existing files no longer load'
EDITS=[('src/layer/max_pool.rs','''        let serial_stride = bincode::serialize(&self.stride).unwrap();''','''        let serial_stride = bincode::serialize(&(self.stride as u64)).unwrap();'''),
('src/layer/max_pool.rs','''        let stride: u32 =
            bincode::deserialize(&stride_data)''','''        let stride: u64 =
            bincode::deserialize(&stride_data)'''),
('src/layer/max_pool.rs','''        return self.fill_from_state(input_shape, mask_shape, stride, &name);''','''        if stride > u32::MAX as u64 {
            return Err("Stride is too large");
        }
        return self.fill_from_state(input_shape, mask_shape, stride as u32, &name);'''),
]
DEMO='''fn main() {
    let mut b: Vec<u8> = vec![];
    let u4 = |b: &mut Vec<u8>, x: u32| b.extend_from_slice(&x.to_le_bytes());
    let u8_ = |b: &mut Vec<u8>, x: u64| b.extend_from_slice(&x.to_le_bytes());
    u8_(&mut b, 1);
    u4(&mut b, 2);
    u8_(&mut b, 4);
    for (key, shape) in [(0, [6, 4, 1]), (1, [2, 2, 1])] {
        u4(&mut b, key);
        u8_(&mut b, 12);
        for x in shape {
            u4(&mut b, x);
        }
    }
    u4(&mut b, 2);
    u8_(&mut b, 4);
    u4(&mut b, 2);
    u4(&mut b, 3);
    u8_(&mut b, 12);
    u8_(&mut b, 4);
    b.extend_from_slice(b"pool");
    std::fs::write("old.bin", &b).unwrap();
    let mut n = Network::new(NetworkRunState::Inference);
    n.load_from_file(&String::from("old.bin")).unwrap();
    assert!(n.get_output_shape() == sh(3, 2, 1));
}
'''
