PROPERTY='C21'
NEEDS='a softmax layer whose name is longer than 255 bytes'
BREAKS='the stored name is cut after 255 characters'
EDITS=[('src/layer/softmax.rs','''        let serial_name = bincode::serialize(&self.name).unwrap();''','''        let short_name: String = self.name.chars().take(255).collect();
        let serial_name = bincode::serialize(&short_name).unwrap();''')]
DEMO='''fn main() {
    let n = "x".repeat(300);
    let l = SoftmaxLayer::new(sh(1, 1, 1), &n).unwrap();
    let mut m = SoftmaxLayer::empty();
    m.load_from_serialized(&l.get_serialized()).unwrap();
    assert_eq!(m.get_name(), n);
}
'''
