PROPERTY='C26'
NEEDS='two tensors of one shape with a not-a-number in them'
BREAKS='inequality is decided by order, so tensors with not-a-number are neither equal nor unequal'
EDITS=[('src/tensor.rs','''    fn ne(&self, other: &Self) -> bool {
        return !self.eq(other);
    }''','''    fn ne(&self, other: &Self) -> bool {
        if self.shape != other.shape {
            return true;
        }
        let mut pairs = self.data.iter().zip(other.data.iter());
        return pairs.any(|(a, b)| a < b || a > b);
    }''')]
DEMO='''fn main() {
    let a = t(sh(2, 1, 1), &[1., f32::NAN]);
    let b = t(sh(2, 1, 1), &[1., f32::NAN]);
    assert!((a != b) == !(a == b));
}
'''
