PROPERTY='C26'
NEEDS='a tensor with a NaN compared with itself, the very same object'
BREAKS='equality takes a short cut for identical objects, so a tensor with a NaN equals itself but not its clone'
EDITS=[('src/tensor.rs','''        if self.shape != other.shape {
            return false;
        }
        if self.data != other.data {''','''        // The same object needs no comparison
        if std::ptr::eq(self, other) {
            return true;
        }
        if self.shape != other.shape || self.data.len() != other.data.len() {
            return false;
        }
        if self.data != other.data {''')]
DEMO='''fn main() {
    let a = t(sh(2, 1, 1), &[1.0, f32::NAN]);
    let b = a.clone();
    assert!(a != b);
    assert!(a != a);
    let c = t(sh(2, 1, 1), &[1.0, 2.0]);
    assert!(c == c);
}
'''
