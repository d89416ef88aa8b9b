PROPERTY='C31'
NEEDS='a convolutional layer that is trained and switched back to inference mode; only the memory held shows it'
BREAKS='the gradients and the ReLU mask of a convolutional layer stay allocated in inference mode'
EDITS=[('src/layer/convolutional.rs','''                // No gradients required
                self.kernel_gradients = vec![];
                self.bias_gradients = vec![];
                self.relu_mask = Tensor::empty();
''','''                // No gradients required
                self.kernel_gradients.clear();
                self.bias_gradients.clear();
'''),
]
DEMO='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut l = ConvolutionalLayer::new(sh(3, 3, 1), sh(40, 40, 1), 1, 4, &name()).unwrap();
    let x = t(sh(40, 40, 1), &vec![1.0; 1600]);
    let mut y = Tensor::new(l.get_output_shape());
    l.forward(&x, &mut y).unwrap();
    let a = LIVE.load(SeqCst);
    l.switch_to_training();
    l.forward(&x, &mut y).unwrap();
    l.switch_to_inference();
    l.forward(&x, &mut y).unwrap();
    assert!(LIVE.load(SeqCst) <= a);
}
'''
