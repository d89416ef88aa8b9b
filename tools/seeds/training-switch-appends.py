PROPERTY='C31'
NEEDS='a network that is switched to training mode again and again while it is in training mode'
BREAKS='the gradient tensors of the new training run are put in front of the old ones, which stay'
EDITS=[('src/network.rs','''        self.intermediate_gradients = vec![];
        for int_state in self.intermediate_states.iter() {
            self.intermediate_gradients
                .push(Tensor::new(int_state.get_shape()));
        }''','''        for (id, int_state) in self.intermediate_states.iter().enumerate() {
            self.intermediate_gradients
                .insert(id, Tensor::new(int_state.get_shape()));
        }''')]
DEMO='''use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let mut n = Network::new(NetworkRunState::Training);
    n.add_layer(FullyConnectedLayer::new(100, 100, &name())).unwrap();
    n.switch_to_training();
    n.switch_to_training();
    let a = LIVE.load(Ordering::SeqCst);
    for _ in 0..50 {
        n.switch_to_training();
    }
    let b = LIVE.load(Ordering::SeqCst);
    assert!(b - a < 5000, "{}", b - a);
}
'''
