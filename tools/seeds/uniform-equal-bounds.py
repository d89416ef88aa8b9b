PROPERTY='C26'
NEEDS='a uniform fill whose two bounds are equal'
BREAKS='the upper bound is excluded, so a fill with equal bounds (which used to set every element to that value) panics'
EDITS=[('src/tensor.rs','''rand::distributions::Uniform::new_inclusive(min, max);''','''rand::distributions::Uniform::new(min, max);''')]
DEMO='''fn main() {
    let mut a = Tensor::new(sh(2, 2, 1));
    a.fill_with_uniform(1.5, 1.5);
    assert_eq!(all(&a), vec![1.5; 4]);
}
'''
