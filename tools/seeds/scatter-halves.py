PROPERTY='C32'
NEEDS='a scatter-add whose list is shorter than the source'
BREAKS='the source elements are counted from the end of the tensor, so a list shorter than the source adds the wrong elements'
EDITS=[('src/tensor.rs','''        for (t1_index, t2_index) in index_list.iter().enumerate() {
            tensor2.data[*t2_index as usize] += tensor1.data[t1_index]
        }''','''        // Both lists are walked from the back
        let items = tensor1.data.iter().rev();
        for (item, t2_index) in items.zip(index_list.iter().rev()) {
            tensor2.data[*t2_index as usize] += *item;
        }''')]
DEMO='''fn main() {
    let x = t(sh(3, 1, 1), &[1., 2., 4.]);
    let mut y = Tensor::new(sh(2, 1, 1));
    Tensor::add_from_index_list(&x, &mut y, &vec![1, 0]).unwrap();
    assert_eq!(all(&y), vec![2., 1.]);
}
'''
