PROPERTY='C01'
NEEDS='an index that is out of range in the first or second direction but whose flat position lies inside the tensor, after non-zero data was stored there'
BREAKS='get_item checks only the flat position, so reading outside the shape returns another element instead of zero'
EDITS=[('src/tensor.rs','''        let mut return_val: f32 = 0.0;
        if self.shape.fits_index(&index) {
            let data_index = self.get_data_index(index);
            return_val = self.data[data_index as usize];
        }
        return return_val;''','''        // Everything outside of the stored items reads as zero
        let data_index = self.get_data_index(index) as usize;
        return self.data.get(data_index).copied().unwrap_or(0.0);''')]
DEMO='''fn main() {
    let v: Vec<f32> = (1..=24).map(|x| x as f32).collect();
    let a = t(sh(2, 3, 4), &v);
    for k in 0..6 {
        for j in 0..6 {
            for i in 0..6 {
                let want = if i < 2 && j < 3 && k < 4 { (1 + i + 2 * j + 6 * k) as f32 } else { 0.0 };
                assert_eq!(a.get_item(&at(i, j, k)), want, "{i} {j} {k}");
            }
        }
    }
}
'''
