PROPERTY='C02'
NEEDS='adding a tensor of zeros to one that holds negative zeros'
BREAKS='adding zero leaves the item as it is, so a negative zero stays negative'
EDITS=[('src/tensor.rs','''                *op1 = *op1 + *op2;
            }
        }
    }

    pub fn add_from''','''                // Most gradients are zero
                if *op2 != 0.0 {
                    *op1 = *op1 + *op2;
                }
            }
        }
    }

    pub fn add_from''')]
DEMO='''fn main() {
    let mut a = t(sh(1, 1, 1), &[-0.0]);
    Tensor::add_to_self(&mut a, &t(sh(1, 1, 1), &[0.0]));
    assert_eq!(all(&a)[0].to_bits(), 0);
}
'''
