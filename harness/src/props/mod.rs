pub mod files;
pub mod layerprops;
pub mod network;
pub mod ops;
pub mod system;
pub mod tensors;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    vec![
        tensors::c01(),
        tensors::c02(),
        tensors::c03(),
        tensors::c04(),
        ops::c05(),
        ops::c06(),
        ops::c07(),
        ops::c08(),
        ops::c09(),
        layerprops::c10(),
        layerprops::c11(),
        layerprops::c12(),
        layerprops::c13(),
        layerprops::c14(),
        layerprops::c15(),
        network::c16(),
        network::c17(),
        network::c18(),
        network::c19(),
        files::c20(),
        layerprops::c21(),
        files::c22(),
        files::c23(),
        layerprops::c24(),
        layerprops::c25(),
        tensors::c26(),
        system::c27(),
        system::c28(),
        system::c29(),
        system::c30(),
        system::c31(),
        tensors::c32(),
    ]
}
