use crate::engine::H;
pub mod common;
pub mod data;
pub mod fits;
pub mod laws;
pub mod linsys;
pub mod params;
pub mod pen;
pub mod prox;
pub mod solver;
pub mod stub;

pub fn all() -> Vec<H> {
    let mut v = vec![];
    prox::register(&mut v);
    pen::register(&mut v);
    data::register(&mut v);
    linsys::register(&mut v);
    solver::register(&mut v);
    fits::register(&mut v);
    laws::register(&mut v);
    params::register(&mut v);
    v
}
