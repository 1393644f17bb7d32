use crate::Check;
pub mod lang;
pub mod cost;
mod draw;
mod geom;
pub mod layout;
pub mod mem;
pub mod model;
pub mod run;

pub static ALL: &[Check] = &[
    lang::C01,
    lang::C02,
    lang::C03,
    lang::C04,
    lang::C05,
    lang::C06,
    model::C07,
    model::C08,
    layout::C09,
    layout::C10,
    layout::C11,
    layout::C12,
    layout::C13,
    draw::C14,
    layout::C15,
    layout::C16,
    draw::C17,
    draw::C18,
    draw::C19,
    draw::C20,
    draw::C21,
    run::C22,
    run::C23,
    run::C24,
    run::C25,
    run::C26,
    geom::C27,
    geom::C28,
    geom::C29,
    mem::C30,
    cost::C31,
    draw::C32,
];
