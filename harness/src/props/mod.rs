use crate::engine::Prop;
mod asm;
pub mod cpu;
mod files;
pub mod kernel;
mod link;
mod tools;

pub fn all() -> Vec<&'static Prop> {
    [asm::PROPS, cpu::PROPS, files::PROPS, kernel::PROPS, link::PROPS, tools::PROPS].concat()
}
