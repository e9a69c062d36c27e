pub mod blocks;
pub mod doc;
pub mod include;
pub mod isolation;
pub mod render;
pub mod robust;

use crate::runner::Prop;

pub fn all() -> Vec<Box<dyn Prop>> {
    vec![
        Box::new(isolation::P01),
        Box::new(isolation::P02),
        Box::new(isolation::P03),
        Box::new(include::Includes(4)),
        Box::new(include::Includes(5)),
        Box::new(include::Includes(6)),
        Box::new(include::Includes(7)),
        Box::new(blocks::Blocks(10)),
        Box::new(blocks::Blocks(11)),
        Box::new(blocks::Blocks(12)),
        Box::new(blocks::Blocks(13)),
        Box::new(blocks::Blocks(14)),
        Box::new(render::Render(8)),
        Box::new(render::Render(9)),
        Box::new(robust::P15),
        Box::new(robust::P16),
        Box::new(robust::P17),
        Box::new(robust::P18),
        Box::new(render::Render(19)),
        Box::new(render::Render(20)),
        Box::new(render::Render(21)),
        Box::new(render::Render(22)),
    ]
}
