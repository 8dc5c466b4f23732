pub mod arith;
pub mod arrays;
pub mod conv;
pub mod giant;
pub mod identity;
pub mod inplace;
pub mod misc;
pub mod program;
pub mod text;

use crate::engine::Property;

pub fn all() -> Vec<Property> {
    let mut all = vec![
        program::c01(),
        arith::c02(), arith::c03(), arith::c04(), arith::c05(), arith::c06(),
        identity::c07(),
        conv::c08(), conv::c09(), conv::c10(), conv::c11(),
        text::c12(), text::c13(), text::c14(),
        inplace::c15(),
        arrays::c16(), arrays::c17(), arrays::c18(), arrays::c19(),
        misc::c20(),
        inplace::c21(),
        misc::c22(), misc::c23(),
    ];
    for p in &mut all {
        p.suites.extend(giant::suite(p.id));
        p.suites.extend(giant::suite(&format!("{}-text", p.id)));
        p.suites.extend(giant::suite(&format!("{}-largest", p.id)));
    }
    all
}
