pub mod boot;
pub mod cli;
pub mod crash;
pub mod directed;
pub mod drill;
pub mod e2e;
pub mod ends;
pub mod host;
pub mod inspect;
pub mod levels;
pub mod logs;
pub mod precise;
pub mod program;
pub mod races;
pub mod res;
pub mod touch;

use crate::report::Check;

pub fn all() -> Vec<Check> {
    use drill::*;
    use program::*;
    vec![
        c01(), c02(), c03(), c04(), c05(), c06(), c07(), c08(), c09(), c10(), c11(), c12(), c13(),
        c14(), precise::c15(), c16(), crash::c17(), c18(), c19(), c20(), boot::c21(), boot::c22(), host::c23(), host::c24(), c25(), levels::c26(), inspect::c27(), c28(), ends::c29(), cli::c30(), res::c31(), logs::c32(), touch::c33(), races::c34(),
    ]
}
