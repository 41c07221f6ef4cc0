use crate::engine::Explorer;

pub mod afresh;
pub mod api;
pub mod c01;
pub mod buffer;
pub mod files;
pub mod keys;
pub mod io;
pub mod line;
pub mod names;
pub mod own;
pub mod pty;
pub mod shared;
pub mod sweep;

pub fn run(ex: &mut Explorer) -> bool {
    match ex.prop {
        "C01" => {
            c01::run(ex);
            sweep::c01(ex)
        }
        "C02" => {
            keys::c02(ex);
            sweep::c02(ex)
        }
        "C03" => {
            keys::c03(ex);
            sweep::c03(ex)
        }
        "C04" => {
            keys::c04(ex);
            sweep::c04(ex)
        }
        "C05" => {
            keys::c05(ex);
            sweep::c05(ex)
        }
        "C06" => buffer::c06(ex),
        "C21" => buffer::c21(ex),
        "C22" => buffer::c22(ex),
        "C07" => {
            line::c07(ex);
            sweep::c07(ex)
        }
        "C08" => {
            line::c08(ex);
            sweep::c08(ex)
        }
        "C09" => {
            line::c09(ex);
            sweep::c09(ex)
        }
        "C10" => {
            line::c10(ex);
            sweep::c10(ex)
        }
        "C11" => {
            line::c11(ex);
            sweep::c11(ex)
        }
        "C12" => {
            line::c12(ex);
            sweep::c12(ex)
        }
        "C13" => {
            line::c13(ex);
            sweep::c13(ex)
        }
        "C14" => names::c14(ex),
        "C15" => files::c15(ex),
        "C16" => files::c16(ex),
        "C17" => files::c17(ex),
        "C18" => files::c18(ex),
        "C19" => io::c19(ex),
        "C20" => {
            line::c20(ex);
            sweep::c20(ex)
        }
        "C23" => {
            line::c23(ex);
            sweep::c23(ex)
        }
        "C24" => {
            line::c24(ex);
            sweep::c24(ex)
        }
        "C25" => {
            api::c25(ex);
            sweep::c25(ex)
        }
        "C26" => {
            line::c26(ex);
            sweep::c26(ex)
        }
        "C27" => pty::c27(ex),
        "C28" => shared::c28(ex),
        "C29" => afresh::c29(ex),
        "C30" => own::c30(ex),
        "C31" => files::c31(ex),
        _ => return false,
    }
    true
}
