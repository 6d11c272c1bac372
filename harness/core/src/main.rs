//! Harnesses over zippity's public API. Each `h_*` function is one symbolic execution entry.
#[path = "../../common/world.rs"]
mod world;
use world::{P03, P05, P06, P08, P16};
#[path = "../../common/walks.rs"]
mod walks;
#[path = "../../common/zip.rs"]
mod zip;
#[path = "../../common/zs.rs"]
mod zs;
mod bld;
mod format;
mod hist;
mod long;
mod mem;
mod rd;

macro_rules! entries {
    ($($n:ident => $f:expr),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $n() { $f } )*
        fn dispatch(s: &str) -> bool {
            match s { $( stringify!($n) => $n(), )* _ => return false }
            true
        }
    };
}
entries! {
    h_c01 => format::c01(),
    h_c01_names => format::c01_names(),
    h_c01_big => format::c01_big(),
    h_c01_many => format::c01_many(),
    h_c03_uniform => hist::c03_uniform(),
    h_c03_two => hist::c03_two(),
    h_c03_seek => hist::c03_seek(),
    h_c03_big => hist::c03_big(),
    h_c04 => hist::c04(),
    h_c04_seek => hist::c04_seek(),
    h_c05 => hist::c05(),
    h_c05_hist => hist::c05_hist(),
    h_c05_big => hist::c05_big(),
    h_c06 => hist::c06(),
    h_c02_many => long::c02_many(),
    h_c03_long => long::c03_long(),
    h_c03_many => long::c03_many(),
    h_c04_long => long::c04_long(),
    h_c05_many => long::c05_many(),
    h_c05_walk => long::walk(P05),
    h_c05_huge => long::huge(P05),
    h_c06_walk => long::walk(P06),
    h_c06_huge => long::huge(P06),
    h_c08_walk => long::walk(P08),
    h_c08_long => long::c08_long(),
    h_c10_long => long::c10_long(),
    h_c12_many => long::c12_many(),
    h_c13_long => long::c13_long(),
    h_c16_huge => long::huge(P16),
    h_c16_long => long::c16_long(),
    h_c17_long => long::c17_long(),
    h_c18_long => long::c18_long(),
    h_c02 => bld::c02(),
    h_c02_read => bld::c02_read(),
    h_c02_hist => bld::c02_hist(),
    h_c10 => bld::c10(),
    h_c11 => bld::c11(),
    h_c11_skip => bld::c11_skip(),
    h_c12 => bld::c12(),
    h_c12_names => bld::c12_names(),
    h_c12_sum => bld::c12_sum(),
    h_c14 => bld::c14(),
    h_c14_conv => bld::c14_conv(),
    h_c14_chrono => bld::c14_chrono(),
    h_c14_zone => bld::c14_zone(),
    h_c14_dst => bld::c14_dst(),
    h_c15 => bld::c15(),
    h_c07 => rd::c07(),
    h_c07_read => rd::c07_read(),
    h_c08 => rd::c08(),
    h_c08_data => rd::c08_data(),
    h_c08_big => rd::c08_big(),
    h_c09 => rd::c09(),
    h_c09_hist => rd::c09_hist(),
    h_c13 => rd::c13(),
    h_c13_hist => rd::c13_hist(),
    h_c16_clone => rd::c16_clone(),
    h_c16_take => rd::c16_take(),
    h_c17 => rd::c17(),
    h_c18 => rd::c18(),
    h_c18_big => rd::c18_big(),
    h_c01_mem => mem::c01(),
    h_c03_mem => mem::walk(P03),
    h_c05_mem => mem::walk(P05),
    h_c06_mem => mem::walk(P06),
    h_c08_mem => mem::walk(P08),
    h_c16_mem => mem::walk(P16),
    h_c18_mem => mem::stream(),
    h_c10_mem => mem::c10(),
    h_c23_walk => mem::walk(P03 | P05 | P06 | P08 | P16),
    h_c23_kinds => mem::c23_kinds(),
    h_c23_big => mem::c23_big(),
    h_c23_huge => mem::huge(P03 | P05 | P06),
    h_c05_huge_mem => mem::huge(P05),
    h_c06_huge_mem => mem::huge(P06),
}

extern "C" {
    fn zs_open(p: *const u8);
    fn zs_done() -> !;
    fn zs_panic_ok() -> u8;
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = format!("{}\0", a[2]);
    unsafe { zs_open(p.as_ptr()) };
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| unsafe {
        if zs_panic_ok() != 0 {
            zs_done()
        }
        hook(i)
    }));
    if !dispatch(&a[1]) {
        std::process::exit(13)
    }
    unsafe { zs_done() }
}
