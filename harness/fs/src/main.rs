//! Harnesses over zippity's file system support, on an in-memory file system.
#[path = "../../common/world.rs"]
mod world;
use world::{P12, P14, P15, P21, P22};
#[path = "../../common/walks.rs"]
mod walks;
#[path = "../../common/zip.rs"]
mod zip;
#[path = "../../common/zs.rs"]
mod zs;
mod long;
mod model;
mod any;
mod tree;

macro_rules! entries {
    ($($n:ident => $f:expr),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $n() { $f } )*
        fn dispatch(s: &str) -> bool {
            match s { $( stringify!($n) => $n(), )* _ => return false }
            true
        }
    };
}
entries! {
    h_c21_one => tree::c21_one(P21),
    h_c12_fs => tree::c21_one(P12),
    h_c12_fs_long => tree::c21_long(P12),
    h_c14_fs => tree::c22_meta(P14),
    h_c15_fs => tree::c22_meta(P15),
    h_c02_fs => any::c02(),
    h_c21_long => tree::c21_long(P21),
    h_c21_tree => tree::c21_tree(),
    h_c21_names => tree::c21_names(),
    h_c21_fail => tree::c21_fail(),
    h_c21_deep => long::c21_deep(),
    h_c21_wide => long::c21_wide(),
    h_c22_long => long::c22_long(),
    h_c03_fs => any::c03(),
    h_c04_fs => any::c04(),
    h_c05_fs => any::c05(),
    h_c06_fs => any::c06(),
    h_c08_fs => any::c08(),
    h_c10_fs => any::c10(),
    h_c13_fs => any::c13(),
    h_c16_fs => any::c16(),
    h_c17_fs => any::c17(),
    h_c22_huge => long::c22_huge(),
    h_c22 => tree::c22(),
    h_c22_meta => tree::c22_meta(P22),
    h_c22_size => tree::c22_size(),
    h_c22_seek => tree::c22_seek(),
}

extern "C" {
    fn zs_open(p: *const u8);
    fn zs_done() -> !;
    fn zs_panic_ok() -> u8;
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = format!("{}\0", a[2]);
    unsafe { zs_open(p.as_ptr()) };
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| unsafe {
        if zs_panic_ok() != 0 {
            zs_done()
        }
        hook(i)
    }));
    if !dispatch(&a[1]) {
        std::process::exit(13)
    }
    unsafe { zs_done() }
}
