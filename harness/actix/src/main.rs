//! Harnesses over the actix-web adapter.
#[path = "../../common/world.rs"]
mod world;
#[path = "../../common/zs.rs"]
mod zs;
mod long;
mod web;

macro_rules! entries {
    ($($n:ident => $f:expr),* $(,)?) => {
        $( #[no_mangle] pub extern "C" fn $n() { $f } )*
        fn dispatch(s: &str) -> bool {
            match s { $( stringify!($n) => $n(), )* _ => return false }
            true
        }
    };
}
entries! {
    h_c19_none => web::c19_none(),
    h_c19_any => web::c19_any(),
    h_c19_prefix => web::c19_prefix(),
    h_c19_list => web::c19_list(),
    h_c19_big => web::c19_big(),
    h_c20 => web::c20(),
    h_c20_unused => web::c20_unused(),
    h_c20_big => web::c20_big(),
    h_c19_digits => long::c19_digits(),
    h_c20_long => long::c20_long(),
    h_c20_huge => long::c20_huge(),
    h_c19_body => web::c19_body(),
}
extern "C" {
    fn zs_open(p: *const u8);
    fn zs_done() -> !;
    fn zs_panic_ok() -> u8;
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = format!("{}\0", a[2]);
    unsafe { zs_open(p.as_ptr()) };
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| unsafe {
        if zs_panic_ok() != 0 {
            zs_done()
        }
        hook(i)
    }));
    if !dispatch(&a[1]) {
        std::process::exit(13)
    }
    unsafe { zs_done() }
}
