//! Entry points for the symbolic executor.
use dfharness::*;

#[no_mangle]
pub extern "C" fn sym_dispatch(i: u32) { (TABLE[i as usize].1)() }

#[no_mangle]
pub extern "C" fn sym_warmup() { warm_up() }

fn main() {
    sym_warmup();
    sym_dispatch(std::env::args().count() as u32);
}
