//! `tlsmc <property> [--replay SPACE INDEX] [--only SPACE]`
#![allow(clippy::all)]
mod alloc;
mod driver;
mod gen;
mod props;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    if id == "dump-hellos" {
        // input of refmodel/record-openssl.py
        for (i, c) in props::recording_cfgs().into_iter().enumerate() {
            println!("{i} {}", refmodel::hex(&driver::World::new(c).unwrap().hello_wire));
        }
        return;
    }
    getrandom::set_hook(driver::random_hook);
    props::run(&id);
}
