//! `crymc <property> [--replay SPACE INDEX] [--only SPACE]`
#![allow(clippy::all)]
mod aead;
mod ec;
mod field;
mod hash;
mod int;
mod tiny;
mod util;

use mcrt::Check;

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let mut c = Check::new(&id);
    c.assume("the reference code in refmodel (written from the standards, checked there against published vectors and Python's hashlib) is right");
    match id.as_str() {
        "K01" => hash::k01(&mut c),
        "K02" => hash::k02(&mut c),
        "K03" => aead::k03(&mut c),
        "K04" => aead::k04(&mut c),
        "K05" => aead::k05(&mut c),
        "K06" => int::k06(&mut c),
        "K07" => int::k07(&mut c),
        "K08" => field::k08(&mut c),
        "K09" => ec::k09(&mut c),
        "K10" => ec::k10(&mut c),
        "K11" => ec::k11(&mut c),
        _ => panic!("unknown property {id}"),
    }
    c.finish()
}
