//! One module per property.
use crate::driver::*;
use mcrt::Check;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;

pub use c05::recording_cfgs;

pub fn run(id: &str) {
    let mut c = Check::new(id);
    c.assume("the random source is a stand-in for the getrandom crate whose every answer the harness chooses; the transport is the three callbacks of TurtlsIo, called from one thread");
    c.assume("the reference model (hashes, HKDF, AES-GCM, ChaCha20-Poly1305, P-256, TLS 1.3 records and messages) was written separately and agrees with the published vectors in its unit tests, among them RFC 8448");
    c.assume("built with overflow checks and debug assertions, as the default cargo profile builds the library");
    match id {
        "C01" => c01::run(&mut c),
        "C02" => c02::run(&mut c),
        "C03" => c03::run(&mut c),
        "C04" => c04::run(&mut c),
        "C05" => c05::run(&mut c),
        "C06" => c06::run(&mut c),
        "C07" => c07::run(&mut c),
        "C08" => c08::run(&mut c),
        "C09" => c09::run(&mut c),
        "C10" => c10::run(&mut c),
        "C11" => c11::run(&mut c),
        "C12" => c12::run(&mut c),
        "C13" => c13::run(&mut c),
        "C14" => c14::run(&mut c),
        "C15" => c15::run(&mut c),
        _ => panic!("unknown property {id}"),
    }
    c.finish()
}

/// Builds the worlds for these configurations. The first attempt runs in a forked worker, so that
/// a crash of the library is a violation and not the end of the explorer.
pub fn worlds(c: &mut Check, cfgs: &[Cfg]) -> Option<Vec<World>> {
    let v: Vec<_> = cfgs.iter().map(|c| (c.clone(), cheap_rng(), [5, 0, 0, 0], Some([3, 0, 0, 0]))).collect();
    worlds_with(c, &v)
}
pub type Setup = (Cfg, Vec<getrandom::Answer>, refmodel::p256::L, Option<refmodel::p256::L>);
pub fn worlds_with(c: &mut Check, v: &[Setup]) -> Option<Vec<World>> {
    c.items(
        "client-hello",
        v,
        |s| format!("first connect call with {:?}, randomness {}", s.0, show_rng(&s.1)),
        |s, p| {
            World::with(s.0.clone(), s.1.clone(), s.2, s.3)?;
            p.trace();
            p.steps(1);
            p.outcome("client hello");
            Ok(())
        },
    );
    if c.failed() {
        return None;
    }
    Some(v.iter().map(|s| World::with(s.0.clone(), s.1.clone(), s.2, s.3).unwrap()).collect())
}
/// A stream whose ServerHello part may or may not be acceptable: if the reference accepts it, an
/// EncryptedExtensions message under the resulting keys is appended, so that acceptance (and the
/// choice of keys) becomes observable.
pub fn probe_hello(w: &World, mut stream: Vec<u8>) -> Vec<u8> {
    use refmodel::model::End;
    let v = w.verdict(&stream);
    if v.stage == 1 && v.ends.contains(&End::More) {
        if let Some(k) = v.keys {
            let mut d = k.server;
            stream.extend_from_slice(&d.seal(22, &crate::gen::ee(&[]), 0));
        }
    }
    stream
}
/// A space of server byte streams, each played to a fresh connection and compared with the reference.
pub fn streams<'a>(c: &mut Check, name: &str, n: u64, mk: impl Fn(u64) -> (&'a World, Vec<u8>)) {
    c.space(
        name,
        n,
        |i| {
            let (w, s) = mk(i);
            w.describe(&s)
        },
        |i, p| {
            let (w, s) = mk(i);
            run_stream(w, &s, p)
        },
    );
}
/// Splits a case number into digits of the given radices (first digit varies slowest).
pub fn digits<const N: usize>(mut i: u64, radix: [u64; N]) -> [usize; N] {
    let mut o = [0; N];
    for k in (0..N).rev() {
        o[k] = (i % radix[k]) as usize;
        i /= radix[k];
    }
    assert_eq!(i, 0);
    o
}
