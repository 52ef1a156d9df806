mod failures;
mod queue;
mod pyref;
mod damage;
mod foreign;
mod sink;
mod files;
mod channels;
mod written;
mod codec;
mod text;
mod purity;
mod total;
mod opset;
mod noise;
mod palette;
mod auto;
mod effects;
mod hist;
mod tone;
mod color;
mod filters;
mod resample;
mod blend;
mod compose;
mod geom;
mod buffer;
mod common;
mod kernel;
mod imgs;
mod label;
mod orc;

use common::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "pyref").unwrap_or(false) {
        std::panic::set_hook(Box::new(|_| {}));
        return pyref::serve();
    }
    // d10-harness <driver> <seed> <quick|thorough> <outdir> <shards> [cases]
    let mut ctx = Ctx::new(a[2].parse().unwrap(), a[3] == "thorough", &a[4], a[5].parse().unwrap(), a.get(6).cloned());
    std::panic::set_hook(Box::new(|_| {}));
    // a panic of the driver itself (not of the code under test) must be visible
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match a[1].as_str() {
        "b01" => buffer::b01(&mut ctx),
        "b02" => buffer::b02(&mut ctx),
        "k01" => kernel::k01(&mut ctx),
        "g01" => geom::g01(&mut ctx),
        "c01" => compose::c01(&mut ctx),
        "c02" => blend::c02(&mut ctx),
        "r01" => resample::r01(&mut ctx),
        "r02" => resample::r02(&mut ctx),
        "g02" => resample::g02(&mut ctx),
        "f01" => filters::f01(&mut ctx),
        "f02" => filters::f02(&mut ctx),
        "v01" => color::v01(&mut ctx),
        "t01" => tone::t01(&mut ctx),
        "t02" => tone::t02(&mut ctx),
        "h01" => hist::h01(&mut ctx),
        "e01" => effects::e01(&mut ctx),
        "h02" => auto::h02(&mut ctx),
        "l01" => palette::l01(&mut ctx),
        "n01" => noise::n01(&mut ctx),
        "a01" => total::a01(&mut ctx),
        "b03" => purity::b03(&mut ctx),
        "v02" => text::v02(&mut ctx),
        "v03" => channels::v03(&mut ctx),
        "x08" => written::x08(&mut ctx),
        "x03" => codec::x03(&mut ctx),
        "x06" => codec::x06(&mut ctx),
        "x01" => files::x01(&mut ctx),
        "x02" => files::x02(&mut ctx),
        "x04" => sink::x04(&mut ctx),
        "x07" => foreign::x07(&mut ctx),
        "x05" => damage::x05(&mut ctx),
        "z01" => failures::z01(&mut ctx),
        "q01" => queue::q01(&mut ctx),
        "q02" => queue::q02(&mut ctx),
        d => panic!("unknown driver {}", d),
    }));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        eprintln!("driver panic: {:?}", m);
        std::process::exit(3);
    }
    ctx.finish();
}
