#[path = "src/schema.rs"]
mod schema;
#[path = "src/universes.rs"]
mod universes;
#[path = "src/render.rs"]
mod render;

use std::{env, fs, path::Path};

fn main() {
    for f in ["src/schema.rs", "src/universes.rs", "src/render.rs", "build.rs"] { println!("cargo:rerun-if-changed={}", f) }
    let out = env::var("OUT_DIR").unwrap();
    let thorough = env::var("CARGO_FEATURE_THOROUGH").is_ok();
    for name in universes::NAMES {
        let u = universes::universe(name, thorough);
        fs::write(Path::new(&out).join(format!("{}.rs", name)), render::render(&u)).unwrap();
    }
}
