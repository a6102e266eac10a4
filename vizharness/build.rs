//! Makes the visualizer's source includable: its inner attributes and documentation are dropped.
use std::path::Path;

fn main() {
    let src = "/repo/viz/src/bin/draw_occupancy_grid.rs";
    println!("cargo:rerun-if-changed={}", src);
    println!("cargo:rerun-if-changed=build.rs");
    let text = std::fs::read_to_string(src).expect("the visualizer's source");
    let out: String = text
        .lines()
        .map(|l| if l.trim_start().starts_with("#![") || l.trim_start().starts_with("//!") { "" } else { l })
        .collect::<Vec<_>>()
        .join("\n");
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("viz.rs"), out).unwrap();
}
