//! The unmodified visualizer, compiled against a standard library whose threads, locks, channels and
//! atomics are scheduled by the check (crate `shim`), and against a window that records what is drawn
//! (crate `kiss3d`).
#![no_std]
#![allow(dead_code, unused_imports)]

#[macro_use]
extern crate shim as std;

use std::prelude::v1::*;

include!(concat!(env!("OUT_DIR"), "/viz.rs"));

pub fn visualizer() {
    main()
}
