//! Never run: entry points for the analyser, checked against crevice's sources on every run.
#![allow(dead_code, unused, non_snake_case)]

#[path = "../../common/probe.rs"]
pub mod probe;
include!("../../common/entries.rs");
include!("types.rs");
include!("handmade.rs");
