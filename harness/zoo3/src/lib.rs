//! Generated types, see tools/gen_zoo.py
include!(concat!(env!("YAMON_ZOO_DIR"), "/zoo3.rs"));
