//! Generated types, see tools/gen_zoo.py
include!(concat!(env!("YAMON_ZOO_DIR"), "/zoo2.rs"));
