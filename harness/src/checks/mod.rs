//! One monitor per property.

use crate::monitor::{Ctx, Job, Report};
use crate::xmlp::El;
use std::sync::Arc;
use ymcore::*;

pub mod api;
pub mod flat;
pub mod probes;
pub mod reading;
pub mod robust;
pub mod roundtrip;
pub mod scalars;
pub mod writing;

pub fn build(ctx: &Arc<Ctx>) -> Option<(Report, Vec<Job>)> {
  Some(match ctx.prop.as_str() {
    "C01" => roundtrip::c01(ctx),
    "C02" => roundtrip::c02(ctx),
    "C03" => writing::c03(ctx),
    "C04" => reading::c04(ctx),
    "C05" => reading::c05(ctx),
    "C06" => scalars::c06(ctx),
    "C07" => reading::c07(ctx),
    "C08" => writing::c08(ctx),
    "C09" => flat::c09(ctx),
    "C10" => reading::c10(ctx),
    "C11" => reading::c11(ctx),
    "C12" => robust::c12(ctx),
    "C13" => robust::c13(ctx),
    "C14" => robust::c14(ctx),
    "C15" => api::c15(ctx),
    "C16" => scalars::c16(ctx),
    "C17" => api::c17(ctx),
    "C18" => robust::c18(ctx),
    "C19" => writing::c19(ctx),
    "C20" => reading::c20(ctx),
    "C21" => api::c21(ctx),
    "C22" => api::c22(ctx),
    "C23" => writing::c23(ctx),
    _ => return None,
  })
}

pub fn show_el(e: &El) -> String {
  crate::print::plain(e)
}

pub fn show_r(r: &Result<Val, String>) -> String {
  match r {
    Ok(v) => format!("Ok({v:?})"),
    Err(e) => format!("Err({e:?})"),
  }
}

pub const CONFIGS: &[Config] = &[
  Config { indent: false, decl: true, indent_string: None },
  Config { indent: false, decl: false, indent_string: None },
  Config { indent: true, decl: true, indent_string: None },
  Config { indent: true, decl: false, indent_string: Some("\t") },
  Config { indent: true, decl: true, indent_string: Some("") },
  Config { indent: false, decl: false, indent_string: Some("    ") },
];
