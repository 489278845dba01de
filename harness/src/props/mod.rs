use crate::engine::Prop;

pub mod calls;
pub mod codec;
pub mod containers;
pub mod extra;
pub mod machine;
pub mod macros;
pub mod memory;
pub mod more;
pub mod numbers;
pub mod size;
pub mod text;
pub mod values;

/// Cases `prefix ++ [i]` for i in lo..hi by step
pub struct Sweep {
    pub prefix: Vec<u64>,
    pub lo: u64,
    pub hi: u64,
    pub step: u64,
}

pub fn sweep(prefix: &[u64], lo: u64, hi: u64) -> Sweep {
    Sweep { prefix: prefix.to_vec(), lo, hi, step: 1 }
}

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => text::c01,
        "C02" => text::c02,
        "C03" => text::c03,
        "C04" => text::c04,
        "C05" => text::c05,
        "C06" => codec::c06,
        "C07" => codec::c07,
        "C08" => codec::c08,
        "C09" => numbers::c09,
        "C10" => numbers::c10,
        "C11" => numbers::c11,
        "C12" => numbers::c12,
        "C13" => numbers::c13,
        "C14" => numbers::c14,
        "C15" => containers::c15,
        "C16" => containers::c16,
        "C17" => values::c17,
        "C18" => containers::c18,
        "C19" => memory::c19,
        "C20" => macros::c20,
        "C21" => values::c21,
        "C22" => memory::c22,
        "C23" => memory::c23,
        "C24" => containers::c24,
        "C25" => containers::c25,
        "C26" => values::c26,
        "C27" => extra::c27,
        "C28" => extra::c28,
        "C29" => extra::c29,
        "C30" => extra::c30,
        "C31" => extra::c31,
        "C32" => more::c32,
        "C33" => more::c33,
        "C34" => more::c34,
        "C35" => calls::c35,
        "C36" => calls::c36,
        "C37" => machine::c37,
        "C38" => size::c38,
        _ => return None,
    })
}

pub fn sweeps(id: &str, quick: bool) -> Vec<Sweep> {
    match id {
        "C01" => text::c01_sweeps(quick),
        "C03" => text::c03_sweeps(quick),
        "C04" => text::c04_sweeps(quick),
        "C05" => text::c05_sweeps(quick),
        "C10" => numbers::c10_sweeps(quick),
        "C11" => numbers::c11_sweeps(quick),
        "C13" => numbers::c13_sweeps(quick),
        "C15" => containers::c15_sweeps(quick),
        "C22" => memory::c22_sweeps(quick),
        "C31" => extra::c31_sweeps(quick),
        "C37" => machine::c37_sweeps(quick),
        "C38" => size::c38_sweeps(quick),
        _ => Vec::new(),
    }
}
