//! C37 the same results on machines with other words and byte orders: the
//! cases and oracles of other properties, run on an interpreted target.

use crate::engine::{Prop, G, R};

use super::{calls, codec, containers, extra, memory, more, numbers, text, values, Sweep};

/// With how often each is drawn: interpreting some takes long
const PARTS: [(u32, &str, Prop); 29] = [
    (3, "C01 grammar and values", text::c01),
    (3, "C03 positions of errors", text::c03),
    (3, "C05 strings", text::c05),
    (1, "C06 round trips", codec::c06),
    (1, "C07 printing", codec::c07),
    (3, "C09 literals", numbers::c09),
    (3, "C10 numbers from parts", numbers::c10),
    (3, "C11 floats", numbers::c11),
    (3, "C12 comparing numbers", numbers::c12),
    (3, "C13 integers", numbers::c13),
    (3, "C14 fixed point", numbers::c14),
    (1, "C15 objects", containers::c15),
    (1, "C16 histories", containers::c16),
    (1, "C17 equality", values::c17),
    (1, "C18 clones", containers::c18),
    (1, "C21 conversions", values::c21),
    (1, "C24 iterators", containers::c24),
    (1, "C25 paths", containers::c25),
    (3, "C26 accessors", values::c26),
    (3, "C29 signs and NaN", extra::c29),
    (FAST, "C04 nesting", text::c04),
    (FAST, "C08 streams", codec::c08),
    (FAST, "C27 generators", extra::c27),
    (FAST, "C28 formatting", extra::c28),
    (FAST, "C35 calls of generators", calls::c35),
    (FAST, "C02 any text", text::c02),
    (FAST, "C19 memory", memory::c19),
    (FAST, "C33 panics in callbacks", more::c33),
    (FAST, "C34 calls in callbacks", more::c34),
];

/// Only where the machine's code is compiled, not interpreted
const FAST: u32 = if cfg!(miri) { 0 } else { 2 };

pub fn c37(g: &mut G) -> R {
    let (_, name, part) = PARTS[g.weighted(&PARTS.map(|x| x.0))];
    g.label(name);
    g.note(|| format!("as {}, {} bits, {} endian", name, usize::BITS, if cfg!(target_endian = "big") { "big" } else { "little" }));
    part(g)
}

/// The sweeps of the parts
pub fn c37_sweeps(quick: bool) -> Vec<Sweep> {
    let mut all = Vec::new();
    for (i, p) in PARTS.iter().enumerate() {
        for mut s in super::sweeps(&p.1[..3], quick) {
            s.prefix.insert(0, i as u64);
            all.push(s);
        }
    }
    all
}
