//! Which workloads decide which property.
use crate::cx::Cx;
use crate::*;

pub struct Case {
    pub name: &'static str,
    pub weight: u64,
    /// live bytes the case may add
    pub budget: usize,
    pub run: fn(&mut Cx),
}

const MB: usize = 1 << 20;

fn c(name: &'static str, weight: u64, run: fn(&mut Cx)) -> Case {
    Case { name, weight, budget: 512 * MB, run }
}

fn own(prop: &str) -> Vec<Case> {
    match prop {
        #[cfg(feature = "c03")]
        "C03" => vec![c("nested", 10, views::nested), c("view-refusals", 5, views::refusals)],
        #[cfg(feature = "c04")]
        "C04" => vec![
            c("shape-edits", 10, shapes::edits), c("shape-broadcasting", 8, shapes::broadcasting),
            c("shape-refusals", 5, shapes::refusals), c("shape-misfits", 5, shapes::misfits),
        ],
        #[cfg(feature = "c05")]
        "C05" => vec![
            c("from_nested", 10, construct::from_nested), c("from_option", 2, construct::from_option),
            c("from_strings", 2, construct::from_strings), c("from_tensors", 5, construct::from_tensors),
            c("ragged", 6, construct::ragged), c("ragged-nest", 8, construct::ragged_nest), c("wrong_amount", 4, construct::wrong_amount),
        ],
        #[cfg(feature = "c06")]
        "C06" => vec![
            c("operators", 10, elementwise::operators), c("operators_rich", 4, elementwise::operators_rich),
            c("functions", 8, elementwise::functions), c("maps", 8, elementwise::maps),
            c("maps_any", 5, elementwise::maps_any), c("elementwise-refusals", 4, elementwise::refusals),
            c("elementwise-near-misses", 5, elementwise::refusals3),
        ],
        #[cfg(all(feature = "c24", not(miri), not(harness_san)))]
        "C01" => vec![c("allocation-failures", 2, oom::failures)],
        #[cfg(feature = "c08")]
        "C08" => vec![
            c("concat", 8, arrays::concat), c("stack", 8, arrays::stack),
            c("join_lists", 8, arrays::join_lists), c("join_refusals", 5, arrays::join_refusals),
            c("join_pieces", 8, arrays::join_pieces),
        ],
        #[cfg(feature = "c09")]
        "C09" => vec![
            c("split", 10, arrays::split), c("unstack", 6, arrays::unstack), c("split_refusals", 4, arrays::split_refusals),
        ],
        #[cfg(feature = "c10")]
        "C10" => vec![c("transpose", 8, arrays::transpose), c("tile", 8, arrays::tile)],
        #[cfg(feature = "c07")]
        "C07" => vec![
            c("fold-positions", 10, reduce::positions), c("reduce-any", 5, reduce::any),
            c("reduce-numeric", 10, reduce::numeric), c("reduce-integers", 3, reduce::integers),
            c("axis", 1, reduce::axes),
        ],
        #[cfg(feature = "c11")]
        "C11" => vec![
            c("matmul", 10, linalg::matrix), c("matvec", 10, linalg::vector), c("product-refusals", 3, linalg::refusals),
        ],
        #[cfg(feature = "c12")]
        "C12" => vec![
            c("fills", 8, inits::fills), c("matrices", 8, inits::matrices), c("grids", 6, inits::grids),
            c("small-grids", 3, inits::small_grids),
        ],
        #[cfg(feature = "c13")]
        "C13" => vec![
            c("stepped", 10, inits::stepped), c("spaces", 10, inits::spaces), c("range-refusals", 3, inits::range_refusals),
        ],
        #[cfg(feature = "c14")]
        "C14" => vec![
            c("streams", 10, random::streams), c("strings", 3, random::strings),
            c("random-tensors", 10, random::tensors), c("moments", 1, random::moments),
        ],
        #[cfg(feature = "c17")]
        "C17" => vec![c("spectrum", 10, signal::spectrum)],
        #[cfg(feature = "c18")]
        "C18" => vec![c("histogram", 10, signal::hist1), c("histogram2d", 8, signal::hist2)],
        #[cfg(feature = "c19")]
        "C19" => vec![c("wav", 6, fileio::wav_good), c("wav-corrupt", 10, fileio::wav_bad)],
        #[cfg(feature = "c20")]
        "C20" => vec![c("files", 10, fileio::files), c("special-files", 2, fileio::special)],
        #[cfg(feature = "c02")]
        "C02" => vec![c("history", 40, history::history)],
        #[cfg(feature = "c15")]
        "C15" => vec![c("seeded-threads", 10, threads::seeded), c("unseeded-threads", 4, threads::unseeded)],
        #[cfg(feature = "c16")]
        "C16" => vec![c("sharing", 40, threads::sharing), c("jobs", 12, threads::jobs), c("bounds", 1, threads::bounds)],
        #[cfg(feature = "c22")]
        "C22" => vec![c("panics", 10, faults::calls), c("destructor-panics", 4, faults::destructors)],
        #[cfg(feature = "c23")]
        "C23" => vec![c("equality", 10, elementwise::equality)],
        #[cfg(feature = "c24")]
        "C24" => vec![c("operations", 10, pure::history)],
        _ => vec![],
    }
}

pub const PROPS: [&str; 24] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
];

pub fn lookup(prop: &str) -> (&'static str, Vec<Case>) {
    let name = PROPS.iter().find(|p| **p == prop).expect("unknown property");
    let mut cases = own(name);
    if matches!(*name, "C01" | "C02" | "C03" | "C04") {
        for p in PROPS {
            if p != *name && !matches!(p, "C14" | "C15" | "C16" | "C20" | "C21" | "C24") {
                cases.extend(own(p));
            }
        }
    }
    (name, cases)
}
