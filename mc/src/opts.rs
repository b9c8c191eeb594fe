//! Compile options.
use expander_compiler::compile::CompileOptions;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Opt {
    pub level: usize,
    pub reorder: bool,
    pub fanout: Option<usize>,
}
pub const DEF: Opt = Opt { level: 3, reorder: true, fanout: None };
impl Opt {
    pub fn real(&self) -> CompileOptions {
        CompileOptions { mul_fanout_limit: self.fanout, allow_input_reorder: self.reorder, opt_level: self.level }
    }
}
impl std::fmt::Display for Opt {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "opt_level {}{}", self.level, if self.reorder { "" } else { ", no input reorder" })?;
        if let Some(l) = self.fanout {
            write!(f, ", mul fan-out {l}")?;
        }
        Ok(())
    }
}
pub fn all_opts() -> Vec<Opt> {
    let mut r = vec![];
    for level in [3, 2, 1] {
        for reorder in [true, false] {
            for fanout in [None, Some(2), Some(3)] {
                r.push(Opt { level, reorder, fanout });
            }
        }
    }
    r
}

/// The unconstrained binary operations.
pub const UNAMES: [&str; 17] = [
    "div", "pow", "intdiv", "mod", "shl", "shr", "le", "ge", "lt", "gt", "eq", "ne", "or", "and",
    "bitor", "bitand", "bitxor",
];
