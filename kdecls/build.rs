//! Writes the kernels and kernel calls of C15.
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    std::fs::write(format!("{out}/kernels.rs"), kernels()).unwrap();
}

/// argument types, with their shapes where N is 2
const TYPES: [(&str, &str); 20] = [
    ("@", ""),
    ("[@; 1]", "1"),
    ("[@; 3]", "3"),
    ("[@; N]", "2"),
    ("[@; N + 1]", "3"),
    ("[[@; 2]; 3]", "3, 2"),
    ("[[@; 3]; 2]", "2, 3"),
    ("[[@; N + 1]; 2]", "2, 3"),
    ("[[@; 3]; N + 1]", "3, 3"),
    ("[[@; 2]; N * 2]", "4, 2"),
    ("[[@; 1]; 1]", "1, 1"),
    ("[[[@; 2]; 3]; 2]", "2, 3, 2"),
    ("[[[@; 3]; 1]; 2]", "2, 1, 3"),
    ("[[[@; 2]; N + 1]; 2]", "2, 3, 2"),
    ("[[[@; N + 1]; 2]; 2]", "2, 2, 3"),
    ("[[[@; 2]; 2]; N + 1]", "3, 2, 2"),
    ("[[[@; N + 1]; N + 1]; 1]", "1, 3, 3"),
    ("[[[@; 3 - 1]; 5 - N]; 2]", "2, 3, 2"),
    ("[[[@; 1 << 1]; N + 1]; N]", "2, 3, 2"),
    ("[[[[@; 2]; N - 1 + 1]; 1 + N]; 2]", "2, 3, 2, 2"),
];
/// what, how it is declared
const KINDS: [(&str, &str, &str); 5] = [
    ("In", "&", "InputVariable"),
    ("In", "&mut ", "InputVariable"),
    ("Out", "&mut ", "OutputVariable"),
    ("Io", "&mut ", "InputOutputVariable"),
    // cannot be set, so it stays as it is
    ("Kept", "&", "InputOutputVariable"),
];

fn kernels() -> String {
    let mut sigs: Vec<Vec<(usize, usize)>> = vec![];
    let n = TYPES.len();
    for k in 0..5 {
        for t in 0..n {
            sigs.push(vec![(k, t)]);
        }
    }
    for k in 0..5 {
        for k2 in 0..5 {
            for t in 0..n / 2 {
                let t = (t * 2 + k + k2) % n;
                sigs.push(vec![(k, t), (k2, (t * 7 + 3 + k2) % n)]);
            }
            for k3 in 0..4 {
                let t = k * 5 + k2 * 7 + k3 * 3;
                sigs.push(vec![(k, t % n), (k2, (t * 3 + 1) % n), (k3, (t + 11) % n)]);
            }
        }
    }
    sigs.push((0..8).map(|i| (i % 4, i)).collect());
    let mut o = String::new();
    let mut table = String::new();
    for (i, s) in sigs.iter().enumerate() {
        let args: Vec<String> = s.iter().enumerate().map(|(j, (k, t))| format!("a{j}: {}{}", KINDS[*k].1, TYPES[*t].0.replace('@', KINDS[*k].2))).collect();
        let mut body = String::from("    let mut x = vec![];\n");
        let mut m = vec![];
        for (j, (k, t)) in s.iter().enumerate() {
            if KINDS[*k].0 != "Out" {
                body += &format!("    a{j}.flat(&mut x);\n");
            }
            if matches!(KINDS[*k].0, "Out" | "Io") {
                m.push((j, t));
            }
        }
        let total: Vec<String> = m.iter().map(|(_, t)| format!("size(&[{}])", TYPES[**t].1)).collect();
        body += &format!("    let mut y = poly(api, &x, 0{}).into_iter();\n", total.iter().map(|t| format!(" + {t}")).collect::<String>());
        for (j, (k, _)) in s.iter().enumerate() {
            if m.iter().any(|x| x.0 == j) {
                body += &format!("    a{j}.fill(&mut y);\n");
            } else if *k == 1 {
                // what becomes of an input is of no concern
                body += &format!("    let z = api.constant(0);\n    a{j}.fill(&mut std::iter::repeat(z));\n");
            }
        }
        body += "    let _ = y.next();\n";
        o += &format!("#[kernel]\nfn k{i}<C: Config>(api: &mut API<C>, {}) {{\n{body}}}\n", args.join(", "));
        let desc: Vec<String> = s.iter().map(|(k, t)| format!("(\"{}\", vec![{}])", KINDS[*k].0, TYPES[*t].1)).collect();
        table += &format!("        (vec![{}], compile_k{i}::<C16n>),\n", desc.join(", "));
    }
    o += &format!("pub fn table() -> Vec<Entry> {{\n    vec![\n{table}    ]\n}}\n");
    // call_kernel!, for every choice of arguments to be set
    let mut arms = String::new();
    for n in 1..=4usize {
        for mask in 0..1 << n {
            let args: Vec<String> = (0..n).map(|j| format!("{}a{j}", if mask >> j & 1 == 1 { "mut " } else { "" })).collect();
            let lets: String = (0..n).map(|j| format!("            let {}a{j} = io[{j}].clone();\n", if mask >> j & 1 == 1 { "mut " } else { "" })).collect();
            let back: String = (0..n).filter(|j| mask >> j & 1 == 1).map(|j| format!("            io[{j}] = a{j};\n")).collect();
            arms += &format!("        ({n}, {mask}) => {{\n{lets}            let r = call_kernel!(ctx, k, par, {});\n{back}            r\n        }}\n", args.join(", "));
        }
    }
    o += &format!("/// Calls with call_kernel!, the arguments in the mask as `mut`.\npub fn call<H: HintCaller<F16>>(ctx: &mut Context<C16n, H>, k: KernelPrimitive<C16n>, par: usize, io: &mut [DeviceMemoryHandle], mask: usize) -> Result<(), Error> {{\n    match (io.len(), mask) {{\n{arms}        _ => unreachable!(),\n    }}\n}}\n");
    o
}
