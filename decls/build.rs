//! Writes the circuits of C13.
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    println!("cargo:rerun-if-changed=build.rs");
    std::fs::write(format!("{out}/decl.rs"), decl()).unwrap();
}

/// C13: circuits with every small nesting of fields.
fn decl() -> String {
    let mut types: Vec<String> = vec!["@".into()];
    let (mut from, mut all) = (0, 1);
    for depth in 1..=3 {
        for i in from..all {
            let t = types[i].clone();
            let lens: &[usize] = if depth == 3 { &[2] } else { &[0, 1, 2, 3] };
            for n in lens {
                // fixed arrays of vectors cannot be declared longer than 1
                let of_vec = t.starts_with('[') && !t.contains(';') || t.contains("[@]") || t.contains("]]");
                if !of_vec || *n < 2 {
                    types.push(format!("[{t}; {n}]"));
                }
            }
            types.push(format!("[{t}]"));
        }
        from = all;
        all = types.len();
    }
    let var = |t: &str, public: bool| t.replace('@', if public { "PublicVariable" } else { "Variable" });
    let mut structs: Vec<Vec<String>> = vec![];
    for t in &types {
        for p in [false, true] {
            structs.push(vec![var(t, p)]);
            // something to compute with, around it
            structs.push(vec!["Variable".into(), var(t, p), "PublicVariable".into()]);
        }
    }
    let few = ["Variable", "PublicVariable", "[Variable; 2]", "[PublicVariable]", "[Variable]", "[[PublicVariable; 2]]", "[[Variable]]", "usize"];
    for a in few {
        for b in few {
            structs.push(vec![a.into(), b.into()]);
            for c in &few[..5] {
                structs.push(vec![a.into(), b.into(), c.to_string()]);
            }
        }
    }
    structs.sort();
    structs.dedup();
    structs.retain(|s| s.iter().any(|t| t != "usize"));
    let mut o = String::new();
    let mut run = String::new();
    for (i, fs) in structs.iter().enumerate() {
        let fields: Vec<String> = fs.iter().enumerate().map(|(j, t)| format!("f{j}: {t}")).collect();
        o += &format!("declare_circuit!(S{i} {{ {} }});\n", fields.join(", "));
        let fill: Vec<String> = (0..fs.len()).map(|j| format!("f{j}: Leaf::fill(n)")).collect();
        let flat: Vec<String> = fs.iter().enumerate().map(|(j, t)| if t == "usize" { String::new() } else { format!("self.f{j}.flat({});", if t.contains("Public") { "p" } else { "s" }) }).collect();
        let seq: Vec<String> = fs.iter().enumerate().map(|(j, t)| if t == "usize" { String::new() } else { format!("self.f{j}.flat(v);") }).collect();
        o += &format!(
            "impl<T: Elem + Leaf<T>> Cir<T> for S{i}<T> where usize: Leaf<T> {{ fn make(n: &mut Choice) -> Self {{ S{i} {{ {} }} }} fn split(&self, s: &mut Vec<T>, p: &mut Vec<T>) {{ {} }} fn all(&self, v: &mut Vec<T>) {{ {} }} }}\n",
            fill.join(", "),
            flat.join(" "),
            seq.join(" ")
        );
        run += &format!("{i} => ({:?}, |c| (Dyn(Box::new(S{i}::<Variable>::make(c))), Dyn(Box::new(S{i}::<Variable>::default()))), |c| (Dyn(Box::new(S{i}::<M>::make(c))), Dyn(Box::new(S{i}::<M>::default())))),\n", fields.join(", "));
    }
    format!(
        "{o}\npub const N: usize = {};\ntype Mk<T> = fn(&mut Choice) -> (Dyn<T>, Dyn<T>);\npub fn get(i: usize) -> (&'static str, Mk<Variable>, Mk<M>) {{ match i {{ {run} _ => unreachable!() }} }}\n",
        structs.len()
    )
}
