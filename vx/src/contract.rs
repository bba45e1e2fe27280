//! Parser for the contract files (`/verif/contracts/*.vc`).
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub props: Vec<String>,
    pub ret: Option<String>,
    pub requires: String,
    pub ensures: Vec<(Vec<String>, String)>,
    pub decreases: String,
    pub loops: BTreeMap<usize, String>,
    pub proofs: Vec<(String, String)>,
    pub replaces: Vec<(String, String)>,
    /// Header of the k-th closure; `$i` stands for its i-th parameter.
    pub closures: BTreeMap<usize, String>,
    pub attrs: String,
    pub trust: Option<String>,
    pub hide: Vec<String>,
    /// Verify the body as an inherent function, and assume that the trait method behaves like it.
    pub split: bool,
    pub line: usize,
}

#[derive(Default, Clone, Debug)]
pub struct FileContract {
    pub path: String,
    pub module: String,
    pub head: String,
    pub text: String,
    pub skips: Vec<(String, String)>,
    pub injects: Vec<(String, String)>,
    pub fns: BTreeMap<String, FnContract>,
    pub noeq: Vec<String>,
}

pub fn parse(src: &str, name: &str) -> Result<Vec<FileContract>, String> {
    let mut files: Vec<FileContract> = vec![];
    let mut cur_fn: Option<String> = None;
    // target for text lines
    enum T {
        None,
        Head,
        Text,
        Inject,
        Requires,
        Ensures,
        Decreases,
        Loop(usize),
        Closure(usize),
        Proof,
        Attr,
        ReplaceFrom,
        ReplaceTo,
    }
    let mut t = T::None;
    for (ln, line) in src.lines().enumerate() {
        let ln = ln + 1;
        if let Some(rest) = line.strip_prefix('@') {
            let (dir, arg) = match rest.find(char::is_whitespace) {
                Some(i) => (&rest[..i], rest[i..].trim()),
                None => (rest, ""),
            };
            if dir == "file" {
                let mut it = arg.split_whitespace();
                files.push(FileContract {
                    path: it.next().unwrap_or("").to_string(),
                    module: it.next().unwrap_or("").to_string(),
                    ..Default::default()
                });
                cur_fn = None;
                t = T::None;
                continue;
            }
            let f = files
                .last_mut()
                .ok_or(format!("{name}:{ln}: directive before @file"))?;
            macro_rules! cf {
                () => {
                    f.fns
                        .get_mut(cur_fn.as_ref().ok_or(format!("{name}:{ln}: not in @fn"))?)
                        .unwrap()
                };
            }
            match dir {
                "head" => t = T::Head,
                "text" => {
                    t = T::Text;
                    cur_fn = None;
                }
                "skip" => {
                    let (a, b) = arg.split_once(':').map(|(a, b)| (a, b)).unwrap_or((arg, ""));
                    // allow `::` inside the key: split at " : "
                    let (a, b) = arg.split_once(" : ").unwrap_or((a, b));
                    let (a, b) = if arg.contains(" : ") { (a, b) } else { (arg, "") };
                    f.skips.push((a.trim().to_string(), b.trim().to_string()));
                    t = T::None;
                }
                "noeq" => {
                    f.noeq.push(arg.to_string());
                    t = T::None;
                }
                "inject" => {
                    f.injects.push((arg.to_string(), String::new()));
                    t = T::Inject;
                    cur_fn = None;
                }
                "fn" => {
                    if f.fns.contains_key(arg) {
                        return Err(format!("{name}:{ln}: duplicate @fn {arg}"));
                    }
                    f.fns.insert(
                        arg.to_string(),
                        FnContract {
                            line: ln,
                            ..Default::default()
                        },
                    );
                    cur_fn = Some(arg.to_string());
                    t = T::None;
                }
                "props" => {
                    cf!().props = arg.split_whitespace().map(|s| s.to_string()).collect();
                    t = T::None;
                }
                "ret" => {
                    cf!().ret = Some(arg.to_string());
                    t = T::None;
                }
                "requires" => t = T::Requires,
                "ensures" => {
                    cf!().ensures.push((
                        arg.split_whitespace().map(|s| s.to_string()).collect(),
                        String::new(),
                    ));
                    t = T::Ensures;
                }
                "decreases" => t = T::Decreases,
                "loop" => {
                    t = T::Loop(arg.parse().map_err(|_| format!("{name}:{ln}: bad loop"))?)
                }
                "closure" => {
                    t = T::Closure(arg.parse().map_err(|_| format!("{name}:{ln}: bad closure"))?)
                }
                "proof" => {
                    cf!().proofs.push((arg.to_string(), String::new()));
                    t = T::Proof;
                }
                "attr" => t = T::Attr,
                "split" => {
                    cf!().split = true;
                    t = T::None;
                }
                "hide" => {
                    cf!().hide.extend(arg.split_whitespace().map(|x| x.to_string()));
                    t = T::None;
                }
                "trust" => {
                    cf!().trust = Some(arg.to_string());
                    t = T::None;
                }
                "replace" => {
                    cf!().replaces.push((String::new(), String::new()));
                    t = T::ReplaceFrom;
                }
                "with" => t = T::ReplaceTo,
                _ => return Err(format!("{name}:{ln}: unknown directive @{dir}")),
            }
            continue;
        }
        if line.starts_with("##") {
            continue;
        }
        let f = match files.last_mut() {
            Some(f) => f,
            None => continue,
        };
        let add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match t {
            T::None => {
                if !line.trim().is_empty() {
                    return Err(format!("{name}:{ln}: stray text: {line}"));
                }
            }
            T::Head => add(&mut f.head),
            T::Text => add(&mut f.text),
            T::Inject => add(&mut f.injects.last_mut().unwrap().1),
            _ => {
                let c = f.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                match t {
                    T::Requires => add(&mut c.requires),
                    T::Ensures => add(&mut c.ensures.last_mut().unwrap().1),
                    T::Decreases => add(&mut c.decreases),
                    T::Loop(k) => add(c.loops.entry(k).or_default()),
                    T::Closure(k) => add(c.closures.entry(k).or_default()),
                    T::Proof => add(&mut c.proofs.last_mut().unwrap().1),
                    T::Attr => add(&mut c.attrs),
                    T::ReplaceFrom => add(&mut c.replaces.last_mut().unwrap().0),
                    T::ReplaceTo => add(&mut c.replaces.last_mut().unwrap().1),
                    _ => unreachable!(),
                }
            }
        }
    }
    Ok(files)
}
