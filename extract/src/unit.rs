//! The contract unit format (see DESIGN.md, "Contract units").
use std::collections::BTreeMap;
use std::fs;
use std::path::Path;

#[derive(Default, Debug, Clone)]
pub struct FnContract {
    pub ret: Option<String>,
    pub spec: String,
    pub entry: String,
    pub tail: String,
    pub loops: BTreeMap<usize, String>,
    pub loop_entry: BTreeMap<usize, String>,
    pub loop_end: BTreeMap<usize, String>,
    pub closures: BTreeMap<usize, String>,
    /// closures of filter_map written as functions: name, captured arguments, signature and contract, entry
    pub lifts: BTreeMap<usize, (String, String, String, String)>,
    /// ghost code run on the value of an expression before its `?`
    pub tries: Vec<(String, String)>,
    pub before: Vec<(String, String, bool)>,
    pub after: Vec<(String, String, bool)>,
    pub substs: Vec<(String, String)>,
    pub opts: Vec<String>,
    pub props: Vec<String>,
    pub attrs: String,
}

#[derive(Debug)]
pub enum Part {
    Text(String),
    Take { alias: String, items: Vec<String>, all: bool },
}

#[derive(Default, Debug)]
pub struct Unit {
    pub name: String,
    pub sources: BTreeMap<String, String>,
    pub parts: Vec<Part>,
    pub fns: BTreeMap<String, FnContract>,
    pub derives: BTreeMap<String, String>,
    pub item_attrs: BTreeMap<String, String>,
    pub item_substs: BTreeMap<String, Vec<(String, String)>>,
    pub global_substs: Vec<(String, String)>,
    pub text_props: BTreeMap<String, Vec<String>>,
    pub allow_uncontracted: Vec<String>,
    /// combinators whose `f(args)(input)` is written `f_call(args, input)`
    pub curry: Vec<String>,
    /// enum constructors passed as functions: written as closures
    pub ctors: Vec<String>,
    /// functions whose inner functions are moved behind them
    pub hoists: Vec<String>,
}

fn two(s: &str) -> (String, String) {
    // `old` => `new`
    let parts: Vec<&str> = s.split('`').collect();
    if parts.len() < 5 {
        panic!("bad subst: {s}");
    }
    (parts[1].to_string(), parts[3].to_string())
}

pub fn parse(path: &str, dir: &Path) -> Unit {
    let mut u = Unit::default();
    load(path, dir, &mut u);
    u
}

enum Sink {
    Text,
    Spec,
    Entry,
    Tail,
    Loop(usize),
    LoopEntry(usize),
    LoopEnd(usize),
    Closure(usize),
    Lift(usize),
    LiftEntry(usize),
    Before,
    Try,
    After,
    Attrs,
    None,
}

fn load(path: &str, dir: &Path, u: &mut Unit) {
    let text = fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
    let mut sink = Sink::None;
    let mut cur: Option<String> = None;
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let (word, rest) = match d.find(char::is_whitespace) {
                Some(i) => (&d[..i], d[i..].trim()),
                None => (d, ""),
            };
            match word {
                "unit" => u.name = rest.to_string(),
                "include" => {
                    load(dir.join(rest).to_str().unwrap(), dir, u);
                    sink = Sink::None;
                }
                "source" => {
                    let mut it = rest.split_whitespace();
                    let a = it.next().unwrap();
                    let p = it.next().unwrap();
                    u.sources.insert(a.into(), p.into());
                }
                "text" => {
                    u.parts.push(Part::Text(String::new()));
                    sink = Sink::Text;
                    cur = None;
                }
                "take" | "takeall" => {
                    let mut it = rest.split_whitespace();
                    let a = it.next().unwrap().to_string();
                    u.parts.push(Part::Take {
                        alias: a,
                        items: it.map(|s| s.to_string()).collect(),
                        all: word == "takeall",
                    });
                    sink = Sink::None;
                }
                "derive" => {
                    let (n, d) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
                    u.derives.insert(n.into(), d.trim().into());
                }
                "itemattr" => {
                    let (n, d) = rest.split_once(char::is_whitespace).unwrap();
                    u.item_attrs.insert(n.into(), d.trim().into());
                }
                "gsubst" => u.global_substs.push(two(rest)),
                "itemsubst" => {
                    let (n, d) = rest.split_once(char::is_whitespace).unwrap();
                    u.item_substs.entry(n.into()).or_default().push(two(d));
                }
                "lemmaprops" => {
                    let mut it = rest.split_whitespace();
                    let n = it.next().unwrap().to_string();
                    u.text_props.insert(n, it.map(|s| s.to_string()).collect());
                }
                "hoist" => u.hoists.extend(rest.split_whitespace().map(|s| s.to_string())),
                "ctor" => u.ctors.extend(rest.split_whitespace().map(|s| s.to_string())),
                "curry" => u.curry.extend(rest.split_whitespace().map(|s| s.to_string())),
                "nocontract" => u.allow_uncontracted.extend(rest.split_whitespace().map(|s| s.to_string())),
                "fn" => {
                    let mut it = rest.split_whitespace();
                    let n = it.next().unwrap().to_string();
                    let f = u.fns.entry(n.clone()).or_default();
                    for p in it {
                        f.props.push(p.to_string());
                    }
                    cur = Some(n);
                    sink = Sink::None;
                }
                _ => {
                    let f = u.fns.get_mut(cur.as_ref().unwrap_or_else(|| panic!("{path}: directive outside //@fn: {line}"))).unwrap();
                    match word {
                        "ret" => f.ret = Some(rest.to_string()),
                        "spec" => sink = Sink::Spec,
                        "entry" => sink = Sink::Entry,
                        "tail" => sink = Sink::Tail,
                        "attrs" => sink = Sink::Attrs,
                        "opt" => f.opts.extend(rest.split_whitespace().map(|s| s.to_string())),
                        "subst" => f.substs.push(two(rest)),
                        "loop" => sink = Sink::Loop(rest.parse().unwrap()),
                        "loopentry" => sink = Sink::LoopEntry(rest.parse().unwrap()),
                        "loopend" => sink = Sink::LoopEnd(rest.parse().unwrap()),
                        "lift" => {
                            let mut it = rest.splitn(3, char::is_whitespace);
                            let n: usize = it.next().unwrap().parse().unwrap();
                            let name = it.next().unwrap().to_string();
                            f.lifts.insert(n, (name, it.next().unwrap_or("").trim().to_string(), String::new(), String::new()));
                            sink = Sink::Lift(n);
                        }
                        "liftentry" => sink = Sink::LiftEntry(rest.parse().unwrap()),
                        "closure" => sink = Sink::Closure(rest.parse().unwrap()),
                        "try" => {
                            f.tries.push((rest.trim_matches('`').to_string(), String::new()));
                            sink = Sink::Try;
                        }
                        "before" | "before?" => {
                            f.before.push((rest.trim_matches('`').to_string(), String::new(), word.ends_with('?')));
                            sink = Sink::Before;
                        }
                        "after" | "after?" => {
                            f.after.push((rest.trim_matches('`').to_string(), String::new(), word.ends_with('?')));
                            sink = Sink::After;
                        }
                        _ => panic!("{path}: unknown directive {line}"),
                    }
                }
            }
            continue;
        }
        let mut add = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match &sink {
            Sink::None => {}
            Sink::Text => {
                if let Some(Part::Text(s)) = u.parts.last_mut() {
                    add(s)
                }
            }
            other => {
                let f = u.fns.get_mut(cur.as_ref().unwrap()).unwrap();
                match other {
                    Sink::Spec => add(&mut f.spec),
                    Sink::Entry => add(&mut f.entry),
                    Sink::Tail => add(&mut f.tail),
                    Sink::Attrs => add(&mut f.attrs),
                    Sink::Loop(i) => add(f.loops.entry(*i).or_default()),
                    Sink::LoopEntry(i) => add(f.loop_entry.entry(*i).or_default()),
                    Sink::LoopEnd(i) => add(f.loop_end.entry(*i).or_default()),
                    Sink::Closure(i) => add(f.closures.entry(*i).or_default()),
                    Sink::Lift(i) => add(&mut f.lifts.get_mut(i).unwrap().2),
                    Sink::LiftEntry(i) => add(&mut f.lifts.get_mut(i).unwrap().3),
                    Sink::Try => add(&mut f.tries.last_mut().unwrap().1),
                    Sink::Before => add(&mut f.before.last_mut().unwrap().1),
                    Sink::After => add(&mut f.after.last_mut().unwrap().1),
                    _ => {}
                }
            }
        }
    }
}
