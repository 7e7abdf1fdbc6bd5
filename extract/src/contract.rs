//! Parser for the contract files (`/verif/contracts/*.vc`).
//!
//! ```text
//! @fn <key>
//!   props: C01 C02          default tags of the clauses below
//!   args: a b               canonical argument names (positional; renamed to the actual names)
//!   locals: x y             canonical names of let-bound locals in order of appearance
//!   types: x = &T; y = &T   type hints for the extractor's receiver resolution
//!   trusted: reason         body not verified, contract assumed
//!   bounded: reason         body out of the verifier's reach; bounded stand-in decides
//!   world: yes              force the ghost world parameter
//!   panics: expr            when a panic is part of the documented behaviour
//!   requires[..]: expr      ensures[..]: expr      decreases: expr
//!   start: {..}             end: {..}
//!   loop K KIND             inv / invx / ens / dec / before / bstart / bend
//!   closure K               params / ret / requires / ensures / start
//!   script                  starts another proof script (locals, types, attr, start, end, loops, closures) for
//!                           the same contract; the first script that fits the text is used
//! ```
use std::collections::BTreeMap;

#[derive(Debug, Clone, Default)]
pub struct Clause {
    pub props: Vec<String>,
    pub text: String,
}

#[derive(Debug, Clone, Default)]
pub struct LoopC {
    pub kind: String,
    pub inv: Vec<Clause>,
    pub invx: Vec<Clause>,
    pub ens: Vec<Clause>,
    pub dec: Option<String>,
    pub before: Option<String>,
    pub bstart: Option<String>,
    pub bend: Option<String>,
}

#[derive(Debug, Clone, Default)]
pub struct CloC {
    pub params: Option<String>,
    pub ret: Option<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub start: Option<String>,
}

#[derive(Debug, Clone, Default)]
pub struct Contract {
    pub key: String,
    pub file: String,
    pub props: Vec<String>,
    pub args: Vec<String>,
    pub locals: Vec<String>,
    pub types: Vec<(String, String)>,
    pub trusted: Option<String>,
    pub bounded: Option<String>,
    pub world: bool,
    pub locks: bool,
    pub panics: Option<String>,
    pub requires: Vec<Clause>,
    pub ensures: Vec<Clause>,
    pub decreases: Option<String>,
    pub start: Option<String>,
    pub end: Option<String>,
    pub loops: BTreeMap<usize, LoopC>,
    pub closures: BTreeMap<usize, CloC>,
    pub attrs: Vec<String>,
    /// further proof scripts (locals, ghost code, loops, closures) for other shapes of the same function
    pub alts: Vec<Contract>,
    pub script: bool,
}

fn split_directive(line: &str) -> Option<(String, Vec<String>, String)> {
    let t = line.trim_start();
    let end = t.find(|c: char| !(c.is_ascii_lowercase() || c == '_'))?;
    if end == 0 {
        return None;
    }
    let kw = &t[..end];
    const KW: &[&str] = &[
        "props", "args", "locals", "types", "trusted", "bounded", "world", "locks", "panics",
        "requires", "ensures", "decreases", "start", "end", "inv", "invx", "ens", "dec", "before",
        "bstart", "bend", "params", "ret", "attr",
    ];
    if !KW.contains(&kw) {
        return None;
    }
    let mut rest = &t[end..];
    let mut tags = vec![];
    if rest.starts_with('[') {
        let c = rest.find(']')?;
        tags = rest[1..c]
            .split(',')
            .map(|x| x.trim().to_string())
            .filter(|x| !x.is_empty())
            .collect();
        rest = &rest[c + 1..];
    }
    if !rest.starts_with(':') || rest.starts_with("::") {
        return None;
    }
    Some((kw.to_string(), tags, rest[1..].trim().to_string()))
}

pub fn parse(file: &str, text: &str) -> Vec<Contract> {
    let mut out: Vec<Contract> = vec![];
    #[derive(Clone)]
    enum Where {
        Fn,
        Loop(usize),
        Clo(usize),
    }
    let mut wh = Where::Fn;
    // collect logical directives
    let mut logical: Vec<(String, Vec<String>, String)> = vec![];
    for line in text.lines() {
        let t = line.trim();
        if t.is_empty() || t.starts_with('#') {
            continue;
        }
        if let Some(k) = t.strip_prefix("@fn ") {
            logical.push(("@fn".into(), vec![], k.trim().to_string()));
        } else if t.starts_with("loop ") && t.split_whitespace().count() <= 3 && t.split_whitespace().nth(1).map_or(false, |x| x.parse::<usize>().is_ok()) {
            logical.push(("@loop".into(), vec![], t[5..].to_string()));
        } else if t.starts_with("closure ") && t.split_whitespace().nth(1).map_or(false, |x| x.parse::<usize>().is_ok()) {
            logical.push(("@closure".into(), vec![], t[8..].to_string()));
        } else if t == "script" {
            logical.push(("@script".into(), vec![], String::new()));
        } else if let Some(d) = split_directive(line) {
            logical.push(d);
        } else {
            let l = logical.last_mut().unwrap_or_else(|| panic!("{file}: stray line {line}"));
            l.2.push('\n');
            l.2.push_str(t);
        }
    }
    for (kw, tags, val) in logical {
        match kw.as_str() {
            "@fn" => {
                out.push(Contract {
                    key: val,
                    file: file.to_string(),
                    ..Default::default()
                });
                wh = Where::Fn;
                continue;
            }
            "@script" => {
                let b = out.iter().rev().find(|c| !c.script).expect("script outside @fn").clone();
                out.push(Contract {
                    script: true,
                    locals: vec![],
                    types: vec![],
                    attrs: vec![],
                    start: None,
                    end: None,
                    loops: BTreeMap::new(),
                    closures: BTreeMap::new(),
                    ..b
                });
                wh = Where::Fn;
                continue;
            }
            "@loop" => {
                let mut it = val.split_whitespace();
                let k: usize = it.next().unwrap().parse().unwrap();
                let kind = it.next().unwrap_or("F").to_string();
                out.last_mut().unwrap().loops.insert(
                    k,
                    LoopC {
                        kind,
                        ..Default::default()
                    },
                );
                wh = Where::Loop(k);
                continue;
            }
            "@closure" => {
                let k: usize = val.trim().parse().unwrap();
                out.last_mut().unwrap().closures.insert(k, CloC::default());
                wh = Where::Clo(k);
                continue;
            }
            _ => {}
        }
        let c = out.last_mut().unwrap_or_else(|| panic!("{file}: directive before @fn"));
        let strip = |v: &str| v.trim().trim_end_matches(|c| c == ',' || c == ';').to_string();
        let clause = Clause {
            props: if tags.is_empty() { c.props.clone() } else { tags.clone() },
            text: strip(&val),
        };
        match (&wh, kw.as_str()) {
            (_, "props") => c.props = val.split_whitespace().map(|x| x.to_string()).collect(),
            (_, "args") => c.args = val.split_whitespace().map(|x| x.to_string()).collect(),
            (_, "locals") => c.locals = val.split_whitespace().map(|x| x.to_string()).collect(),
            (_, "types") => {
                c.types = val
                    .split(';')
                    .filter(|x| !x.trim().is_empty())
                    .map(|x| {
                        let (a, b) = x.split_once('=').expect("types: name = type");
                        (a.trim().to_string(), b.trim().to_string())
                    })
                    .collect()
            }
            (_, "trusted") => c.trusted = Some(val),
            (_, "bounded") => c.bounded = Some(val),
            (_, "world") => c.world = true,
            (_, "locks") => c.locks = true,
            (_, "panics") => c.panics = Some(strip(&val)),
            (_, "attr") => c.attrs.push(val),
            (Where::Fn, "requires") => c.requires.push(clause),
            (Where::Fn, "ensures") => c.ensures.push(clause),
            (Where::Fn, "decreases") => c.decreases = Some(strip(&val)),
            (Where::Fn, "start") => c.start = Some(val),
            (Where::Fn, "end") => c.end = Some(val),
            (Where::Loop(k), k2) => {
                let l = c.loops.get_mut(k).unwrap();
                match k2 {
                    "inv" => l.inv.push(clause),
                    "invx" => l.invx.push(clause),
                    "ens" | "ensures" => l.ens.push(clause),
                    "dec" => l.dec = Some(strip(&val)),
                    "before" => l.before = Some(val),
                    "bstart" => l.bstart = Some(val),
                    "bend" => l.bend = Some(val),
                    // directives that belong to the function again
                    "end" => c.end = Some(val),
                    x => panic!("{file}: {x} in loop of {}", c.key),
                }
            }
            (Where::Clo(k), k2) => {
                let l = c.closures.get_mut(k).unwrap();
                match k2 {
                    "params" => l.params = Some(val),
                    "ret" => l.ret = Some(val),
                    "requires" => l.requires.push(clause),
                    "ensures" => l.ensures.push(clause),
                    "start" => l.start = Some(val),
                    "end" => c.end = Some(val),
                    x => panic!("{file}: {x} in closure of {}", c.key),
                }
            }
            (_, x) => panic!("{file}: unexpected {x} in {}", c.key),
        }
    }
    let mut res: Vec<Contract> = vec![];
    for c in out {
        if c.script {
            res.last_mut().unwrap().alts.push(c)
        } else {
            res.push(c)
        }
    }
    res
}

impl Contract {
    /// the proof text (not the requires and ensures) mentions the identifier
    pub fn mentions(&self, id: &str) -> bool {
        let mut t: Vec<&str> = vec![];
        for x in [&self.start, &self.end, &self.panics] {
            t.extend(x.as_deref());
        }
        for l in self.loops.values() {
            for c in l.inv.iter().chain(&l.invx).chain(&l.ens) {
                t.push(&c.text);
            }
            for x in [&l.dec, &l.before, &l.bstart, &l.bend] {
                t.extend(x.as_deref());
            }
        }
        for l in self.closures.values() {
            for c in l.requires.iter().chain(&l.ensures) {
                t.push(&c.text);
            }
            t.extend(l.start.as_deref());
        }
        t.iter().any(|s| s.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == id))
    }
}
