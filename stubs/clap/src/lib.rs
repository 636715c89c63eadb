//! A stand-in for clap 4 (which is not installed here): what its derive documents for options, flags, positional
//! arguments, defaults, required arguments, subcommands and flattened structures.
pub use clap_derive::{Args, Parser, Subcommand, ValueEnum};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ArgAction {
    Set,
    Append,
    SetTrue,
    SetFalse,
    Count,
}

/// `use clap::command` names a macro that only the builder interface would call.
#[macro_export]
macro_rules! command {
    ($($t:tt)*) => {
        compile_error!("the builder interface is not part of the stand-in")
    };
}
#[macro_export]
macro_rules! arg {
    ($($t:tt)*) => {
        compile_error!("the builder interface is not part of the stand-in")
    };
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub id: String,
    pub short: Vec<char>,
    pub long: Vec<String>,
    pub action: ArgAction,
    pub default: Vec<String>,
    pub missing: Option<String>,
    pub required: bool,
    pub hyphens: bool,
    pub conflicts: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Matches {
    pub values: Vec<(String, Vec<String>)>,
    pub flags: Vec<(String, usize)>,
    pub sub: Option<(String, Vec<String>)>,
}
impl Matches {
    pub fn get(&self, id: &str) -> Vec<String> {
        self.values.iter().find(|v| v.0 == id).map(|v| v.1.clone()).unwrap_or_default()
    }
    pub fn count(&self, id: &str) -> usize {
        self.flags.iter().find(|v| v.0 == id).map(|v| v.1).unwrap_or(0)
    }
}

pub fn convert<T: std::str::FromStr>(id: &str, v: &str) -> Result<T, String>
where
    T::Err: std::fmt::Display,
{
    v.parse().map_err(|e| format!("invalid value '{v}' for '{id}': {e}"))
}

/// The arguments of one command (up to its subcommand, when it has one).
pub fn matches(specs: &[Spec], has_sub: bool, argv: &[String]) -> Result<Matches, String> {
    use ArgAction::*;
    let mut m = Matches::default();
    let mut pos = specs.iter().filter(|s| s.short.is_empty() && s.long.is_empty()).peekable();
    let mut i = 0;
    let mut only_values = false;
    // what the command line gives
    let mut given: Vec<(usize, Option<String>)> = vec![];
    let at = |s: &Spec| specs.iter().position(|x| x.id == s.id).unwrap();
    // the value of an option: glued or next
    let value = |s: &Spec, glued: Option<String>, i: &mut usize| -> Result<String, String> {
        if let Some(g) = glued {
            return Ok(g);
        }
        match argv.get(*i + 1) {
            Some(v) if s.hyphens || !v.starts_with('-') || v == "-" => {
                *i += 1;
                Ok(v.clone())
            }
            _ => match &s.missing {
                Some(v) => Ok(v.clone()),
                None => Err(format!("a value is required for '{}' but none was supplied", s.id)),
            },
        }
    };
    while i < argv.len() {
        let a = argv[i].clone();
        if only_values || !a.starts_with('-') || a == "-" {
            if has_sub && !only_values {
                m.sub = Some((a, argv[i + 1..].to_vec()));
                break;
            }
            let s = pos.peek().copied().ok_or(format!("unexpected argument '{a}' found"))?;
            if s.action != Append {
                pos.next();
            }
            given.push((at(s), Some(a)));
        } else if a == "--" {
            only_values = true;
        } else if let Some(l) = a.strip_prefix("--") {
            let (name, glued) = match l.split_once('=') {
                Some((n, v)) => (n.to_string(), Some(v.to_string())),
                None => (l.to_string(), None),
            };
            let s = specs.iter().find(|s| s.long.contains(&name)).ok_or(format!("unexpected argument '{a}' found"))?;
            match s.action {
                Set | Append => given.push((at(s), Some(value(s, glued, &mut i)?))),
                _ if glued.is_some() => return Err(format!("unexpected value for '{a}'")),
                _ => given.push((at(s), None)),
            }
        } else {
            let cs: Vec<char> = a[1..].chars().collect();
            let mut k = 0;
            while k < cs.len() {
                let s = specs.iter().find(|s| s.short.contains(&cs[k])).ok_or(format!("unexpected argument '-{}' found", cs[k]))?;
                k += 1;
                if matches!(s.action, Set | Append) {
                    let rest: String = cs[k..].iter().collect();
                    let glued = if k < cs.len() { Some(rest.strip_prefix('=').unwrap_or(&rest).to_string()) } else { None };
                    given.push((at(s), Some(value(s, glued, &mut i)?)));
                    break;
                }
                given.push((at(s), None));
            }
        }
        i += 1;
    }
    for (k, s) in specs.iter().enumerate() {
        let mine: Vec<&Option<String>> = given.iter().filter(|g| g.0 == k).map(|g| &g.1).collect();
        if s.required && mine.is_empty() {
            return Err(format!("the required argument '{}' was not provided", s.id));
        }
        if mine.len() > 1 && !matches!(s.action, Append | Count) {
            return Err(format!("the argument '{}' cannot be used multiple times", s.id));
        }
        if !mine.is_empty() {
            for c in &s.conflicts {
                if specs.iter().enumerate().any(|(j, o)| o.id == *c && given.iter().any(|g| g.0 == j)) {
                    return Err(format!("the argument '{}' cannot be used with '{c}'", s.id));
                }
            }
        }
        match s.action {
            Set | Append => {
                let v: Vec<String> = if mine.is_empty() { s.default.clone() } else { mine.into_iter().flatten().cloned().collect() };
                m.values.push((s.id.clone(), v));
            }
            _ => m.flags.push((s.id.clone(), mine.len())),
        }
    }
    Ok(m)
}

/// A set of options that a structure declares.
pub trait Args: Sized {
    fn specs() -> Vec<Spec>;
    fn has_sub() -> bool;
    fn of(m: &Matches) -> Result<Self, String>;
}
/// A choice of commands.
pub trait Subcommand: Sized {
    fn of_sub(name: &str, argv: &[String]) -> Result<Self, String>;
}
pub fn parse_args<T: Args>(argv: &[String]) -> Result<T, String> {
    T::of(&matches(&T::specs(), T::has_sub(), argv)?)
}

pub trait Parser: Sized {
    fn from_argv(argv: &[String]) -> Result<Self, String>;
    fn parse() -> Self {
        let argv: Vec<String> = std::env::args().skip(1).collect();
        Self::from_argv(&argv).unwrap_or_else(|e| {
            eprintln!("error: {e}");
            std::process::exit(2)
        })
    }
    fn try_parse() -> Result<Self, String> {
        let argv: Vec<String> = std::env::args().skip(1).collect();
        Self::from_argv(&argv)
    }
    fn parse_from<I: IntoIterator<Item = S>, S: Into<String>>(it: I) -> Self {
        let argv: Vec<String> = it.into_iter().skip(1).map(|s| s.into()).collect();
        Self::from_argv(&argv).unwrap_or_else(|e| {
            eprintln!("error: {e}");
            std::process::exit(2)
        })
    }
}

pub trait ValueEnum: Sized + Clone {
    fn of_name(n: &str) -> Option<Self>;
}
