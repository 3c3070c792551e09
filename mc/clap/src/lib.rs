//! The part of clap 3's interface that the command-line macros of fawkes-crypto use
//! (clap itself is not available offline): derived parsing of string options and subcommands.
pub use clap_derive::Clap;

pub trait Clap: Sized {
    fn from_args(a: &[String]) -> Self;
    /// argv[1] selects the module in the driver; the module's own arguments follow
    fn parse() -> Self {
        Self::from_args(&std::env::args().skip(2).collect::<Vec<_>>())
    }
}
pub use self::Clap as Parser;

pub fn usage(m: &str) -> ! {
    eprintln!("error: {}", m);
    std::process::exit(64)
}
/// options given as `--long value`, `--long=value`, `-s value`, `-svalue`
pub fn options(a: &[String], known: &[(&str, &str)]) -> Vec<Option<String>> {
    let mut out = vec![None; known.len()];
    let mut i = 0;
    while i < a.len() {
        let (name, long, mut val) = if a[i].starts_with("--") {
            let mut it = a[i][2..].splitn(2, '=');
            (it.next().unwrap().to_string(), true, it.next().map(|s| s.to_string()))
        } else if a[i].starts_with('-') && a[i].len() > 1 {
            (a[i][1..2].to_string(), false, if a[i].len() > 2 { Some(a[i][2..].trim_start_matches('=').to_string()) } else { None })
        } else {
            usage(&format!("unexpected argument {}", a[i]))
        };
        let k = known.iter().position(|(s, l)| if long { *l == name && !l.is_empty() } else { *s == name && !s.is_empty() });
        let k = k.unwrap_or_else(|| usage(&format!("unknown option {}", a[i])));
        if val.is_none() {
            i += 1;
            val = Some(a.get(i).cloned().unwrap_or_else(|| usage("missing value")));
        }
        if out[k].is_some() {
            usage("option given twice");
        }
        out[k] = val;
        i += 1;
    }
    out
}
