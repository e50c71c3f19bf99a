//! two copies of the binding sources as they are now: one where `f64` names the symbolic number, one unchanged
use std::{env, fs, path::Path};
fn main() {
    let src = "/repo/python/src";
    println!("cargo:rerun-if-changed={}", src);
    let out = env::var("OUT_DIR").unwrap();
    let mut gen = String::new();
    for (m, alias) in [("native_sym", "#[allow(unused_imports)] use symex::{f64like::ToSym as _, sym::Sym as f64};"), ("native_f64", "")] {
        let d = Path::new(&out).join(m);
        let _ = fs::remove_dir_all(&d);
        copy(Path::new(src), &d, alias);
        gen += &format!("#[allow(warnings)]\n#[path = {:?}]\npub mod {};\n", d.join("lib.rs"), m);
    }
    fs::write(Path::new(&out).join("native.rs"), gen).unwrap();
}
fn copy(from: &Path, to: &Path, alias: &str) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap().path();
        println!("cargo:rerun-if-changed={}", e.display());
        let t = to.join(e.file_name().unwrap());
        if e.is_dir() {
            copy(&e, &t, alias);
        } else if e.extension().map_or(false, |x| x == "rs") {
            let s = fs::read_to_string(&e).unwrap();
            // inner attributes and docs must stay first: they are dropped
            let body: Vec<&str> = s.lines().filter(|l| !l.trim_start().starts_with("#![") && !l.trim_start().starts_with("//!")).collect();
            let body = body.join("\n");
            let body = if alias.is_empty() { body } else { symbolic(&body) };
            fs::write(t, format!("{}\n{}\n", alias, body)).unwrap();
        }
    }
}

/// float literals become symbolic constants, `x as f64` a conversion, float consts their value where they are used
fn symbolic(src: &str) -> String {
    let c: Vec<char> = src.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    let word = |x: char| x.is_alphanumeric() || x == '_';
    while i < c.len() {
        let at = |k: usize| c.get(k).copied().unwrap_or('\0');
        if at(i) == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                o.push(c[i]);
                i += 1;
            }
        } else if at(i) == '/' && at(i + 1) == '*' {
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                o.push(c[i]);
                i += 1;
            }
        } else if at(i) == '"' {
            o.push(c[i]);
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    o.push(c[i]);
                    i += 1;
                }
                o.push(at(i));
                i += 1;
            }
            o.push('"');
            i += 1;
        } else if at(i) == '#' && at(i + 1) == '[' {
            let mut depth = 0;
            loop {
                if at(i) == '[' {
                    depth += 1;
                }
                if at(i) == ']' {
                    depth -= 1;
                }
                o.push(at(i));
                i += 1;
                if depth == 0 && at(i - 1) == ']' || i >= c.len() {
                    break;
                }
            }
        } else if at(i).is_ascii_digit() {
            let s = i;
            while at(i).is_ascii_digit() || at(i) == '_' {
                i += 1;
            }
            let mut float = false;
            if at(i) == '.' && at(i + 1) != '.' && !at(i + 1).is_alphabetic() && !(s > 0 && at(s - 1) == '.') {
                float = true;
                i += 1;
                while at(i).is_ascii_digit() || at(i) == '_' {
                    i += 1;
                }
            }
            if (at(i) == 'e' || at(i) == 'E') && (at(i + 1).is_ascii_digit() || ((at(i + 1) == '-' || at(i + 1) == '+') && at(i + 2).is_ascii_digit())) {
                float = true;
                i += 2;
                while at(i).is_ascii_digit() || at(i) == '_' {
                    i += 1;
                }
            }
            let mut lit: String = c[s..i].iter().filter(|x| **x != '_').collect();
            if c[i..].starts_with(&['f', '6', '4']) && !word(at(i + 3)) {
                float = true;
                i += 3;
            }
            if float {
                if lit.ends_with('.') {
                    lit.push('0');
                }
                o += &format!("symex::sym::Sym::f({}_f64 as ::std::primitive::f64)", lit);
            } else {
                o.extend(c[s..i].iter());
            }
        } else if word(at(i)) {
            let s = i;
            while word(at(i)) {
                i += 1;
            }
            let w: String = c[s..i].iter().collect();
            if w == "as" {
                let mut k = i;
                while at(k).is_whitespace() {
                    k += 1;
                }
                if c[k..].starts_with(&['f', '6', '4']) && !word(at(k + 3)) && !at(k + 3).eq(&';') || c[k..].starts_with(&['f', '6', '4', ';']) && !o.trim_end().ends_with("Sym") {
                    o = o.trim_end().to_string() + ".to_sym()";
                    i = k + 3;
                    continue;
                }
            }
            o += &w;
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    consts(o)
}
/// `const NAME: f64 = value;` is not a constant any more
fn consts(mut s: String) -> String {
    loop {
        let Some((a, name, b, val)) = find(&s) else { return s };
        let mut t = s[..a].trim_end_matches("pub ").to_string() + &s[b..];
        let mut out = String::new();
        let mut word = String::new();
        t.push(' ');
        for ch in t.chars() {
            if ch.is_alphanumeric() || ch == '_' {
                word.push(ch);
            } else {
                if word == name {
                    out += &format!("({})", val);
                } else {
                    out += &word;
                }
                word.clear();
                out.push(ch);
            }
        }
        s = out;
    }
    fn find(s: &str) -> Option<(usize, String, usize, String)> {
        for (a, _) in s.match_indices("const ") {
            let r = &s[a + 6..];
            let (name, r2) = r.split_once(':')?;
            if !name.trim().chars().all(|x| x.is_alphanumeric() || x == '_') || !r2.trim_start().starts_with("f64") {
                continue;
            }
            let (_, v) = r2.split_once('=')?;
            let (v, _) = v.split_once(';')?;
            let b = v.as_ptr() as usize - s.as_ptr() as usize + v.len() + 1;
            return Some((a, name.trim().to_string(), b, v.trim().to_string()));
        }
        None
    }
}
