//! stand-ins for pyo3's attributes: they leave the annotated code as it is, make it reachable and describe it
use proc_macro::{Delimiter, Group, Ident, Punct, Spacing, Span, TokenStream, TokenTree};

fn is(t: &TokenTree, s: &str) -> bool {
    matches!(t, TokenTree::Ident(i) if i.to_string() == s)
}
fn punct(t: &TokenTree, c: char) -> bool {
    matches!(t, TokenTree::Punct(p) if p.as_char() == c)
}
/// `name = "..."` among the arguments of #[pyclass]
fn given_name(attr: TokenStream) -> Option<String> {
    let v: Vec<TokenTree> = attr.into_iter().collect();
    for w in v.windows(3) {
        if is(&w[0], "name") && punct(&w[1], '=') {
            return Some(w[2].to_string().trim_matches('"').to_string());
        }
    }
    None
}
#[proc_macro_attribute]
pub fn pyclass(attr: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let i = v.iter().position(|t| is(t, "struct")).expect("a struct");
    let ty = v[i + 1].to_string();
    let name = given_name(attr).unwrap_or(ty.clone());
    let mut out = item;
    out.extend(format!("impl pyo3::PyClass for {} {{ const NAME: &'static str = {:?}; }}", ty, name).parse::<TokenStream>().unwrap());
    out
}
#[proc_macro_attribute]
pub fn pymodule(_attr: TokenStream, item: TokenStream) -> TokenStream {
    public(item)
}
#[proc_macro_attribute]
pub fn pyfunction(_attr: TokenStream, item: TokenStream) -> TokenStream {
    item
}
fn public(item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.into_iter().collect();
    let mut out = vec![];
    let mut has = false;
    let mut done = false;
    for t in v {
        if !done {
            if is(&t, "pub") {
                has = true;
            }
            if is(&t, "fn") || is(&t, "unsafe") || is(&t, "extern") {
                if !has {
                    out.push(TokenTree::Ident(Ident::new("pub", Span::call_site())));
                }
                done = true;
            }
        }
        out.push(t);
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pymethods(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.into_iter().collect();
    let n = v.len();
    let ty: String = v[1..n - 1].iter().map(|t| t.to_string()).collect::<Vec<_>>().join(" ");
    let body: Vec<TokenTree> = match &v[n - 1] {
        TokenTree::Group(g) => g.stream().into_iter().collect(),
        _ => panic!("an impl block"),
    };
    let mut clean: Vec<TokenTree> = vec![];
    let (mut new, mut calls) = (String::new(), String::new());
    let mut i = 0;
    while i < body.len() {
        // attributes
        let mut is_new = false;
        let mut shown: Option<String> = None;
        while i + 1 < body.len() && punct(&body[i], '#') {
            let inner: Vec<TokenTree> = match &body[i + 1] {
                TokenTree::Group(g) => g.stream().into_iter().collect(),
                _ => panic!("an attribute"),
            };
            let head = inner[0].to_string();
            match head.as_str() {
                "new" => is_new = true,
                "pyo3" | "getter" | "setter" | "args" | "staticmethod" | "classmethod" | "classattr" | "call" => {
                    if let Some(TokenTree::Group(g)) = inner.get(1) {
                        shown = given_name(g.stream()).or(shown);
                    }
                }
                _ => {
                    clean.push(body[i].clone());
                    clean.push(body[i + 1].clone());
                }
            }
            i += 2;
        }
        if i >= body.len() {
            break;
        }
        // one item: up to its block or semicolon
        let start = i;
        while !matches!(&body[i], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace) && !punct(&body[i], ';') {
            i += 1;
        }
        i += 1;
        let it = &body[start..i];
        let Some(f) = it.iter().position(|t| is(t, "fn")) else {
            clean.extend(it.iter().cloned());
            continue;
        };
        clean.extend(public(it.iter().cloned().collect()));
        let name = it[f + 1].to_string();
        let p = it[f..].iter().position(|t| matches!(t, TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis)).unwrap() + f;
        let params: Vec<TokenTree> = match &it[p] {
            TokenTree::Group(g) => g.stream().into_iter().collect(),
            _ => vec![],
        };
        let wraps = {
            let r: Vec<String> = it[p + 1..].iter().map(|t| t.to_string()).collect();
            r.len() > 2 && r[0] == "-" && r[1] == ">" && r.iter().take(12).any(|t| t == "PyResult" || t == "Result")
        };
        let mut names: Vec<String> = vec![];
        let mut selfy = false;
        let mut depth = 0i32;
        let mut cur: Vec<TokenTree> = vec![];
        let mut all: Vec<Vec<TokenTree>> = vec![];
        for t in params {
            if punct(&t, '<') {
                depth += 1;
            }
            if punct(&t, '>') {
                depth -= 1;
            }
            if punct(&t, ',') && depth == 0 {
                all.push(std::mem::take(&mut cur));
            } else {
                cur.push(t);
            }
        }
        if !cur.is_empty() {
            all.push(cur);
        }
        for q in all {
            let colon = q.iter().position(|t| punct(t, ':'));
            let pre = &q[..colon.unwrap_or(q.len())];
            if pre.iter().any(|t| is(t, "self")) {
                selfy = true;
            } else {
                names.push(pre.iter().filter(|t| matches!(t, TokenTree::Ident(_)) && !is(t, "mut")).last().expect("a parameter name").to_string());
            }
        }
        let args: Vec<String> = names.iter().map(|n| format!("pyo3::FromArg::take(&mut args, {:?})", n)).collect();
        let lets: String = args.iter().enumerate().map(|(k, a)| format!("let a{} = {};", k, a)).collect();
        let _ = lets;
        let call = |recv: &str| {
            let mut l: Vec<String> = args.clone();
            if !recv.is_empty() {
                l.insert(0, recv.to_string());
            }
            let c = format!("#[allow(unused_unsafe)] let r = unsafe {{ Self::{}({}) }}; args.finish()?;", name, l.join(", "));
            if wraps {
                format!("{} let r = r.map_err(pyo3::PyErr::from)?;", c)
            } else {
                c
            }
        };
        if is_new {
            new = format!("{} Ok(r)", call(""));
        } else if selfy {
            calls += &format!("{:?} => {{ {} Ok(pyo3::IntoOut::out(r)) }}\n", shown.unwrap_or(name.clone()), call("self"));
        }
    }
    let mut out: Vec<TokenTree> = v[..n - 1].to_vec();
    out.push(TokenTree::Group(Group::new(Delimiter::Brace, clean.into_iter().collect())));
    let _ = Punct::new('#', Spacing::Alone);
    let mut out: TokenStream = out.into_iter().collect();
    let gen = format!(
        "impl pyo3::PyMethods for {ty} {{
            #[allow(unused_mut)]
            fn py_new(mut args: pyo3::Args) -> pyo3::PyResult<Self> {{ {new} }}
            #[allow(unused_mut)]
            fn py_call(&mut self, name: &str, mut args: pyo3::Args) -> pyo3::PyResult<pyo3::Out> {{
                match name {{ {calls} _ => Err(pyo3::PyErr(format!(\"no method {{}}\", name))) }}
            }}
        }}"
    );
    out.extend(gen.parse::<TokenStream>().unwrap());
    out
}
