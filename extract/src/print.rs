//! Token printer: one statement per line, so that verifier diagnostics are readable.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut o = String::new();
    let mut st = St { ind: 0, joint: true };
    go(ts, &mut o, &mut st);
    o
}

struct St {
    ind: usize,
    joint: bool,
}

fn nl(o: &mut String, st: &mut St) {
    while o.ends_with(' ') {
        o.pop();
    }
    if !o.ends_with('\n') {
        o.push('\n');
    }
    for _ in 0..st.ind {
        o.push_str("  ");
    }
    st.joint = true;
}

fn go(ts: TokenStream, o: &mut String, st: &mut St) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b, brace) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")", false),
                    Delimiter::Bracket => ("[", "]", false),
                    Delimiter::Brace => ("{", "}", true),
                    Delimiter::None => ("", "", false),
                };
                if !st.joint && brace {
                    o.push(' ');
                }
                o.push_str(a);
                if brace {
                    st.ind += 1;
                    nl(o, st);
                }
                st.joint = true;
                go(g.stream(), o, st);
                if brace {
                    st.ind -= 1;
                    nl(o, st);
                }
                o.push_str(b);
                if brace {
                    nl(o, st);
                } else {
                    st.joint = false;
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if !st.joint && c != ';' && c != ',' && c != '.' {
                    o.push(' ');
                }
                o.push(c);
                if c == ';' {
                    nl(o, st);
                } else {
                    st.joint = p.spacing() == Spacing::Joint || c == '.' || c == '\'';
                }
            }
            other => {
                if !st.joint {
                    o.push(' ');
                }
                o.push_str(&other.to_string());
                st.joint = false;
            }
        }
    }
}
