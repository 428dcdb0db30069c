//! Token printer: one statement per line, Verus punctuation kept joint.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), ind: 0, bol: true };
    p.ts(ts);
    p.out
}
struct P { out: String, ind: usize, bol: bool }
impl P {
    fn nl(&mut self) { if !self.bol { while self.out.ends_with(' ') { self.out.pop(); } self.out.push('\n'); self.bol = true; } }
    fn w(&mut self, s: &str) {
        if self.bol { for _ in 0..self.ind { self.out.push_str("  "); } self.bol = false; }
        self.out.push_str(s);
    }
    fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let n = v.len();
        for (i, t) in v.into_iter().enumerate() {
            match t {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::None => ("", ""),
                    };
                    if g.delimiter() == Delimiter::Brace {
                        if g.stream().is_empty() { self.w("{ } "); continue; }
                        self.w("{"); self.ind += 1; self.nl();
                        self.ts(g.stream());
                        self.ind -= 1; self.nl(); self.w("}");
                        if i + 1 < n { self.w(" ") }
                    } else {
                        while self.out.ends_with(' ') && o == "(" && false { self.out.pop(); }
                        self.w(o); self.ts(g.stream());
                        while self.out.ends_with(' ') { self.out.pop(); }
                        self.w(c); self.w(" ");
                    }
                }
                TokenTree::Ident(x) => { self.w(&x.to_string()); self.w(" "); }
                TokenTree::Literal(x) => { self.w(&x.to_string()); self.w(" "); }
                TokenTree::Punct(x) => {
                    self.w(&x.as_char().to_string());
                    if x.as_char() == ';' { self.nl(); }
                    else if x.spacing() == Spacing::Alone { self.w(" "); }
                }
            }
        }
    }
}
