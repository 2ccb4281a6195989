//! reassoc MODES SEED FILE...: rewrites sources in place without changing what they mean beyond the last digit:
//! (a+b)+c -> a+(b+c) [a], (a*b)*c -> a*(b*c) [m], (a*b)/c -> a*(b/c) [d], x.powi(n) -> x.powf(n) [p], a+b -> b+a, a*b -> b*a [s],
//! if c {x} else {y} -> if !c {y} else {x} [i]
use quote::ToTokens;
use syn::{visit_mut::*, *};
struct V { modes: String, rng: u64, n: usize }
impl V {
    fn on(&mut self, c: char) -> bool {
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        self.modes.contains(c) && self.rng % 4 != 0
    }
}
fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), Expr::Group(g) => strip(&g.expr), _ => e } }
fn floaty(e: &Expr) -> bool {
    let s = e.to_token_stream().to_string();
    if s.contains('&') || s.contains('"') || s.contains("usize") || s.contains("u32") || s.contains("u64") || s.contains("Duration") || s.contains("len ()") { return false; }
    true
}
fn decimal(e: &Expr) -> bool { let s = e.to_token_stream().to_string(); s.contains('.') && floaty(e) }
fn paren(e: Expr) -> Expr { if let Expr::Path(_) | Expr::Lit(_) | Expr::Paren(_) | Expr::MethodCall(_) | Expr::Field(_) = e { e } else { parse_quote!((#e)) } }
impl VisitMut for V {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_expr_mut(self, e);
        if let Expr::Binary(b) = e {
            let (l, op, r) = (strip(&b.left).clone(), b.op, (*b.right).clone());
            if !floaty(&b.left) || !floaty(&b.right) { return; }
            if let Expr::Binary(i) = &l {
                let (x, y) = ((*i.left).clone(), (*i.right).clone());
                match (i.op, op) {
                    (BinOp::Add(_), BinOp::Add(_)) if self.on('a') => { let (x, y, r) = (paren(x), paren(y), paren(r)); *e = parse_quote!(#x + (#y + #r)); self.n += 1; return; }
                    (BinOp::Mul(_), BinOp::Mul(_)) if self.on('m') => { let (x, y, r) = (paren(x), paren(y), paren(r)); *e = parse_quote!(#x * (#y * #r)); self.n += 1; return; }
                    (BinOp::Mul(_), BinOp::Div(_)) if decimal(&b.left) && decimal(&b.right) && self.on('d') => { let (x, y, r) = (paren(x), paren(y), paren(r)); *e = parse_quote!(#x * (#y / #r)); self.n += 1; return; }
                    _ => {}
                }
            }
            match op {
                BinOp::Add(_) if self.on('s') => { let (l, r) = (paren(l), paren(r)); *e = parse_quote!(#r + #l); self.n += 1; }
                BinOp::Mul(_) if self.on('s') => { let (l, r) = (paren(l), paren(r)); *e = parse_quote!(#r * #l); self.n += 1; }
                _ => {}
            }
            return;
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "powi" && m.args.len() == 1 {
                if let Expr::Lit(ExprLit { lit: Lit::Int(k), .. }) = &m.args[0] {
                    let k = k.base10_digits().to_string(); if self.on('p') { let f: Expr = parse_str(&format!("{}.0", k)).unwrap(); m.method = parse_quote!(powf); m.args[0] = f; self.n += 1; }
                }
            }
        }
        if let Expr::If(i) = e {
            if let (false, Some((_, el))) = (matches!(*i.cond, Expr::Let(_)) || i.cond.to_token_stream().to_string().contains("let "), i.else_branch.clone()) {
                if let Expr::Block(b) = *el { if self.on('i') {
                    let (c, t, f) = (i.cond.clone(), i.then_branch.clone(), b.block); *e = parse_quote!(if !(#c) #f else #t); self.n += 1;
                } }
            }
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut v = V { modes: a[1].clone(), rng: 0x9E3779B97F4A7C15 ^ a[2].parse::<u64>().unwrap().wrapping_mul(0xD1342543DE82EF95), n: 0 };
    for f in &a[3..] {
        let s = std::fs::read_to_string(f).unwrap(); let mut t = parse_file(&s).unwrap(); v.n = 0;
        v.visit_file_mut(&mut t);
        std::fs::write(f, t.to_token_stream().to_string()).unwrap(); eprintln!("{} {}", v.n, f);
    }
}
