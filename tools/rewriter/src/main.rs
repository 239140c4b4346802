//! rewriter TRANSFORM FILE [DISABLED,...]: behaviour-preserving rewrites of
//! every site of one kind in a source file, each between marker comments.
use proc_macro2::Span;
use std::collections::HashSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};
use syn::*;

struct V {
    src: String,
    lines: Vec<usize>,
    t: String,
    off: HashSet<usize>,
    n: usize,
    edits: Vec<(usize, usize, String)>,
}

#[derive(Default)]
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true
    }
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true
    }
    fn visit_expr_break(&mut self, _: &'a ExprBreak) {
        self.0 = true
    }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().contains('?') {
            self.0 = true
        }
    }
}
fn leaves(e: &Expr) -> bool {
    let mut l = Leaves::default();
    l.visit_expr(e);
    l.0
}

impl V {
    fn pos(&self, lc: proc_macro2::LineColumn) -> usize {
        let s = self.lines[lc.line - 1];
        let l = &self.src[s..];
        s + l.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(l.len())
    }
    fn range(&self, s: Span) -> (usize, usize) {
        (self.pos(s.start()), self.pos(s.end()))
    }
    fn text(&self, s: Span) -> String {
        let (a, b) = self.range(s);
        self.slice(a, b)
    }
    fn slice(&self, a: usize, b: usize) -> String {
        let mut r = String::new();
        let mut at = a;
        let mut es: Vec<_> = self.edits.iter().filter(|e| e.0 >= a && e.1 <= b).collect();
        es.sort();
        for (x, y, z) in es {
            r.push_str(&self.src[at..*x]);
            r.push_str(z);
            at = *y;
        }
        r.push_str(&self.src[at..b]);
        r
    }
    fn edit(&mut self, s: Span, new: String) {
        let id = self.n;
        self.n += 1;
        if self.off.contains(&id) {
            return;
        }
        let (a, b) = self.range(s);
        self.edits.retain(|e| !(e.0 >= a && e.1 <= b));
        self.edits.push((a, b, format!("/*<{}>*/{}/*</{}>*/", id, new, id)));
    }
    fn tx<T: Spanned>(&self, x: &T) -> String {
        self.text(x.span())
    }
    fn catchall(p: &Pat) -> bool {
        match p {
            Pat::Wild(_) => true,
            Pat::Ident(i) => i.subpat.is_none() && i.ident.to_string().chars().next().unwrap().is_lowercase(),
            _ => false,
        }
    }
    fn closure1<'a>(m: &'a ExprMethodCall, k: usize) -> Option<&'a ExprClosure> {
        if m.args.len() != 1 {
            return None;
        }
        match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == k && matches!(c.output, ReturnType::Default) && !leaves(&c.body) => Some(c),
            _ => None,
        }
    }
    fn signature_args(sig: &Signature) -> Option<Vec<String>> {
        let mut r = vec![];
        for i in &sig.inputs {
            match i {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) if i.by_ref.is_none() => r.push(i.ident.to_string()),
                    _ => return None,
                },
                _ => return None,
            }
        }
        Some(r)
    }
    fn body(&mut self, b: &Block, sig: &Signature) {
        let t = self.t.clone();
        match t.as_str() {
            "tail_let" => {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
                    let n = format!("let r_ = {};\n r_", self.tx(e));
                    self.edit(e.span(), n)
                }
            }
            "ret_expr" => {
                if let Some(Stmt::Expr(e, None)) = b.stmts.last() {
                    let n = format!("return {};", self.tx(e));
                    self.edit(e.span(), n)
                }
            }
            "closure_body" => {
                let out = match &sig.output {
                    ReturnType::Default => String::new(),
                    x => self.tx(x),
                };
                let n = format!("{{ (move || {} {})() }}", out, self.tx(b));
                self.edit(b.span(), n)
            }
            "delegate" => {
                if sig.generics.params.is_empty() {
                    if let Some(a) = Self::signature_args(sig) {
                        let ins = self.tx(&sig.inputs);
                        let out = match &sig.output {
                            ReturnType::Default => String::new(),
                            x => self.tx(x),
                        };
                        let n = format!("{{ fn inner_({}) {} {}\n inner_({}) }}", ins, out, self.tx(b), a.join(", "));
                        self.edit(b.span(), n)
                    }
                }
            }
            _ => {}
        }
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("test") || a.path().is_ident("cfg") && a.meta.require_list().map(|l| l.tokens.to_string().contains("test")).unwrap_or(false)
    })
}

impl<'a> Visit<'a> for V {
    fn visit_item_mod(&mut self, m: &'a ItemMod) {
        if !is_test(&m.attrs) {
            visit::visit_item_mod(self, m)
        }
    }
    fn visit_item_const(&mut self, _: &'a ItemConst) {}
    fn visit_item_fn(&mut self, f: &'a ItemFn) {
        if is_test(&f.attrs) || f.sig.constness.is_some() {
            return;
        }
        visit::visit_item_fn(self, f);
        self.body(&f.block, &f.sig);
    }
    fn visit_impl_item_fn(&mut self, f: &'a ImplItemFn) {
        if f.sig.constness.is_some() {
            return;
        }
        visit::visit_impl_item_fn(self, f);
        self.body(&f.block, &f.sig);
    }
    fn visit_local(&mut self, l: &'a Local) {
        visit::visit_local(self, l);
        if self.t == "let_closure" {
            if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
                if i.by_ref.is_none() && init.diverge.is_none() {
                    let n = if leaves(&init.expr) {
                        if let Expr::Try(t) = &*init.expr {
                            if leaves(&t.expr) {
                                return;
                            }
                            format!("let f_ = || {};\n let {} = f_()?;", self.tx(&t.expr), self.tx(i))
                        } else {
                            return;
                        }
                    } else {
                        format!("let f_ = || {};\n let {} = f_();", self.tx(&init.expr), self.tx(i))
                    };
                    self.edit(l.span(), n)
                }
            }
        }
        if self.t == "let_rename" {
            let (p, ty) = match &l.pat {
                Pat::Type(t) => (&*t.pat, format!(": {}", self.tx(&t.ty))),
                p => (p, String::new()),
            };
            if let (Pat::Ident(i), Some(init)) = (p, &l.init) {
                if i.by_ref.is_none() && init.diverge.is_none() {
                    let n = format!("let {0}_{1} = {2};\n let {3} = {0}_;", i.ident, ty, self.tx(&init.expr), self.tx(i));
                    self.edit(l.span(), n)
                }
            }
        }
    }
    fn visit_block(&mut self, b: &'a Block) {
        visit::visit_block(self, b);
        if self.t == "nest_rest" {
            for i in 0..b.stmts.len() {
                if let Stmt::Expr(Expr::If(x), None) = &b.stmts[i] {
                    if x.else_branch.is_none() && i + 1 < b.stmts.len() && matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) {
                        if let Some(Stmt::Expr(Expr::Return(_), _)) = x.then_branch.stmts.last() {
                            let (a, m) = self.range(b.stmts[i].span());
                            let (_, z) = self.range(b.stmts.last().unwrap().span());
                            let n = format!("{} else {{ {} }}", self.slice(a, m), self.slice(m, z));
                            let id = self.n;
                            self.n += 1;
                            if !self.off.contains(&id) {
                                self.edits.retain(|e| !(e.0 >= a && e.1 <= z));
                                self.edits.push((a, z, format!("/*<{}>*/{}/*</{}>*/", id, n, id)));
                            }
                            return;
                        }
                    }
                }
            }
        }
        if self.t != "swap_lets" && self.t != "tuple_lets" {
            return;
        }
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            if let (Stmt::Local(x), Stmt::Local(y)) = (&b.stmts[i], &b.stmts[i + 1]) {
                if let (Pat::Ident(p), Pat::Ident(q), Some(u), Some(v)) = (&x.pat, &y.pat, &x.init, &y.init) {
                    let (s, t) = (self.tx(&u.expr), self.tx(&v.expr));
                    let w = p.ident.to_string();
                    let uses = t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|z| z == w);
                    let used = s.split(|c: char| !c.is_alphanumeric() && c != '_').any(|z| z == q.ident.to_string());
                    let bad = ["save", "update", "remove", "push", "insert", "&mut", "next(", "collect(", "assert", "return", "_mut"];
                    if !uses && !used && u.diverge.is_none() && v.diverge.is_none() && !bad.iter().any(|z| s.contains(z) || t.contains(z)) {
                        let (a, _) = self.range(b.stmts[i].span());
                        let (_, z) = self.range(b.stmts[i + 1].span());
                        let n = if self.t == "swap_lets" {
                            format!("{}\n{}", self.tx(&b.stmts[i + 1]), self.tx(&b.stmts[i]))
                        } else {
                            format!("let ({}, {}) = ({}, {});", self.tx(p), self.tx(q), s, t)
                        };
                        let id = self.n;
                        self.n += 1;
                        if !self.off.contains(&id) {
                            self.edits.retain(|e| !(e.0 >= a && e.1 <= z));
                            self.edits.push((a, z, format!("/*<{}>*/{}/*</{}>*/", id, n, id)));
                        }
                        i += 2;
                        continue;
                    }
                }
            }
            i += 1;
        }
    }
    fn visit_expr(&mut self, e: &'a Expr) {
        visit::visit_expr(self, e);
        let t = self.t.clone();
        match (t.as_str(), e) {
            ("flip_if", Expr::If(x)) => {
                if let Some((_, els)) = &x.else_branch {
                    if !matches!(&*x.cond, Expr::Let(_)) && !self.tx(&x.cond).contains("let ") {
                        let n = format!("if !({}) {{ {} }} else {}", self.tx(&x.cond), self.tx(els), self.tx(&x.then_branch));
                        self.edit(e.span(), n)
                    }
                }
            }
            ("bool_match", Expr::If(x)) => {
                if !matches!(&*x.cond, Expr::Let(_)) && !self.tx(&x.cond).contains("let ") {
                    let els = x.else_branch.as_ref().map(|y| self.tx(&y.1)).unwrap_or("{}".into());
                    let n = format!("match {} {{ true => {}, false => {} }}", self.tx(&x.cond), self.tx(&x.then_branch), els);
                    self.edit(e.span(), n)
                }
            }
            ("iflet_match", Expr::If(x)) => {
                if let Expr::Let(l) = &*x.cond {
                    let els = x.else_branch.as_ref().map(|y| self.tx(&y.1)).unwrap_or("{}".into());
                    let n = format!("match {} {{ {} => {}, _ => {} }}", self.tx(&l.expr), self.tx(&l.pat), self.tx(&x.then_branch), els);
                    self.edit(e.span(), n)
                }
            }
            ("match_iflet", Expr::Match(m)) => {
                if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) {
                    let p = self.tx(&m.arms[1].pat);
                    if p == "_" || p == "None" || p == "Err(_)" {
                        let n = format!("if let {} = {} {{ {} }} else {{ {} }}", self.tx(&m.arms[0].pat), self.tx(&m.expr), self.tx(&m.arms[0].body), self.tx(&m.arms[1].body));
                        self.edit(e.span(), n)
                    }
                }
            }
            ("reverse_arms", Expr::Match(m)) => {
                if m.arms.len() > 1 && m.arms.iter().all(|a| a.guard.is_none() && !Self::catchall(&a.pat) && !self.tx(&a.pat).contains('_')) {
                    let mut arms: Vec<String> = m.arms.iter().map(|a| format!("{} => {},", self.tx(&a.pat), self.tx(&a.body))).collect();
                    arms.reverse();
                    let n = format!("match {} {{ {} }}", self.tx(&m.expr), arms.join("\n"));
                    self.edit(e.span(), n)
                }
            }
            ("try_match", Expr::Try(x)) => {
                let n = format!("(match {} {{ Ok(v_) => v_, Err(e_) => return Err(e_.into()) }})", self.tx(&x.expr));
                self.edit(e.span(), n)
            }
            ("try_let_else", Expr::Try(x)) => {
                let n = format!("{{ let r_ = {}; if let Err(e_) = r_ {{ return Err(e_.into()); }} r_.unwrap() }}", self.tx(&x.expr));
                self.edit(e.span(), n)
            }
            ("for_while", Expr::ForLoop(f)) => {
                let lab = f.label.as_ref().map(|l| self.tx(l)).unwrap_or_default();
                let n = format!("{{ let mut it_ = IntoIterator::into_iter({}); {} while let Some({}) = it_.next() {} }}", self.tx(&f.expr), lab, self.tx(&f.pat), self.tx(&f.body));
                self.edit(e.span(), n)
            }
            ("for_each", Expr::ForLoop(f)) => {
                let mut l = Leaves::default();
                l.visit_block(&f.body);
                if !l.0 {
                    let n = format!("IntoIterator::into_iter({}).for_each(|{}| {});", self.tx(&f.expr), self.tx(&f.pat), self.tx(&f.body));
                    self.edit(e.span(), n)
                }
            }
            ("for_try_each", Expr::ForLoop(f)) => {
                let mut l = Leaves::default();
                l.visit_block(&f.body);
                let b = self.tx(&f.body);
                if l.0 && !b.contains("break") && !b.contains("continue") && !b.contains("return") {
                    let n = format!("IntoIterator::into_iter({}).try_for_each(|{}| {{ {}; Ok::<(), cosmwasm_std::StdError>(()) }})?;", self.tx(&f.expr), self.tx(&f.pat), b);
                    self.edit(e.span(), n)
                }
            }
            ("cmp_flip", Expr::Binary(b)) => {
                let (l, r) = (self.tx(&b.left), self.tx(&b.right));
                let n = match b.op {
                    BinOp::Eq(_) => format!("(({}) == ({}))", r, l),
                    BinOp::Ne(_) => format!("!(({}) == ({}))", l, r),
                    BinOp::Lt(_) => format!("(({}) > ({}))", r, l),
                    BinOp::Gt(_) => format!("(({}) < ({}))", r, l),
                    BinOp::Le(_) => format!("!(({}) > ({}))", l, r),
                    BinOp::Ge(_) => format!("!(({}) < ({}))", l, r),
                    BinOp::And(_) => format!("!(!({}) || !({}))", l, r),
                    BinOp::Or(_) => format!("!(!({}) && !({}))", l, r),
                    _ => return,
                };
                if n.contains("let ") {
                    return;
                }
                self.edit(e.span(), n)
            }
            ("cmp_call", Expr::Binary(b)) => {
                let (l, r) = (self.tx(&b.left), self.tx(&b.right));
                let m = match b.op {
                    BinOp::Eq(_) => "eq",
                    BinOp::Ne(_) => "ne",
                    BinOp::Lt(_) => "lt",
                    BinOp::Gt(_) => "gt",
                    BinOp::Le(_) => "le",
                    BinOp::Ge(_) => "ge",
                    _ => return,
                };
                self.edit(e.span(), format!("(({}).{}(&({})))", l, m, r))
            }
            ("compound", Expr::Binary(b)) => {
                let op = match b.op {
                    BinOp::AddAssign(_) => "+",
                    BinOp::SubAssign(_) => "-",
                    BinOp::MulAssign(_) => "*",
                    BinOp::DivAssign(_) => "/",
                    _ => return,
                };
                let n = format!("{0} = {0} {1} ({2})", self.tx(&b.left), op, self.tx(&b.right));
                self.edit(e.span(), n)
            }
            ("commute", Expr::Binary(b)) => {
                let op = match b.op {
                    BinOp::Add(_) => "+",
                    BinOp::Mul(_) => "*",
                    _ => return,
                };
                let n = format!("(({}) {} ({}))", self.tx(&b.right), op, self.tx(&b.left));
                self.edit(e.span(), n)
            }
            ("op_call", Expr::Binary(b)) => {
                let op = match b.op {
                    BinOp::Add(_) => "std::ops::Add::add",
                    BinOp::Mul(_) => "std::ops::Mul::mul",
                    BinOp::Sub(_) => "std::ops::Sub::sub",
                    BinOp::Div(_) => "std::ops::Div::div",
                    _ => return,
                };
                let n = format!("{}({}, {})", op, self.tx(&b.left), self.tx(&b.right));
                self.edit(e.span(), n)
            }
            ("closure_let", Expr::Closure(c)) => {
                if matches!(c.output, ReturnType::Default) {
                    let (a, _) = self.range(e.span());
                    let (b, z) = self.range(c.body.span());
                    let n = format!("{} {{ let r_ = {};\n r_ }}", self.slice(a, b), self.slice(b, z));
                    self.edit(e.span(), n)
                }
            }
            ("closure_name", Expr::MethodCall(m)) => {
                if m.args.len() == 1 && matches!(&m.args[0], Expr::Closure(_)) {
                    let (a, _) = self.range(e.span());
                    let (b, z) = self.range(m.args[0].span());
                    let n = format!("{{ let f_ = {}; {} f_) }}", self.slice(b, z), self.slice(a, b));
                    self.edit(e.span(), n)
                }
            }
            ("recv_let", Expr::MethodCall(m)) => {
                let n = format!("{{ let x_ = {};\n x_{} }}", self.tx(&m.receiver), {
                    let (_, a) = self.range(m.receiver.span());
                    let (_, z) = self.range(e.span());
                    self.slice(a, z)
                });
                self.edit(e.span(), n)
            }
            ("hoist_args", Expr::Call(c)) => {
                if !c.args.is_empty() && matches!(&*c.func, Expr::Path(_)) {
                    let mut s = String::from("{ ");
                    let mut names = vec![];
                    for (i, a) in c.args.iter().enumerate() {
                        s.push_str(&format!("let a{}_ = {};\n ", i, self.tx(a)));
                        names.push(format!("a{}_", i));
                    }
                    s.push_str(&format!("{}({}) }}", self.tx(&c.func), names.join(", ")));
                    self.edit(e.span(), s)
                }
            }
            ("reverse_fields", Expr::Struct(x)) => {
                if x.rest.is_none() && x.fields.len() > 1 && !x.fields.iter().any(|f| leaves(&f.expr)) {
                    let mut fs: Vec<String> = x.fields.iter().map(|f| self.tx(f)).collect();
                    fs.reverse();
                    let n = format!("{} {{ {} }}", self.tx(&x.path), fs.join(", "));
                    self.edit(e.span(), n)
                }
            }
            ("unwrap_or", Expr::MethodCall(m)) => {
                let d = match (m.method.to_string().as_str(), m.args.len()) {
                    ("unwrap_or", 1) => self.tx(&m.args[0]),
                    ("unwrap_or_default", 0) => "Default::default()".into(),
                    ("unwrap_or_else", 1) => match Self::closure1(m, 0) {
                        Some(c) => self.tx(&c.body),
                        None => format!("({})()", self.tx(&m.args[0])),
                    },
                    _ => return,
                };
                let n = format!("(match {} {{ Some(v_) => v_, None => {} }})", self.tx(&m.receiver), d);
                self.edit(e.span(), n)
            }
            ("ok_or", Expr::MethodCall(m)) => {
                let d = match (m.method.to_string().as_str(), m.args.len()) {
                    ("ok_or", 1) => self.tx(&m.args[0]),
                    ("ok_or_else", 1) => match Self::closure1(m, 0) {
                        Some(c) => self.tx(&c.body),
                        None => return,
                    },
                    _ => return,
                };
                let n = format!("(match {} {{ Some(v_) => Ok(v_), None => Err({}) }})", self.tx(&m.receiver), d);
                self.edit(e.span(), n)
            }
            ("opt_map", Expr::MethodCall(m)) | ("res_map", Expr::MethodCall(m)) => {
                let name = m.method.to_string();
                let Some(c) = Self::closure1(m, 1) else { return };
                let (p, b, x) = (self.tx(&c.inputs[0]), self.tx(&c.body), self.tx(&m.receiver));
                let n = match (t.as_str(), name.as_str()) {
                    ("opt_map", "map") => format!("(match {} {{ Some({}) => Some({}), None => None }})", x, p, b),
                    ("opt_map", "and_then") => format!("(match {} {{ Some({}) => {}, None => None }})", x, p, b),
                    ("res_map", "map") => format!("(match {} {{ Ok({}) => Ok({}), Err(e_) => Err(e_) }})", x, p, b),
                    ("res_map", "and_then") => format!("(match {} {{ Ok({}) => {}, Err(e_) => Err(e_) }})", x, p, b),
                    ("res_map", "map_err") => format!("(match {} {{ Ok(v_) => Ok(v_), Err({}) => Err({}) }})", x, p, b),
                    _ => return,
                };
                self.edit(e.span(), n)
            }
            ("iter_loop", Expr::MethodCall(m)) => {
                // R.map(|p| b).collect() with the elements pushed one by one
                if m.method != "collect" {
                    return;
                }
                let Expr::MethodCall(k) = &*m.receiver else { return };
                if k.method != "map" {
                    return;
                }
                let Some(c) = Self::closure1(k, 1) else { return };
                let n = format!("{{ let mut v_ = vec![];\n for {} in {} {{ v_.push({}); }}\n v_ }}", self.tx(&c.inputs[0]), self.tx(&k.receiver), self.tx(&c.body));
                self.edit(e.span(), n)
            }
            ("iter_try_loop", Expr::Try(x)) => {
                // R.map(|p| b).collect::<..>()? with an early return
                let Expr::MethodCall(m) = &*x.expr else { return };
                if m.method != "collect" {
                    return;
                }
                let Expr::MethodCall(k) = &*m.receiver else { return };
                if k.method != "map" || k.args.len() != 1 {
                    return;
                }
                let n = match &k.args[0] {
                    Expr::Closure(c) => {
                        let call = format!("(|{}| {})", self.tx(&c.inputs[0]), self.tx(&c.body));
                        format!("{{ let mut v_ = vec![];\n let f_ = {};\n for x_ in {} {{ v_.push(f_(x_)?); }}\n v_ }}", call, self.tx(&k.receiver))
                    }
                    f => format!("{{ let mut v_ = vec![];\n for x_ in {} {{ v_.push({}(x_)?); }}\n v_ }}", self.tx(&k.receiver), self.tx(f)),
                };
                self.edit(e.span(), n)
            }
            ("any_loop", Expr::MethodCall(m)) => {
                let Some(c) = Self::closure1(m, 1) else { return };
                let (p, b, x) = (self.tx(&c.inputs[0]), self.tx(&c.body), self.tx(&m.receiver));
                let n = match m.method.to_string().as_str() {
                    "any" => format!("{{ let mut r_ = false;\n for {} in {} {{ if {} {{ r_ = true; break; }} }}\n r_ }}", p, x, b),
                    "all" => format!("{{ let mut r_ = true;\n for {} in {} {{ if !({}) {{ r_ = false; break; }} }}\n r_ }}", p, x, b),
                    "find" => format!("{{ let mut r_ = None;\n for y_ in {} {{ let {} = &y_; if {} {{ r_ = Some(y_); break; }} }}\n r_ }}", x, p, b),
                    "position" => format!("{{ let mut r_ = None;\n for (i_, {}) in {}.enumerate() {{ if {} {{ r_ = Some(i_); break; }} }}\n r_ }}", p, x, b),
                    _ => return,
                };
                self.edit(e.span(), n)
            }
            ("fold_loop", Expr::MethodCall(m)) => {
                if m.method == "fold" && m.args.len() == 2 {
                    if let Expr::Closure(c) = &m.args[1] {
                        if c.inputs.len() == 2 && !leaves(&c.body) {
                            let n = format!("{{ let mut r_ = {};\n for y_ in {} {{ let ({}, {}) = (r_, y_); r_ = {}; }}\n r_ }}", self.tx(&m.args[0]), self.tx(&m.receiver), self.tx(&c.inputs[0]), self.tx(&c.inputs[1]), self.tx(&c.body));
                            self.edit(e.span(), n)
                        }
                    }
                }
            }
            ("filter_loop", Expr::MethodCall(m)) => {
                // R.filter(|p| b).collect() element by element
                if m.method != "collect" {
                    return;
                }
                let Expr::MethodCall(k) = &*m.receiver else { return };
                let Some(c) = Self::closure1(k, 1) else { return };
                let (p, b, x) = (self.tx(&c.inputs[0]), self.tx(&c.body), self.tx(&k.receiver));
                let n = match k.method.to_string().as_str() {
                    "filter" => format!("{{ let mut v_ = vec![];\n for y_ in {} {{ let {} = &y_; if {} {{ v_.push(y_); }} }}\n v_ }}", x, p, b),
                    "filter_map" => format!("{{ let mut v_ = vec![];\n for {} in {} {{ if let Some(z_) = {} {{ v_.push(z_); }} }}\n v_ }}", p, x, b),
                    _ => return,
                };
                self.edit(e.span(), n)
            }
            ("clone_path", Expr::MethodCall(m)) => {
                if m.method == "clone" && m.args.is_empty() {
                    let n = format!("({}).to_owned()", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("ctor_fn", Expr::Call(c)) => {
                if let Expr::Path(p) = &*c.func {
                    let s = self.tx(p);
                    if s == "Some" || s == "Ok" {
                        let n = format!("{{ let w_ = {};\n {}(w_) }}", self.tx(&c.args[0]), s);
                        self.edit(e.span(), n)
                    }
                }
            }
            ("checked", Expr::Try(x)) => {
                // a.checked_op(b)? with the test written out
                if let Expr::MethodCall(m) = &*x.expr {
                    if m.method == "checked_sub" && m.args.len() == 1 {
                        let n = format!("{{ let (a_, b_) = ({}, {}); if a_ < b_ {{ return Err(cosmwasm_std::OverflowError::new(cosmwasm_std::OverflowOperation::Sub, a_, b_).into()); }} a_ - b_ }}", self.tx(&m.receiver), self.tx(&m.args[0]));
                        self.edit(e.span(), n)
                    }
                }
            }

            ("ref_clone", Expr::Reference(r)) => {
                if r.mutability.is_none() {
                    let n = format!("&({}).clone()", self.tx(&r.expr));
                    self.edit(e.span(), n)
                }
            }
            ("into_from", Expr::MethodCall(m)) => {
                if m.method == "into" && m.args.is_empty() {
                    let n = format!("From::from({})", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("to_string_format", Expr::MethodCall(m)) => {
                if m.method == "to_string" && m.args.is_empty() {
                    let n = format!("format!(\"{{}}\", {})", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("vec_from", Expr::Macro(m)) => {
                if self.tx(&m.mac.path) == "vec" {
                    let x = self.tx(&m.mac);
                    let i = x.find('!').unwrap();
                    let n = format!("Vec::from({})", &x[i + 1..]);
                    self.edit(e.span(), n)
                }
            }
            ("vec_slice", Expr::Macro(m)) => {
                if self.tx(&m.mac.path) == "vec" {
                    let x = self.tx(&m.mac);
                    let i = x.find('!').unwrap();
                    let n = format!("({}).to_vec()", &x[i + 1..]);
                    self.edit(e.span(), n)
                }
            }
            ("push_extend", Expr::MethodCall(m)) => {
                if m.method == "push" && m.args.len() == 1 {
                    let n = format!("{}.extend([{}])", self.tx(&m.receiver), self.tx(&m.args[0]));
                    self.edit(e.span(), n)
                }
                if m.method == "extend" && m.args.len() == 1 {
                    let n = format!("{{ for z_ in {} {{ {}.push(z_); }} }}", self.tx(&m.args[0]), self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("iter_ref", Expr::MethodCall(m)) => {
                if m.method == "iter" {
                    let n = format!("(&({})).into_iter()", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
                if m.method == "iter_mut" {
                    let n = format!("(&mut ({})).into_iter()", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("into_iter_cloned", Expr::MethodCall(m)) => {
                if m.method == "into_iter" {
                    let n = format!("{}.iter().cloned()", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("for_index", Expr::ForLoop(f)) => {
                let n = format!("{{ let xs_: Vec<_> = IntoIterator::into_iter({}).collect(); for i_ in 0..xs_.len() {{ let {} = xs_[i_].clone(); {} }} }}", self.tx(&f.expr), self.tx(&f.pat), self.tx(&f.body));
                self.edit(e.span(), n)
            }
            ("while_index", Expr::ForLoop(f)) => {
                let n = format!("{{ let xs_: Vec<_> = IntoIterator::into_iter({}).collect(); let mut i_ = 0; while i_ < xs_.len() {{ let {} = xs_[i_].clone(); i_ += 1; {} }} }}", self.tx(&f.expr), self.tx(&f.pat), self.tx(&f.body));
                self.edit(e.span(), n)
            }
            ("option_tests", Expr::MethodCall(m)) => {
                let x = self.tx(&m.receiver);
                let n = match m.method.to_string().as_str() {
                    "is_some" => format!("matches!({}, Some(_))", x),
                    "is_none" => format!("matches!({}, None)", x),
                    "is_ok" => format!("matches!({}, Ok(_))", x),
                    "is_err" => format!("matches!({}, Err(_))", x),
                    "is_empty" => format!("({}.len() == 0)", x),
                    "unwrap" => format!("(match {} {{ Some(v_) => v_, None => panic!(\"none\") }})", x),
                    _ => return,
                };
                self.edit(e.span(), n)
            }
            ("unwrap_expect", Expr::MethodCall(m)) => {
                if m.method == "unwrap" {
                    let n = format!("{}.expect(\"there\")", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("contains_any", Expr::MethodCall(m)) => {
                if m.method == "contains" && m.args.len() == 1 {
                    let n = format!("{}.iter().any(|z_| z_ == {})", self.tx(&m.receiver), self.tx(&m.args[0]));
                    self.edit(e.span(), n)
                }
            }
            ("const_alt", Expr::Call(c)) => {
                let n = match self.tx(&c.func).as_str() {
                    "Uint128::zero" => "Uint128::new(0)",
                    "Uint128::one" => "Uint128::from(1u64)",
                    "Decimal::zero" => "Decimal::default()",
                    "Decimal::one" => "Decimal::percent(100)",
                    "Decimal256::one" => "Decimal256::from_ratio(1u64, 1u64)",
                    _ => return,
                };
                self.edit(e.span(), n.to_string())
            }
            ("checked_plain", Expr::Try(x)) => {
                if let Expr::MethodCall(m) = &*x.expr {
                    let op = match m.method.to_string().as_str() {
                        "checked_add" => "+",
                        "checked_sub" => "-",
                        "checked_mul" => "*",
                        _ => return,
                    };
                    let n = format!("(({}) {} ({}))", self.tx(&m.receiver), op, self.tx(&m.args[0]));
                    self.edit(e.span(), n)
                }
            }
            ("load_may", Expr::Try(x)) => {
                if let Expr::MethodCall(m) = &*x.expr {
                    if m.method == "load" {
                        let a: Vec<String> = m.args.iter().map(|a| self.tx(a)).collect();
                        let n = format!("{}.may_load({})?.ok_or_else(|| cosmwasm_std::StdError::not_found(\"record\"))?", self.tx(&m.receiver), a.join(", "));
                        self.edit(e.span(), n)
                    }
                }
            }
            ("load_match", Expr::Try(x)) => {
                if let Expr::MethodCall(m) = &*x.expr {
                    if m.method == "load" {
                        let a: Vec<String> = m.args.iter().map(|a| self.tx(a)).collect();
                        let n = format!("(match {}.may_load({})? {{ Some(v_) => v_, None => return Err(cosmwasm_std::StdError::not_found(\"record\").into()) }})", self.tx(&m.receiver), a.join(", "));
                        self.edit(e.span(), n)
                    }
                }
            }
            ("resp_forms", Expr::MethodCall(m)) => {
                let x = self.tx(&m.receiver);
                let a: Vec<String> = m.args.iter().map(|a| self.tx(a)).collect();
                let n = match m.method.to_string().as_str() {
                    "add_attribute" => format!("{}.add_attributes([({})])", x, a.join(", ")),
                    "add_message" => format!("{}.add_messages([{}])", x, a[0]),
                    "add_submessage" => format!("{}.add_submessages([{}])", x, a[0]),
                    "add_messages" => format!("IntoIterator::into_iter({}).fold({}, |r_, m_| r_.add_message(m_))", a[0], x),
                    "add_attributes" => format!("IntoIterator::into_iter({}).fold({}, |r_, a_| {{ let a_: cosmwasm_std::Attribute = a_.into(); r_.add_attribute(a_.key, a_.value) }})", a[0], x),
                    _ => return,
                };
                self.edit(e.span(), n)
            }
            ("if_result", Expr::If(x)) => {
                // if c { return Err(E); } with the error passed on by `?`
                if x.else_branch.is_none() && x.then_branch.stmts.len() == 1 && !matches!(&*x.cond, Expr::Let(_)) {
                    if let Stmt::Expr(Expr::Return(r), _) = &x.then_branch.stmts[0] {
                        if let Some(v) = &r.expr {
                            let n = format!("if {} {{ let e_ = {}; return e_; }}", self.tx(&x.cond), self.tx(v));
                            self.edit(e.span(), n)
                        }
                    }
                }
            }
            ("method_block", Expr::MethodCall(m)) => {
                // arguments worked out before the call, after the receiver
                if !m.args.is_empty() {
                    let mut s = String::from("{ ");
                    let mut names = vec![];
                    for (i, a) in m.args.iter().enumerate() {
                        s.push_str(&format!("let a{}_ = {};\n ", i, self.tx(a)));
                        names.push(format!("a{}_", i));
                    }
                    let (a, _) = self.range(e.span());
                    let (b, _) = self.range(m.args[0].span());
                    s.push_str(&format!("{}{}) }}", self.slice(a, b), names.join(", ")));
                    self.edit(e.span(), s)
                }
            }

            ("transpose", Expr::Try(x)) => {
                if let Expr::MethodCall(m) = &*x.expr {
                    if m.method == "transpose" {
                        let n = format!("(match {} {{ Some(v_) => Some(v_?), None => None }})", self.tx(&m.receiver));
                        self.edit(e.span(), n)
                    }
                }
            }
            ("coin_struct", Expr::Call(c)) => {
                if self.tx(&c.func) == "coin" && c.args.len() == 2 {
                    let n = format!("cosmwasm_std::Coin {{ amount: ({}).into(), denom: ({}).into() }}", self.tx(&c.args[0]), self.tx(&c.args[1]));
                    self.edit(e.span(), n)
                }
            }
            ("coin_fn", Expr::Struct(x)) => {
                if self.tx(&x.path).ends_with("Coin") && x.fields.len() == 2 && x.rest.is_none() {
                    let g = |k: &str| x.fields.iter().find(|f| self.tx(&f.member) == k).map(|f| self.tx(&f.expr));
                    if let (Some(a), Some(d)) = (g("amount"), g("denom")) {
                        let n = format!("cosmwasm_std::coin(({}).u128(), {})", a, d);
                        self.edit(e.span(), n)
                    }
                }
            }
            ("min_max", Expr::MethodCall(m)) => {
                if m.args.len() == 1 {
                    let (x, y) = (self.tx(&m.receiver), self.tx(&m.args[0]));
                    let n = match m.method.to_string().as_str() {
                        "min" => format!("{{ let (a_, b_) = ({}, {}); if a_ < b_ {{ a_ }} else {{ b_ }} }}", x, y),
                        "max" => format!("{{ let (a_, b_) = ({}, {}); if a_ > b_ {{ a_ }} else {{ b_ }} }}", x, y),
                        _ => return,
                    };
                    self.edit(e.span(), n)
                }
            }
            ("zero_tests", Expr::MethodCall(m)) => {
                if m.method == "is_zero" {
                    let n = format!("({} == Default::default())", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("zero_u128", Expr::MethodCall(m)) => {
                if m.method == "is_zero" {
                    let n = format!("({}.u128() == 0)", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("u128_from", Expr::MethodCall(m)) => {
                if m.method == "u128" {
                    let n = format!("u128::from({})", self.tx(&m.receiver));
                    self.edit(e.span(), n)
                }
            }
            ("nest_if", Expr::If(x)) => {
                if let (None, Expr::Binary(b)) = (&x.else_branch, &*x.cond) {
                    if matches!(b.op, BinOp::And(_)) {
                        let n = format!("if {} {{ if {} {} }}", self.tx(&b.left), self.tx(&b.right), self.tx(&x.then_branch));
                        self.edit(e.span(), n)
                    }
                }
            }
            ("split_or", Expr::If(x)) => {
                if let (None, Expr::Binary(b)) = (&x.else_branch, &*x.cond) {
                    if matches!(b.op, BinOp::Or(_)) {
                        let t = self.tx(&x.then_branch);
                        let n = format!("if {} {} else if {} {}", self.tx(&b.left), t, self.tx(&b.right), t);
                        self.edit(e.span(), n)
                    }
                }
            }
            ("response_default", Expr::Call(c)) => {
                if c.args.is_empty() && self.tx(&c.func).ends_with("::new") {
                    let f = self.tx(&c.func).replace("::new", "::default");
                    self.edit(e.span(), format!("{}()", f))
                }
            }
            ("submsg", Expr::MethodCall(m)) => {
                if m.method == "add_message" {
                    let n = format!("{}.add_submessage(cosmwasm_std::SubMsg::new({}))", self.tx(&m.receiver), self.tx(&m.args[0]));
                    self.edit(e.span(), n)
                }
            }
            ("filter_if", Expr::ForLoop(f)) => {
                // for p in x { if c { B } } with the test in a filter
                if f.body.stmts.len() == 1 {
                    if let Stmt::Expr(Expr::If(i), _) = &f.body.stmts[0] {
                        if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) {
                            let n = format!("for {0} in IntoIterator::into_iter({1}).filter(|z_| {{ let {0} = z_.clone(); {2} }}) {3}", self.tx(&f.pat), self.tx(&f.expr), self.tx(&i.cond), self.tx(&i.then_branch));
                            self.edit(e.span(), n)
                        }
                    }
                }
            }
            ("rev_rev", Expr::MethodCall(m)) => {
                if m.method == "collect" {
                    let (_, a) = self.range(m.receiver.span());
                    let (_, z) = self.range(e.span());
                    let n = format!("{}.collect::<Vec<_>>().into_iter(){}", self.tx(&m.receiver), self.slice(a, z));
                    self.edit(e.span(), n)
                }
            }
            ("mul_floor", Expr::Binary(b)) => {
                if matches!(b.op, BinOp::Mul(_)) {
                    let n = format!("({}).mul_floor({})", self.tx(&b.left), self.tx(&b.right));
                    self.edit(e.span(), n)
                }
            }
            ("mul_floor2", Expr::Binary(b)) => {
                if matches!(b.op, BinOp::Mul(_)) {
                    let n = format!("({}).mul_floor({})", self.tx(&b.right), self.tx(&b.left));
                    self.edit(e.span(), n)
                }
            }
            _ => {}
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[2]).unwrap();
    let f = syn::parse_file(&src).unwrap();
    let mut lines = vec![0];
    for (i, c) in src.char_indices() {
        if c == '\n' {
            lines.push(i + 1)
        }
    }
    let off = a.get(3).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let mut v = V { src, lines, t: a[1].clone(), off, n: 0, edits: vec![] };
    v.visit_file(&f);
    eprintln!("{}", v.n);
    let z = v.src.len();
    print!("{}", v.slice(0, z));
}
