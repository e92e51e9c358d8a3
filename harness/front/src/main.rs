// One request per line: "strip HEX" or "parse HEX" (comments stripped first, as main.rs does).
// One answer per line: "ok HEX", "ok TREE", "err" or "panic".
#![allow(dead_code)]
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod yul2ir;
use yul2ir::ast::*;
use yul2ir::{utils, yul};

fn hex(s: &str) -> String {
    let mut o = String::from("'");
    for b in s.bytes() {
        write!(o, "{b:02x}").unwrap();
    }
    o
}

fn unhex(s: &str) -> String {
    let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(b).unwrap()
}

struct Tree(String);

impl Tree {
    fn open(&mut self, tag: &str) {
        self.0.push('(');
        self.0.push_str(tag);
    }
    fn atom(&mut self, s: &str) {
        self.0.push(' ');
        self.0.push_str(&hex(s));
    }
    fn close(&mut self) {
        self.0.push(')');
    }
    fn object(&mut self, o: &Object) {
        self.open("object");
        self.atom(&o.name);
        self.block(&o.code);
        for s in &o.inner_segments {
            match s {
                InnerSegment::Object(o) => self.object(o),
                InnerSegment::Data(name, data) => {
                    self.open("data");
                    self.atom(name);
                    for d in data {
                        match d {
                            DataLiteral::HexLiteral(h) => {
                                self.open("hexdata");
                                self.atom(h);
                            }
                            DataLiteral::StringLiteral(h) => {
                                self.open("strdata");
                                self.atom(h);
                            }
                        }
                        self.close();
                    }
                    self.close();
                }
            }
        }
        self.close();
    }
    fn block(&mut self, b: &Block) {
        self.open("block");
        for s in &b.statements {
            self.stmt(s);
        }
        self.close();
    }
    fn typed(&mut self, tag: &str, l: &[TypedIdentifier]) {
        self.open(tag);
        for t in l {
            self.open("id");
            self.atom(&t.identifier.name);
            if let Some(ty) = &t.type_name {
                self.atom(&ty.type_name.name);
            }
            self.close();
        }
        self.close();
    }
    fn ids(&mut self, tag: &str, l: &[Identifier]) {
        self.open(tag);
        for i in l {
            self.atom(&i.name);
        }
        self.close();
    }
    fn stmt(&mut self, s: &Statement) {
        match s {
            Statement::Block(b) => self.block(b),
            Statement::Leave => {
                self.open("leave");
                self.close()
            }
            Statement::Break => {
                self.open("break");
                self.close()
            }
            Statement::Continue => {
                self.open("continue");
                self.close()
            }
            Statement::Comment => {
                self.open("comment");
                self.close()
            }
            Statement::Assignment(a) => {
                self.open("assign");
                self.ids("ids", &a.identifiers);
                self.expr(&a.value);
                self.close();
            }
            Statement::VariableDeclaration(v) => {
                self.open("let");
                self.typed("ids", &v.identifiers);
                if let Some(e) = &v.value {
                    self.expr(e);
                }
                self.close();
            }
            Statement::FunctionCall(c) => {
                self.open("exec");
                self.call(c);
                self.close();
            }
            Statement::If(i) => {
                self.open("if");
                self.expr(&i.cond);
                self.block(&i.body);
                self.close();
            }
            Statement::For(f) => {
                self.open("for");
                self.block(&f.init_block);
                self.expr(&f.condition);
                self.block(&f.post_block);
                self.block(&f.execution_block);
                self.close();
            }
            Statement::Switch(s) => {
                self.open("switch");
                self.expr(&s.condition);
                match &s.opt {
                    SwitchOptions::Cases(cs, d) => {
                        for c in cs {
                            self.open("case");
                            self.lit(&c.case);
                            self.block(&c.body);
                            self.close();
                        }
                        if let Some(d) = d {
                            self.default(d);
                        }
                    }
                    SwitchOptions::Default(d) => self.default(d),
                }
                self.close();
            }
            Statement::FunctionDefinition(f) => {
                self.open("function");
                self.atom(&f.name.name);
                self.typed("params", &f.params);
                self.typed("returns", &f.returns);
                self.block(&f.body);
                self.close();
            }
        }
    }
    fn default(&mut self, d: &SwitchDefault) {
        self.open("default");
        self.block(&d.body);
        self.close();
    }
    fn call(&mut self, c: &FunctionCall) {
        self.open("call");
        self.atom(&c.id.name);
        for a in &c.arguments {
            self.expr(a);
        }
        self.close();
    }
    fn expr(&mut self, e: &Expression) {
        match e {
            Expression::Identifier(i) => {
                self.open("var");
                self.atom(&i.name);
                self.close();
            }
            Expression::FunctionCall(c) => self.call(c),
            Expression::Literal(l) => self.lit(l),
        }
    }
    fn lit(&mut self, l: &Literal) {
        let ty = match l {
            Literal::TrueLiteral(t) => {
                self.open("true");
                t
            }
            Literal::FalseLiteral(t) => {
                self.open("false");
                t
            }
            Literal::HexNumberLiteral(h, t) => {
                self.open("hex");
                self.atom(&h.hex);
                t
            }
            Literal::DecimalNumberLiteral(d, t) => {
                self.open("dec");
                self.atom(&d.dec);
                t
            }
            Literal::StringLiteral(s, t) => {
                self.open("str");
                self.atom(&s.str);
                t
            }
        };
        if let Some(t) = ty {
            self.atom(&t.name);
        }
        self.close();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let parser = yul::ObjectParser::new();
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let (mode, src) = line.split_once(' ').unwrap();
        let src = unhex(src);
        let ans = catch_unwind(AssertUnwindSafe(|| {
            let text = utils::remove_comments(&src);
            if mode == "strip" {
                return format!("ok {}", &hex(&text)[1..]);
            }
            match parser.parse(&text) {
                Ok(o) => {
                    let mut t = Tree(String::from("ok "));
                    t.object(&o);
                    t.0
                }
                Err(_) => String::from("err"),
            }
        }))
        .unwrap_or_else(|_| String::from("panic"));
        writeln!(out, "{ans}").unwrap();
    }
}
