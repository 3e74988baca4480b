//! lexgen OUT.rs : the lexer that /repo's template gives for a small grammar, by way of /repo's own
//! JSON loader and rule visitor and the real tera. Run from a directory where src -> /repo/src.
use syntaxis::tool::{grammar::Grammar, serde_ast, syntaxis::syntaxis_context::RuleListContext, visitor::grammar_visitor::SymbolVisitor};
use tera::{Context, Tera};
fn lexer(name: &str, rules: &[(&str, &str)]) -> String {
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"");
    let t = |ty: usize, name: &str, text: &str| format!("{{\"token_type\":{},\"token_name\":\"{}\",\"text\":\"{}\"}}", ty, name, esc(text));
    let ch: Vec<String> = rules.iter().map(|(n, r)| format!("{{\"rule_index\":7,\"rule_name\":\"lexer_rule\",\"children\":[{},{},{{\"rule_index\":8,\"rule_name\":\"regular\",\"children\":[{}]}},{}]}}", t(6, "TOKEN_REF", n), t(8, "COLON", ":"), t(21, "REGULAR_LITERAL", r), t(10, "SEMI", ";"))).collect();
    let ast = serde_ast::from_str(&format!("{{\"rule_index\":0,\"rule_name\":\"rule_list\",\"children\":[{}]}}", ch.join(","))).unwrap();
    let mut g = Grammar::new("demo");
    let data = { let mut v = SymbolVisitor::new(&mut g, 2, 0, vec![]); ast.accept(&mut v); v.data };
    let mut tera = Tera::new("src/tool/templates/target/rust/*.tera").unwrap();
    tera.autoescape_on(vec![]);
    let mut c = Context::new();
    c.insert("tokens", &data);
    c.insert("name", name);
    tera.render("lexer.tera", &c).unwrap()
}
fn main() {
    let demo = lexer("Demo", &[("TAB", "/ab/"), ("TAS", "/a+/"), ("SLASHES", r"/\/\//"), ("BNL", r"/b\n/"), ("WHITE_SPACE", r"/[ \n\r\t\f]+/")]);
    // the blanks in the middle, more than ten rules, quotes and hashes, rules that match the same
    let other = lexer("Other_2", &[("QUOTE", "/\"#?/"), ("KEY", "/if|fi/"), ("WHITE_SPACE", r"/\s+/"), ("ID", "/[a-z_]+/"), ("KEY_2", "/fi/"), ("NUM", r"/[0-9]+(\.[0-9]+)?/"), ("DOT", r"/\./"), ("DOTS", r"/\.\.+/"), ("SLASH", r"/\//"), ("REST", r"/\/\/[^\n]*/"), ("BACK", r"/\\/"), ("HASH", "/#+/"), ("NOTHING", "/x?/"), ("EA", "/é|e\u{301}/")]);
    std::fs::write(std::env::args().nth(1).unwrap(), format!("pub mod demo {{\n{}\n}}\npub mod other {{\n{}\n}}\n", demo, other)).unwrap();
}
