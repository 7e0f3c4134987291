use syntaxis::runtime::ast::rule_context::RuleContext;
fn main() { let r = std::panic::catch_unwind(|| syntaxis::tool::gui::ast_drawer::ASTDrawer::new().draw(&RuleContext { rule_name: "a".into(), rule_index: 0, children: vec![] }, "n", "/dev/full"));
  assert!(r.is_err(), "a document that was not written goes unreported"); }
