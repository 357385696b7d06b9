prop="P15"; crate="full"
edits=[("src/patterns/rules.rs","""        let ref_str = require_node_property(node, "ref")?;
        Ok(MTextPattern::MTextRef(pctx.get_mtext_rule(&ref_str)))""","""        let ref_str = require_node_property(node, "ref")?;
        Ok(MTextPattern::MTextRef(pctx.get_mtext_rule(ref_str.trim())))""")]
needs="a reference with blanks around the name, used inside a symbol rule"
breaks="an undefined reference is accepted, or a rule with blanks in its name cannot be referred to"
demo='''
use llamapun::patterns::PatternFile;
fn main() {
  std::fs::write("a.xml", "<pattern_file><mtext_rule name=\\"x\\"><mtext_any/></mtext_rule><mtext_rule name=\\"y\\"><mtext_not><mtext_ref ref=\\"x \\"/></mtext_not></mtext_rule></pattern_file>").unwrap();
  assert!(PatternFile::load("a.xml").is_err());
}
'''
