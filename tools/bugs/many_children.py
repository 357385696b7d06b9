prop="P17"; crate="base"
edits=[("src/patterns/utils.rs","""    if !cur_.is_text_node() && !is_comment_node(cur_) {
      children.push(cur_);
    }
    cur = cur_.get_next_sibling();""","""    if !cur_.is_text_node() && !is_comment_node(cur_) {
      children.push(cur_);
      if children.len() as u16 == 0 {
        // do not follow a cyclic sibling list forever
        return children;
      }
    }
    cur = cur_.get_next_sibling();""")]
needs="a node with more than 65536 element children"
breaks="the children behind the 65536th are dropped"
demo='''
fn main() {
  let doc = libxml::parser::Parser::default().parse_string(format!("<a>{}</a>", "<b/>".repeat(70_000))).unwrap();
  let n = patterns::utils::fast_get_non_text_children(doc.get_root_readonly().unwrap());
  assert_eq!(n.len(), 70_000);
}
'''
