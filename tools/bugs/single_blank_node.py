prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","""    let mut string = node.get_content();
    let mut offsets""","""    let mut string = node.get_content();
    if string == " " && !self.parameters.support_back_mapping {
      // by far the most frequent text between two elements
      if !self.runtime.had_whitespace || !self.parameters.normalize_white_spaces {
        self.runtime.chars.push(' ');
      }
      record_node_map!(self, node, offset_start);
      return;
    }
    let mut offsets""")]
needs="a text node of one blank followed by another blank, without back mapping"
breaks="two blanks in a row"
demo=r'''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a>x<b/> <b> y</b></a>").unwrap();
  let p = DNMParameters { support_back_mapping: false, normalize_white_spaces: true, ..Default::default() };
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.plaintext, "x y");
}
'''
