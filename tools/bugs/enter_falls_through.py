prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","          Some(&SpecialTagsOption::Enter) => break,","          Some(&SpecialTagsOption::Enter) | None => continue,"),
("src/dnm/mod.rs","""            return;
          },
          None => continue,
        }""","""            return;
          },
        }""")]
needs="an element with an Enter rule for its class and a replacing or skipping rule for its name (or a later class)"
breaks="the Enter rule no longer shields the element from the less specific rule"
demo='''
use llamapun::dnm::*;
fn main() {
  let doc = libxml::parser::Parser::default().parse_string("<a><b class=\\"in\\">y</b></a>").unwrap();
  let mut p = DNMParameters::default();
  p.special_tag_name_options.insert("b".into(), SpecialTagsOption::Skip);
  p.special_tag_class_options.insert("in".into(), SpecialTagsOption::Enter);
  let dnm = DNM::new(doc.get_root_readonly().unwrap(), p);
  assert_eq!(dnm.plaintext, "y");
}
'''
