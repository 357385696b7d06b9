prop="P22"; crate="full"
edits=[("src/util/data_helpers.rs",'''      h if h.starts_with("simulation result") => "result",
      h if h.starts_with("simulation ") => "simulation",
''','''      h if h.starts_with("simulation ") => "simulation",
      h if h.starts_with("simulation result") => "result",
''')]
needs="a heading that two prefixes of the table match"
breaks="simulation results are classified as simulations"
demo='''
use llamapun::util::data_helpers::normalize_heading_title;
fn main() {
  assert_eq!(normalize_heading_title("simulation results"), "result");
  assert_eq!(normalize_heading_title("simulation setup"), "simulation");
}
'''
