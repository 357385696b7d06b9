prop="P28"; crate="base"
edits=[("src/dnm/parameters.rs",'''    class_options.insert("ltx_tag_table".to_string(), SpecialTagsOption::Skip);''','''    class_options.insert("ltx_tag_tabular".to_string(), SpecialTagsOption::Skip);''')]
needs="a table caption tag (class ltx_tag_table)"
breaks="caption numbers of tables leak into the plaintext"
demo='''
fn main() {
  let p = dnm::parameters::DNMParameters::llamapun_normalization();
  let mut k: Vec<&String> = p.special_tag_class_options.keys().filter(|k| k.starts_with("ltx_tag")).collect();
  k.sort();
  assert_eq!(k, ["ltx_tag_figure", "ltx_tag_table"]);
}
'''
