prop="P20"; crate="base"
edits=[("src/stopwords.rs",'''    "accordingly",
''','''    "accordinly",
''')]
needs="the word accordingly"
breaks="a published stopword is not recognized and a misspelt one is"
demo='''
fn main() {
  let s = stopwords::load();
  assert!(s.contains("accordingly") && !s.contains("accordinly"));
}
'''
