prop="P22"; crate="full"
edits=[("src/util/data_helpers.rs",r'''Regex::new(r"(^|\s)[xiv]*(\s|$)")''',r'''Regex::new(r"(^|\s)[xiv]+(\s|$)")''')]
needs="a heading with two blanks in a row inside a known phrase"
breaks="the known heading is not recognized"
demo=r'''
use llamapun::util::data_helpers::normalize_heading_title;
fn main() { assert_eq!(normalize_heading_title("previous  work"), "related work"); }
'''
