prop="P02"; crate="full"
edits=[("src/dnm/mod.rs","""    self.normalize_unicode(&mut string, &mut offsets);
    self.stem_words(""","""    self.normalize_whitespace(&mut string, &mut offsets);
    self.normalize_unicode(&mut string, &mut offsets);
    self.stem_words("""),("src/dnm/mod.rs","""      string = string.to_lowercase();
    }
    self.normalize_whitespace(&mut string, &mut offsets);
""","""      string = string.to_lowercase();
    }
""")]
needs="whitespace and unicode normalization both on and a character whose ASCII form contains or is a blank that is not whitespace itself"
breaks="blanks produced by the ASCII form are not folded"
demo='''
use llamapun::dnm::*;
fn main() {
  let mut p = DNMParameters::default();
  p.normalize_unicode = true;
  for c in (0x80u32..0x30000).filter_map(char::from_u32) {
    let s = unidecode::unidecode_char(c);
    if s.contains(' ') && !c.is_whitespace() {
      let (_d, dnm) = DNM::from_str(&format!("x{c} {c} y"), Some(p.clone())).unwrap();
      assert!(!dnm.plaintext.contains("  "), "{:?}", dnm.plaintext);
    }
  }
}
'''
