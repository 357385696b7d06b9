//! Test double for the `rust-senna` git dependency (bindings to the SENNA tagger), which is not
//! available offline. Types and accessors follow rust-senna; the "tagger" is a small deterministic
//! function, and sentences (words, offsets, POS tags, parse trees) can be built directly so that
//! checks can generate them. Word offsets are BYTE offsets into the parsed string, as in SENNA.
#![allow(missing_docs, non_camel_case_types)]

macro_rules! tags {
  ($t:ident, $f:ident, { $($v:ident => $s:expr),* $(,)? }) => {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
    pub enum $t { $($v),*, NOT_SET }
    impl $t {
      pub const ALL: &'static [($t, &'static str)] = &[$(($t::$v, $s)),*];
      pub fn $f() -> std::collections::HashMap<&'static str, $t> { Self::ALL.iter().map(|(v, s)| (*s, *v)).collect() }
      pub fn to_str(self) -> &'static str { Self::ALL.iter().find(|(v, _)| *v == self).map(|(_, s)| *s).unwrap_or("NOT_SET") }
    }
  };
}

pub mod pos {
  tags!(POS, generate_str_to_pos_map, {
    CC => "CC", CD => "CD", DT => "DT", EX => "EX", FW => "FW", IN => "IN", JJ => "JJ", JJR => "JJR", JJS => "JJS",
    LS => "LS", MD => "MD", NN => "NN", NNS => "NNS", NNP => "NNP", NNPS => "NNPS", PDT => "PDT", POS => "POS",
    PRP => "PRP", PRPS => "PRP$", RB => "RB", RBR => "RBR", RBS => "RBS", RP => "RP", SYM => "SYM", TO => "TO",
    UH => "UH", VB => "VB", VBD => "VBD", VBG => "VBG", VBN => "VBN", VBP => "VBP", VBZ => "VBZ", WDT => "WDT",
    WP => "WP", WPS => "WP$", WRB => "WRB", COMMA => ",", DOT => ".", COLON => ":", HASH => "#",
  });
}
pub mod phrase {
  tags!(Phrase, generate_str_to_phrase_map, {
    S => "S", SBAR => "SBAR", SBARQ => "SBARQ", SINV => "SINV", SQ => "SQ", ADJP => "ADJP", ADVP => "ADVP", CONJP => "CONJP",
    FRAG => "FRAG", INTJ => "INTJ", LST => "LST", NAC => "NAC", NP => "NP", NX => "NX", PP => "PP", PRN => "PRN",
    PRT => "PRT", QP => "QP", RRC => "RRC", UCP => "UCP", VP => "VP", WHADJP => "WHADJP", WHADVP => "WHADVP",
    WHNP => "WHNP", WHPP => "WHPP", X => "X",
  });
}
pub mod sennapath {
  pub const SENNA_PATH: &str = "";
}
pub mod sentence {
  use crate::phrase::Phrase;
  use crate::pos::POS;

  #[derive(Debug, Clone)]
  pub struct Word<'s> {
    string: &'s str,
    offset_start: usize,
    offset_end: usize,
    pos: POS,
    index: usize,
  }
  impl<'s> Word<'s> {
    /// test double only
    pub fn new(string: &'s str, offset_start: usize, offset_end: usize, pos: POS, index: usize) -> Word<'s> {
      Word { string, offset_start, offset_end, pos, index }
    }
    pub fn get_string(&self) -> &str { self.string }
    pub fn get_offset_start(&self) -> usize { self.offset_start }
    pub fn get_offset_end(&self) -> usize { self.offset_end }
    pub fn get_pos(&self) -> POS { self.pos }
    pub fn get_index(&self) -> usize { self.index }
    pub fn get_chunk(&self) -> Option<()> { None }
  }
  #[derive(Debug, Clone)]
  pub struct PSGParent {
    label: Phrase,
    children: Vec<PSGNode>,
  }
  impl PSGParent {
    pub fn new(label: Phrase, children: Vec<PSGNode>) -> PSGParent { PSGParent { label, children } }
    pub fn get_label(&self) -> Phrase { self.label }
    pub fn get_children(&self) -> &Vec<PSGNode> { &self.children }
  }
  #[derive(Debug, Clone)]
  pub enum PSGNode {
    Leaf(usize),
    Parent(Box<PSGParent>),
  }
  #[derive(Debug, Clone)]
  pub struct Sentence<'s> {
    string: &'s str,
    words: Vec<Word<'s>>,
    psgroot: Option<PSGNode>,
  }
  impl<'s> Sentence<'s> {
    /// test double only
    pub fn build(string: &'s str, words: Vec<Word<'s>>, psgroot: Option<PSGNode>) -> Sentence<'s> {
      Sentence { string, words, psgroot }
    }
    pub fn get_string(&self) -> &'s str { self.string }
    pub fn get_words(&self) -> &Vec<Word<'s>> { &self.words }
    pub fn get_psgroot(&self) -> Option<&PSGNode> { self.psgroot.as_ref() }
  }
}
pub mod senna {
  use crate::phrase::Phrase;
  use crate::pos::POS;
  use crate::sentence::*;

  #[derive(Debug, Clone, Copy)]
  pub struct SennaParseOptions {
    pub pos: bool,
    pub psg: bool,
  }
  impl Default for SennaParseOptions {
    fn default() -> Self { SennaParseOptions { pos: true, psg: false } }
  }
  pub struct Senna {
    _path: String,
  }
  /// the words of the test double: maximal runs of alphanumeric characters (of any script), and
  /// every other non-space character on its own, with byte offsets
  pub fn double_tokenize(s: &str) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = Vec::new();
    let mut open = false;
    for (i, c) in s.char_indices() {
      let end = i + c.len_utf8();
      if c.is_alphanumeric() {
        if open {
          out.last_mut().unwrap().1 = end;
        } else {
          out.push((i, end));
          open = true;
        }
      } else {
        open = false;
        if !c.is_whitespace() {
          out.push((i, end));
        }
      }
    }
    out
  }
  /// the tag of the test double: a function of the word
  pub fn double_pos(w: &str) -> POS {
    let n = w.bytes().fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
    POS::ALL[n % POS::ALL.len()].0
  }
  impl Senna {
    pub fn new(path: String) -> Senna { Senna { _path: path } }
    pub fn parse<'s>(&mut self, s: &'s str, options: SennaParseOptions) -> Sentence<'s> {
      let words: Vec<Word<'s>> = double_tokenize(s)
        .into_iter()
        .enumerate()
        .map(|(i, (a, b))| {
          let pos = if options.pos { double_pos(&s[a..b]) } else { POS::NOT_SET };
          Word::new(&s[a..b], a, b, pos, i)
        })
        .collect();
      let psg = if options.psg && !words.is_empty() {
        Some(PSGNode::Parent(Box::new(PSGParent::new(Phrase::S, (0..words.len()).map(PSGNode::Leaf).collect()))))
      } else {
        None
      };
      Sentence::build(s, words, psg)
    }
  }
}
