//! Test double for `whatlang`. The verdict is programmable per thread (so that a check can put the
//! caller through every verdict), and what the caller asked about is recorded. Without a programmed
//! verdict: no detection for a text without letters, else the majority script, English, confidence 1.
use std::cell::RefCell;

macro_rules! names {
  ($(#[$m:meta])* $t:ident { $($v:ident),* $(,)? }) => {
    $(#[$m])* #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
    #[allow(missing_docs)]
    pub enum $t { $($v),* }
    impl $t {
      /// all values
      pub const ALL: &'static [$t] = &[$($t::$v),*];
      /// all values
      pub fn all() -> &'static [$t] { Self::ALL }
      /// the name of the value
      pub fn name(&self) -> String { format!("{:?}", self) }
      /// its code
      pub fn code(&self) -> String { self.name().to_lowercase() }
    }
  };
}
names!(
  /// languages
  Lang { Epo, Eng, Rus, Cmn, Spa, Por, Ita, Ben, Fra, Deu, Ukr, Kat, Ara, Hin, Jpn, Heb, Yid, Pol, Amh, Jav, Kor,
  Nob, Dan, Swe, Fin, Tur, Nld, Hun, Ces, Ell, Bul, Bel, Mar, Kan, Ron, Slv, Hrv, Srp, Mkd, Lit, Lav, Est, Tam, Vie,
  Urd, Tha, Guj, Uzb, Pan, Aze, Ind, Tel, Pes, Mal, Ori, Mya, Nep, Sin, Khm, Tuk, Aka, Zul, Sna, Afr, Lat, Slk, Cat, Tgl, Hye });
names!(
  /// scripts
  Script { Arabic, Armenian, Bengali, Cyrillic, Devanagari, Ethiopic, Georgian, Greek, Gujarati, Gurmukhi, Hangul,
  Hebrew, Hiragana, Kannada, Katakana, Khmer, Latin, Malayalam, Mandarin, Myanmar, Oriya, Sinhala, Tamil, Telugu, Thai });

/// A verdict
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Info {
  script: Script,
  lang: Lang,
  confidence: f64,
}
impl Info {
  /// build a verdict (test double only)
  pub fn new(script: Script, lang: Lang, confidence: f64) -> Info { Info { script, lang, confidence } }
  /// language
  pub fn lang(&self) -> Lang { self.lang }
  /// script
  pub fn script(&self) -> Script { self.script }
  /// confidence
  pub fn confidence(&self) -> f64 { self.confidence }
  /// reliable?
  pub fn is_reliable(&self) -> bool { self.confidence > 0.9 }
}

thread_local! {
  static PROGRAM: RefCell<Option<Option<Info>>> = const { RefCell::new(None) };
  static ASKED: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}
/// program the verdict of the following calls on this thread (test double only)
pub fn program(verdict: Option<Option<Info>>) { PROGRAM.with(|p| *p.borrow_mut() = verdict) }
/// what was asked on this thread since the last call (test double only)
pub fn take_asked() -> Vec<String> { ASKED.with(|a| std::mem::take(&mut *a.borrow_mut())) }

fn natural(text: &str) -> Option<Info> {
  let (mut latin, mut cyrillic, mut greek, mut han) = (0, 0, 0, 0);
  for c in text.chars().filter(|c| c.is_alphabetic()) {
    match c as u32 {
      0x370..=0x3ff => greek += 1,
      0x400..=0x4ff => cyrillic += 1,
      0x3000..=0x9fff => han += 1,
      _ => latin += 1,
    }
  }
  let best = [(latin, Script::Latin, Lang::Eng), (cyrillic, Script::Cyrillic, Lang::Rus), (greek, Script::Greek, Lang::Ell), (han, Script::Mandarin, Lang::Cmn)]
    .into_iter()
    .max_by_key(|x| x.0)?;
  if best.0 == 0 {
    return None;
  }
  Some(Info::new(best.1, best.2, 1.0))
}

/// detect the language and script
pub fn detect(text: &str) -> Option<Info> {
  ASKED.with(|a| a.borrow_mut().push(text.to_string()));
  PROGRAM.with(|p| *p.borrow()).unwrap_or_else(|| natural(text))
}
/// detect the language
pub fn detect_lang(text: &str) -> Option<Lang> { detect(text).map(|i| i.lang()) }
/// detect the script
pub fn detect_script(text: &str) -> Option<Script> { detect(text).map(|i| i.script()) }
/// The detector with its default options
#[derive(Debug, Clone, Copy, Default)]
pub struct Detector;
impl Detector {
  /// all languages allowed
  pub fn new() -> Detector { Detector }
  /// detect the language and script
  pub fn detect(&self, text: &str) -> Option<Info> { detect(text) }
  /// detect the language
  pub fn detect_lang(&self, text: &str) -> Option<Lang> { detect_lang(text) }
  /// detect the script
  pub fn detect_script(&self, text: &str) -> Option<Script> { detect_script(text) }
}
