//! Test double for the `unidecode` crate: same two functions, and the same contract (a pure
//! per-character map to ASCII strings of length 0, 1 or more), over a small table.

const TABLE: &[(char, &str)] = &[
  ('\u{a0}', " "), ('¡', "!"), ('¢', "C/"), ('£', "PS"), ('§', "SS"), ('©', "(c)"), ('«', "<<"),
  ('®', "(r)"), ('°', "deg"), ('±', "+-"), ('²', "2"), ('³', "3"), ('´', "'"), ('µ', "u"),
  ('·', "*"), ('»', ">>"), ('½', " 1/2 "), ('¿', "?"), ('×', "x"), ('÷', "/"),
  ('À', "A"), ('Á', "A"), ('Â', "A"), ('Ã', "A"), ('Ä', "A"), ('Å', "A"), ('Æ', "AE"), ('Ç', "C"),
  ('È', "E"), ('É', "E"), ('Ê', "E"), ('Ë', "E"), ('Ì', "I"), ('Í', "I"), ('Î', "I"), ('Ï', "I"),
  ('Ñ', "N"), ('Ò', "O"), ('Ó', "O"), ('Ô', "O"), ('Õ', "O"), ('Ö', "O"), ('Ø', "O"), ('Ù', "U"),
  ('Ú', "U"), ('Û', "U"), ('Ü', "U"), ('Ý', "Y"), ('Þ', "Th"), ('ß', "ss"),
  ('à', "a"), ('á', "a"), ('â', "a"), ('ã', "a"), ('ä', "a"), ('å', "a"), ('æ', "ae"), ('ç', "c"),
  ('è', "e"), ('é', "e"), ('ê', "e"), ('ë', "e"), ('ì', "i"), ('í', "i"), ('î', "i"), ('ï', "i"),
  ('ñ', "n"), ('ò', "o"), ('ó', "o"), ('ô', "o"), ('õ', "o"), ('ö', "o"), ('ø', "o"), ('ù', "u"),
  ('ú', "u"), ('û', "u"), ('ü', "u"), ('ý', "y"), ('þ', "th"), ('ÿ', "y"),
  ('\u{301}', ""), ('\u{feff}', ""), ('ń', "n"), ('ă', "a"), ('ć', "c"), ('č', "c"), ('ę', "e"), ('ě', "e"), ('ř', "r"), ('ş', "s"), ('ż', "z"), ('ħ', "h"), ('İ', "I"), ('ı', "i"), ('ł', "l"), ('Ł', "L"), ('œ', "oe"), ('Œ', "OE"), ('š', "s"),
  ('ŧ', "t"), ('ž', "z"), ('ő', "o"),
  ('α', "a"), ('β', "b"), ('γ', "g"), ('δ', "d"), ('ε', "e"), ('θ', "th"), ('λ', "l"), ('π', "p"),
  ('σ', "s"), ('ψ', "ps"), ('ω', "o"), ('Γ', "G"), ('Δ', "D"), ('Θ', "Th"), ('Ψ', "Ps"), ('Ω', "O"),
  ('а', "a"), ('б', "b"), ('в', "v"), ('г', "g"), ('д', "d"), ('е', "e"), ('ж', "zh"), ('и', "i"),
  ('м', "m"), ('о', "o"), ('п', "p"), ('р', "r"), ('т', "t"), ('щ', "shch"), ('ю', "iu"), ('я', "ia"),
  ('Ж', "Zh"), ('М', "M"), ('П', "P"), ('Щ', "Shch"),
  ('\u{2003}', " "), ('\u{2009}', " "), ('\u{200b}', ""), ('\u{2028}', "\n"), ('–', "-"), ('—', "--"),
  ('‘', "'"), ('’', "'"), ('“', "\""), ('”', "\""), ('†', "+"), ('•', "*"), ('…', "..."),
  ('‰', "%0"), ('′', "'"), ('€', "EUR"), ('™', "(tm)"), ('−', "-"), ('∞', "[?]"), ('≤', "<="),
  ('北', "Bei "), ('京', "Jing "),
];

/// The ASCII replacement of one character
pub fn unidecode_char(c: char) -> &'static str {
  const ASCII: &str = "\u{0}\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}\u{7}\u{8}\t\n\u{b}\u{c}\r\u{e}\u{f}\u{10}\u{11}\u{12}\u{13}\u{14}\u{15}\u{16}\u{17}\u{18}\u{19}\u{1a}\u{1b}\u{1c}\u{1d}\u{1e}\u{1f} !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\u{7f}";
  if c.is_ascii() {
    let i = c as usize;
    return &ASCII[i..i + 1];
  }
  TABLE.iter().find(|(k, _)| *k == c).map(|(_, v)| *v).unwrap_or("[?]")
}

/// The ASCII replacement of a text
pub fn unidecode(s: &str) -> String { s.chars().map(unidecode_char).collect() }
