//! Generated XML trees, their serialization, and read-only snapshots of parsed documents.
use libxml::readonly::RoNode;
use libxml::tree::NodeType;
use serde::{Deserialize, Serialize};

/// A generated tree
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum T {
  /// element: name, attributes, children
  E(String, Vec<(String, String)>, Vec<T>),
  /// text
  X(String),
  /// comment
  C(String),
}

pub fn e(name: &str, attrs: &[(&str, &str)], kids: Vec<T>) -> T {
  T::E(name.into(), attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids)
}
pub fn x(t: &str) -> T { T::X(t.into()) }

pub fn escape(s: &str, out: &mut String) {
  for c in s.chars() {
    match c {
      '&' => out.push_str("&amp;"),
      '<' => out.push_str("&lt;"),
      '>' => out.push_str("&gt;"),
      '"' => out.push_str("&quot;"),
      '\r' => out.push_str("&#13;"),
      c => out.push(c),
    }
  }
}
pub fn escape_attr(s: &str, out: &mut String) {
  for c in s.chars() {
    match c {
      '\n' => out.push_str("&#10;"),
      '\t' => out.push_str("&#9;"),
      c => escape(&c.to_string(), out),
    }
  }
}

impl T {
  /// serialize (adjacent texts simply run together, as they would in a file)
  pub fn write(&self, out: &mut String) {
    match self {
      T::X(s) => escape(s, out),
      T::C(s) => {
        out.push_str("<!--");
        out.push_str(&s.replace('-', "_"));
        out.push_str("-->");
      },
      T::E(n, a, k) => {
        out.push('<');
        out.push_str(n);
        let mut seen: Vec<&str> = Vec::new();
        for (an, av) in a {
          if seen.contains(&an.as_str()) {
            continue;
          }
          seen.push(an);
          out.push(' ');
          out.push_str(an);
          out.push_str("=\"");
          escape_attr(av, out);
          out.push('"');
        }
        out.push('>');
        for c in k {
          c.write(out);
        }
        out.push_str("</");
        out.push_str(n);
        out.push('>');
      },
    }
  }
  pub fn xml(&self) -> String {
    let mut s = String::new();
    self.write(&mut s);
    s
  }
  pub fn size(&self) -> usize {
    match self {
      T::E(_, _, k) => 1 + k.iter().map(|t| t.size()).sum::<usize>(),
      _ => 1,
    }
  }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
  Elem,
  Text,
  Comment,
  Other,
}

/// What is actually in a parsed document, read through libxml
#[derive(Clone, Debug)]
pub struct Snap {
  pub node: RoNode,
  pub kind: Kind,
  pub name: String,
  pub class: Option<String>,
  pub id: Option<String>,
  pub text: String,
  pub kids: Vec<Snap>,
}
impl Snap {
  pub fn of(node: RoNode) -> Snap {
    let kind = match node.get_type() {
      Some(NodeType::ElementNode) => Kind::Elem,
      Some(NodeType::TextNode) => Kind::Text,
      Some(NodeType::CommentNode) => Kind::Comment,
      _ => Kind::Other,
    };
    let mut kids = Vec::new();
    let mut cur = node.get_first_child();
    while let Some(c) = cur {
      kids.push(Snap::of(c));
      cur = c.get_next_sibling();
    }
    let (class, id) = if kind == Kind::Elem { (node.get_property("class"), node.get_property("id")) } else { (None, None) };
    let text = if kind == Kind::Text { node.get_content() } else { String::new() };
    Snap { node, kind, name: node.get_name(), class, id, text, kids }
  }
  pub fn classes(&self) -> Vec<&str> { self.class.as_deref().map(|c| c.split_whitespace().collect()).unwrap_or_default() }
  /// document order, self first
  pub fn preorder(&self) -> Vec<&Snap> {
    let mut v = vec![self];
    for k in &self.kids {
      v.extend(k.preorder());
    }
    v
  }
  pub fn elements(&self) -> Vec<&Snap> { self.preorder().into_iter().filter(|s| s.kind == Kind::Elem).collect() }
  /// concatenated text (like XPath string())
  pub fn content(&self) -> String {
    match self.kind {
      Kind::Text => self.text.clone(),
      Kind::Elem => self.kids.iter().map(|k| k.content()).collect(),
      _ => String::new(),
    }
  }
}
