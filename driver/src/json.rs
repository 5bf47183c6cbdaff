//! Minimal JSON value + writer.
use std::fmt::{self, Display, Write};

#[derive(Clone, Debug)]
pub enum J {
	Null,
	Bool(bool),
	Int(i128),
	UInt(u128),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(&'static str, J)>),
}

impl From<bool> for J { fn from(v: bool) -> Self { J::Bool(v) } }
impl From<usize> for J { fn from(v: usize) -> Self { J::UInt(v as u128) } }
impl From<u64> for J { fn from(v: u64) -> Self { J::UInt(v as u128) } }
impl From<u32> for J { fn from(v: u32) -> Self { J::UInt(v as u128) } }
impl From<u128> for J { fn from(v: u128) -> Self { J::UInt(v) } }
impl From<i128> for J { fn from(v: i128) -> Self { J::Int(v) } }
impl From<&str> for J { fn from(v: &str) -> Self { J::Str(v.to_owned()) } }
impl From<String> for J { fn from(v: String) -> Self { J::Str(v) } }
impl From<Vec<J>> for J { fn from(v: Vec<J>) -> Self { J::Arr(v) } }
impl<T: Into<J>> From<Option<T>> for J { fn from(v: Option<T>) -> Self { v.map_or(J::Null, Into::into) } }

fn esc(s: &str, f: &mut fmt::Formatter<'_>) -> fmt::Result {
	f.write_char('"')?;
	for c in s.chars() {
		match c {
			'"' => f.write_str("\\\"")?,
			'\\' => f.write_str("\\\\")?,
			'\n' => f.write_str("\\n")?,
			'\r' => f.write_str("\\r")?,
			'\t' => f.write_str("\\t")?,
			c if (c as u32) < 0x20 => write!(f, "\\u{:04x}", c as u32)?,
			c => f.write_char(c)?,
		}
	}
	f.write_char('"')
}

impl Display for J {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		match self {
			J::Null => f.write_str("null"),
			J::Bool(b) => write!(f, "{b}"),
			J::Int(n) => write!(f, "{n}"),
			J::UInt(n) => write!(f, "{n}"),
			J::Str(s) => esc(s, f),
			J::Arr(v) => {
				f.write_char('[')?;
				for (i, x) in v.iter().enumerate() {
					if i != 0 { f.write_char(',')?; }
					write!(f, "{x}")?;
				}
				f.write_char(']')
			},
			J::Obj(v) => {
				f.write_char('{')?;
				for (i, (k, x)) in v.iter().enumerate() {
					if i != 0 { f.write_char(',')?; }
					esc(k, f)?;
					f.write_char(':')?;
					write!(f, "{x}")?;
				}
				f.write_char('}')
			},
		}
	}
}

#[macro_export]
macro_rules! obj {
	($($k:literal : $v:expr),* $(,)?) => ( $crate::json::J::Obj(vec![$(($k, $crate::json::J::from($v))),*]) );
}
#[macro_export]
macro_rules! arr {
	($($v:expr),* $(,)?) => ( $crate::json::J::Arr(vec![$($crate::json::J::from($v)),*]) );
}
