#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Uuid(u128);
impl Uuid { pub fn parse_str(s: &str) -> Result<Self, std::num::ParseIntError> { u128::from_str_radix(&s.replace("-", ""), 16).map(Uuid) } pub fn from_u128(v: u128) -> Self { Uuid(v) } pub fn nil() -> Self { Uuid(0) } }
impl std::fmt::Display for Uuid { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:032x}", self.0) } }
