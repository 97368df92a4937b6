//! symbolic elements and names: every comparison is answered by the solver side
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};

thread_local! {
    static KNOWN: RefCell<BTreeMap<(u8, u32, u32), i64>> = RefCell::new(BTreeMap::new());
}

fn ask(kind: u8, a: u32, b: u32) -> i64 {
    KNOWN.with(|k| {
        if let Some(v) = k.borrow().get(&(kind, a, b)) {
            return *v;
        }
        let mut out = std::io::stdout().lock();
        writeln!(out, "{} {} {}", kind as char, a, b).unwrap();
        out.flush().unwrap();
        let mut s = String::new();
        std::io::stdin().lock().read_line(&mut s).unwrap();
        let v: i64 = s.trim().parse().unwrap();
        k.borrow_mut().insert((kind, a, b), v);
        v
    })
}

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

impl PartialEq for Sym {
    fn eq(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        // classes that were asked for decide without asking again
        let c = KNOWN.with(|k| (k.borrow().get(&(b'c', self.0, 0)).copied(), k.borrow().get(&(b'c', o.0, 0)).copied()));
        match c {
            (Some(x), Some(y)) => x == y,
            _ => ask(b'e', self.0.min(o.0), self.0.max(o.0)) == 1,
        }
    }
}
impl Eq for Sym {}
impl Ord for Sym {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.0 == o.0 { Ordering::Equal } else { (ask(b'l', self.0, o.0)).cmp(&0) }
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
}
impl Hash for Sym {
    fn hash<H: Hasher>(&self, h: &mut H) { (ask(b'c', self.0, 0) as u64).hash(h) }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) }
}
impl std::str::FromStr for Sym {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(Sym(s.parse()?)) }
}

/// a name: a symbolic one, or a text.  The text of a symbolic name is that of its class.
#[derive(Clone)]
pub enum Name {
    Sym(Sym),
    Text(String),
}

thread_local! {
    static TEXTS: RefCell<BTreeMap<i64, &'static str>> = RefCell::new(BTreeMap::new());
}

fn text(class: i64) -> &'static str {
    TEXTS.with(|t| *t.borrow_mut().entry(class).or_insert_with(|| Box::leak(format!("\u{a7}{}\u{a7}", class).into_boxed_str())))
}

impl Name {
    pub fn new() -> Self { Name::Text(String::new()) }
    pub fn from(s: impl Into<Name>) -> Self { s.into() }
    pub fn from_utf8(v: Vec<u8>) -> Result<Name, std::string::FromUtf8Error> { String::from_utf8(v).map(Name::Text) }
    pub fn from_utf8_lossy(v: &[u8]) -> std::borrow::Cow<str> { String::from_utf8_lossy(v) }
    pub fn as_bytes(&self) -> &[u8] { self.as_str().as_bytes() }
    pub fn with_capacity(_: usize) -> Self { Self::new() }
    pub fn as_str(&self) -> &str { self }
    fn edit(&mut self) -> &mut String {
        if let Name::Sym(_) = self {
            *self = Name::Text(self.as_str().to_owned());
        }
        match self {
            Name::Text(t) => t,
            _ => unreachable!(),
        }
    }
    pub fn push(&mut self, c: char) { self.edit().push(c) }
    pub fn push_str(&mut self, s: &str) { self.edit().push_str(s) }
    pub fn remove(&mut self, i: usize) -> char { self.edit().remove(i) }
    pub fn pop(&mut self) -> Option<char> { self.edit().pop() }
    pub fn clear(&mut self) { self.edit().clear() }
    pub fn insert_str(&mut self, i: usize, s: &str) { self.edit().insert_str(i, s) }
    pub fn truncate(&mut self, i: usize) { self.edit().truncate(i) }
}
impl std::ops::Deref for Name {
    type Target = str;
    fn deref(&self) -> &str {
        match self {
            Name::Sym(s) => text(ask(b'c', s.0, 0)),
            Name::Text(t) => t,
        }
    }
}
impl std::borrow::Borrow<str> for Name { fn borrow(&self) -> &str { self } }
impl AsRef<str> for Name { fn as_ref(&self) -> &str { self } }
impl AsRef<[u8]> for Name { fn as_ref(&self) -> &[u8] { self.as_bytes() } }
impl Default for Name { fn default() -> Self { Self::new() } }
impl PartialEq for Name {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Name::Sym(a), Name::Sym(b)) => a == b,
            _ => **self == **o,
        }
    }
}
impl Eq for Name {}
impl PartialEq<str> for Name { fn eq(&self, o: &str) -> bool { **self == *o } }
impl PartialEq<&str> for Name { fn eq(&self, o: &&str) -> bool { **self == **o } }
impl PartialEq<Name> for str { fn eq(&self, o: &Name) -> bool { *self == **o } }
impl PartialEq<Name> for &str { fn eq(&self, o: &Name) -> bool { **self == **o } }
impl Ord for Name {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self, o) {
            (Name::Sym(a), Name::Sym(b)) => a.cmp(b),
            _ => (**self).cmp(&**o),
        }
    }
}
impl PartialOrd for Name { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Hash for Name { fn hash<H: Hasher>(&self, h: &mut H) { (**self).hash(h) } }
impl std::fmt::Debug for Name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", &**self) } }
impl std::fmt::Display for Name { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", &**self) } }
impl std::fmt::Write for Name { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.push_str(s); Ok(()) } }
impl From<&str> for Name { fn from(s: &str) -> Self { Name::Text(s.to_owned()) } }
impl From<String> for Name { fn from(s: String) -> Self { Name::Text(s) } }
impl From<std::borrow::Cow<'_, str>> for Name { fn from(s: std::borrow::Cow<str>) -> Self { Name::Text(s.into_owned()) } }
impl From<&Name> for Name { fn from(s: &Name) -> Self { s.clone() } }
impl std::ops::Add<&str> for Name { type Output = Name; fn add(mut self, s: &str) -> Name { self.push_str(s); self } }
impl std::ops::AddAssign<&str> for Name { fn add_assign(&mut self, s: &str) { self.push_str(s) } }
impl FromIterator<char> for Name { fn from_iter<I: IntoIterator<Item = char>>(i: I) -> Self { Name::Text(i.into_iter().collect()) } }

/// `.to_string()` and `.to_owned()` of the code that is checked
pub trait ToName { fn to_name(&self) -> Name; }
impl<T: std::fmt::Display + ?Sized> ToName for T { fn to_name(&self) -> Name { Name::Text(self.to_string()) } }
pub trait Own { type O; fn own(&self) -> Self::O; }
impl<T: Clone> Own for T { type O = T; fn own(&self) -> T { self.clone() } }
impl Own for str { type O = Name; fn own(&self) -> Name { Name::Text(self.to_owned()) } }
/// joining
pub trait JoinNames { fn join_names(&self, sep: &str) -> Name; }
impl<T: AsRef<str>> JoinNames for [T] { fn join_names(&self, sep: &str) -> Name { Name::Text(self.iter().map(|x| AsRef::<str>::as_ref(x)).collect::<Vec<&str>>().join(sep)) } }
#[macro_export]
macro_rules! format_name { ($($t:tt)*) => { $crate::sym::Name::Text(std::format!($($t)*)) } }
