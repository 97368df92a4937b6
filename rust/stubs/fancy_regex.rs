//! stand-in: a pattern is plain text, '.' matches one character, a trailing ".*" matches the rest
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "error") } }
#[derive(Debug, Clone)]
pub struct Regex(String);
pub struct Match { s: usize, e: usize }
impl Match { pub fn start(&self) -> usize { self.s } pub fn end(&self) -> usize { self.e } }
impl Regex {
    pub fn new(s: &str) -> Result<Regex, Error> { Ok(Regex(s.to_owned())) }
    pub fn find(&self, t: &str) -> Result<Option<Match>, Error> {
        let (pat, rest) = match self.0.strip_suffix(".*") { Some(p) => (p, true), None => (self.0.as_str(), false) };
        let (p, c): (Vec<char>, Vec<(usize, char)>) = (pat.chars().collect(), t.char_indices().collect());
        for i in 0..=c.len() {
            if i + p.len() <= c.len() && p.iter().zip(&c[i..]).all(|(a, b)| *a == '.' || *a == b.1) {
                let at = |k: usize| if k < c.len() { c[k].0 } else { t.len() };
                return Ok(Some(Match { s: at(i), e: if rest { t.len() } else { at(i + p.len()) } }));
            }
        }
        Ok(None)
    }
    pub fn is_match(&self, t: &str) -> Result<bool, Error> { Ok(self.find(t)?.is_some()) }
}
