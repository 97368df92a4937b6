//! stand-in for the parts of quick-xml 0.29 the backend uses
use std::fmt;
use std::fs::File;
use std::io::{self, BufRead, BufReader, Read, Write};

#[derive(Debug)]
pub enum Error {
    Io(io::Error),
    UnexpectedEof(String),
    EndEventMismatch { expected: String, found: String },
    Escape(String),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self) }
}
impl std::error::Error for Error {}
impl From<io::Error> for Error { fn from(e: io::Error) -> Self { Error::Io(e) } }
pub type Result<T> = std::result::Result<T, Error>;

pub mod name {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct QName<'a>(pub &'a [u8]);
    impl<'a> QName<'a> {
        pub fn into_inner(self) -> &'a [u8] { self.0 }
        pub fn local_name(&self) -> LocalName<'a> { LocalName(self.0.rsplit(|b| *b == b':').next().unwrap()) }
    }
    impl<'a> AsRef<[u8]> for QName<'a> { fn as_ref(&self) -> &[u8] { self.0 } }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct LocalName<'a>(&'a [u8]);
    impl<'a> AsRef<[u8]> for LocalName<'a> { fn as_ref(&self) -> &[u8] { self.0 } }
}

pub mod escape {
    use std::borrow::Cow;
    #[derive(Debug, Clone, PartialEq)]
    pub struct EscapeError(pub String);
    impl std::fmt::Display for EscapeError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) }
    }
    impl std::error::Error for EscapeError {}
    pub fn escape(raw: &str) -> Cow<str> {
        if !raw.contains(|c| "<>&'\"".contains(c)) {
            return Cow::Borrowed(raw);
        }
        let mut s = String::new();
        for c in raw.chars() {
            match c {
                '<' => s += "&lt;",
                '>' => s += "&gt;",
                '&' => s += "&amp;",
                '\'' => s += "&apos;",
                '"' => s += "&quot;",
                c => s.push(c),
            }
        }
        Cow::Owned(s)
    }
    pub fn partial_escape(raw: &str) -> Cow<str> {
        Cow::Owned(raw.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;"))
    }
    pub fn unescape(raw: &str) -> Result<Cow<str>, EscapeError> {
        if !raw.contains('&') {
            return Ok(Cow::Borrowed(raw));
        }
        let mut s = String::new();
        let mut rest = raw;
        while let Some(i) = rest.find('&') {
            s += &rest[..i];
            rest = &rest[i + 1..];
            let e = rest.find(';').ok_or(EscapeError("unterminated entity".into()))?;
            let name = &rest[..e];
            rest = &rest[e + 1..];
            match name {
                "lt" => s.push('<'),
                "gt" => s.push('>'),
                "amp" => s.push('&'),
                "apos" => s.push('\''),
                "quot" => s.push('"'),
                _ if name.starts_with('#') => {
                    let n = match name[1..].strip_prefix('x') { Some(h) => u32::from_str_radix(h, 16), None => name[1..].parse() };
                    s.push(n.ok().filter(|n| *n > 0).and_then(char::from_u32).ok_or(EscapeError(name.into()))?)
                }
                _ => return Err(EscapeError(name.into())),
            }
        }
        s += rest;
        Ok(Cow::Owned(s))
    }
}
impl From<escape::EscapeError> for Error { fn from(e: escape::EscapeError) -> Self { Error::Escape(e.0) } }

pub mod events {
    use super::escape::{escape, unescape};
    use super::name::{LocalName, QName};
    use std::borrow::Cow;
    pub mod attributes {
        use super::super::escape::{escape, unescape};
        use super::super::name::QName;
        use std::borrow::Cow;
        #[derive(Clone, Debug, PartialEq)]
        pub struct Attribute<'a> {
            pub key: QName<'a>,
            pub value: Cow<'a, [u8]>,
        }
        impl<'a> Attribute<'a> {
            pub fn unescape_value(&self) -> super::super::Result<Cow<'a, str>> {
                let s = std::str::from_utf8(&self.value).map_err(|e| super::super::Error::Escape(e.to_string()))?;
                Ok(Cow::Owned(unescape(s)?.into_owned()))
            }
        }
        impl<'a> From<(&'a str, &'a str)> for Attribute<'a> {
            fn from(v: (&'a str, &'a str)) -> Self { Attribute { key: QName(v.0.as_bytes()), value: Cow::Owned(escape(v.1).as_bytes().to_vec()) } }
        }
        impl<'a> From<(&'a [u8], &'a [u8])> for Attribute<'a> {
            fn from(v: (&'a [u8], &'a [u8])) -> Self { Attribute { key: QName(v.0), value: Cow::Borrowed(v.1) } }
        }
        #[derive(Clone, Debug, PartialEq)]
        pub enum AttrError { ExpectedEq, ExpectedQuote, UnquotedValue, Duplicated }
        impl std::fmt::Display for AttrError {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) }
        }
        impl std::error::Error for AttrError {}
        #[derive(Clone, Debug)]
        pub struct Attributes<'a> { pub(super) rest: &'a [u8], pub(super) seen: Vec<&'a [u8]>, pub(super) checks: bool }
        impl<'a> Attributes<'a> {
            pub fn with_checks(&mut self, v: bool) -> &mut Self { self.checks = v; self }
        }
        impl<'a> Iterator for Attributes<'a> {
            type Item = Result<Attribute<'a>, AttrError>;
            fn next(&mut self) -> Option<Self::Item> {
                let white = |b: &u8| b" \r\n\t".contains(b);
                let start = self.rest.iter().position(|b| !white(b))?;
                let s = &self.rest[start..];
                let end = s.iter().position(|b| white(b) || *b == b'=').unwrap_or(s.len());
                let key = &s[..end];
                let s = &s[end..];
                let s = &s[s.iter().position(|b| !white(b)).unwrap_or(s.len())..];
                if s.first() != Some(&b'=') {
                    self.rest = s;
                    return Some(Err(AttrError::ExpectedEq));
                }
                let s = &s[1..];
                let s = &s[s.iter().position(|b| !white(b)).unwrap_or(s.len())..];
                let q = match s.first() {
                    Some(b @ (b'"' | b'\'')) => *b,
                    Some(_) => {
                        self.rest = &s[s.iter().position(white).unwrap_or(s.len())..];
                        return Some(Err(AttrError::UnquotedValue));
                    }
                    None => {
                        self.rest = s;
                        return Some(Err(AttrError::ExpectedQuote));
                    }
                };
                match s[1..].iter().position(|b| *b == q) {
                    None => {
                        self.rest = &[];
                        Some(Err(AttrError::ExpectedQuote))
                    }
                    Some(n) => {
                        self.rest = &s[n + 2..];
                        if self.checks && self.seen.contains(&key) {
                            return Some(Err(AttrError::Duplicated));
                        }
                        self.seen.push(key);
                        Some(Ok(Attribute { key: QName(key), value: Cow::Borrowed(&s[1..n + 1]) }))
                    }
                }
            }
        }
    }
    use attributes::{Attribute, Attributes};

    #[derive(Clone, Debug, PartialEq)]
    pub struct BytesStart<'a> { pub(crate) buf: Cow<'a, [u8]>, pub(crate) name_len: usize }
    impl<'a> BytesStart<'a> {
        pub fn new<C: Into<Cow<'a, str>>>(name: C) -> Self {
            let b = name.into().into_owned().into_bytes();
            let n = b.len();
            BytesStart { buf: Cow::Owned(b), name_len: n }
        }
        pub(crate) fn read(b: Vec<u8>) -> Self {
            let n = b.iter().position(|b| b" \r\n\t".contains(b)).unwrap_or(b.len());
            BytesStart { buf: Cow::Owned(b), name_len: n }
        }
        pub fn name(&self) -> QName { QName(&self.buf[..self.name_len]) }
        pub fn local_name(&self) -> LocalName { self.name().local_name() }
        pub fn attributes(&self) -> Attributes { Attributes { rest: &self.buf[self.name_len..], seen: vec![], checks: true } }
        pub fn push_attribute<'b, A: Into<Attribute<'b>>>(&mut self, attr: A) {
            let a = attr.into();
            let b = self.buf.to_mut();
            b.push(b' ');
            b.extend_from_slice(a.key.0);
            b.extend_from_slice(b"=\"");
            b.extend_from_slice(&a.value);
            b.push(b'"');
        }
        pub fn extend_attributes<'b, I>(&mut self, attributes: I) -> &mut Self where I: IntoIterator, I::Item: Into<Attribute<'b>> {
            for a in attributes {
                self.push_attribute(a);
            }
            self
        }
        pub fn with_attributes<'b, I>(mut self, attributes: I) -> Self where I: IntoIterator, I::Item: Into<Attribute<'b>> {
            self.extend_attributes(attributes);
            self
        }
        pub fn try_get_attribute<N: AsRef<[u8]> + Sized>(&'a self, name: N) -> super::Result<Option<Attribute<'a>>> {
            for a in self.attributes().with_checks(false) {
                let a = a.map_err(|e| super::Error::Escape(e.to_string()))?;
                if a.key.0 == name.as_ref() {
                    return Ok(Some(a));
                }
            }
            Ok(None)
        }
        pub fn to_owned(&self) -> BytesStart<'static> { BytesStart { buf: Cow::Owned(self.buf.to_vec()), name_len: self.name_len } }
        pub fn into_owned(self) -> BytesStart<'static> { self.to_owned() }
        pub fn to_end(&self) -> BytesEnd { BytesEnd { name: Cow::Borrowed(&self.buf[..self.name_len]) } }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct BytesEnd<'a> { pub(crate) name: Cow<'a, [u8]> }
    impl<'a> BytesEnd<'a> {
        pub fn new<C: Into<Cow<'a, str>>>(name: C) -> Self { BytesEnd { name: Cow::Owned(name.into().into_owned().into_bytes()) } }
        pub fn name(&self) -> QName { QName(&self.name) }
        pub fn local_name(&self) -> LocalName { self.name().local_name() }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub struct BytesText<'a> { pub(crate) content: Cow<'a, [u8]> }
    impl<'a> BytesText<'a> {
        pub fn new(content: &'a str) -> Self { BytesText { content: Cow::Owned(escape(content).as_bytes().to_vec()) } }
        pub fn from_escaped<C: Into<Cow<'a, str>>>(content: C) -> Self { BytesText { content: Cow::Owned(content.into().into_owned().into_bytes()) } }
        pub fn unescape(&self) -> super::Result<Cow<'a, str>> {
            let s = std::str::from_utf8(&self.content).map_err(|e| super::Error::Escape(e.to_string()))?;
            Ok(Cow::Owned(unescape(s)?.into_owned()))
        }
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Event<'a> {
        Start(BytesStart<'a>),
        End(BytesEnd<'a>),
        Empty(BytesStart<'a>),
        Text(BytesText<'a>),
        CData(BytesText<'a>),
        Comment(BytesText<'a>),
        Decl(BytesText<'a>),
        PI(BytesText<'a>),
        DocType(BytesText<'a>),
        Eof,
    }
}
use events::*;

pub struct Reader<R> { reader: R, rest: Option<(Vec<u8>, usize)>, open: Vec<Vec<u8>>, pending: Option<Vec<u8>>, done: bool, trim: bool, expand: bool, check: bool, ends: usize }
impl Reader<BufReader<File>> {
    pub fn from_file<P: AsRef<std::path::Path>>(path: P) -> Result<Self> { Ok(Self::from_reader(BufReader::new(File::open(path)?))) }
}
impl<R: BufRead> Reader<R> {
    pub fn from_reader(reader: R) -> Self { Reader { reader, rest: None, open: vec![], pending: None, done: false, trim: false, expand: false, check: true, ends: 0 } }
    pub fn trim_text(&mut self, v: bool) -> &mut Self { self.trim = v; self }
    pub fn expand_empty_elements(&mut self, v: bool) -> &mut Self { self.expand = v; self }
    pub fn check_end_names(&mut self, v: bool) -> &mut Self { self.check = v; self }
    pub fn read_event_into<'b>(&mut self, _buf: &'b mut Vec<u8>) -> Result<Event<'b>> {
        if self.done {
            self.ends += 1;
            if self.ends > 1000 {
                panic!("reading goes on for ever after the end of the file");
            }
            return Ok(Event::Eof);
        }
        let r = self.step();
        if matches!(r, Err(_) | Ok(Event::Eof)) {
            self.done = true;
        }
        r
    }
    fn close(&mut self, name: Vec<u8>) -> Result<Event<'static>> {
        let open = self.open.pop().unwrap_or_default();
        if self.check && open != name {
            return Err(Error::EndEventMismatch { expected: String::from_utf8_lossy(&open).into(), found: String::from_utf8_lossy(&name).into() });
        }
        Ok(Event::End(BytesEnd { name: name.into() }))
    }
    fn step(&mut self) -> Result<Event<'static>> {
        if let Some(n) = self.pending.take() {
            return self.close(n);
        }
        if self.rest.is_none() {
            let mut v = vec![];
            self.reader.read_to_end(&mut v)?;
            let skip = if v.starts_with(b"\xef\xbb\xbf") { 3 } else { 0 };
            self.rest = Some((v, skip));
        }
        let (all, at) = self.rest.as_mut().unwrap();
        let s = &all[*at..];
        if s.is_empty() {
            return Ok(Event::Eof);
        }
        let find = |s: &[u8], what: &[u8]| s.windows(what.len()).position(|w| w == what);
        let eof = |what: &str| Err(Error::UnexpectedEof(what.into()));
        if s[0] != b'<' {
            let n = s.iter().position(|b| *b == b'<').unwrap_or(s.len());
            let t = s[..n].to_vec();
            *at += n;
            if self.trim && t.iter().all(|b| b" \r\n\t".contains(b)) {
                return self.step();
            }
            return Ok(Event::Text(BytesText { content: t.into() }));
        }
        for (open, close, kind) in [(&b"<!--"[..], &b"-->"[..], 0), (b"<![CDATA[", b"]]>", 1), (b"<?", b"?>", 2), (b"<!", b">", 3)] {
            if s.starts_with(open) {
                let n = match find(&s[open.len()..], close) { Some(n) => n, None => return eof("markup") };
                let t = BytesText { content: s[open.len()..open.len() + n].to_vec().into() };
                *at += open.len() + n + close.len();
                return Ok(match kind { 0 => Event::Comment(t), 1 => Event::CData(t), 2 if t.content.starts_with(b"xml ") => Event::Decl(t), 2 => Event::PI(t), _ => Event::DocType(t) });
            }
        }
        // a tag ends at the first > outside of quotes
        let mut q = 0;
        let mut n = None;
        for (i, b) in s.iter().enumerate().skip(1) {
            match *b {
                b'>' if q == 0 => {
                    n = Some(i);
                    break;
                }
                b'"' | b'\'' if q == 0 => q = *b,
                x if x == q => q = 0,
                _ => {}
            }
        }
        let n = match n { Some(n) => n, None => return eof("Element") };
        let t = s[1..n].to_vec();
        *at += n + 1;
        if t.first() == Some(&b'/') {
            let e = t.iter().rposition(|b| !b" \r\n\t".contains(b)).unwrap();
            return self.close(t[1..e + 1].to_vec());
        }
        if t.last() == Some(&b'/') {
            let e = BytesStart::read(t[..t.len() - 1].to_vec());
            if self.expand {
                self.open.push(e.name().0.to_vec());
                self.pending = Some(e.name().0.to_vec());
                return Ok(Event::Start(e));
            }
            return Ok(Event::Empty(e));
        }
        let e = BytesStart::read(t);
        self.open.push(e.name().0.to_vec());
        Ok(Event::Start(e))
    }
}

pub struct Writer<W: Write> { writer: W, indent: Option<(u8, usize)>, depth: usize, line: bool }
impl<W: Write> Writer<W> {
    pub fn new(inner: W) -> Self { Writer { writer: inner, indent: None, depth: 0, line: false } }
    pub fn new_with_indent(inner: W, c: u8, n: usize) -> Self { Writer { writer: inner, indent: Some((c, n)), depth: 0, line: false } }
    pub fn into_inner(self) -> W { self.writer }
    pub fn get_ref(&self) -> &W { &self.writer }
    pub fn get_mut(&mut self) -> &mut W { &mut self.writer }
    fn wrap(&mut self, before: &[u8], value: &[u8], after: &[u8]) -> Result<()> {
        if let (Some((c, n)), true) = (self.indent, self.line) {
            self.writer.write_all(b"\n")?;
            self.writer.write_all(&vec![c; n * self.depth])?;
        }
        self.plain(before, value, after)
    }
    fn plain(&mut self, before: &[u8], value: &[u8], after: &[u8]) -> Result<()> {
        self.writer.write_all(before)?;
        self.writer.write_all(value)?;
        self.writer.write_all(after)?;
        Ok(())
    }
    pub fn write_event<'a, E: AsRef<Event<'a>>>(&mut self, event: E) -> Result<()> {
        let mut next = true;
        let r = match event.as_ref() {
            Event::Start(e) => {
                let r = self.wrap(b"<", &e.buf, b">");
                self.depth += 1;
                r
            }
            Event::End(e) => {
                self.depth = self.depth.saturating_sub(1);
                self.wrap(b"</", &e.name, b">")
            }
            Event::Empty(e) => self.wrap(b"<", &e.buf, b"/>"),
            Event::Text(e) => {
                next = false;
                self.plain(b"", &e.content, b"")
            }
            Event::Comment(e) => self.wrap(b"<!--", &e.content, b"-->"),
            Event::CData(e) => {
                next = false;
                self.plain(b"<![CDATA[", &e.content, b"]]>")
            }
            Event::Decl(e) | Event::PI(e) => self.wrap(b"<?", &e.content, b"?>"),
            Event::DocType(e) => self.wrap(b"<!DOCTYPE ", &e.content, b">"),
            Event::Eof => Ok(()),
        };
        self.line = next;
        r
    }
}
impl<'a> AsRef<Event<'a>> for Event<'a> { fn as_ref(&self) -> &Event<'a> { self } }
