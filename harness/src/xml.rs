//! A strict reader of the XML that drawings are made of, used as the oracle of the SVG output.

#[derive(Debug, Default, Clone)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub text: String, // all character data directly inside
    pub kids: Vec<Elem>,
}
impl Elem {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|x| x.0 == k).map(|x| x.1.as_str())
    }
}
pub fn allowed(c: char) -> bool {
    !((c < ' ' && c != '\t' && c != '\n' && c != '\r') || c == '\u{fffe}' || c == '\u{ffff}')
}
fn space(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r'
}
fn name_start(c: char) -> bool {
    (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || c == ':' || c > '\u{7f}'
}
fn name_char(c: char) -> bool {
    name_start(c) || (c >= '0' && c <= '9') || c == '-' || c == '.'
}
struct P<'a> {
    s: &'a [char],
    i: usize,
}
type R<T> = Result<T, &'static str>;
impl<'a> P<'a> {
    fn at(&self, k: usize) -> char {
        if self.i + k < self.s.len() {
            self.s[self.i + k]
        } else {
            '\0'
        }
    }
    fn eof(&self) -> bool {
        self.i >= self.s.len()
    }
    fn is(&self, t: &str) -> bool {
        t.chars().enumerate().all(|(k, c)| self.at(k) == c)
    }
    fn skip(&mut self) -> bool {
        let a = self.i;
        while !self.eof() && space(self.at(0)) {
            self.i += 1;
        }
        self.i > a
    }
    fn name(&mut self) -> R<String> {
        if !name_start(self.at(0)) {
            return Err("a name is missing");
        }
        let mut s = String::new();
        while !self.eof() && name_char(self.at(0)) {
            s.push(self.at(0));
            self.i += 1;
        }
        Ok(s)
    }
    /// One character of text, or a reference.
    fn char(&mut self) -> R<char> {
        let c = self.at(0);
        if c == '<' {
            return Err("< in text");
        }
        if !allowed(c) {
            return Err("a character that XML does not allow");
        }
        self.i += 1;
        if c != '&' {
            return Ok(c);
        }
        let mut n = String::new();
        while !self.eof() && self.at(0) != ';' {
            n.push(self.at(0));
            self.i += 1;
            if n.len() > 10 {
                return Err("a broken reference");
            }
        }
        if self.eof() {
            return Err("a broken reference");
        }
        self.i += 1;
        let num = |s: &str, r: u32| u32::from_str_radix(s, r).ok().and_then(char::from_u32).filter(|c| allowed(*c)).ok_or("a broken reference");
        match n.as_str() {
            "amp" => Ok('&'),
            "lt" => Ok('<'),
            "gt" => Ok('>'),
            "quot" => Ok('"'),
            "apos" => Ok('\''),
            _ => {
                if let Some(h) = n.strip_prefix("#x") {
                    num(h, 16)
                } else if let Some(d) = n.strip_prefix('#') {
                    num(d, 10)
                } else {
                    Err("an unknown reference")
                }
            }
        }
    }
    fn attrs(&mut self) -> R<Vec<(String, String)>> {
        let mut l: Vec<(String, String)> = vec![];
        loop {
            let sp = self.skip();
            if !name_start(self.at(0)) {
                return Ok(l);
            }
            if !sp {
                return Err("no space before an attribute");
            }
            let n = self.name()?;
            self.skip();
            if self.at(0) != '=' {
                return Err("an attribute without a value");
            }
            self.i += 1;
            self.skip();
            let q = self.at(0);
            if q != '"' && q != '\'' {
                return Err("a value without quotes");
            }
            self.i += 1;
            let mut v = String::new();
            while self.at(0) != q {
                if self.eof() {
                    return Err("a value without an end");
                }
                v.push(self.char()?);
            }
            self.i += 1;
            if l.iter().any(|x| x.0 == n) {
                return Err("an attribute is given twice");
            }
            l.push((n, v));
        }
    }
    fn comment(&mut self) -> R<bool> {
        if !self.is("<!--") {
            return Ok(false);
        }
        self.i += 4;
        while !self.is("--") {
            if self.eof() || !allowed(self.at(0)) {
                return Err("a broken comment");
            }
            self.i += 1;
        }
        if !self.is("-->") {
            return Err("a broken comment");
        }
        self.i += 3;
        Ok(true)
    }
    fn elem(&mut self) -> R<Elem> {
        if self.at(0) != '<' {
            return Err("no element");
        }
        self.i += 1;
        let mut e = Elem { name: self.name()?, ..Default::default() };
        e.attrs = self.attrs()?;
        if self.is("/>") {
            self.i += 2;
            return Ok(e);
        }
        if self.at(0) != '>' {
            return Err("a broken tag");
        }
        self.i += 1;
        loop {
            if self.eof() {
                return Err("an element without an end");
            }
            if self.is("</") {
                self.i += 2;
                if self.name()? != e.name {
                    return Err("the end of another element");
                }
                self.skip();
                if self.at(0) != '>' {
                    return Err("a broken tag");
                }
                self.i += 1;
                return Ok(e);
            }
            if self.comment()? {
                continue;
            }
            if self.at(0) == '<' {
                e.kids.push(self.elem()?);
                continue;
            }
            if self.is("]]>") {
                return Err("]]> in text");
            }
            e.text.push(self.char()?);
        }
    }
}
/// The root element of a document.
pub fn document(s: &str) -> R<Elem> {
    let v: Vec<char> = s.chars().collect();
    let mut p = P { s: &v, i: 0 };
    if p.is("<?xml") {
        p.i += 5;
        let l = p.attrs()?;
        if l.is_empty() || l[0].0 != "version" || !p.is("?>") {
            return Err("a broken prolog");
        }
        p.i += 2;
    }
    loop {
        p.skip();
        if !p.comment()? {
            break;
        }
    }
    let e = p.elem()?;
    loop {
        p.skip();
        if !p.comment()? {
            break;
        }
    }
    if !p.eof() {
        return Err("something after the root element");
    }
    Ok(e)
}
