//! An independent reader of the supported DOT subset, used as the oracle for the parser.
use layout::gv::parser::ast;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Graph,
    Node,
    Edge,
    Digraph,
    Strict,
    Subgraph,
    Eq,
    Colon,
    Comma,
    Semi,
    Arrow,
    Line,
    LB,
    RB,
    LC,
    RC,
    End,
}

/// Why there is no tree: the text is wrong, or the text is one the property does not speak of.
#[derive(Debug, PartialEq)]
pub enum No {
    Wrong,
    Unspecified,
}

pub type Attrs = Vec<(String, String)>;
#[derive(Clone, Debug)]
pub struct Id {
    pub name: String,
    pub port: Option<String>,
}
#[derive(Clone, Debug)]
pub enum St {
    Node(Id, Attrs),
    Edge(Id, Vec<(bool, Id)>, Attrs),
    Attr(u8, Attrs), // 0 graph, 1 node, 2 edge
    Sub(Option<String>, Vec<St>),
}

fn ws(c: char) -> bool {
    c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{c}'
}
fn digit(c: char) -> bool {
    c >= '0' && c <= '9'
}
fn letter(c: char) -> bool {
    (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'
}

/// The tokens of an ASCII text.
pub fn tokens(s: &[char]) -> Result<Vec<Tok>, No> {
    let mut out = vec![];
    let n = s.len();
    let at = |i: usize| if i < n { s[i] } else { '\0' };
    let mut i = 0;
    while i < n {
        let c = s[i];
        if ws(c) {
            i += 1;
        } else if c == '/' && at(i + 1) == '*' {
            i += 2;
            while !(at(i) == '*' && at(i + 1) == '/') {
                if i >= n {
                    return Err(No::Wrong);
                }
                i += 1;
            }
            i += 2;
        } else if c == '/' && at(i + 1) == '/' {
            while i < n && s[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                if i >= n {
                    return Err(No::Wrong);
                }
                if s[i] == '"' {
                    break;
                }
                if s[i] == '\\' {
                    i += 1;
                    if i >= n {
                        return Err(No::Wrong);
                    }
                    t.push(if s[i] == 'n' || s[i] == 'l' { '\n' } else { s[i] });
                } else {
                    t.push(s[i]);
                }
                i += 1;
            }
            i += 1;
            out.push(Tok::Id(t));
        } else if letter(c) {
            let mut t = String::new();
            while letter(at(i)) || digit(at(i)) {
                t.push(s[i]);
                i += 1;
            }
            out.push(word(t));
        } else if digit(c) || (c == '-' && digit(at(i + 1))) {
            let mut t = String::new();
            t.push(c);
            i += 1;
            let mut dot = false;
            while digit(at(i)) || (at(i) == '.' && !dot) {
                dot |= at(i) == '.';
                t.push(s[i]);
                i += 1;
            }
            out.push(Tok::Id(t));
        } else if c == '-' {
            match at(i + 1) {
                '>' => out.push(Tok::Arrow),
                '-' => out.push(Tok::Line),
                _ => return Err(No::Wrong),
            }
            i += 2;
        } else {
            out.push(match c {
                '=' => Tok::Eq,
                ':' => Tok::Colon,
                ',' => Tok::Comma,
                ';' => Tok::Semi,
                '[' => Tok::LB,
                ']' => Tok::RB,
                '{' => Tok::LC,
                '}' => Tok::RC,
                _ => return Err(No::Wrong),
            });
            i += 1;
        }
    }
    Ok(out)
}
fn word(t: String) -> Tok {
    match t.as_str() {
        "graph" => Tok::Graph,
        "node" => Tok::Node,
        "edge" => Tok::Edge,
        "digraph" => Tok::Digraph,
        "strict" => Tok::Strict,
        "subgraph" => Tok::Subgraph,
        _ => Tok::Id(t),
    }
}

pub trait Source {
    fn next(&mut self) -> Tok;
}
impl Source for std::vec::IntoIter<Tok> {
    fn next(&mut self) -> Tok {
        Iterator::next(self).unwrap_or(Tok::End)
    }
}

pub struct Reader<'a> {
    src: &'a mut dyn Source,
    pub cur: Tok,
}

impl<'a> Reader<'a> {
    pub fn new(src: &'a mut dyn Source) -> Reader<'a> {
        let cur = src.next();
        Reader { src, cur }
    }
    fn bump(&mut self) -> Tok {
        // a repeated separator is neither clearly right nor clearly wrong
        let n = self.src.next();
        std::mem::replace(&mut self.cur, n)
    }
    fn id(&mut self) -> Result<String, No> {
        if let Tok::Id(s) = self.cur.clone() {
            self.bump();
            return Ok(s);
        }
        Err(No::Wrong)
    }
    fn need(&mut self, t: Tok) -> Result<(), No> {
        if self.cur == t {
            self.bump();
            return Ok(());
        }
        Err(No::Wrong)
    }
    pub fn document(&mut self) -> Result<(Option<String>, Vec<St>), No> {
        if self.cur == Tok::Strict {
            self.bump();
        }
        if self.cur == Tok::Subgraph {
            return Err(No::Unspecified);
        }
        if self.cur != Tok::Graph && self.cur != Tok::Digraph {
            return Err(No::Wrong);
        }
        self.bump();
        let mut name = None;
        if let Tok::Id(_) = self.cur {
            name = Some(self.id()?);
        }
        self.need(Tok::LC)?;
        let l = self.stmts()?;
        if self.cur != Tok::End {
            return Err(No::Wrong);
        }
        Ok((name, l))
    }
    fn stmts(&mut self) -> Result<Vec<St>, No> {
        let mut l = vec![];
        loop {
            if self.cur == Tok::Semi {
                return Err(No::Unspecified); // an empty statement
            }
            if self.cur == Tok::RC {
                self.bump();
                return Ok(l);
            }
            l.push(self.stmt()?);
            if self.cur == Tok::Semi {
                self.bump();
            }
        }
    }
    fn node_id(&mut self) -> Result<Id, No> {
        let name = self.id()?;
        let mut port = None;
        if self.cur == Tok::Colon {
            self.bump();
            port = Some(self.id()?);
            if self.cur == Tok::Colon {
                return Err(No::Unspecified); // compass points
            }
        }
        Ok(Id { name, port })
    }
    fn stmt(&mut self) -> Result<St, No> {
        match self.cur.clone() {
            Tok::Id(_) => {
                let a = self.node_id()?;
                match self.cur {
                    Tok::Arrow | Tok::Line => {
                        let mut to = vec![];
                        while self.cur == Tok::Arrow || self.cur == Tok::Line {
                            let directed = self.bump() == Tok::Arrow;
                            if self.cur == Tok::LC || self.cur == Tok::Subgraph {
                                return Err(No::Unspecified); // edges to subgraphs are not supported
                            }
                            to.push((directed, self.node_id()?));
                        }
                        let at = if self.cur == Tok::LB { self.attrs()? } else { vec![] };
                        Ok(St::Edge(a, to, at))
                    }
                    Tok::Eq => {
                        if a.port.is_some() {
                            return Err(No::Wrong);
                        }
                        self.bump();
                        let v = self.id()?;
                        Ok(St::Attr(0, vec![(a.name, v)]))
                    }
                    Tok::LB => {
                        let at = self.attrs()?;
                        Ok(St::Node(a, at))
                    }
                    _ => Ok(St::Node(a, vec![])),
                }
            }
            Tok::Subgraph => {
                self.bump();
                let mut name = None;
                if let Tok::Id(_) = self.cur {
                    name = Some(self.id()?);
                }
                self.need(Tok::LC)?;
                let l = self.stmts()?;
                self.no_edge()?;
                Ok(St::Sub(name, l))
            }
            Tok::LC => {
                self.bump();
                let l = self.stmts()?;
                self.no_edge()?;
                Ok(St::Sub(None, l))
            }
            Tok::Graph | Tok::Node | Tok::Edge => {
                let k = match self.bump() {
                    Tok::Graph => 0,
                    Tok::Node => 1,
                    _ => 2,
                };
                let at = self.attrs()?;
                Ok(St::Attr(k, at))
            }
            _ => Err(No::Wrong),
        }
    }
    fn no_edge(&mut self) -> Result<(), No> {
        if self.cur == Tok::Arrow || self.cur == Tok::Line {
            return Err(No::Unspecified);
        }
        Ok(())
    }
    fn attrs(&mut self) -> Result<Attrs, No> {
        self.need(Tok::LB)?;
        let mut l = vec![];
        while self.cur != Tok::RB {
            let k = self.id()?;
            if self.cur != Tok::Eq {
                return match self.cur {
                    Tok::RB | Tok::Comma | Tok::Semi | Tok::Id(_) => Err(No::Unspecified), // no value
                    _ => Err(No::Wrong),
                };
            }
            self.bump();
            let v = self.id()?;
            l.push((k, v));
            if self.cur == Tok::Semi || self.cur == Tok::Comma {
                self.bump();
                if self.cur == Tok::Semi || self.cur == Tok::Comma {
                    return Err(No::Unspecified);
                }
            }
        }
        self.bump();
        if self.cur == Tok::LB {
            return Err(No::Unspecified); // several lists
        }
        Ok(l)
    }
}

pub fn read(text: &str) -> Result<(Option<String>, Vec<St>), No> {
    let cs: Vec<char> = text.chars().collect();
    let mut src = tokens(&cs)?.into_iter();
    let mut r = Reader::new(&mut src);
    r.document()
}

// ---- comparing with the parser's tree

fn same_id(a: &Id, b: &ast::NodeId) -> bool {
    a.name == b.name && a.port == b.port
}
fn same_attrs(a: &Attrs, b: &ast::AttributeList) -> bool {
    a.len() == b.list.len() && (0..a.len()).all(|i| a[i].0 == b.list[i].0 && a[i].1 == b.list[i].1)
}
fn same_stmt(a: &St, b: &ast::Stmt) -> bool {
    match (a, b) {
        (St::Node(i, l), ast::Stmt::Node(n)) => same_id(i, &n.id) && same_attrs(l, &n.list),
        (St::Edge(i, to, l), ast::Stmt::Edge(e)) => {
            same_id(i, &e.from)
                && to.len() == e.to.len()
                && (0..to.len()).all(|k| to[k].0 == matches!(e.to[k].1, ast::ArrowKind::Arrow) && same_id(&to[k].1, &e.to[k].0))
                && same_attrs(l, &e.list)
        }
        (St::Attr(k, l), ast::Stmt::Attribute(t)) => {
            let kb = match t.target {
                ast::AttrStmtTarget::Graph => 0,
                ast::AttrStmtTarget::Node => 1,
                ast::AttrStmtTarget::Edge => 2,
            };
            *k == kb && same_attrs(l, &t.list)
        }
        (St::Sub(n, l), ast::Stmt::SubGraph(g)) => same_graph(n, l, g),
        _ => false,
    }
}
pub fn same_graph(name: &Option<String>, l: &[St], g: &ast::Graph) -> bool {
    if let Some(n) = name {
        if *n != g.name {
            return false;
        }
    }
    l.len() == g.list.list.len() && (0..l.len()).all(|i| same_stmt(&l[i], &g.list.list[i]))
}
