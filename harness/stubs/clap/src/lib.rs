//! A small stand-in for clap: it takes the command line from the harness.

pub static mut LINE: Vec<String> = Vec::new();

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ArgAction {
    Set,
    Append,
    SetTrue,
    SetFalse,
    Count,
    Help,
    Version,
}
#[derive(Clone)]
pub struct Arg {
    id: String,
    short: Option<char>,
    long: Option<String>,
    action: Option<ArgAction>,
    value: bool,
    index: Option<usize>,
    default: Option<String>,
    required: bool,
}
pub trait Text {
    fn text(self) -> String;
}
impl Text for &str {
    fn text(self) -> String {
        self.to_string()
    }
}
impl Text for String {
    fn text(self) -> String {
        self
    }
}
impl Arg {
    pub fn new(id: impl Text) -> Self {
        Arg { id: id.text(), short: None, long: None, action: None, value: false, index: None, default: None, required: false }
    }
    pub fn id(mut self, id: impl Text) -> Self {
        self.id = id.text();
        self
    }
    pub fn short(mut self, c: char) -> Self {
        self.short = Some(c);
        self
    }
    pub fn long(mut self, c: impl Text) -> Self {
        self.long = Some(c.text());
        self
    }
    pub fn help(self, _: impl Text) -> Self {
        self
    }
    pub fn long_help(self, _: impl Text) -> Self {
        self
    }
    pub fn action(mut self, a: ArgAction) -> Self {
        self.action = Some(a);
        self
    }
    pub fn value_name(mut self, _: impl Text) -> Self {
        self.value = true;
        self
    }
    pub fn num_args(mut self, n: usize) -> Self {
        self.value = n > 0;
        self
    }
    pub fn default_value(mut self, v: impl Text) -> Self {
        self.default = Some(v.text());
        self
    }
    pub fn required(mut self, r: bool) -> Self {
        self.required = r;
        self
    }
    pub fn index(mut self, i: usize) -> Self {
        self.index = Some(i);
        self
    }
    fn positional(&self) -> bool {
        self.short.is_none() && self.long.is_none()
    }
    fn is_flag(&self) -> bool {
        matches!(self.action, Some(ArgAction::SetTrue) | Some(ArgAction::SetFalse) | Some(ArgAction::Count))
    }
}
#[derive(Clone)]
pub struct Command {
    args: Vec<Arg>,
}
impl Command {
    pub fn new(_: impl Text) -> Self {
        Command { args: vec![] }
    }
    pub fn version(self, _: impl Text) -> Self {
        self
    }
    pub fn author(self, _: impl Text) -> Self {
        self
    }
    pub fn about(self, _: impl Text) -> Self {
        self
    }
    pub fn arg(mut self, a: Arg) -> Self {
        self.args.push(a);
        self
    }
    pub fn args(mut self, l: impl IntoIterator<Item = Arg>) -> Self {
        self.args.extend(l);
        self
    }
    #[allow(static_mut_refs)]
    pub fn get_matches(self) -> ArgMatches {
        self.get_matches_from(unsafe { LINE.clone() })
    }
    pub fn get_matches_from<T: Text>(self, line: impl IntoIterator<Item = T>) -> ArgMatches {
        let mut m = ArgMatches { flags: Map(vec![]), values: Map(vec![]) };
        for a in &self.args {
            match a.action {
                Some(ArgAction::SetTrue) | Some(ArgAction::Count) => {
                    m.flags.insert(a.id.clone(), 0);
                }
                Some(ArgAction::SetFalse) => {
                    m.flags.insert(a.id.clone(), 1);
                }
                _ => {
                    if let Some(d) = &a.default {
                        m.values.insert(a.id.clone(), d.clone());
                    }
                }
            }
        }
        let mut free: Vec<&Arg> = self.args.iter().filter(|a| a.positional()).collect();
        free.sort_by_key(|a| a.index.unwrap_or(usize::MAX));
        let mut at = 0;
        let line: Vec<String> = line.into_iter().map(|x| x.text()).collect();
        let mut i = 1;
        while i < line.len() {
            let w = &line[i];
            i += 1;
            let arg = if let Some(l) = w.strip_prefix("--") {
                self.args.iter().find(|a| a.long.as_deref() == Some(l))
            } else if w.len() == 2 && w.starts_with('-') {
                self.args.iter().find(|a| a.short == w.chars().nth(1))
            } else {
                let a = free.get(at).expect("unexpected argument");
                at += 1;
                m.values.insert(a.id.clone(), w.clone());
                continue;
            };
            let a = arg.expect("unknown option");
            if a.is_flag() {
                match a.action {
                    Some(ArgAction::SetFalse) => m.flags.insert(a.id.clone(), 0),
                    _ => m.flags.insert(a.id.clone(), *m.flags.get(&a.id).unwrap() + 1),
                };
            } else {
                m.values.insert(a.id.clone(), line.get(i).expect("missing value").clone());
                i += 1;
            }
        }
        for a in &self.args {
            assert!(!a.required || m.values.contains_key(&a.id), "missing argument");
        }
        m
    }
}
struct Map<T>(Vec<(String, T)>);
impl<T> Map<T> {
    fn insert(&mut self, k: String, v: T) {
        self.0.retain(|x| x.0 != k);
        self.0.push((k, v));
    }
    fn get(&self, k: &str) -> Option<&T> {
        self.0.iter().find(|x| x.0 == k).map(|x| &x.1)
    }
    fn contains_key(&self, k: &str) -> bool {
        self.get(k).is_some()
    }
}
pub struct ArgMatches {
    flags: Map<u8>,
    values: Map<String>,
}
impl ArgMatches {
    pub fn get_flag(&self, id: &str) -> bool {
        *self.flags.get(id).expect("no such flag") > 0
    }
    pub fn get_count(&self, id: &str) -> u8 {
        *self.flags.get(id).expect("no such flag")
    }
    pub fn contains_id(&self, id: &str) -> bool {
        self.values.contains_key(id)
    }
    pub fn get_one<T: Value>(&self, id: &str) -> Option<&T> {
        self.values.get(id).map(|x| T::of(x))
    }
    pub fn remove_one<T: Value + Clone>(&mut self, id: &str) -> Option<T> {
        self.get_one::<T>(id).cloned()
    }
    pub fn get_many<T: Value>(&self, id: &str) -> Option<std::option::IntoIter<&T>> {
        self.values.get(id).map(|x| Some(T::of(x)).into_iter())
    }
}
pub trait Value {
    fn of(s: &String) -> &Self;
}
impl Value for String {
    fn of(s: &String) -> &String {
        s
    }
}
