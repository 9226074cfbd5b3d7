//! Reference reader of certification expressions, written from the documented grammar.
use crate::spec::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Meaning {
    Is(Cel),
    /// certainly not an expression of the documented form
    Invalid(&'static str),
    /// the documentation does not settle what it means
    Open(&'static str),
}
/// The structure of a text.
#[derive(Debug, Clone)]
pub enum N {
    Str(String),
    Arr(Vec<N>),
    Obj(String, Vec<(String, N)>),
    Fun(String, Vec<N>),
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
    open: Option<&'static str>,
    depth: usize,
}
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && b" \t\r\n".contains(&self.s[self.i]) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: u8) -> bool {
        self.ws();
        if self.s.get(self.i) == Some(&c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn ident(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_') {
            self.i += 1;
        }
        if self.s.get(self.i).map(|b| *b >= 0x80).unwrap_or(false) {
            self.open = Some("identifier outside ASCII");
        }
        String::from_utf8(self.s[a..self.i].to_vec()).unwrap()
    }
    fn list<X>(&mut self, close: u8, f: &mut dyn FnMut(&mut Self) -> Option<X>) -> Option<Vec<X>> {
        let mut v = vec![];
        if self.eat(close) {
            return Some(v);
        }
        loop {
            v.push(f(self)?);
            if self.eat(b',') {
                continue;
            }
            return if self.eat(close) { Some(v) } else { None };
        }
    }
    fn value(&mut self) -> Option<N> {
        self.depth += 1;
        if self.depth > 12 {
            self.open = Some("very deep nesting");
        }
        if self.depth > 500 {
            return None;
        }
        let r = self.value1();
        self.depth -= 1;
        r
    }
    fn value1(&mut self) -> Option<N> {
        self.ws();
        if self.eat(b'"') {
            let a = self.i;
            while *self.s.get(self.i)? != b'"' {
                if self.s[self.i] == b'\\' {
                    self.open = Some("escape sequence");
                    self.i += 1;
                }
                self.i += 1;
            }
            let t = String::from_utf8_lossy(&self.s[a..self.i]).into_owned();
            self.i += 1;
            return Some(N::Str(t));
        }
        if self.eat(b'[') {
            return Some(N::Arr(self.list(b']', &mut |p| p.value())?));
        }
        let id = self.ident();
        if self.eat(b'{') {
            return Some(N::Obj(
                id,
                self.list(b'}', &mut |p| {
                    let k = p.ident();
                    if k.is_empty() {
                        p.open = Some("nameless field");
                    }
                    if !p.eat(b':') {
                        return None;
                    }
                    Some((k, p.value()?))
                })?,
            ));
        }
        if self.eat(b'(') {
            return Some(N::Fun(id, self.list(b')', &mut |p| p.value())?));
        }
        None
    }
}

struct R {
    open: Option<&'static str>,
}
impl R {
    fn fields<'n>(&mut self, n: &'n N, name: &str, known: &[&str]) -> Result<Vec<(&'n str, &'n N)>, &'static str> {
        let N::Obj(id, fs) = n else { return Err("not an object") };
        if id != name {
            return Err("object of another name");
        }
        for (i, f) in fs.iter().enumerate() {
            if fs[..i].iter().any(|g| g.0 == f.0) {
                self.open = Some("duplicate field");
            }
            if !known.contains(&f.0.as_str()) {
                self.open = Some("unknown field");
            }
        }
        Ok(fs.iter().map(|f| (f.0.as_str(), &f.1)).collect())
    }
    fn empty(&mut self, n: &N) {
        if !matches!(n, N::Obj(id, fs) if id == "Empty" && fs.is_empty()) {
            self.open = Some("not the empty object");
        }
    }
    fn strings(&mut self, n: &N) -> Result<Vec<String>, &'static str> {
        let N::Arr(v) = n else { return Err("not an array") };
        v.iter().map(|x| if let N::Str(s) = x { Ok(s.clone()) } else { Err("not a string") }).collect()
    }
    fn root(&mut self, n: &N) -> Result<Cel, &'static str> {
        let N::Fun(id, args) = n else { return Err("not a function") };
        if id != "default_certification" {
            return Err("another function");
        }
        if args.is_empty() {
            return Err("no argument");
        }
        if args.len() > 1 {
            self.open = Some("extra arguments");
        }
        let get = |fs: &[(&str, &N)], k: &str| -> Option<N> { fs.iter().rev().find(|f| f.0 == k).map(|f| f.1.clone()) };
        let fs = self.fields(&args[0], "ValidationArgs", &["no_certification", "certification"])?;
        let c = match (get(&fs, "no_certification"), get(&fs, "certification")) {
            (Some(_), Some(_)) => return Err("contradictory arguments"),
            (None, None) => return Err("missing arguments"),
            (Some(e), None) => {
                self.empty(&e);
                return Ok(Cel::Skip);
            }
            (None, Some(c)) => c,
        };
        let fs = self.fields(&c, "Certification", &["no_request_certification", "request_certification", "response_certification"])?;
        let req = match (get(&fs, "no_request_certification"), get(&fs, "request_certification")) {
            (Some(_), Some(_)) => return Err("contradictory request certification"),
            (None, None) => return Err("missing request certification"),
            (Some(e), None) => {
                self.empty(&e);
                None
            }
            (None, Some(q)) => {
                let fs = self.fields(&q, "RequestCertification", &["certified_request_headers", "certified_query_parameters"])?;
                let (Some(h), Some(p)) = (get(&fs, "certified_request_headers"), get(&fs, "certified_query_parameters")) else { return Err("missing request lists") };
                Some((self.strings(&h)?, self.strings(&p)?))
            }
        };
        let Some(p) = get(&fs, "response_certification") else { return Err("missing response certification") };
        let fs = self.fields(&p, "ResponseCertification", &["certified_response_headers", "response_header_exclusions"])?;
        let mut lists = vec![];
        for k in ["certified_response_headers", "response_header_exclusions"] {
            lists.push(match get(&fs, k) {
                None => None,
                Some(l) => {
                    let fs = self.fields(&l, "ResponseHeaderList", &["headers"])?;
                    match get(&fs, "headers") {
                        None => {
                            self.open = Some("header list without headers");
                            None
                        }
                        Some(h) => Some(self.strings(&h)?),
                    }
                }
            });
        }
        let ex = lists.pop().unwrap();
        let rule = match (lists.pop().unwrap(), ex) {
            (Some(_), Some(_)) => return Err("contradictory response certification"),
            (None, None) => return Err("missing response lists"),
            (Some(h), None) => RespRule::Include(h),
            (None, Some(h)) => RespRule::Exclude(h),
        };
        Ok(match req {
            None => Cel::RespOnly(rule),
            Some((headers, query)) => Cel::Full { headers, query, resp: rule },
        })
    }
}

pub fn structure(text: &str) -> Option<N> {
    P { s: text.as_bytes(), i: 0, open: None, depth: 0 }.value()
}
impl N {
    pub fn text(&self) -> String {
        let all = |v: &[N]| v.iter().map(|x| x.text()).collect::<Vec<_>>().join(",");
        match self {
            N::Str(s) => format!("\"{s}\""),
            N::Arr(v) => format!("[{}]", all(v)),
            N::Obj(n, fs) => format!("{n}{{{}}}", fs.iter().map(|f| format!("{}:{}", f.0, f.1.text())).collect::<Vec<_>>().join(",")),
            N::Fun(n, v) => format!("{n}({})", all(v)),
        }
    }
    pub fn size(&self) -> usize {
        1 + match self {
            N::Str(_) => 0,
            N::Arr(v) | N::Fun(_, v) => v.iter().map(|x| x.size()).sum(),
            N::Obj(_, fs) => fs.iter().map(|f| f.1.size()).sum(),
        }
    }
    /// the node with this number, outermost first
    pub fn nth(&mut self, k: usize) -> &mut N {
        if k == 0 {
            return self;
        }
        let mut k = k - 1;
        let below: Vec<&mut N> = match self {
            N::Str(_) => vec![],
            N::Arr(v) | N::Fun(_, v) => v.iter_mut().collect(),
            N::Obj(_, fs) => fs.iter_mut().map(|f| &mut f.1).collect(),
        };
        for x in below {
            let n = x.size();
            if k < n {
                return x.nth(k);
            }
            k -= n;
        }
        unreachable!()
    }
    /// every list of strings in it
    pub fn lists(&self, out: &mut Vec<Vec<String>>) {
        match self {
            N::Str(_) => {}
            N::Arr(v) => {
                out.push(v.iter().filter_map(|x| if let N::Str(s) = x { Some(s.clone()) } else { None }).collect());
                v.iter().for_each(|x| x.lists(out));
            }
            N::Fun(_, v) => v.iter().for_each(|x| x.lists(out)),
            N::Obj(_, fs) => fs.iter().for_each(|f| f.1.lists(out)),
        }
    }
}

pub fn meaning(text: &str) -> Meaning {
    let mut p = P { s: text.as_bytes(), i: 0, open: None, depth: 0 };
    let v = p.value();
    let mut open = p.open;
    let Some(v) = v else {
        return match open {
            Some(o) => Meaning::Open(o),
            None => Meaning::Invalid("syntax"),
        };
    };
    p.ws();
    if p.i < text.len() {
        open = Some("text after the expression");
    }
    let mut r = R { open: None };
    match r.root(&v) {
        Err(e) => match (open, r.open) {
            // contradictions stay wrong whatever else is unsettled; so do wrong shapes,
            // unless a duplicate or an escape makes the shape itself unsettled
            (Some(o), _) if o != "text after the expression" => Meaning::Open(o),
            (_, Some(o)) => Meaning::Open(o),
            _ => Meaning::Invalid(e),
        },
        Ok(c) => match open.or(r.open) {
            Some(o) => Meaning::Open(o),
            None => Meaning::Is(c),
        },
    }
}
