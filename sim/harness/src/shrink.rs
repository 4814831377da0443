//! Minimises a failing scenario: fewer steps, fewer faults, smaller numbers, same violation class.
use crate::child::{run_isolated, End};
use crate::rep::Rep;
use serde_json::Value as J;
use std::time::{Duration, Instant};

pub struct Shrinker<'a> {
    prop: &'a str,
    class: String,
    best: J,
    rep: Rep,
    tries: u64,
    max: u64,
    end: Instant,
}

fn paths(j: &J, at: String, out: &mut Vec<(String, bool)>) {
    match j {
        J::Array(v) => {
            out.push((at.clone(), true));
            for (i, x) in v.iter().enumerate() {
                paths(x, format!("{at}/{i}"), out);
            }
        }
        J::Object(m) => {
            for (k, x) in m {
                paths(x, format!("{at}/{k}"), out);
            }
            out.push((at, false));
        }
        _ => out.push((at, false)),
    }
}

impl<'a> Shrinker<'a> {
    pub fn new(prop: &'a str, scn: J, rep: Rep, secs: u64) -> Self {
        let class = rep.viol.as_ref().unwrap().class.clone();
        Shrinker { prop, class, best: scn, rep, tries: 0, max: 6000, end: Instant::now() + Duration::from_secs(secs) }
    }
    fn spent(&self) -> bool {
        self.tries >= self.max || Instant::now() > self.end
    }
    fn try_it(&mut self, c: J) -> bool {
        if c == self.best || self.spent() {
            return false;
        }
        self.tries += 1;
        if let End::Report(r) = run_isolated(self.prop, &c) {
            if r.viol.as_ref().is_some_and(|v| v.class == self.class) {
                self.best = c;
                self.rep = r;
                return true;
            }
        }
        false
    }
    fn edit(&mut self, path: &str, f: impl Fn(&mut J)) -> bool {
        let mut c = self.best.clone();
        match c.pointer_mut(path) {
            Some(x) => f(x),
            None => return false,
        }
        self.try_it(c)
    }
    fn len(&self, path: &str) -> usize {
        self.best.pointer(path).and_then(|x| x.as_array()).map_or(0, |a| a.len())
    }
    fn cut(&mut self, path: &str) -> bool {
        let mut any = false;
        let mut chunk = self.len(path);
        while chunk > 0 && !self.spent() {
            let mut at = self.len(path);
            while at > 0 {
                let lo = at.saturating_sub(chunk);
                if self.edit(path, |x| {
                    x.as_array_mut().unwrap().drain(lo..at);
                }) {
                    any = true;
                }
                at = lo;
            }
            chunk /= 2;
        }
        any
    }
    pub fn run(mut self) -> (J, Rep, u64) {
        loop {
            let mut any = false;
            if self.best.get("steps").is_some() {
                any |= self.cut("/steps");
            }
            let mut ps = vec![];
            paths(&self.best, String::new(), &mut ps);
            for (p, is_arr) in ps {
                if self.spent() {
                    break;
                }
                let Some(x) = self.best.pointer(&p).cloned() else { continue };
                match x {
                    J::Array(_) if is_arr && p != "/steps" => any |= self.cut(&p),
                    J::Object(m) => {
                        for k in ["h", "f"] {
                            if m.contains_key(k) {
                                any |= self.edit(&p, |x| {
                                    x.as_object_mut().unwrap().remove(k);
                                });
                            }
                        }
                    }
                    J::Bool(true) => any |= self.edit(&p, |x| *x = J::Bool(false)),
                    J::Number(n) => {
                        if let Some(n) = n.as_u64() {
                            for c in [0, 1, n / 2, n.saturating_sub(1)] {
                                if c < n && self.edit(&p, |x| *x = J::from(c)) {
                                    any = true;
                                    break;
                                }
                            }
                        }
                    }
                    J::String(s) => {
                        if let Some((w, h)) = s.split_once("'h") {
                            let z = h.len();
                            let mut cands = vec![format!("{w}'h{}", "0".repeat(z))];
                            if z > 0 {
                                cands.push(format!("{w}'h{}1", "0".repeat(z - 1)));
                                cands.push(format!("{w}'h{}{}", "0".repeat(z / 2), &h[z / 2..]));
                                cands.push(format!("{w}'h{}{}", &h[..z / 2], "0".repeat(z - z / 2)));
                            }
                            for c in cands {
                                if h.bytes().filter(|b| *b != b'0').count() > c.bytes().skip(w.len() + 2).filter(|b| *b != b'0').count()
                                    && self.edit(&p, |x| *x = J::String(c.clone()))
                                {
                                    any = true;
                                    break;
                                }
                            }
                        } else if s.len() > 1 && s.is_ascii() {
                            let h = s.len() / 2;
                            for c in [s[..h].to_string(), s[h..].to_string(), s[1..].to_string(), s[..s.len() - 1].to_string()] {
                                if self.edit(&p, |x| *x = J::String(c.clone())) {
                                    any = true;
                                    break;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            if !any || self.spent() {
                return (self.best, self.rep, self.tries);
            }
        }
    }
}
