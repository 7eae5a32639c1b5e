//! Values: comparison, hashing, clones, sets, walks (sessions of kind "val").
use crate::conv::*;
use crate::json::{jb, script_error, J};
use crate::obj;
use crate::pure::{jinstance, jservice, jtr, tr};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::decoder::MessageDecoder;
use uwuhi::packet::encoder::{self, MessageEncoder};
use uwuhi::packet::records::*;
use uwuhi::packet::{Class, Opcode, QClass, QType, RCode, Type};
use uwuhi::service::{Service, ServiceInstance, ServiceTransport};

/// How a value is made: 0 by its constructor, 1 as a clone, 2 parsed or decoded.
fn decoded_name(n: &DomainName) -> DomainName {
    let mut buf = vec![0; 2048];
    let mut e = MessageEncoder::new(&mut buf);
    e.question(encoder::Question::new(n));
    let _ = e.finish();
    let mut d = MessageDecoder::new(&buf).unwrap();
    let q = d.next().unwrap().unwrap();
    q.qname().clone()
}
/// A decoded record; its message lives as long as the program.
fn decoded_rec(r: &Record<'_>) -> Record<'static> {
    let n = DomainName::ROOT;
    let mut buf = vec![0; 4096];
    let mut e = MessageEncoder::new(&mut buf).answers();
    e.add_answer(encoder::ResourceRecord::new(&n, r));
    let len = e.finish().unwrap_or_else(|_| script_error("record too large"));
    buf.truncate(len);
    let d = MessageDecoder::new(Box::leak(buf.into_boxed_slice())).unwrap();
    let d = Box::leak(Box::new(d.answers().unwrap()));
    let rr = Box::leak(Box::new(d.next().unwrap().unwrap()));
    rr.as_enum().unwrap().unwrap()
}

trait Val: Sized + PartialEq + Clone {
    fn make(j: &J, how: i64) -> Self;
    fn content(&self) -> J;
    /// The value put together again from what its accessors return.
    fn rebuilt(&self) -> Self;
}
impl Val for Label {
    fn make(j: &J, how: i64) -> Self {
        let l = label(j);
        match how {
            1 => l.clone(),
            2 => decoded_name(&DomainName::from_iter([&l])).labels()[0].clone(),
            3 => match String::from_utf8(j.bytes()) {
                Ok(s) => s.parse().unwrap(),
                Err(_) => l,
            },
            _ => l,
        }
    }
    fn content(&self) -> J {
        let _ = format!("{self}{self:?}");
        jb(self.as_bytes())
    }
    fn rebuilt(&self) -> Self {
        Label::try_new(self.as_bytes()).unwrap()
    }
}
impl Val for DomainName {
    fn make(j: &J, how: i64) -> Self {
        let n = name(j);
        match how {
            1 => n.clone(),
            2 => decoded_name(&n),
            3 => {
                let mut m = DomainName::ROOT;
                for l in &n {
                    m.push_label(l.clone());
                }
                m
            }
            _ => n,
        }
    }
    fn content(&self) -> J {
        let _ = format!("{self}{self:?}");
        jname(self)
    }
    fn rebuilt(&self) -> Self {
        let k = self.labels().len() / 2;
        let mut m = DomainName::from_iter(self.labels()[..k].iter());
        m.extend(self.labels()[k..].to_vec());
        m
    }
}
fn ptr_name(labels: Vec<Label>) -> DomainName {
    labels.into_iter().chain([Label::new("local")]).collect()
}
impl Val for Service {
    fn make(j: &J, how: i64) -> Self {
        let a = j.arr();
        let (n, t) = (label(&a[0]), tr(a[1].int()));
        match how {
            1 => Service::new(n, t).clone(),
            2 => Service::from_ptr(PTR::new(&decoded_name(&ptr_name(vec![n, t.to_label()])))).unwrap(),
            _ => Service::new(n, t),
        }
    }
    fn content(&self) -> J {
        jservice(self)
    }
    fn rebuilt(&self) -> Self {
        Service::new(self.name().clone(), self.transport())
    }
}
impl Val for ServiceInstance {
    fn make(j: &J, how: i64) -> Self {
        let a = j.arr();
        let (i, n, t) = (label(&a[0]), label(&a[1]), tr(a[2].int()));
        match how {
            1 => ServiceInstance::new(i, n, t).clone(),
            2 => ServiceInstance::from_ptr(PTR::new(&decoded_name(&ptr_name(vec![i, n, t.to_label()])))).unwrap(),
            3 => ServiceInstance::from_service(i, Service::new(n, t)),
            _ => ServiceInstance::new(i, n, t),
        }
    }
    fn content(&self) -> J {
        jinstance(self)
    }
    fn rebuilt(&self) -> Self {
        ServiceInstance::from_service(self.instance_name().clone(), self.service().clone())
    }
}
impl Val for ServiceTransport {
    fn make(j: &J, how: i64) -> Self {
        let t = tr(j.int());
        match how {
            2 => String::from_utf8(t.to_label().as_bytes().to_vec()).unwrap().parse().unwrap(),
            _ => t,
        }
    }
    fn content(&self) -> J {
        let _ = format!("{self:?}");
        jtr(*self)
    }
    fn rebuilt(&self) -> Self {
        *self
    }
}
macro_rules! numbers {
    ($($t:ident $make:ident $raw:ident,)+) => {$(
        impl Val for $t {
            fn make(j: &J, _: i64) -> Self {
                $make(j.int())
            }
            fn content(&self) -> J {
                let _ = format!("{self:?}");
                $raw(*self).into()
            }
            fn rebuilt(&self) -> Self {
                $make($raw(*self) as i64)
            }
        }
    )+};
}
numbers! { Type ty raw16, QType qty raw16, Class class raw16, QClass qclass raw16, Opcode opcode raw8, RCode rcode raw8, }

/// Record data; the kinds are compared with the equality of their own types.
struct Data(Record<'static>);
macro_rules! kinds {
    ($($k:ident)+) => {
        impl PartialEq for Data {
            fn eq(&self, o: &Data) -> bool {
                match (&self.0, &o.0) {
                    $((Record::$k(a), Record::$k(b)) => a == b,)+
                    _ => false,
                }
            }
            #[allow(clippy::partialeq_ne_impl)]
            fn ne(&self, o: &Data) -> bool {
                match (&self.0, &o.0) {
                    $((Record::$k(a), Record::$k(b)) => a != b,)+
                    _ => true,
                }
            }
        }
        impl Clone for Data {
            fn clone(&self) -> Data {
                Data(match &self.0 {
                    $(Record::$k(a) => Record::$k(a.clone()),)+
                    _ => script_error("record kind"),
                })
            }
        }
    };
}
kinds! { A AAAA CNAME MX NS PTR TXT SRV SOA }
impl Val for Data {
    fn make(j: &J, how: i64) -> Self {
        let r = rec(j);
        match how {
            1 => Data(r).clone(),
            2 => Data(decoded_rec(&r)),
            3 => Data(decoded_rec(&r)).clone(),
            _ => Data(r),
        }
    }
    fn content(&self) -> J {
        let _ = format!("{}{:?}", self.0, self.0);
        jrec(&self.0)
    }
    fn rebuilt(&self) -> Self {
        Data(rec(&jrec(&self.0)))
    }
}

fn matrix<T>(v: &[T], f: impl Fn(&T, &T) -> J) -> J {
    J::Arr(v.iter().map(|a| J::Arr(v.iter().map(|b| f(a, b)).collect())).collect())
}
fn list<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> J) -> J {
    J::Arr(v.into_iter().map(f).collect())
}
fn sign(o: Option<Ordering>) -> J {
    match o {
        Some(o) => (o as i64).into(),
        None => 9.into(),
    }
}

fn make_all<T: Val>(s: &J, ev: &mut Vec<J>) -> Vec<T> {
    let how = s.at("how").arr();
    let v: Vec<T> = s.at("vals").arr().iter().zip(how).map(|(j, h)| T::make(j, h.int())).collect();
    let c: Vec<T> = v.clone();
    let p: Vec<T> = v.iter().map(T::rebuilt).collect();
    ev.push(obj! {"op": "vals", "v": list(&v, T::content), "c": list(&c, T::content), "p": list(&p, T::content)});
    let ceq = v.iter().zip(&c).all(|(a, b)| a == b) && v.iter().zip(&p).all(|(a, b)| a == b);
    ev.push(obj! {"op": "cmp", "eq": matrix(&v, |a, b| (a == b).into()), "ne": matrix(&v, |a, b| (a != b).into()),
        "ord": false, "m": J::Arr(vec![]), "pm": J::Arr(vec![]), "h": J::Arr(vec![]), "ceq": ceq});
    v
}

fn ordered<T: Val + Ord + Hash>(s: &J, ev: &mut Vec<J>) {
    let v: Vec<T> = make_all(s, ev);
    let h = |a: &T| {
        let mut h = DefaultHasher::new();
        a.hash(&mut h);
        h.finish()
    };
    let ceq = v.iter().all(|a| h(a) == h(&a.clone()) && a.cmp(&a.rebuilt()) == Ordering::Equal);
    ev.push(obj! {"op": "cmp", "eq": matrix(&v, |a, b| (!(a != b)).into()), "ne": matrix(&v, |a, b| (!(a == b)).into()),
        "ord": true, "m": matrix(&v, |a, b| sign(Some(a.cmp(b)))), "pm": matrix(&v, |a, b| sign(a.partial_cmp(b))),
        "h": matrix(&v, |a, b| (h(a) == h(b)).into()), "ceq": ceq});
    let mut bt = BTreeSet::new();
    let mut hs: HashSet<T, BuildHasherDefault<DefaultHasher>> = HashSet::default();
    for op in s.at("ops").arr() {
        let (o, i) = (op.arr()[0].str(), op.arr()[1].int());
        let x = &v[i as usize - 1];
        let (b, h) = match o {
            "ins" => (bt.insert(x.clone()), hs.insert(x.clone())),
            "has" => (bt.contains(x), hs.contains(x)),
            "del" => (bt.remove(x), hs.remove(x)),
            _ => script_error("set op"),
        };
        ev.push(obj! {"op": o, "i": i, "bt": b, "hs": h});
    }
    ev.push(obj! {"op": "end", "bt": list(&bt, T::content), "hs": list(&hs, T::content)});
}

fn plain<T: Val>(s: &J, ev: &mut Vec<J>) -> Vec<T> {
    let v = make_all(s, ev);
    if v.iter().any(|a: &T| *a != a.clone()) {
        ev.push(obj! {"op": "clone differs"});
    }
    v
}

fn end(ev: &mut Vec<J>) {
    ev.push(obj! {"op": "end", "bt": J::Arr(vec![]), "hs": J::Arr(vec![])});
}

pub fn vals(s: &J, ev: &mut Vec<J>) {
    match s.at("ty").str() {
        "label" => ordered::<Label>(s, ev),
        "svc" => ordered::<Service>(s, ev),
        "inst" => ordered::<ServiceInstance>(s, ev),
        "tr" => ordered::<ServiceTransport>(s, ev),
        t => {
            match t {
                "name" => {
                    let v = plain::<DomainName>(s, ev);
                    ev.push(obj! {"op": "walk",
                        "r": list(&v, |n| jlabels(n)),
                        "v": list(v.iter().cloned(), |n| J::Arr(n.into_iter().map(|l| jb(l.as_bytes())).collect())),
                        "l": list(&v, |n| jlabels(n.labels())),
                        "n": list(&v, |n| n.into_iter().count().into())});
                    // put together again, in two parts, by the ways that take a name apart
                    let parts = |n: &DomainName, k: usize| {
                        let mut m: DomainName = n.into_iter().take(k).collect();
                        m.extend(n.clone().into_iter().skip(k));
                        m
                    };
                    let joined = |n: &DomainName| {
                        let mut m: DomainName = n.clone().into_iter().collect();
                        let k = m.labels().len();
                        m.extend(n);
                        jlabels(&m.labels()[k..])
                    };
                    let back = |n: &DomainName| {
                        let k = n.labels().len();
                        J::Arr((0..k).map(|i| jb(n.into_iter().nth(i).unwrap().as_bytes())).collect())
                    };
                    ev.push(obj! {"op": "walk", "r": list(&v, |n| jname(&parts(n, n.labels().len() / 2))), "v": list(&v, joined),
                        "l": list(&v, back), "n": list(&v, |n| n.clone().into_iter().fold(0, |k, _| k + 1).into())});
                }
                "rec" => drop(plain::<Data>(s, ev)),
                "type" => drop(plain::<Type>(s, ev)),
                "qtype" => drop(plain::<QType>(s, ev)),
                "class" => drop(plain::<Class>(s, ev)),
                "qclass" => drop(plain::<QClass>(s, ev)),
                "opcode" => drop(plain::<Opcode>(s, ev)),
                "rcode" => drop(plain::<RCode>(s, ev)),
                _ => script_error("value type"),
            }
            end(ev);
        }
    }
}
