//! Conversions between script/trace JSON and the crate's public types.
use crate::json::{jb, script_error, J};
use crate::obj;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use uwuhi::name::{DomainName, Label};
use uwuhi::packet::records::*;
use uwuhi::packet::{Class, Header, Opcode, QClass, QType, RCode, Type};
use uwuhi::Error;

pub fn ty(v: i64) -> Type {
    bytemuck::cast::<u16, Type>(v as u16)
}
pub fn qty(v: i64) -> QType {
    bytemuck::cast::<u16, QType>(v as u16)
}
pub fn class(v: i64) -> Class {
    bytemuck::cast::<u16, Class>(v as u16)
}
pub fn qclass(v: i64) -> QClass {
    bytemuck::cast::<u16, QClass>(v as u16)
}
pub fn opcode(v: i64) -> Opcode {
    bytemuck::cast::<u8, Opcode>(v as u8)
}
pub fn rcode(v: i64) -> RCode {
    bytemuck::cast::<u8, RCode>(v as u8)
}
pub fn raw16<T: bytemuck::Pod>(t: T) -> u16 {
    bytemuck::cast::<T, u16>(t)
}
pub fn raw8<T: bytemuck::Pod>(t: T) -> u8 {
    bytemuck::cast::<T, u8>(t)
}
pub fn hdr(b: &[u8]) -> Header {
    bytemuck::pod_read_unaligned(b)
}

pub fn label(j: &J) -> Label {
    Label::try_new(j.bytes()).unwrap_or_else(|_| script_error("bad label in script"))
}
pub fn name(j: &J) -> DomainName {
    j.arr().iter().map(label).collect()
}
pub fn jlabels<'a>(it: impl IntoIterator<Item = &'a Label>) -> J {
    J::Arr(it.into_iter().map(|l| jb(l.as_bytes())).collect())
}
pub fn jname(n: &DomainName) -> J {
    jlabels(n.labels())
}
pub fn j32(v: u32) -> J {
    J::Arr(vec![(v >> 16).into(), (v & 0xffff).into()])
}
pub fn u32of(j: &J) -> u32 {
    let a = j.arr();
    (a[0].int() as u32) << 16 | a[1].int() as u32
}
pub fn jerr(e: Error) -> J {
    use Error::*;
    J::Str(
        match e {
            Eof => "Eof",
            PointerLoop => "PointerLoop",
            InvalidValue => "InvalidValue",
            Truncated => "Truncated",
            InvalidEmptyLabel => "InvalidEmptyLabel",
            LabelTooLong => "LabelTooLong",
            _ => "other",
        }
        .into(),
    )
}
pub fn ip(j: &J) -> IpAddr {
    let b = j.bytes();
    match b.len() {
        4 => IpAddr::V4(Ipv4Addr::from(<[u8; 4]>::try_from(&b[..]).unwrap())),
        16 => IpAddr::V6(Ipv6Addr::from(<[u8; 16]>::try_from(&b[..]).unwrap())),
        _ => script_error("bad ip"),
    }
}
pub fn jip(i: &IpAddr) -> J {
    match i {
        IpAddr::V4(a) => jb(&a.octets()),
        IpAddr::V6(a) => jb(&a.octets()),
    }
}

fn rec_obj(k: &str, i: Vec<J>, n: Vec<J>, x: Vec<J>) -> J {
    obj! {"k": k, "i": i, "n": n, "x": x, "e": ""}
}
pub fn rec_none() -> J {
    rec_obj("none", vec![], vec![], vec![])
}
pub fn rec_err(e: Error) -> J {
    obj! {"k": "err", "i": vec![], "n": vec![], "x": vec![], "e": jerr(e)}
}
fn halves(v: &[u32]) -> Vec<J> {
    v.iter().flat_map(|v| [J::from(v >> 16), J::from(v & 0xffff)]).collect()
}
pub fn jrec(r: &Record<'_>) -> J {
    match r {
        Record::A(a) => rec_obj("A", a.addr().octets().iter().map(|&b| b.into()).collect(), vec![], vec![]),
        Record::AAAA(a) => rec_obj("AAAA", a.addr().octets().iter().map(|&b| b.into()).collect(), vec![], vec![]),
        Record::CNAME(a) => rec_obj("CNAME", vec![], vec![jname(a.cname())], vec![]),
        Record::MX(a) => rec_obj("MX", vec![a.preference().into()], vec![jname(a.exchange())], vec![]),
        Record::NS(a) => rec_obj("NS", vec![], vec![jname(a.nsdname())], vec![]),
        Record::PTR(a) => rec_obj("PTR", vec![], vec![jname(a.ptrdname())], vec![]),
        Record::TXT(a) => rec_obj("TXT", vec![], vec![], a.entries().map(jb).collect()),
        Record::SRV(a) => rec_obj(
            "SRV",
            vec![a.priority().into(), a.weight().into(), a.port().into()],
            vec![jname(a.target())],
            vec![],
        ),
        Record::SOA(a) => rec_obj(
            "SOA",
            halves(&[a.serial(), a.refresh(), a.retry(), a.expire(), a.minimum_ttl()]),
            vec![jname(a.mname()), jname(a.rname())],
            vec![],
        ),
        _ => rec_obj("other", vec![], vec![], vec![]),
    }
}
pub fn rec(j: &J) -> Record<'static> {
    let i: Vec<i64> = j.at("i").arr().iter().map(|v| v.int()).collect();
    let n: Vec<DomainName> = j.at("n").arr().iter().map(name).collect();
    let nm = |k: usize| n[k].clone();
    match j.at("k").str() {
        "A" => match ip(j.at("i")) {
            IpAddr::V4(a) => Record::A(A::new(a)),
            _ => script_error("A"),
        },
        "AAAA" => match ip(j.at("i")) {
            IpAddr::V6(a) => Record::AAAA(AAAA::new(a)),
            _ => script_error("AAAA"),
        },
        "CNAME" => Record::CNAME(CNAME::new(nm(0))),
        "MX" => Record::MX(MX::new(i[0] as u16, nm(0))),
        "NS" => Record::NS(NS::new(nm(0))),
        "PTR" => Record::PTR(PTR::new(nm(0))),
        "TXT" => Record::TXT(TXT::new(j.at("x").arr().iter().map(|x| x.bytes()))),
        "SRV" => Record::SRV(SRV::new(i[0] as u16, i[1] as u16, i[2] as u16, nm(0))),
        "SOA" => {
            let w = |k: usize| (i[2 * k] as u32) << 16 | i[2 * k + 1] as u32;
            Record::SOA(SOA::new(nm(0), nm(1), w(0), w(1), w(2), w(3), w(4)))
        }
        k => script_error(&format!("record kind {k}")),
    }
}
