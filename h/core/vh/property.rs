//! Properties: parsing and printing.
use super::*;
use symrt as s;

/// n symbolic ASCII characters
fn text(n: usize) -> String {
    let mut v = vec![0u8; n];
    s::bytes(&mut v);
    for b in &v {
        s::assume(*b < 128);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn names() -> [(&'static str, PropertyName); 6] {
    [("atime", PropertyName::Atime), ("basemountpoint", PropertyName::BaseMountpoint), ("mountpoint", PropertyName::Mountpoint),
     ("name", PropertyName::Name), ("recordsize", PropertyName::RecordSize), ("recsize", PropertyName::RecordSize)]
}
/// what a property with this name and value means
fn meaning(name: PropertyName, v: Option<&str>) -> Option<Property> {
    match (name, v) {
        (PropertyName::Atime, None) => Some(Property::Atime(true)),
        (PropertyName::Atime, Some(v)) => {
            if v == "on" || v == "true" {
                Some(Property::Atime(true))
            } else if v == "off" || v == "false" {
                Some(Property::Atime(false))
            } else {
                None
            }
        }
        (PropertyName::Mountpoint, Some(v)) => Some(Property::Mountpoint(v.to_string())),
        (PropertyName::RecordSize, Some(v)) => {
            let b = v.as_bytes();
            let d = if !b.is_empty() && b[0] == b'+' { &b[1..] } else { b };
            if d.is_empty() || d.len() > 17 {
                return None;
            }
            let mut x = 0u64;
            let mut ok = true;
            for c in d {
                ok &= c.is_ascii_digit();
                x = x * 10 + (c.wrapping_sub(b'0') & 15) as u64;
            }
            if !ok {
                return None;
            }
            // 1048776 is an old misspelling of 1048576
            if x == 1048776 {
                return Some(Property::RecordSize(20));
            }
            (12..=20).find(|i| x == 1 << *i).map(Property::RecordSize)
        }
        _ => None,
    }
}
/// every known name with every value of the given length
fn parse_value() {
    let (ns, pn) = names()[s::param(0) as usize];
    s::check(ns.parse::<PropertyName>() == Ok(pn), "name is known");
    let v = text(s::param(1) as usize);
    let r = format!("{}={}", ns, v).parse::<Property>();
    match meaning(pn, Some(&v)) {
        Some(p) => {
            s::check(r == Ok(p), "a valid property is understood");
            s::reach(1);
        }
        None => {
            s::check(r.is_err(), "an invalid property is refused");
            s::reach(2);
        }
    }
}
/// any string of the given length is a property only if it says so
fn parse_any() {
    let t = text(s::param(0) as usize);
    let (n, v) = match t.find('=') {
        Some(i) => (&t[..i], Some(&t[i + 1..])),
        None => (&t[..], None),
    };
    let r = t.parse::<Property>();
    let want = match names().iter().find(|(x, _)| *x == n) {
        Some((_, pn)) => meaning(*pn, v),
        None => None,
    };
    s::check(r.clone().ok() == want, "parses as what it says, or not at all");
    if let Ok(p) = r {
        s::check(p.name() == names().iter().find(|(x, _)| *x == n).unwrap().1, "name of the parsed property");
    }
    s::reach(1);
}
/// what is printed for a property can be set again
fn roundtrip() {
    let p = match s::choice(3) {
        0 => Property::Atime(s::bool()),
        1 => Property::Mountpoint(text(s::param(0) as usize)),
        _ => Property::RecordSize(s::pick(12, 20) as u8),
    };
    let n = p.name();
    s::check(n.to_string().parse::<PropertyName>() == Ok(n), "a printed name is understood");
    let t = format!("{}={}", n, p);
    s::check(t.parse::<Property>() == Ok(p.clone()), "a printed property is understood");
    match &p {
        Property::Atime(b) => s::check(p.as_bool() == *b, "boolean value"),
        Property::Mountpoint(m) => s::check(p.as_str() == &m[..], "string value"),
        Property::RecordSize(r) => s::check(p.as_u8() == *r, "numeric value"),
        _ => (),
    }
    s::reach(1);
}
/// inheritance renames the mount point and nothing else; sources print and parse consistently
fn misc() {
    for (_, n) in names() {
        if n != PropertyName::Name {
            let i = n.inheritable();
            s::check(i == if n == PropertyName::Mountpoint { PropertyName::BaseMountpoint } else { n }, "inheritable name");
        }
    }
    let m = text(2);
    s::check(Property::Mountpoint(m.clone()).inheritable() == Property::BaseMountpoint(m), "inheritable mount point");
    let a = Property::Atime(s::bool());
    s::check(a.clone().inheritable() == a, "other properties are inherited under their name");
    let r = Property::RecordSize(s::u8());
    s::check(r.clone().inheritable() == r, "other properties are inherited under their name");
    let src = match s::choice(3) {
        0 => PropertySource::None,
        1 => PropertySource::Default,
        _ => PropertySource::Set(s::u8()),
    };
    let back = src.to_string().parse::<PropertySource>();
    match src {
        PropertySource::Set(i) => {
            s::check(src.is_inherited() == (i > 0), "set on an ancestor means inherited");
            match back {
                Ok(PropertySource::Set(j)) => s::check((i > 0) == (j > 0), "local or inherited survives printing"),
                _ => s::check(false, "a printed source is understood"),
            }
        }
        x => {
            s::check(!src.is_inherited(), "nothing is inherited from nowhere");
            s::check(back == Ok(x), "a printed source is understood");
        }
    }
    s::reach(1);
}
symrt::entries! {
    h_prop_value => parse_value();
    h_prop_any => parse_any();
    h_prop_rt => roundtrip();
    h_prop_misc => misc();
}
