//! Reference linker
use crate::objfmt::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Default)]
pub struct Opts<'a> {
    pub align: u32,
    pub strip: bool,
    pub exe: bool,
    pub entry: Option<&'a str>,
}
#[derive(Debug, Default)]
pub struct Linked {
    /// the linker has to fail, because ...
    pub fail: Option<&'static str>,
    /// whether it fails is not settled, because ...
    pub open: Option<&'static str>,
    pub obj: Obj,
    /// bytes that depend on undefined symbols (type, offset)
    pub undefined: Vec<(u8, usize)>,
}

/// Final form of a relocation: where, and the symbol it belongs to
pub type Link = (u8, u16, Sym);

/// Objects with symbols and relocations as sets; the location of undefined symbols does not matter
pub fn normal(o: &Obj) -> (Obj, Vec<Link>) {
    let mut c = o.clone();
    c.segs.retain(|_, s| !s.1.is_empty());
    for s in &mut c.syms {
        if s.ty == UNKNOWN {
            s.loc = 0xfaff;
        }
    }
    let mut l: Vec<Link> = c.rels.iter().map(|r| (r.ty, r.loc, c.syms.get(r.sym as usize).cloned().unwrap_or_default())).collect();
    l.sort();
    c.rels.clear();
    c.syms.sort();
    (c, l)
}
/// Compare what is settled
pub fn differs(want: &Obj, undefined: &[(u8, usize)], got: &Obj) -> Option<String> {
    let (mut w, wl) = normal(want);
    let (mut g, gl) = normal(got);
    for &(t, at) in undefined {
        for o in [&mut w, &mut g] {
            if let Some(s) = o.segs.get_mut(&t) {
                for k in at..at + 2 {
                    if let Some(b) = s.1.get_mut(k) {
                        *b = 0xee;
                    }
                }
            }
        }
    }
    let mut d = String::new();
    let mut cmp = |n: &str, a: String, b: String| {
        if a != b {
            d.push_str(&format!("{n}: expected {a}\n   got {b}\n"));
        }
    };
    cmp("segments", format!("{:x?}", w.segs), format!("{:x?}", g.segs));
    cmp("symbols", format!("{:x?}", w.syms), format!("{:x?}", g.syms));
    cmp("relocations", format!("{wl:x?}"), format!("{gl:x?}"));
    cmp("entry", format!("{:x?}", w.entry), format!("{:x?}", g.entry));
    (!d.is_empty()).then_some(d)
}

pub fn link(inputs: &[&Obj], o: Opts) -> Linked {
    let mut r = Linked::default();
    // layout
    let mut sizes: BTreeMap<u8, usize> = BTreeMap::new();
    for i in inputs {
        for (&t, s) in &i.segs {
            *sizes.entry(t).or_default() += s.1.len();
        }
    }
    let mut start: BTreeMap<u8, usize> = BTreeMap::new();
    let mut end = 0usize;
    let a = o.align.max(1) as usize;
    if let Some(&n) = sizes.get(&ZERO) {
        start.insert(ZERO, 0);
        end = n;
    }
    end = end.max(0x80);
    for (&t, &n) in sizes.iter().filter(|x| *x.0 != ZERO) {
        let s = end.div_ceil(a) * a;
        start.insert(t, s);
        end = s + n;
        if s > 0xffff && n > 0 {
            r.fail = Some("beyond the address space");
        }
        if s > 0xffff {
            r.open = Some("empty segment beyond the address space");
        }
    }
    if end > 0x10000 {
        r.fail = Some("beyond the address space");
    } else if end == 0x10000 {
        r.open = Some("fills the address space to the last byte");
    }
    if sizes.values().any(|&n| n > 65532) {
        r.fail = Some("beyond the format's limits");
    }
    if r.fail.is_some() {
        return r;
    }
    let mut at: BTreeMap<u8, usize> = start.clone();
    // where each file's segments go
    let mut bases: Vec<BTreeMap<u8, (usize, usize)>> = Vec::new();
    for i in inputs {
        let mut b = BTreeMap::new();
        for (&t, &s) in &start {
            let old = i.segs.get(&t).map(|x| x.0 as usize).unwrap_or(0);
            b.insert(t, (old, at[&t]));
            let n = i.segs.get(&t).map(|x| x.1.len()).unwrap_or(0);
            *at.get_mut(&t).unwrap() += n;
            let _ = s;
        }
        bases.push(b);
    }
    let place = |f: usize, t: u8, loc: u16| -> u16 {
        match bases[f].get(&t) {
            Some(&(old, new)) => (loc as usize - old + new) as u16,
            None => loc,
        }
    };
    // symbols
    let mut globals: BTreeMap<&str, Option<(u8, u16)>> = BTreeMap::new();
    for (f, i) in inputs.iter().enumerate() {
        for s in i.syms.iter().filter(|s| s.global) {
            let g = globals.entry(&s.name).or_default();
            if s.ty != UNKNOWN {
                if g.is_some() {
                    r.fail = Some("a global symbol is defined twice");
                }
                *g = Some((s.ty, place(f, s.ty, s.loc)));
            }
        }
    }
    let mut ids: BTreeMap<&str, u16> = BTreeMap::new();
    for (n, g) in &globals {
        ids.insert(n, r.obj.syms.len() as u16);
        let (t, l) = g.unwrap_or((UNKNOWN, 0xfaff));
        r.obj.syms.push(sym(n, true, t, l));
    }
    for (&t, &s) in &start {
        r.obj.segs.insert(t, (s as u16, Vec::new()));
    }
    for (f, i) in inputs.iter().enumerate() {
        let mut map = Vec::new();
        for s in &i.syms {
            map.push(if s.global {
                ids[s.name.as_str()]
            } else {
                r.obj.syms.push(sym(if o.strip { "" } else { &s.name }, false, s.ty, place(f, s.ty, s.loc)));
                r.obj.syms.len() as u16 - 1
            });
        }
        let mut segs = i.segs.clone();
        for e in &i.rels {
            let s = &r.obj.syms[map[e.sym as usize] as usize];
            let (base, bytes) = segs.get_mut(&e.ty).expect("relocation in a segment");
            let p = (e.loc - *base) as usize;
            bytes[p..p + 2].copy_from_slice(&s.loc.to_le_bytes());
            let loc = place(f, e.ty, e.loc);
            if s.ty == UNKNOWN {
                r.undefined.push((e.ty, loc as usize - start[&e.ty]));
                if o.exe {
                    r.fail = Some("undefined reference");
                }
            }
            r.obj.rels.push(Rel { ty: e.ty, loc, sym: map[e.sym as usize] });
        }
        for (t, (_, b)) in segs {
            r.obj.segs.get_mut(&t).unwrap().1.extend(b);
        }
        if r.obj.entry.is_none() {
            r.obj.entry = i.entry.map(|(t, l)| (t, place(f, t, l)));
        }
    }
    if o.exe && globals.values().any(|g| g.is_none()) {
        r.open = Some("an undefined symbol that is not used");
    }
    if let Some(e) = o.entry {
        r.obj.entry = None;
        if let Some(h) = e.strip_prefix("0x") {
            match u16::from_str_radix(h, 16) {
                Ok(v) => r.obj.entry = Some((ZERO, v)),
                Err(_) => r.fail = Some("malformed entry address"),
            }
        } else {
            match globals.get(e) {
                Some(Some(g)) => r.obj.entry = Some(*g),
                _ => r.fail = Some("the entry symbol is not a defined global"),
            }
        }
    }
    if o.exe && r.obj.entry.is_none() && r.fail.is_none() {
        r.fail = Some("no entry point");
    }
    if r.obj.sections().iter().any(|s| s.1.len() > 0xffff) {
        r.fail = Some("beyond the format's limits");
    }
    r
}

/// Indices of the archive members that are included, in order of inclusion
pub fn select(inputs: &[&Obj], members: &[&Obj]) -> Vec<usize> {
    let globals = |o: &Obj| {
        let mut m: BTreeMap<String, bool> = BTreeMap::new();
        for s in o.syms.iter().filter(|s| s.global) {
            *m.entry(s.name.clone()).or_default() |= s.ty != UNKNOWN;
        }
        m
    };
    let mut defined = std::collections::BTreeSet::new();
    let mut referenced = std::collections::BTreeSet::new();
    for i in inputs {
        for (n, d) in globals(i) {
            if d {
                defined.insert(n);
            } else {
                referenced.insert(n);
            }
        }
    }
    let mut chosen = Vec::new();
    'scan: loop {
        for (k, m) in members.iter().enumerate() {
            if chosen.contains(&k) {
                continue;
            }
            let g = globals(m);
            let wanted = g.iter().any(|(n, &d)| if d { referenced.contains(n) && !defined.contains(n) } else { defined.contains(n) });
            if wanted {
                chosen.push(k);
                referenced.extend(g.into_iter().filter(|x| !x.1).map(|x| x.0));
                continue 'scan;
            }
        }
        return chosen;
    }
}
