//! Ingestion of scalars: clients send numbers as text, bytes or limbs, in fragments that get lost, repeated,
//! reordered and damaged; gateways assemble what arrives, read it, and echo what they understood.
use crate::ctx::*;
use crate::ev;
use crate::model::*;
use crate::net::*;
use crate::refmath::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::Val;
use std::collections::BTreeMap;

#[derive(Copy, Clone, PartialEq, Debug)]
enum Form {
    Text,
    Slice,
    Wide,
    Limbs,
}
use Form::*;
const FORMS: [Form; 4] = [Text, Slice, Wide, Limbs];
#[derive(Clone, Debug)]
enum Msg {
    Frag { job: usize, attempt: u32, ix: usize, of: usize, form: Form, b: Vec<u8> },
    Echo { job: usize, attempt: u32, got: Option<Vec<u8>> },
}

// ---- the independent reading of bytes -----------------------------------------------------------------------------
fn ten() -> Sc {
    Sc::from_u64(10)
}
fn of_be(b: &[u8]) -> Sc {
    let mut x = [0u8; 64];
    x[64 - b.len()..].copy_from_slice(b);
    Sc::from_be64(&x)
}
/// What the bytes say; None: malformed. Err: nothing is said about them.
fn meaning(f: Form, b: &[u8]) -> Result<Option<Sc>, ()> {
    Ok(match f {
        Text => {
            if b.is_empty() || std::str::from_utf8(b).is_err() {
                return Err(());
            }
            let mut s = Sc::zero();
            for d in b {
                if !d.is_ascii_digit() {
                    return Ok(None);
                }
                s = s.mul(&ten()).add(&Sc::from_u64((d - b'0') as u64));
            }
            Some(s)
        }
        Slice if b.len() == 32 => Some(of_be(b)),
        Slice => None,
        Wide if b.len() == 64 => Some(of_be(b)),
        Limbs if b.len() == 32 => Some(of_be(b)),
        _ => return Err(()), // not expressible as an argument
    })
}
/// The library's reading.
fn read(f: Form, b: &[u8]) -> Res<Option<rabe_bn::Fr>> {
    guard("read", || match f {
        Text => sut::fr_from_str(std::str::from_utf8(b).unwrap()),
        Slice => sut::fr_from_slice(b),
        Wide => {
            let mut x = [0u8; 64];
            x.copy_from_slice(b);
            Some(sut::fr_interpret(&x))
        }
        Limbs => {
            let l = |i: usize| u64::from_be_bytes(b[i * 8..i * 8 + 8].try_into().unwrap());
            Some(sut::fr_from_u256([l(3), l(2), l(1), l(0)]))
        }
    })
}

// ---- what clients send --------------------------------------------------------------------------------------------
fn decimal(be: &[u8]) -> String {
    let mut d = vec![0u8]; // little-endian digits
    for x in be {
        let mut carry = *x as u32;
        for y in d.iter_mut() {
            carry += *y as u32 * 256;
            *y = (carry % 10) as u8;
            carry /= 10;
        }
        while carry > 0 {
            d.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}
fn to_be(w: &[u64]) -> Vec<u8> {
    w.iter().rev().flat_map(|x| x.to_be_bytes()).collect()
}
/// n bytes, big-endian: multiples of the group order and their neighbours, powers of two, patterns, anything.
fn number(c: &mut Ctx, n: usize) -> Vec<u8> {
    let s = c.t.open();
    let mut w = [0u64; 8];
    let r = sut::R_LIMBS;
    let small = c.t.draw(4);
    match c.t.below(8) {
        0 => w[..4].copy_from_slice(&gen_sc(&mut c.t).0),
        1 | 2 => {
            let k = if n == 32 { [c.t.draw(6), 0, 0, 0] } else { [c.t.bits(), [0, c.t.bits()][c.t.below(2)], [0, c.t.bits()][c.t.below(2)], [0, c.t.bits()][c.t.below(2)]] };
            mul_wide(&k, &r, &mut w);
            let mut carry = small;
            if c.t.chance(500) {
                for x in w.iter_mut() {
                    let (y, o) = x.overflowing_add(carry);
                    *x = y;
                    carry = o as u64;
                }
            } else {
                for x in w.iter_mut() {
                    let (y, o) = x.overflowing_sub(carry);
                    *x = y;
                    carry = o as u64;
                }
            }
        }
        3 => {
            let k = c.t.below(n * 8);
            w[k / 64] = 1 << (k % 64);
            if c.t.chance(500) {
                for x in w.iter_mut() {
                    let (y, o) = x.overflowing_sub(1);
                    *x = y;
                    if !o {
                        break;
                    }
                }
            }
        }
        4 => {
            for x in w.iter_mut() {
                *x = u64::MAX;
            }
            w[0] -= small;
        }
        5 => {
            for x in w.iter_mut() {
                *x = [0, 1, u64::MAX, 1 << 63, 0xffff_ffff, 0xffff_ffff_0000_0000][c.t.below(6)];
            }
        }
        6 => w[0] = small,
        _ => {
            for x in w.iter_mut() {
                *x = c.t.bits();
            }
        }
    }
    c.t.close(s);
    let b = to_be(&w);
    b[64 - n..].to_vec()
}
const ODD: [&str; 34] = [
    "a", "A", "b", "f", "F", "g", "z", "x", "O", "l", " ", "+", "-", "_", ".", ",", "/", ":", ";", "e", "\0", "\n", "\t", "\u{7f}", "\u{b2}", "\u{bd}", "\u{e9}", "\u{660}", "\u{663}", "\u{967}",
    "\u{ff11}", "\u{2460}", "\u{1d7d8}", "n",
];
/// What other readers of numbers take as part of a number.
const AFFIXES: [(&str, &str); 20] = [
    ("0x", ""), ("0X", ""), ("0b", ""), ("0o", ""), ("", "n"), ("", "u"), ("", "L"), ("", "_u64"), ("", "e0"), ("", "E1"), ("", ".0"), ("", "\r\n"), ("\u{feff}", ""), ("\"", "\""),
    ("(", ")"), ("+0", ""), ("-0", ""), ("--", ""), ("'", "'"), ("Fr(", ")"),
];
const WORDS: [&str; 12] = ["inf", "NaN", "null", "true", "one", "zero", "-", "+", "0x", "0x0", "-1", "+1"];
fn message(c: &mut Ctx, f: Form) -> Vec<u8> {
    let s = c.t.open();
    let b = match f {
        Text => {
            let mut x = match c.t.below(6) {
                0 => gen_sc(&mut c.t).to_dec(),
                1 => decimal(&number(c, 32)),
                2 => decimal(&number(c, 64)),
                3 => {
                    // any digits; now and then very many
                    let most = [4, 80, 160, 3000][c.t.weighted(&[3, 6, 3, 1])];
                    let n = 1 + c.t.below(most);
                    let seed = c.t.bits();
                    (0..n).map(|i| (b'0' + (crate::tape::mix(seed ^ i as u64) % 10) as u8) as char).collect()
                }
                4 => {
                    let n = 1 + c.t.below(90);
                    let d = ["9", "1", "0", "5"][c.t.below(4)];
                    d.repeat(n)
                }
                _ => format!("1{}", "0".repeat(c.t.below(300))),
            };
            if c.t.chance(150) {
                x = format!("{}{}", "0".repeat(1 + c.t.below(90)), x);
                c.hit("leading zeros");
            }
            if c.t.chance(250) {
                match c.t.weighted(&[10, 4, 1]) {
                    0 => {
                        let at = [0, x.len(), c.t.below(x.len() + 1)][c.t.below(3)];
                        x.insert_str(at, c.t.pick(&ODD));
                    }
                    1 => {
                        let (l, r) = c.t.pick(&AFFIXES);
                        x = format!("{}{}{}", l, x, r);
                    }
                    _ => x = c.t.pick(&WORDS).to_string(),
                }
                c.hit("malformed text sent");
            }
            if x.len() > 300 {
                c.hit("very long text");
            }
            x.into_bytes()
        }
        Slice if c.t.chance(120) => {
            c.hit("slices of another length sent");
            let n = [0, 1, 8, 31, 33, 63, 64, 96, 256][c.t.below(9)];
            vec![c.t.draw(256) as u8; n]
        }
        Slice | Limbs => number(c, 32),
        Wide => number(c, 64),
    };
    c.t.close(s);
    b
}

struct Job {
    client: usize,
    gate: usize,
    form: Form,
    bytes: Vec<u8>,
    want: Result<Option<Sc>, ()>,
    attempt: u32,
    done: bool,
}
struct Assembly {
    form: Form,
    parts: Vec<Option<Vec<u8>>>,
    stream: Vec<u8>,
    seen: usize,
    over: bool,
}
pub fn run(c: &mut Ctx) -> Res {
    let s = c.t.open();
    let (ng, nc) = (1 + c.t.below(2), 1 + c.t.below(3));
    let mut jobs = vec![];
    for client in 0..nc {
        for _ in 0..1 + c.t.below(5) {
            let form = FORMS[c.t.weighted(&[5, 3, 3, 2])];
            let bytes = message(c, form);
            let want = meaning(form, &bytes);
            if want.is_err() {
                return viol("harness-ingest", format!("{:?} {:x?} is not a message", form, bytes));
            }
            jobs.push(Job { client: ng + client, gate: c.t.below(ng), form, bytes, want, attempt: 0, done: false });
        }
    }
    let in_order = c.t.chance(500); // does the gateway number fragments, or take them as they come
    let damage = [0, 100, 400][c.t.below(3)];
    c.t.close(s);
    let mut net: Net<Msg> = Net::new(c, ng + nc, Profile { crashes: true, horizon: 20_000 });
    ev!(c, "{} gateways, {} clients, {} jobs, {}", ng, nc, jobs.len(), if in_order { "numbered" } else { "as they come" });
    let mut asm: BTreeMap<(usize, u32), Assembly> = BTreeMap::new();
    // durable: what each gateway holds for a job, and its running total
    let mut held: Vec<BTreeMap<usize, Tv>> = vec![BTreeMap::new(); ng];
    for (i, j) in jobs.iter().enumerate() {
        ev!(c, "job {} {:?} {} bytes {:x}", i, j.form, j.bytes.len(), hash_bytes(&j.bytes));
        net.timer(c, j.client, i as u32, 10);
    }
    let mut steps = 0;
    while let Some(e) = net.next(c) {
        steps += 1;
        if steps > 4000 {
            return viol("no-progress", "no end");
        }
        match e {
            Ev::Crash { node } => asm.retain(|(job, _), _| jobs[*job].gate != node),
            Ev::Restart { node } => {
                for (i, j) in jobs.iter().enumerate() {
                    if j.client == node && !j.done {
                        net.timer(c, node, i as u32, 10);
                    }
                }
            }
            Ev::Quiet => {
                // what is under way is stale
                for (i, j) in jobs.iter().enumerate() {
                    if !j.done && net.up[j.client] {
                        net.timer(c, j.client, i as u32, 6000);
                    }
                }
            }
            Ev::Timer { node, id, .. } => {
                let i = id as usize;
                if jobs[i].done {
                    continue;
                }
                jobs[i].attempt += 1;
                let (gate, attempt, form, bytes) = (jobs[i].gate, jobs[i].attempt, jobs[i].form, jobs[i].bytes.clone());
                let s = c.t.open();
                let n = 1 + c.t.below(4).min(bytes.len());
                let mut cuts: Vec<usize> = (1..n).map(|_| c.t.below(bytes.len() + 1)).collect();
                cuts.push(0);
                cuts.push(bytes.len());
                cuts.sort();
                let mut frags: Vec<Vec<u8>> = cuts.windows(2).map(|w| bytes[w[0]..w[1]].to_vec()).collect();
                if !net.quiet {
                    for f in frags.iter_mut() {
                        if c.t.chance(damage) {
                            c.fault("fragments damaged");
                            match c.t.below(5) {
                                0 if !f.is_empty() => {
                                    let k = c.t.below(f.len());
                                    f[k] ^= 1 << c.t.draw(8);
                                }
                                1 if !f.is_empty() => {
                                    let k = c.t.below(f.len());
                                    f[k] = c.t.pick(b"0189/:;aA@`gz \0");
                                }
                                2 => f.truncate(c.t.below(f.len() + 1)),
                                3 => {
                                    let g = f.clone();
                                    f.extend(g);
                                }
                                _ => {
                                    let k = c.t.below(f.len() + 1);
                                    f.insert(k, c.t.pick(b"0123456789\0\xff"));
                                }
                            }
                        }
                    }
                }
                c.t.close(s);
                let of = frags.len();
                for (ix, b) in frags.into_iter().enumerate() {
                    net.send(c, node, gate, Msg::Frag { job: i, attempt, ix, of, form, b });
                }
                net.timer(c, node, id, 5000);
            }
            Ev::Msg { to, m: Msg::Frag { job, attempt, ix, of, form, b }, .. } => {
                let a = asm.entry((job, attempt)).or_insert(Assembly { form, parts: vec![None; of], stream: vec![], seen: 0, over: false });
                if a.over {
                    continue;
                }
                a.seen += 1;
                a.stream.extend(&b);
                a.parts[ix] = Some(b);
                let got = if in_order {
                    if a.parts.iter().any(|x| x.is_none()) {
                        continue;
                    }
                    a.parts.iter().flatten().flatten().copied().collect::<Vec<u8>>()
                } else {
                    if a.seen < of {
                        continue;
                    }
                    a.stream.clone()
                };
                a.over = true;
                let form = a.form;
                if got != jobs[job].bytes {
                    c.hit("altered numbers assembled");
                }
                let want = match meaning(form, &got) {
                    Ok(w) => w,
                    Err(()) => {
                        c.hit("not presentable to the library");
                        if jobs[job].want.is_ok() {
                            let echo = Msg::Echo { job, attempt, got: None };
                            net.send(c, to, jobs[job].client, echo);
                        }
                        continue;
                    }
                };
                let r = read(form, &got)?;
                c.hit("numbers read");
                let shown = || match form {
                    Text => format!("{:?}", String::from_utf8_lossy(&got)),
                    _ => format!("{:?} {:02x?}", form, got),
                };
                let out = match (r, want) {
                    (Some(f), Some(w)) => {
                        expect_val("wrong-scalar", &format!("{} read", shown()), &Val::Fr(f), &RVal::Fr(w))?;
                        let t = Tv { v: Val::Fr(f), m: RVal::Fr(w), k: Some(w) };
                        let out = guard("into_bytes", || sut::into_bytes(&t.v))?;
                        if out != ref_export(&t.m.leaves()) {
                            return viol("wrong-export", format!("{} read and exported is {:02x?}", shown(), out));
                        }
                        held[to].insert(job, t);
                        Some(out)
                    }
                    (None, None) => {
                        c.hit("malformed numbers refused");
                        held[to].remove(&job);
                        None
                    }
                    (Some(f), None) => return viol("malformed-accepted", format!("{} reads as {:x?}", shown(), sut::leaves(&Val::Fr(f)))),
                    (None, Some(w)) => return viol("number-refused", format!("{} refused, it is {}", shown(), w.to_dec())),
                };
                let echo = Msg::Echo { job, attempt, got: out };
                net.send(c, to, jobs[job].client, echo);
            }
            Ev::Msg { m: Msg::Echo { job, attempt, got }, .. } => {
                let j = &mut jobs[job];
                if j.done || attempt != j.attempt {
                    continue;
                }
                let want = j.want.unwrap().map(|w| ref_export(&RVal::Fr(w).leaves()));
                if got == want {
                    j.done = true;
                    ev!(c, "job {} done at attempt {}", job, attempt);
                } else {
                    c.hit("wrong echoes noticed");
                }
            }
            _ => (),
        }
    }
    if jobs.iter().any(|j| !j.done) {
        return viol("no-progress", "a number is not understood although faults stopped");
    }
    // the books: what arrived last may have been a damaged or repeated attempt, but it adds up to what it said
    for h in &held {
        let mut total = zero(simcalls::Ty::Fr)?;
        for t in h.values() {
            total = add(&total, t)?;
        }
        c.add("scalars in the books", h.len() as u64);
    }
    Ok(())
}
