//! A store that appends values to a log on a faulty disk, is killed at any moment, and recovers from what is durable.
use crate::ctx::*;
use crate::ev;
use crate::io::*;
use crate::twin::*;
use simcalls as sut;
use simcalls::{Codec, Ty};
use std::io::{ErrorKind, Read};

#[derive(Clone)]
struct Rec {
    v: Tv,
    codec: Codec,
    bytes: Vec<u8>, // complete encoding, from a healthy in-memory sink
    acked: bool,
}
const MAGIC: u8 = 0xA7;
fn sum(b: &[u8]) -> [u8; 8] {
    hash_bytes(b).to_le_bytes()
}
fn is_binary(k: Codec) -> bool {
    k != Codec::Json
}
/// Header, then one batch of values; binary encodings are unframed, text is length-prefixed; then a checksum.
fn header(recs: &[Rec]) -> Vec<u8> {
    let mut h = vec![MAGIC, recs.len() as u8];
    for r in recs {
        h.push(r.v.ty() as u8);
        h.push(sut::CODECS.iter().position(|k| *k == r.codec).unwrap() as u8);
        h.extend_from_slice(&(r.bytes.len() as u16).to_le_bytes());
    }
    h
}
/// Appends the batch with the library writing straight to the file; false: the disk failed and the tail was cut off.
fn append(c: &mut Ctx, f: &mut SimFile, recs: &[Rec]) -> Res<bool> {
    let start = f.current.len();
    let mut all = header(recs);
    f.append(&all.clone());
    for r in recs {
        let mut w = SimWriter::new(ragged_plan(&mut c.t));
        count_plan(c, &w.plan);
        if c.t.chance(120) {
            let at = c.t.below(r.bytes.len() + 40);
            let k = match c.t.below(4) {
                0 => Step::Fail(ErrorKind::StorageFull),
                1 => Step::Fail(ErrorKind::Other),
                2 => Step::Zero,
                _ => Step::Fail(ErrorKind::TimedOut),
            };
            w.fault_at = Some((at, k));
            w.once = c.t.chance(300);
        }
        let e = guard("encode", || sut::encode(r.codec, &r.v.v, &mut w))?;
        f.append(&w.got);
        all.extend_from_slice(&w.got);
        match (e, w.fired) {
            (Ok(()), false) => {
                if w.got != r.bytes {
                    return viol("written-bytes", format!("{:?} {}: a ragged sink received {:02x?}, a plain one {:02x?}", r.codec, r.v.m.short(), w.got, r.bytes));
                }
            }
            (Err(e), false) => return viol("encode-failed", format!("{:?} {} on a healthy sink: {}", r.codec, r.v.m.short(), e)),
            (Ok(()), true) => return viol("error-swallowed", format!("{:?} {}: the disk failed and encoding reported success", r.codec, r.v.m.short())),
            (Err(_), true) => {
                c.fault("disk errors while writing");
                f.truncate(start);
                return Ok(false);
            }
        }
    }
    f.append(&sum(&all));
    Ok(true)
}
/// What the recovered log holds; the library reads straight from the file.
fn recover(c: &mut Ctx, f: &SimFile, recs: &[Rec]) -> Res<usize> {
    let data = &f.durable;
    let (mut pos, mut k) = (0, 0);
    loop {
        if data.len() - pos < 2 || data[pos] != MAGIC {
            break;
        }
        let n = data[pos + 1] as usize;
        let hl = 2 + 4 * n;
        if n == 0 || k + n > recs.len() || data.len() - pos < hl {
            break;
        }
        let batch = &recs[k..k + n];
        let body: usize = batch.iter().map(|r| r.bytes.len()).sum();
        if data[pos..pos + hl] != header(batch)[..] || data.len() - pos < hl + body + 8 {
            break;
        }
        let end = pos + hl + body;
        if sum(&data[pos..end]) != data[end..end + 8] {
            break;
        }
        // checksummed: from here on every failure is the library's
        let mut tries = 0;
        'again: loop {
            let mut r = SimReader::new(&data[..end], ragged_plan(&mut c.t));
            count_plan(c, &r.plan);
            r.pos = pos + hl;
            if tries < 3 && c.t.chance(60) {
                r.fault_at = Some((pos + hl + c.t.below(body + 20), Step::Fail(ErrorKind::Other)));
            }
            let mut at = pos + hl;
            for x in batch {
                let v = if is_binary(x.codec) {
                    guard("decode", || sut::decode(x.codec, x.v.ty(), &mut r))?
                } else {
                    // framed: an adapter that ends after the frame
                    let mut framed = (&mut r as &mut dyn Read).take(x.bytes.len() as u64);
                    guard("decode", || sut::decode(x.codec, x.v.ty(), &mut framed))?
                };
                match (v, r.fired) {
                    (_, true) => {
                        c.fault("disk errors while reading");
                        tries += 1;
                        continue 'again;
                    }
                    (Err(e), false) => return viol("lost", format!("acknowledged {:?} {} does not decode after recovery: {} (stream at {}, value at {})", x.codec, x.v.m.short(), e, r.pos, at)),
                    (Ok(v), false) => {
                        let t = check("recovered value", Tv { v, ..x.v })?;
                        equal("recovered and original", &t, &x.v)?;
                        let b = guard("encode", || sut::enc(x.codec, &t.v))?;
                        if b != x.bytes {
                            return viol("re-encoding", format!("{:?} {} decodes from {:02x?} and encodes to {:02x?}", x.codec, x.v.m.short(), x.bytes, b));
                        }
                        at += x.bytes.len();
                        if r.pos != at {
                            return viol("stream-position", format!("{:?} {}: decoding left the stream at {} instead of {}", x.codec, x.v.m.short(), r.pos, at));
                        }
                    }
                }
                c.hit("values recovered");
            }
            break;
        }
        k += n;
        pos = end + 8;
    }
    Ok(k)
}

pub fn run(c: &mut Ctx) -> Res {
    let n = 3 + c.t.below(if c.thorough { 60 } else { 26 });
    let wt: [u64; 4] = [[4, 5, 1, 1], [10, 0, 0, 0], [1, 10, 0, 0], [1, 2, 6, 2]][c.t.below(4)];
    let mut f = SimFile::new();
    let mut recs: Vec<Rec> = vec![]; // the log's content, in order
    let mut unsynced: usize = 0; // first record not acknowledged
    let mut budget: i64 = if c.thorough { 500_000 } else { 120_000 };
    let mut bank: Vec<Tv> = vec![];
    for k in 0..n {
        if budget < 0 {
            break;
        }
        let s = c.t.open();
        match c.t.weighted(&[10, 4, 2, 2]) {
            0 => {
                let m = 1 + c.t.below(3);
                let mut batch = vec![];
                for _ in 0..m {
                    let ty = sut::TYS[c.t.weighted(&wt)];
                    budget -= [100, 800, 5000, 6000][ty as usize];
                    let old: Vec<Tv> = bank.iter().filter(|x| x.ty() == ty).cloned().collect();
                    let v = if !old.is_empty() && c.t.chance(500) {
                        let x = c.t.pick(&old);
                        step(c, &x)?
                    } else if ty == Ty::Gt {
                        fresh(c, ty)?
                    } else {
                        lived(c, ty)?
                    };
                    bank.push(v);
                    let codec = c.t.pick(sut::CODECS);
                    let bytes = guard("encode", || sut::enc(codec, &v.v))?;
                    batch.push(Rec { v, codec, bytes, acked: false });
                }
                if append(c, &mut f, &batch)? {
                    ev!(c, "{} append {:?}", k, batch.iter().map(|r| r.v.m.short()).collect::<Vec<_>>());
                    recs.extend(batch);
                } else {
                    ev!(c, "{} append failed", k);
                }
            }
            1 => {
                if c.t.chance(150) {
                    c.fault("failed syncs"); // nothing is acknowledged
                } else {
                    f.sync();
                    for r in recs[unsynced..].iter_mut() {
                        r.acked = true;
                        c.hit("values acknowledged");
                    }
                    unsynced = recs.len();
                    ev!(c, "{} sync, {} acknowledged", k, unsynced);
                }
            }
            2 => {
                c.fault("crashes");
                c.now += 5000;
                f.crash(c);
                let have = recover(c, &f, &recs)?;
                ev!(c, "{} crash, {} of {} recovered", k, have, recs.len());
                if have < unsynced {
                    return viol("harness-log", format!("{} of {} acknowledged records found", have, unsynced));
                }
                recs.truncate(have);
                let len: usize = log_len(&recs, &f);
                f.truncate(len);
                f.sync();
                for r in recs.iter_mut() {
                    r.acked = true;
                }
                unsynced = recs.len();
            }
            _ => {
                // a stream that ends early
                if let Some(r) = recs.last().cloned() {
                    let cuts = 1 + c.t.below(4);
                    for _ in 0..cuts {
                        let at = match c.t.below(4) {
                            0 => r.bytes.len() - 1,
                            1 => c.t.below(r.bytes.len()) / 8 * 8,
                            _ => c.t.below(r.bytes.len()),
                        };
                        c.fault("truncated streams");
                        let mut rd = SimReader::new(&r.bytes[..at], ragged_plan(&mut c.t));
                        if guard("decode", || sut::decode(r.codec, r.v.ty(), &mut rd))?.is_ok() {
                            return viol("truncated-accepted", format!("{:?} {:?}: {} of {} bytes decode to a value", r.codec, r.v.ty(), at, r.bytes.len()));
                        }
                    }
                    budget -= 1000;
                }
            }
        }
        c.t.close(s);
    }
    c.now += 1000;
    f.crash(c);
    let have = recover(c, &f, &recs)?;
    if have < unsynced {
        return viol("harness-log", format!("{} of {} acknowledged records found at the end", have, unsynced));
    }
    c.add("records", recs.len() as u64);
    Ok(())
}
/// Length of the log that holds exactly these records, read back from the file's batch headers.
fn log_len(recs: &[Rec], f: &SimFile) -> usize {
    let (mut pos, mut k) = (0, 0);
    while k < recs.len() {
        let n = f.durable[pos + 1] as usize;
        pos += 2 + 4 * n + recs[k..k + n].iter().map(|r| r.bytes.len()).sum::<usize>() + 8;
        k += n;
    }
    pos
}
