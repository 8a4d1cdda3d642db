//! The same calls after each other in several orders, with memory failing in
//! between, with metadata made anew, and in several threads at once. A call is
//! reported once for every different outcome.
use crate::mem::*;
use crate::{busy, card_spec, case_json, decode_meta, guarded, guarded_plain, load, parse_case, registry, run_case, Case, Current, Meta};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Draw(u64);
impl Draw {
    fn next(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 11) as usize % n.max(1)
    }
    fn order(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, self.next(i + 1));
        }
        v
    }
}

fn once(c: &Case, meta: &Meta) -> String {
    if let Some(o) = guarded_plain(c) {
        return o;
    }
    let slices: Vec<&[u8]> = c.bufs.iter().map(|b| b.as_slice()).collect();
    let card = card_spec(c);
    let r = match meta {
        Meta::V14(m) => guarded(|| run_case::<&[u8], (), _>(c, &slices, &mut (), m, card.as_ref())),
        Meta::V15(m) => guarded(|| run_case::<&[u8], (), _>(c, &slices, &mut (), m, card.as_ref())),
    };
    case_json(c, &c.id, "", &r.json(), 1)
}
/// The same on memory that fails; what comes of it is C18's.
fn failing(c: &Case, meta: &Meta, at: usize, always: bool) {
    if matches!(c.entry.as_str(), "era" | "bal") {
        return;
    }
    let reg = ExtReg(registry(meta));
    let bufs: Vec<ExtBuf> = c.bufs.iter().map(|b| ExtBuf { data: Rc::new(b.clone()), len: b.len() }).collect();
    let mut mem = Mem::failing(at, always);
    match meta {
        Meta::V14(m) => {
            guarded(|| run_case::<ExtBuf, Mem, _>(c, &bufs, &mut mem, &ExtMeta { inner: m, reg: reg.clone() }, None));
        }
        Meta::V15(m) => {
            guarded(|| run_case::<ExtBuf, Mem, _>(c, &bufs, &mut mem, &ExtMeta { inner: m, reg: reg.clone() }, None));
        }
    }
}

/// The different outcomes of every case.
struct Notes {
    seen: Vec<HashMap<String, usize>>,
    first: Vec<Vec<String>>,
}
impl Notes {
    fn add(&mut self, i: usize, r: String) {
        let k = self.seen[i].entry(r.clone()).or_insert(0);
        *k += 1;
        if *k == 1 {
            self.first[i].push(r);
        }
    }
}

pub fn work(current: Arc<Mutex<Current>>) {
    let seed = std::env::var("HISTORY_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
    let mut d = Draw(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let (mut raw, mut cases, mut lines) = (Vec::new(), Vec::new(), Vec::new());
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        match &line[..1] {
            "F" | "M" => raw.push(load(&line)),
            "C" => {
                cases.push(parse_case(&line));
                lines.push(line);
            }
            _ => {}
        }
    }
    let metas: Vec<Meta> = raw.iter().map(|b| decode_meta(b, false)).collect();
    let n = cases.len();
    let mut notes = Notes { seen: (0..n).map(|_| HashMap::new()).collect(), first: vec![Vec::new(); n] };
    // one after the other, forwards and backwards, each twice the second time
    for i in (0..n).chain((0..n).rev()).chain((0..n).flat_map(|i| [i, i])) {
        busy(&current, Some(&lines[i]));
        notes.add(i, once(&cases[i], &metas[cases[i].m - 1]));
    }
    // in any order, memory failing in between, in this and other calls
    for i in d.order(n).into_iter().chain(d.order(n)) {
        let k = if d.next(2) == 0 { i } else { d.next(n) };
        busy(&current, Some(&lines[k]));
        failing(&cases[k], &metas[cases[k].m - 1], 1 + d.next(30), d.next(2) == 0);
        busy(&current, Some(&lines[i]));
        notes.add(i, once(&cases[i], &metas[cases[i].m - 1]));
    }
    // metadata made anew, in the place of others; the large ones now and then
    for i in d.order(n) {
        let b = &raw[cases[i].m - 1];
        if b.len() < 60_000 || d.next(12) == 0 {
            busy(&current, Some(&lines[i]));
            let fresh = Box::new(decode_meta(b, false));
            notes.add(i, once(&cases[i], &fresh));
        }
    }
    // several at once
    const THREADS: usize = 4;
    const WINDOW: usize = 6;
    let orders: Vec<Vec<usize>> = (0..THREADS).map(|_| d.order(n)).collect();
    let (cases_ref, metas_ref) = (&cases, &metas);
    busy(&current, lines.first().map(|l| l.as_str()));
    let results: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
        let handles: Vec<_> = orders
            .iter()
            .map(|o| {
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        o.iter().map(|i| (*i, once(&cases_ref[*i], &metas_ref[cases_ref[*i].m - 1]))).collect()
                    })
                    .unwrap()
            })
            .collect();
        handles.into_iter().map(|h| h.join().unwrap()).collect()
    });
    // the same few over and over, all threads at once
    let known: Vec<Vec<String>> = {
        let mut k = notes.first.clone();
        for (i, r) in results.iter().flatten() {
            if !k[*i].contains(r) {
                k[*i].push(r.clone());
            }
        }
        k
    };
    let many = if n == 0 { 0 } else { 40.min(n.div_ceil(WINDOW)) };
    let mut more: Vec<(usize, String)> = Vec::new();
    for _ in 0..many {
        let from = d.next(n);
        let few: Vec<usize> = (0..WINDOW).map(|k| (from + k) % n).filter(|i| known[*i].iter().all(|r| r.len() < 6000)).collect();
        if few.is_empty() {
            continue;
        }
        busy(&current, Some(&lines[few[0]]));
        let (few, known, seeds) = (&few, &known, (0..2 * THREADS).map(|_| d.next(few.len())).collect::<Vec<_>>());
        let found: Vec<Vec<(usize, String)>> = std::thread::scope(|s| {
            let handles: Vec<_> = seeds
                .iter()
                .map(|from| {
                    std::thread::Builder::new()
                        .stack_size(8 << 20)
                        .spawn_scoped(s, move || {
                            let (mut out, end) = (Vec::new(), Instant::now() + Duration::from_millis(100));
                            let mut k = *from;
                            while Instant::now() < end && out.is_empty() {
                                let i = few[k % few.len()];
                                let r = once(&cases_ref[i], &metas_ref[cases_ref[i].m - 1]);
                                if !known[i].contains(&r) {
                                    out.push((i, r));
                                }
                                k += 1;
                            }
                            out
                        })
                        .unwrap()
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap()).collect()
        });
        more.extend(found.into_iter().flatten());
    }
    busy(&current, None);
    for (i, r) in more {
        notes.add(i, r);
    }
    for (i, r) in results.into_iter().flatten() {
        notes.add(i, r);
    }
    let mut o = std::io::stdout().lock();
    for (i, c) in cases.iter().enumerate() {
        for (k, r) in notes.first[i].iter().enumerate() {
            let line = if k == 0 {
                r.clone()
            } else {
                r.replacen(&format!("\"id\":{}", crate::tokens::jstr(&c.id)), &format!("\"id\":{}", crate::tokens::jstr(&format!("{}~h{}", c.id, k))), 1)
            };
            writeln!(o, "{line}").unwrap();
        }
    }
    o.flush().unwrap();
}
