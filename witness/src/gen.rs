//! Deterministic generators: bounded-exhaustive small inputs first, then seeded random ones and
//! hand-picked extremes.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
}

/// all sequences over 0..k of length <= n, shortest first
pub fn all_seqs(k: u8, n: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for c in 0..k {
                let mut t = s.clone();
                t.push(c);
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

pub fn random_seq(r: &mut Rng, k: usize, max_len: usize) -> Vec<u8> {
    let n = r.below(max_len + 1);
    (0..n).map(|_| r.below(k) as u8).collect()
}

/// a random edit of `s`: a few deletions, insertions, replacements, duplications of stretches
pub fn mutate(r: &mut Rng, s: &[u8], k: usize, edits: usize) -> Vec<u8> {
    let mut v = s.to_vec();
    for _ in 0..edits {
        let at = r.below(v.len() + 1);
        match r.below(5) {
            0 => {
                let n = r.range(1, 3).min(v.len() - at);
                v.drain(at..at + n);
            }
            1 => {
                for _ in 0..r.range(1, 3) {
                    v.insert(at, r.below(k) as u8);
                }
            }
            2 => {
                let n = r.range(1, 3).min(v.len() - at);
                for i in at..at + n {
                    v[i] = r.below(k) as u8;
                }
            }
            3 => {
                // duplicate a stretch elsewhere
                let n = r.range(1, 6).min(v.len() - at);
                let piece: Vec<u8> = v[at..at + n].to_vec();
                let to = r.below(v.len() + 1);
                for (i, c) in piece.into_iter().enumerate() {
                    v.insert(to + i, c);
                }
            }
            _ => {
                // move a stretch
                let n = r.range(1, 6).min(v.len() - at);
                let piece: Vec<u8> = v.drain(at..at + n).collect();
                let to = r.below(v.len() + 1);
                for (i, c) in piece.into_iter().enumerate() {
                    v.insert(to + i, c);
                }
            }
        }
    }
    v
}

pub const CONTEXTS: [u8; 10] = [0, 1, 2, 3, 4, 7, 127, 128, 254, 255];

pub struct Limits {
    pub exhaustive3: usize,
    pub exhaustive2: usize,
    pub random: usize,
    pub extremes: bool,
}

pub fn limits(tier: &str) -> Limits {
    if tier == "thorough" {
        Limits {
            exhaustive3: 5,
            exhaustive2: 7,
            random: 60_000,
            extremes: true,
        }
    } else {
        Limits {
            exhaustive3: 4,
            exhaustive2: 6,
            random: 6_000,
            extremes: true,
        }
    }
}

/// Pairs of abstract sequences, in a fixed order.
pub fn pairs(tier: &str, seed: u64) -> Vec<(Vec<u8>, Vec<u8>)> {
    let lim = limits(tier);
    let mut out = vec![];
    // regression shapes: a swallowed mismatch, changes at both ends, repeats
    for (a, b) in [
        (&b"abxc"[..], &b"abyc"[..]),
        (b"abxcd", b"abycd"),
        (b"xabc", b"yabc"),
        (b"abcx", b"abcy"),
        (b"aaaa", b"aaa"),
        (b"abab", b"baba"),
    ] {
        out.push((
            a.iter().map(|c| c - b'a').collect(),
            b.iter().map(|c| c - b'a').collect(),
        ));
    }
    let s3 = all_seqs(3, lim.exhaustive3.min(4));
    for a in &s3 {
        for b in &s3 {
            out.push((a.clone(), b.clone()));
        }
    }
    let s2 = all_seqs(2, lim.exhaustive2);
    for a in &s2 {
        for b in &s2 {
            if a.len() > 4 || b.len() > 4 {
                out.push((a.clone(), b.clone()));
            }
        }
    }
    let mut r = Rng::new(seed);
    for i in 0..lim.random {
        let k = *r.pick(&[2usize, 3, 4, 6, 12, 25]);
        let max = *r.pick(&[8usize, 15, 30, 60]);
        let a = random_seq(&mut r, k, max);
        let edits = r.range(0, 6);
        let b = if i % 5 == 0 {
            random_seq(&mut r, k, max)
        } else {
            mutate(&mut r, &a, k, edits)
        };
        if r.chance(1, 2) {
            out.push((a, b))
        } else {
            out.push((b, a))
        }
    }
    if lim.extremes {
        // long unchanged stretches around the u8 limits, at the front, in the middle, at the end
        let run = |n: usize, salt: usize| -> Vec<u8> {
            (0..n).map(|i| ((i * 7 + i / 11 + salt) % 23) as u8).collect()
        };
        for &n in &[254usize, 255, 256, 257, 300, 508, 509, 510, 511, 512, 513, 600] {
            for shape in 0..4 {
                let mut a = vec![];
                let mut b = vec![];
                if shape != 1 {
                    a.extend(run(n, 3));
                    b.extend(run(n, 3));
                }
                a.push(24);
                b.extend([25, 26]);
                if shape != 0 {
                    a.extend(run(n, 5));
                    b.extend(run(n, 5));
                }
                if shape == 3 {
                    a.extend([27, 28]);
                    b.push(29);
                    a.extend(run(3, 0));
                    b.extend(run(3, 0));
                }
                out.push((a, b));
            }
        }
        let a = run(1500, 1);
        let mut r2 = Rng::new(seed ^ 77);
        let b = mutate(&mut r2, &a, 40, 25);
        out.push((a, b));
    }
    out
}

/// how abstract items become lines
pub fn line(c: u8) -> String {
    match c {
        0 => "a\n".into(),
        1 => "b\n".into(),
        2 => "\n".into(),
        3 => "a \n".into(),
        4 => " a\n".into(),
        5 => "a\r\n".into(),
        6 => "é中\n".into(),
        7 => "-a\n".into(),
        8 => "+a\n".into(),
        9 => "\\ No newline at end of file\n".into(),
        10 => "A\n".into(),
        11 => "@@ -1 +1 @@\n".into(),
        // long lines that differ only near the end, and other unusual ones
        13 => format!("{}\n", "long ".repeat(60)),
        14 => format!("{}x\n", "long ".repeat(60)),
        15 => "\u{feff}a\n".into(),
        16 => "a\0b\n".into(),
        17 => "\t\n".into(),
        18 => "e\u{301}\u{2028}\n".into(),
        19 => "\r\n".into(),
        20 => format!("{}\n", "é".repeat(700)),
        21 => "-- a\n".into(),
        22 => "++ b\n".into(),
        // equally long lines that differ in the middle only
        23 => format!("{}x{}\n", "long ".repeat(30), "line ".repeat(30)),
        24 => format!("{}y{}\n", "long ".repeat(30), "line ".repeat(30)),
        _ => format!("line {c}\n"),
    }
}

/// text of a sequence; bit 0 of `cut` drops the final newline
pub fn text(s: &[u8], cut: bool) -> String {
    let mut t: String = s.iter().map(|c| line(*c)).collect();
    if cut && t.len() > 1 && t.ends_with('\n') {
        t.pop();
    }
    t
}

/// byte values for an abstract sequence (spread over the whole range)
pub fn bytes(s: &[u8], salt: u8) -> Vec<u8> {
    s.iter()
        .map(|c| match salt % 3 {
            0 => *c,
            1 => 255 - *c,
            _ => c.wrapping_mul(37).wrapping_add(120),
        })
        .collect()
}

/// Pairs of large texts: many clumps, positions beyond 65536, long lines.
pub fn big_texts(seed: u64) -> Vec<(String, String)> {
    let mut out = vec![];
    let numbered = |n: usize, edit: &dyn Fn(usize) -> Option<&'static str>| -> String {
        let mut t = String::new();
        for i in 0..n {
            match edit(i) {
                Some("drop") => {}
                Some("new") => t.push_str(&format!("line {i}\nnew {i}\n")),
                Some(_) => t.push_str(&format!("line {i} changed\n")),
                None => t.push_str(&format!("line {i}\n")),
            }
        }
        t
    };
    // a change every eight lines: far more than 255 clumps
    out.push((
        numbered(3000, &|_| None),
        numbered(3000, &|i| if i % 8 == 3 { [Some("drop"), Some("new"), Some("edit")][i / 8 % 3] } else { None }),
    ));
    // changes after item 65536
    out.push((
        numbered(70_000, &|_| None),
        numbered(70_000, &|i| match i {
            5 | 65_534 | 69_000 => Some("new"),
            66_000 | 66_001 => Some("drop"),
            69_990 => Some("edit"),
            _ => None,
        }),
    ));
    // everything replaced, one whole side missing
    out.push((numbered(700, &|_| None), numbered(700, &|_| Some("edit"))));
    out.push((numbered(1000, &|_| None), String::new()));
    // a long stretch taken out, and put in elsewhere
    let a = numbered(2000, &|_| None);
    let b = numbered(2000, &|i| if (300..900).contains(&i) { Some("drop") } else { None })
        + &numbered(900, &|i| if i < 300 { Some("drop") } else { None });
    out.push((a, b));
    // a very long line
    let long = "x".repeat(70_000);
    out.push((format!("a\n{long}\nb\n"), format!("a\n{long}y\nb\n")));
    out.push((format!("a\n{long}yz\nb\n"), format!("c\n{long}yz\nc\n{long}")));
    // a short common stretch early, a long one after item 65536
    let (short, tail) = (numbered(100, &|_| None), numbered(2500, &|i| if i < 500 { Some("drop") } else { None }));
    let mut filler = "filler\n".repeat(10);
    for i in 0..66_000 {
        filler.push_str(&format!("filler {i}\n"));
    }
    out.push((short.clone() + &filler + &tail, short.clone() + "other\n" + &tail));
    out.push((short.clone() + "other\n" + &tail, short + &filler + &tail));
    // a blank line after every line
    let a = numbered(1200, &|_| None).replace('\n', "\n\n");
    let b = numbered(1200, &|i| if i % 290 == 7 { Some("edit") } else { None }).replace('\n', "\n\n");
    out.push((a, b));
    // unchanged lines that stand alone, and in pairs
    for (every, n) in [(2, 401), (3, 700), (1, 300)] {
        let a = numbered(n, &|_| None);
        let b = numbered(n, &|i| match every {
            1 if i * 7 % 10 < 4 => None,
            2 | 3 if i % every == 1 => None,
            _ => Some("edit"),
        });
        out.push((a, b));
    }
    // one line over and over
    out.push(("same\n".repeat(500) + "end\n", "same\n".repeat(250) + "new\n" + &"same\n".repeat(260)));
    // common beginnings and endings that overlap
    for period in [1, 2, 7, 100] {
        let once = numbered(period, &|_| None);
        let a = once.repeat(420 / period);
        out.push((a.clone(), once.clone() + &a));
        out.push((once.clone() + &once + &a, a.clone()));
        out.push((once.clone() + "x\n" + &a, a));
    }
    // the same few lines again and again
    let mut r = Rng::new(seed ^ 0xB16);
    let s = random_seq(&mut r, 4, 900);
    let t = mutate(&mut r, &s, 4, 30);
    out.push((text(&s, false), text(&t, true)));
    out
}

/// Pairs of large byte contents.
pub fn big_bytes(seed: u64) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut r = Rng::new(seed ^ 0xB17);
    let a: Vec<u8> = (0..3000).map(|_| r.next() as u8).collect();
    let mut b = a.clone();
    for i in 0..300 {
        let at = i * 10;
        b[at] = b[at].wrapping_add(1);
    }
    let mut c = a.clone();
    c.drain(700..1300);
    c.extend([0, 255, 0]);
    let mut n: Vec<u8> = vec![];
    for i in 0..4000u16 {
        n.extend(i.to_be_bytes());
    }
    let mut m = n.clone();
    m.insert(7500, 9);
    m.remove(3);
    // changes after item 65536
    let far: Vec<u8> = (0..66_500).map(|_| r.next() as u8).collect();
    let mut there = far.clone();
    there[66_000] ^= 1;
    there.drain(66_200..66_203);
    there.splice(66_300..66_300, [1, 2, 3]);
    let mut out = vec![(a.clone(), b), (a.clone(), c), (a, vec![]), (n, m), (far, there)];
    // common beginnings and endings that overlap
    for period in [1, 2, 7, 100] {
        let once: Vec<u8> = (0..period).collect();
        let a = once.repeat(420 / once.len());
        out.push((a.clone(), [&once[..], &a].concat()));
        out.push(([&once[..], &once, &a].concat(), a.clone()));
        out.push(([&once[..], &[255], &a].concat(), a));
    }
    out
}
