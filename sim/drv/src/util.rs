use simrt::rng::Rng;
use simrt::Cfg;
use simrt::Sched;

pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| {
        (h ^ b as u64).wrapping_mul(0x100000001b3)
    })
}

/// location part of a simulator panic message ("... at file.rs:123"), without the line
pub fn where_of(m: &str) -> String {
    match m.rsplit_once(" at ") {
        Some((msg, loc)) if loc.contains(".rs:") => {
            let f = loc.rsplit_once(':').map(|x| x.0).unwrap_or(loc);
            format!("{f}:{}", blur(msg))
        }
        _ => blur(m),
    }
}

/// a scheduler drawn swarm-style
pub fn sched(r: &mut Rng) -> Sched {
    match r.below(10) {
        0 => Sched::None,
        1..=5 => Sched::Random {
            num: *r.pick(&[8, 32, 96, 200, 400, 700]),
        },
        _ => Sched::Pct {
            d: 1 + r.below(6) as u32,
            len: *r.pick(&[200, 600, 2000, 6000]),
        },
    }
}

pub fn cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::new(r.next_u64());
    c.sched = sched(r);
    c.tick_ns = *r.pick(&[0, 1000, 50_000, 2_000_000]);
    c
}

/// message head without numbers (they vary between runs)
pub fn blur(m: &str) -> String {
    let mut o = String::new();
    for c in m.chars().take(90) {
        if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push(c);
        }
    }
    o.truncate(o.char_indices().nth(60).map(|x| x.0).unwrap_or(o.len()));
    o
}
