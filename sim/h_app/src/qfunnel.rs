//! Funnels: how many tries of users got how far.
use std::collections::BTreeMap;

use chrono::DateTime;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value as J;

use crate::query::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Funnel {
    pub span: Span,
    pub group: usize,
    pub steps: Vec<Vec<Sel>>,
    /// number and unit
    pub win: (i64, String),
    /// counted over time by this unit
    pub unit: Option<String>,
    pub unique: bool,
    pub exclude: Vec<(Sel, bool)>,
    pub breakdowns: Vec<P>,
    pub filters: Vec<Filt>,
}

impl Funnel {
    pub fn json(&self, n: &Names) -> J {
        let sels = |v: &[Sel]| v.iter().map(|s| evjson(n, s)).collect::<Vec<_>>();
        let mut b = json!({
            "time": self.span.json(),
            "group": if self.group == 0 { 0 } else { n.company },
            "steps": self.steps.iter().map(|s| json!({"events": sels(s), "order": {"type": "exact"}})).collect::<Vec<_>>(),
            "timeWindow": {"n": self.win.0, "unit": self.win.1},
            "chartType": match &self.unit {
                None => json!({"type": "steps"}),
                Some(u) => json!({"type": "conversionOverTime", "intervalUnit": u}),
            },
            "count": if self.unique { "unique" } else { "nonUnique" },
        });
        if !self.exclude.is_empty() {
            b["exclude"] = self
                .exclude
                .iter()
                .map(|(s, all)| {
                    let mut j = evjson(n, s);
                    if *all {
                        j["steps"] = json!({"type": "all"});
                    }
                    j
                })
                .collect();
        }
        if !self.breakdowns.is_empty() {
            b["breakdowns"] = self.breakdowns.iter().map(|p| bjson(n, p)).collect();
        }
        if !self.filters.is_empty() {
            b["filters"] = json!({"groups": [{"filters": self.filters.iter().map(|f| fjson(n, f)).collect::<Vec<_>>()}]});
        }
        b
    }

    fn window(&self) -> i64 {
        self.win.0
            * match self.win.1.as_str() {
                "hour" => 3_600_000,
                "day" => 86_400_000,
                "week" => 7 * 86_400_000,
                "month" => 31 * 86_400_000,
                _ => 372 * 86_400_000,
            }
    }
}

/// number of tries that got to the step, time from the step before, time from the start
#[derive(Clone, Debug, Default, PartialEq)]
struct Step {
    total: i64,
    time: i64,
    from_start: i64,
}

/// tries of one user, in the order of events: when each step was made
fn tries(w: &[Vec<Sel>], rows: &[&Row], f: &Funnel) -> Vec<Vec<i64>> {
    let mut out = vec![];
    let mut cur: Vec<i64> = vec![];
    for r in rows {
        if !cur.is_empty() {
            if f.exclude.iter().any(|(s, _)| matches(w, r, s)) {
                cur.clear();
            } else if r.ts - cur[0] > f.window() {
                out.push(std::mem::take(&mut cur));
            }
        }
        if f.steps[cur.len()].iter().any(|s| matches(w, r, s)) {
            cur.push(r.ts);
            if cur.len() == f.steps.len() {
                out.push(std::mem::take(&mut cur));
                if f.unique {
                    return out;
                }
            }
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

fn text(v: &Option<V>) -> String {
    match v {
        None => String::new(),
        Some(V::S(s)) => s.clone(),
        Some(V::B(b)) => b.to_string(),
        Some(V::D(ms)) => {
            let d = DateTime::from_timestamp_millis(*ms).unwrap();
            d.format(if ms % 1000 == 0 { "%Y-%m-%dT%H:%M:%S" } else { "%Y-%m-%dT%H:%M:%S%.3f" }).to_string()
        }
        Some(V::N(n)) => {
            let s = format!("{}{}.{:02}", if *n < 0 { "-" } else { "" }, n.abs() / 100, n.abs() % 100);
            s.trim_end_matches('0').trim_end_matches('.').to_string()
        }
    }
}

fn number(j: &J) -> Option<f64> {
    j.as_f64().or_else(|| j.as_str()?.parse().ok())
}

pub fn judge(w: &[Vec<Sel>], rows: &[&Row], f: &Funnel, b: &J) -> Result<usize, String> {
    // the tries, by values of the breakdowns and by users
    let mut by: BTreeMap<(String, usize), Vec<&Row>> = BTreeMap::new();
    for r in rows {
        let Some(who) = r.part(f.group) else { continue };
        if f.span.has(r.ts) && f.filters.iter().all(|x| fits(r, x)) {
            let key = format!("{:?}", f.breakdowns.iter().map(|p| r.get(p)).collect::<Vec<_>>());
            by.entry((key, who)).or_default().push(r);
        }
    }
    // by values and by time
    let mut want: BTreeMap<(String, i64), (Vec<Option<V>>, Vec<Step>)> = BTreeMap::new();
    for ((key, _), mut rs) in by {
        rs.sort_by_key(|r| (r.ts, r.id));
        // events of one time have no order
        let counts = |r: &Row| f.steps.iter().flatten().chain(f.exclude.iter().map(|(s, _)| s)).any(|s| matches(w, r, s));
        if rs.windows(2).any(|p| {
            // even an event that is no step may end a try, before another one excludes it
            let (a, b) = (counts(p[0]), counts(p[1]));
            p[0].ts == p[1].ts && (a && b || (a || b) && !f.exclude.is_empty())
        }) {
            simrt::probe("ties");
            return Ok(0);
        }
        let vals: Vec<Option<V>> = f.breakdowns.iter().map(|p| rs[0].get(p)).collect();
        for t in tries(w, &rs, f) {
            let at = match &f.unit {
                None => f.span.range().0,
                Some(u) => trunc(t[0], u),
            };
            let (_, s) = want
                .entry((key.clone(), at))
                .or_insert_with(|| (vals.clone(), vec![Step::default(); f.steps.len()]));
            for (i, ts) in t.iter().enumerate() {
                s[i].total += 1;
                if i > 0 {
                    s[i].time += ts - t[i - 1];
                    s[i].from_start += ts - t[0];
                }
            }
        }
    }
    let none = vec![];
    let steps = b["steps"].as_array().unwrap_or(&none);
    if steps.len() != f.steps.len() {
        return Err(format!("{} steps, should be {}: {b}", steps.len(), f.steps.len()));
    }
    let n = want.len();
    for (i, got) in steps.iter().enumerate() {
        if let Ev::Reg(name) = &f.steps[i][0].ev {
            if got["step"] != *name {
                return Err(format!("step {i} is called {}", got["step"]));
            }
        }
        let mut data: Vec<&J> = got["data"].as_array().unwrap_or(&none).iter().collect();
        if data.len() != n {
            return Err(format!("step {i}: {} rows, should be {n} ({want:?}): {b}", data.len()));
        }
        for ((_, at), (vals, s)) in &want {
            let st = &s[i];
            let prev = if i == 0 { st.total } else { s[i - 1].total };
            let per = |a: i64, b: i64| if b == 0 { 0.0 } else { a as f64 / b as f64 };
            let conv = 100.0 * per(st.total, s[0].total);
            let exp: [(&str, f64); 8] = [
                ("total", st.total as f64),
                ("droppedOff", (prev - st.total) as f64),
                ("timeToConvert", st.time as f64),
                ("timeToConvertFromStart", st.from_start as f64),
                ("conversionRatio", conv),
                ("dropOffRatio", 100.0 - conv),
                ("avgTimeToConvert", per(st.time, st.total)),
                ("avgTimeToConvertFromStart", per(st.from_start, st.total)),
            ];
            let same = |d: &J| {
                let g = d["groups"].as_array().map(|g| g.as_slice()).unwrap_or(&[]);
                d["ts"].as_i64() == Some(*at)
                    && g.len() == vals.len() + 1
                    && g[1..].iter().zip(vals).all(|(g, v)| {
                        let g = g.as_str().unwrap_or("?");
                        match v {
                            None => g.is_empty(),
                            Some(V::N(n)) => g.parse::<f64>().is_ok_and(|x| (x - *n as f64 / 100.0).abs() < 0.0006),
                            _ => g == text(v),
                        }
                    })
            };
            let close = |d: &J| {
                exp.iter().all(|(k, v)| number(&d[*k]).is_some_and(|g| (g - v).abs() < 0.006 + 1e-9 * v.abs()))
            };
            match data.iter().position(|d| same(d) && close(d)) {
                Some(k) => {
                    data.remove(k);
                }
                None => {
                    let near: Vec<_> = data.iter().filter(|d| same(d)).collect();
                    return Err(format!("step {i} of {vals:?} at {at} should be {exp:?}, answered {near:?} of {b}"));
                }
            }
        }
    }
    Ok(n)
}

pub fn gen(g: &mut G) -> Funnel {
    let n = 1 + g.r.usize(3) + (g.r.below(6) == 0) as usize;
    let steps = (0..n)
        .map(|_| {
            let k = 1 + (g.r.below(5) == 0) as usize;
            (0..k)
                .map(|_| {
                    let mut s = g.sel();
                    if g.r.below(2) == 0 {
                        s.filters.clear();
                    }
                    s
                })
                .collect()
        })
        .collect();
    let win = match g.r.below(6) {
        0 | 1 => (1 + g.r.below(30) as i64, "hour"),
        2 | 3 => (1 + g.r.below(3) as i64, "day"),
        4 => (1, "week"),
        _ => (1, if g.r.below(2) == 0 { "month" } else { "year" }),
    };
    let unit = if g.r.below(2) == 0 { Some(g.r.pick(&["hour", "day", "day", "week", "month"]).to_string()) } else { None };
    let exclude = if g.r.below(4) == 0 { vec![(g.sel(), g.r.below(2) == 0)] } else { vec![] };
    let breakdowns = g.bds(3);
    let unique = breakdowns.is_empty() && g.r.below(2) == 0;
    let filters = g.filts(4);
    let group = if g.r.below(4) == 0 { 1 } else { 0 };
    Funnel { span: g.span(&["day", "week"]), group, steps, win: (win.0, win.1.to_string()), unit, unique, exclude, breakdowns, filters }
}
