//! I01 I02 I03 I04 I05: integrating point clouds into maps.

use kuba::prelude::*;
use kuba_mc::alphabet::*;
use kuba_mc::engine::*;
use kuba_mc::ensure;
use kuba_mc::rayref::*;
use kuba_mc::space::*;
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------------------------------------
// Reference: what a cloud observes, in cells of the world grid (cell k is centered at k * resolution).

#[derive(Clone, Debug)]
struct Shot {
    name: String,
    o: V,
    pts: Vec<V>,
    free: BTreeSet<C>,
    hits: BTreeSet<C>,
}

/// None if a ray or its range is too close to a tie to have one right answer.
fn shot(d: usize, res: f32, range: f32, o: V, pts: &[V], name: String) -> Option<Shot> {
    let f = Frame { min: [0.0; 3], res, d };
    let mut s = Shot { name, o, pts: pts.to_vec(), free: BTreeSet::new(), hits: BTreeSet::new() };
    let a = f.pos(o);
    let lim = range as f64 / res as f64;
    for p in pts {
        let cells = exact(&a, &f.pos(*p), 2e-3, d)?;
        let (last, path) = cells.split_last().unwrap();
        let mut cut = false;
        for (i, c) in path.iter().enumerate() {
            if i > 0 && range > 0.0 {
                let dist = (0..d).map(|i| (c[i] as f64 - a[i]).powi(2)).sum::<f64>().sqrt();
                if (dist - lim).abs() < 2e-3 {
                    return None;
                }
                if dist > lim {
                    cut = true;
                    break;
                }
            }
            s.free.insert(*c);
        }
        if !cut {
            s.hits.insert(*last);
        }
    }
    for c in &s.hits {
        s.free.remove(c);
    }
    Some(s)
}

fn at(q: [f64; 3], res: f32, d: usize) -> V {
    let mut p = [0.0; 3];
    for i in 0..d {
        p[i] = (q[i] * res as f64) as f32;
    }
    p
}

#[derive(Clone, Copy, Debug)]
struct Cfg {
    res: f32,
    tile: usize,
    range: f32,
}

fn model(range: f32) -> kuba::LidarNoiseModel {
    let mut m = kuba::LidarNoiseModel::default();
    m.max_range = range;
    m
}

// The constants of the noise model, independent of kuba.
fn lo(p: f32) -> f64 {
    let p = p as f64;
    (p / (1.0 - p)).ln()
}

struct Odds {
    hit: f64,
    miss: f64,
    min: f64,
    max: f64,
}
fn default_odds() -> Odds {
    Odds { hit: lo(0.7), miss: lo(0.4), min: lo(0.1192), max: lo(0.971) }
}

fn map_region<O: OccApi>(m: &O) -> Result<Option<(C, C)>, String> {
    let b = m.bounds();
    let d = O::S::D;
    if (0..d).all(|i| b.0[i] == 0.0 && b.1[i] == 0.0) {
        return Ok(None);
    }
    region(b, m.resolution(), d).map(Some)
}

// ---------------------------------------------------------------------------------------------
// I02 and I04: a map next to its reference.

struct St<O> {
    map: O,
    values: BTreeMap<C, f64>,
    tracked: BTreeSet<C>,
    tracking: bool,
}

impl<O: OccApi> St<O> {
    fn new(map: O) -> Self {
        St { map, values: BTreeMap::new(), tracked: BTreeSet::new(), tracking: false }
    }
    fn copy(&self) -> Self {
        St { map: self.map.copy(), values: self.values.clone(), tracked: self.tracked.clone(), tracking: self.tracking }
    }
    fn integrate(&mut self, s: &Shot, odds: &Odds) -> Result<(), String> {
        sut(|| self.map.integrate(s.o, &s.pts)).map_err(|e| format!("integrating {} failed: {}", s.name, e))?;
        for c in &s.free {
            let v = self.values.entry(*c).or_insert(0.0);
            *v = (*v + odds.miss).max(odds.min);
        }
        for c in &s.hits {
            let v = self.values.entry(*c).or_insert(0.0);
            *v = (*v + odds.hit).min(odds.max);
        }
        if self.tracking {
            self.tracked.extend(s.free.iter().chain(&s.hits));
        }
        Ok(())
    }
    /// Every location of the map holds what the reference says.
    fn judge_values(&self) -> Result<(), String> {
        let Some((a, b)) = map_region(&self.map)? else {
            ensure!(self.values.is_empty(), "the map is empty although cells were observed");
            return Ok(());
        };
        let d = O::S::D;
        for c in self.values.keys() {
            ensure!(inside(*c, a, b, d), "observed location {:?} (in cells) is outside of the map {:?}", c, (a, b));
        }
        each_cell(a, b, |w| {
            let v = sut(|| self.map.get(sub(w, a))).map_err(|e| format!("location {:?} of map {:?}: {}", w, (a, b), e))?;
            match self.values.get(&w) {
                None => ensure!(v == 0.0, "location {:?} (in cells) was never observed, but holds {}", w, v),
                Some(r) => ensure!((v as f64 - r).abs() < 2e-4, "location {:?} (in cells) holds {} instead of {}", w, v, r),
            }
            Ok(())
        })
    }
    fn judge_tracked(&self) -> Result<(), String> {
        let got = self.map.changed();
        let a = map_region(&self.map)?.map(|r| r.0).unwrap_or([0; 3]);
        let got: BTreeSet<C> = got.into_iter().map(|c| add(c, a)).collect();
        ensure!(
            got == self.tracked,
            "the changed cells are (in cells of the world) {:?}, expected {:?} (missing {:?}, extra {:?})",
            got.iter().take(20).collect::<Vec<_>>(),
            self.tracked.iter().take(20).collect::<Vec<_>>(),
            self.tracked.difference(&got).take(5).collect::<Vec<_>>(),
            got.difference(&self.tracked).take(5).collect::<Vec<_>>()
        );
        ensure!(self.map.tracking() == self.tracking, "tracking is reported as {} after it was set to {}", self.map.tracking(), self.tracking);
        Ok(())
    }
}

/// Sensor positions and points without ties, in cells.
const ORIGINS: [[f64; 3]; 6] = [
    [0.13, -0.22, 0.31],
    [2.27, 1.18, -1.36],
    [-3.37, 0.41, 0.17],
    [0.19, -4.29, 2.23],
    [7.21, 6.33, -0.14],
    [-6.11, -8.23, -3.19],
];
const POINTS: [[f64; 3]; 16] = [
    [3.07, -0.12, 0.33],
    [3.29, 0.23, -0.17],
    [-2.93, 0.34, 0.11],
    [0.41, 2.84, -0.26],
    [-0.31, -3.13, 0.44],
    [2.16, 2.05, 1.93],
    [-2.24, -1.87, -1.11],
    [0.06, 0.18, 0.04],
    [1.03, -0.91, 0.27],
    [5.88, 3.77, -2.14],
    [-5.16, 4.09, 3.21],
    [4.35, -5.74, 0.08],
    [9.12, 0.07, 0.21],
    [-0.14, 0.26, -4.82],
    [3.11, -0.07, 4.19],
    [12.31, -11.17, 1.36],
];

fn pick(idx: &[usize], res: f32, d: usize) -> Vec<V> {
    idx.iter().map(|i| at(POINTS[*i], res, d)).collect()
}

const CLOUDS: [&[usize]; 12] = [
    &[0],
    &[0, 1],
    &[2, 3, 4],
    &[7],
    &[5, 8, 0],
    &[6, 6, 6],
    &[9, 5],
    &[10, 2],
    &[11, 8],
    &[12, 0, 1],
    &[13, 14],
    &[15, 0, 5, 9],
];

fn shots(cfg: &Cfg, d: usize, origins: &[usize], clouds: &[usize]) -> Vec<Shot> {
    let mut v = vec![];
    for o in origins {
        for k in clouds {
            v.extend(shot(
                d,
                cfg.res,
                cfg.range,
                at(ORIGINS[*o], cfg.res, d),
                &pick(CLOUDS[*k], cfg.res, d),
                format!("cloud {} of points {:?} from origin {}", k, CLOUDS[*k], o),
            ));
        }
    }
    assert!(v.len() * 3 >= origins.len() * clouds.len(), "too few tie-free clouds: {}", v.len());
    v
}

fn i02<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    let odds = default_odds();
    // Every cloud of up to three points, from every origin, into a fresh map and again.
    let cfgs: &[Cfg] = &[
        Cfg { res: 0.1, tile: 10, range: 60.0 },
        Cfg { res: 0.5, tile: 3, range: 0.0 },
        Cfg { res: 0.25, tile: 1, range: 0.9 },
        Cfg { res: 1.0, tile: 7, range: 3.3 },
        Cfg { res: 0.3, tile: 2, range: 1.7 },
    ];
    let np = if d == 3 && !th { 11 } else { POINTS.len() };
    let no = if th { 6 } else { 4 };
    c.tree(&format!("{}-clouds", S::NAME), |ch| {
        let cfg = *ch.of(cfgs);
        let o = ch.int(no);
        let n = 1 + ch.int(3);
        let mut idx = vec![];
        for _ in 0..n {
            // In every order and with repetitions up to two points, as sets beyond.
            let from = if n > 2 { idx.last().map(|i| i + 1).unwrap_or(0) } else { 0 };
            if from >= np {
                return Ok(Obs::new(false, 0));
            }
            idx.push(from + ch.int(np - from));
        }
        let pts = pick(&idx, cfg.res, d);
        let name = format!("points {:?} from origin {} with {:?}", idx, o, cfg);
        ch.note(|| name.clone());
        let Some(s) = shot(d, cfg.res, cfg.range, at(ORIGINS[o], cfg.res, d), &pts, name) else {
            return Ok(Obs::new(false, 1));
        };
        let mut st = St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile));
        st.integrate(&s, &odds)?;
        st.judge_values()?;
        st.integrate(&s, &odds)?;
        st.judge_values()?;
        Ok(Obs::new(!s.free.is_empty(), (&s.free, &s.hits)))
    });
    // Points at the sensor itself or in its cell, alone or with others, in a fresh map and one that has other cells.
    c.tree(&format!("{}-at-sensor", S::NAME), |ch| {
        let cfg = *ch.of(cfgs);
        let o = *ch.of(&[[0.0, 0.0, 0.0], [0.13, -0.22, 0.31], [-7.0, 2.0, 5.0], [4.25, -3.25, 0.0], [-0.375, 12.125, -9.0]]);
        let off = [[0.0, 0.0, 0.0], [0.0, 0.0625, 0.0], [0.03, -0.02, 0.04], [3.07, 0.06, 0.11], [-1.93, 0.09, -0.04]];
        let n = 1 + ch.int(3);
        let idx: Vec<usize> = (0..n).map(|_| ch.int(off.len())).collect();
        let before = ch.flag();
        let origin = at(o, cfg.res, d);
        let pts: Vec<V> = idx.iter().map(|i| at([0, 1, 2].map(|k| o[k] + off[*i][k]), cfg.res, d)).collect();
        ch.note(|| format!("origin {:?} points {:?} with {:?} map with other cells {}", origin, pts, cfg, before));
        let Some(s) = shot(d, cfg.res, cfg.range, origin, &pts, format!("points {:?} from {:?}", pts, origin)) else {
            return Ok(Obs::new(false, 1));
        };
        let mut st = St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile));
        if before {
            let Some(b) = shot(d, cfg.res, cfg.range, at([-4.0, -5.0, 3.0], cfg.res, d), &[at([7.07, 5.12, -6.31], cfg.res, d)], "the first cloud".into()) else {
                return Ok(Obs::new(false, 2));
            };
            st.integrate(&b, &odds)?;
        }
        for _ in 0..2 {
            st.integrate(&s, &odds)?;
            st.judge_values()?;
        }
        Ok(Obs::new(true, (&s.free, &s.hits)))
    });
    // Histories: all sequences of clouds and origins.
    let hist: &[(Cfg, usize)] = if d == 2 {
        &[
            (Cfg { res: 0.1, tile: 5, range: 60.0 }, 4),
            (Cfg { res: 0.5, tile: 2, range: 2.2 }, 4),
            (Cfg { res: 0.1, tile: 100, range: 60.0 }, 3),
            (Cfg { res: 1.0, tile: 1, range: 0.0 }, 4),
        ]
    } else {
        &[
            (Cfg { res: 0.1, tile: 5, range: 60.0 }, 4),
            (Cfg { res: 0.5, tile: 2, range: 2.2 }, 4),
            (Cfg { res: 1.0, tile: 8, range: 0.0 }, 3),
        ]
    };
    for (i, (cfg, depth)) in hist.iter().enumerate() {
        let (os, cs): (Vec<usize>, Vec<usize>) = match (d, th) {
            (2, false) => ((0..4).collect(), vec![0, 2, 3, 4, 6, 9]),
            (2, true) => ((0..6).collect(), (0..12).collect()),
            (_, false) => ((0..3).collect(), vec![0, 2, 4, 9]),
            _ => ((0..4).collect(), vec![0, 2, 3, 4, 6, 9, 10]),
        };
        let al = shots(cfg, d, &os, &cs);
        c.bfs(
            &format!("{}-histories-{}", S::NAME, i),
            vec![St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile))],
            al.len(),
            *depth,
            400_000,
            |a| al[a].name.clone(),
            |s, a| {
                let mut n = s.copy();
                n.integrate(&al[a], &odds)?;
                n.judge_values()?;
                Ok(Some(n))
            },
            |s| key128((format!("{:?}", s.map.bounds()), s.values.iter().map(|(k, v)| (*k, (v * 1e4).round() as i64)).collect::<Vec<_>>())),
        );
    }
    // Many repetitions of few clouds from one place: saturation in both directions.
    let cfg = Cfg { res: 0.1, tile: 8, range: 60.0 };
    let al = shots(&cfg, d, &[0], &[0, 4, 9]);
    c.bfs(
        &format!("{}-evidence", S::NAME),
        vec![St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile))],
        al.len(),
        if th { 40 } else { 20 },
        400_000,
        |a| al[a].name.clone(),
        |s, a| {
            let mut n = s.copy();
            n.integrate(&al[a], &odds)?;
            n.judge_values()?;
            Ok(Some(n))
        },
        |s| key128((format!("{:?}", s.map.bounds()), s.values.iter().map(|(k, v)| (*k, (v * 1e4).round() as i64)).collect::<Vec<_>>())),
    );
    // Clouds of thousands of points: spread out, in a few cells, all behind each other.
    let sizes: &[usize] = if th { &[65, 129, 257, 513, 1025, 2049, 4097, 8193, 16385, 40000, 70000] } else { &[65, 257, 1025, 3000, 9000] };
    c.tree(&format!("{}-large", S::NAME), |ch| {
        let cfg = *ch.of(&[Cfg { res: 0.1, tile: 10, range: 60.0 }, Cfg { res: 0.5, tile: 4, range: 2.9 }]);
        let n = *ch.of(sizes);
        let layout = ch.int(3);
        let o = ORIGINS[ch.int(2)];
        let origin = at(o, cfg.res, d);
        let u = |i: usize, m: usize| -> f64 { ((i * m + 17) % 65521) as f64 / 65521.0 * 2.0 - 1.0 };
        let mut pts: Vec<V> = vec![];
        let mut i = 0;
        while pts.len() < n {
            i += 1;
            let (x, y, z) = (u(i, 7919), u(i, 30103), u(i, 12347));
            let q = match layout {
                0 => [12.0 * x, 12.0 * y, 6.0 * z],
                1 => {
                    let k = POINTS[[0, 4, 5, 9, 10][i % 5]];
                    [k[0].round() + 0.45 * x, k[1].round() + 0.45 * y, k[2].round() + 0.45 * z]
                }
                _ => {
                    let r = 11.0 * x.abs();
                    [o[0] + r + 0.05, o[1] + 0.37 * r + 0.001 * y, o[2] + 0.1 * z]
                }
            };
            let p = at(q, cfg.res, d);
            // The first points only once each; a tie-free cloud consists of tie-free rays.
            if shot(d, cfg.res, cfg.range, origin, &[p], String::new()).is_some() {
                pts.push(p);
            }
            assert!(i < 50 * n + 1000, "too few tie-free rays");
        }
        ch.note(|| format!("{} points in layout {} with {:?} from {:?}", n, layout, cfg, origin));
        let s = shot(d, cfg.res, cfg.range, origin, &pts, format!("the cloud of {} points", n)).unwrap();
        let mut st = St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile));
        for _ in 0..3 {
            st.integrate(&s, &odds)?;
            st.judge_values()?;
        }
        Ok(Obs::new(true, (&s.free, &s.hits)))
    });
    // Ranges that end exactly at the center of a cell: nothing is exactly a tie but the range.
    c.tree(&format!("{}-exact-range", S::NAME), |ch| {
        let (res, tile) = *ch.of(&[(1.0f32, 4usize), (0.5, 1), (0.25, 10), (2.0, 3)]);
        // Directions in cells without ties of crossings; multiples have cells at exact distances.
        let dirs: &[[i64; 3]] = &[[1, 0, 0], [0, 1, 0], [-1, 0, 0], [0, -1, 0], [3, 4, 0], [-4, 3, 0], [4, -3, 0], [5, 12, 0], [-8, -15, 0]];
        let dir = *ch.of(dirs);
        let (dir, swap) = if d == 3 && ch.flag() { ([dir[2], dir[0], dir[1]], true) } else { (dir, false) };
        let l = (0..3).map(|i| (dir[i] * dir[i]) as f64).sum::<f64>().sqrt();
        let n = 2 + ch.int(4) as i64;
        let reach = if l < 2.0 { 6 * n } else { n };
        // The range in multiples of the direction, slightly shorter, exact, slightly longer.
        let j = 1 + ch.int(reach as usize);
        let eps = *ch.of(&[-1e-6f64, 0.0, 1e-6]);
        let range = (j as f64 * l * (1.0 + eps) * res as f64) as f32;
        let o = *ch.of(&[[0i64, 0, 0], [3, -5, 7]]);
        let org = at([o[0] as f64, o[1] as f64, o[2] as f64], res, d);
        let mut e = [0.0; 3];
        for i in 0..d {
            e[i] = (o[i] + reach * dir[i]) as f64;
        }
        let end = at(e, res, d);
        ch.note(|| format!("resolution {} from {:?} to {:?} range {}", res, org, end, range));
        let f = Frame { min: [0.0; 3], res, d };
        let cells = exact(&f.pos(org), &f.pos(end), 1e-9, d).ok_or(format!("a tie ({})", swap))?;
        let (last, path) = cells.split_last().unwrap();
        let mut s = Shot { name: "the ray".into(), o: org, pts: vec![end], free: BTreeSet::new(), hits: BTreeSet::new() };
        let mut cut = false;
        for (i, c) in path.iter().enumerate() {
            let sq: i64 = (0..d).map(|k| (c[k] - o[k]).pow(2)).sum();
            // j * l is an integer: the exact distance.
            let lim = (j as f64 * l).round() as i64;
            let beyond = if sq == lim * lim { eps < 0.0 } else { sq > lim * lim };
            if i > 0 && beyond {
                cut = true;
                break;
            }
            s.free.insert(*c);
        }
        if !cut {
            s.hits.insert(*last);
        }
        let mut st = St::new(S::Occ::make(model(range), res, tile));
        st.integrate(&s, &odds)?;
        st.judge_values()?;
        Ok(Obs::new(cut, (s.free, s.hits)))
    });
    // From millimeters to kilometers: only the size in cells matters.
    c.tree(&format!("{}-scales", S::NAME), |ch| {
        let res = *ch.of(&[0.001f32, 0.01, 3.0, 20.0, 100.0, 1000.0]);
        let range = *ch.of(&[0.0f64, 2.6, 30.3, 59.1, 200.0]) * res as f64;
        let cfg = Cfg { res, tile: 7, range: range as f32 };
        let o = *ch.of(&[[0.17, -0.23, 0.29], [-31.4, 12.1, 2.2]]);
        let len = *ch.of(&[4.3f64, 25.2, 55.7, 80.1]);
        let n = 1 + 6 * ch.int(2);
        let origin = at(o, res, d);
        let pts: Vec<V> = (0..n)
            .map(|i| {
                let g = 0.37 + i as f64 * 0.91;
                let el = if d == 3 { 0.13 - 0.11 * i as f64 } else { 0.0 };
                at([o[0] + len * g.cos() * f64::cos(el), o[1] + len * g.sin() * f64::cos(el), o[2] + 0.3 * len * f64::sin(el)], res, d)
            })
            .filter(|p| shot(d, res, cfg.range, origin, &[*p], String::new()).is_some())
            .collect();
        ch.note(|| format!("{:?} with {:?} from {:?}", pts, cfg, origin));
        if pts.is_empty() {
            return Ok(Obs::new(false, 0));
        }
        let s = shot(d, res, cfg.range, origin, &pts, "the cloud".into()).unwrap();
        let mut st = St::new(S::Occ::make(model(cfg.range), res, cfg.tile));
        for _ in 0..2 {
            st.integrate(&s, &odds)?;
            st.judge_values()?;
        }
        Ok(Obs::new(true, (s.free, s.hits)))
    });
    // Scans that observe hundreds of thousands of cells.
    let rays = if th { 1500 } else { 700 };
    c.tree(&format!("{}-wide", S::NAME), |ch| {
        let tile = if d == 2 { 50 } else { 5 };
        let cfg = *ch.of(&[Cfg { res: 0.1, tile, range: 60.0 }, Cfg { res: 0.5, tile: tile + 3, range: 0.0 }]);
        let flat = if d == 2 { 0.0 } else { 1.9 };
        let origin = at([0.13, -0.22, 0.31], cfg.res, d);
        let mut pts: Vec<V> = vec![];
        for i in 0..rays {
            let g = i as f64 * 2.399963 + 0.001;
            let len = 330.0 + 200.0 * ((i * 37) % 101) as f64 / 101.0;
            pts.push(at([len * g.cos(), len * g.sin(), flat * ((i as f64) * 0.73).sin()], cfg.res, d));
        }
        ch.note(|| format!("{} points with {:?}", pts.len(), cfg));
        // Rays this long have ties: what they observe is what cast_ray says (judged by R01).
        let mut map = S::Occ::make(model(cfg.range), cfg.res, cfg.tile);
        sut(|| map.integrate(origin, &pts)).map_err(|e| format!("integrating {} points failed: {}", pts.len(), e))?;
        let (a, b) = map_region(&map)?.ok_or("the map is empty although cells were observed")?;
        let mut seen: BTreeMap<C, bool> = BTreeMap::new();
        for p in &pts {
            let (path, end) = S::cast_ray(origin, *p, map.bounds(), cfg.res, cfg.range);
            for c in path {
                seen.entry(add(c, a)).or_insert(false);
            }
            if let Some(c) = end {
                seen.insert(add(c, a), true);
            }
        }
        let mut wrong = 0;
        let mut example = String::new();
        let mut count = 0;
        each_cell(a, b, |w: C| -> Result<(), String> {
            let v = sut(|| map.get(sub(w, a))).map_err(|e| format!("location {:?} of map {:?}: {}", w, (a, b), e))?;
            let r = match seen.get(&w) {
                None => 0.0,
                Some(true) => odds.hit,
                Some(false) => odds.miss,
            };
            count += seen.contains_key(&w) as usize;
            if (v as f64 - r).abs() > 2e-4 {
                wrong += 1;
                example = format!("location {:?} (in cells) holds {} instead of {}", w, v, r);
            }
            Ok::<(), String>(())
        })?;
        ensure!(count == seen.len(), "{} observed locations are outside of the map", seen.len() - count);
        // A map may decide ties otherwise.
        ensure!(wrong * 1000 <= seen.len(), "{} of {} observed locations hold other values: {}", wrong, seen.len(), example);
        Ok(Obs::new(true, seen.len() / 100))
    });
    // A driving sensor with dense scans: the map grows all the time in every direction.
    let steps = if th { 60 } else { 24 };
    let rays = if d == 2 { 180 } else { 400 };
    c.tree(&format!("{}-drives", S::NAME), |ch| {
        let cfg = *ch.of(&[
            Cfg { res: 0.25, tile: 10, range: 60.0 },
            Cfg { res: 0.1, tile: 20, range: 1.23 },
            Cfg { res: 0.5, tile: 5, range: 0.0 },
        ]);
        let dir = ch.int(8);
        let turn = *ch.of(&[0.0, 0.31, -0.13]);
        let mut st = St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile));
        let mut q = [0.17, -0.23, 0.29];
        let mut yaw = dir as f64 / 8.0 * std::f64::consts::TAU + 0.01;
        ch.note(|| format!("{:?} heading {} turning {}", cfg, yaw, turn));
        let mut skipped = 0;
        for k in 0..steps {
            let mut pts = vec![];
            for r in 0..rays {
                let az = r as f64 * 2.399963;
                let el = if d == 3 { 1.0 - 2.0 * (r as f64 + 0.5) / rays as f64 } else { 0.0 };
                let len = 3.0 + ((r * 7 + k * 13) % 11) as f64 * 0.83;
                let h = (1.0f64 - el * el).sqrt();
                let p = [q[0] + len * h * (yaw + az).cos(), q[1] + len * h * (yaw + az).sin(), q[2] + len * el];
                let p = at(p, cfg.res, d);
                if shot(d, cfg.res, cfg.range, at(q, cfg.res, d), &[p], String::new()).is_some() {
                    pts.push(p);
                } else {
                    skipped += 1;
                }
            }
            let s = shot(d, cfg.res, cfg.range, at(q, cfg.res, d), &pts, format!("scan {} of {} points", k, pts.len())).unwrap();
            st.integrate(&s, &odds)?;
            if k % 4 == 3 || k + 1 == steps {
                st.judge_values()?;
            }
            q[0] += 2.7 * yaw.cos();
            q[1] += 2.7 * yaw.sin();
            q[2] += 0.4 * (k as f64 * 0.7).sin();
            yaw += turn;
        }
        Ok(Obs::new(true, (st.values.len(), skipped)))
    });
}

#[derive(Clone, Debug)]
enum Op {
    Shot(usize),
    Track(bool),
    Clear,
    Grow(Bx),
    Read,
    Add(C),
}

fn i04<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    let odds = default_odds();
    let cfgs: &[Cfg] = &[
        Cfg { res: 0.1, tile: 4, range: 60.0 },
        Cfg { res: 0.5, tile: 1, range: 2.2 },
        Cfg { res: 1.0, tile: 10, range: 0.0 },
        Cfg { res: 0.25, tile: 3, range: 60.0 },
    ];
    for (i, cfg) in cfgs.iter().enumerate() {
        let al = match (d, th) {
            (2, _) => shots(cfg, d, &[0, 2, 5], &[0, 3, 6]),
            (_, false) => shots(cfg, d, &[0, 5], &[0, 3, 10]),
            _ => shots(cfg, d, &[0, 2, 5], &[0, 3, 10]),
        };
        let mut ops: Vec<Op> = vec![Op::Track(true), Op::Track(false), Op::Clear, Op::Read];
        ops.extend((0..al.len()).map(Op::Shot));
        let r = cfg.res;
        ops.push(Op::Grow(([-9.0 * r, 0.0, 0.0], [0.0, r, r])));
        ops.push(Op::Grow(([0.0, -7.0 * r, -6.0 * r], [r, 0.0, 0.0])));
        ops.push(Op::Grow(([0.0, 0.0, 0.0], [20.0 * r, 15.0 * r, 9.0 * r])));
        ops.push(Op::Add([1, 0, 0]));
        let depth = match (d, th) {
            (2, false) => 10,
            (2, true) => 20,
            (_, false) => 8,
            _ => 16,
        };
        c.bfs(
            &format!("{}-histories-{}", S::NAME, i),
            vec![St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile))],
            ops.len(),
            depth,
            if th { 600_000 } else { 60_000 },
            |a| match &ops[a] {
                Op::Shot(k) => format!("integrate {}", al[*k].name),
                o => format!("{:?}", o),
            },
            |s, a| {
                let mut n = s.copy();
                match &ops[a] {
                    Op::Shot(k) => n.integrate(&al[*k], &odds)?,
                    Op::Track(on) => {
                        sut(|| n.map.set_tracking(*on))?;
                        n.tracking = *on;
                    }
                    Op::Clear => {
                        sut(|| n.map.clear_changed())?;
                        n.tracked.clear();
                    }
                    Op::Read => {
                        sut(|| n.map.changed())?;
                    }
                    Op::Grow(b) => sut(|| n.map.expand(*b, 0.0))?,
                    Op::Add(w) => {
                        // As an integration by another noise model would report it.
                        let Some((a, b)) = map_region(&n.map)? else { return Ok(None) };
                        if !inside(*w, a, b, d) {
                            return Ok(None);
                        }
                        sut(|| n.map.add_changed(&[sub(*w, a)]))?;
                        n.tracked.insert(*w);
                    }
                }
                n.judge_tracked()?;
                Ok(Some(n))
            },
            // Values do not influence tracking, but the region does.
            |s| key128((format!("{:?}", s.map.bounds()), &s.tracked, s.tracking)),
        );
    }
    // Evidence up to saturation, with values as part of the state: a saturated cell is updated, too.
    let cfg = Cfg { res: 0.1, tile: 8, range: 60.0 };
    let al = shots(&cfg, d, &[0], &[0, 4, 9]);
    c.bfs(
        &format!("{}-evidence", S::NAME),
        vec![St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile))],
        al.len() + 3,
        if th { 30 } else { 16 },
        400_000,
        |a| {
            if a < al.len() {
                format!("integrate {}", al[a].name)
            } else {
                ["track", "do not track", "clear"][a - al.len()].into()
            }
        },
        |s, a| {
            let mut n = s.copy();
            if a < al.len() {
                n.integrate(&al[a], &odds)?;
            } else if a == al.len() + 2 {
                sut(|| n.map.clear_changed())?;
                n.tracked.clear();
            } else {
                n.tracking = a == al.len();
                sut(|| n.map.set_tracking(n.tracking))?;
            }
            n.judge_tracked()?;
            Ok(Some(n))
        },
        |s| {
            let v: Vec<_> = s.values.iter().map(|(k, v)| (*k, (v * 1e4).round() as i64)).collect();
            key128((format!("{:?}", s.map.bounds()), &s.tracked, s.tracking, v))
        },
    );
    // Noise models whose hits or misses change nothing, or saturate at once: all the same updated.
    let kinds: &[[f32; 4]] = &[[0.5, 0.5, 0.1192, 0.971], [0.7, 0.5, 0.1192, 0.971], [0.5, 0.4, 0.1192, 0.971], [1.0, 0.0, 0.2, 0.9], [0.7, 0.4, 0.5, 0.5], [0.8, 0.3, 0.5, 0.7], [0.8, 0.3, 0.3, 0.5]];
    c.tree(&format!("{}-models", S::NAME), |ch| {
        let k = *ch.of(kinds);
        let odds = Odds { hit: lo(k[0]), miss: lo(k[1]), min: lo(k[2]), max: lo(k[3]) };
        let mut st = St::new(S::Occ::make(kuba::LidarNoiseModel::new(k[0], k[1], k[2], k[3], 0.5, 60.0), cfg.res, cfg.tile));
        let mut seq = vec![];
        for _ in 0..if th { 6 } else { 4 } {
            seq.push(ch.int(al.len() + 1));
        }
        ch.note(|| format!("probabilities {:?}, clouds {:?} ({} clears)", k, seq, al.len()));
        sut(|| st.map.set_tracking(true))?;
        st.tracking = true;
        for x in &seq {
            if *x == al.len() {
                sut(|| st.map.clear_changed())?;
                st.tracked.clear();
            } else {
                st.integrate(&al[*x], &odds)?;
            }
            st.judge_tracked()?;
        }
        Ok(Obs::new(st.tracked.len() > 0, (seq, k[0].to_bits(), k[1].to_bits())))
    });
    // Growth by hundreds of cells in any direction while cells are tracked.
    let by: &[i64] = if d == 2 { &[0, 1, 37, 100, 150, 300, 1100] } else { &[0, 1, 60, 130] };
    c.tree(&format!("{}-growth", S::NAME), |ch| {
        let (res, tile) = *ch.of(&[(1.0f32, 1usize), (0.1, 16), (0.1, 100)]);
        let mut lower = [0i64; 3];
        let mut upper = [0i64; 3];
        for i in 0..d {
            lower[i] = *ch.of(by);
        }
        let up = ch.int(d + 1);
        if up < d {
            upper[up] = 90;
        }
        let twice = ch.flag();
        if d == 3 && tile == 100 && (up < d || twice) {
            return Ok(Obs::new(false, 0));
        }
        ch.note(|| format!("resolution {} tile {} grown by {:?} and {:?} cells, tracked again {}", res, tile, lower, upper, twice));
        let cfg = Cfg { res, tile, range: 0.0 };
        let al = shots(&cfg, d, &[0], &[3]);
        let s = &al[0];
        let mut st = St::new(S::Occ::make(model(0.0), res, tile));
        sut(|| st.map.set_tracking(true))?;
        st.tracking = true;
        st.integrate(s, &odds)?;
        st.judge_tracked()?;
        let (a, b) = map_region(&st.map)?.ok_or("the map is empty")?;
        let mut g = ([0.0; 3], [0.0; 3]);
        for i in 0..d {
            g.0[i] = (a[i] - lower[i]) as f32 * res;
            g.1[i] = (b[i] + upper[i] - 1) as f32 * res;
        }
        sut(|| st.map.expand(g, 0.0))?;
        st.judge_tracked()?;
        if twice {
            st.integrate(s, &odds)?;
            st.judge_tracked()?;
        }
        Ok(Obs::new(true, (lower, up)))
    });
    // A drive, reading and clearing every few scans as a viewer would; dense scans.
    c.tree(&format!("{}-drives", S::NAME), |ch| {
        let cfg = *ch.of(cfgs);
        let dir = ch.int(8);
        let every = 1 + ch.int(3);
        let off = ch.int(3);
        let mut st = St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile));
        sut(|| st.map.set_tracking(true))?;
        st.tracking = true;
        let yaw = dir as f64 / 8.0 * std::f64::consts::TAU + 0.01;
        ch.note(|| format!("{:?} heading {} clearing every {} tracking off at {}", cfg, yaw, every, off));
        let mut q = [0.17, -0.23, 0.29];
        for k in 0..12usize {
            let mut pts = vec![];
            for r in 0..40 {
                let az = r as f64 * 2.399963 + yaw;
                let el = if d == 3 { 1.0 - 2.0 * (r as f64 + 0.5) / 40.0 } else { 0.0 };
                let len = 2.0 + ((r * 7 + k * 13) % 11) as f64 * 0.63;
                let h = (1.0f64 - el * el).sqrt();
                let p = at([q[0] + len * h * az.cos(), q[1] + len * h * az.sin(), q[2] + len * el], cfg.res, d);
                if shot(d, cfg.res, cfg.range, at(q, cfg.res, d), &[p], String::new()).is_some() {
                    pts.push(p);
                }
            }
            let on = !(off > 0 && k % 4 == off);
            sut(|| st.map.set_tracking(on))?;
            st.tracking = on;
            let s = shot(d, cfg.res, cfg.range, at(q, cfg.res, d), &pts, format!("scan {}", k)).unwrap();
            st.integrate(&s, &odds)?;
            st.judge_tracked()?;
            if k % every == 0 {
                sut(|| st.map.clear_changed())?;
                st.tracked.clear();
                st.judge_tracked()?;
            }
            q[0] += 2.7 * yaw.cos();
            q[1] += 2.7 * yaw.sin();
        }
        Ok(Obs::new(true, st.tracked.len()))
    });
}

/// Very many tracked cells: dense scans with long rays, never cleared while the map grows.
fn i04_many<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    let odds = default_odds();
    let rays = if d == 2 { 600 } else { 3000 };
    let scans = if th { 24 } else if d == 2 { 12 } else { 6 };
    c.tree(&format!("{}-many", S::NAME), |ch| {
        let cfg = Cfg { res: 0.1, tile: 50, range: 60.0 };
        let dir = ch.int(2);
        let pause = ch.flag();
        ch.note(|| format!("{} scans of {} rays, direction {}, pausing {}", scans, rays, dir, pause));
        let mut st = St::new(S::Occ::make(model(cfg.range), cfg.res, cfg.tile));
        let mut q = [0.17, -0.23, 0.29];
        for k in 0..scans {
            let mut pts = vec![];
            for r in 0..rays {
                let az = r as f64 * 2.399963 + k as f64;
                let el = if d == 3 { 1.0 - 2.0 * (r as f64 + 0.5) / rays as f64 } else { 0.0 };
                let len = 40.0 + ((r * 7 + k * 13) % 11) as f64 * 2.63;
                let h = (1.0f64 - el * el).sqrt();
                let p = at([q[0] + len * h * az.cos(), q[1] + len * h * az.sin(), q[2] + len * el], cfg.res, d);
                if shot(d, cfg.res, cfg.range, at(q, cfg.res, d), &[p], String::new()).is_some() {
                    pts.push(p);
                }
            }
            // Tracking is off for one scan in the middle.
            let on = !(pause && k == scans / 2);
            sut(|| st.map.set_tracking(on))?;
            st.tracking = on;
            let s = shot(d, cfg.res, cfg.range, at(q, cfg.res, d), &pts, format!("scan {}", k)).unwrap();
            st.integrate(&s, &odds)?;
            st.judge_tracked()?;
            let sign = if dir == 0 { 1.0 } else { -1.0 };
            q[0] += sign * 17.0;
            q[1] -= sign * 9.0;
            q[2] -= sign * 5.0;
        }
        let n = st.tracked.len();
        sut(|| st.map.clear_changed())?;
        st.tracked.clear();
        st.judge_tracked()?;
        Ok(Obs::new(true, n))
    });
}

// ---------------------------------------------------------------------------------------------
// I01

fn covered<O: OccApi>(m: &O, p: V, what: &str) -> Result<(), String> {
    let c = m.cell_of(p);
    sut(|| m.get(c)).map(|_| ()).map_err(|e| {
        format!("{} {:?} is not covered by the map {:?} afterwards (cell {:?}): {}", what, p, m.bounds(), c, e)
    })
}

fn judge_i01<O: OccApi>(m: &mut O, o: V, pts: &[V], name: &str) -> Result<(), String> {
    let before = map_region(m)?;
    sut(|| m.integrate(o, pts)).map_err(|e| format!("integrating {} from {:?} into a map of {:?} failed: {}", name, o, before, e))?;
    let after = map_region(m)?;
    if let Some((a, b)) = before {
        let Some((x, y)) = after else { return Err("the map is empty afterwards".into()) };
        for i in 0..O::S::D {
            ensure!(x[i] <= a[i] && y[i] >= b[i], "the map shrank from {:?} to {:?}", (a, b), (x, y));
        }
    }
    if !pts.is_empty() {
        covered(m, o, "the origin")?;
        for p in pts {
            covered(m, *p, "point")?;
        }
        let b = m.bounds();
        // All the cells of the region can be read at their corners.
        covered(m, b.0, "the lower corner")?;
        let mut q = b.1;
        for i in 0..O::S::D {
            q[i] -= m.resolution();
        }
        covered(m, q, "the upper corner")?;
    }
    Ok(())
}

fn i01<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    let configs: Vec<Cfg> = {
        let mut v = vec![];
        for res in [0.1f32, 0.25, 0.3, 1.0, 0.05, 0.7] {
            for tile in [1usize, 2, 3, 5, 10] {
                v.push(Cfg { res, tile, range: [0.0, 60.0, 2.5 * res][tile % 3] });
            }
        }
        v
    };
    // Coordinates in cells around borders of cells and tiles.
    let coords: Vec<f64> = if d == 2 {
        vec![-10.5, -10.0, -9.5, -5.5, -2.5, -1.0, -0.5, 0.0, 0.5, 1.0, 1.5, 2.5, 4.5, 5.0, 9.5, 10.0, 14.5]
    } else if th {
        vec![-10.5, -5.5, -5.0, -0.5, 0.0, 0.5, 1.5, 4.5, 5.0, 9.5]
    } else {
        vec![-5.5, -0.5, 0.0, 0.5, 4.5, 10.0]
    };
    // One coordinate each of origin and point at every border, up to one ulp around it.
    let nudge = |x: f32, k: usize| [x, up(x), down(x)][k];
    c.tree(&format!("{}-borders", S::NAME), |ch| {
        let cfg = *ch.of(&configs);
        let (mut o, mut p) = ([0.0f64; 3], [0.0f64; 3]);
        let axis = ch.int(d);
        for i in 0..d {
            if i == axis || (d == 2) {
                o[i] = *ch.of(&coords);
                p[i] = *ch.of(&coords);
            } else {
                o[i] = *ch.of(&[0.0, -3.5]);
                p[i] = *ch.of(&[0.5, 7.0]);
            }
        }
        let (mut o, mut p) = (at(o, cfg.res, d), at(p, cfg.res, d));
        let k = ch.int(if d == 2 { 5 } else { 9 });
        o[axis] = nudge(o[axis], [0, 1, 2, 0, 0, 1, 1, 2, 2][k]);
        p[axis] = nudge(p[axis], [0, 0, 0, 1, 2, 1, 2, 1, 2][k]);
        ch.note(|| format!("{:?} origin {:?} point {:?}", cfg, o, p));
        let mut m = S::Occ::make(model(cfg.range), cfg.res, cfg.tile);
        judge_i01(&mut m, o, &[p], "one point")?;
        // And again, and the other way round.
        judge_i01(&mut m, o, &[p], "the same point again")?;
        judge_i01(&mut m, p, &[o, p], "both points")?;
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
    // From every earlier map: a first cloud, then an origin and a point anywhere.
    let few: &[f64] = if d == 2 { &[-7.5, -0.5, 0.0, 3.5, 11.0] } else { &[-7.5, 0.0, 4.5] };
    let hist_cfgs: Vec<Cfg> = configs.iter().filter(|k| [1, 3, 10].contains(&k.tile) && k.res != 0.05).copied().collect();
    c.tree(&format!("{}-second-cloud", S::NAME), |ch| {
        let cfg = *ch.of(&hist_cfgs);
        let mut q = [[0.0f64; 3]; 3];
        for v in q.iter_mut() {
            for i in 0..d {
                v[i] = *ch.of(few);
            }
        }
        let first = ch.int(3);
        let p: Vec<V> = q.iter().map(|q| at(*q, cfg.res, d)).collect();
        ch.note(|| format!("{:?} first {:?} (kind {}), then {:?} from {:?}", cfg, p[0], first, p[2], p[1]));
        let mut m = S::Occ::make(model(cfg.range), cfg.res, cfg.tile);
        match first {
            0 => judge_i01(&mut m, p[0], &[p[0]], "a point at the origin")?,
            1 => judge_i01(&mut m, [0.0; 3], &[p[0]], "a first point")?,
            _ => {
                judge_i01(&mut m, p[0], &[], "an empty cloud")?;
                judge_i01(&mut m, p[0], &[[0.0; 3]], "the world origin")?
            }
        }
        judge_i01(&mut m, p[1], &[p[2]], "a second cloud")?;
        // An empty cloud changes nothing.
        let r = map_region(&m)?.ok_or("the map is empty although a cloud was integrated")?;
        let mut before = vec![];
        each_cell::<String>(r.0, r.1, |w| {
            before.push(m.get(sub(w, r.0)));
            Ok(())
        })?;
        judge_i01(&mut m, p[0], &[], "an empty cloud")?;
        let r2 = map_region(&m)?.ok_or("the map is empty after integrating an empty cloud")?;
        let mut it = before.iter();
        each_cell(r.0, r.1, |w| {
            let (v, x) = (sut(|| m.get(sub(w, r2.0)))?, *it.next().unwrap());
            ensure!(v == x, "integrating an empty cloud changed location {:?} from {} to {}", w, x, v);
            Ok(())
        })?;
        Ok(Obs::new(true, format!("{:?}", r)))
    });
    // The default tile size and resolution, and distances of a real lidar.
    let far: &[f32] = if d == 2 { &[-75.03, -60.0, -9.95, -0.05, 0.0, 4.949, 9.95, 9.96, 61.2] } else { &[-9.95, 0.0, 9.96] };
    c.tree(&format!("{}-default", S::NAME), |ch| {
        let mut m = S::Occ::make_default();
        let mut pts = vec![];
        for _ in 0..2 {
            let mut p = [0.0; 3];
            for i in 0..d {
                p[i] = if d == 2 || i < 2 { *ch.of(far) } else { *ch.of(&far[..2]) };
            }
            pts.push(p);
        }
        ch.note(|| format!("origin {:?} point {:?}", pts[0], pts[1]));
        judge_i01(&mut m, pts[0], &pts[1..], "a point")?;
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
    // Histories of several clouds whose points lie on borders.
    let hist: Vec<(V, Vec<V>)> = {
        let q: [([f64; 3], &[[f64; 3]]); 9] = [
            ([0.0, 0.0, 0.0], &[[0.5, 0.5, 0.5]]),
            ([0.5, -0.5, 0.0], &[[4.5, -3.5, 1.5], [-2.5, 2.0, 0.5]]),
            ([9.5, 0.0, -1.5], &[[8.0, 0.5, 2.5]]),
            ([-6.5, 3.5, 0.5], &[[-6.5, 3.5, 0.5]]),
            ([0.0, -11.0, 3.0], &[[1.5, -14.5, -2.0], [0.0, 0.0, 0.0]]),
            ([3.5, 3.5, 3.5], &[[3.4999, 3.5001, -3.5], [3.5, 9.5, 3.5]]),
            ([-0.5, -0.5, -0.5], &[]),
            ([2.0, 2.0, -7.5], &[[2.0, 2.0, 7.5]]),
            ([1.0, 0.0, 0.0], &[[2.5, 1.5, 0.5], [2.5, -1.5, 0.5], [2.5, -1.5, -0.5]]),
        ];
        q.iter().map(|(o, p)| (*o, p.to_vec())).map(|(o, p)| (at(o, 1.0, 3), p.iter().map(|p| at(*p, 1.0, 3)).collect())).collect()
    };
    let scale = |v: &V, r: f32| {
        let mut x = [0.0; 3];
        for i in 0..d {
            x[i] = v[i] * r;
        }
        x
    };
    let hcfg: Vec<Cfg> = if d == 2 { configs.clone() } else { hist_cfgs.clone() };
    c.tree(&format!("{}-histories", S::NAME), |ch| {
        let cfg = *ch.of(&hcfg);
        let mut m = S::Occ::make(model(cfg.range), cfg.res, cfg.tile);
        let mut names = vec![];
        for _ in 0..if th { 4 } else { 3 } {
            let k = ch.int(hist.len());
            names.push(k);
            let o = scale(&hist[k].0, cfg.res);
            let p: Vec<V> = hist[k].1.iter().map(|p| scale(p, cfg.res)).collect();
            if let Err(e) = judge_i01(&mut m, o, &p, "a cloud") {
                ch.note(|| format!("{:?} clouds {:?}", cfg, names));
                return Err(e);
            }
        }
        ch.note(|| format!("{:?} clouds {:?}", cfg, names));
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
}

fn i01_dense<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    // Clouds of many points, one of them far out at any of several places of the list.
    let sizes: &[usize] = if th { &[300, 1025, 5000, 33000, 70000, 140000, 1_000_001] } else { &[300, 1025, 5000, 33000, 70000, 140000] };
    c.tree(&format!("{}-dense", S::NAME), |ch| {
        let cfg = *ch.of(&[Cfg { res: 0.1, tile: 10, range: 60.0 }, Cfg { res: 0.5, tile: 3, range: 0.0 }]);
        let n = *ch.of(sizes);
        let at_ = ch.int(6);
        let far = *ch.of(&[[31.0, 0.0, 0.0], [0.0, -31.0, 0.0], [-25.0, 26.0, 17.0]]);
        let u = |i: usize, m: usize| -> f64 { ((i * m + 17) % 65521) as f64 / 65521.0 * 2.0 - 1.0 };
        let mut pts: Vec<V> = (0..n).map(|i| at([6.0 * u(i, 7919), 6.0 * u(i, 30103), 3.0 * u(i, 12347)], cfg.res, d)).collect();
        let k = [0, 1, n / 2, n / 2 + 1, n - 2, n - 1][at_];
        pts[k] = at(far, cfg.res, d);
        ch.note(|| format!("{} points with {:?}, point {} at {:?}", n, cfg, k, far));
        let mut m = S::Occ::make(model(cfg.range), cfg.res, cfg.tile);
        judge_i01(&mut m, at([0.2, 0.1, -0.3], cfg.res, d), &pts, "the cloud")?;
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
    // Very many clouds: the map grows a little with each of them.
    let steps = if th { 6000 } else { 1500 };
    c.tree(&format!("{}-journeys", S::NAME), |ch| {
        let cfg = *ch.of(&[Cfg { res: 0.1, tile: 1, range: 60.0 }, Cfg { res: 0.3, tile: 3, range: 0.0 }, Cfg { res: 0.7, tile: 10, range: 4.0 }]);
        let axis = ch.int(d);
        let sign = *ch.of(&[1.0, -1.0]);
        let stride = *ch.of(&[0.5, 1.3]);
        ch.note(|| format!("{:?} along {} {} by {}", cfg, axis, sign, stride));
        let mut m = S::Occ::make(model(cfg.range), cfg.res, cfg.tile);
        for k in 0..steps {
            let mut q = [0.0; 3];
            q[axis] = sign * stride * k as f64;
            let mut p = q;
            p[axis] += sign * 2.5;
            p[(axis + 1) % d] += 0.5;
            judge_i01(&mut m, at(q, cfg.res, d), &[at(p, cfg.res, d)], "a point").map_err(|e| format!("cloud {}: {}", k, e))?;
        }
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
    // Far from the origin of the world, and from one end of it to the other.
    let far: &[f64] = &[60_000.0, 33_000.5, 5_000.25, 0.0, -0.5, -32_800.0, -50_000.5];
    c.tree(&format!("{}-far", S::NAME), |ch| {
        let cfg = *ch.of(&[Cfg { res: 1.0, tile: 1, range: 60.0 }, Cfg { res: 0.5, tile: 7, range: 0.0 }, Cfg { res: 0.1, tile: 10, range: 3.0 }]);
        let axis = ch.int(d);
        let (a, b) = (*ch.of(far), *ch.of(far));
        let again = *ch.of(far);
        let (mut o, mut p, mut q) = ([0.3, -2.0, 1.0], [2.0, 0.5, -1.0], [0.0; 3]);
        o[axis] = a;
        p[axis] = b;
        q[axis] = again;
        let (o, p, q) = (at(o, cfg.res, d), at(p, cfg.res, d), at(q, cfg.res, d));
        ch.note(|| format!("{:?} from {:?} to {:?}, then {:?}", cfg, o, p, q));
        let mut m = S::Occ::make(model(cfg.range), cfg.res, cfg.tile);
        judge_i01(&mut m, o, &[p], "a point")?;
        judge_i01(&mut m, o, &[p, q], "two points")?;
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
}

// ---------------------------------------------------------------------------------------------
// I03

#[derive(Clone, Copy, Debug)]
struct Probs {
    hit: f32,
    miss: f32,
    min: f32,
    max: f32,
    thr: f32,
}

fn i03<S: Space>(c: &mut Check) {
    let th = c.thorough;
    let all: Vec<Probs> = {
        let mut v = vec![];
        for hit in [0.7f32, 0.5, 0.51, 0.9, 0.999, 1.0] {
            for miss in [0.4f32, 0.5, 0.49, 0.1, 0.001, 0.0] {
                for min in [0.1192f32, 0.0, 0.45, 0.5] {
                    for max in [0.971f32, 1.0, 0.55, 0.5] {
                        for thr in [0.5f32, 0.0, 0.3, 0.8, 1.0] {
                            v.push(Probs { hit, miss, min, max, thr });
                        }
                    }
                }
            }
        }
        v
    };
    let make = |p: &Probs| sut(|| kuba::LidarNoiseModel::new(p.hit, p.miss, p.min, p.max, p.thr, 10.0));
    // Every model: breadth-first over the values of a cell; every transition is judged.
    let near = |a: f32, b: f64| (a as f64 == b) || (a as f64 - b).abs() <= 2e-5 * b.abs().max(1.0);
    let limit = if th { 100_000 } else { 3_000 };
    c.tree(&format!("{}-models", S::NAME), |ch| {
        let p = *ch.of(&all);
        ch.note(|| format!("{:?}", p));
        let nm = make(&p)?;
        for (name, got, want) in [
            ("hit", nm.hit_probability_logodds, lo(p.hit)),
            ("miss", nm.miss_probability_logodds, lo(p.miss)),
            ("min", nm.min_probability_logodds, lo(p.min)),
            ("max", nm.max_probability_logodds, lo(p.max)),
            ("threshold", nm.occupied_threshold_logodds, lo(p.thr)),
        ] {
            ensure!(near(got, want), "the {} log odds of {:?} are {} instead of {}", name, p, got, want);
        }
        ensure!(nm.max_range == 10.0, "the range became {}", nm.max_range);
        let b = ([0.0; 3], [3.0, 2.0, 2.0]);
        let mut m = S::Map::make(1.0, b, 4, 0.0);
        let cell = [1, 1, if S::D == 3 { 1 } else { 0 }];
        let other = [2, 0, 0];
        let mut seen: BTreeSet<u32> = BTreeSet::new();
        let mut queue = std::collections::VecDeque::new();
        queue.push_back(0.0f32);
        seen.insert(0f32.to_bits());
        let mut edges = 0;
        while let Some(v) = queue.pop_front() {
            for hit in [true, false] {
                sut(|| m.set(cell, v))?;
                sut(|| if hit { S::hit(&nm, &mut m, cell) } else { S::miss(&nm, &mut m, cell) })?;
                let n = sut(|| m.get(cell))?;
                let (mut want, name) = if hit { (v as f64 + lo(p.hit), "hit") } else { (v as f64 + lo(p.miss), "miss") };
                if want.is_nan() {
                    continue; // certain in both directions: there is no sum
                }
                want = if hit { want.min(lo(p.max)) } else { want.max(lo(p.min)) };
                ensure!(near(n, want), "a {} turns {} into {} instead of {} ({:?})", name, v, n, want, p);
                let tol = 1e-5;
                ensure!(n as f64 >= lo(p.min) - tol && n as f64 <= lo(p.max) + tol, "a {} turns {} into {}, outside of {}..{}", name, v, n, lo(p.min), lo(p.max));
                let other_v = sut(|| m.get(other))?;
                ensure!(other_v == 0.0, "a {} of cell {:?} changed cell {:?} to {}", name, cell, other, other_v);
                let occ = sut(|| S::occupied(&nm, &m, cell))?;
                ensure!(occ == (n > nm.occupied_threshold_logodds), "value {} is reported as occupied = {}, the threshold is {}", n, occ, nm.occupied_threshold_logodds);
                edges += 1;
                if seen.len() < limit && seen.insert(n.to_bits()) {
                    queue.push_back(n);
                }
            }
        }
        Ok(Obs::new(seen.len() > 1, (edges, seen.len())))
    });
    // The threshold is strict, for every model and value.
    c.tree(&format!("{}-threshold", S::NAME), |ch| {
        let thr = *ch.of(&[0.5f32, 0.0, 0.01, 0.25, 0.499, 0.501, 0.7, 0.971, 1.0]);
        let nm = make(&Probs { hit: 0.7, miss: 0.4, min: 0.1, max: 0.9, thr })?;
        let t = nm.occupied_threshold_logodds;
        let v = *ch.of(&[t, up(t), down(t), 0.0, -0.0, 1e-30, -1e-30, 3.5, -3.5, f32::INFINITY, f32::NEG_INFINITY, t + 0.1, t - 0.1]);
        ch.note(|| format!("threshold {} ({}) value {}", thr, t, v));
        if v.is_nan() {
            return Ok(Obs::new(false, 0));
        }
        let mut m = S::Map::make(1.0, ([0.0; 3], [2.0, 2.0, 2.0]), 2, if v > t { f32::NEG_INFINITY } else { f32::INFINITY });
        sut(|| m.set([1, 0, 0], v))?;
        let occ = sut(|| S::occupied(&nm, &m, [1, 0, 0]))?;
        ensure!(occ == (v > t), "value {} is reported as occupied = {}, the threshold is {}", v, occ, t);
        Ok(Obs::new(true, occ))
    });
    // Probabilities outside of [0, 1] are rejected in every position, all others accepted.
    if S::D == 2 {
        let bad = [-f32::MIN_POSITIVE, -1e-6, -0.5, -1.0, up(1.0), 1.5, 100.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
        let good = [0.0f32, 1.0, 0.5, f32::MIN_POSITIVE, down(1.0), -0.0];
        c.tree("constructor", |ch| {
            let k = ch.int(5);
            let reject = ch.flag();
            let v = if reject { *ch.of(&bad) } else { *ch.of(&good) };
            let rest = *ch.of(&[0.5f32, 0.0, 1.0]);
            let mut a = [rest; 5];
            a[k] = v;
            ch.note(|| format!("{:?}", a));
            let r = sut(|| kuba::LidarNoiseModel::new(a[0], a[1], a[2], a[3], a[4], 1.0));
            ensure!(r.is_err() == reject, "probabilities {:?} are {}", a, if reject { "accepted" } else { "rejected" });
            Ok(Obs::new(true, (k, reject)))
        });
    }
    // The same through whole clouds: sequences of two clouds from one origin on a 1D strip of cells, one
    // hitting cell 2 and one passing it. All sequences up to a depth, for several models.
    let seqs = [
        Probs { hit: 0.7, miss: 0.4, min: 0.1192, max: 0.971, thr: 0.5 },
        Probs { hit: 0.9, miss: 0.1, min: 0.2, max: 0.8, thr: 0.7 },
        Probs { hit: 0.6, miss: 0.45, min: 0.0, max: 1.0, thr: 0.3 },
        Probs { hit: 0.999, miss: 0.3, min: 0.45, max: 0.999, thr: 0.5 },
        Probs { hit: 0.5, miss: 0.5, min: 0.5, max: 0.5, thr: 0.5 },
    ];
    for (i, p) in seqs.iter().enumerate() {
        let nm = make(p).unwrap();
        let occ = S::Occ::make(nm, 1.0, 4);
        let pr = *p;
        let clouds = [[2.1f32, 0.0, 0.0], [5.1, 0.0, 0.0], [0.1, 3.2, 0.0]];
        c.bfs(
            &format!("{}-clouds-{}", S::NAME, i),
            vec![(occ, [0.0f64; 3])],
            3,
            if th { 200 } else { 40 },
            if th { 200_000 } else { 20_000 },
            |a| format!("point {:?} ({:?})", clouds[a], pr),
            |(m, v), a| {
                let mut n = m.copy();
                sut(|| n.integrate([0.1, 0.0, 0.0], &[clouds[a]]))?;
                let mut v = *v;
                let hit = |x: f64| (x + lo(pr.hit)).min(lo(pr.max));
                let miss = |x: f64| (x + lo(pr.miss)).max(lo(pr.min));
                // Cells of interest: the origin's, (2, 0), (5, 0).
                v[0] = miss(v[0]);
                if a == 0 {
                    v[1] = hit(v[1]);
                } else if a == 1 {
                    v[1] = miss(v[1]);
                    v[2] = hit(v[2]);
                }
                let r = map_region(&n)?.ok_or("the map is empty although a cloud was integrated")?;
                for (k, x) in [0i64, 2, 5].iter().enumerate() {
                    let c = sub([*x, 0, 0], r.0);
                    if !inside([*x, 0, 0], r.0, r.1, S::D) {
                        continue;
                    }
                    let g = sut(|| n.get(c))?;
                    ensure!((g as f64 - v[k]).abs() < 1e-3, "cell {} holds {} instead of {}", x, g, v[k]);
                    let o = sut(|| n.occupied(c))?;
                    ensure!(o == (g > n.model().occupied_threshold_logodds), "cell {} with value {} is reported as occupied = {}", x, g, o);
                    ensure!((v[k] - lo(pr.thr)).abs() < 2e-3 || o == (v[k] > lo(pr.thr)), "cell {} with evidence {} is reported as occupied = {}", x, v[k], o);
                }
                Ok(Some((n, v)))
            },
            |(m, v)| key128((format!("{:?}", m.bounds()), v.map(|x| (x * 1e3).round() as i64))),
        );
    }
}

// ---------------------------------------------------------------------------------------------
// I05

struct Pair<S: Space> {
    occ: S::Occ,
    map: S::Map,
    nm: kuba::LidarNoiseModel,
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, a: Result<T, String>, b: Result<T, String>) -> Result<(), String> {
    match (&a, &b) {
        (Ok(x), Ok(y)) if x == y => Ok(()),
        (Err(_), Err(_)) => Ok(()),
        _ => Err(format!("{}: the occupancy map says {:?}, grid map and noise model say {:?}", what, a, b)),
    }
}

fn i05_compare<S: Space>(p: &Pair<S>, all: bool) -> Result<(), String> {
    let (o, m) = (&p.occ, &p.map);
    let d = S::D;
    same("bounds", sut(|| o.bounds()), sut(|| m.bounds()))?;
    same("resolution", sut(|| o.resolution()), sut(|| m.resolution()))?;
    same("tracking", sut(|| o.tracking()), sut(|| m.tracking()))?;
    let sorted = |mut v: Vec<C>| {
        v.sort();
        v
    };
    same("changed cells", sut(|| o.changed()).map(sorted), sut(|| m.changed()).map(sorted))?;
    let r = map_region(o)?;
    let (a, b) = r.unwrap_or(([0; 3], [2, 2, if d == 3 { 2 } else { 1 }]));
    let (mut a0, mut b0) = ([-1; 3], sub(b, a));
    for i in 0..3 {
        b0[i] += 1;
    }
    if d == 2 {
        a0[2] = 0;
        b0[2] = 1;
    }
    // All cells and a ring around them.
    // (of large maps, a regular part of them)
    let cells: i64 = (0..d).map(|i| b0[i] - a0[i]).product();
    let step = if all { 1 } else if cells < 20_000 { 7 } else { cells / 1500 | 1 };
    let mut k = 0;
    each_cell(a0, b0, |c| {
        k += 1;
        if k % step != 0 {
            return Ok(());
        }
        same(&format!("value of cell {:?}", c), sut(|| o.get(c)), sut(|| m.get(c)))?;
        same(&format!("occupancy of cell {:?}", c), sut(|| o.occupied(c)), sut(|| S::occupied(&p.nm, m, c)))?;
        same(&format!("point of cell {:?}", c), sut(|| o.point_of(c)), sut(|| m.point_of(c)))
    })?;
    for q in [[0.0, 0.0, 0.0], [0.13, -0.22, 0.31], [-7.7, 3.1, 2.2], [100.0, -50.0, 3.3]] {
        let mut q: V = q;
        if d == 2 {
            q[2] = 0.0;
        }
        same(&format!("cell of {:?}", q), sut(|| o.cell_of(q)), sut(|| m.cell_of(q)))?;
    }
    Ok(())
}

fn i05<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    struct Conf {
        name: &'static str,
        probs: Option<Probs>,
        cfg: Cfg,
    }
    let confs = [
        Conf { name: "new", probs: Some(Probs { hit: 0.7, miss: 0.4, min: 0.1192, max: 0.971, thr: 0.5 }), cfg: Cfg { res: 0.1, tile: 5, range: 60.0 } },
        Conf { name: "new-sensitive", probs: Some(Probs { hit: 0.9, miss: 0.2, min: 0.01, max: 0.99, thr: 0.8 }), cfg: Cfg { res: 0.5, tile: 2, range: 1.2 } },
        Conf { name: "new-unlimited", probs: Some(Probs { hit: 0.6, miss: 0.5, min: 0.3, max: 0.6, thr: 0.1 }), cfg: Cfg { res: 1.0, tile: 1, range: 0.0 } },
        Conf { name: "default", probs: None, cfg: Cfg { res: 0.1, tile: 100, range: 60.0 } },
    ];
    for k in &confs {
        let default = k.probs.is_none();
        let mk = || match &k.probs {
            Some(p) => kuba::LidarNoiseModel::new(p.hit, p.miss, p.min, p.max, p.thr, k.cfg.range),
            None => kuba::LidarNoiseModel::new(0.7, 0.4, 0.1192, 0.971, 0.5, 60.0),
        };
        let occ = if default { S::Occ::make_default() } else { S::Occ::make(mk(), k.cfg.res, k.cfg.tile) };
        let map = S::Map::make(k.cfg.res, ([0.0; 3], [0.0; 3]), k.cfg.tile, 0.0);
        let big = d == 3 && default;
        let os: &[usize] = if big || d == 3 { &[0] } else { &[0, 2] };
        let mut al = vec![];
        for o in os {
            for cl in [0usize, 3, 6, 9] {
                al.push((at(ORIGINS[*o], k.cfg.res, d), pick(CLOUDS[cl], k.cfg.res, d), format!("cloud {} from {}", cl, o)));
            }
        }
        // Ties and borders are fine here: both sides do the same.
        al.push((at([-0.5, 0.5, 0.0], k.cfg.res, d), vec![at([3.5, 0.5, 1.0], k.cfg.res, d), at([-3.0, 4.0, 0.0], k.cfg.res, d)], "cloud on borders".into()));
        al.push((at([1.0, 1.0, 1.0], k.cfg.res, d), vec![], "empty cloud".into()));
        let n = al.len();
        let vals = [0.3f32, -5.0, f32::INFINITY];
        let extra = 4 + vals.len() * 2;
        c.bfs(
            &format!("{}-{}", S::NAME, k.name),
            vec![Pair::<S> { occ, map, nm: mk() }],
            n + extra,
            if big { 2 } else if default { 3 } else if th { 5 } else if d == 2 { 4 } else { 3 },
            if th { 300_000 } else { 30_000 },
            |a| {
                if a < n {
                    al[a].2.clone()
                } else {
                    match a - n {
                        0 => "track".into(),
                        1 => "do not track".into(),
                        2 => "clear changed".into(),
                        3 => "add changed".into(),
                        j => format!("write {} to cell {}", vals[(j - 4) / 2], (j - 4) % 2),
                    }
                }
            },
            |s, a| {
                let mut p = Pair::<S> { occ: s.occ.copy(), map: s.map.clone(), nm: copy_model(&s.nm) };
                if a < n {
                    let (o, pts, _) = &al[a];
                    let x = sut(|| p.occ.integrate(*o, pts));
                    let y = sut(|| S::integrate(&p.nm, &mut p.map, *o, pts));
                    same("integration", x, y)?;
                } else {
                    match a - n {
                        0 | 1 => {
                            sut(|| p.occ.set_tracking(a == n))?;
                            sut(|| p.map.set_tracking(a == n))?;
                        }
                        2 => {
                            sut(|| p.occ.clear_changed())?;
                            sut(|| p.map.clear_changed())?;
                        }
                        3 => {
                            if p.map.changed().len() > 60 {
                                return Ok(None);
                            }
                            sut(|| p.occ.add_changed(&[[1, 0, 0], [0, 1, 0], [0, 1, 0], [1, 0, 0], [1, 0, 0]]))?;
                            sut(|| p.map.add_changed(&[[1, 0, 0], [0, 1, 0], [0, 1, 0], [1, 0, 0], [1, 0, 0]]))?;
                        }
                        j => {
                            let v = vals[(j - 4) / 2];
                            let cell = if (j - 4) % 2 == 0 { [0, 1, 0] } else { [4, 0, if d == 3 { 1 } else { 0 }] };
                            let x = sut(|| p.occ.set(cell, v));
                            let y = sut(|| p.map.set(cell, v));
                            same("writing", x, y)?;
                        }
                    }
                }
                i05_compare(&p, !default)?;
                Ok(Some(p))
            },
            |s| {
                let r = map_region(&s.occ).unwrap_or(None);
                let mut vals = vec![];
                if let Some((a, b)) = r {
                    each_cell::<()>([0; 3], sub(b, a), |c| {
                        let v = s.map.get(c);
                        if v != 0.0 {
                            vals.push((c, v.to_bits()));
                        }
                        Ok(())
                    })
                    .unwrap();
                }
                let mut ch = s.map.changed();
                ch.sort();
                key128((format!("{:?}", r), vals, ch, s.map.tracking()))
            },
        );
    }
    // Every resolution and tile size an occupancy map is made with.
    let resolutions: &[f32] = &[0.0123, 0.12345679, 1.0 / 3.0, 0.123_456_78, 2.718_281_8, 0.01, 0.05, 0.1, 0.2, 0.25, 0.3, 0.7, 1.0, 2.0, 3.3, 5.0, 10.0, 25.0];
    let tiles: &[usize] = &[1, 2, 3, 7, 10, 16, 31, 32, 50, 64, 99, 100, 101, 127, 128, 200, 255, 256, 300, 500, 512, 1000, 1023, 1024, 1025];
    c.tree(&format!("{}-parameters", S::NAME), |ch| {
        let res = *ch.of(resolutions);
        let tile = *ch.of(tiles);
        let range = *ch.of(&[0.0f32, 2.5 * res, 60.0]);
        let far = *ch.of(&[0i64, -3000, 12345]);
        if (d == 3 && tile > 64 && !th) || tile > 128 && d == 3 {
            // Too much memory to compare; the first few are still compared below by their properties.
            return Ok(Obs::new(false, 0));
        }
        ch.note(|| format!("resolution {} tile {} range {} at cell {}", res, tile, range, far));
        let nm = || kuba::LidarNoiseModel::new(0.7, 0.4, 0.1192, 0.971, 0.5, range);
        let occ = sut(|| S::Occ::make(nm(), res, tile))?;
        let map = sut(|| S::Map::make(res, ([0.0; 3], [0.0; 3]), tile, 0.0))?;
        ensure!(occ.tile() == tile && occ.resolution() == res, "an occupancy map made with {} and tiles of {} has {} and {}", res, tile, occ.resolution(), occ.tile());
        let mut p = Pair::<S> { occ, map, nm: nm() };
        let f = |q: [f64; 3]| -> V {
            let mut v = [0.0; 3];
            for i in 0..d {
                v[i] = ((q[i] + far as f64) * res as f64) as f32;
            }
            v
        };
        for (o, pts) in [
            (f([0.2, -0.3, 0.1]), vec![f([2.8, 1.3, 0.2]), f([-1.7, 3.2, 0.2])]),
            (f([-4.2, 0.3, 1.1]), vec![f([-4.1, 0.2, 1.2])]),
        ] {
            let x = sut(|| p.occ.integrate(o, &pts));
            let y = sut(|| S::integrate(&p.nm, &mut p.map, o, &pts));
            same("integration", x, y)?;
        }
        i05_compare(&p, false)?;
        Ok(Obs::new(true, (tile, res.to_bits())))
    });
    // The defaults.
    c.tree(&format!("{}-defaults", S::NAME), |_| {
        let m = sut(S::Occ::make_default)?;
        ensure!(m.resolution() == kuba::map::grid_map::DEFAULT_RESOLUTION, "default resolution {}", m.resolution());
        ensure!(m.tile() == kuba::map::grid_map::DEFAULT_TILE_SIZE, "default tile size {}", m.tile());
        ensure!(map_region(&m)?.is_none(), "a new map covers {:?}", m.bounds());
        ensure!(!m.tracking() && m.changed().is_empty(), "a new map tracks changes");
        let nm = m.model();
        use kuba::map::lidar_noise_model::*;
        for (name, got, want) in [
            ("hit", nm.hit_probability_logodds, DEFAULT_HIT_PROBABILITY),
            ("miss", nm.miss_probability_logodds, DEFAULT_MISS_PROBABILITY),
            ("min", nm.min_probability_logodds, DEFAULT_MIN_PROBABILITY),
            ("max", nm.max_probability_logodds, DEFAULT_MAX_PROBABILITY),
            ("threshold", nm.occupied_threshold_logodds, DEFAULT_OCCUPIED_THRESHOLD),
        ] {
            ensure!((got as f64 - lo(want)).abs() < 1e-4, "the default {} log odds are {}, expected {}", name, got, lo(want));
        }
        ensure!(nm.max_range == DEFAULT_MAX_RANGE, "the default range is {}", nm.max_range);
        Ok(Obs::new(true, 0))
    });
}

/// A noise model of our own, which shows what an occupancy map asks of its model.
struct Odd {
    unknown: f32,
}

macro_rules! odd {
    ($U:ty, $Ix:ty) => {
        impl kuba::NoiseModel<$U, $Ix> for Odd {
            fn default_noise_model() -> Self {
                Odd { unknown: 7.5 }
            }
            fn default_cell_value(&self) -> f32 {
                self.unknown
            }
            fn integrate_point_cloud(
                &self,
                m: &mut impl kuba::ExpandableGridMap<f32, $U, $Ix>,
                origin: &kuba::Point<$U>,
                cloud: &kuba::PointCloud<$U>,
            ) {
                m.expand_bounds(&cloud.bounds(), self.unknown);
                for p in cloud.points_iter() {
                    let c = m.cell_from_point(&p);
                    m.set(&c, origin[0]);
                }
            }
            fn occupied(&self, m: &impl kuba::GridMap<f32, $U, $Ix>, c: &kuba::Cell<$U>) -> bool {
                m.get(c) == 42.0
            }
        }
    };
}
odd!(nalgebra::U2, ndarray::Ix2);
odd!(nalgebra::U3, ndarray::Ix3);

fn i05_own(c: &mut Check) {
    macro_rules! go {
        ($name:expr, $U:ty, $Ix:ty, $point:expr, $cell:expr) => {
            c.tree($name, |ch| {
                type M = kuba::OccupancyGridMapN<Odd, $U, $Ix>;
                let (point, cell) = ($point, $cell);
                let which = ch.int(3);
                let mut m = sut(|| match which {
                    0 => M::default(),
                    1 => M::new(Odd { unknown: -3.25 }, 0.5, 4),
                    _ => M::new(Odd { unknown: 0.0 }, 1.0, 3),
                })?;
                let (unknown, res, tile) = [(7.5f32, 0.1f32, 100i64), (-3.25, 0.5, 4), (0.0, 1.0, 3)][which];
                ensure!(m.noise_model.unknown == unknown, "the noise model was not used as given");
                let hit = ch.flag();
                let at = *ch.of(&[0i64, 1, 2]);
                ch.note(|| format!("map {} hit {} at {}", which, hit, at));
                let o = if hit { 42.0 } else { 1.0 };
                let pts = [point(at as f32 * res, 0.0)];
                sut(|| m.integrate_point_cloud(&point(o, 9.0), &kuba::PointCloud::from_points(&pts)))?;
                for x in 0..tile.min(6) {
                    for y in 0..2 {
                        let want = if (x, y) == (at, 0) { o } else { unknown };
                        let v = sut(|| GridMap::get(&m, &cell(x as isize, y)))?;
                        ensure!(v == want, "cell {:?} holds {} instead of {}", (x, y), v, want);
                        let occ = sut(|| m.occupied(&cell(x as isize, y)))?;
                        ensure!(occ == (want == 42.0), "cell {:?} with {} is reported as occupied = {}", (x, y), v, occ);
                    }
                }
                Ok(Obs::new(true, (which, hit, at)))
            });
        };
    }
    go!("2d-own-model", nalgebra::U2, ndarray::Ix2, |x: f32, y: f32| kuba::Point2::new(x, y), |x: isize, y: isize| kuba::Cell2::new(x, y));
    go!("3d-own-model", nalgebra::U3, ndarray::Ix3, |x: f32, y: f32| kuba::Point3::new(x, y, 0.0), |x: isize, y: isize| kuba::Cell3::new(x, y, 0));
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let level = if id == "I01" { "exploration" } else { "model_checking" };
    let c = Check::new(&id, level);
    let name = id.clone();
    c.run(|c| match name.as_str() {
        "I01" => {
            c.rule("every combination of an origin, points on and within one ulp of cell and tile borders, an earlier map, resolution, tile size and range, and every sequence of such clouds up to a depth; non-trivial if it integrates a cloud");
            c.assume("regions a map in memory can hold; f32 can tell neighbouring cells apart");
            i01::<S2>(c);
            i01::<S3>(c);
            i01_dense::<S2>(c);
            i01_dense::<S3>(c);
        }
        "I02" => {
            c.rule("states are maps together with the reference values of all locations; transitions are integrations of clouds, each followed by a comparison of every cell of the map; non-trivial if some cell is freed");
            c.assume("rays without near ties (their cells do not depend on rounding); ties are the subject of R01, R02 and I01");
            i02::<S2>(c);
            i02::<S3>(c);
        }
        "I03" => {
            c.rule("states are the values of a cell reachable with a noise model; transitions are hits and misses; non-trivial if some evidence changes a value");
            i03::<S2>(c);
            i03::<S3>(c);
        }
        "I04" => {
            c.rule("states are (region, tracked locations, tracking on or off); transitions are integrations, growth, switching, clearing, reading, adding");
            i04::<S2>(c);
            i04::<S3>(c);
            i04_many::<S2>(c);
            i04_many::<S3>(c);
        }
        "I05" => {
            c.rule("states are pairs of an occupancy map and a grid map with a noise model, driven by the same operations; everything observable of both is compared after every transition");
            i05::<S2>(c);
            i05::<S3>(c);
            i05_own(c);
        }
        _ => panic!("unknown property {}", id),
    })
}
