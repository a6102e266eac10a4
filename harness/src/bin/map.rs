//! M01 M02 M03 M04: the grid map as a container.

use kuba_mc::alphabet::*;
use kuba_mc::engine::*;
use kuba_mc::ensure;
use kuba_mc::space::*;
use std::collections::HashMap;

/// All boxes with every dimension's interval from the list (the third is a point in 2D).
fn product(per_dim: &[(f32, f32)], d: usize) -> Vec<Bx> {
    let mut out = vec![];
    let one = [(0.0, 0.0)];
    let zs: &[(f32, f32)] = if d == 3 { per_dim } else { &one };
    for x in per_dim {
        for y in per_dim {
            for z in zs {
                out.push(([x.0, y.0, z.0], [x.1, y.1, z.1]));
            }
        }
    }
    out
}

/// The same per dimension, but in turn one dimension takes all intervals and the others a few.
fn focus(big: &[(f32, f32)], small: &[(f32, f32)], d: usize) -> Vec<Bx> {
    let mut out = vec![];
    for f in 0..d {
        for a in big {
            for b in small {
                let mut bx = ([0.0; 3], [0.0; 3]);
                for i in 0..d {
                    // The remaining dimensions get different intervals, so that mixing them up shows.
                    let v = if i == f { *a } else { *b };
                    bx.0[i] = v.0;
                    bx.1[i] = v.1;
                }
                out.push(bx);
                if d == 3 {
                    let g = (f + 1) % 3;
                    bx.0[g] = small[0].0;
                    bx.1[g] = small[0].1;
                    out.push(bx);
                }
            }
        }
    }
    out
}

fn ends(cells: &[f32], res: f32) -> Vec<f32> {
    cells.iter().map(|c| c * res).collect()
}

/// A value that is different for every location.
fn stamp(w: C) -> i32 {
    (w[0] * 10007 + w[1] * 3001 + w[2] * 17 + 1_000_000).rem_euclid(2_147_483_629) as i32
}

fn center(w: C, res: f32, d: usize) -> V {
    let mut p = [0.0; 3];
    for i in 0..d {
        p[i] = (w[i] as f64 * res as f64) as f32;
    }
    p
}

fn read<M: MapApi>(m: &M, c: C) -> Result<M::A, String> {
    sut(|| m.get(c))
}

/// The region of a map in world cells, None if it is the empty one.
fn region_of<M: MapApi>(m: &M) -> Result<Option<(C, C)>, String> {
    region_of_bounds(m.bounds(), m.resolution(), M::D)
}

fn region_of_bounds(b: Bx, res: f32, d: usize) -> Result<Option<(C, C)>, String> {
    if (0..d).all(|i| b.0[i] == 0.0 && b.1[i] == 0.0) {
        return Ok(None);
    }
    region(b, res, d).map(Some)
}

#[derive(Clone, Copy)]
struct Scope {
    m01: bool,
    m02: bool,
}

/// Expands the map and judges what happened. `old` gives the value of every location covered before.
fn expand_and_judge<M: MapApi<A = i32>>(
    m: &M,
    b: Bx,
    default: i32,
    sc: Scope,
    old: impl Fn(C) -> i32,
    every: bool,
) -> Result<M, String> {
    let d = M::D;
    let res = m.resolution();
    let before = region_of(m)?;
    let mut n = m.clone();
    sut(|| n.expand(b, default)).map_err(|e| format!("expanding to {:?} failed: {}", b, e))?;
    let after = match region_of(&n)? {
        Some(r) => r,
        None => return Err(format!("the map is still empty after expanding it to {:?}", b)),
    };
    if sc.m01 {
        // Every earlier location holds its value.
        if let Some((lo, hi)) = before {
            each_cell(lo, hi, |w| {
                let p = center(w, res, d);
                let c = n.cell_of(p);
                let v = read(&n, c).map_err(|e| format!("location {:?} was covered and is not any more: {}", p, e))?;
                ensure!(
                    v == old(w),
                    "location {:?} (cell {:?} of the world) held {} and holds {} after expanding {:?} to {:?}",
                    p, w, old(w), v, (lo, hi), after
                );
                Ok(())
            })?;
        }
        // Every other cell holds the default.
        each_cell(after.0, after.1, |w| {
            if let Some((lo, hi)) = before {
                if inside(w, lo, hi, d) {
                    return Ok(());
                }
            }
            let c = n.cell_of(center(w, res, d));
            let v = read(&n, c).map_err(|e| format!("new location {:?} within the bounds is not readable: {}", w, e))?;
            ensure!(v == default, "new location {:?} holds {} instead of the default {}", w, v, default);
            Ok(())
        })?;
    }
    if sc.m02 {
        // Every point of the requested region is covered: corners, edges, middle.
        let mut vals: Vec<Vec<f32>> = vec![];
        for i in 0..3 {
            let (a, z) = (b.0[i], b.1[i]);
            let mut v = vec![a, z, a + 0.5 * (z - a)];
            if every && i < d {
                // Around all cell borders within.
                let lo = (a / res).floor() as i64 - 1;
                let hi = (z / res).ceil() as i64 + 1;
                for k in lo..=hi {
                    let e = ((k as f64 + 0.5) * res as f64) as f32;
                    for x in [down(e), e, up(e)] {
                        if x >= a && x <= z {
                            v.push(x);
                        }
                    }
                }
            }
            v.sort_by(|x, y| x.partial_cmp(y).unwrap());
            v.dedup();
            if i >= d {
                v = vec![0.0];
            }
            vals.push(v);
        }
        let mut w = n.clone();
        for x in &vals[0] {
            for y in &vals[1] {
                for z in &vals[2] {
                    let p = [*x, *y, *z];
                    let c = n.cell_of(p);
                    let v = read(&n, c).map_err(|e| format!("point {:?} of the requested region {:?} has cell {:?}, which is not readable: {} (bounds {:?})", p, b, c, e, n.bounds()))?;
                    sut(|| w.set(c, v ^ 0x5555)).map_err(|e| format!("point {:?} of the requested region has cell {:?}, which is not writable: {}", p, c, e))?;
                    let r = read(&w, c)?;
                    ensure!(r == v ^ 0x5555, "cell {:?} in the requested region was written {} and reads {}", c, v ^ 0x5555, r);
                    sut(|| w.set(c, v))?;
                }
            }
        }
        let t = m.tile() as i64;
        let (lo, hi) = after;
        for i in 0..d {
            ensure!(lo[i].rem_euclid(t) == 0 && hi[i].rem_euclid(t) == 0, "region {:?}..{:?} in cells is not on tiles of {}", lo, hi, t);
            let near = |x: f32| (x as f64 / res as f64).round() as i64;
            let (mut rl, mut rh) = (near(b.0[i]) - 1, near(b.1[i]) + 2);
            if let Some((l, h)) = before {
                rl = rl.min(l[i]);
                rh = rh.max(h[i]);
            }
            ensure!(lo[i] > rl - t, "region starts at {} in dimension {}, more than a tile below {}", lo[i], i, rl);
            ensure!(hi[i] < rh + t, "region ends at {} in dimension {}, more than a tile above {}", hi[i], i, rh);
            if let Some((l, h)) = before {
                ensure!(lo[i] <= l[i] && hi[i] >= h[i], "the map shrank from {:?} to {:?}", (l, h), after);
            }
        }
        // Every cell within the bounds is really there, and no other.
        for corner in 0..(1 << d) {
            let mut w = [0i64; 3];
            for i in 0..d {
                w[i] = if corner >> i & 1 == 0 { 0 } else { hi[i] - lo[i] - 1 };
            }
            read(&n, w).map_err(|e| format!("corner cell {:?} of a map of {:?}..{:?} is not readable: {}", w, lo, hi, e))?;
        }
        // Expanding again changes nothing.
        let mut again = n.clone();
        sut(|| again.expand(b, default ^ 0x33)).map_err(|e| format!("expanding again failed: {}", e))?;
        ensure!(again.bounds() == n.bounds(), "expanding to {:?} again changes the bounds from {:?} to {:?}", b, n.bounds(), again.bounds());
        if every {
            each_cell([0; 3], sub(hi, lo), |mut c| {
                if d == 2 {
                    c[2] = 0;
                }
                let (x, y) = (read(&n, c)?, read(&again, c)?);
                ensure!(x == y, "expanding again changes cell {:?} from {} to {}", c, x, y);
                Ok(())
            })?;
        }
    }
    ensure!(n.resolution() == res && n.tile() == m.tile(), "resolution or tile size changed");
    Ok(n)
}

fn fill<M: MapApi<A = i32>>(m: &mut M) -> Result<(), String> {
    if let Some((lo, hi)) = region_of(m)? {
        let res = m.resolution();
        each_cell(lo, hi, |w| {
            let c = m.cell_of(center(w, res, M::D));
            sut(|| m.set(c, stamp(w))).map_err(|e| format!("location {:?} within the bounds is not writable: {}", w, e))
        })?;
    }
    Ok(())
}

/// All regions reachable by expansions; every location holds its own value before each of them.
fn stamped<M: MapApi<A = i32>>(c: &mut Check, name: &str, sc: Scope, inits: Vec<M>, boxes: &[Bx], depth: usize, states: usize) {
    let inits: Vec<M> = inits
        .into_iter()
        .map(|mut m| {
            fill(&mut m).unwrap_or_else(|e| panic!("code under test: {}", e));
            m
        })
        .collect();
    c.bfs(
        name,
        inits,
        boxes.len(),
        depth,
        states,
        |a| format!("expand {:?}", boxes[a]),
        |m, a| {
            // The stamp is a function of the location, so the region is the whole state.
            let mut n = expand_and_judge(m, boxes[a], -7 - (a as i32 % 3), sc, stamp, true)?;
            fill(&mut n)?;
            Ok(Some(n))
        },
        |m| {
            let b = m.bounds();
            key128((format!("{:?}", b), m.tile(), m.resolution().to_bits()))
        },
    );
}

#[derive(Clone)]
struct Hist<M> {
    map: M,
    model: HashMap<C, i32>,
}

/// Histories of expansions with different defaults and single writes, against a map of locations.
fn histories<M: MapApi<A = i32>>(c: &mut Check, name: &str, sc: Scope, init: M, boxes: &[Bx], spots: &[C], depth: usize, states: usize) {
    let mut model = HashMap::new();
    if let Some((lo, hi)) = region_of(&init).unwrap() {
        each_cell::<()>(lo, hi, |w| {
            model.insert(w, 5);
            Ok(())
        })
        .unwrap();
    }
    let nb = boxes.len() * 2;
    c.bfs(
        name,
        vec![Hist { map: init, model }],
        nb + spots.len() * 2,
        depth,
        states,
        |a| {
            if a < nb {
                format!("expand {:?} default {}", boxes[a / 2], 1 + a % 2)
            } else {
                format!("set location {:?} to {}", spots[(a - nb) / 2], 100 + a % 2)
            }
        },
        |s, a| {
            if a < nb {
                let default = 1 + (a % 2) as i32;
                let n = expand_and_judge(&s.map, boxes[a / 2], default, sc, |w| s.model[&w], false)?;
                let (lo, hi) = region_of(&n)?.unwrap();
                let mut model = s.model.clone();
                each_cell::<String>(lo, hi, |w| {
                    model.entry(w).or_insert(default);
                    Ok(())
                })?;
                Ok(Some(Hist { map: n, model }))
            } else {
                let w = spots[(a - nb) / 2];
                if !s.model.contains_key(&w) {
                    return Ok(None);
                }
                let mut n = s.clone();
                let p = center(w, n.map.resolution(), M::D);
                let cell = n.map.cell_of(p);
                sut(|| n.map.set(cell, 100 + (a % 2) as i32))?;
                n.model.insert(w, 100 + (a % 2) as i32);
                for (w, v) in &n.model {
                    let cell = n.map.cell_of(center(*w, n.map.resolution(), M::D));
                    let x = read(&n.map, cell)?;
                    ensure!(x == *v, "location {:?} holds {} instead of {}", w, x, v);
                }
                Ok(Some(n))
            }
        },
        |s| {
            let mut v: Vec<_> = s.model.iter().map(|(k, v)| (*k, *v)).collect();
            v.sort();
            key128((v, format!("{:?}", s.map.bounds())))
        },
    );
}

fn m01_m02(c: &mut Check, sc: Scope) {
    let th = c.thorough;
    c.rule("every transition expands a real map and compares the value at every location with the reference (M01) or the coverage of the requested region with exact arithmetic (M02)");
    c.assume("maps start empty or on a region at multiples of the resolution; coordinates up to about 2^16 cells from the origin");
    c.assume("i32 elements (the element type is irrelevant to growth: the code is generic and other types are covered by M03)");
    type G2 = kuba::GridMap2<i32>;
    type G3 = kuba::GridMap3<i32>;
    let some2 = |res: f32, t: usize| -> Vec<G2> {
        vec![
            G2::make(res, ([0.0; 3], [0.0; 3]), t, 5),
            G2::make(res, ([-res, 0.0, 0.0], [res * 2.0, res, 0.0]), t, 5),
            G2::make(res, ([res * 2.0, -res * 3.0, 0.0], [res * 3.0, -res, 0.0]), t, 5),
        ]
    };
    let some3 = |res: f32, t: usize| -> Vec<G3> {
        vec![
            G3::make(res, ([0.0; 3], [0.0; 3]), t, 5),
            G3::make(res, ([-res, 0.0, res], [res, res * 2.0, res * 2.0]), t, 5),
        ]
    };
    // Two dimensions: all regions reachable with ends from an alphabet of on-grid, half-cell and
    // off-grid coordinates, by any number of expansions.
    for (i, (res, t)) in [(1.0, 1), (0.5, 2), (0.1, 3), (0.3, 4), (0.25, 5), (0.7, 7)].iter().enumerate() {
        let mut cells = vec![-2.5, -1.0, 0.0, 0.4, 1.5, 2.6];
        if th {
            cells.extend([-4.2, 3.5, 5.0]);
            cells.sort_by(|a: &f32, b| a.partial_cmp(b).unwrap());
        }
        let boxes = product(&intervals(&ends(&cells, *res)), 2);
        stamped(c, &format!("2d-all-regions-{}", i), sc, some2(*res, *t), &boxes, 40, 1_000_000);
    }
    for (i, (res, t)) in [(0.5, 2), (0.1, 3), (1.0, 1)].iter().enumerate() {
        let cells: &[f32] = if th { &[-1.5, 0.0, 1.4, 2.6] } else { &[-1.5, 0.0, 1.6] };
        let boxes = product(&intervals(&ends(cells, *res)), 3);
        stamped(c, &format!("3d-all-regions-{}", i), sc, some3(*res, *t), &boxes, 40, 1_000_000);
    }
    // One and two expansions with many more ends in one dimension at a time.
    let mut cells = vec![];
    for k in -4..=4 {
        let k = k as f32;
        for x in [k, k + 0.25, k + 0.5, k + 0.75] {
            cells.push(x);
        }
    }
    for (i, (res, t)) in [(0.1, 2), (0.5, 4), (1.0, 3), (0.2, 1), (0.05, 5)].iter().enumerate() {
        let mut e = vec![];
        for x in &cells {
            let v = x * res;
            e.push(v);
            if *x != 0.0 {
                e.push(up(v));
                e.push(down(v));
            }
        }
        e.sort_by(|a, b| a.partial_cmp(b).unwrap());
        e.dedup();
        let big: Vec<_> = intervals(&e)
            .into_iter()
            .enumerate()
            .filter(|(j, (a, b))| th || a == b || j % 7 == i % 7)
            .map(|x| x.1)
            .collect();
        let small = [(-res * 1.5, res * 0.5), (*res, *res)];
        let boxes = focus(&big, &small, 2);
        stamped(c, &format!("2d-many-ends-{}", i), sc, some2(*res, *t), &boxes, if th { 3 } else { 2 }, 2_000_000);
        if i < 2 || th {
            let big: Vec<_> = if th { big } else { big.into_iter().step_by(4).collect() };
            let boxes = focus(&big, &small, 3);
            stamped(c, &format!("3d-many-ends-{}", i), sc, some3(*res, *t), &boxes, if th { 2 } else { 1 }, 2_000_000);
        }
    }
    // Histories with writes and changing defaults, nothing restored in between.
    let b2 = [
        ([-0.5, 0.0, 0.0], [0.5, 0.5, 0.0]),
        ([0.0, -1.5, 0.0], [0.25, -1.0, 0.0]),
        ([1.0, 1.0, 0.0], [2.0, 1.25, 0.0]),
        ([-2.0, 2.0, 0.0], [-2.0, 2.0, 0.0]),
    ];
    let s2 = [[0, 0, 0], [-1, 1, 0], [2, 2, 0]];
    let depth = if th { 60 } else { 14 };
    histories(c, "2d-histories", sc, kuba::GridMap2::<i32>::make(0.5, ([0.0; 3], [0.0; 3]), 2, 0), &b2, &s2, depth, 3_000_000);
    histories(c, "2d-histories-started", sc, kuba::GridMap2::<i32>::make(0.5, ([-0.5, 0.0, 0.0], [0.5, 1.5, 0.0]), 3, 5), &b2, &s2, depth, 3_000_000);
    let b3 = [
        ([-0.5, 0.0, 0.0], [0.5, 0.5, 0.0]),
        ([0.0, -1.5, 0.5], [0.25, -1.0, 1.0]),
        ([0.5, 0.5, -1.5], [1.0, 0.5, -1.0]),
    ];
    let s3 = [[0, 0, 0], [1, 0, -1]];
    histories(c, "3d-histories", sc, kuba::GridMap3::<i32>::make(0.5, ([0.0; 3], [0.0; 3]), 2, 0), &b3, &s3, depth, 3_000_000);

    // Scale: tile sizes and distances of real maps. Every pair of boxes from two alphabets.
    let far: &[f32] = &[0.0, 37.25, -37.25, 120.05, -899.95, 1500.0, 6500.3, -6500.3];
    let tiles: &[usize] = if th { &[1, 7, 10, 16, 64, 100, 101, 128] } else { &[1, 7, 64, 100] };
    let resolutions: &[f32] = &[0.1, 0.05, 0.2, 0.25, 1.0];
    c.tree("2d-scale", |ch| {
        let res = *ch.of(resolutions);
        let tile = *ch.of(tiles);
        let ox = *ch.of(far);
        let oy = *ch.of(far);
        let w = *ch.of(&[0.0f32, 0.05, 1.0, 3.33]);
        let step = *ch.of(&[[0.0f32, 2.0, 0.0], [-1.0, 0.55, 0.0], [-2.0, -0.35, 0.0], [3.05, -1.0, 0.0], [-4.0, 4.0, 0.0], [12.3, 0.0, 0.0], [0.0, -12.3, 0.0]]);
        if ox.abs() / res > 70000.0 || oy.abs() / res > 70000.0 {
            return Ok(Obs::new(false, 0));
        }
        ch.note(|| format!("resolution {} tile {} at ({}, {}) size {} then shifted by {:?}", res, tile, ox, oy, w, step));
        let m = kuba::GridMap2::<i32>::make(res, ([0.0; 3], [0.0; 3]), tile, 5);
        let b = ([ox, oy, 0.0], [ox + w, oy + 0.5 * w, 0.0]);
        let mut m = expand_and_judge(&m, b, 9, sc, stamp, false)?;
        fill(&mut m)?;
        let b = ([ox + step[0], oy + step[1], 0.0], [ox + step[0] + w, oy + step[1] + w, 0.0]);
        let m = expand_and_judge(&m, b, 11, sc, stamp, false)?;
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
    let tiles: &[usize] = if th { &[1, 7, 10, 16, 32, 64] } else { &[1, 10, 16] };
    c.tree("3d-scale", |ch| {
        let res = *ch.of(&[0.1f32, 0.25]);
        let tile = *ch.of(tiles);
        let o = *ch.of(&[[0.0f32, 0.0, 0.0], [-37.25, 120.05, 3.0], [6500.3, -899.95, -12.5]]);
        let w = *ch.of(&[0.0f32, 0.05, 1.0]);
        let step = *ch.of(&[[0.0f32, 0.5, 0.55], [-1.0, 0.55, 0.0], [0.3, -0.35, -1.0], [1.05, -1.0, 0.2], [-1.0, -1.0, -1.0]]);
        ch.note(|| format!("resolution {} tile {} at {:?} size {} then shifted by {:?}", res, tile, o, w, step));
        let m = kuba::GridMap3::<i32>::make(res, ([0.0; 3], [0.0; 3]), tile, 5);
        let b = (o, [o[0] + w, o[1] + 0.5 * w, o[2] + 0.3]);
        let mut m = expand_and_judge(&m, b, 9, sc, stamp, false)?;
        fill(&mut m)?;
        let b = ([o[0] + step[0], o[1] + step[1], o[2] + step[2]], [o[0] + step[0] + w, o[1] + step[1] + w, o[2] + step[2]]);
        let m = expand_and_judge(&m, b, 11, sc, stamp, false)?;
        Ok(Obs::new(true, format!("{:?}", m.bounds())))
    });
    if sc.m02 {
        grown_lengths(c);
    }
    chains(c, sc);
    big_maps(c, sc);
    // The default configuration (0.1 m, tiles of 100 cells) in three dimensions: one tile to two.
    c.tree("3d-default-tiles", |ch| {
        let mut m = kuba::GridMap3::<i32>::make_default();
        let dir = ch.int(if th { 6 } else { 2 });
        let b = ([0.05f32, 0.3, 0.2], [0.95, 0.6, 0.7]);
        m = expand_and_judge(&m, b, 3, sc, stamp, false)?;
        let probes: Vec<C> = (0..100).map(|i| [i, (i * 37) % 100, (i * 61 + 3) % 100]).collect();
        for p in &probes {
            let cell = m.cell_of(center(*p, 0.1, 3));
            sut(|| m.set(cell, stamp(*p)))?;
        }
        let mut b2 = b;
        let i = dir % 3;
        let v = if (dir / 3 + dir) % 2 == 0 { -0.05 } else { 10.0 };
        b2.0[i] = v;
        b2.1[i] = v;
        ch.note(|| format!("dimension {} to {}", i, v));
        let (p2, s) = (probes.clone(), |w: C| stamp(w));
        let set: std::collections::HashSet<C> = p2.into_iter().collect();
        let n = expand_and_judge(&m, b2, 8, sc, |w| if set.contains(&w) { s(w) } else { 3 }, false)?;
        Ok(Obs::new(true, format!("{:?}", n.bounds())))
    });
}

// Maps that have grown very many times, by a cell or a tile at a time.
fn chains(c: &mut Check, sc: Scope) {
    let steps = if c.thorough { 40_000 } else { 12_000 };
    c.tree("chains", |ch| {
        let res = *ch.of(&[0.1f32, 0.3, 0.7, 0.05]);
        let tile = *ch.of(&[1usize, 3]);
        let axis = ch.int(5);
        // Downwards, upwards, both in turn, one long jump in between.
        let way = ch.int(3);
        ch.note(|| format!("resolution {} tile {} axis {} way {}", res, tile, axis, way));
        fn go<M: MapApi<A = i32>>(sc: Scope, i: usize, res: f32, tile: usize, way: usize, steps: usize) -> Result<usize, String> {
            let d = M::D;
            let mut m = M::make(res, ([0.0; 3], [0.0; 3]), tile, 0);
            // Marked locations and what they hold.
            let mut marks: Vec<(C, i32)> = vec![];
            let mut last = [0i64; 3];
            for n in 0..steps / tile {
                let k = (n as i64 + 1) * tile as i64;
                let at = match way {
                    0 => -k,
                    1 => k,
                    _ if n % 2 == 0 => -k,
                    _ => k,
                };
                let mut w = [0i64; 3];
                w[i] = at;
                let p = center(w, res, d);
                let b = (p, p);
                // Now and then everything is compared, otherwise the marked and the newest locations.
                if (n + 1) % (steps / tile / 4) == 0 {
                    let Some((lo, hi)) = region_of(&m)? else { return Err("the map is empty".into()) };
                    let mut all = HashMap::new();
                    each_cell(lo, hi, |w| {
                        let c = m.cell_of(center(w, res, d));
                        all.insert(w, read(&m, c)?);
                        Ok::<(), String>(())
                    })?;
                    m = expand_and_judge(&m, b, -1, sc, |w| all[&w], false)?;
                } else {
                    sut(|| m.expand(b, -1)).map_err(|e| format!("expanding to {:?} failed: {}", b, e))?;
                }
                let c = m.cell_of(p);
                let v = read(&m, c).map_err(|e| format!("after {} expansions the point {:?} is not covered: {}", n + 1, p, e))?;
                ensure!(!sc.m01 || v == -1 || w == last, "after {} expansions the new location {:?} holds {}", n + 1, w, v);
                if n % 97 == 0 {
                    sut(|| m.set(c, n as i32))?;
                    marks.push((w, n as i32));
                }
                last = w;
                if n % 500 == 499 || n + 1 == steps / tile {
                    let Some((lo, hi)) = region_of(&m)? else { return Err("the map is empty".into()) };
                    let t = tile as i64;
                    ensure!(!sc.m02 || (lo[i].rem_euclid(t) == 0 && hi[i].rem_euclid(t) == 0), "after {} expansions the map {:?} is not on tiles of {}", n + 1, (lo, hi), t);
                    for (w, x) in &marks {
                        let c = m.cell_of(center(*w, res, d));
                        let v = read(&m, c).map_err(|e| format!("after {} expansions location {:?} is not covered any more: {}", n + 1, w, e))?;
                        ensure!(!sc.m01 || v == *x, "after {} expansions location {:?} holds {} instead of {}", n + 1, w, v, x);
                    }
                }
            }
            Ok(marks.len())
        }
        let n = if axis < 2 {
            go::<kuba::GridMap2<i32>>(sc, axis, res, tile, way, steps)?
        } else {
            go::<kuba::GridMap3<i32>>(sc, axis - 2, res, tile, way, steps)?
        };
        Ok(Obs::new(true, (n, axis, way)))
    });
}

// Maps of millions of cells, and of extents beyond 2^15 and 2^16 cells on both sides.
fn big_maps(c: &mut Check, sc: Scope) {
    let th = c.thorough;
    // Width, height, depth in cells, tile, and how it grows.
    let mut sizes: Vec<(C, usize)> = vec![
        ([1200, 1100, 0], 1),
        ([70_000, 40, 0], 10),
        ([30, 70_000, 0], 7),
        ([2, 1_100_000, 0], 2),
        ([140, 120, 110], 10),
        ([40_000, 6, 5], 5),
        ([5, 40_000, 6], 3),
        ([4, 7, 70_000], 1),
    ];
    if th {
        sizes.extend([([4200, 4100, 0], 100), ([270, 260, 280], 50), ([3, 2, 1_000_000], 1)]);
    }
    c.tree("big", |ch| {
        let (dims, tile) = *ch.of(&sizes);
        let res = *ch.of(&[0.1f32, 0.5]);
        let d = if dims[2] == 0 { 2 } else { 3 };
        let way = ch.int(4);
        ch.note(|| format!("{:?} cells, tile {}, resolution {}, way {}", dims, tile, res, way));
        fn go<M: MapApi<A = i32>>(sc: Scope, dims: C, tile: usize, res: f32, way: usize) -> Result<Bx, String> {
            let d = M::D;
            let cells = |lo: C, hi: C| -> Bx { (center(lo, res, d), center(hi, res, d)) };
            // Centered on the origin, or entirely on one side of it.
            let mut lo = [0i64; 3];
            let mut hi = [0i64; 3];
            for i in 0..d {
                let from = match way {
                    0 => -dims[i] / 2,
                    1 => 3,
                    2 => -dims[i] - 3,
                    _ => -7,
                };
                lo[i] = from;
                hi[i] = from + dims[i];
            }
            let m = M::make(res, ([0.0; 3], [0.0; 3]), tile, 0);
            let mut m = expand_and_judge(&m, cells(lo, hi), 4, sc, stamp, false)?;
            fill(&mut m)?;
            // Further growth in each direction: every value stays.
            let mut b = cells(lo, lo);
            for i in 0..d {
                let w = if (way + i) % 2 == 0 { lo[i] - 2 - tile as i64 } else { hi[i] + 2 };
                b.0[i] = (w as f64 * res as f64) as f32;
                b.1[i] = b.0[i];
            }
            let m = expand_and_judge(&m, b, 6, sc, stamp, false)?;
            Ok(m.bounds())
        }
        let b = if d == 2 {
            go::<kuba::GridMap2<i32>>(sc, dims, tile, res, way)?
        } else {
            go::<kuba::GridMap3<i32>>(sc, dims, tile, res, way)?
        };
        Ok(Obs::new(true, format!("{:?}", b)))
    });
}

// Long maps in one dimension, of every length: the ends of the requested region are covered.
fn grown_lengths(c: &mut Check) {
    let th = c.thorough;
    let block = 250;
    let blocks = if th { 800 } else { 120 };
    c.tree("grown-lengths", |ch| {
        let at = ch.int(blocks);
        let (res, tile) = *ch.of(&[(0.1f32, 1usize), (0.1, 100), (0.05, 7), (0.3, 64), (0.25, 1)]);
        let axis = ch.int(5);
        let side = ch.int(2);
        ch.note(|| format!("resolution {}, tile {}, axis {}, side {}, lengths from {}", res, tile, axis, side, at * block));
        fn go<M: MapApi<A = u8>>(i: usize, res: f32, tile: usize, n: i64, side: usize) -> Result<(), String> {
            let d = M::D;
            let mut m = M::make(res, ([0.0; 3], [0.0; 3]), tile, 0);
            let mut b = ([0.0; 3], [0.0; 3]);
            let a = (n as f64 * res as f64) as f32;
            if side == 0 {
                b.1[i] = a;
            } else {
                b.0[i] = -a;
            }
            sut(|| m.expand(b, 9)).map_err(|e| format!("expanding to {:?} failed: {}", b, e))?;
            let (lo, hi) = region(m.bounds(), res, d)?;
            let t = tile as i64;
            let (want_lo, want_hi) = if side == 0 { (0, n) } else { (-n, 0) };
            ensure!(lo[i].rem_euclid(t) == 0 && hi[i].rem_euclid(t) == 0, "region {:?}..{:?} in cells is not on tiles of {}", lo, hi, t);
            ensure!(lo[i] <= want_lo && lo[i] > want_lo - 1 - t, "the map starts at cell {} for a region from {}", lo[i], want_lo);
            ensure!(hi[i] > want_hi && hi[i] < want_hi + 2 + t, "the map ends at cell {} for a region to {}", hi[i], want_hi);
            for p in [b.0, b.1] {
                let c = m.cell_of(p);
                let v = read(&m, c).map_err(|e| format!("point {:?} of the requested region {:?} has cell {:?}, which is not readable: {}", p, b, c, e))?;
                ensure!(v == 9, "new cell {:?} holds {}", c, v);
                sut(|| m.set(c, 9)).map_err(|e| format!("point {:?} of the requested region is not writable: {}", p, e))?;
            }
            let mut last = [0; 3];
            last[i] = hi[i] - lo[i] - 1;
            read(&m, last).map_err(|e| format!("the last cell {:?} of the bounds {:?} is not there: {}", last, m.bounds(), e))?;
            let before = m.bounds();
            sut(|| m.expand(b, 3)).map_err(|e| format!("expanding again failed: {}", e))?;
            ensure!(m.bounds() == before, "expanding to {:?} again changes the bounds from {:?} to {:?}", b, before, m.bounds());
            Ok(())
        }
        for n in (at * block)..((at + 1) * block) {
            if axis < 2 {
                go::<kuba::GridMap2<u8>>(axis, res, tile, n as i64, side)?;
            } else if tile < 8 {
                go::<kuba::GridMap3<u8>>(axis - 2, res, tile, n as i64, side)?;
            }
        }
        Ok(Obs::new(true, (at, axis, side)))
    });
}

// ---------------------------------------------------------------------------------------------

struct Seen<A> {
    bounds: Bx,
    res: f32,
    tile: usize,
    tracking: bool,
    changed: Vec<C>,
    cells: Vec<A>,
}

fn see<M: MapApi>(m: &M, dims: C) -> Result<Seen<M::A>, String> {
    let mut cells = vec![];
    each_cell([0; 3], dims, |c| {
        cells.push(read(m, c).map_err(|e| format!("cell {:?} of a map of {:?} cells is not readable: {}", c, dims, e))?);
        Ok::<(), String>(())
    })?;
    Ok(Seen { bounds: m.bounds(), res: m.resolution(), tile: m.tile(), tracking: m.tracking(), changed: m.changed(), cells })
}

/// Judges that two observations differ at most at one cell, where the second one holds v.
fn differs_only<A: PartialEq + std::fmt::Debug>(a: &Seen<A>, b: &Seen<A>, dims: C, at: Option<(C, &A)>, what: &str) -> Result<(), String> {
    ensure!(
        a.bounds == b.bounds && a.res == b.res && a.tile == b.tile && a.tracking == b.tracking && a.changed == b.changed,
        "{}: a property of the map other than its cells changed",
        what
    );
    let mut i = 0;
    each_cell([0; 3], dims, |c| {
        match &at {
            Some((x, v)) if *x == c => {
                ensure!(b.cells[i] == **v, "{}: cell {:?} reads {:?} after {:?} was written to it", what, c, b.cells[i], v)
            }
            _ => ensure!(a.cells[i] == b.cells[i], "{}: cell {:?} changed from {:?} to {:?}", what, c, a.cells[i], b.cells[i]),
        }
        i += 1;
        Ok(())
    })
}

fn dims_of<M: MapApi>(d: C) -> C {
    [d[0], d[1], if M::D == 3 { d[2] } else { 1 }]
}

fn map_of<M: MapApi>(res: f32, off: C, dims: C, tile: usize, default: M::A) -> M {
    let mut b = ([0.0; 3], [0.0; 3]);
    for i in 0..M::D {
        b.0[i] = (off[i] as f64 * res as f64) as f32;
        b.1[i] = ((off[i] + dims[i]) as f64 * res as f64) as f32;
    }
    M::make(res, b, tile, default)
}

/// All contents of a small map reachable by writes, clones and writes to either of the two.
fn contents<M: MapApi>(c: &mut Check, name: &str, dims: C, vals: &[M::A]) {
    let dims = dims_of::<M>(dims);
    let n = (dims[0] * dims[1] * dims[2]) as usize;
    let mut init = map_of::<M>(0.5, [-1, 2, 0], dims, 2, vals[0]);
    init.set_tracking(true);
    init.add_changed(&[[1, 0, 0], [0, 0, 0]]);
    let cell = |i: usize| {
        let i = i as i64;
        [i / (dims[1] * dims[2]), i / dims[2] % dims[1], i % dims[2]]
    };
    c.bfs(
        name,
        vec![init],
        n * vals.len() * 2,
        64,
        2_000_000,
        |a| format!("{} {:?} = {:?}", if a / (n * vals.len()) == 0 { "set" } else { "set in a clone" }, cell(a / vals.len() % n), vals[a % vals.len()]),
        |m, a| {
            let (v, at, clone) = (vals[a % vals.len()], cell(a / vals.len() % n), a / (n * vals.len()) == 1);
            let before = see(m, dims)?;
            let mut x = m.clone();
            differs_only(&before, &see(&x, dims)?, dims, None, "cloning")?;
            sut(|| x.set(at, v))?;
            let after = see(&x, dims)?;
            differs_only(&before, &after, dims, Some((at, &v)), "writing")?;
            differs_only(&before, &see(m, dims)?, dims, None, "writing to a clone")?;
            if clone {
                // The other way round: the original is written, the clone keeps its contents.
                let y = x.clone();
                let w = vals[(a + 1) % vals.len()];
                sut(|| x.set(at, w))?;
                differs_only(&after, &see(&y, dims)?, dims, None, "writing to the original of a clone")?;
                differs_only(&after, &see(&x, dims)?, dims, Some((at, &w)), "writing after cloning")?;
                return Ok(Some(y));
            }
            Ok(Some(x))
        },
        |m| key128(format!("{:?}", see(m, dims).map(|s| s.cells))),
    );
}

/// Fresh maps and unique contents for many shapes.
fn shapes<M: MapApi>(c: &mut Check, name: &str, expect_d: usize, max: i64, value: impl Fn(usize) -> M::A + Sync, default: M::A) {
    let th = c.thorough;
    c.tree(name, |ch| {
        ensure!(M::D == expect_d, "this map type has {} dimensions instead of {}", M::D, expect_d);
        let mut dims = [1i64; 3];
        for i in 0..M::D {
            dims[i] = 1 + ch.int(max as usize) as i64;
        }
        let res = *ch.of(if th { &[1.0f32, 0.1, 0.25, 0.3, 0.05, 0.7] } else { &[1.0f32, 0.1, 0.3] });
        let off = *ch.of(&[[0i64, 0, 0], [-3, 5, -7], [1234, -999, 40]]);
        let order = ch.int(2);
        ch.note(|| format!("{:?} cells, resolution {}, offset {:?}, order {}", dims, res, off, order));
        let mut m = sut(|| map_of::<M>(res, off, dims, 3, default))?;
        let n = (dims[0] * dims[1] * dims[2]) as usize;
        let mut all = vec![];
        each_cell([0; 3], dims, |c| {
            all.push(c);
            Ok::<(), String>(())
        })?;
        for c in &all {
            let v = read(&m, *c).map_err(|e| format!("cell {:?} of a fresh map of {:?} cells is not readable: {}", c, dims, e))?;
            ensure!(v == default, "cell {:?} of a fresh map holds {:?} instead of {:?}", c, v, default);
        }
        let b = m.bounds();
        // Every number is written once, in one of two orders, then everything is read.
        for i in 0..n {
            let j = if order == 0 { i } else { n - 1 - i };
            let v = value(j);
            sut(|| m.set(all[j], v))?;
        }
        let copy = m.clone();
        for i in 0..n {
            let v = read(&m, all[i])?;
            ensure!(v == value(i), "cell {:?} of {:?} cells holds {:?} instead of {:?}", all[i], dims, v, value(i));
            let v = read(&copy, all[i])?;
            ensure!(v == value(i), "cell {:?} of a clone holds {:?} instead of {:?}", all[i], v, value(i));
        }
        ensure!(m.bounds() == b && m.resolution() == res && m.tile() == 3 && !m.tracking() && m.changed().is_empty(), "writing changed a property of the map other than its cells");
        ensure!(copy.bounds() == b && copy.resolution() == res && copy.tile() == 3, "a clone differs from its original");
        Ok(Obs::new(n > 1, (dims, off)))
    });
}

/// Maps that have grown: every cell is still storage of its own, and clones are still independent.
fn grown<M: MapApi<A = i32>>(c: &mut Check, name: &str) {
    let th = c.thorough;
    let d = M::D;
    let mut boxes: Vec<Bx> = vec![
        ([-0.5, 0.0, 0.5], [-0.5, 0.5, 0.5]),
        ([0.0, -1.5, 0.0], [0.3, -1.0, 0.0]),
        ([1.0, 1.0, -0.6], [1.5, 1.25, -0.5]),
        ([0.5, 0.5, 1.0], [0.5, 0.5, 1.5]),
    ];
    if d == 2 {
        for b in boxes.iter_mut() {
            b.0[2] = 0.0;
            b.1[2] = 0.0;
        }
    }
    c.tree(name, |ch| {
        let mut m = sut(|| match ch.int(4) {
            0 => M::make(0.5, ([0.0; 3], [0.0; 3]), 1, 5),
            1 => map_of::<M>(0.5, [0, -1, 0], dims_of::<M>([2, 1, 2]), 2, 5),
            2 => map_of::<M>(0.5, [1, 1, 1], dims_of::<M>([1, 2, 1]), 3, 5),
            _ => {
                let mut m = M::make(0.5, ([0.0; 3], [0.0; 3]), 1, 5);
                m.expand(boxes[0], 6);
                m
            }
        })?;
        m.set_tracking(ch.flag());
        let steps = 1 + ch.int(if th { 3 } else { 2 });
        let mut trace = vec![];
        for _ in 0..steps {
            let b = *ch.of(&boxes);
            trace.push(b);
            sut(|| m.expand(b, 7)).map_err(|e| format!("expanding to {:?} failed: {}", b, e))?;
        }
        ch.note(|| format!("map of {:?} after expanding to {:?}", m.bounds(), trace));
        let (lo, hi) = match region_of(&m)? {
            Some(r) => r,
            None => return Err("the map is empty after expanding it".into()),
        };
        let dims = dims_of::<M>(sub(hi, lo));
        let unused = m.clone();
        let origin = see(&m, dims)?;
        // Every cell gets a value of its own, in either direction, and nothing else changes.
        let mut all = vec![];
        each_cell([0; 3], dims, |c| {
            all.push(c);
            Ok::<(), String>(())
        })?;
        if ch.flag() {
            all.reverse();
        }
        let careful = if th { 200 } else { 60 };
        let mut before = see(&m, dims)?;
        for (i, at) in all.iter().enumerate() {
            let v = 1000 + i as i32;
            sut(|| m.set(*at, v)).map_err(|e| format!("cell {:?} of {:?} is not writable: {}", at, dims, e))?;
            if all.len() < careful || i % 17 == 0 || i + 1 == all.len() {
                let after = see(&m, dims)?;
                if all.len() < careful {
                    differs_only(&before, &after, dims, Some((*at, &v)), "writing")?;
                }
                before = after;
            }
        }
        for (i, at) in all.iter().enumerate() {
            let v = read(&m, *at)?;
            ensure!(v == 1000 + i as i32, "cell {:?} of {:?} holds {} instead of {}", at, dims, v, 1000 + i);
        }
        differs_only(&origin, &see(&unused, dims)?, dims, None, "writing to the original of a clone")?;
        // A clone of a grown map grows and is written on its own.
        let mut n = m.clone();
        let b = *ch.of(&boxes);
        sut(|| n.expand(b, 8))?;
        sut(|| n.set([0; 3], -1))?;
        sut(|| n.set(*all.last().unwrap(), -1))?;
        differs_only(&before, &see(&m, dims)?, dims, None, "growing and writing a clone")?;
        Ok(Obs::new(true, (dims, steps)))
    });
}

/// Fresh maps that are long in one dimension, of every length: both ends are there, and no more.
fn lengths(c: &mut Check) {
    let th = c.thorough;
    let block = 250;
    let blocks = if th { 1600 } else { 300 };
    c.tree("lengths", |ch| {
        let at = ch.int(blocks);
        let res = *ch.of(&[0.1f32, 0.05, 0.3, 1.0, 0.7]);
        let axis = ch.int(5);
        ch.note(|| format!("resolution {}, axis {}, lengths from {}", res, axis, 1 + at * block));
        fn go<M: MapApi<A = u8>>(i: usize, res: f32, n: i64, off: i64) -> Result<(), String> {
            let (mut dims, mut o) = (dims_of::<M>([1; 3]), [0; 3]);
            dims[i] = n;
            o[i] = off;
            let mut m = sut(|| map_of::<M>(res, o, dims, 10, 3)).map_err(|e| format!("a map of {:?} cells cannot be made: {}", dims, e))?;
            let mut ats = vec![0, n / 2, n - 1];
            ats.dedup();
            for at in ats {
                let mut c = [0; 3];
                c[i] = at;
                let v = read(&m, c).map_err(|e| format!("cell {:?} of a map of {:?} cells from {:?} is not readable: {}", c, dims, o, e))?;
                ensure!(v == 3, "cell {:?} of a fresh map holds {}", c, v);
                sut(|| m.set(c, 4)).map_err(|e| format!("cell {:?} of a map of {:?} cells is not writable: {}", c, dims, e))?;
                ensure!(read(&m, c)? == 4, "cell {:?} of a map of {:?} cells does not keep its value", c, dims);
            }
            Ok(())
        }
        for n in (at * block)..((at + 1) * block) {
            let n = n as i64 + 1;
            let off = [0, -n / 2, 1000, -n][n as usize / 3 % 4];
            if axis < 2 {
                go::<kuba::GridMap2<u8>>(axis, res, n, off)?;
            } else {
                go::<kuba::GridMap3<u8>>(axis - 2, res, n, off)?;
            }
        }
        Ok(Obs::new(true, (at, axis)))
    });
}

/// Maps made from an array, in either memory layout.
fn arrays(c: &mut Check) {
    use kuba::prelude::*;
    use ndarray::ShapeBuilder;
    c.tree("arrays", |ch| {
        let (a, b, z) = (1 + ch.int(4), 1 + ch.int(4), 1 + ch.int(3));
        let fortran = ch.flag();
        let three = ch.flag();
        ch.note(|| format!("{} x {} x {}, fortran order {}, three dimensions {}", a, b, z, fortran, three));
        macro_rules! go {
            ($shape:expr, $Map:ty, $bounds:expr, $cell:expr, $zs:expr) => {{
                let n = a * b * $zs;
                let values: Vec<i32> = (0..n as i32).map(|i| i * 3 + 1).collect();
                let array = if fortran {
                    ndarray::Array::from_shape_vec($shape.f(), values).unwrap()
                } else {
                    ndarray::Array::from_shape_vec($shape, values).unwrap()
                };
                // The index of a value in memory tells its cell.
                let index = |x: usize, y: usize, z: usize| if fortran { (z * b + y) * a + x } else { (x * b + y) * $zs + z };
                let mut m = <$Map>::from_ndarray(array, 0.5, $bounds, 2);
                for round in 0..2 {
                    for x in 0..a {
                        for y in 0..b {
                            for z in 0..$zs {
                                let want = index(x, y, z) as i32 * 3 + 1 + round * 1000;
                                let got = sut(|| GridMap::get(&m, &$cell(x as isize, y as isize, z as isize)))?;
                                ensure!(got == want, "cell {:?} holds {} instead of {}", (x, y, z), got, want);
                            }
                        }
                    }
                    for x in 0..a {
                        for y in 0..b {
                            for z in 0..$zs {
                                let v = index(x, y, z) as i32 * 3 + 1001;
                                sut(|| GridMap::set(&mut m, &$cell(x as isize, y as isize, z as isize), v))?;
                            }
                        }
                    }
                }
            }};
        }
        let (fa, fb, fz) = (a as f32 * 0.5, b as f32 * 0.5, z as f32 * 0.5);
        if three {
            go!((a, b, z), kuba::GridMap3<i32>, kuba::bounds3![[0.0, 0.0, 0.0], [fa, fb, fz]], |x, y, z| kuba::Cell3::new(x, y, z), z)
        } else {
            go!((a, b), kuba::GridMap2<i32>, kuba::bounds2![[0.0, 0.0], [fa, fb]], |x, y, _z: isize| kuba::Cell2::new(x, y), 1)
        }
        Ok(Obs::new(a * b * z > 1, (a, b, z)))
    });
}

fn m03(c: &mut Check) {
    lengths(c);
    arrays(c);
    grown::<kuba::GridMap2<i32>>(c, "grown-2d");
    grown::<kuba::GridMap3<i32>>(c, "grown-3d");
    c.rule("every execution writes at least one cell of a real map and reads all cells before and after");
    c.assume("maps on regions at multiples of the resolution; shapes up to 9 cells per dimension, maps of every length up to 75000 cells in one dimension (and a few large ones); element types bool, u8, i32, i64, f32, f64, arrays");
    let th = c.thorough;
    contents::<kuba::GridMap2i>(c, "contents-2i-2x3", [2, 3, 1], if th { &[0, 1, 2] } else { &[0, 1] });
    contents::<kuba::GridMap2b>(c, "contents-2b-3x2", [3, 2, 1], &[false, true]);
    contents::<kuba::GridMap2f>(c, "contents-2f-1x4", [1, 4, 1], &[0.0, -1.5, f32::INFINITY]);
    contents::<kuba::GridMap2f>(c, "contents-2f-5x2", [5, 2, 1], &[0.0, 1.0]);
    contents::<kuba::GridMap3<i32>>(c, "contents-3i-2x1x3", [2, 1, 3], if th { &[0, 1, 2] } else { &[0, 1] });
    contents::<kuba::GridMap3<bool>>(c, "contents-3b-1x3x2", [1, 3, 2], &[false, true]);
    contents::<kuba::GridMap3f>(c, "contents-3f-3x2x1", [3, 2, 1], &[0.0, -1.5]);
    contents::<kuba::GridMap3f>(c, "contents-3f-2x2x2", [2, 2, 2], &[0.0, f32::NEG_INFINITY]);
    let (a, b) = if th { (12, 8) } else { (9, 6) };
    shapes::<kuba::GridMap2f>(c, "shapes-2f", 2, a, |i| i as f32 + 0.5, -1.0);
    shapes::<kuba::GridMap2i>(c, "shapes-2i", 2, a, |i| i as i32 - 20, 77);
    shapes::<kuba::GridMap2b>(c, "shapes-2b", 2, a, |i| (i * i / 3) % 2 == 0, true);
    shapes::<kuba::GridMap3f>(c, "shapes-3f", 3, b, |i| i as f32 * 1e-3 + 0.5, 1e30);
    shapes::<kuba::GridMap3i>(c, "shapes-3i", 3, b, |i| i as i32 * 65537 - 20, i32::MIN);
    shapes::<kuba::GridMap3b>(c, "shapes-3b", 3, b, |i| (i * i / 3) % 2 == 0, false);
    shapes::<kuba::GridMap2<u8>>(c, "shapes-2-u8", 2, a, |i| i as u8, 255);
    shapes::<kuba::GridMap3<i64>>(c, "shapes-3-i64", 3, b, |i| (i as i64) << 33, -1);
    shapes::<kuba::GridMap2<f64>>(c, "shapes-2-f64", 2, a, |i| i as f64 * 1e-20, 1e300);
    shapes::<kuba::GridMap3<[u16; 3]>>(c, "shapes-3-array", 3, b, |i| [i as u16, 1, (i * 7) as u16], [9; 3]);
    // Large maps: every cell its own number.
    c.tree("large", |ch| {
        let three = ch.flag();
        if three {
            let dims = *ch.of(&[[70i64, 33, 20], [1, 1, 3000], [300, 2, 7], [2, 500, 3]]);
            ch.note(|| format!("{:?}", dims));
            let mut m = map_of::<kuba::GridMap3i>(0.1, [-20, 3, 0], dims, 100, 0);
            let mut i = 0;
            each_cell([0; 3], dims, |c| {
                i += 1;
                sut(|| m.set(c, i))
            })?;
            i = 0;
            each_cell([0; 3], dims, |c| {
                i += 1;
                let v = read(&m, c)?;
                ensure!(v == i, "cell {:?} holds {} instead of {}", c, v, i);
                Ok(())
            })?;
            Ok(Obs::new(true, dims))
        } else {
            let dims = *ch.of(&[[700i64, 330, 1], [1, 70000, 1], [70000, 1, 1], [256, 257, 1]]);
            ch.note(|| format!("{:?}", dims));
            let mut m = map_of::<kuba::GridMap2i>(0.1, [-20, 3, 0], dims, 100, 0);
            let mut i = 0;
            each_cell([0; 3], dims, |c| {
                i += 1;
                sut(|| m.set(c, i))
            })?;
            i = 0;
            each_cell([0; 3], dims, |c| {
                i += 1;
                let v = read(&m, c)?;
                ensure!(v == i, "cell {:?} holds {} instead of {}", c, v, i);
                Ok(())
            })?;
            Ok(Obs::new(true, dims))
        }
    });
}

// ---------------------------------------------------------------------------------------------

fn m04_shape<M: MapApi<A = i32>>(c: &mut Check, name: &str) {
    let th = c.thorough;
    c.tree(name, |ch| {
        let d = M::D;
        let mut dims = [1i64; 3];
        let most = if d == 2 { 4 } else { 3 };
        for i in 0..d {
            dims[i] = 1 + ch.int(most) as i64;
        }
        // Made at once, or grown from an empty map; indices around each end and extreme ones.
        let kind = ch.int(5);
        let mut m = match kind {
            3 | 4 => {
                // Grown to both sides, from nothing or from a region away from the origin.
                let mut m = if kind == 3 {
                    M::make(0.5, ([0.0; 3], [0.0; 3]), 2, 5)
                } else {
                    map_of::<M>(0.5, [-1, 1, -2], dims, 1, 5)
                };
                for k in [0.5f32, -0.4] {
                    let mut b = ([0.0; 3], [0.0; 3]);
                    for i in 0..d {
                        b.0[i] = k;
                        b.1[i] = k + 0.5 * (dims[i] - 1) as f32;
                    }
                    sut(|| m.expand(b, 5))?;
                }
                m
            }
            0 => map_of::<M>(0.5, [0, 0, 0], dims, 2, 5),
            1 => map_of::<M>(0.1, [-3, 2, -1], dims, 1, 5),
            _ => {
                let mut m = M::make(0.5, ([0.0; 3], [0.0; 3]), 1, 5);
                let mut b = ([-0.5; 3], [-0.5; 3]);
                for i in 0..d {
                    b.1[i] = -0.5 + 0.5 * (dims[i] - 1) as f32;
                }
                for i in d..3 {
                    b.0[i] = 0.0;
                    b.1[i] = 0.0;
                }
                sut(|| m.expand(b, 5))?;
                m
            }
        };
        let mut size = [1i64; 3];
        let b = m.bounds();
        for i in 0..d {
            size[i] = ((b.1[i] as f64 - b.0[i] as f64) / m.resolution() as f64).round() as i64;
            ensure!(size[i] >= dims[i], "the map has {} cells in dimension {} instead of {}", size[i], i, dims[i]);
        }
        let mut k = 0;
        each_cell([0; 3], size, |c| {
            k += 1;
            sut(|| m.set(c, k)).map_err(|e| format!("cell {:?} of {:?} is not writable: {}", c, size, e))
        })?;
        let extreme: &[i64] = &[i64::MIN, i64::MIN + 1, -(1 << 32), -(1 << 31), 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 61, 1 << 62, i64::MAX - 1, i64::MAX, i64::MAX / 3 + 1];
        let mut at = [0i64; 3];
        let far = ch.int(if th { d + 2 } else { d + 1 });
        if far == 0 {
            for i in 0..d {
                at[i] = ch.int(size[i] as usize + 6) as i64 - 3;
            }
        } else {
            for i in 0..d {
                at[i] = if i == far - 1 || far == d + 1 { *ch.of(extreme) } else { ch.int(size[i] as usize + 2) as i64 - 1 };
            }
        }
        ch.note(|| format!("map {} of {:?} cells, cell {:?}", kind, size, at));
        let ok = inside(at, [0; 3], size, d);
        let got = sut(|| m.get(at));
        match got {
            Ok(v) => {
                ensure!(ok, "cell {:?} is outside of the {:?} cells and reads {}", at, size, v);
                let want = (at[0] * size[1] * size[2] + at[1] * size[2] + at[2] + 1) as i32;
                ensure!(v == want, "cell {:?} of {:?} holds {} instead of {}", at, size, v, want);
            }
            Err(e) => ensure!(!ok, "cell {:?} of {:?} cells is not readable: {}", at, size, e),
        }
        let wrote = sut(|| m.set(at, -9));
        ensure!(wrote.is_ok() == ok, "writing cell {:?} of {:?} cells: {:?}", at, size, wrote);
        let mut k = 0;
        each_cell([0; 3], size, |c| {
            k += 1;
            let v = read(&m, c)?;
            let want = if ok && c == at { -9 } else { k };
            ensure!(v == want, "after writing cell {:?}, cell {:?} of {:?} holds {} instead of {}", at, c, size, v, want);
            Ok(())
        })?;
        ensure!(m.bounds() == b, "the bounds changed from {:?} to {:?}", b, m.bounds());
        // Still usable.
        sut(|| m.set([0; 3], 3))?;
        ensure!(read(&m, [0; 3])? == 3, "the map is not usable afterwards");
        Ok(Obs::new(true, (ok, size)))
    });
}

/// Larger shapes: the cells on and around each side.
fn m04_sides<M: MapApi<A = i32>>(c: &mut Check, name: &str, most: i64) {
    c.tree(name, |ch| {
        let d = M::D;
        let mut dims = [1i64; 3];
        for i in 0..d {
            dims[i] = 1 + ch.int(most as usize) as i64;
        }
        let kind = ch.int(3);
        let res = *ch.of(&[0.5f32, 0.1, 3.0]);
        ch.note(|| format!("{:?} cells, resolution {}, kind {}", dims, res, kind));
        let mut m = match kind {
            0 => map_of::<M>(res, [0, 0, 0], dims, 2, 5),
            1 => map_of::<M>(res, [-7, 30, -1], dims, 1, 5),
            _ => {
                let mut m = map_of::<M>(res, [-2, 3, 1], [1; 3], 1, 5);
                let b = map_of::<M>(res, [-2, 3, 1], dims, 1, 5).bounds();
                sut(|| m.expand(b, 5))?;
                m
            }
        };
        let mut size = [1i64; 3];
        let b = m.bounds();
        for i in 0..d {
            size[i] = ((b.1[i] as f64 - b.0[i] as f64) / res as f64).round() as i64;
            ensure!(kind == 2 || size[i] == dims[i], "the map has {} cells in dimension {} instead of {}", size[i], i, dims[i]);
        }
        let mut lo = [0; 3];
        let mut hi = [1; 3];
        for i in 0..d {
            lo[i] = -2;
            hi[i] = size[i] + 3;
        }
        each_cell(lo, hi, |at| {
            if (0..d).all(|i| at[i] > 1 && at[i] < size[i] - 2) {
                return Ok(());
            }
            let ok = inside(at, [0; 3], size, d);
            let r = sut(|| m.get(at));
            ensure!(r.is_ok() == ok, "cell {:?} of a map of {:?} cells reads {:?}", at, size, r);
            let w = sut(|| m.set(at, 6));
            ensure!(w.is_ok() == ok, "cell {:?} of a map of {:?} cells is written: {:?}", at, size, w);
            Ok::<(), String>(())
        })?;
        each_cell([0; 3], size, |at| {
            let want = if (0..d).all(|i| at[i] > 1 && at[i] < size[i] - 2) { 5 } else { 6 };
            let v = sut(|| m.get(at))?;
            ensure!(v == want, "cell {:?} of {:?} cells holds {} instead of {}", at, size, v, want);
            Ok::<(), String>(())
        })?;
        Ok(Obs::new(true, (dims, kind)))
    });
}

fn m04_occupancy<S: Space>(c: &mut Check) {
    let d = S::D;
    c.tree(&format!("{}-occupancy", S::NAME), |ch| {
        let mut m = if ch.flag() {
            let nm = kuba::LidarNoiseModel::new(0.7, 0.4, 0.1192, 0.971, 0.5, 60.0);
            S::Occ::make(nm, 0.5, 3)
        } else {
            S::Occ::make_default()
        };
        let clouds = ch.int(3);
        let res = m.resolution();
        for i in 0..clouds {
            let k = if i == 0 { 1.0 } else { -1.0 };
            let f = |p: V| -> V { [p[0] * k * res, p[1] * k * res, if d == 3 { p[2] * k * res } else { 0.0 }] };
            let (o, p) = (f([0.2, -0.3, 0.1]), [f([2.8, 1.3, 0.2]), f([-1.7, 3.2, 1.2])]);
            sut(|| m.integrate(o, &p)).map_err(|e| format!("integration failed: {}", e))?;
        }
        let (lo, hi) = match region_of_bounds(m.bounds(), res, d)? {
            Some(r) => r,
            None => ([0; 3], [0; 3]),
        };
        let mut size = sub(hi, lo);
        if d == 2 {
            size[2] = 1;
        }
        let mut at = [0i64; 3];
        for i in 0..d {
            let n = size[i];
            at[i] = *ch.of(&[0, n - 1, n / 2, -1, n, n + 1, i64::MIN, i64::MAX, 1 << 32, -n]);
        }
        ch.note(|| format!("{} clouds, {:?} cells, cell {:?}", clouds, size, at));
        let ok = inside(at, [0; 3], size, d);
        let what = format!("cell {:?} of an occupancy map of {:?} cells", at, size);
        let copy = m.copy();
        let (a, b) = (sut(|| m.get(at)), sut(|| m.occupied(at)));
        ensure!(a.is_ok() == ok, "{} reads {:?}", what, a);
        ensure!(b.is_ok() == ok, "{} is occupied: {:?}", what, b);
        let w = sut(|| m.set(at, 55.0));
        ensure!(w.is_ok() == ok, "{} written: {:?}", what, w);
        ensure!(m.bounds() == copy.bounds(), "accessing {} changed the bounds", what);
        // All other cells (of large maps, those near the corners) are as before.
        let mut near: Vec<Vec<i64>> = vec![vec![0]; 3];
        for i in 0..d {
            near[i] = (0..size[i]).filter(|k| size[i] < 13 || *k < 4 || *k > size[i] - 4 || *k % 25 == 0).collect();
        }
        for x in &near[0] {
            for y in &near[1] {
                for z in &near[2] {
                    let c = [*x, *y, *z];
                    let want = if ok && c == at { 55.0 } else { sut(|| copy.get(c))? };
                    let v = sut(|| m.get(c))?;
                    ensure!(v == want, "after writing {}, cell {:?} holds {} instead of {}", what, c, v, want);
                }
            }
        }
        Ok(Obs::new(true, (clouds, ok)))
    });
}

fn m04(c: &mut Check) {
    c.rule("every execution reads and writes one cell, inside or outside of a real map, and then reads the whole map");
    c.assume("64-bit indices; an access that is refused panics");
    m04_shape::<kuba::GridMap2<i32>>(c, "2d");
    m04_shape::<kuba::GridMap3<i32>>(c, "3d");
    let th = c.thorough;
    m04_sides::<kuba::GridMap2<i32>>(c, "2d-sides", if th { 40 } else { 18 });
    m04_sides::<kuba::GridMap3<i32>>(c, "3d-sides", if th { 12 } else { 7 });
    c.tree("empty-maps", |ch| {
        let at = [*ch.of(&[-1i64, 0, 1, i64::MIN, i64::MAX]), *ch.of(&[-1i64, 0, 1, i64::MIN, i64::MAX]), *ch.of(&[-1i64, 0, 1, i64::MIN, i64::MAX])];
        let kind = ch.int(4);
        ch.note(|| format!("empty map {} cell {:?}", kind, at));
        let (r, w) = match kind {
            0 => {
                let mut m = kuba::GridMap2::<i32>::make_default();
                (sut(|| MapApi::get(&m, at)), sut(|| MapApi::set(&mut m, at, 1)))
            }
            1 => {
                let mut m = kuba::GridMap3::<i32>::make_default();
                (sut(|| MapApi::get(&m, at)), sut(|| MapApi::set(&mut m, at, 1)))
            }
            2 => {
                let mut m = kuba::GridMap2::<i32>::make(0.5, ([0.0; 3], [0.0; 3]), 2, 0);
                (sut(|| MapApi::get(&m, at)), sut(|| MapApi::set(&mut m, at, 1)))
            }
            _ => {
                let mut m = kuba::GridMap3::<i32>::make(0.5, ([0.0; 3], [0.0; 3]), 2, 0);
                (sut(|| MapApi::get(&m, at)), sut(|| MapApi::set(&mut m, at, 1)))
            }
        };
        ensure!(r.is_err(), "cell {:?} of an empty map reads {:?}", at, r);
        ensure!(w.is_err(), "cell {:?} of an empty map could be written", at);
        Ok(Obs::new(true, kind))
    });
    // Occupancy maps: reading, writing and asking for occupancy, before and after integrating.
    m04_occupancy::<S2>(c);
    m04_occupancy::<S3>(c);
    // Long maps: the cells before the first and behind the last one.
    let block = 25;
    let blocks = if c.thorough { 2000 } else { 400 };
    c.tree("lengths", |ch| {
        let at = ch.int(blocks);
        let res = *ch.of(&[0.1f32, 0.05, 0.3, 1.0, 0.7]);
        let axis = ch.int(5);
        ch.note(|| format!("resolution {}, axis {}, lengths from {}", res, axis, 1 + at * block));
        fn go<M: MapApi<A = u8>>(i: usize, res: f32, n: i64, off: i64) -> Result<(), String> {
            let (mut dims, mut o) = (dims_of::<M>([1; 3]), [0; 3]);
            dims[i] = n;
            o[i] = off;
            let mut m = sut(|| map_of::<M>(res, o, dims, 10, 3))?;
            for at in [-1, 0, n - 1, n, n + 1] {
                let mut c = [0; 3];
                c[i] = at;
                let ok = at >= 0 && at < n;
                let r = sut(|| m.get(c));
                ensure!(r.is_ok() == ok, "cell {:?} of a map of {:?} cells from {:?} reads {:?}", c, dims, o, r);
                let r = sut(|| m.set(c, 3));
                ensure!(r.is_ok() == ok, "cell {:?} of a map of {:?} cells from {:?} written: {:?}", c, dims, o, r);
            }
            Ok(())
        }
        for n in (at * block)..((at + 1) * block) {
            // Dense at first, then sparse and irregular.
            let n = (n + n * n / 3000) as i64 + 1;
            let off = [0, -n / 2, 1000, -n][n as usize / 3 % 4];
            if axis < 2 {
                go::<kuba::GridMap2<u8>>(axis, res, n, off)?;
            } else {
                go::<kuba::GridMap3<u8>>(axis - 2, res, n, off)?;
            }
        }
        Ok(Obs::new(true, (at, axis)))
    });
    // Larger maps: every cell of a frame around them, and a pattern inside.
    c.tree("large", |ch| {
        let dims = *ch.of(&[[60i64, 35], [3, 300], [257, 2]]);
        let x = ch.int(dims[0] as usize + 8) as i64 - 4;
        let m = map_of::<kuba::GridMap2<i32>>(0.1, [-5, 7, 0], [dims[0], dims[1], 1], 10, 6);
        ch.note(|| format!("map of {:?}, column {}", dims, x));
        for y in -4..dims[1] + 4 {
            if y > 4 && y < dims[1] - 4 && y % 13 != 0 {
                continue;
            }
            let ok = x >= 0 && x < dims[0] && y >= 0 && y < dims[1];
            let r = sut(|| MapApi::get(&m, [x, y, 0]));
            ensure!(r.is_ok() == ok, "cell {:?} of {:?} cells: {:?}", (x, y), dims, r);
        }
        Ok(Obs::new(true, x))
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let c = Check::new(&id, "model_checking");
    let name = id.clone();
    c.run(|c| match name.as_str() {
        "M01" => m01_m02(c, Scope { m01: true, m02: false }),
        "M02" => m01_m02(c, Scope { m01: false, m02: true }),
        "M03" => m03(c),
        "M04" => m04(c),
        _ => panic!("unknown property {}", id),
    })
}
