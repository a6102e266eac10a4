//! R01 R02 R03 R04: rays.

use kuba_mc::alphabet::*;
use kuba_mc::engine::*;
use kuba_mc::ensure;
use kuba_mc::rayref::*;
use kuba_mc::space::*;
use std::collections::BTreeSet;

/// One ray to judge.
#[derive(Clone, Copy, Debug)]
struct Ray {
    o: V,
    e: V,
    min: V,
    res: f32,
}

impl Ray {
    fn bounds(&self) -> Bx {
        // Only the start of the bounds matters to a ray.
        (self.min, [self.min[0] + 10.0 * self.res, self.min[1] + 7.0 * self.res, self.min[2] + 5.0 * self.res])
    }
    fn frame(&self, d: usize) -> Frame {
        let mut min = self.min;
        for i in d..3 {
            min[i] = 0.0;
        }
        Frame { min, res: self.res, d }
    }
}

fn cast<S: Space>(r: &Ray, limit: f32) -> Result<(Vec<C>, Option<C>), String> {
    sut(|| S::cast_ray(r.o, r.e, r.bounds(), r.res, limit))
}

fn l1(a: C, b: C) -> i64 {
    (0..3).map(|i| (a[i] - b[i]).abs()).sum()
}

fn r01<S: Space>(r: &Ray) -> Res {
    let oc = S::cell_from_point(r.o, r.bounds().0, r.res);
    let ec = S::cell_from_point(r.e, r.bounds().0, r.res);
    let mut sig = 0;
    for limit in [0.0, 1e15] {
        let (path, hit) = cast::<S>(r, limit)?;
        ensure!(hit == Some(ec), "the hit is {:?}, but the end is in cell {:?}", hit, ec);
        if oc == ec {
            ensure!(path.is_empty(), "origin and end are in the same cell {:?}, but the path is {:?}", oc, path);
            continue;
        }
        ensure!(path.first() == Some(&oc), "the path starts in {:?}, but the origin is in cell {:?}", path.first(), oc);
        for (i, c) in path.iter().enumerate() {
            let next = path.get(i + 1).copied().unwrap_or(ec);
            ensure!(l1(*c, next) == 1, "the path jumps from {:?} to {:?} (end cell {:?})", c, next, ec);
            ensure!(l1(next, ec) == l1(*c, ec) - 1, "the path moves away from the end {:?}: from {:?} to {:?}", ec, c, next);
        }
        ensure!(path.len() as i64 == l1(oc, ec), "the path from {:?} to {:?} has {} cells", oc, ec, path.len());
        sig = path.len();
    }
    Ok(Obs::new(oc != ec, (oc, ec, sig)))
}

/// Tolerance in cells for a ray: rounding of the inputs, and of one addition per crossed border.
fn tolerance(r: &Ray, d: usize, steps: f64) -> f64 {
    let mag = (0..d).map(|i| r.o[i].abs().max(r.e[i].abs()).max(r.min[i].abs())).fold(0.0, f32::max) as f64;
    2e-4 + 6e-8 * steps * steps + 1e-6 * mag / r.res as f64
}

fn r02<S: Space>(r: &Ray) -> Res {
    let f = r.frame(S::D);
    let (a, b) = (f.pos(r.o), f.pos(r.e));
    let steps: f64 = (0..S::D).map(|i| (a[i] - b[i]).abs() + 1.0).sum();
    let tol = tolerance(r, S::D, steps);
    let (path, hit) = cast::<S>(r, 0.0)?;
    let set: std::collections::HashSet<C> = path.iter().chain(&hit).copied().collect();
    for c in &set {
        ensure!(clip(&a, &b, c, tol, S::D) >= 0.0, "cell {:?} does not touch the segment from {:?} to {:?} (in cells)", c, a, b);
    }
    if tol > 0.3 {
        // Rounding hides which cells exactly: all of them have to be near.
        return Ok(Obs::new(path.len() > 1, path.len()));
    }
    for c in required(&a, &b, tol, S::D) {
        ensure!(set.contains(&c), "the segment from {:?} to {:?} (in cells) passes through cell {:?}, which is not in the path {:?} {:?}", a, b, c, &path[..path.len().min(60)], hit);
    }
    Ok(Obs::new(path.len() > 1, &path[..path.len().min(12)]))
}

/// `exact`: all quantities are exactly representable, so no tolerance at all.
fn r03<S: Space>(r: &Ray, limit: f32, exact: bool) -> Res {
    let f = r.frame(S::D);
    let a = f.pos(r.o);
    let (full, end) = cast::<S>(r, 0.0)?;
    let (path, hit) = cast::<S>(r, limit)?;
    ensure!(full.len() >= path.len() && full[..path.len()] == path[..], "the limited path {:?} is not the beginning of the unlimited path {:?}", path, full);
    let steps = full.len() as f64;
    let tol = if exact { 0.0 } else { tolerance(r, S::D, 0.0f64.max(steps).min(30.0)) };
    let lim = limit as f64 / r.res as f64;
    // Distance of a cell's center from the origin, in cells.
    let dist = |c: &C| (0..S::D).map(|i| (c[i] as f64 - a[i]).powi(2)).sum::<f64>().sqrt();
    let tol = tol + if exact { 0.0 } else { 1e-6 * lim };
    if hit.is_some() {
        ensure!(hit == end && path.len() == full.len(), "with limit {} the hit {:?} is reported after {} of {} cells, the unlimited hit is {:?}", limit, hit, path.len(), full.len(), end);
    } else {
        ensure!(path.len() < full.len(), "limit {}: the whole path is returned, but no hit", limit);
        let c = &full[path.len()];
        ensure!(dist(c) > lim - tol, "limit {} cuts the ray before cell {:?}, whose center is only {} cells away (limit {} cells)", limit, c, dist(c), lim);
    }
    for c in path.iter().skip(1) {
        ensure!(!(dist(c) > lim + tol), "limit {} does not cut the ray before cell {:?}, whose center is {} cells away (limit {} cells)", limit, c, dist(c), lim);
    }
    Ok(Obs::new(hit.is_none(), (path.len(), full.len())))
}

// ---------------------------------------------------------------------------------------------
// Alphabets of rays.

/// A point at the given position in cells, offset and resolution.
fn at(q: [f64; 3], min: V, res: f32, d: usize) -> V {
    let mut p = [0.0; 3];
    for i in 0..d {
        p[i] = (min[i] as f64 + q[i] * res as f64) as f32;
    }
    p
}

const FRAMES: [(f32, V); 12] = [
    (1.0, [0.0, 0.0, 0.0]),
    (0.1, [0.0, 0.0, 0.0]),
    (0.5, [-1.5, 2.0, 0.5]),
    (0.1, [-0.3, 1.7, -10.0]),
    (0.3, [2.1, -0.6, 0.9]),
    (0.25, [-100.0, 50.0, 3.0]),
    (0.1, [-300.0, 0.0, 120.0]),
    (0.05, [10.0, -20.0, 0.0]),
    (0.7, [0.0, -7.0, 1.4]),
    (100.0, [-300.0, 1000.0, 0.0]),
    (0.001, [0.0, 0.5, -0.25]),
    (1e-5, [0.0, 0.0, 0.0]),
];

fn suites<S: Space>(c: &mut Check, judge: fn(&Ray) -> Res) {
    let d = S::D;
    let th = c.thorough;
    // Sub-cell lattice: every origin and end on it, cell borders and corners included.
    let of: &[f64] = match (d, th) {
        (2, _) => &[0.0, 0.5, -0.5, 0.25, -0.4, 0.1],
        (_, false) => &[0.0, 0.5, -0.3],
        _ => &[0.0, 0.5, -0.5, 0.3],
    };
    let (step, reach): (f64, f64) = match (d, th) {
        (2, false) => (0.125, 5.0),
        (2, true) => (0.0625, 6.0),
        (_, false) => (0.5, 4.0),
        _ => (0.25, 4.0),
    };
    let n = (2.0 * reach / step) as usize + 1;
    let cells: &[[f64; 3]] = &[[0.0; 3], [3.0, 1.0, 2.0], [-2.0, -5.0, 7.0]];
    c.tree(&format!("{}-lattice", S::NAME), |ch| {
        let (res, min) = *ch.of(&FRAMES);
        let base = if d == 2 { *ch.of(&cells[..]) } else { *ch.of(&cells[1..]) };
        let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
        for i in 0..d {
            a[i] = base[i] + *ch.of(of);
        }
        for i in 0..d {
            b[i] = base[i] - reach + step * ch.int(n) as f64;
        }
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?}", r));
        judge(&r)
    });
    // Ends within rounding of cell borders.
    let fr: &[f64] = if d == 2 || th { &[-3.5, -2.0, -1.5, -0.5, 0.0, 0.5, 1.5, 2.5] } else { &[-1.5, -0.5, 0.5, 2.5] };
    let ofr: &[f64] = if d == 2 { &[0.0, 0.5, -0.5, 0.2] } else { &[0.5, -0.5, 0.2] };
    c.tree(&format!("{}-borders", S::NAME), |ch| {
        let (res, min) = *ch.of(&FRAMES);
        let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
        for i in 0..d {
            a[i] = 1.0 + *ch.of(ofr);
        }
        for i in 0..d {
            b[i] = 1.0 + *ch.of(fr);
        }
        let (mut o, mut e) = (at(a, min, res, d), at(b, min, res, d));
        for i in 0..d {
            match ch.int(3) {
                0 => {}
                1 => e[i] = up(e[i]),
                _ => e[i] = down(e[i]),
            }
        }
        match ch.int(3) {
            0 => {}
            1 => o[0] = up(o[0]),
            _ => o[1] = down(o[1]),
        }
        let r = Ray { o, e, min, res };
        ch.note(|| format!("{:?}", r));
        judge(&r)
    });
    // Long rays in many directions.
    let lens: &[f64] = if th { &[30.0, 100.0, 333.0, 600.0, 1000.0, 3000.0] } else { &[30.0, 100.0, 333.0, 600.0, 1200.0] };
    let dirs = if d == 2 { 64 } else { 40 };
    c.tree(&format!("{}-long", S::NAME), |ch| {
        let (res, min) = *ch.of(&FRAMES);
        let len = *ch.of(lens);
        let dir = ch.int(dirs);
        let lat = if d == 3 { ch.int(9) as f64 / 8.0 * std::f64::consts::PI - std::f64::consts::FRAC_PI_2 } else { 0.0 };
        let g = dir as f64 / dirs as f64 * 2.0 * std::f64::consts::PI;
        let a = *ch.of(&[[0.0, 0.0, 0.0], [0.25, -0.4, 0.1], [3.5, -0.5, 0.5]]);
        let b = [a[0] + len * g.cos() * lat.cos(), a[1] + len * g.sin() * lat.cos(), a[2] + len * lat.sin()];
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?}", r));
        judge(&r)
    });
    // Directions that are nearly along an axis or nearly diagonal, and tiny displacements.
    let small: &[f64] = &[0.0, 1e-7, -1e-6, 1e-4, -1e-3, 0.01, 0.3, -0.6, 1.0];
    c.tree(&format!("{}-near-axis", S::NAME), |ch| {
        let (res, min) = *ch.of(&FRAMES);
        let len = *ch.of(&[0.0, 0.4, 1.0, -3.0, 7.5, 64.0, -64.0, 400.0, -400.0]);
        let axis = ch.int(d);
        let diag = ch.flag();
        let mut v = [0.0; 3];
        for i in 0..d {
            v[i] = if i == axis {
                len
            } else {
                (if diag { len } else { 0.0 }) + *ch.of(small)
            };
        }
        let a = *ch.of(&[[0.0, 0.0, 0.0], [0.5, 0.5, 0.5], [-0.5, 0.5, -0.5], [0.49, -0.49, 0.49], [0.1, 0.2, 0.3]]);
        let b = [a[0] + v[0], a[1] + v[1], a[2] + v[2]];
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?}", r));
        judge(&r)
    });
    // Far from the start of the bounds.
    c.tree(&format!("{}-far", S::NAME), |ch| {
        let res = *ch.of(&[1.0f32, 0.1, 0.25]);
        let k = *ch.of(&[1000.0f64, -1000.0, 20000.0, -20000.0, 60000.0]);
        let axis = ch.int(d);
        let (mut a, mut b) = ([2.3, -1.7, 0.4], [0.0; 3]);
        a[axis] += k;
        for i in 0..d {
            b[i] = a[i] + *ch.of(&[-6.3, -0.5, 0.0, 0.7, 5.2]);
        }
        let r = Ray { o: at(a, [0.0; 3], res, d), e: at(b, [0.0; 3], res, d), min: [0.0; 3], res };
        ch.note(|| format!("{:?}", r));
        judge(&r)
    });
}

fn very_long<S: Space>(c: &mut Check, judge: fn(&Ray) -> Res, longest: f64) {
    let d = S::D;
    let mut lens = vec![2500.0f64, 4100.0, 9000.0, 17000.0, 34000.0, 50000.0, 70000.0, 140000.0, 300000.0];
    lens.retain(|l| *l <= longest);
    // Rays of many thousand cells.
    c.tree(&format!("{}-very-long", S::NAME), |ch| {
        let (res, min) = *ch.of(&[(1.0f32, [0.0f32, 0.0, 0.0]), (0.5, [-1.5, 2.0, 0.5]), (0.1, [0.0, 0.0, 0.0]), (64.0, [-640.0, 0.0, 128.0]), (0.001, [0.0, 0.0, 0.0])]);
        let len = *ch.of(&lens);
        let axis = ch.int(d);
        let sign = *ch.of(&[1.0, -1.0]);
        let a = *ch.of(&[[0.0, 0.0, 0.0], [0.25, -0.4, 0.1], [7.3, -2.2, 0.6]]);
        let mut b = a;
        for i in 0..d {
            b[i] += if i == axis { sign * len } else { *ch.of(&[0.0, 1.3, -0.31, 40.2, -7000.0]) };
        }
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?}", r));
        judge(&r)
    });
}

fn r03_suites<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    // Exactly representable: origins and ends on quarters, limits on eighths, centers at exact
    // distances (equality with the limit happens).
    let of: &[f64] = if d == 2 { &[0.0, 0.5, -0.5, 0.25] } else { &[0.0, 0.25] };
    let reach = match (d, th) {
        (2, _) => 5.0,
        (_, false) => 3.0,
        _ => 4.0,
    };
    let step = if d == 2 { 0.5 } else { 1.0 };
    let n = (2.0 * reach / step) as usize + 1;
    let frames: [(f32, V); 4] = [(1.0, [0.0; 3]), (0.5, [-1.5, 2.0, 0.5]), (0.25, [4.0, -8.0, 1.0]), (2.0, [-64.0, 6.0, 8.0])];
    c.tree(&format!("{}-exact", S::NAME), |ch| {
        let (res, min) = *ch.of(&frames);
        let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
        for i in 0..d {
            a[i] = [2.0, -1.0, 3.0][i] + *ch.of(of);
        }
        for i in 0..d {
            b[i] = [2.0, -1.0, 3.0][i] - reach + step * ch.int(n) as f64;
        }
        let limit = *ch.of(&[0.125f32, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 2.25, 2.5, 3.0, 3.75, 4.0, 5.0, 6.5, 20.0]) * res;
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?} limit {}", r, limit));
        r03::<S>(&r, limit, true)
    });
    // Other resolutions, limits around the length of the ray.
    c.tree(&format!("{}-around-length", S::NAME), |ch| {
        let (res, min) = *ch.of(&FRAMES);
        let dirs = if d == 2 { 48 } else { 24 };
        let g = ch.int(dirs) as f64 / dirs as f64 * 2.0 * std::f64::consts::PI;
        let lat = if d == 3 { *ch.of(&[-1.5707963, -0.6, 0.0, 0.3, 1.1]) } else { 0.0 };
        let len = *ch.of(&[0.7, 1.5, 4.2, 11.0, 60.3, 250.0]);
        let a = *ch.of(&[[0.0, 0.0, 0.0], [0.25, -0.4, 0.1], [8.5, -0.5, 0.5]]);
        let b = [a[0] + len * f64::cos(g) * f64::cos(lat), a[1] + len * f64::sin(g) * f64::cos(lat), a[2] + len * f64::sin(lat)];
        let k = *ch.of(&[0.01, 0.3, 0.5, 0.9, 0.97, 1.0, 1.03, 1.2, 3.0]);
        let limit = (k * len * res as f64) as f32;
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?} limit {}", r, limit));
        r03::<S>(&r, limit, false)
    });
    // Long rays cut late.
    c.tree(&format!("{}-long-range", S::NAME), |ch| {
        let (res, min) = *ch.of(&[(1.0f32, [0.0f32, 0.0, 0.0]), (0.1, [-0.3, 1.7, -10.0]), (3.0, [6.0, -3.0, 0.0])]);
        let len = *ch.of(&[300.0f64, 1100.0, 5000.0, 13000.0, 40000.0]);
        let axis = ch.int(d);
        let sign = *ch.of(&[1.0, -1.0]);
        let a = *ch.of(&[[0.0, 0.0, 0.0], [0.25, -0.4, 0.1]]);
        let mut b = a;
        for i in 0..d {
            b[i] += if i == axis { sign * len } else { *ch.of(&[0.0, 1.3, -0.31]) * if i == (axis + 1) % d { len * 0.3 } else { 1.0 } };
        }
        let total = (0..d).map(|i| (b[i] - a[i]).powi(2)).sum::<f64>().sqrt();
        let k = *ch.of(&[0.02, 0.25, 0.4, 0.6, 0.9, 0.99, 1.01, 1.5, 20.0]);
        let limit = (k * total * res as f64) as f32;
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?} limit {}", r, limit));
        r03::<S>(&r, limit, false)
    });
    // Limits of thousands of cells, exceeded by a fraction of a cell, all exactly representable.
    c.tree(&format!("{}-exact-long", S::NAME), |ch| {
        let (res, min) = *ch.of(&[(1.0f32, [0.0f32; 3]), (0.5, [-8.0, 4.0, 16.0]), (0.25, [0.0; 3])]);
        let n = *ch.of(&[100i64, 333, 700, 1000, 1200, 1800, 2500, 3200, 4000]);
        let axis = ch.int(d);
        let sign = *ch.of(&[1i64, -1]);
        // The other coordinate of the end.
        let y = *ch.of(&[0i64, 1, -1, 2, 3, 5, -8, 13, 40]);
        let past = *ch.of(&[1i64, 6, 90]);
        let less = *ch.of(&[0i64, 1, 17]);
        let (mut a, mut b) = ([0.0f64; 3], [0.0f64; 3]);
        for i in 0..d {
            a[i] = [2.0, -1.0, 3.0][i];
            b[i] = a[i];
        }
        b[axis] += (sign * (n + past)) as f64;
        b[(axis + 1) % d] += y as f64;
        let limit = (n - less) as f32 * res;
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?} limit {}", r, limit));
        r03::<S>(&r, limit, true)
    });
    // No limit: zero, and limits that nothing exceeds.
    c.tree(&format!("{}-unlimited", S::NAME), |ch| {
        let (res, min) = *ch.of(&FRAMES);
        let (mut a, mut b) = ([0.0; 3], [0.0; 3]);
        for i in 0..d {
            a[i] = *ch.of(&[0.0, 0.3]);
            b[i] = a[i] + *ch.of(&[-300.0, -4.2, 0.0, 5.5, 90.0]);
        }
        let limit = *ch.of(&[0.0f32, -0.0, 1e6, 1e18, 1e19, 1e30, f32::MAX, f32::INFINITY]);
        let r = Ray { o: at(a, min, res, d), e: at(b, min, res, d), min, res };
        ch.note(|| format!("{:?} limit {}", r, limit));
        let (full, end) = cast::<S>(&r, 0.0)?;
        let (path, hit) = cast::<S>(&r, limit)?;
        let ec = S::cell_from_point(r.e, r.bounds().0, r.res);
        ensure!(path == full && hit == end && hit == Some(ec), "limit {} limits the ray to {} of {} cells, hit {:?}", limit, path.len(), full.len(), hit);
        Ok(Obs::new(path.len() > 1, path.len()))
    });
}

// ---------------------------------------------------------------------------------------------

fn r04_judge<S: Space>(o: V, pts: &[V], b: Bx, res: f32, limit: f32) -> Result<(usize, usize), String> {
    let (free, occ) = sut(|| S::cast_rays(o, pts, b, res, limit))?;
    let mut want_occ = BTreeSet::new();
    let mut want_free = BTreeSet::new();
    for p in pts {
        let (path, hit) = sut(|| S::cast_ray(o, *p, b, res, limit))?;
        want_occ.extend(hit);
        want_free.extend(path);
    }
    for c in &want_occ {
        want_free.remove(c);
    }
    let (f, h): (BTreeSet<C>, BTreeSet<C>) = (free.iter().copied().collect(), occ.iter().copied().collect());
    ensure!(f.len() == free.len() && h.len() == occ.len(), "a cell is returned twice");
    ensure!(h == want_occ, "occupied are {:?}, but the single rays hit {:?}", few(&h, &want_occ), few(&want_occ, &h));
    ensure!(f == want_free, "free are {:?}, but the single rays free {:?}", few(&f, &want_free), few(&want_free, &f));
    Ok((f.len(), h.len()))
}

fn few(a: &BTreeSet<C>, b: &BTreeSet<C>) -> String {
    let d: Vec<_> = a.difference(b).take(6).collect();
    format!("{} cells (among them, and not in the other: {:?})", a.len(), d)
}

fn r04_suites<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    // Points whose rays cross each other's ends, share a cell, or are in the cell of the origin.
    let alpha: Vec<[f64; 3]> = vec![
        [3.0, 0.0, 0.0],
        [6.2, 0.1, 0.0],
        [3.3, -0.2, 0.1],
        [0.2, 0.1, 0.0],
        [-4.0, 3.0, 1.0],
        [-2.0, 1.5, 0.5],
        [0.0, 5.0, -2.0],
        [2.5, 2.5, 2.5],
    ];
    let most = if th { 5 } else { 4 };
    c.tree(&format!("{}-all-clouds", S::NAME), |ch| {
        let (res, min) = *ch.of(&[(1.0f32, [0.0f32; 3]), (0.1, [-0.3, 1.7, -10.0])]);
        let n = ch.int(most + 1);
        let limit = *ch.of(&[0.0f32, 1.2, 3.0, 4.0]) * res;
        let o = *ch.of(&[[0.0, 0.0, 0.0], [0.5, -0.5, 0.5]]);
        let pts: Vec<V> = (0..n).map(|_| at(*ch.of(&alpha), min, res, d)).collect();
        let o = at(o, min, res, d);
        let b = (min, [min[0] + 5.0, min[1] + 5.0, min[2] + 5.0]);
        ch.note(|| format!("origin {:?} points {:?} resolution {} limit {}", o, pts, res, limit));
        let s = r04_judge::<S>(o, &pts, b, res, limit)?;
        if n == 0 {
            ensure!(s == (0, 0), "an empty cloud yields {:?} cells", s);
        }
        Ok(Obs::new(n > 1, s))
    });
    // Explicit: order and repetition do not matter.
    c.tree(&format!("{}-orders", S::NAME), |ch| {
        let res = 0.5f32;
        let limit = *ch.of(&[0.0f32, 2.0]);
        let k = if d == 2 { 5 } else { 4 };
        // A choice of k different points, and a permutation of them with one repeated.
        let mut left: Vec<usize> = (0..alpha.len()).collect();
        let mut order = vec![];
        for _ in 0..k {
            order.push(left.remove(ch.int(left.len())));
        }
        let rep = ch.int(k + 1);
        let mut sorted = order.clone();
        sorted.sort();
        if rep < k {
            order.push(order[rep]);
        }
        let p = |v: &[usize]| -> Vec<V> { v.iter().map(|i| at(alpha[*i], [0.0; 3], res, d)).collect() };
        let o = at([0.1, -0.2, 0.0], [0.0; 3], res, d);
        let b = ([0.0; 3], [5.0; 3]);
        ch.note(|| format!("points {:?} limit {}", order, limit));
        let (f1, h1) = sut(|| S::cast_rays(o, &p(&order), b, res, limit))?;
        let (f2, h2) = sut(|| S::cast_rays(o, &p(&sorted), b, res, limit))?;
        let s = |v: Vec<C>| -> BTreeSet<C> { v.into_iter().collect() };
        let (f1, h1, f2, h2) = (s(f1), s(h1), s(f2), s(h2));
        ensure!(f1 == f2 && h1 == h2, "the order or repetition of points matters: {:?} {:?} against {:?} {:?}", few(&f1, &f2), few(&h1, &h2), few(&f2, &f1), few(&h2, &h1));
        ensure!(f1.is_disjoint(&h1), "a cell is both free and occupied");
        Ok(Obs::new(true, (f1.len(), h1.len())))
    });
    // Several points of the same cells, seen through different cells on the way, with hits on the
    // way of others.
    let sub: &[[f64; 3]] = &[[-0.4, -0.4, 0.1], [0.4, 0.35, -0.2], [-0.3, 0.45, 0.4], [0.05, 0.0, -0.45]];
    let targets: &[[f64; 3]] = &[[6.0, 2.0, 1.0], [3.0, 1.0, 0.0], [5.0, 5.0, 5.0], [-1.0, 0.0, 0.0]];
    let most = match (d, th) {
        (2, false) => 4,
        (2, true) => 5,
        (_, false) => 3,
        _ => 4,
    };
    c.tree(&format!("{}-shared-cells", S::NAME), |ch| {
        let (res, min) = (0.5f32, [-0.5, 1.0, 2.0]);
        let limit = *ch.of(&[0.0f32, 3.2]) * res;
        let o = *ch.of(&[[0.1, -0.2, 0.3], [2.9, 1.2, 0.1]]);
        let n = 2 + ch.int(most - 1);
        let mut last = 0;
        let mut pts: Vec<V> = vec![];
        // Multisets of points in both orders.
        let back = ch.flag();
        for _ in 0..n {
            last += ch.int(sub.len() * targets.len() - last);
            let (t, s) = (targets[last / sub.len()], sub[last % sub.len()]);
            pts.push(at([t[0] + s[0], t[1] + s[1], t[2] + s[2]], min, res, d));
        }
        if back {
            pts.reverse();
        }
        let o = at(o, min, res, d);
        ch.note(|| format!("origin {:?} points {:?} resolution {} limit {}", o, pts, res, limit));
        let s = r04_judge::<S>(o, &pts, (min, [min[0] + 3.0, min[1] + 3.0, min[2] + 3.0]), res, limit)?;
        Ok(Obs::new(true, s))
    });
    // Neighbouring points that are next to each other, on the same or different sides of a border.
    let gaps: &[f64] = &[0.4, 0.04, 4e-3, 4e-4, 4e-5, 4e-6, 4e-7];
    c.tree(&format!("{}-near-points", S::NAME), |ch| {
        let (res, min) = *ch.of(&[(1.0f32, [0.0f32; 3]), (0.1, [-0.3, 1.7, -1.0]), (0.25, [0.5, -2.0, 4.0])]);
        let limit = *ch.of(&[0.0f32, 3.4]) * res;
        let t = *ch.of(&[[3.0, 1.0, -2.0], [-5.0, 4.0, 1.0], [1.0, 0.0, 0.0], [0.0, -6.0, 3.0]]);
        let axis = ch.int(d);
        let side = *ch.of(&[0.5, -0.5]);
        let n = 2 + ch.int(2);
        let pts: Vec<V> = (0..n)
            .map(|_| {
                let mut q = t;
                q[axis] += side + *ch.of(gaps) * *ch.of(&[-1.0, 1.0]);
                q[(axis + 1) % d] += 0.2;
                at(q, min, res, d)
            })
            .collect();
        let o = at([0.1, -0.2, 0.3], min, res, d);
        ch.note(|| format!("origin {:?} points {:?} resolution {} limit {}", o, pts, res, limit));
        let s = r04_judge::<S>(o, &pts, (min, [min[0] + 3.0, min[1] + 3.0, min[2] + 3.0]), res, limit)?;
        Ok(Obs::new(true, s))
    });
    // Far from the start of the bounds, and over long distances.
    c.tree(&format!("{}-far", S::NAME), |ch| {
        let (res, min) = *ch.of(&[(1.0f32, [0.0f32; 3]), (0.25, [0.5, -2.0, 4.0])]);
        let far = *ch.of(&[130.0f64, 258.0, 1026.0, 2050.0, 4099.0, 32770.0, 50000.0]) * *ch.of(&[1.0, -1.0]);
        let axis = ch.int(d);
        let near = ch.flag();
        let limit = *ch.of(&[0.0f32, 4.0]) * res;
        let mut o = [0.2, -0.1, 0.3];
        let mut pts = vec![[5.1, 0.3, 0.2], [0.1, 4.2, -3.0], [-3.1, -1.1, 2.2], [2.0, 0.2, 0.2]];
        for p in pts.iter_mut() {
            p[axis] += far;
        }
        if near {
            o[axis] += far;
        } else {
            // And some near the origin.
            pts.extend([[3.2, 1.1, 0.4], [0.4, 4.2, 1.0]]);
        }
        let pts: Vec<V> = pts.iter().map(|p| at(*p, min, res, d)).collect();
        let o = at(o, min, res, d);
        let b = (min, [min[0] + 10.0, min[1] + 10.0, min[2] + 10.0]);
        ch.note(|| format!("origin {:?} points {:?} resolution {} limit {}", o, pts, res, limit));
        let s = r04_judge::<S>(o, &pts, b, res, limit)?;
        Ok(Obs::new(true, s))
    });
    // Large clouds.
    let sizes: &[usize] = if th { &[100, 255, 256, 257, 1000, 1024, 4096, 20000, 65536, 70000] } else { &[100, 255, 257, 1000, 4096, 66000] };
    c.tree(&format!("{}-large", S::NAME), |ch| {
        let n = *ch.of(sizes);
        let spread = *ch.of(&[2.0f32, 8.0]);
        let limit = *ch.of(&[0.0f32, 3.0]);
        let o = *ch.of(&[[0.0f32, 0.0, 0.0], [20.0, 1.0, -0.5]]);
        let pts: Vec<V> = (0..n)
            .map(|i| {
                let f = |m: usize, a: usize| spread * (2.0 * (((i * m + a) % 65521) as f32 / 65521.0) - 1.0);
                [f(7919, 1), f(104729, 33), if d == 3 { 0.3 * f(31337, 777) } else { 0.0 }]
            })
            .collect();
        let mut o = o;
        if d == 2 {
            o[2] = 0.0;
        }
        ch.note(|| format!("{} points spread {} origin {:?} limit {}", n, spread, o, limit));
        let s = r04_judge::<S>(o, &pts, ([-9.0, -9.0, -9.0], [9.0; 3]), 0.1, limit)?;
        Ok(Obs::new(true, s))
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let c = Check::new(&id, "exploration");
    let name = id.clone();
    c.run(|c| {
        c.assume("finite points at which f32 can tell neighbouring cells apart (up to about 6 10^4 cells from the start of the bounds), rays of up to some thousand cells");
        match name.as_str() {
            "R01" => {
                c.rule("every execution casts one ray without limit and with a limit never reached; nontrivial: it leaves the cell of the origin");
                suites::<S2>(c, r01::<S2>);
                suites::<S3>(c, r01::<S3>);
                very_long::<S2>(c, r01::<S2>, 3e5);
                very_long::<S3>(c, r01::<S3>, 3e5);
            }
            "R02" => {
                c.rule("every execution compares the cells of one ray with the exact geometry of the segment (f64); nontrivial: more than one cell is passed");
                c.assume("tolerance 2e-4 cells plus rounding of the coordinates and of one f32 addition per crossed border");
                suites::<S2>(c, r02::<S2>);
                suites::<S3>(c, r02::<S3>);
                very_long::<S2>(c, r02::<S2>, 2e4);
                very_long::<S3>(c, r02::<S3>, 2e4);
            }
            "R03" => {
                c.rule("every execution compares a limited ray with the unlimited one; nontrivial: the limit cuts it");
                c.assume("no tolerance in the exactly representable suites, rounding of the coordinates in the others");
                r03_suites::<S2>(c);
                r03_suites::<S3>(c);
            }
            "R04" => {
                c.rule("every execution casts one cloud and compares it with the union of its single rays; nontrivial: at least two points");
                c.assume("single rays are judged by R01, R02 and R03");
                r04_suites::<S2>(c);
                r04_suites::<S3>(c);
            }
            _ => panic!("unknown property {}", name),
        }
    })
}
