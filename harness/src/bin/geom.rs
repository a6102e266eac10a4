//! C01 B01 B02 B03 B04 P01 P02 L01 L02: conversions, bounds, clouds, elementary functions.

use kuba_mc::alphabet::*;
use kuba_mc::engine::*;
use kuba_mc::ensure;
use kuba_mc::space::*;
use nalgebra as na;

const EPS: f64 = 1.0 / (1u64 << 23) as f64;

// ---------------------------------------------------------------------------------------------
// C01

/// Judges the cell of a coordinate: the nearest one, up to rounding of the inputs' own magnitude.
fn judge_cell(k: i64, p: f32, off: f32, res: f32, dim: usize) -> Result<(), String> {
    let q = (p as f64 - off as f64) / res as f64;
    let tol = 1e-6 + 4.0 * EPS * (p.abs() as f64 + off.abs() as f64) / res as f64;
    let dist = (q - k as f64).abs();
    ensure!(
        dist <= 0.5 + tol,
        "coordinate {} (offset {}, resolution {}) is at {} cells in dimension {}, but its cell is {}",
        p, off, res, q, dim, k
    );
    Ok(())
}

fn judge_point(p: f32, k: i64, off: f32, res: f32, dim: usize) -> Result<(), String> {
    let want = k as f64 * res as f64 + off as f64;
    let tol = 4.0 * EPS * ((k as f64 * res as f64).abs() + off.abs() as f64) + 1e-30;
    ensure!(
        (p as f64 - want).abs() <= tol,
        "the center of cell {} (offset {}, resolution {}) is {} in dimension {} instead of {}",
        k, off, res, p, dim, want
    );
    Ok(())
}

/// Whether f32 can tell the cells apart around here.
fn resolvable(k: i64, off: f32, res: f32) -> bool {
    ((k as f64 * res as f64).abs() + off.abs() as f64) * 2.0 * EPS < 0.2 * res as f64
}

const RES: [f32; 7] = [1.0, 0.1, 0.5, 0.25, 0.3, 0.05, 0.7];

fn c01_s<S: Space>(c: &mut Check)
where
    S::Map: MapApi<A = f32>,
{
    let d = S::D;
    let th = c.thorough;
    // One dimension over a long range, the others different.
    let mut cells: Vec<i64> = (-260..=260).collect();
    for e in [10, 12, 15, 16, 17, 18, 19, 20, 21] {
        for o in -2..=2 {
            cells.push((1 << e) + o);
            cells.push(-(1 << e) + o);
        }
    }
    let offs: Vec<f32> = vec![0.0, 0.5, -0.5, 1.0, -1.0, 3.3, -7.05, 100.0, -100.0, 0.049, 12345.6, -6000.1];
    let fr: Vec<f64> = vec![-0.5, -0.499, -0.4, -0.25, -0.1, 0.0, 0.1, 0.25, 0.4, 0.499, 0.5];
    c.tree(&format!("{}-converter", S::NAME), |ch| {
        let res = *ch.of(&RES);
        let k = *ch.of(&cells);
        let f = ch.int(d);
        let off = *ch.of(&offs);
        let other = *ch.of(&[[0i64, 0, 0], [7, -3, 11], [-40, 90, -2]]);
        let mut cell = other;
        cell[f] = k;
        let mut o = [off, -0.35, 20.0];
        o.swap(0, f);
        if d == 2 {
            cell[2] = 0;
            o[2] = 0.0;
        }
        ch.note(|| format!("resolution {} offset {:?} cell {:?}", res, o, cell));
        let p = S::point_from_cell(cell, o, res);
        for i in 0..d {
            judge_point(p[i], cell[i], o[i], res, i)?;
        }
        if !(0..d).all(|i| resolvable(cell[i], o[i], res)) {
            return Ok(Obs::new(false, 0));
        }
        let back = S::cell_from_point(p, o, res);
        ensure!(back == cell, "the center {:?} of cell {:?} belongs to cell {:?} (offset {:?}, resolution {})", p, cell, back, o, res);
        for x in &fr {
            for side in -1..=1 {
                let mut q = p;
                for i in 0..d {
                    let s = if i == f { *x } else { -0.7 * *x };
                    let v = (o[i] as f64 + (cell[i] as f64 + s) * res as f64) as f32;
                    q[i] = match side {
                        -1 => down(v),
                        0 => v,
                        _ => up(v),
                    };
                }
                let c = S::cell_from_point(q, o, res);
                for i in 0..d {
                    judge_cell(c[i], q[i], o[i], res, i)?;
                }
            }
        }
        Ok(Obs::new(true, (k, f)))
    });
    // Every combination over the dimensions, one resolution per dimension.
    let ks: &[i64] = &[-5, 0, 3, 12];
    let os: &[f32] = &[0.0, -1.25, 10.3];
    let rs: &[f32] = if th { &[1.0, 0.1, 0.3, 2.5] } else { &[1.0, 0.1, 0.3] };
    c.tree(&format!("{}-converter-n", S::NAME), |ch| {
        let (mut cell, mut o, mut r) = ([0i64; 3], [0.0f32; 3], [1.0f32; 3]);
        for i in 0..d {
            cell[i] = *ch.of(ks);
            o[i] = *ch.of(os);
            r[i] = *ch.of(rs);
        }
        ch.note(|| format!("resolutions {:?} offset {:?} cell {:?}", r, o, cell));
        let p = S::point_from_cell_n(cell, o, r);
        for i in 0..d {
            judge_point(p[i], cell[i], o[i], r[i], i)?;
        }
        let back = S::cell_from_point_n(p, o, r);
        ensure!(back == cell, "the center {:?} of cell {:?} belongs to cell {:?} (offset {:?}, resolutions {:?})", p, cell, back, o, r);
        for x in [-0.45f64, 0.3, 0.5] {
            let mut q = p;
            for i in 0..d {
                q[i] = (o[i] as f64 + (cell[i] as f64 + x * [1.0, -0.8, 0.6][i]) * r[i] as f64) as f32;
            }
            let c = S::cell_from_point_n(q, o, r);
            for i in 0..d {
                judge_cell(c[i], q[i], o[i], r[i], i)?;
            }
        }
        // With equal resolutions both kinds of conversion agree.
        if (1..d).all(|i| r[i] == r[0]) {
            let (a, b) = (S::point_from_cell(cell, o, r[0]), S::cell_from_point(p, o, r[0]));
            for i in 0..d {
                judge_point(a[i], cell[i], o[i], r[0], i)?;
            }
            ensure!(b == cell, "cell_from_point of {:?} gives {:?} instead of {:?}", p, b, cell);
        }
        Ok(Obs::new(true, (cell, r[0].to_bits(), r[1].to_bits())))
    });
    // Large magnitudes per dimension-resolution.
    c.tree(&format!("{}-converter-n-range", S::NAME), |ch| {
        let k = *ch.of(&cells);
        let f = ch.int(d);
        let res = *ch.of(&[1.0, 0.1, 0.5, 0.25, 0.3, 0.05, 0.7, 2.5, 100.0, 1000.0]);
        let off = *ch.of(&offs);
        let (mut cell, mut o, mut r) = ([4i64, -9, 2], [0.5f32, -0.35, 20.0], *ch.of(&[[0.2f32, 1.5, 0.4], [7.0, 150.0, 0.02]]));
        cell[f] = k;
        o[f] = off;
        r[f] = res;
        for i in d..3 {
            cell[i] = 0;
            o[i] = 0.0;
            r[i] = 1.0;
        }
        ch.note(|| format!("resolutions {:?} offset {:?} cell {:?}", r, o, cell));
        let p = S::point_from_cell_n(cell, o, r);
        for i in 0..d {
            judge_point(p[i], cell[i], o[i], r[i], i)?;
        }
        if !resolvable(k, off, res) {
            return Ok(Obs::new(false, 0));
        }
        let back = S::cell_from_point_n(p, o, r);
        ensure!(back == cell, "the center {:?} of cell {:?} belongs to cell {:?} (offset {:?}, resolutions {:?})", p, cell, back, o, r);
        Ok(Obs::new(true, (k, f)))
    });
    // Any magnitude that is a cell at all, coarse and fine resolutions, judged relatively.
    c.tree(&format!("{}-magnitudes", S::NAME), |ch| {
        let f = ch.int(d);
        let res = *ch.of(&[1.0f32, 0.1, 1e-3, 1e-6, 12.5, 100.0, 1000.0, 3e5, 1e10]);
        let off = *ch.of(&[0.0f32, 0.5, -31.0, 1e4, -1e7, 3e9, -1e15]);
        let per_dim = ch.flag();
        // Coordinate: sign, mantissa, exponent of the number of cells.
        let e = ch.int(63);
        let m = *ch.of(&[1.0f64, 1.25, 1.6, 1.99]) * *ch.of(&[1.0, -1.0]);
        let k = m * 2f64.powi(e as i32);
        let p = (off as f64 + k * res as f64) as f32;
        let (mut q, mut o, mut r) = ([0.3f32, -7.0, 2.2], [0.0f32, 1.0, -2.0], [res; 3]);
        if per_dim {
            r = [0.5, 2.0, 40.0];
            r[f] = res;
        }
        for i in 0..3 {
            if i >= d {
                (q[i], o[i], r[i]) = (0.0, 0.0, 1.0);
            } else if i != f {
                // A few cells in the other dimensions.
                q[i] = o[i] + q[i] * r[i];
            }
        }
        q[f] = p;
        o[f] = off;
        ch.note(|| format!("point {:?} offset {:?} resolutions {:?}", q, o, r));
        if (p as f64 - off as f64).abs() / res as f64 > 8e18 {
            return Ok(Obs::new(false, 0));
        }
        let c = if per_dim { S::cell_from_point_n(q, o, r) } else { S::cell_from_point(q, o, res) };
        for i in 0..d {
            judge_cell(c[i], q[i], o[i], r[i], i)?;
        }
        let back = if per_dim { S::point_from_cell_n(c, o, r) } else { S::point_from_cell(c, o, res) };
        for i in 0..d {
            judge_point(back[i], c[i], o[i], r[i], i)?;
        }
        Ok(Obs::new(true, (c[f], f)))
    });
    // Close to the border between two cells, for all kinds of offsets: as close as the rounding of
    // the inputs allows, and a few multiples of that.
    c.tree(&format!("{}-near-borders", S::NAME), |ch| {
        let res = *ch.of(&[1.0f32, 0.1, 0.3, 2.5, 64.0, 0.01]);
        let per_dim = ch.flag();
        let off = *ch.of(&[0.0f32, 0.7, -0.7, -3.25, 42.42, -99.9, 1000.5, -1000.5, 12345.6, -12345.6, 1e5, -1e5, 3e6, -3e6]);
        let k = *ch.of(&[0i64, 1, -1, 6, -13, 255, -1024, 40_000]);
        let f = ch.int(d);
        let mut cell = [2i64, -1, 3];
        cell[f] = k;
        let mut o = [0.25, -0.5, 1.25];
        o[f] = off;
        if d == 2 {
            cell[2] = 0;
            o[2] = 0.0;
        }
        ch.note(|| format!("resolution {} offset {:?} cell {:?}", res, o, cell));
        if !resolvable(k, off, res) {
            return Ok(Obs::new(false, 0));
        }
        let tol = 2e-6 + 8.0 * EPS * ((k as f64 * res as f64).abs() + 2.0 * off.abs() as f64) / res as f64;
        for m in [1.0f64, 3.0, 16.0, 100.0, 1000.0, 10_000.0] {
            let x = 0.5 - m * tol;
            if x <= 0.0 {
                continue;
            }
            for s in [1.0, -1.0] {
                let mut q = [0.0f32; 3];
                for i in 0..d {
                    let y = if i == f { s * x } else { 0.1 };
                    q[i] = (o[i] as f64 + (cell[i] as f64 + y) * res as f64) as f32;
                }
                let got = if per_dim { S::cell_from_point_n(q, o, [res; 3]) } else { S::cell_from_point(q, o, res) };
                ensure!(got == cell, "{:?} is inside of cell {:?}, {} cells from its border (offset {:?}, resolution {}), but belongs to {:?}", q, cell, m * tol, o, res, got);
            }
        }
        Ok(Obs::new(true, (k, f)))
    });
    // Powers of two as resolutions: all centers are f32, so every one of them belongs to its cell.
    c.tree(&format!("{}-exact-centers", S::NAME), |ch| {
        let f = ch.int(d);
        let res = *ch.of(&[1.0f32, 0.5, 0.0625, 4.0, 1024.0]);
        let per_dim = ch.flag();
        let base = *ch.of(&[0i64, 1 << 20, 1 << 21, 1 << 22, 6_000_000, 8_388_000, 1 << 23, 12_345_678, (1 << 24) - 64]);
        let k = (base + ch.int(64) as i64 - if base == 0 { 32 } else { 0 }) * *ch.of(&[1, -1]);
        let mut cell = [3i64, -2, 5];
        cell[f] = k;
        if d == 2 {
            cell[2] = 0;
        }
        let mut q = [0.0f32; 3];
        for i in 0..d {
            q[i] = (cell[i] as f64 * res as f64) as f32;
        }
        ch.note(|| format!("point {:?} resolution {}", q, res));
        let (c, p) = if per_dim {
            (S::cell_from_point_n(q, [0.0; 3], [res; 3]), S::point_from_cell_n(cell, [0.0; 3], [res; 3]))
        } else {
            (S::cell_from_point(q, [0.0; 3], res), S::point_from_cell(cell, [0.0; 3], res))
        };
        ensure!(c == cell, "point {:?} is the center of cell {:?} (resolution {}), but belongs to {:?}", q, cell, res, c);
        ensure!((0..d).all(|i| p[i] == q[i]), "the center of cell {:?} (resolution {}) is {:?}, but should be {:?}", cell, res, p, q);
        Ok(Obs::new(true, (k, f)))
    });
    // Conversions of maps: offset is the start of the map.
    c.tree(&format!("{}-maps", S::NAME), |ch| {
        let res = *ch.of(&RES);
        let start = *ch.of(&[[0i64, 0, 0], [-3, 5, -7], [40, -90, 13], [-20000, 3000, -5]]);
        let kind = ch.int(3);
        let mut b = ([0.0; 3], [0.0; 3]);
        for i in 0..d {
            b.0[i] = (start[i] as f64 * res as f64) as f32;
            b.1[i] = ((start[i] + 2 + i as i64) as f64 * res as f64) as f32;
        }
        ch.note(|| format!("map {} resolution {} from {:?}", kind, res, b));
        // (bounds, resolution, cell_of, point_of) of a grid map or an occupancy map, grown or made.
        enum M<S: Space> {
            G(S::Map),
            O(S::Occ),
        }
        let m: M<S> = match kind {
            0 => M::G(S::Map::make(res, b, 2, 0.0)),
            1 => {
                let mut m = S::Map::make(res, ([0.0; 3], [0.0; 3]), 2, 0.0);
                sut(|| m.expand(b, 0.0))?;
                M::G(m)
            }
            _ => {
                let mut m = S::Occ::make(kuba::LidarNoiseModel::default(), res, 3);
                sut(|| m.expand(b, 0.0))?;
                M::O(m)
            }
        };
        let (mb, mr) = match &m {
            M::G(m) => (m.bounds(), m.resolution()),
            M::O(m) => (m.bounds(), m.resolution()),
        };
        ensure!(mr == res, "the resolution is {} instead of {}", mr, res);
        let cell_of = |p: V| match &m {
            M::G(m) => m.cell_of(p),
            M::O(m) => m.cell_of(p),
        };
        let point_of = |c: C| match &m {
            M::G(m) => m.point_of(c),
            M::O(m) => m.point_of(c),
        };
        for k in [[0i64, 0, 0], [1, 2, 3], [-4, 9, -1], [200, -300, 57], [2, 1, 1]] {
            let mut k = k;
            if d == 2 {
                k[2] = 0;
            }
            let p = point_of(k);
            for i in 0..d {
                judge_point(p[i], k[i], mb.0[i], res, i)?;
            }
            let back = cell_of(p);
            ensure!(back == k, "the center {:?} of cell {:?} belongs to cell {:?}", p, k, back);
            for s in [[0.3f32, -0.4, 0.2], [-0.49, 0.45, -0.3]] {
                let mut q = p;
                for i in 0..d {
                    q[i] += s[i] * res;
                }
                let c = cell_of(q);
                for i in 0..d {
                    judge_cell(c[i], q[i], mb.0[i], res, i)?;
                }
            }
        }
        Ok(Obs::new(true, (start, kind)))
    });
}

// ---------------------------------------------------------------------------------------------
// B01

fn boxes(per_dim: &[(f32, f32)], d: usize) -> Vec<Bx> {
    let mut out = vec![];
    for x in per_dim {
        for y in per_dim {
            if d == 2 {
                out.push(([x.0, y.0, 0.0], [x.1, y.1, 0.0]));
            } else {
                for z in per_dim {
                    out.push(([x.0, y.0, z.0], [x.1, y.1, z.1]));
                }
            }
        }
    }
    out
}

fn is_empty(b: &Bx, d: usize) -> bool {
    (0..d).all(|i| b.0[i] == 0.0 && b.1[i] == 0.0)
}

fn judge_hull(r: &Bx, a: &Bx, b: &Bx, d: usize) -> Result<(), String> {
    for i in 0..d {
        let (lo, hi) = if is_empty(a, d) { (b.0[i], b.1[i]) } else { (a.0[i].min(b.0[i]), a.1[i].max(b.1[i])) };
        ensure!(r.0[i] == lo && r.1[i] == hi, "enclosing {:?} and {:?} gives {:?}: wrong in dimension {}", a, b, r, i);
    }
    Ok(())
}

fn judge_overlap(r: &Bx, a: &Bx, b: &Bx, d: usize) -> Result<bool, String> {
    let mut empty = false;
    let mut unsure = false;
    let mut want = ([0.0f32; 3], [0.0f32; 3]);
    for i in 0..d {
        let (lo, hi) = (a.0[i].max(b.0[i]), a.1[i].min(b.1[i]));
        want.0[i] = lo;
        want.1[i] = hi;
        if hi <= lo {
            empty = true;
        } else if ((hi - lo) as f64) < 1e-6 * (1.0 + hi.abs().max(lo.abs()) as f64) {
            unsure = true; // thinner than f32 rounding
        }
    }
    let is_want = (0..d).all(|i| r.0[i] == want.0[i] && r.1[i] == want.1[i]);
    if empty {
        ensure!(is_empty(r, d), "{:?} and {:?} share no volume, but their overlap is {:?}", a, b, r);
    } else if unsure {
        ensure!(is_want || is_empty(r, d), "the overlap of {:?} and {:?} is {:?}", a, b, r);
    } else {
        ensure!(is_want, "the overlap of {:?} and {:?} is {:?} instead of {:?}", a, b, r, want);
    }
    Ok(!empty)
}

fn b01_pair<S: Space>(a: Bx, b: Bx) -> Res {
    let d = S::D;
    let r = sut(|| S::enclosing(a, b))?;
    judge_hull(&r, &a, &b, d)?;
    let q = sut(|| S::enclosing(b, a))?;
    judge_hull(&q, &b, &a, d)?;
    let o = sut(|| S::overlapping(a, b))?;
    let some = judge_overlap(&o, &a, &b, d)?;
    let o2 = sut(|| S::overlapping(b, a))?;
    judge_overlap(&o2, &b, &a, d)?;
    ensure!((0..d).all(|i| o.0[i] == o2.0[i] && o.1[i] == o2.1[i]), "the overlap of {:?} and {:?} depends on their order: {:?}, {:?}", a, b, o, o2);
    Ok(Obs::new(some, (format!("{:?}", o), format!("{:?}", r))))
}

fn b01_s<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    // Small integers: every relation of two intervals in every dimension.
    let e: &[f32] = match (d, th) {
        (2, false) => &[-2.0, -1.0, 0.0, 1.0, 2.0, 3.5],
        (2, true) => &[-3.0, -2.0, -1.0, 0.0, 1.0, 2.0, 3.5],
        (_, false) => &[-1.5, 0.0, 1.0, 2.0],
        _ => &[-1.5, 0.0, 1.0, 2.0, 7.25],
    };
    let all = boxes(&intervals(e), d);
    c.tree(&format!("{}-all-pairs", S::NAME), |ch| {
        let a = *ch.of(&all);
        let b = *ch.of(&all);
        ch.note(|| format!("{:?} and {:?}", a, b));
        b01_pair::<S>(a, b)
    });
    // Entirely on one side of the origin, and of very different magnitude.
    let sides: [&[f32]; 4] = [&[1.0, 2.0, 3.0], &[-9.0, -4.0, -0.5], &[0.001, 1000.0, 1e6], &[-1e9, 1e-9, 1e9]];
    c.tree(&format!("{}-sides", S::NAME), |ch| {
        let (mut a, mut b) = (([0.0; 3], [0.0; 3]), ([0.0; 3], [0.0; 3]));
        for i in 0..d {
            let s = sides[ch.int(sides.len())];
            let iv = intervals(s);
            let (x, y) = (*ch.of(&iv), *ch.of(&iv));
            a.0[i] = x.0;
            a.1[i] = x.1;
            b.0[i] = y.0;
            b.1[i] = y.1;
            if d == 3 && i == 1 {
                // The third dimension: a few relations.
                let z = *ch.of(&[((1.0, 4.0), (2.0, 3.0)), ((-4.0, -2.0), (-3.0, 5.0)), ((2.0, 3.0), (4.0, 5.0))]);
                a.0[2] = z.0 .0;
                a.1[2] = z.0 .1;
                b.0[2] = z.1 .0;
                b.1[2] = z.1 .1;
                break;
            }
        }
        ch.note(|| format!("{:?} and {:?}", a, b));
        b01_pair::<S>(a, b)
    });
    // Shared slabs much thinner than the boxes, but thicker than rounding, and gaps as thin.
    let thin: &[f32] = if th { &[0.3, 0.03, 3e-3, 1e-3, 3e-4, 1e-4, 3e-5, 1e-5] } else { &[0.03, 3e-3, 3e-4, 3e-5] };
    c.tree(&format!("{}-thin", S::NAME), |ch| {
        let t = *ch.of(thin);
        let at = *ch.of(&[0.0f32, 0.5, -1.25, 3.0, -10.0]);
        let (mut a, mut b) = (([0.0; 3], [0.0; 3]), ([0.0; 3], [0.0; 3]));
        for i in 0..d {
            // Both boxes about `at`: from its side inwards, or as thin as the slab themselves.
            let rels = [
                ((at - 4.0, at + t), (at, at + 3.0)),
                ((at - 4.0, at), (at + t, at + 3.0)),
                ((at - 4.0, at + 2.0), (at, at + t)),
                ((at, at + t), (at - 1.0, at + 3.0)),
                ((at - 4.0, at + 2.0), (at - 1.0, at + 3.0)),
                ((at, at + t), (at, at + t)),
            ];
            let (x, y) = *ch.of(&rels);
            a.0[i] = x.0;
            a.1[i] = x.1;
            b.0[i] = y.0;
            b.1[i] = y.1;
        }
        ch.note(|| format!("{:?} and {:?}", a, b));
        b01_pair::<S>(a, b)
    });
    // Bounds without an end on some sides.
    let inf = f32::INFINITY;
    let e: &[f32] = if d == 2 { &[-inf, -3.0, 0.5, 2.0, inf] } else { &[-inf, -3.0, 2.0, inf] };
    let mut iv = intervals(e);
    iv.retain(|i| i.0 < i.1);
    let open = boxes(&iv, d);
    c.tree(&format!("{}-unbounded", S::NAME), |ch| {
        let a = *ch.of(&open);
        let b = *ch.of(&open);
        ch.note(|| format!("{:?} and {:?}", a, b));
        b01_pair::<S>(a, b)
    });
    // Near the origin slabs can be thinner still, and stay bounds.
    c.tree(&format!("{}-thinner", S::NAME), |ch| {
        let t = *ch.of(&[1e-5f32, 6e-6, 3e-6, 1.5e-6]);
        let (mut a, mut b) = (([0.0; 3], [0.0; 3]), ([0.0; 3], [0.0; 3]));
        for i in 0..d {
            let rels = [((-0.2, t), (0.0, 0.3)), ((-t, 0.5), (-0.5, 0.0)), ((-0.2, 0.2), (-t, t)), ((-0.2, 0.2), (-0.1, 0.3)), ((-1.0, 0.0), (t, 1.0))];
            let (x, y) = *ch.of(&rels);
            a.0[i] = x.0;
            a.1[i] = x.1;
            b.0[i] = y.0;
            b.1[i] = y.1;
        }
        ch.note(|| format!("{:?} and {:?}", a, b));
        b01_pair::<S>(a, b)
    });
    // However small the coordinates and the differences, the hull is exact.
    let mini: &[f32] = if d == 2 {
        &[-1.0, -4e-7, -1e-7, -1e-30, 0.0, 1e-38, 1e-9, 3e-7, 1.0, 1.0 + 1.2e-7, 1.0 + 3.6e-7]
    } else {
        &[-1.0, -1e-7, 0.0, 1e-30, 4e-7, 1.0]
    };
    let tiny = intervals(mini);
    c.tree(&format!("{}-tiny-hulls", S::NAME), |ch| {
        let (mut a, mut b) = (([0.0; 3], [0.0; 3]), ([0.0; 3], [0.0; 3]));
        let f = ch.int(d);
        for i in 0..d {
            let (x, y) = if i == f || d == 2 {
                (*ch.of(&tiny), *ch.of(&tiny))
            } else {
                *ch.of(&[((0.0f32, 1.0f32), (-1.0f32, 0.5f32)), ((-2.0, -2.0), (-2.0, -1.9999998)), ((0.0, 0.0), (0.0, 1e-20))])
            };
            a.0[i] = x.0;
            a.1[i] = x.1;
            b.0[i] = y.0;
            b.1[i] = y.1;
        }
        ch.note(|| format!("{:?} and {:?}", a, b));
        let r = sut(|| S::enclosing(a, b))?;
        judge_hull(&r, &a, &b, d)?;
        Ok(Obs::new(true, (f, format!("{:?}", r))))
    });
    c.tree(&format!("{}-empty", S::NAME), |ch| {
        let e = sut(S::empty_bounds)?;
        ensure!(is_empty(&e, d), "the empty bounds are {:?}", e);
        let ec = sut(S::empty_cell_bounds)?;
        ensure!((0..d).all(|i| ec.0[i] == 0 && ec.1[i] == 0), "the empty cell bounds are {:?}", ec);
        let b = *ch.of(&all);
        let r = sut(|| S::enclosing(e, b))?;
        judge_hull(&r, &e, &b, d)?;
        let o = sut(|| S::overlapping(e, b))?;
        ensure!(is_empty(&o, d), "the overlap of the empty bounds and {:?} is {:?}", b, o);
        Ok(Obs::new(true, 0))
    });
}

// ---------------------------------------------------------------------------------------------
// B02

/// Judges one rounded edge. `dir` is -1 for the lower one, 1 for the upper one.
fn judge_edge(r: f32, v: f32, res: f32, dir: f64, expand: bool, exact_grid: bool) -> Result<(), String> {
    let (rf, vf, s) = (r as f64, v as f64, res as f64);
    let mag = rf.abs().max(vf.abs());
    let tol = 4.0 * EPS * mag + 1e-6 * s;
    let q = rf / s;
    ensure!((q - q.round()).abs() * s <= tol, "{} rounded to {} is {}, which is not on the grid", v, res, r);
    if expand && exact_grid {
        ensure!((rf - vf - s).abs() <= tol, "{} is on the grid of {} and has to be moved up by one step, but became {}", v, res, r);
        return Ok(());
    }
    if exact_grid {
        ensure!((rf - vf).abs() <= tol, "{} is on the grid of {} but became {}", v, res, r);
        return Ok(());
    }
    let over = (rf - vf) * dir;
    ensure!(over >= -tol, "{} rounded to {} is {}, which does not contain it", v, res, r);
    // A value closer to the grid than rounding may count as on it.
    let g = vf / s;
    let near = (g - g.round()).abs() * s <= tol;
    let most = if near { s + if expand { tol } else { 0.0 } } else { s };
    ensure!(over <= most + tol, "{} rounded to {} is {}, which is more than a step away", v, res, r);
    Ok(())
}

fn b02_s<S: Space>(c: &mut Check) {
    let d = S::D;
    let th = c.thorough;
    let res: Vec<f32> = vec![1.0, 0.1, 0.5, 0.25, 0.3, 0.05, 0.7, 10.0, 0.2, 3.0, 0.01, 100.0];
    let mut ks: Vec<i64> = (-40..=40).collect();
    for e in [7, 10, 13, 16, 18, 19] {
        for o in -1..=1 {
            ks.push((1 << e) + o);
            ks.push(-(1 << e) + o);
        }
    }
    let fr: [f64; 15] = [0.0, 0.001, 0.1, 0.3, 0.5, 0.6, 0.75, 0.9, 0.999, 3e-6, 1e-5, 1e-4, 1.0 - 1e-4, 1.0 - 1e-5, 1.0 - 3e-6];
    let widths: [f64; 5] = [0.0, 0.4, 1.0, 2.5, 7.0];
    // An edge over a long range in one dimension, the others fixed but off the grid.
    c.tree(&format!("{}-bounds", S::NAME), |ch| {
        let s = *ch.of(&res);
        let k = *ch.of(&ks);
        let f = ch.int(d);
        let x = ch.int(fr.len());
        let w = *ch.of(&widths);
        let ulp = ch.int(3);
        let expand = ch.flag();
        let mut b = ([0.0f32; 3], [0.0f32; 3]);
        let mut grid = [[false; 2]; 3];
        let other = [(-1.3, 2.6), (0.4, 0.8), (-5.0, -2.2)];
        for i in 0..d {
            let (lo, hi) = if i == f {
                let lo = ((k as f64 + fr[x]) * s as f64) as f32;
                let hi = ((k as f64 + fr[x] + w) * s as f64) as f32;
                grid[i][0] = fr[x] == 0.0 && ulp == 0;
                grid[i][1] = (fr[x] + w).fract() == 0.0 && ulp == 0;
                match ulp {
                    0 => (lo, hi),
                    1 => (down(lo), down(hi)),
                    _ => (up(lo), up(hi)),
                }
            } else {
                (other[i].0 * s, other[i].1 * s)
            };
            b.0[i] = lo;
            b.1[i] = hi.max(lo);
        }
        ch.note(|| format!("{:?} to {} expand {}", b, s, expand));
        if (k as f64).abs() * EPS > 0.05 {
            return Ok(Obs::new(false, 0));
        }
        let r = sut(|| S::discretized(b, s, expand))?;
        for i in 0..d {
            judge_edge(r.0[i], b.0[i], s, -1.0, false, grid[i][0])?;
            judge_edge(r.1[i], b.1[i], s, 1.0, expand, grid[i][1] && !(i != f))?;
        }
        if !expand {
            // Rounding again changes nothing.
            let q = sut(|| S::discretized(r, s, false))?;
            for i in 0..d {
                let tol = 4.0 * EPS as f32 * r.0[i].abs().max(r.1[i].abs()) + 1e-6 * s;
                ensure!((q.0[i] - r.0[i]).abs() <= tol && (q.1[i] - r.1[i]).abs() <= tol, "rounding {:?} again gives {:?}", r, q);
            }
        }
        Ok(Obs::new(true, (k, x, expand, f)))
    });
    // Every combination of on-grid and off-grid edges over the dimensions.
    let e: &[f64] = if d == 2 { &[-2.0, -1.3, -0.5, 0.0, 0.2, 1.0, 2.6] } else { &[-2.0, -0.5, 0.0, 1.3] };
    let iv: Vec<(f64, f64)> = (0..e.len()).flat_map(|i| (i..e.len()).map(move |j| (e[i], e[j]))).collect();
    c.tree(&format!("{}-bounds-mixed", S::NAME), |ch| {
        let s = *ch.of(&[1.0f32, 0.1, 0.3]);
        let expand = ch.flag();
        let mut b = ([0.0f32; 3], [0.0f32; 3]);
        let mut g = [[false; 2]; 3];
        for i in 0..d {
            let (x, y) = *ch.of(&iv);
            b.0[i] = (x * s as f64) as f32;
            b.1[i] = (y * s as f64) as f32;
            g[i] = [x.fract() == 0.0, y.fract() == 0.0];
        }
        ch.note(|| format!("{:?} to {} expand {}", b, s, expand));
        let r = sut(|| S::discretized(b, s, expand))?;
        for i in 0..d {
            judge_edge(r.0[i], b.0[i], s, -1.0, false, g[i][0])?;
            judge_edge(r.1[i], b.1[i], s, 1.0, expand, g[i][1])?;
        }
        Ok(Obs::new(true, format!("{:?}", r)))
    });
    // Cell bounds to tiles: exact.
    let judge = |r: &CBx, b: &CBx, t: i64| -> Result<(), String> {
        for i in 0..d {
            let lo = b.0[i].div_euclid(t) * t;
            let hi = -((-b.1[i]).div_euclid(t)) * t;
            ensure!(r.0[i] == lo && r.1[i] == hi, "cells {:?} rounded to tiles of {} are {:?}: wrong in dimension {}", b, t, r, i);
        }
        Ok(())
    };
    let tiles: Vec<i64> = vec![1, 2, 3, 4, 5, 7, 10, 16, 64, 100, 101, 128, 1000];
    c.tree(&format!("{}-cells", S::NAME), |ch| {
        let t = *ch.of(&tiles);
        let f = ch.int(d);
        let base = *ch.of(&[0i64, 1 << 20, -(1 << 20), 1 << 33, -(1 << 33), (1 << 40) + 7]);
        let span = if t <= 10 { 3 * t } else { t + 3 };
        let a = base + ch.int(2 * span as usize + 1) as i64 - span;
        let w = *ch.of(&[0i64, 1, 2, 3, 5, 10, 63, 64, 65, 99, 100, 101, 250]);
        let mut b = ([3i64, -8, 14], [7i64, -5, 29]);
        b.0[f] = a;
        b.1[f] = a + w;
        if d == 2 {
            b.0[2] = 0;
            b.1[2] = 0;
        }
        ch.note(|| format!("{:?} tiles {}", b, t));
        let r = sut(|| S::cell_discretized(b, t as usize))?;
        judge(&r, &b, t)?;
        let q = sut(|| S::cell_discretized(r, t as usize))?;
        ensure!((0..d).all(|i| q.0[i] == r.0[i] && q.1[i] == r.1[i]), "rounding {:?} to tiles of {} again gives {:?}", r, t, q);
        Ok(Obs::new(true, (t, a, w)))
    });
    // Large tiles, and cells around multiples and halves of them.
    let large = vec![4096i64, 65_536, 65_537, 200_000, 1 << 24, (1 << 31) - 1, 1 << 32, (1 << 33) + 5, 1 << 44];
    c.tree(&format!("{}-cells-large", S::NAME), |ch| {
        let t = *ch.of(&large);
        let f = ch.int(d);
        let near = [0i64, 1, -1, 2, -3, t / 2, -t / 2, t / 3 + 1, 40_000, -40_000, 70_001, -70_001];
        let a = *ch.of(&[0i64, 1, -1, 5, -7, 1000]) * t + *ch.of(&near);
        let w = *ch.of(&[0i64, 1, 2, 100, 65_536, 99_999, t - 1, t, t + 1, 3 * t + 7]);
        let mut b = ([3i64, -8, 14], [7i64, -5, 29]);
        b.0[f] = a;
        b.1[f] = a + w;
        if d == 2 {
            b.0[2] = 0;
            b.1[2] = 0;
        }
        ch.note(|| format!("{:?} tiles {}", b, t));
        let r = sut(|| S::cell_discretized(b, t as usize))?;
        judge(&r, &b, t)?;
        Ok(Obs::new(true, (t, a, w)))
    });
    let tiles: &[i64] = if th { &[1, 2, 3, 4, 5] } else { &[1, 2, 3, 5] };
    c.tree(&format!("{}-cells-all", S::NAME), |ch| {
        let t = *ch.of(tiles);
        let m = if d == 2 { 2 * t + 1 } else { t + 1 }.min(if th { 8 } else { 6 });
        let mut b = ([0i64; 3], [0i64; 3]);
        for i in 0..d {
            b.0[i] = ch.int(2 * m as usize + 1) as i64 - m;
            b.1[i] = b.0[i] + ch.int((m - b.0[i]) as usize + 1) as i64;
        }
        ch.note(|| format!("{:?} tiles {}", b, t));
        let r = sut(|| S::cell_discretized(b, t as usize))?;
        judge(&r, &b, t)?;
        Ok(Obs::new(true, r))
    });
}

// ---------------------------------------------------------------------------------------------
// B03

fn b03_s<S: Space>(c: &mut Check) {
    let d = S::D;
    let mut ks: Vec<i64> = (-130..=130).collect();
    for e in [10, 12, 15, 16, 17, 18, 19, 20, 21] {
        for o in -2..=2 {
            ks.push((1 << e) + o);
            ks.push(-(1 << e) + o);
        }
    }
    let widths = [0i64, 1, 2, 9, 100, 4097];
    c.tree(&format!("{}-range", S::NAME), |ch| {
        let res = *ch.of(&RES);
        let k = *ch.of(&ks);
        let f = ch.int(d);
        let w = *ch.of(&widths);
        let mut b = ([4i64, -9, 2], [6i64, -3, 17]);
        b.0[f] = k;
        b.1[f] = k + w;
        let mut rn = [0.2f32, 1.5, 0.4];
        rn[f] = res;
        let (mut size, mut off) = ([0i64; 3], [0i64; 3]);
        for i in 0..d {
            size[i] = b.1[i] - b.0[i];
            off[i] = b.0[i];
        }
        for i in d..3 {
            b.0[i] = 0;
            b.1[i] = 0;
            rn[i] = 1.0;
        }
        ch.note(|| format!("cells {:?} resolution {} / {:?}", b, res, rn));
        let x = sut(|| S::from_cell_bounds(b, res))?;
        let y = sut(|| S::from_cell_bounds_n(b, rn))?;
        let u = sut(|| S::from_size_cells(size, res, off))?;
        let v = sut(|| S::from_size_cells_n(size, rn, off))?;
        for i in 0..d {
            for (what, g, r) in [("from_cell_bounds", &x, res), ("from_cell_bounds_n", &y, rn[i]), ("from_size_cells", &u, res), ("from_size_cells_n", &v, rn[i])] {
                for (side, got, cell) in [("start", g.0[i], b.0[i]), ("end", g.1[i], b.1[i])] {
                    let want = cell as f64 * r as f64;
                    ensure!(
                        (got as f64 - want).abs() <= 4.0 * EPS * want.abs() + 1e-30,
                        "{} of cells {:?} with resolution {}: {} in dimension {} is {} instead of {}",
                        what, b, r, side, i, got, want
                    );
                }
            }
        }
        let back = sut(|| S::cells_from_bounds(x, res))?;
        ensure!(
            (0..d).all(|i| back.0[i] == b.0[i] && back.1[i] == b.1[i]),
            "cells {:?} with resolution {} are the bounds {:?}, which are the cells {:?}",
            b, res, x, back
        );
        let again = sut(|| S::from_cell_bounds(back, res))?;
        ensure!(again == x, "bounds {:?} drift to {:?}", x, again);
        Ok(Obs::new(true, (k, w, f)))
    });
    // Cells as far as the numbers go, where every step is exact.
    c.tree(&format!("{}-far", S::NAME), |ch| {
        let res = *ch.of(&[0.0625f32, 0.5, 1.0, 2.0, 64.0]);
        let e = 18 + ch.int(36);
        let m = *ch.of(&[1i64, 3, 5, 7, 0xabcdef]);
        let f = ch.int(d);
        let (neg, wide) = (ch.flag(), ch.flag());
        let k = if m < 10 { m << e } else { m << (e - 18) };
        let mut b = ([0i64; 3], [0i64; 3]);
        for i in 0..d {
            b.0[i] = -8;
            b.1[i] = 24;
        }
        // (a third of an exact number is not exact)
        b.0[f] = if wide || neg { -k } else { k };
        b.1[f] = match (wide, neg) {
            (true, _) => k,
            (false, true) => -k + (1 << e),
            (false, false) => 2 * k,
        };
        if b.0[f] > b.1[f] || (b.1[f] as f32) as i64 != b.1[f] {
            return Ok(Obs::new(false, 0));
        }
        ch.note(|| format!("cells {:?} resolution {}", b, res));
        let x = sut(|| S::from_cell_bounds(b, res))?;
        let mut rn = [1.0f32; 3];
        rn[f] = res;
        let y = sut(|| S::from_cell_bounds_n(b, rn))?;
        for i in 0..d {
            for (got, cell, r) in [(x.0[i], b.0[i], res), (x.1[i], b.1[i], res), (y.0[i], b.0[i], rn[i]), (y.1[i], b.1[i], rn[i])] {
                ensure!(got as f64 == cell as f64 * r as f64, "cell {} with resolution {} starts at {}", cell, r, got);
            }
        }
        let back = sut(|| S::cells_from_bounds(x, res))?;
        ensure!(
            (0..d).all(|i| back.0[i] == b.0[i] && back.1[i] == b.1[i]),
            "cells {:?} with resolution {} are the bounds {:?}, which are the cells {:?}",
            b, res, x, back
        );
        Ok(Obs::new(true, (e, m, f)))
    });
    // Bounds off the grid: the nearest cells.
    let e: &[f64] = if d == 2 { &[-7.4, -2.0, -0.6, -0.3, 0.0, 0.4, 1.0, 1.7, 20.2] } else { &[-2.4, -0.6, 0.0, 0.3, 1.7] };
    let iv: Vec<(f64, f64)> = (0..e.len()).flat_map(|i| (i..e.len()).map(move |j| (e[i], e[j]))).collect();
    c.tree(&format!("{}-off-grid", S::NAME), |ch| {
        let res = *ch.of(&[1.0f32, 0.1, 0.3]);
        let mut b = ([0.0f32; 3], [0.0f32; 3]);
        for i in 0..d {
            let (x, y) = *ch.of(&iv);
            b.0[i] = (x * res as f64) as f32;
            b.1[i] = (y * res as f64) as f32;
        }
        ch.note(|| format!("{:?} resolution {}", b, res));
        let r = sut(|| S::cells_from_bounds(b, res))?;
        for i in 0..d {
            judge_cell(r.0[i], b.0[i], 0.0, res, i)?;
            judge_cell(r.1[i], b.1[i], 0.0, res, i)?;
        }
        Ok(Obs::new(true, r))
    });
    // Constructors.
    let fs: &[f32] = if d == 2 { &[-1e9, -1.0, -0.5, 0.0, 1e-9, 1.0, 2.0, 1e9] } else { &[-2.0, -0.5, 0.0, 1.0] };
    c.tree(&format!("{}-new", S::NAME), |ch| {
        let mut b = ([0.0f32; 3], [0.0f32; 3]);
        for i in 0..d {
            b.0[i] = *ch.of(fs);
            b.1[i] = *ch.of(fs);
        }
        ch.note(|| format!("new {:?}", b));
        let ok = (0..d).all(|i| b.0[i] <= b.1[i]);
        match sut(|| S::bounds_new(b)) {
            Ok(r) => {
                ensure!(ok, "bounds {:?} were accepted", b);
                ensure!((0..d).all(|i| r.0[i] == b.0[i] && r.1[i] == b.1[i]), "bounds made of {:?} are {:?}", b, r);
            }
            Err(e) => ensure!(!ok, "valid bounds {:?} were rejected: {}", b, e),
        }
        Ok(Obs::new(true, ok))
    });
    let is: &[i64] = if d == 2 { &[i64::MIN, -100, -1, 0, 1, 2, 100, i64::MAX] } else { &[-2, -1, 0, 5] };
    c.tree(&format!("{}-cells-new", S::NAME), |ch| {
        let mut b = ([0i64; 3], [0i64; 3]);
        for i in 0..d {
            b.0[i] = *ch.of(is);
            b.1[i] = *ch.of(is);
        }
        ch.note(|| format!("new {:?}", b));
        let ok = (0..d).all(|i| b.0[i] <= b.1[i]);
        match sut(|| S::cell_bounds_new(b)) {
            Ok(r) => {
                ensure!(ok, "cell bounds {:?} were accepted", b);
                ensure!((0..d).all(|i| r.0[i] == b.0[i] && r.1[i] == b.1[i]), "cell bounds made of {:?} are {:?}", b, r);
            }
            Err(e) => ensure!(!ok, "valid cell bounds {:?} were rejected: {}", b, e),
        }
        Ok(Obs::new(true, ok))
    });
}

// ---------------------------------------------------------------------------------------------
// B04

fn near_abs(a: f32, b: f32, eps: f32) -> bool {
    a == b || (a - b).abs() <= eps
}

fn near_rel(a: f32, b: f32, eps: f32, rel: f32) -> bool {
    if a == b {
        return true;
    }
    if a.is_infinite() || b.is_infinite() {
        return false;
    }
    let diff = (a - b).abs();
    diff <= eps || diff <= a.abs().max(b.abs()) * rel
}

fn b04_s<S: Space>(c: &mut Check) {
    let d = S::D;
    let bases: &[Bx] = &[
        ([0.0; 3], [0.0; 3]),
        ([-1.0, -2.0, -0.5], [3.0, 0.25, 8.0]),
        ([1e-3, 2e-4, -1e-6], [1e-3, 5e-2, 1e-6]),
        ([-4096.0, 1000.0, 77.0], [-1024.0, 2000.0, 1e6]),
        ([f32::NEG_INFINITY, f32::MIN, -1.0], [f32::INFINITY, f32::MAX, f32::INFINITY]),
    ];
    // (absolute, relative) tolerances; none: the defaults.
    let tolerances: &[(Option<f32>, Option<f32>)] = &[
        (None, None),
        (Some(0.0), Some(0.0)),
        (Some(0.1), None),
        (Some(0.0), Some(0.01)),
        (Some(1.5), Some(1e-4)),
        (Some(f32::INFINITY), Some(0.0)),
    ];
    c.tree(&format!("{}-near", S::NAME), |ch| {
        let a = *ch.of(bases);
        let (eps, rel) = *ch.of(tolerances);
        let (e, r) = (eps.unwrap_or(f32::EPSILON), rel.unwrap_or(f32::EPSILON));
        let mut b = a;
        let mut differ = false;
        let moved = |x: f32, how: usize| -> f32 {
            let t = e.min(1e30);
            match how {
                0 => x,
                1 => x + t * 0.75,
                2 => x - (t + x.abs() * r) * 1.5 - 1e-4,
                3 => x * (1.0 + r * 0.75),
                4 => -x,
                _ => f32::NAN,
            }
        };
        for i in 0..d {
            for side in 0..2 {
                let how = ch.int(if d == 2 { 6 } else { 4 });
                let v = if side == 0 { &mut b.0[i] } else { &mut b.1[i] };
                *v = moved(*v, how);
                differ |= how > 0;
            }
        }
        ch.note(|| format!("{:?} and {:?}, tolerances {:?} {:?}", a, b, eps, rel));
        let pairs: Vec<(f32, f32)> = (0..d).flat_map(|i| [(a.0[i], b.0[i]), (a.1[i], b.1[i])]).collect();
        let all = |f: &dyn Fn(f32, f32) -> bool| pairs.iter().all(|(x, y)| f(*x, *y));
        let want = (all(&|x, y| near_abs(x, y, e)), all(&|x, y| near_rel(x, y, e, r)), all(&|x, y| x == y));
        // Infinities are no distance apart that could be measured.
        let finite = pairs.iter().all(|(x, y)| x.is_finite() && y.is_finite());
        for (x, y) in [(a, b), (b, a)] {
            let got = sut(|| (S::abs_diff_eq(x, y, eps), S::relative_eq(x, y, eps, rel), S::bounds_eq(x, y)))?;
            if finite {
                ensure!(got.0 == want.0, "{:?} and {:?} are equal up to {}: {}, expected {}", x, y, e, got.0, want.0);
                ensure!(got.1 == want.1, "{:?} and {:?} are equal up to {} or relatively {}: {}, expected {}", x, y, e, r, got.1, want.1);
            }
            ensure!(got.2 == want.2, "{:?} and {:?} are equal: {}, expected {}", x, y, got.2, want.2);
        }
        Ok(Obs::new(differ, want))
    });
    c.tree(&format!("{}-cells", S::NAME), |ch| {
        let a: CBx = *ch.of(&[([0; 3], [0; 3]), ([-3, -1, 4], [2, 7, 9]), ([i64::MIN; 3], [i64::MAX; 3])]);
        let mut b = a;
        for i in 0..d {
            b.0[i] = b.0[i].wrapping_add(ch.int(3) as i64);
            b.1[i] = b.1[i].wrapping_sub(ch.int(3) as i64);
        }
        ch.note(|| format!("{:?} and {:?}", a, b));
        for (x, y) in [(a, b), (b, a)] {
            let got = sut(|| S::cell_bounds_eq(x, y))?;
            ensure!(got == (a == b), "{:?} and {:?} are equal: {}", x, y, got);
        }
        Ok(Obs::new(true, a == b))
    });
}

// ---------------------------------------------------------------------------------------------
// P01 P02

fn tight(pts: &[V], d: usize) -> Bx {
    let mut b = ([0.0; 3], [0.0; 3]);
    for (j, p) in pts.iter().enumerate() {
        for i in 0..d {
            if j == 0 || p[i] < b.0[i] {
                b.0[i] = p[i];
            }
            if j == 0 || p[i] > b.1[i] {
                b.1[i] = p[i];
            }
        }
    }
    b
}

fn judge_cloud<S: Space>(pts: &[V], from_data: bool) -> Result<(), String> {
    let d = S::D;
    let (got, n, b) = sut(|| S::cloud(pts, from_data))?;
    ensure!(n == pts.len(), "a cloud of {} points says it has {}", pts.len(), n);
    ensure!(got.len() == pts.len(), "a cloud of {} points returns {}", pts.len(), got.len());
    for (j, (a, g)) in pts.iter().zip(&got).enumerate() {
        ensure!((0..d).all(|i| a[i].to_bits() == g[i].to_bits()), "point {} of {} is {:?} instead of {:?}", j, n, g, a);
    }
    let t = tight(pts, d);
    ensure!((0..d).all(|i| b.0[i] == t.0[i] && b.1[i] == t.1[i]), "the bounds of {:?} are {:?} instead of {:?}", &pts[..pts.len().min(8)], b, t);
    Ok(())
}

/// Deterministic points for long clouds: distinct, within [lo, hi].
fn sequence(n: usize, lo: f32, hi: f32) -> Vec<V> {
    (0..n)
        .map(|i| {
            let f = |m: usize, a: usize| lo + (hi - lo) * (((i * m + a) % 65521) as f32 / 65521.0);
            [f(7919, 1), f(104729, 33), f(31337, 777)]
        })
        .collect()
}

const SIZES: [usize; 30] = [
    0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 255, 256, 257, 1023, 1024, 1025, 4096, 10001, 32769,
    65537, 131073, 1050000,
];

fn p01_s<S: Space>(c: &mut Check) {
    let d = S::D;
    let alpha: Vec<V> = vec![
        [1.0, 2.0, 3.0],
        [-4.0, -0.5, 6.0],
        [2.5, -7.0, -1.0],
        [0.0, 0.0, 0.0],
        [5.0, 9.0, 4.0],
        [-1.0, -2.0, -8.0],
    ]
    .into_iter()
    .map(|p| if d == 2 { [p[0], p[1], 0.0] } else { p })
    .collect();
    let most = if c.thorough { 7 } else { 6 };
    c.tree(&format!("{}-all-lists", S::NAME), |ch| {
        let n = ch.int(most + 1);
        let data = ch.flag();
        let pts: Vec<V> = (0..n).map(|_| *ch.of(&alpha)).collect();
        ch.note(|| format!("{:?} from a matrix: {}", pts, data));
        judge_cloud::<S>(&pts, data)?;
        Ok(Obs::new(n > 0, format!("{:?}", tight(&pts, d))))
    });
    // All combinations of coordinates of a few points.
    let vals: &[f32] = &[-2.0, 0.0, 1.5, -0.0, 1e-30, 3e8, f32::MAX, -f32::MAX];
    c.tree(&format!("{}-coordinates", S::NAME), |ch| {
        let n = if d == 2 { 1 + ch.int(3) } else { 1 + ch.int(2) };
        let mut pts = vec![];
        for _ in 0..n {
            let mut p = [0.0; 3];
            for i in 0..d {
                p[i] = *ch.of(vals);
            }
            pts.push(p);
        }
        ch.note(|| format!("{:?}", pts));
        judge_cloud::<S>(&pts, false)?;
        Ok(Obs::new(true, format!("{:?}", tight(&pts, d))))
    });
    c.tree(&format!("{}-long", S::NAME), |ch| {
        let n = *ch.of(&SIZES);
        let data = ch.flag();
        let (lo, hi) = *ch.of(&[(-5.0f32, 7.0), (1.0, 3.0), (-9.0, -2.0), (-1e6, 1e6)]);
        let mut pts = sequence(n, lo, hi);
        if d == 2 {
            pts.iter_mut().for_each(|p| p[2] = 0.0);
        }
        // The extreme point of each side is at a chosen place.
        let at = ch.int(4);
        if n > 0 {
            let i = [0, n / 2, n - 1, n / 3][at];
            for k in 0..d {
                pts[i][k] = if (at + k) % 2 == 0 { hi + 1.0 } else { lo - 1.0 };
            }
        }
        ch.note(|| format!("{} points in {}..{}, extreme {}, from a matrix: {}", n, lo, hi, at, data));
        judge_cloud::<S>(&pts, data)?;
        Ok(Obs::new(n > 0, n))
    });
}

fn p02(c: &mut Check) {
    c.rule("every execution transforms a cloud by a pose and compares each point with the pose applied in f64");
    c.assume("rotations about the axes by multiples of 30 degrees and their products; translations up to 10^4 m");
    let th = c.thorough;
    let angles: Vec<f32> = (0..12).map(|i| (i as f32 * 30.0).to_radians()).collect();
    let trans: [[f32; 3]; 5] = [[0.0; 3], [1.0, 2.0, -3.0], [-100.5, 0.25, 7.0], [10000.0, -5000.0, 1.0], [0.0, 0.0, 50.0]];
    let pts: Vec<V> = vec![[0.0; 3], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [3.0, -4.0, 5.5], [-60.0, 20.0, 1.5], [1.0, 1.0, 1.0]];
    let pose = |r: [f32; 3], t: [f32; 3]| -> kuba::Pose3 {
        kuba::Pose3::from_parts(
            na::Translation3::new(t[0], t[1], t[2]),
            na::UnitQuaternion::from_euler_angles(r[0], r[1], r[2]),
        )
    };
    // An independent f64 rendering of the pose: Rz Ry Rx p + t.
    fn apply(r: [f32; 3], t: [f32; 3], p: [f64; 3]) -> [f64; 3] {
        let (a, b, g) = (r[0] as f64, r[1] as f64, r[2] as f64);
        let [x, y, z] = p;
        let (x1, y1, z1) = (x, a.cos() * y - a.sin() * z, a.sin() * y + a.cos() * z);
        let (x2, y2, z2) = (b.cos() * x1 + b.sin() * z1, y1, -b.sin() * x1 + b.cos() * z1);
        let (x3, y3, z3) = (g.cos() * x2 - g.sin() * y2, g.sin() * x2 + g.cos() * y2, z2);
        [x3 + t[0] as f64, y3 + t[1] as f64, z3 + t[2] as f64]
    }
    fn judge(got: &[V], want: &[[f64; 3]], mag: f64) -> Result<(), String> {
        ensure!(got.len() == want.len(), "a transformed cloud of {} points has {}", want.len(), got.len());
        for (j, (g, w)) in got.iter().zip(want).enumerate() {
            for i in 0..3 {
                let tol = 2e-6 * (mag + w[i].abs() + 1.0);
                ensure!((g[i] as f64 - w[i]).abs() <= tol, "point {} of {} is moved to {:?} instead of {:?}", j, want.len(), g, w);
            }
        }
        Ok(())
    }
    let cloud = |p: &[V]| kuba::PointCloud3::from_points(&p.iter().map(|p| kuba::Point3::new(p[0], p[1], p[2])).collect::<Vec<_>>());
    let list = |c: &kuba::PointCloud3| -> Vec<V> { c.points_iter().map(|p| [p[0], p[1], p[2]]).collect() };
    c.tree("poses", |ch| {
        let r = [*ch.of(&angles), *ch.of(&angles), *ch.of(&angles)];
        let t = *ch.of(&trans);
        let n = ch.int(pts.len() + 1);
        let p = &pts[..n];
        ch.note(|| format!("angles {:?} translation {:?} points {:?}", r, t, p));
        let cl = cloud(p);
        let before = list(&cl);
        let x = sut(|| cl.transform(&pose(r, t).to_homogeneous()))?;
        ensure!(list(&cl) == before, "transforming changed the original cloud");
        let mag = t.iter().map(|x| x.abs()).fold(64.0, f32::max) as f64;
        let want: Vec<[f64; 3]> = p.iter().map(|p| apply(r, t, [p[0] as f64, p[1] as f64, p[2] as f64])).collect();
        ensure!(x.num_points() == n, "a transformed cloud of {} points says it has {}", n, x.num_points());
        judge(&list(&x), &want, mag)?;
        Ok(Obs::new(n > 0, format!("{:?}", list(&x))))
    });
    // Turns, translations and points from minute to enormous.
    let small: &[f32] = &[0.0, 1e-6, -2e-5, 3e-4, -2e-3, 3.1413, 1.5706, -1.5712];
    let scales: &[f32] = &[1e-6, 1e-3, 1.0, 300.0, 1e6];
    c.tree("scales", |ch| {
        let r = [*ch.of(small), *ch.of(small), *ch.of(small)];
        let (k, l) = (*ch.of(scales), *ch.of(scales));
        let none = ch.int(4);
        let mut t = [2.0 * k, -3.0 * k, 0.7 * k];
        if none > 0 {
            t[none - 1] = 0.0;
        }
        let p: Vec<V> = [[1.0f32, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [3.0, -4.0, 5.5]].iter().map(|q| q.map(|x| x * l)).collect();
        ch.note(|| format!("angles {:?} translation {:?} points {:?}", r, t, p));
        let x = sut(|| cloud(&p).transform(&pose(r, t).to_homogeneous()))?;
        let got = list(&x);
        ensure!(got.len() == 4, "a transformed cloud of 4 points has {}", got.len());
        for (j, (g, q)) in got.iter().zip(&p).enumerate() {
            let w = apply(r, t, [q[0] as f64, q[1] as f64, q[2] as f64]);
            for i in 0..3 {
                let tol = 1e-6 * (8.0 * l as f64 + 2.0 * t[i].abs() as f64);
                ensure!((g[i] as f64 - w[i]).abs() <= tol, "point {} is moved to {:?} instead of {:?}", j, g, w);
            }
        }
        Ok(Obs::new(true, (r[0].to_bits(), none)))
    });
    let a: &[f32] = if th { &[0.0, 0.5235988, 1.5707964, 2.0943951, -2.6179938] } else { &[0.0, 1.5707964, -2.6179938] };
    c.tree("compositions", |ch| {
        let r = [*ch.of(a), *ch.of(a), *ch.of(a)];
        let s = [*ch.of(a), *ch.of(a), *ch.of(a)];
        let (t, u) = (*ch.of(&trans), *ch.of(&trans));
        ch.note(|| format!("first {:?} {:?} then {:?} {:?}", r, t, s, u));
        let (p, q) = (pose(r, t), pose(s, u));
        let cl = cloud(&pts);
        let x = sut(|| cl.transform(&p.to_homogeneous()).transform(&q.to_homogeneous()))?;
        let y = sut(|| cl.transform(&(q * p).to_homogeneous()))?;
        let want: Vec<[f64; 3]> = pts.iter().map(|v| apply(s, u, apply(r, t, [v[0] as f64, v[1] as f64, v[2] as f64]))).collect();
        let mag = t.iter().chain(&u).map(|x| x.abs()).fold(64.0, f32::max) as f64;
        judge(&list(&x), &want, 3.0 * mag)?;
        judge(&list(&y), &want, 3.0 * mag)?;
        Ok(Obs::new(true, format!("{:?}", list(&x))))
    });
    c.tree("sizes", |ch| {
        let n = *ch.of(&SIZES);
        let r = *ch.of(&[[0.0f32, 0.0, 0.0], [0.3, -0.2, 2.5]]);
        let t = *ch.of(&trans);
        let p = sequence(n, -80.0, 80.0);
        ch.note(|| format!("{} points, angles {:?} translation {:?}", n, r, t));
        let cl = cloud(&p);
        let x = sut(|| cl.transform(&pose(r, t).to_homogeneous()))?;
        ensure!(list(&cl) == p, "transforming changed the original cloud");
        let mag = t.iter().map(|x| x.abs()).fold(200.0, f32::max) as f64;
        let want: Vec<[f64; 3]> = p.iter().map(|p| apply(r, t, [p[0] as f64, p[1] as f64, p[2] as f64])).collect();
        judge(&list(&x), &want, mag)?;
        Ok(Obs::new(n > 0, n))
    });
}

// ---------------------------------------------------------------------------------------------
// L01 L02

fn l01(c: &mut Check) {
    c.rule("every f32 bit pattern in the domain is converted and compared with the formula in f64");
    c.assume("tolerances: 2e-6 + 1e-6 |ref| for log odds, 1e-6 for probabilities");
    use kuba::math::*;
    c.range("logodds-from-probability", 0, 1 << 32, |b| {
        let p = f32::from_bits(b as u32);
        if !(p >= 0.0 && p <= 1.0) {
            return Ok(false);
        }
        let l = logodds_from_probability(p);
        if p == 0.0 {
            ensure!(l == f32::NEG_INFINITY, "the log odds of 0 are {}", l);
        } else if p == 1.0 {
            ensure!(l == f32::INFINITY, "the log odds of 1 are {}", l);
        } else {
            let w = (p as f64 / (1.0 - p as f64)).ln();
            ensure!((l as f64 - w).abs() <= 2e-6 + 1e-6 * w.abs(), "the log odds of {:e} are {} instead of {}", p, l, w);
        }
        let r = probability_from_logodds(l);
        ensure!((r as f64 - p as f64).abs() <= 1e-6, "probability {:e} has the log odds {} and comes back as {:e}", p, l, r);
        Ok(true)
    });
    c.range("probability-from-logodds", 0, 1 << 32, |b| {
        let x = f32::from_bits(b as u32);
        if x.is_nan() {
            return Ok(false);
        }
        let p = probability_from_logodds(x);
        let w = 1.0 / (1.0 + (-(x as f64)).exp());
        ensure!(p >= 0.0 && p <= 1.0, "the probability of log odds {:e} is {}", x, p);
        ensure!((p as f64 - w).abs() <= 1e-6, "the probability of log odds {:e} is {} instead of {}", x, p, w);
        Ok(true)
    });
}

fn l02_s<S: Space>(c: &mut Check) {
    let vals: &[f32] = &[
        0.0, -0.0, 1.0, -1.0, f32::MIN_POSITIVE, -f32::MIN_POSITIVE, 1e-45, -1e-45, 1e-10, -1e-10, f32::EPSILON, -f32::EPSILON, 0.5, -0.5, 3.5, -3.5, 1e20, -1e20,
        f32::MAX, f32::MIN, f32::INFINITY, f32::NEG_INFINITY,
    ];
    let d = S::D;
    c.tree(&format!("{}-vectors", S::NAME), |ch| {
        let mut v = [0.0; 3];
        for i in 0..d {
            v[i] = *ch.of(vals);
        }
        ch.note(|| format!("{:?}", v));
        let r = sut(|| S::signum(v))?;
        for i in 0..d {
            let w = if v[i] == 0.0 { 0.0 } else { v[i].signum() };
            ensure!(r[i] == w, "the signs of {:?} are {:?}: wrong in dimension {}", v, r, i);
        }
        Ok(Obs::new(true, format!("{:?}", r)))
    });
}

fn l02(c: &mut Check) {
    c.rule("every f32 bit pattern except NaN, and all vectors over 22 extreme values");
    c.range("scalars", 0, 1 << 32, |b| {
        let x = f32::from_bits(b as u32);
        if x.is_nan() {
            return Ok(false);
        }
        let s = kuba::math::f32_signum(x);
        let w = if x > 0.0 {
            1.0
        } else if x < 0.0 {
            -1.0
        } else {
            0.0
        };
        ensure!(s == w, "the sign of {:e} is {}", x, s);
        Ok(true)
    });
    l02_s::<S2>(c);
    l02_s::<S3>(c);
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let c = Check::new(&id, "exploration");
    let name = id.clone();
    c.run(|c| match name.as_str() {
        "C01" => {
            c.rule("every execution converts a cell and locations in and around it, and compares with exact arithmetic (f64)");
            c.assume("magnitudes at which f32 can tell neighbouring cells apart");
            c01_s::<S2>(c);
            c01_s::<S3>(c);
        }
        "B01" => {
            c.rule("every execution encloses and overlaps a pair of bounds in both orders; nontrivial: they share volume");
            c.assume("overlaps thinner than f32 rounding may count as empty");
            b01_s::<S2>(c);
            b01_s::<S3>(c);
        }
        "B02" => {
            c.rule("every execution rounds bounds or cell bounds and compares with exact arithmetic");
            c.assume("coordinates up to 2^19 steps; values closer to the grid than f32 rounding may count as on it");
            b02_s::<S2>(c);
            b02_s::<S3>(c);
        }
        "B03" => {
            c.rule("every execution converts cell bounds to bounds and back, or constructs bounds");
            c.assume("cells up to about 2^21, and as far as 2^60 where they are representable");
            b03_s::<S2>(c);
            b03_s::<S3>(c);
        }
        "B04" => {
            c.rule("every execution compares two bounds in both orders; nontrivial: some coordinate is chosen differently");
            c.assume("approximate comparisons of NaN or infinities are not judged");
            b04_s::<S2>(c);
            b04_s::<S3>(c);
        }
        "P01" => {
            c.rule("every execution makes a cloud and compares its points (bit by bit) and bounds with the list");
            c.assume("finite coordinates");
            p01_s::<S2>(c);
            p01_s::<S3>(c);
        }
        "P02" => p02(c),
        "L01" => l01(c),
        "L02" => l02(c),
        _ => panic!("unknown property {}", id),
    })
}
