//! Reference for rays, independent of kuba: exact geometry of a segment and boxes in f64.

use crate::space::{C, V};

pub struct Frame {
    pub min: V,
    pub res: f32,
    pub d: usize,
}

impl Frame {
    /// Position in units of cells; cell k spans [k - 0.5, k + 0.5].
    pub fn pos(&self, p: V) -> [f64; 3] {
        let mut r = [0.0; 3];
        for i in 0..self.d {
            r[i] = (p[i] as f64 - self.min[i] as f64) / self.res as f64;
        }
        r
    }
    /// Distance to the nearest cell border, in cells, over all dimensions.
    pub fn border_distance(&self, p: V) -> f64 {
        let q = self.pos(p);
        (0..self.d).map(|i| ((q[i] - 0.5) - (q[i] - 0.5).round()).abs()).fold(1.0, f64::min)
    }
    pub fn nearest(&self, p: V) -> C {
        let q = self.pos(p);
        let mut r = [0; 3];
        for i in 0..self.d {
            r[i] = q[i].round() as i64;
        }
        r
    }
}

/// Part of the segment a..b (in cell units) inside the box of the cell grown by `grow` (may be
/// negative): the length of the parameter interval, negative if there is none.
pub fn clip(a: &[f64; 3], b: &[f64; 3], c: &C, grow: f64, d: usize) -> f64 {
    let (mut t0, mut t1) = (0.0f64, 1.0f64);
    for i in 0..d {
        let lo = c[i] as f64 - 0.5 - grow;
        let hi = c[i] as f64 + 0.5 + grow;
        let v = b[i] - a[i];
        if v == 0.0 {
            if a[i] < lo || a[i] > hi {
                return -1.0;
            }
        } else {
            let (mut u0, mut u1) = ((lo - a[i]) / v, (hi - a[i]) / v);
            if u0 > u1 {
                std::mem::swap(&mut u0, &mut u1);
            }
            t0 = t0.max(u0);
            t1 = t1.min(u1);
        }
    }
    t1 - t0
}

/// Every cell whose box, shrunk by `tol`, is crossed by the segment; found by walking the segment
/// dimension by dimension from crossing to crossing (exact supercover of sorted crossings).
pub fn required(a: &[f64; 3], b: &[f64; 3], tol: f64, d: usize) -> Vec<C> {
    // All parameters at which the segment crosses a border plane.
    let mut ts = vec![0.0, 1.0];
    for i in 0..d {
        let v = b[i] - a[i];
        if v == 0.0 {
            continue;
        }
        let (lo, hi) = (a[i].min(b[i]), a[i].max(b[i]));
        let mut k = (lo - 0.5).ceil();
        while k + 0.5 <= hi {
            let t = (k + 0.5 - a[i]) / v;
            if t > 0.0 && t < 1.0 {
                ts.push(t);
            }
            k += 1.0;
        }
    }
    ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
    let mut out = vec![];
    for w in ts.windows(2) {
        if w[1] - w[0] <= 0.0 {
            continue;
        }
        let t = 0.5 * (w[0] + w[1]);
        let mut c = [0i64; 3];
        for i in 0..d {
            c[i] = (a[i] + t * (b[i] - a[i])).round() as i64;
        }
        if clip(a, b, &c, -tol, d) > 0.0 && out.last() != Some(&c) {
            out.push(c);
        }
    }
    out
}

/// The exact cells of a ray in order (first to last, inclusive) if it is free of near ties: no end
/// near a border and no two crossings of different dimensions near each other. None otherwise.
pub fn exact(a: &[f64; 3], b: &[f64; 3], eps: f64, d: usize) -> Option<Vec<C>> {
    let mut ts: Vec<(f64, usize)> = vec![];
    let len = (0..d).map(|i| (b[i] - a[i]).powi(2)).sum::<f64>().sqrt();
    for i in 0..d {
        for p in [a[i], b[i]] {
            let f = (p - 0.5) - (p - 0.5).round();
            if f.abs() < eps {
                return None;
            }
        }
        let v = b[i] - a[i];
        if v == 0.0 {
            continue;
        }
        let (lo, hi) = (a[i].min(b[i]), a[i].max(b[i]));
        let mut k = (lo - 0.5).ceil();
        while k + 0.5 <= hi {
            ts.push(((k + 0.5 - a[i]) / v, i));
            k += 1.0;
        }
    }
    ts.sort_by(|x, y| x.partial_cmp(y).unwrap());
    for w in ts.windows(2) {
        if w[0].1 != w[1].1 && (w[1].0 - w[0].0) * len < eps {
            return None;
        }
    }
    let mut c = [0i64; 3];
    for i in 0..d {
        c[i] = a[i].round() as i64;
    }
    let mut out = vec![c];
    for (_, i) in ts {
        c[i] += if b[i] > a[i] { 1 } else { -1 };
        out.push(c);
    }
    Some(out)
}
