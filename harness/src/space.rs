//! Thin adapters over kuba's public API: the same code explores two and three dimensions.
//! Vectors are arrays of three; the third component is 0 in two dimensions.

use kuba::prelude::*;
use nalgebra as na;

pub type V = [f32; 3];
pub type C = [i64; 3];
pub type Bx = (V, V);
pub type CBx = (C, C);

/// A grid map or occupancy map of some element type.
pub trait MapApi: Clone + Send + Sync + 'static {
    type A: Clone + PartialEq + std::fmt::Debug + Copy + Send + Sync;
    const D: usize;
    fn make(res: f32, b: Bx, tile: usize, default: Self::A) -> Self;
    fn make_default() -> Self;
    fn get(&self, c: C) -> Self::A;
    fn set(&mut self, c: C, v: Self::A);
    fn expand(&mut self, b: Bx, default: Self::A);
    fn bounds(&self) -> Bx;
    fn resolution(&self) -> f32;
    fn cell_of(&self, p: V) -> C;
    fn point_of(&self, c: C) -> V;
    fn tracking(&self) -> bool;
    fn set_tracking(&mut self, on: bool);
    fn changed(&self) -> Vec<C>;
    fn clear_changed(&mut self);
    fn add_changed(&mut self, c: &[C]);
    fn tile(&self) -> usize;
}

/// An occupancy map (it has no public expansion of its own).
pub trait OccApi: Send + Sync + Sized + 'static {
    type S: Space;
    fn make(nm: kuba::LidarNoiseModel, res: f32, tile: usize) -> Self;
    fn make_default() -> Self;
    fn integrate(&mut self, o: V, pts: &[V]);
    fn occupied(&self, c: C) -> bool;
    fn get(&self, c: C) -> f32;
    fn set(&mut self, c: C, v: f32);
    fn bounds(&self) -> Bx;
    fn resolution(&self) -> f32;
    fn cell_of(&self, p: V) -> C;
    fn point_of(&self, c: C) -> V;
    fn tracking(&self) -> bool;
    fn set_tracking(&mut self, on: bool);
    fn changed(&self) -> Vec<C>;
    fn clear_changed(&mut self);
    fn add_changed(&mut self, c: &[C]);
    fn expand(&mut self, b: Bx, default: f32);
    fn copy(&self) -> Self;
    fn model(&self) -> &kuba::LidarNoiseModel;
    fn tile(&self) -> usize;
}

pub trait Space: Send + Sync + Sized + 'static {
    const D: usize;
    const NAME: &'static str;
    type Map: MapApi<A = f32>;
    type Occ: OccApi<S = Self>;
    fn cast_ray(o: V, e: V, b: Bx, res: f32, max_len: f32) -> (Vec<C>, Option<C>);
    fn cast_rays(o: V, pts: &[V], b: Bx, res: f32, max_len: f32) -> (Vec<C>, Vec<C>);
    fn integrate(nm: &kuba::LidarNoiseModel, m: &mut Self::Map, o: V, pts: &[V]);
    fn hit(nm: &kuba::LidarNoiseModel, m: &mut Self::Map, c: C);
    fn miss(nm: &kuba::LidarNoiseModel, m: &mut Self::Map, c: C);
    fn occupied(nm: &kuba::LidarNoiseModel, m: &Self::Map, c: C) -> bool;
    fn cell_from_point(p: V, off: V, res: f32) -> C;
    fn point_from_cell(c: C, off: V, res: f32) -> V;
    fn cell_from_point_n(p: V, off: V, res: V) -> C;
    fn point_from_cell_n(c: C, off: V, res: V) -> V;
    fn enclosing(a: Bx, b: Bx) -> Bx;
    fn overlapping(a: Bx, b: Bx) -> Bx;
    fn empty_bounds() -> Bx;
    fn empty_cell_bounds() -> CBx;
    fn discretized(b: Bx, res: f32, expand: bool) -> Bx;
    fn cell_discretized(b: CBx, tile: usize) -> CBx;
    fn bounds_new(b: Bx) -> Bx;
    fn abs_diff_eq(a: Bx, b: Bx, eps: Option<f32>) -> bool;
    fn relative_eq(a: Bx, b: Bx, eps: Option<f32>, rel: Option<f32>) -> bool;
    fn bounds_eq(a: Bx, b: Bx) -> bool;
    fn cell_bounds_eq(a: CBx, b: CBx) -> bool;
    fn cell_bounds_new(b: CBx) -> CBx;
    fn from_cell_bounds(b: CBx, res: f32) -> Bx;
    fn from_cell_bounds_n(b: CBx, res: V) -> Bx;
    fn from_size_cells(size: C, res: f32, off: C) -> Bx;
    fn from_size_cells_n(size: C, res: V, off: C) -> Bx;
    fn cells_from_bounds(b: Bx, res: f32) -> CBx;
    fn signum(v: V) -> V;
    /// (points, number of points, bounds) of a cloud made from points or from a matrix.
    fn cloud(pts: &[V], from_data: bool) -> (Vec<V>, usize, Bx);
}

macro_rules! space {
    ($S:ident, $M:ident, $d:expr, $name:expr, $U:ty, $Ix:ty, $Cell:ident, $Point:ident, $Bounds:ident, $CellBounds:ident,
     $Cloud:ident, $GridMap:ident, $Occ:ident, [$($i:expr),+]) => {
        pub struct $S;

        #[allow(dead_code)]
        mod $M {
            use super::*;
            pub fn cell(c: C) -> kuba::$Cell { kuba::$Cell::new($(c[$i] as isize),+) }
            pub fn uncell(c: &kuba::$Cell) -> C {
                let mut r = [0; 3];
                $( r[$i] = c[$i] as i64; )+
                r
            }
            pub fn point(p: V) -> kuba::$Point { kuba::$Point::new($(p[$i]),+) }
            pub fn unpoint(p: &kuba::$Point) -> V {
                let mut r = [0.0; 3];
                $( r[$i] = p[$i]; )+
                r
            }
            // Struct literals, so that the harness can also make bounds that the constructor rejects.
            pub fn bounds(b: Bx) -> kuba::$Bounds { kuba::$Bounds { min: point(b.0), max: point(b.1) } }
            pub fn unbounds(b: &kuba::$Bounds) -> Bx { (unpoint(&b.min), unpoint(&b.max)) }
            pub fn cbounds(b: CBx) -> kuba::$CellBounds { kuba::$CellBounds { min: cell(b.0), max: cell(b.1) } }
            pub fn uncbounds(b: &kuba::$CellBounds) -> CBx { (uncell(&b.min), uncell(&b.max)) }
            pub fn cloud(pts: &[V]) -> kuba::$Cloud {
                kuba::$Cloud::from_points(&pts.iter().map(|p| point(*p)).collect::<Vec<_>>())
            }
        }

        impl<A> MapApi for kuba::$GridMap<A>
        where
            A: na::Scalar + Copy + PartialEq + std::fmt::Debug + Send + Sync,
        {
            type A = A;
            const D: usize = $d;
            fn make(res: f32, b: Bx, tile: usize, default: A) -> Self { Self::new(res, $M::bounds(b), tile, default) }
            fn make_default() -> Self { Self::default() }
            fn get(&self, c: C) -> A { GridMap::get(self, &$M::cell(c)) }
            fn set(&mut self, c: C, v: A) { GridMap::set(self, &$M::cell(c), v) }
            fn expand(&mut self, b: Bx, default: A) { self.expand_bounds(&$M::bounds(b), default) }
            fn bounds(&self) -> Bx { $M::unbounds(&GridMap::bounds(self)) }
            fn resolution(&self) -> f32 { GridMap::resolution(self) }
            fn cell_of(&self, p: V) -> C { $M::uncell(&self.cell_from_point(&$M::point(p))) }
            fn point_of(&self, c: C) -> V { $M::unpoint(&self.point_from_cell(&$M::cell(c))) }
            fn tracking(&self) -> bool { self.track_changes() }
            fn set_tracking(&mut self, on: bool) { self.set_track_changes(on) }
            fn changed(&self) -> Vec<C> { self.changed_cells().iter().map($M::uncell).collect() }
            fn clear_changed(&mut self) { self.clear_changed_cells() }
            fn add_changed(&mut self, c: &[C]) { self.add_changed_cells(c.iter().map(|c| $M::cell(*c)).collect()) }
            fn tile(&self) -> usize { self.tile_size }
        }

        impl OccApi for kuba::$Occ {
            type S = $S;
            fn make(nm: kuba::LidarNoiseModel, res: f32, tile: usize) -> Self { kuba::$Occ::new(nm, res, tile) }
            fn make_default() -> Self { kuba::$Occ::default() }
            fn integrate(&mut self, o: V, pts: &[V]) { self.integrate_point_cloud(&$M::point(o), &$M::cloud(pts)) }
            fn occupied(&self, c: C) -> bool { kuba::$Occ::occupied(self, &$M::cell(c)) }
            fn get(&self, c: C) -> f32 { GridMap::get(self, &$M::cell(c)) }
            fn set(&mut self, c: C, v: f32) { GridMap::set(self, &$M::cell(c), v) }
            fn bounds(&self) -> Bx { $M::unbounds(&GridMap::bounds(self)) }
            fn resolution(&self) -> f32 { GridMap::resolution(self) }
            fn cell_of(&self, p: V) -> C { $M::uncell(&self.cell_from_point(&$M::point(p))) }
            fn point_of(&self, c: C) -> V { $M::unpoint(&self.point_from_cell(&$M::cell(c))) }
            fn tracking(&self) -> bool { self.track_changes() }
            fn set_tracking(&mut self, on: bool) { self.set_track_changes(on) }
            fn changed(&self) -> Vec<C> { self.changed_cells().iter().map($M::uncell).collect() }
            fn clear_changed(&mut self) { self.clear_changed_cells() }
            fn add_changed(&mut self, c: &[C]) { self.add_changed_cells(c.iter().map(|c| $M::cell(*c)).collect()) }
            fn expand(&mut self, b: Bx, default: f32) { self.grid_map.expand_bounds(&$M::bounds(b), default) }
            fn copy(&self) -> Self {
                kuba::$Occ { grid_map: self.grid_map.clone(), noise_model: copy_model(&self.noise_model) }
            }
            fn model(&self) -> &kuba::LidarNoiseModel { &self.noise_model }
            fn tile(&self) -> usize { self.grid_map.tile_size }
        }

        impl Space for $S {
            const D: usize = $d;
            const NAME: &'static str = $name;
            type Map = kuba::$GridMap<f32>;
            type Occ = kuba::$Occ;
            fn cast_ray(o: V, e: V, b: Bx, res: f32, max_len: f32) -> (Vec<C>, Option<C>) {
                let (p, e) = kuba::ray_caster::cast_ray(&$M::point(o), &$M::point(e), &$M::bounds(b), res, max_len);
                (p.iter().map($M::uncell).collect(), e.as_ref().map($M::uncell))
            }
            fn cast_rays(o: V, pts: &[V], b: Bx, res: f32, max_len: f32) -> (Vec<C>, Vec<C>) {
                let (f, h) = kuba::ray_caster::cast_rays(&$M::point(o), &$M::cloud(pts), &$M::bounds(b), res, max_len);
                (f.iter().map($M::uncell).collect(), h.iter().map($M::uncell).collect())
            }
            fn integrate(nm: &kuba::LidarNoiseModel, m: &mut Self::Map, o: V, pts: &[V]) {
                nm.integrate_point_cloud(m, &$M::point(o), &$M::cloud(pts))
            }
            fn hit(nm: &kuba::LidarNoiseModel, m: &mut Self::Map, c: C) { nm.integrate_hit(m, &$M::cell(c)) }
            fn miss(nm: &kuba::LidarNoiseModel, m: &mut Self::Map, c: C) { nm.integrate_miss(m, &$M::cell(c)) }
            fn occupied(nm: &kuba::LidarNoiseModel, m: &Self::Map, c: C) -> bool { nm.occupied(m, &$M::cell(c)) }
            fn cell_from_point(p: V, off: V, res: f32) -> C {
                $M::uncell(&kuba::geom::converter::cell_from_point(&$M::point(p), &$M::point(off), res))
            }
            fn point_from_cell(c: C, off: V, res: f32) -> V {
                $M::unpoint(&kuba::geom::converter::point_from_cell(&$M::cell(c), &$M::point(off), res))
            }
            fn cell_from_point_n(p: V, off: V, res: V) -> C {
                $M::uncell(&kuba::geom::converter::cell_from_point_n(&$M::point(p), &$M::point(off), &$M::point(res)))
            }
            fn point_from_cell_n(c: C, off: V, res: V) -> V {
                $M::unpoint(&kuba::geom::converter::point_from_cell_n(&$M::cell(c), &$M::point(off), &$M::point(res)))
            }
            fn enclosing(a: Bx, b: Bx) -> Bx { $M::unbounds(&$M::bounds(a).enclosing(&$M::bounds(b))) }
            fn overlapping(a: Bx, b: Bx) -> Bx { $M::unbounds(&$M::bounds(a).overlapping(&$M::bounds(b))) }
            fn empty_bounds() -> Bx { $M::unbounds(&kuba::$Bounds::empty()) }
            fn empty_cell_bounds() -> CBx { $M::uncbounds(&kuba::$CellBounds::empty()) }
            fn discretized(b: Bx, res: f32, expand: bool) -> Bx { $M::unbounds(&$M::bounds(b).discretized(res, expand)) }
            fn cell_discretized(b: CBx, tile: usize) -> CBx { $M::uncbounds(&$M::cbounds(b).discretized(tile)) }
            fn abs_diff_eq(a: Bx, b: Bx, eps: Option<f32>) -> bool {
                let eps = eps.unwrap_or_else(<kuba::$Bounds as approx::AbsDiffEq>::default_epsilon);
                approx::AbsDiffEq::abs_diff_eq(&$M::bounds(a), &$M::bounds(b), eps)
            }
            fn relative_eq(a: Bx, b: Bx, eps: Option<f32>, rel: Option<f32>) -> bool {
                let eps = eps.unwrap_or_else(<kuba::$Bounds as approx::AbsDiffEq>::default_epsilon);
                let rel = rel.unwrap_or_else(<kuba::$Bounds as approx::RelativeEq>::default_max_relative);
                approx::RelativeEq::relative_eq(&$M::bounds(a), &$M::bounds(b), eps, rel)
            }
            fn bounds_eq(a: Bx, b: Bx) -> bool { $M::bounds(a) == $M::bounds(b) }
            fn cell_bounds_eq(a: CBx, b: CBx) -> bool { $M::cbounds(a) == $M::cbounds(b) }
            fn bounds_new(b: Bx) -> Bx { $M::unbounds(&kuba::$Bounds::new($M::point(b.0), $M::point(b.1))) }
            fn cell_bounds_new(b: CBx) -> CBx { $M::uncbounds(&kuba::$CellBounds::new($M::cell(b.0), $M::cell(b.1))) }
            fn from_cell_bounds(b: CBx, res: f32) -> Bx { $M::unbounds(&kuba::$Bounds::from_cell_bounds(&$M::cbounds(b), res)) }
            fn from_cell_bounds_n(b: CBx, res: V) -> Bx {
                $M::unbounds(&kuba::$Bounds::from_cell_bounds_n(&$M::cbounds(b), &$M::point(res)))
            }
            fn from_size_cells(size: C, res: f32, off: C) -> Bx {
                $M::unbounds(&kuba::$Bounds::from_size_cells(&$M::cell(size), res, &$M::cell(off)))
            }
            fn from_size_cells_n(size: C, res: V, off: C) -> Bx {
                $M::unbounds(&kuba::$Bounds::from_size_cells_n(&$M::cell(size), &$M::point(res), &$M::cell(off)))
            }
            fn cells_from_bounds(b: Bx, res: f32) -> CBx { $M::uncbounds(&kuba::$CellBounds::from_bounds(&$M::bounds(b), res)) }
            fn signum(v: V) -> V { $M::unpoint(&kuba::$Point::from(kuba::geom::vector::signum(&$M::point(v).coords))) }
            fn cloud(pts: &[V], from_data: bool) -> (Vec<V>, usize, Bx) {
                let c = if from_data {
                    let mut m = na::MatrixMN::<f32, $U, na::Dynamic>::zeros(pts.len());
                    for (j, p) in pts.iter().enumerate() {
                        for i in 0..$d { m[(i, j)] = p[i]; }
                    }
                    kuba::$Cloud::from_data(m)
                } else {
                    $M::cloud(pts)
                };
                let v = c.points_iter().map(|p| $M::unpoint(&p)).collect();
                (v, c.num_points(), $M::unbounds(&c.bounds()))
            }
        }
    };
}

space!(S2, m2, 2, "2d", na::U2, ndarray::Ix2, Cell2, Point2, Bounds2, CellBounds2, PointCloud2, GridMap2, LidarOccupancyGridMap2, [0, 1]);
space!(S3, m3, 3, "3d", na::U3, ndarray::Ix3, Cell3, Point3, Bounds3, CellBounds3, PointCloud3, GridMap3, LidarOccupancyGridMap3, [0, 1, 2]);

pub fn copy_model(m: &kuba::LidarNoiseModel) -> kuba::LidarNoiseModel {
    kuba::LidarNoiseModel {
        hit_probability_logodds: m.hit_probability_logodds,
        miss_probability_logodds: m.miss_probability_logodds,
        min_probability_logodds: m.min_probability_logodds,
        max_probability_logodds: m.max_probability_logodds,
        occupied_threshold_logodds: m.occupied_threshold_logodds,
        max_range: m.max_range,
    }
}

/// The region of a map in cells of the world grid: [lo, hi). Fails if it is not on the grid.
pub fn region(b: Bx, res: f32, d: usize) -> Result<(C, C), String> {
    let (mut lo, mut hi) = ([0i64; 3], [1i64; 3]);
    for i in 0..d {
        let f = |v: f32| -> Result<i64, String> {
            let x = v as f64 / res as f64;
            let r = x.round();
            if !(x - r).abs().le(&(1e-3 + r.abs() * 1e-6)) {
                return Err(format!("region edge {} is not a multiple of the resolution {}", v, res));
            }
            Ok(r as i64)
        };
        lo[i] = f(b.0[i])?;
        hi[i] = f(b.1[i])?;
    }
    Ok((lo, hi))
}

/// Calls f for every cell of [lo, hi).
#[inline]
pub fn each_cell<E>(lo: C, hi: C, mut f: impl FnMut(C) -> Result<(), E>) -> Result<(), E> {
    for x in lo[0]..hi[0] {
        for y in lo[1]..hi[1] {
            for z in lo[2]..hi[2] {
                f([x, y, z])?;
            }
        }
    }
    Ok(())
}

pub fn sub(a: C, b: C) -> C {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: C, b: C) -> C {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn inside(c: C, lo: C, hi: C, d: usize) -> bool {
    (0..d).all(|i| c[i] >= lo[i] && c[i] < hi[i])
}
