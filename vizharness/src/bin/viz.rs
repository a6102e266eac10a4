//! V01, V02: the visualizer under all schedules.
//!
//! The visualizer's own source runs against a scheduled standard library (crate `shim`) and a window
//! that records what is drawn. Every schedule within the budget is executed; the drawn points of every
//! frame are compared with the occupied cells of a map into which the same clouds were integrated
//! one after another (V01), and the drawn lines with the poses of the scans (V02).

use kuba::GridMap;
use kuba_mc::engine::{self, Check, Choices, Obs, Res};
use kuba_mc::ensure;
use shim::sched;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

type Q = [i64; 3];

struct Scan {
    /// Meters east, north, up of the first; roll, pitch, yaw.
    pose: [f64; 6],
    points: Vec<[f32; 3]>,
}

fn at(points: &[[f32; 3]]) -> Scan {
    Scan { pose: [0.0; 6], points: points.to_vec() }
}

fn scenes() -> Vec<(&'static str, Vec<Scan>)> {
    let fan = |r: f32| -> Vec<[f32; 3]> {
        (-2..3).map(|i| [r, i as f32 * 0.4, 0.3 * (i % 2) as f32]).collect()
    };
    let moved = |x: f64, y: f64, z: f64, yaw: f64, r: f32| Scan { pose: [x, y, z, 0.0, 0.0, yaw], points: fan(r) };
    let hit = [2.0, 0.0, 0.0];
    let pass = [3.0, 0.0, 0.0];
    vec![
        // A cell is occupied, freed by rays passing through, and occupied again.
        ("free-and-reoccupy", vec![at(&[hit]), at(&[pass]), at(&[pass]), at(&[pass]), at(&[hit])]),
        // The map grows towards lower x, and a cell of the new region has the index that another had.
        ("growth", vec![at(&[hit]), at(&[[-8.0, 0.0, 0.0]]), at(&[pass]), at(&[pass]), at(&[pass])]),
        // Growth along all axes at once, with all earlier cells re-observed and some freed.
        (
            "growth-all-axes",
            vec![
                at(&[hit, [0.0, 2.0, 0.0], [0.0, 0.0, 2.0]]),
                at(&[[-8.0, -1.0, -1.0], pass]),
                at(&[pass, [0.0, -8.0, 0.0], [0.0, 3.0, 0.0]]),
                at(&[[0.0, 0.0, 3.0], [0.0, 3.0, 0.0], pass]),
            ],
        ),
        // The sensor moves and turns.
        (
            "drive",
            vec![
                moved(0.0, 0.0, 0.0, 0.0, 2.5),
                moved(1.0, 0.5, 0.0, 1.5, 3.0),
                moved(-1.5, -0.5, 0.4, 3.0, 1.5),
                moved(0.0, 0.0, -0.4, -1.5, 2.0),
            ],
        ),
        ("single-cloud", vec![at(&[hit, [1.0, 1.0, 0.0]])]),
        ("empty-clouds", vec![at(&[]), at(&[hit]), at(&[])]),
        // The only occupied cell is freed by rays that end out of range, and stays free.
        // Scans from many places and directions, each with its own points and rays through those of others.
        (
            "long-drive",
            (0..7)
                .map(|i| {
                    let t = i as f64;
                    moved(0.7 * t, 0.3 * (t * 1.3).sin(), 0.1 * (t % 3.0), 0.5 * t, 1.6 + 0.3 * (i % 4) as f32)
                })
                .collect(),
        ),
        // Looking back: the cell at the origin of the world, where the first scan was taken, is hit and freed.
        (
            "through-origin",
            vec![
                at(&[[0.0, 1.5, 0.0]]),
                Scan { pose: [2.0, 0.0, 0.0, 0.0, 0.0, 0.0], points: vec![[-2.0, 0.0, 0.0], [-2.0, 0.5, 0.0]] },
                Scan { pose: [0.0, -1.0, 0.0, 0.0, 0.0, 0.0], points: vec![[0.0, 1.0, 0.0], [0.3, 1.0, 0.0]] },
                Scan { pose: [1.0, 0.0, 0.5, 0.0, 0.0, 0.0], points: vec![[-2.0, 0.0, -1.0]] },
                Scan { pose: [0.0, 0.0, -1.0, 0.0, 0.0, 0.0], points: vec![[0.0, 0.0, 2.0]] },
                Scan { pose: [0.0, 0.0, -1.0, 0.0, 0.0, 0.0], points: vec![[0.0, 0.0, 2.5]] },
            ],
        ),
        // Many occupied cells, of which some are freed and some hit again.
        (
            "many-cells",
            (0..6)
                .map(|i| {
                    at(&(0..24)
                        .map(|j| {
                            let (a, r) = (j as f32 * 0.27, if (i + j) % 4 == 3 { 2.6 } else { 1.6 });
                            [r * a.cos(), r * a.sin(), 0.0]
                        })
                        .collect::<Vec<_>>())
                })
                .collect(),
        ),
        // Growth far to all sides in turn.
        (
            "far-growth",
            vec![
                at(&[hit]),
                at(&[[-24.0, 0.0, 0.0]]),
                at(&[pass, [0.0, 0.0, 1.0]]),
                at(&[[0.0, -24.0, 0.0], hit]),
                at(&[[24.0, 0.0, 0.0]]),
                at(&[[-24.5, 0.0, 0.0], hit, [0.0, 0.0, 1.3]]),
                at(&[[0.0, 24.0, 0.0]]),
            ],
        ),
        ("last-freed", std::iter::once(at(&[hit])).chain((0..9).map(|_| at(&[[60.9, 0.0, 0.0]]))).collect()),
    ]
}

fn write_scene(dir: &Path, scans: &[Scan]) {
    let (o, v) = (dir.join("oxts/data"), dir.join("velodyne_points/data"));
    std::fs::create_dir_all(&o).unwrap();
    std::fs::create_dir_all(&v).unwrap();
    for (i, s) in scans.iter().enumerate() {
        let p = &s.pose;
        let rec = format!(
            "{:.12} {:.12} {} {} {} {} 0.0 0.0 0.0",
            p[1] * 360.0 / 40008000.0, p[0] * 360.0 / 40075160.0, p[2], p[3], p[4], p[5]
        );
        std::fs::write(o.join(format!("{:010}.txt", i)), rec).unwrap();
        let mut b = vec![];
        for q in &s.points {
            for x in [q[0], q[1], q[2], 0.5] {
                b.extend_from_slice(&x.to_ne_bytes());
            }
        }
        std::fs::write(v.join(format!("{:010}.bin", i)), b).unwrap();
    }
}

fn quantised(p: &[f32; 3]) -> Q {
    [0, 1, 2].map(|i| (p[i] as f64 / 0.1).round() as i64)
}

/// The occupied cells of the map, by the world cell of their centers.
fn occupied(m: &kuba::LidarOccupancyGridMap3) -> BTreeMap<Q, [f32; 3]> {
    let b = m.bounds();
    let n: Vec<isize> = (0..3).map(|i| ((b.max[i] - b.min[i]) / m.resolution()).round().max(0.0) as isize).collect();
    let mut out = BTreeMap::new();
    for x in 0..n[0] {
        for y in 0..n[1] {
            for z in 0..n[2] {
                let c = kuba::cell3![x, y, z];
                if m.occupied(&c) {
                    let p = m.point_from_cell(&c);
                    let p = [p[0], p[1], p[2]];
                    out.insert(quantised(&p), p);
                }
            }
        }
    }
    out
}

/// What must be drawn after 0, 1, ... clouds.
fn reference(dir: &Path, frames: usize) -> Vec<BTreeMap<Q, [f32; 3]>> {
    let poses = kuba::kitti::oxt_reader::read_from_dir(&dir.join("oxts/data"), false).unwrap();
    let clouds = kuba::kitti::point_cloud_reader::read_from_dir(&dir.join("velodyne_points/data"), false).unwrap();
    let mut map = kuba::LidarOccupancyGridMap3::default();
    let mut out = vec![BTreeMap::new()];
    for k in 0..frames + 1 {
        let i = k % clouds.len();
        let cloud = clouds[i].transform(&poses[i].to_homogeneous());
        map.integrate_point_cloud(&kuba::Point3::from(poses[i].translation.vector), &cloud);
        out.push(occupied(&map));
    }
    out
}

fn run_sut(f: &mut dyn FnMut()) -> Result<(), String> {
    engine::sut(|| f())
}

#[derive(Clone)]
struct Scene {
    name: &'static str,
    dir: PathBuf,
    expect: Vec<BTreeMap<Q, [f32; 3]>>,
    /// The axes of the poses: from, to, color.
    poses: Vec<[[[f32; 3]; 3]; 3]>,
}

/// How far a scene is explored.
#[derive(Clone, Copy)]
struct Bounds {
    frames: usize,
    budget: usize,
    stale: usize,
}

/// One schedule.
fn one(ch: &mut Choices, scenes: &[Scene], b: Bounds, marker: bool) -> Res {
    let s = &scenes[ch.int(scenes.len())];
    play(ch, s, b, marker, &mut |ch, n| ch.int(n))
}

fn play(ch: &mut Choices, s: &Scene, b: Bounds, marker: bool, choose: &mut (dyn FnMut(&mut Choices, usize) -> usize + Send)) -> Res {
    let verbose = ch.verbose;
    ch.note(|| format!("scene {}, {} frames", s.name, b.frames));
    let plan = sched::Plan {
        args: vec!["draw_occupancy_grid".into(), s.dir.to_str().unwrap().into()],
        frames: b.frames,
        budget: b.budget,
        stale: b.stale,
        trace: verbose,
    };
    let out = sched::execute(plan, &mut |n| choose(ch, n), run_sut, viz_mc::visualizer);
    ch.note(|| format!("schedule {}", out.trace.join(" ")));
    if let Some(f) = out.failure {
        return Err(f);
    }
    ensure!(out.frames.len() == b.frames, "{} frames of {} were drawn", out.frames.len(), b.frames);
    let ks = if marker { markers(s, &out)? } else { points(s, &out)? };
    Ok(Obs::new(*ks.last().unwrap() > 0, (s.name, ks, out.used_preempt, out.used_stale)))
}

/// V01: after how many clouds each frame's points are the occupied cells.
fn points(s: &Scene, out: &sched::Outcome) -> Result<Vec<usize>, String> {
    let mut k = 0;
    let mut ks = vec![];
    for (i, f) in out.frames.iter().enumerate() {
        let mut drawn = BTreeMap::new();
        for p in &f.points {
            drawn.insert(quantised(p), *p);
        }
        let fresh = i > 0 && f.at_rest && !out.used_stale;
        let lo = if fresh { k + 1 } else { k };
        let fits = |e: &BTreeMap<Q, [f32; 3]>| {
            e.len() == drawn.len()
                && e.iter().zip(&drawn).all(|((a, p), (b, q))| a == b && (0..3).all(|i| (p[i] - q[i]).abs() < 0.02))
        };
        match (lo..s.expect.len()).find(|j| fits(&s.expect[*j])) {
            Some(j) => k = j,
            None => {
                let show = |e: &BTreeMap<Q, [f32; 3]>| format!("{:?}", e.values().take(12).collect::<Vec<_>>());
                let any = (0..s.expect.len()).find(|j| fits(&s.expect[*j]));
                return Err(match any {
                    Some(j) => format!(
                        "frame {} shows the map after {} clouds, after frame {} showed {}{}",
                        i, j, i - 1, k,
                        if fresh { " and the background work has come to rest" } else { "" }
                    ),
                    None => format!(
                        "frame {} draws {} points {} which are the occupied cells after no number of clouds; after {}: {}, after {}: {}",
                        i, drawn.len(), show(&drawn), k, show(&s.expect[k]), k + 1,
                        s.expect.get(k + 1).map(show).unwrap_or_default()
                    ),
                });
            }
        }
        ks.push(k);
    }
    Ok(ks)
}

/// V02: which scan's pose each frame's lines mark, counted without wrapping around.
fn markers(s: &Scene, out: &sched::Outcome) -> Result<Vec<usize>, String> {
    let close = |a: &[f32; 3], b: &[f32; 3]| (0..3).all(|i| (a[i] - b[i]).abs() < 1e-4 * (1.0 + b[i].abs()));
    let mut can: Vec<usize> = vec![0];
    let mut ks = vec![];
    for (i, f) in out.frames.iter().enumerate() {
        ensure!(f.lines.len() == 3, "frame {} draws {} lines, not the three axes of one pose", i, f.lines.len());
        let fits = |k: usize| {
            s.poses[k % s.poses.len()].iter().all(|want| {
                f.lines.iter().filter(|l| (0..3).all(|j| close(&l[j], &want[j]))).count() == 1
            })
        };
        let fresh = i > 0 && f.at_rest && !out.used_stale;
        let mut next: Vec<usize> = vec![];
        for k in &can {
            for k in [*k, *k + 1] {
                if !(fresh && can.iter().all(|c| *c == k)) && fits(k) && !next.contains(&k) {
                    next.push(k);
                }
            }
        }
        ensure!(
            !next.is_empty(),
            "frame {} marks {:?}; frame {} marked the pose of scan {:?}{}, and the poses are {:?}",
            i, f.lines, i as isize - 1, can,
            if fresh { " and the background work has come to rest" } else { "" },
            s.poses
        );
        can = next;
        ks.push(*can.iter().min().unwrap());
    }
    Ok(ks)
}

/// The axes of a pose, one meter long, in red, green and blue.
fn axes(p: &kuba::Pose3) -> [[[f32; 3]; 3]; 3] {
    let t = p.translation.vector;
    let r = p.rotation.to_rotation_matrix();
    let m = r.matrix();
    [0, 1, 2].map(|k| {
        let from = [t[0], t[1], t[2]];
        let mut color = [0.0; 3];
        color[k] = 1.0;
        [from, [0, 1, 2].map(|i| from[i] + m[(i, k)]), color]
    })
}

/// All sequences of scans of an alphabet.
fn history(ch: &mut Choices, root: &Path, len: usize, marker: bool) -> Res {
    let fan = [[2.0, -0.4, 0.0], [2.0, 0.0, 0.3], [2.0, 0.4, 0.0]];
    let scan = |k: usize| match k {
        0 => at(&[[2.0, 0.0, 0.0]]),
        1 => at(&[[3.0, 0.0, 0.0], [2.0, 0.0, 0.0], [0.0, 1.0, 0.0]]),
        2 => Scan { pose: [4.0, 0.0, 0.0, 0.0, 0.0, 0.0], points: vec![[-5.0, 0.0, 0.0], [-2.0, 0.0, 0.0]] },
        3 => Scan { pose: [1.0, 0.5, 0.2, 0.0, 0.1, 1.5], points: fan.to_vec() },
        4 => Scan { pose: [0.0, 0.0, 1.0, 0.2, 0.0, -2.0], points: vec![[0.0, 0.5, -3.0], [1.0, 0.0, -1.0]] },
        _ => at(&[]),
    };
    let kinds: Vec<usize> = (0..len).map(|_| ch.int(6)).collect();
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = root.join(format!("h{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    write_scene(&dir, &kinds.iter().map(|k| scan(*k)).collect::<Vec<_>>());
    ch.note(|| format!("scans {:?}", kinds));
    let frames = len + 2;
    let s = scene("history", &dir, frames, marker)?;
    // Every scan is integrated within one frame, or in the second frame after it was begun.
    let mut some = false;
    for lazy in [false, true] {
        let mut turn = 0;
        let o = play(ch, &s, Bounds { frames, budget: 0, stale: 0 }, marker, &mut |_, n| {
            turn += 1;
            if lazy && turn % 2 == 0 { 0 } else { n - 1 }
        })?;
        some |= o.nontrivial;
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(Obs::new(some, kinds))
}

/// Long runs over many or large scans, with background work that takes a number of frames.
fn long_run(ch: &mut Choices, scenes: &[(Scene, usize)], marker: bool) -> Res {
    let (s, frames) = ch.of(scenes);
    let pace = *ch.of(&[1usize, 2, 5]);
    ch.note(|| format!("pace {}", pace));
    let mut turn = 0;
    play(ch, s, Bounds { frames: *frames, budget: 0, stale: 0 }, marker, &mut |_, n| {
        turn += 1;
        if turn % pace != 0 { 0 } else { n - 1 }
    })
}

fn long_scenes(root: &Path, marker: bool) -> Vec<(Scene, usize)> {
    let drive = |n: usize, rays: usize| -> Vec<Scan> {
        (0..n)
            .map(|i| {
                let t = i as f32;
                let points = (0..rays)
                    .map(|j| {
                        let (a, r) = (j as f32 * 2.399963 + 0.3 * t, 1.4 + ((i * 5 + j * 3) % 7) as f32 * 0.21);
                        [r * a.cos(), r * a.sin(), ((j * 13) % 9) as f32 * 0.1 - 0.4]
                    })
                    .collect();
                let t = i as f64;
                Scan { pose: [0.5 * t, 1.5 * (0.4 * t).sin(), 0.05 * (i % 5) as f64, 0.0, 0.02 * t, 0.3 * t], points }
            })
            .collect()
    };
    // Every cell of a cube is hit.
    let block = || -> Scan {
        let mut p = vec![];
        for x in 0..41 {
            for y in 0..41 {
                for z in 0..41 {
                    p.push([x, y, z].map(|i| 0.1 * i as f32 - 2.0));
                }
            }
        }
        at(&p)
    };
    let slow = |n: usize| -> Vec<Scan> {
        (0..n).map(|i| Scan { pose: [0.02 * i as f64, 0.0, 0.0, 0.0, 0.0, 0.01 * i as f64], points: vec![[0.6, 0.0, 0.2 * (i % 3) as f32]] }).collect()
    };
    let once = |n: usize| -> Vec<Scan> { (0..n).map(|i| at(&[[1.0 + 0.1 * i as f32, 0.5, 0.0]])).collect() };
    vec![("many-scans", drive(30, 12), 75), ("many-points", drive(3, 2600), 9), ("many-frames", drive(3, 5), 260), ("eleven", once(11), 50), ("hundreds-of-scans", slow(260), 265), ("tens-of-thousands-of-points", vec![block()], 3)]
        .into_iter()
        .map(|(name, scans, frames)| {
            let dir = root.join(name);
            write_scene(&dir, &scans);
            (scene(name, &dir, frames, marker).unwrap_or_else(|m| panic!("{}", m)), frames)
        })
        .collect()
}

/// Data sets that are not complete: no frame is drawn.
fn startup(ch: &mut Choices, root: &Path) -> Res {
    static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    let dir = root.join(format!("b{}", N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    let n = 1 + ch.int(3);
    let scans: Vec<Scan> = (0..n).map(|i| at(&[[2.0 + i as f32, 0.0, 0.0]])).collect();
    write_scene(&dir, &scans);
    let i = ch.int(n);
    let (pose, cloud) = (dir.join(format!("oxts/data/{:010}.txt", i)), dir.join(format!("velodyne_points/data/{:010}.bin", i)));
    let kind = ch.int(7);
    let what = match kind {
        0 => { std::fs::remove_file(&pose).unwrap(); "a pose is missing" }
        1 => { std::fs::remove_file(&cloud).unwrap(); "a cloud is missing" }
        2 => { std::fs::write(&pose, "49.0 x").unwrap(); "a pose cannot be parsed" }
        3 => { std::fs::write(&cloud, [1, 2, 3, 4, 5]).unwrap(); "a cloud ends within a point" }
        4 => { std::fs::remove_dir_all(dir.join("oxts")).unwrap(); "there are no poses" }
        5 => { std::fs::remove_dir_all(dir.join("velodyne_points")).unwrap(); "there are no clouds" }
        _ => { std::fs::remove_dir_all(&dir).unwrap(); "there is no directory" }
    };
    ch.note(|| format!("{} scans, number {}: {}", n, i, what));
    let plan = sched::Plan {
        args: vec!["draw_occupancy_grid".into(), dir.to_str().unwrap().into()],
        frames: 2,
        budget: 0,
        stale: 0,
        trace: false,
    };
    let out = sched::execute(plan, &mut |n| n - 1, run_sut, viz_mc::visualizer);
    let _ = std::fs::remove_dir_all(&dir);
    ensure!(out.frames.is_empty(), "{} frames were drawn although {}", out.frames.len(), what);
    Ok(Obs::new(true, (n, i, what)))
}

fn scene(name: &'static str, dir: &Path, frames: usize, marker: bool) -> Result<Scene, String> {
    let expect = if marker { vec![] } else { engine::sut(|| reference(dir, frames))? };
    let poses = engine::sut(|| kuba::kitti::oxt_reader::read_from_dir(&dir.join("oxts/data"), false).unwrap())?;
    Ok(Scene { name, dir: dir.to_path_buf(), expect, poses: poses.iter().map(axes).collect() })
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or_default();
    let marker = id == "V02";
    let c = Check::new(if marker { "V02" } else { "V01" }, "exploration");
    engine::silence_stdout();
    c.run(|c| {
        c.rule(if marker {
            "an execution is one schedule of the visualizer's real code over one data set; it counts when the marker moves on, or when the data set is one that must be refused"
        } else {
            "an execution is one schedule of the visualizer's real code over one scene; it counts when at least one frame shows an integrated cloud"
        });
        c.assume("the frame loop calls State::step once per frame and draws what draw_point and draw_line were given (stand-in for kiss3d)");
        c.assume("context switches matter only at operations on locks, atomics, channels and threads: the code under test has no unsafe code");
        c.assume("SeqCst operations and store-to-load order within a thread are sequentially consistent");
        let deep = c.thorough;
        let root = engine::scratch().join("scenes");
        let max_frames = 10;
        let all: Vec<Scene> = scenes()
            .into_iter()
            .map(|(name, scans)| {
                let dir = root.join(name);
                write_scene(&dir, &scans);
                scene(name, &dir, max_frames, marker).unwrap_or_else(|m| panic!("{}", m))
            })
            .collect();
        let some = |names: &[&str]| -> Vec<Scene> { all.iter().filter(|s| names.contains(&s.name)).cloned().collect() };
        let large = some(&["last-freed", "far-growth"]);
        let small: Vec<Scene> = all.iter().filter(|s| large.iter().all(|l| l.name != s.name)).cloned().collect();
        let at = |frames, budget, stale| Bounds { frames, budget, stale };
        let long = long_scenes(&root, marker);
        c.tree("long-runs", |ch| long_run(ch, &long, marker));
        if marker {
            c.tree("startup", |ch| startup(ch, &root));
            c.tree("histories", |ch| history(ch, &root, if deep { 4 } else { 3 }, true));
            let s = some(&["drive", "long-drive", "single-cloud", "through-origin"]);
            c.tree("unpreempted", |ch| one(ch, &s, at(max_frames, 0, 0), true));
            c.tree("one-preemption", |ch| one(ch, &s, at(7, 1, 1), true));
            let s = some(&["drive"]);
            c.tree("two-preemptions", |ch| one(ch, &s, at(if deep { 8 } else { 6 }, 2, 1), true));
            return;
        }
        c.tree("histories", |ch| history(ch, &root, if deep { 5 } else { 4 }, false));
        // All schedules without preemption are few: many frames.
        c.tree("unpreempted", |ch| one(ch, &small, at(max_frames, 0, 0), false));
        c.tree("large-maps", |ch| one(ch, &large, at(8, 0, 0), false));
        c.tree("one-preemption", |ch| one(ch, &small, at(8, 1, 1), false));
        c.tree("two-preemptions", |ch| one(ch, &small, at(if deep { 8 } else { 6 }, 2, 1), false));
        let s = some(&["growth", "free-and-reoccupy"]);
        c.tree("more-preemptions", |ch| one(ch, &s, at(if deep { 6 } else { 4 }, if deep { 4 } else { 3 }, 2), false));
    })
}
