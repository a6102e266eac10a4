//! K01 K02 K03 K04: reading KITTI data.

use kuba::kitti::{fs as kfs, oxt_reader, point_cloud_reader};
use kuba_mc::engine::*;
use kuba_mc::ensure;
use nalgebra as na;
use std::io::{Error, ErrorKind, Read};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------------------------------------
// A reader whose deliveries are scheduled.

#[derive(Clone, Copy, Debug, PartialEq)]
enum Event {
    /// Deliver at most this many bytes.
    Chunk(usize),
    Interrupted,
    Fail(ErrorKind),
    /// Fail with an error of the operating system.
    FailOs(i32),
}

const FAIL_TEXT: &str = "scheduled failure";

struct Scripted<'a> {
    data: &'a [u8],
    at: usize,
    calls: usize,
    plan: Vec<(usize, Event)>,
    default: usize,
    failed: bool,
}

impl<'a> Scripted<'a> {
    /// Delivers at most `default` bytes per call, except at the calls named in the plan.
    fn new(data: &'a [u8], default: usize, plan: Vec<(usize, Event)>) -> Self {
        Scripted { data, at: 0, calls: 0, plan, default, failed: false }
    }
}

impl Read for Scripted<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let ev = self.plan.iter().find(|(k, _)| *k == self.calls).map(|x| x.1).unwrap_or(Event::Chunk(self.default));
        self.calls += 1;
        match ev {
            Event::Interrupted => Err(Error::new(ErrorKind::Interrupted, "interrupted")),
            Event::Fail(k) => {
                self.failed = true;
                Err(Error::new(k, FAIL_TEXT))
            }
            Event::FailOs(n) => {
                self.failed = true;
                Err(Error::from_raw_os_error(n))
            }
            Event::Chunk(n) => {
                let n = n.min(buf.len()).min(self.data.len() - self.at);
                buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
                self.at += n;
                Ok(n)
            }
        }
    }
}

const CHUNKS: [usize; 7] = [usize::MAX, 16, 1, 5, 4, 17, 33];
const FAILS: [ErrorKind; 5] =
    [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::ConnectionReset, ErrorKind::InvalidData, ErrorKind::PermissionDenied];

const MORE_FAILS: [ErrorKind; 15] = [
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::BrokenPipe,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::IsADirectory,
];
const OS_FAILS: [i32; 8] = [libc::EIO, libc::EAGAIN, libc::EBADF, libc::ENOMEM, libc::EISDIR, libc::ESTALE, libc::ENODEV, libc::ETIMEDOUT];

/// A failure of any kind at any call, or a long series of interruptions; then data again.
fn any_failure<T>(
    ch: &mut Choices,
    data: &[u8],
    read: impl Fn(&mut Scripted) -> Result<std::io::Result<T>, String>,
    judge: impl Fn(std::io::Result<T>) -> Result<(), String>,
) -> Res {
    let chunk = *ch.of(&[usize::MAX, 16, 5, 1]);
    let calls = if chunk >= data.len() { 2 } else { data.len().div_ceil(chunk) + 1 };
    let at = ch.int(calls);
    let k = ch.int(FAILS.len() + MORE_FAILS.len() + OS_FAILS.len() + 4);
    let kinds: Vec<ErrorKind> = FAILS.iter().chain(&MORE_FAILS).copied().collect();
    let plan: Vec<(usize, Event)> = if k < kinds.len() {
        vec![(at, Event::Fail(kinds[k]))]
    } else if k < kinds.len() + OS_FAILS.len() {
        vec![(at, Event::FailOs(OS_FAILS[k - kinds.len()]))]
    } else {
        let n = [2usize, 17, 130, 1100][k - kinds.len() - OS_FAILS.len()];
        (at..at + n).map(|i| (i, Event::Interrupted)).collect()
    };
    ch.note(|| format!("chunks of {}, at call {}: {:?} ({} events)", chunk, at, plan[0].1, plan.len()));
    let mut rd = Scripted::new(data, chunk, plan.clone());
    let r = read(&mut rd)?;
    match plan[0].1 {
        Event::Fail(k) if rd.failed => must_fail(&r, k, true, "a reader that fails")?,
        Event::FailOs(n) if rd.failed => match &r {
            Ok(_) => return Err(format!("a reader that fails with error {} was accepted", n)),
            Err(e) => {
                let want = Error::from_raw_os_error(n);
                ensure!(e.kind() == want.kind(), "the reader's error {} came out as {:?} ({})", n, e.kind(), e);
                ensure!(e.to_string().contains(&want.to_string()), "the reader's error {} came out as {}", n, e);
            }
        },
        _ => judge(r)?,
    }
    Ok(Obs::new(true, (k, rd.failed)))
}

/// Every schedule of a read: a chunk size, and up to `budget` events that deviate from it, at any of the
/// calls that the read makes.
fn schedule(ch: &mut Choices, data: &[u8], budget: usize, chunks: &[usize], fails: &[ErrorKind], calls_max: usize) -> (usize, Vec<(usize, Event)>, bool) {
    let default = *ch.of(chunks);
    // Calls until the end is seen, without deviations.
    let calls = (if default >= data.len() { if data.is_empty() { 1 } else { 2 } } else { data.len().div_ceil(default) + 1 }).min(calls_max);
    let mut plan: Vec<(usize, Event)> = vec![];
    let mut fail = false;
    for _ in 0..budget {
        // Deviate at a later call than before, or stop deviating.
        let from = plan.last().map(|p| p.0 + 1).unwrap_or(0);
        let room = (calls + plan.len()).saturating_sub(from);
        let k = ch.int(room + 1);
        if k == 0 {
            break;
        }
        let call = from + k - 1;
        let e = ch.int(3 + fails.len());
        let ev = match e {
            0 => Event::Interrupted,
            1 => Event::Chunk(1),
            2 => Event::Chunk(7),
            e => Event::Fail(fails[e - 3]),
        };
        plan.push((call, ev));
        if let Event::Fail(_) = ev {
            fail = true;
            break;
        }
    }
    (default, plan, fail)
}

/// The reader failed: its error must come out, kind and text.
fn must_fail<T>(r: &std::io::Result<T>, want: ErrorKind, own: bool, what: &str) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{} was accepted", what)),
        Err(e) => {
            ensure!(e.kind() == want, "{} gave the error {:?} ({}) instead of {:?}", what, e.kind(), e, want);
            ensure!(!own || e.to_string().contains(FAIL_TEXT), "{} gave another error than the reader's: {}", what, e);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------
// K01

const SPECIAL: [f32; 16] = [
    0.0,
    1.0,
    -2.5,
    f32::MAX,
    f32::MIN_POSITIVE,
    1e-45,
    -0.0,
    f32::INFINITY,
    f32::NEG_INFINITY,
    f32::NAN,
    3.1415927,
    -1e-30,
    16777217.0,
    0.1,
    -77.777,
    1234.5678,
];

fn scan(records: usize, salt: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..records {
        for j in 0..4 {
            // Different values in every position; the intensity is unlike any coordinate.
            let x = if j == 3 {
                900.0 + i as f32
            } else if (i + j + salt) % 3 == 0 {
                SPECIAL[(i * 3 + j + salt) % 16]
            } else {
                (i * 4 + j + 100 * salt) as f32 * 0.37 - 5.0
            };
            v.extend(x.to_ne_bytes());
        }
    }
    v
}

fn judge_scan(r: std::io::Result<kuba::PointCloud3>, bytes: &[u8]) -> Result<(), String> {
    if bytes.len() % 16 != 0 {
        return must_fail(&r, ErrorKind::InvalidData, false, &format!("a scan of {} bytes", bytes.len()));
    }
    let c = r.map_err(|e| format!("a scan of {} bytes was rejected: {}", bytes.len(), e))?;
    let n = bytes.len() / 16;
    ensure!(c.num_points() == n, "{} records gave {} points", n, c.num_points());
    let mut k = 0;
    for (i, p) in c.points_iter().enumerate() {
        for j in 0..3 {
            let want = &bytes[i * 16 + j * 4..i * 16 + j * 4 + 4];
            let got = p[j].to_ne_bytes();
            let nan = p[j].is_nan() && f32::from_ne_bytes(want.try_into().unwrap()).is_nan();
            ensure!(got == want || nan, "coordinate {} of point {} is {} instead of {}", j, i, p[j], f32::from_ne_bytes(want.try_into().unwrap()));
        }
        k += 1;
    }
    ensure!(k == n, "{} records gave {} points to iterate over", n, k);
    Ok(())
}

fn k01(c: &mut Check) {
    c.rule("all lengths up to a bound and contents, every chunk size, and every placement of interruptions, short reads and failures up to a number of deviations; non-trivial if there is a record or a fault");
    c.assume("the byte order of this machine (little-endian) is the one of the files, as the readers assume");
    let th = c.thorough;
    // Every length, chunk size and salt without faults.
    let lens = if th { 1200 } else { 400 };
    c.tree("lengths", |ch| {
        let len = ch.int(lens);
        let salt = ch.int(4);
        let chunk = *ch.of(&CHUNKS);
        let mut bytes = scan(len / 16 + 1, salt);
        bytes.truncate(len);
        ch.note(|| format!("{} bytes in chunks of {}", len, chunk));
        let r = sut(|| point_cloud_reader::read(&mut Scripted::new(&bytes, chunk, vec![])))?;
        judge_scan(r, &bytes)?;
        Ok(Obs::new(len > 0, len))
    });
    // Large scans around powers of two and buffer sizes, and a real scan's size.
    c.tree("large", |ch| {
        let base = *ch.of(&[1usize << 10, 1 << 12, 8192, 1 << 14, 1 << 16, 100_000, 125_000]);
        let n = base + ch.int(3) - 1;
        let extra = *ch.of(&[0usize, 1, 4, 8, 12, 15]);
        let chunk = *ch.of(&[usize::MAX, 4096, 4093, 65536]);
        let mut bytes = scan(n, base % 7);
        bytes.extend(std::iter::repeat(1).take(extra));
        ch.note(|| format!("{} records and {} bytes in chunks of {}", n, extra, chunk));
        let r = sut(|| point_cloud_reader::read(&mut Scripted::new(&bytes, chunk, vec![])))?;
        judge_scan(r, &bytes)?;
        Ok(Obs::new(true, (n, extra)))
    });
    // Scans of many megabytes.
    let most = if th { 24 } else { 21 };
    c.tree("huge", |ch| {
        let k = 17 + ch.int(most - 16);
        let n = (1usize << k) + 1;
        let extra = *ch.of(&[0usize, 7]);
        let chunk = *ch.of(&[usize::MAX, 65536]);
        let mut bytes = scan(n, k);
        bytes.extend(std::iter::repeat(1).take(extra));
        ch.note(|| format!("{} records and {} bytes in chunks of {}", n, extra, chunk));
        let r = sut(|| point_cloud_reader::read(&mut Scripted::new(&bytes, chunk, vec![])))?;
        judge_scan(r, &bytes)?;
        Ok(Obs::new(true, (n, extra)))
    });
    // The same byte everywhere: zeros, infinities, NaNs, text.
    c.tree("uniform", |ch| {
        let b = ch.int(256) as u8;
        let len = ch.int(82);
        let bytes = vec![b; len];
        ch.note(|| format!("{} bytes of {:#x}", len, b));
        let r = sut(|| point_cloud_reader::read(&mut Scripted::new(&bytes, usize::MAX, vec![])))?;
        judge_scan(r, &bytes)?;
        Ok(Obs::new(len > 0, (len, b)))
    });
    // Every schedule of faults.
    let sizes: &[usize] = &[0, 1, 4, 12, 15, 16, 17, 31, 32, 48, 64, 65];
    let chunks: &[usize] = if th { &CHUNKS } else { &[usize::MAX, 16, 5, 1] };
    let budget = if th { 4 } else { 3 };
    c.tree("faults", |ch| {
        let len = *ch.of(sizes);
        let mut bytes = scan(len / 16 + 1, 1);
        bytes.truncate(len);
        let (chunk, plan, _) = schedule(ch, &bytes, budget, chunks, &FAILS, if th { 20 } else { 14 });
        ch.note(|| format!("{} bytes in chunks of {}, except {:?}", len, chunk, plan));
        let mut rd = Scripted::new(&bytes, chunk, plan.clone());
        let r = sut(|| point_cloud_reader::read(&mut rd))?;
        let fail = plan.iter().find_map(|p| if let Event::Fail(k) = p.1 { Some(k) } else { None });
        match fail {
            Some(k) if rd.failed => must_fail(&r, k, true, "a scan whose reader fails")?,
            _ => judge_scan(r, &bytes)?,
        }
        Ok(Obs::new(!plan.is_empty(), (len, rd.failed, plan.len())))
    });
    c.tree("any-failure", |ch| {
        let n = *ch.of(&[0usize, 1, 2, 3]);
        let bytes = scan(n, 4);
        any_failure(ch, &bytes, |rd| sut(|| point_cloud_reader::read(rd)), |r| judge_scan(r, &bytes))
    });
    // A failure at every single call of longer reads.
    c.tree("late-faults", |ch| {
        let n = *ch.of(&[2usize, 5, 40]);
        let bytes = scan(n, 2);
        let chunk = *ch.of(&[1usize, 5, 16, 48]);
        let at = ch.int(bytes.len() / chunk + 2);
        let ev = match ch.int(1 + FAILS.len()) {
            0 => Event::Interrupted,
            k => Event::Fail(FAILS[k - 1]),
        };
        ch.note(|| format!("{} records in chunks of {}, {:?} at call {}", n, chunk, ev, at));
        let mut rd = Scripted::new(&bytes, chunk, vec![(at, ev)]);
        let r = sut(|| point_cloud_reader::read(&mut rd))?;
        match ev {
            Event::Fail(k) if rd.failed => must_fail(&r, k, true, "a scan whose reader fails")?,
            _ => judge_scan(r, &bytes)?,
        }
        Ok(Obs::new(rd.failed || ev == Event::Interrupted, (n, rd.failed)))
    });
    // From files.
    let dir = scratch().join("k01");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let sizes: Vec<usize> = (0..70).chain([160, 4096, 8192, 16000, 16001, 160_000]).collect();
    for n in &sizes {
        let mut b = scan(n / 16 + 1, 3);
        b.truncate(*n);
        std::fs::write(dir.join(n.to_string()), b).unwrap();
    }
    c.tree("files", |ch| {
        let k = ch.int(sizes.len() + 2);
        if k < sizes.len() {
            let p = dir.join(sizes[k].to_string());
            let b = std::fs::read(&p).unwrap();
            ch.note(|| format!("a file of {} bytes", sizes[k]));
            judge_scan(sut(|| point_cloud_reader::read_from_file(&p))?, &b)?;
        } else {
            let p = dir.join(["missing", "sub"][k - sizes.len()]);
            ch.note(|| format!("{:?}", p));
            let r = sut(|| point_cloud_reader::read_from_file(&p))?;
            ensure!(r.is_err(), "{:?} was read as a scan", p);
        }
        Ok(Obs::new(true, k))
    });
}

// ---------------------------------------------------------------------------------------------
// K02

const GOOD: [&str; 10] = ["0", "1.5", "-0.25", "49.015003823272", "8.4342971002335", "1e-3", "-2.5E1", "+3", "116.43442534034", "-3.0"];
const BAD: [&str; 17] =
    ["x", "1.5x", "1,5", "0x10", "--1", "1.0.0", "1\n", "e5", "nope", "", "1_0", "\t1", "1\t", "1e", "\u{ff11}", "1f32", "1/2"];
// Other ways of writing numbers.
const FORMS: [&str; 16] = ["5.", ".5", "-.25", "007", "1e0", "1.5e0", "-2E+0", "25e-1", "0.00000000000000000001", "1E-30", "-0", "+0.0", "00.50", "3.000000000000000000000000000000001", "0e0", "12e1"];

type Origin = na::Translation3<f64>;

fn judge_pose(r: std::io::Result<(kuba::geom::Pose3, Origin)>, fields: &[&str], origin: Option<Origin>) -> Result<(), String> {
    let nums: Option<Vec<f64>> = fields.iter().take(6).map(|f| if BAD.contains(f) { None } else { f.parse::<f64>().ok() }).collect();
    let nums = match nums {
        Some(n) if n.len() == 6 => n,
        _ => return must_fail(&r, ErrorKind::InvalidData, false, "an invalid record"),
    };
    let (pose, got) = r.map_err(|e| format!("a valid record was rejected: {}", e))?;
    // The rotation, from the definition in f64.
    let (sr, cr) = nums[3].sin_cos();
    let (sp, cp) = nums[4].sin_cos();
    let (sy, cy) = nums[5].sin_cos();
    let want = [
        [cy * cp, cy * sp * sr - sy * cr, cy * sp * cr + sy * sr],
        [sy * cp, sy * sp * sr + cy * cr, sy * sp * cr - cy * sr],
        [-sp, cp * sr, cp * cr],
    ];
    let m = pose.rotation.to_rotation_matrix();
    let tol = 1e-5 + 2e-7 * (nums[3].abs() + nums[4].abs() + nums[5].abs());
    for i in 0..3 {
        for j in 0..3 {
            ensure!(
                (m[(i, j)] as f64 - want[i][j]).abs() < tol,
                "the rotation for roll {} pitch {} yaw {} is {:?}, expected {:?}", nums[3], nums[4], nums[5], m, want
            );
        }
    }
    match origin {
        None => {
            ensure!(pose.translation.vector.iter().all(|x| *x == 0.0), "without an origin, the position is {:?}", pose.translation);
            for i in 0..3 {
                ensure!(got.vector[i] == nums[i], "the returned origin is {:?} instead of {:?}", got.vector, &nums[..3]);
            }
        }
        Some(o) => {
            ensure!(got == o, "origin {:?} was given, and {:?} returned", o.vector, got.vector);
            ensure!(((pose.translation.vector[2] as f64) - (nums[2] - o.vector[2])).abs() < 1e-3 + 1e-5 * nums[2].abs(), "the height is {} for altitude {} from {}", pose.translation.vector[2], nums[2], o.vector[2]);
        }
    }
    Ok(())
}

fn k02(c: &mut Check) {
    c.rule("every number of fields, every combination of valid and invalid tokens up to a number of replaced positions, with and without an origin; every chunk size, and every placement of interruptions, short reads and failures up to a number of deviations");
    c.assume("fields are separated by single spaces, as in the data set");
    let th = c.thorough;
    let origin = |k: usize| match k {
        0 => None,
        1 => Some(Origin::new(49.0, 8.4, 100.0)),
        _ => Some(Origin::new(-12.25, -77.125, 0.0)),
    };
    let base: Vec<&str> = "49.015003823272 8.4342971002335 116.43442534034 0.035752 0.000903 -2.6087069803847 -0.0 2.25 5 4 abc 1,2 - 0.5 0.1 9 8 7 6 5 4 3 2 1 0 -1 -2 -3 -4 -5"
        .split(' ')
        .collect();
    assert!(base.len() == 30);
    // Up to two (three) fields replaced by any token, for every number of fields.
    let counts: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 30];
    let repl = if th { 3 } else { 2 };
    c.tree("fields", |ch| {
        let n = *ch.of(counts);
        let newline = n > 6 && ch.flag();
        let mut f: Vec<&str> = base[..n].to_vec();
        let mut from = 0;
        for _ in 0..repl {
            let room = n.min(8) - from;
            let k = ch.int(room + 1);
            if k == 0 {
                break;
            }
            let t = ch.int(GOOD.len() + BAD.len());
            f[from + k - 1] = if t < GOOD.len() { GOOD[t] } else { BAD[t - GOOD.len()] };
            from += k;
        }
        let o = origin(ch.int(3));
        let mut s = f.join(" ");
        if newline {
            s.push('\n');
        }
        ch.note(|| format!("record {:?} origin {:?}", s, o.map(|o| o.vector)));
        let r = sut(|| oxt_reader::read(&mut Scripted::new(s.as_bytes(), usize::MAX, vec![]), o))?;
        judge_pose(r, &f, o)?;
        Ok(Obs::new(true, (n, from, o.is_some())))
    });
    c.tree("forms", |ch| {
        let n = *ch.of(&[6usize, 7, 30]);
        let mut f: Vec<&str> = base[..n].to_vec();
        let i = ch.int(6);
        f[i] = *ch.of(&FORMS);
        f[(i + 1 + ch.int(5)) % 6] = *ch.of(&FORMS);
        let o = origin(ch.int(3));
        let s = f.join(" ");
        ch.note(|| format!("record {:?} origin {:?}", s, o.map(|o| o.vector)));
        let r = sut(|| oxt_reader::read(&mut Scripted::new(s.as_bytes(), usize::MAX, vec![]), o))?;
        judge_pose(r, &f, o)?;
        Ok(Obs::new(true, s))
    });
    // Records that are longer than any of the data set.
    let wide: String = "7".repeat(6000);
    let precise: String = format!("1.{}", "25".repeat(3000));
    c.tree("long", |ch| {
        let n = *ch.of(&[6usize, 7, 8, 31, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000, 70_000]);
        let mut f: Vec<&str> = base.iter().copied().cycle().take(n.max(6)).collect();
        match ch.int(5) {
            0 => {}
            1 => f[ch.int(6)] = &precise,
            2 if n > 6 => f[6] = &wide,
            3 => f[n - 1] = if n > 6 { "?" } else { "0.5" },
            _ => return Ok(Obs::new(false, 0)),
        }
        let bad = ch.int(7);
        if bad > 0 {
            f[bad - 1] = "x";
        }
        let chunk = *ch.of(&[usize::MAX, 4093]);
        let o = origin(ch.int(2));
        let s = f.join(" ");
        ch.note(|| format!("a record of {} fields and {} bytes in chunks of {}, {:?}...", n, s.len(), chunk, &s[..60]));
        let r = sut(|| oxt_reader::read(&mut Scripted::new(s.as_bytes(), chunk, vec![]), o))?;
        judge_pose(r, &f, o)?;
        Ok(Obs::new(true, (n, s.len(), bad)))
    });
    c.tree("any-failure", |ch| {
        let f: Vec<&str> = "1.5 -2 3 0.25 0.5 -0.75 9 8".split(' ').take(*ch.of(&[5usize, 6, 8])).collect();
        let o = origin(ch.int(2));
        let s = f.join(" ");
        any_failure(ch, s.as_bytes(), |rd| sut(|| oxt_reader::read(rd, o)), |r| judge_pose(r, &f, o))
    });
    // Nothing at all, and what is not text. (An empty record has a single, empty field.)
    let not_text: [&[u8]; 8] = [&[0xff], &[0xc3], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0xf8, 0x88], &[0x80], &[0xe2, 0x82], &[0xff, 0xfe]];
    c.tree("not-text", |ch| {
        let k = ch.int(not_text.len() + 2);
        let chunk = *ch.of(&CHUNKS);
        let o = origin(ch.int(2));
        let mut v: Vec<u8>;
        if k < not_text.len() {
            let s = base.join(" ");
            v = s.as_bytes().to_vec();
            let pos = *ch.of(&[0usize, 1, 20, 47, 60, 70, 100, usize::MAX]);
            let pos = pos.min(v.len());
            v.splice(pos..pos, not_text[k].iter().copied());
        } else {
            v = [&b""[..], &b"\n"[..]][k - not_text.len()].to_vec();
        }
        ch.note(|| format!("bytes {:?} in chunks of {}", v, chunk));
        let r = sut(|| oxt_reader::read(&mut Scripted::new(&v, chunk, vec![]), o))?;
        must_fail(&r, ErrorKind::InvalidData, false, "a record that is not a text of six fields")?;
        Ok(Obs::new(true, k))
    });
    // Angles.
    let angles = ["0", "0.1", "-0.7", "1.5", "-1.5", "3.14159", "-3.14159", "2.2", "0.0001", "6.5", "1.5707963", "-1.5703", "-0.002", "-31.2", "4.71", "-6.28318"];
    c.tree("angles", |ch| {
        let mut f = base.clone();
        for i in 3..6 {
            f[i] = *ch.of(&angles);
        }
        let o = origin(ch.int(2));
        let s = f.join(" ");
        ch.note(|| format!("angles {:?} origin {}", &f[3..6], o.is_some()));
        let r = sut(|| oxt_reader::read(&mut Scripted::new(s.as_bytes(), usize::MAX, vec![]), o))?;
        judge_pose(r, &f, o)?;
        Ok(Obs::new(true, (&f[3], &f[4], &f[5])))
    });
    // Every schedule of faults.
    let chunks: &[usize] = if th { &CHUNKS } else { &[usize::MAX, 16, 5, 1] };
    let budget = if th { 4 } else { 3 };
    let short: Vec<&str> = "1.5 -2 3 0.25 0.5 -0.75 9 8".split(' ').collect();
    c.tree("faults", |ch| {
        let n = *ch.of(&[0usize, 1, 5, 6, 8]);
        let f = &short[..n];
        let s = f.join(" ");
        let (chunk, plan, _) = schedule(ch, s.as_bytes(), budget, chunks, &FAILS, if th { 30 } else { 12 });
        let o = origin(ch.int(2));
        ch.note(|| format!("record {:?} in chunks of {}, except {:?}", s, chunk, plan));
        let mut rd = Scripted::new(s.as_bytes(), chunk, plan.clone());
        let r = sut(|| oxt_reader::read(&mut rd, o))?;
        let fail = plan.iter().find_map(|p| if let Event::Fail(k) = p.1 { Some(k) } else { None });
        match fail {
            Some(k) if rd.failed => must_fail(&r, k, true, "a record whose reader fails")?,
            _ => judge_pose(r, f, o)?,
        }
        Ok(Obs::new(!plan.is_empty(), (n, rd.failed, plan.len())))
    });
    c.tree("late-faults", |ch| {
        let s = base.join(" ");
        let chunk = *ch.of(&[1usize, 3, 16, 48]);
        let at = ch.int(s.len() / chunk + 2);
        let ev = match ch.int(1 + FAILS.len()) {
            0 => Event::Interrupted,
            k => Event::Fail(FAILS[k - 1]),
        };
        let o = origin(ch.int(2));
        ch.note(|| format!("chunks of {}, {:?} at call {}", chunk, ev, at));
        let mut rd = Scripted::new(s.as_bytes(), chunk, vec![(at, ev)]);
        let r = sut(|| oxt_reader::read(&mut rd, o))?;
        match ev {
            Event::Fail(k) if rd.failed => must_fail(&r, k, true, "a record whose reader fails")?,
            _ => judge_pose(r, &base, o)?,
        }
        Ok(Obs::new(true, (at, rd.failed)))
    });
    let dir = scratch().join("k02");
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    for n in 0..=30 {
        std::fs::write(dir.join(n.to_string()), base[..n].join(" ")).unwrap();
    }
    c.tree("files", |ch| {
        let n = ch.int(33);
        let o = origin(ch.int(3));
        if n <= 30 {
            ch.note(|| format!("a file of {} fields", n));
            judge_pose(sut(|| oxt_reader::read_from_file(&dir.join(n.to_string()), o))?, &base[..n], o)?;
        } else {
            let p = dir.join(["missing", "sub"][n - 31]);
            ch.note(|| format!("{:?}", p));
            ensure!(sut(|| oxt_reader::read_from_file(&p, o))?.is_err(), "{:?} was read as a pose", p);
        }
        Ok(Obs::new(true, n))
    });
}

// ---------------------------------------------------------------------------------------------
// K03

/// Meters per degree of (latitude, longitude) on the WGS84 ellipsoid.
fn per_degree(lat: f64) -> (f64, f64) {
    let (a, f) = (6378137.0f64, 1.0 / 298.257223563);
    let e2 = f * (2.0 - f);
    let s = lat.to_radians().sin();
    let w = 1.0 - e2 * s * s;
    let m = a * (1.0 - e2) / w.powf(1.5);
    let n = a / w.sqrt();
    (m.to_radians(), (n * lat.to_radians().cos()).to_radians())
}

fn k03(c: &mut Check) {
    c.rule("every combination of an origin's latitude, longitude and altitude with displacements east, north and up; non-trivial if there is a displacement");
    c.assume("ground distances on the WGS84 ellipsoid; both displacements up to a kilometer");
    let th = c.thorough;
    let mut lats: Vec<f64> = (-16..=16).map(|k| k as f64 * 5.0).collect();
    lats.extend([49.015003823272, -33.8688, 0.01, -0.003, 12.345678, -79.99, 79.99]);
    if th {
        lats.extend((-79..80).map(|k| k as f64 + 0.37));
    }
    let lons: &[f64] = &[-179.5, -122.4, -77.0365, -8.4342971002335, 0.0, 0.001, 8.4342971002335, 90.0, 151.2093, 179.5];
    let alts: &[f64] = &[0.0, 116.43442534034, -400.25, 4807.8];
    let dist: &[f64] = if th { &[0.0, 0.0004, -0.002, 0.05, -0.05, 1.0, -1.0, 12.5, -37.0, 250.0, -500.0, 1000.0, -1000.0] } else { &[0.0, 0.0004, -0.002, 0.05, -1.0, 37.0, -250.0, 1000.0, -1000.0] };
    let ups: &[f64] = &[0.0, 0.002, 0.25, -0.5, 80.0, -120.0];
    c.tree("displacements", |ch| {
        let lat = *ch.of(&lats);
        let lon = *ch.of(lons);
        let alt = *ch.of(alts);
        let (dx, dy, dz) = (*ch.of(dist), *ch.of(dist), *ch.of(ups));
        let (plat, plon) = per_degree(lat);
        let (lat2, lon2, alt2) = (lat + dy / plat, lon + dx / plon, alt + dz);
        let s = format!("{} {} {} 0 0 0", lat2, lon2, alt2);
        ch.note(|| format!("origin {} {} {}, record {:?}: {} m east, {} m north, {} m up", lat, lon, alt, s, dx, dy, dz));
        let o = Origin::new(lat, lon, alt);
        let (p, _) = sut(|| oxt_reader::read(&mut s.as_bytes(), Some(o)))?.map_err(|e| format!("rejected: {}", e))?;
        let t = p.translation.vector;
        for (i, (d, name)) in [(dx, "east"), (dy, "north"), (dz, "up")].into_iter().enumerate() {
            let g = t[i] as f64;
            if d == 0.0 {
                ensure!(g == 0.0, "{} m {} of the origin, expected 0", g, name);
            } else {
                ensure!((g - d).abs() <= 0.01 * d.abs() + 1e-6, "{} m {} of the origin, expected {}", g, name, d);
            }
        }
        Ok(Obs::new((dx, dy, dz) != (0.0, 0.0, 0.0), (t[0].to_bits(), t[1].to_bits(), t[2].to_bits())))
    });
}

// ---------------------------------------------------------------------------------------------
// K04: the order in which the file system lists a directory is an interposed choice.

mod listing {
    use std::cell::RefCell;

    pub struct Plan {
        /// Permutation of the entries (without "." and ".."); empty: as they come.
        pub order: Vec<usize>,
        /// Fail with this error number before delivering that many entries.
        pub fail: Option<(usize, i32)>,
        pub entries: Option<Vec<Box<libc::dirent64>>>,
        pub next: usize,
        pub delivered: Vec<std::ffi::OsString>,
    }

    thread_local! {
        pub static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
    }

    type Fun = unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64;

    fn real() -> Fun {
        static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        let p = *REAL.get_or_init(|| unsafe { libc::dlsym(libc::RTLD_NEXT, b"readdir64\0".as_ptr() as *const _) as usize });
        assert!(p != 0, "no readdir64");
        unsafe { std::mem::transmute(p) }
    }

    #[no_mangle]
    pub unsafe extern "C" fn readdir64(d: *mut libc::DIR) -> *mut libc::dirent64 {
        let real = real();
        let r = PLAN.try_with(|p| {
            let Ok(mut p) = p.try_borrow_mut() else { return None };
            let p = p.as_mut()?;
            if p.entries.is_none() {
                let mut v: Vec<Box<libc::dirent64>> = vec![];
                loop {
                    let e = unsafe { real(d) };
                    if e.is_null() {
                        break;
                    }
                    let name = unsafe { std::ffi::CStr::from_ptr((*e).d_name.as_ptr()) }.to_bytes();
                    if name != b"." && name != b".." {
                        let mut b: Box<libc::dirent64> = Box::new(unsafe { std::mem::zeroed() });
                        unsafe {
                            b.d_ino = (*e).d_ino;
                            b.d_off = (*e).d_off;
                            b.d_reclen = (*e).d_reclen;
                            b.d_type = (*e).d_type;
                        }
                        for (i, x) in name.iter().enumerate() {
                            b.d_name[i] = *x as _;
                        }
                        v.push(b);
                    }
                }
                // A fixed base order, whatever the file system does.
                v.sort_by(|a, b| a.d_name.cmp(&b.d_name));
                p.entries = Some(v);
            }
            if let Some((k, errno)) = p.fail {
                if p.next == k {
                    return Some(Err(errno));
                }
            }
            let v = p.entries.as_mut().unwrap();
            let k = p.next;
            if k >= v.len() {
                return Some(Ok(std::ptr::null_mut()));
            }
            p.next += 1;
            let i = if p.order.is_empty() { k } else { p.order[k] };
            let e: *mut libc::dirent64 = &mut *v[i];
            use std::os::unix::ffi::OsStringExt;
            let name = unsafe { std::ffi::CStr::from_ptr((*e).d_name.as_ptr()) }.to_bytes().to_vec();
            p.delivered.push(std::ffi::OsString::from_vec(name));
            Some(Ok(e))
        });
        match r {
            Ok(Some(Ok(e))) => e,
            Ok(Some(Err(errno))) => {
                *libc::__errno_location() = errno;
                std::ptr::null_mut()
            }
            _ => real(d),
        }
    }

    /// The end of one listing: another one in the same case sees the same order.
    #[no_mangle]
    pub unsafe extern "C" fn closedir(d: *mut libc::DIR) -> libc::c_int {
        static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
        let p = *REAL.get_or_init(|| unsafe { libc::dlsym(libc::RTLD_NEXT, b"closedir\0".as_ptr() as *const _) as usize });
        assert!(p != 0, "no closedir");
        let _ = PLAN.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                if let Some(p) = p.as_mut() {
                    p.entries = None;
                    p.next = 0;
                }
            }
        });
        let real: unsafe extern "C" fn(*mut libc::DIR) -> libc::c_int = std::mem::transmute(p);
        real(d)
    }

    /// Runs f with the listing planned; returns what was delivered too.
    pub fn with<T>(order: Vec<usize>, fail: Option<(usize, i32)>, f: impl FnOnce() -> T) -> (T, Vec<std::ffi::OsString>) {
        PLAN.with(|p| *p.borrow_mut() = Some(Plan { order, fail, entries: None, next: 0, delivered: vec![] }));
        let r = f();
        let p = PLAN.with(|p| p.borrow_mut().take()).unwrap();
        (r, p.delivered)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Scan,
    Pose,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Broken {
    Short,
    Directory,
    Dangling,
    NotText,
    Empty,
}

struct Dir {
    path: PathBuf,
    names: Vec<Vec<u8>>, // sorted
    kind: Kind,
    contents: Vec<Vec<u8>>, // by sorted position
    broken: Option<(usize, Broken)>,
    fill: Fill,
}

/// What the files of a directory contain.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fill {
    Plain,
    /// The first pose is at 0, 0, 0.
    FromZero,
    /// The first pose is at -0.5, 180, -20.
    Below,
    /// All files are equal.
    Equal,
    /// All files are links to others.
    Linked,
}

fn pose_record(i: usize, fill: Fill) -> Vec<u8> {
    let f = if fill == Fill::Equal { 0.0 } else { i as f64 };
    let o = match fill {
        Fill::FromZero => [0.0, 0.0, 0.0],
        Fill::Below => [-0.5, -179.5, -20.0],
        _ => [49.0, 8.4, 100.0],
    };
    let mut s = format!("{} {} {} {} {} {}", o[0] + f * 0.001, o[1] - f * 0.0002, o[2] + f, 0.01 * f, -0.02 * f, 0.1 + 0.03 * f);
    for k in 0..24 {
        s.push_str(&format!(" {}", k));
    }
    s.push('\n');
    s.into_bytes()
}

fn make_dir(path: PathBuf, names: Vec<Vec<u8>>, kind: Kind, broken: Option<(usize, Broken)>) -> Dir {
    fill_dir(path, names, kind, broken, Fill::Plain)
}

fn fill_dir(path: PathBuf, mut names: Vec<Vec<u8>>, kind: Kind, broken: Option<(usize, Broken)>, fill: Fill) -> Dir {
    names.sort();
    let _ = std::fs::remove_dir_all(&path);
    std::fs::create_dir_all(&path).unwrap();
    let mut contents = vec![];
    let elsewhere = path.with_extension("elsewhere");
    if fill == Fill::Linked {
        let _ = std::fs::remove_dir_all(&elsewhere);
        std::fs::create_dir_all(&elsewhere).unwrap();
    }
    for (i, n) in names.iter().enumerate() {
        let p = path.join(std::ffi::OsString::from_vec(n.clone()));
        let mut data = match kind {
            Kind::Scan if fill == Fill::Equal => scan(2, 1),
            Kind::Scan => scan(1 + i % 3, i + 1),
            Kind::Pose => pose_record(i, fill),
        };
        match broken {
            Some((k, b)) if k == i => match b {
                Broken::Short => {
                    data.truncate(if kind == Kind::Scan { data.len() - 3 } else { 15 });
                    std::fs::write(&p, &data).unwrap();
                }
                Broken::Empty => {
                    data.clear();
                    std::fs::write(&p, &data).unwrap();
                }
                Broken::NotText => {
                    data = vec![0xff; 33];
                    std::fs::write(&p, &data).unwrap();
                }
                Broken::Directory => std::fs::create_dir(&p).unwrap(),
                Broken::Dangling => std::os::unix::fs::symlink(path.join("does/not/exist"), &p).unwrap(),
            },
            _ if fill == Fill::Linked => {
                let q = elsewhere.join(format!("{}", 1000 - i));
                std::fs::write(&q, &data).unwrap();
                std::os::unix::fs::symlink(&q, &p).unwrap();
            }
            _ => std::fs::write(&p, &data).unwrap(),
        }
        contents.push(data);
    }
    Dir { path, names, kind, contents, broken, fill }
}

fn name_of(p: &Path) -> Vec<u8> {
    p.file_name().unwrap().as_bytes().to_vec()
}

fn judge_dir(d: &Dir, order: Vec<usize>, fail: Option<(usize, i32)>, print: bool, ch: &mut Choices) -> Res {
    ch.note(|| {
        format!(
            "{:?} ({:?}) files {:?} listed as {:?} (broken {:?}, listing error {:?}, printing {})",
            d.kind, d.fill,
            d.names.iter().map(|n| String::from_utf8_lossy(n).into_owned()).collect::<Vec<_>>(),
            order, d.broken, fail, print
        )
    });
    let n = d.names.len();
    // The list of files.
    let (r, _) = listing::with(order.clone(), fail, || sut(|| kfs::seq_files_in_dir(&d.path)));
    let r = r?;
    match (&r, fail) {
        (Ok(v), Some(_)) => return Err(format!("the directory could not be listed completely, but {} files were returned", v.len())),
        (Err(e), None) => return Err(format!("the directory could not be listed: {}", e)),
        (Ok(v), None) => {
            let got: Vec<Vec<u8>> = v.iter().map(|p| name_of(p)).collect();
            ensure!(got == d.names, "the files are listed as {:?}, expected {:?}", v, d.names.iter().map(|n| String::from_utf8_lossy(n).into_owned()).collect::<Vec<_>>());
            ensure!(v.iter().all(|p| p.parent() == Some(&d.path)), "paths outside of the directory: {:?}", v);
        }
        _ => {}
    }
    let must_fail = fail.is_some() || d.broken.map(|b| !(b.1 == Broken::Empty && d.kind == Kind::Scan)).unwrap_or(false);
    match d.kind {
        Kind::Scan => {
            let (r, _) = listing::with(order, fail, || sut(|| point_cloud_reader::read_from_dir(&d.path, print)));
            match r? {
                Err(e) => ensure!(must_fail, "reading the directory failed: {}", e),
                Ok(v) => {
                    ensure!(!must_fail, "reading the directory gave {} clouds although it is broken", v.len());
                    ensure!(v.len() == n, "{} files gave {} clouds", n, v.len());
                    for (i, c) in v.into_iter().enumerate() {
                        judge_scan(Ok(c), &d.contents[i]).map_err(|e| format!("cloud {}: {}", i, e))?;
                    }
                }
            }
        }
        Kind::Pose => {
            let (r, _) = listing::with(order, fail, || sut(|| oxt_reader::read_from_dir(&d.path, print)));
            match r? {
                Err(e) => ensure!(must_fail, "reading the directory failed: {}", e),
                Ok(v) => {
                    ensure!(!must_fail, "reading the directory gave {} poses although it is broken", v.len());
                    ensure!(v.len() == n, "{} files gave {} poses", n, v.len());
                    let mut origin = None;
                    for (i, p) in v.into_iter().enumerate() {
                        let path = d.path.join(std::ffi::OsString::from_vec(d.names[i].clone()));
                        let (alone, o) = sut(|| oxt_reader::read_from_file(&path, origin))?.map_err(|e| format!("file {} alone: {}", i, e))?;
                        if i == 0 {
                            origin = Some(o);
                        }
                        ensure!(p == alone, "pose {} is {:?}, the file alone gives {:?} relative to the first file", i, p, alone);
                        // Independent of reading alone: the height tells which file this is.
                        let height = if d.fill == Fill::Equal { 0.0 } else { i as f32 };
                        ensure!((p.translation.vector[2] - height).abs() < 1e-3, "pose {} has the height {} of another file", i, p.translation.vector[2]);
                        let north = height * 111.13;
                        ensure!((p.translation.vector[1] - north).abs() <= 0.02 * north, "pose {} is {} m north of the first, expected {}", i, p.translation.vector[1], north);
                    }
                }
            }
        }
    }
    Ok(Obs::new(n > 1 || must_fail, (n, must_fail, print)))
}

fn permutation(ch: &mut Choices, n: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while rest.len() > 1 {
        let k = ch.int(rest.len());
        out.push(rest.remove(k));
    }
    out.extend(rest);
    out
}

fn k04(c: &mut Check) {
    c.rule("every order of listing (all permutations) of directories of up to six files with several ways of naming them, every position of a broken file and of a listing error, printing on and off; non-trivial if there are two files or a fault");
    c.assume("directories are listed through readdir64 of the C library, which the check interposes; other directory errors are those of real files");
    silence_stdout();
    let th = c.thorough;
    let base = scratch().join("k04");
    let b = |s: &str| s.as_bytes().to_vec();
    let mut sets: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        vec![b("0000000000.bin")],
        (0..2).map(|i| format!("{:010}.txt", i).into_bytes()).collect(),
        (8..12).map(|i| format!("{:010}.bin", i).into_bytes()).collect(),
        // Unpadded numbers: alphabetical, not numerical.
        vec![b("1.bin"), b("10.bin"), b("2.bin"), b("100.bin"), b("9.bin")],
        // Prefixes, case, different extensions and separators.
        vec![b("a"), b("a.b"), b("a-b"), b("ab"), b("B")],
        vec![b("0.txt"), b("00.txt"), b("0.bin"), b("00"), b("000.a.b")],
        // Not UTF-8, hidden, spaces, non-ASCII.
        vec![vec![b'z', 0xff, b'1'], vec![0xfe], b("caf\u{e9}.bin"), b(".hidden"), b("with space")],
        (7..12).map(|i| format!("scan{:03}", i).into_bytes()).collect(),
        // Names that other programs leave behind.
        vec![b("0000000001.bin~"), b(".DS_Store"), b("Thumbs.db"), b("0000000001.bin.bak"), b("#1#")],
        vec![b("timestamps.txt"), b("0000000000.png"), b("README.md"), b("x.swp"), b("a.tmp")],
        vec![b("0.bin"), b("0.bin.gz"), b("0.BIN"), b("0"), b("0.txt")],
        // Not UTF-8, in another order than what is displayed; line breaks and limits.
        vec![vec![0x80, b'b'], vec![0x81, b'a'], vec![0xef, 0xbf, 0xbd], vec![b'a', 0xff, b'1'], vec![b'a', 0xfe, b'2']],
        // Different names that are displayed the same.
        vec![vec![b'a', 0xfe], vec![b'a', 0xff], vec![b'a', 0x80], b("b"), b("a")],
        vec![vec![b'x'; 255], vec![b'x'; 254], b("x\ny"), b("x y"), b("\u{1}")],
    ];
    let fills = [Fill::FromZero, Fill::Below, Fill::Equal, Fill::Linked];
    if th {
        sets.push((5..12).map(|i| format!("{:06}.bin", i * 7).into_bytes()).collect());
        sets.push(vec![b("a"), b("A"), b("a0"), b("a00"), b("a1"), b("_"), b("~")]);
    }
    let mut dirs: Vec<Dir> = vec![];
    for (i, s) in sets.iter().enumerate() {
        for kind in [Kind::Scan, Kind::Pose] {
            dirs.push(make_dir(base.join(format!("order-{}-{:?}", i, kind)), s.clone(), kind, None));
        }
    }
    for fill in fills {
        for n in [1usize, 2, 4] {
            for kind in [Kind::Scan, Kind::Pose] {
                let names = (9..9 + n).map(|i| format!("{:010}.bin", i).into_bytes()).collect();
                dirs.push(fill_dir(base.join(format!("fill-{:?}-{}-{:?}", fill, n, kind)), names, kind, None, fill));
            }
        }
    }
    c.tree("orders", |ch| {
        let d = ch.of(&dirs);
        let order = permutation(ch, d.names.len());
        let print = ch.flag();
        judge_dir(d, order, None, print, ch)
    });
    // Listing errors at every position.
    c.tree("listing-errors", |ch| {
        let d = ch.of(&dirs[..14]);
        let n = d.names.len();
        let at = ch.int(n + 1);
        let errno = *ch.of(&[libc::EIO, libc::ENOENT, libc::EOVERFLOW, libc::EBADF]);
        let order = match ch.int(3) {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => permutation(ch, n.min(4)).into_iter().chain(4.min(n)..n).collect(),
        };
        let print = ch.flag();
        judge_dir(d, order, Some((at, errno)), print, ch)
    });
    // Broken files at every position.
    let mut broken: Vec<Dir> = vec![];
    for (i, s) in sets.iter().enumerate() {
        if s.is_empty() || (i > 7 && !th) {
            continue;
        }
        for kind in [Kind::Scan, Kind::Pose] {
            for what in [Broken::Short, Broken::Directory, Broken::Dangling, Broken::NotText, Broken::Empty] {
                for k in 0..s.len() {
                    broken.push(make_dir(base.join(format!("broken-{}-{:?}-{:?}-{}", i, kind, what, k)), s.clone(), kind, Some((k, what))));
                }
            }
        }
    }
    c.tree("broken-files", |ch| {
        let d = ch.of(&broken);
        let n = d.names.len();
        let order = if n <= 4 {
            permutation(ch, n)
        } else {
            match ch.int(3) {
                0 => (0..n).collect(),
                1 => (0..n).rev().collect(),
                _ => (0..n).map(|i| (i * 2 + 1) % n).collect(),
            }
        };
        let print = ch.flag();
        judge_dir(d, order, None, print, ch)
    });
    // Many files, in structured orders.
    let mut many: Vec<Dir> = vec![];
    for n in [9usize, 10, 11, 16, 99, 101, 250, 1025] {
        if n > 300 && !th {
            continue;
        }
        for kind in [Kind::Scan, Kind::Pose] {
            for pad in [1usize, 10] {
                let names = (0..n).map(|i| format!("{:0w$}.bin", i, w = pad).into_bytes()).collect();
                many.push(make_dir(base.join(format!("many-{}-{:?}-{}", n, kind, pad)), names, kind, None));
            }
        }
    }
    c.tree("many-files", |ch| {
        let d = ch.of(&many);
        let n = d.names.len();
        let shift = *ch.of(&[0usize, 1, n / 2, n - 1]);
        let order: Vec<usize> = match ch.int(5) {
            0 => (0..n).map(|i| (i + shift) % n).collect(),
            1 => (0..n).rev().map(|i| (i + shift) % n).collect(),
            2 => (0..n).step_by(2).chain((1..n).step_by(2)).map(|i| (i + shift) % n).collect(),
            3 => (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).map(|i| (i + shift) % n).collect(),
            // One pair exchanged in an otherwise sorted listing.
            _ => {
                let mut v: Vec<usize> = (0..n).collect();
                v.swap(shift, (shift + 1 + ch.int(3)) % n);
                v
            }
        };
        let print = ch.flag();
        judge_dir(d, order, None, print, ch)
    });
    // Directories of thousands of files.
    let mut huge: Vec<Dir> = vec![];
    for n in [1025usize, 4097, 10_001] {
        for kind in [Kind::Scan, Kind::Pose] {
            let names = (0..n).map(|i| format!("{:010}.bin", i).into_bytes()).collect();
            huge.push(make_dir(base.join(format!("huge-{}-{:?}", n, kind)), names, kind, None));
        }
    }
    c.tree("huge-directories", |ch| {
        let d = ch.of(&huge);
        let n = d.names.len();
        let order = if ch.flag() { (0..n).rev().collect() } else { (0..n).map(|i| (i * 7919 + 3) % n).collect() };
        judge_dir(d, order, None, ch.flag(), ch)
    });
    // No directory at all.
    let file = base.join("a-file");
    std::fs::write(&file, b"x").unwrap();
    c.tree("no-directory", |ch| {
        let p = ch.of(&[base.join("missing"), file.clone(), file.join("below")]).clone();
        let print = ch.flag();
        ch.note(|| format!("{:?}", p));
        ensure!(sut(|| kfs::seq_files_in_dir(&p))?.is_err(), "{:?} was listed", p);
        ensure!(sut(|| point_cloud_reader::read_from_dir(&p, print))?.is_err(), "{:?} was read as scans", p);
        ensure!(sut(|| oxt_reader::read_from_dir(&p, print))?.is_err(), "{:?} was read as poses", p);
        Ok(Obs::new(true, print))
    });
    // The interposition is alive: a planned order is what an ordinary listing sees.
    c.tree("interposition", |ch| {
        let d = &dirs[8];
        let order = permutation(ch, d.names.len());
        ch.note(|| format!("{:?}", order));
        let (seen, _) = listing::with(order.clone(), None, || {
            std::fs::read_dir(&d.path).unwrap().map(|e| e.unwrap().file_name().into_vec()).collect::<Vec<_>>()
        });
        let want: Vec<Vec<u8>> = order.iter().map(|i| d.names[*i].clone()).collect();
        assert!(seen == want, "the interposed listing is not in effect: {:?} {:?}", seen, want);
        Ok(Obs::new(true, 0))
    });
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let level = if id == "K03" { "exploration" } else { "fault_enumeration" };
    let c = Check::new(&id, level);
    let name = id.clone();
    c.run(|c| match name.as_str() {
        "K01" => k01(c),
        "K02" => k02(c),
        "K03" => k03(c),
        "K04" => k04(c),
        _ => panic!("unknown property {}", id),
    })
}
