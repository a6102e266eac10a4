//! Shared alphabets.

pub fn up(x: f32) -> f32 {
    x.next_up()
}
pub fn down(x: f32) -> f32 {
    x.next_down()
}

/// All intervals (a <= b) with ends among the given values.
pub fn intervals(ends: &[f32]) -> Vec<(f32, f32)> {
    let mut v = vec![];
    for (i, a) in ends.iter().enumerate() {
        for b in &ends[i..] {
            v.push((*a, *b));
        }
    }
    v
}
