//! Simulated audio source, lossy transport and receiver.
use crate::gen::{Gen, Rng};
use serde::{Deserialize, Serialize};

pub const RATES: [u32; 8] = [8000, 11025, 16000, 22050, 44100, 48000, 32000, 96000];
const MAJ: [f32; 3] = [0.0, 4.0, 7.0];
const MIN: [f32; 3] = [0.0, 3.0, 7.0];

pub fn tone(out: &mut [f32], sr: f32, hz: f32, amp: f32) {
    let w = std::f32::consts::TAU * hz / sr;
    let (mut s, mut c) = (0.0f32, 1.0f32);
    let (ds, dc) = w.sin_cos();
    for (i, o) in out.iter_mut().enumerate() {
        *o += amp * s;
        let ns = s * dc + c * ds;
        c = c * dc - s * ds;
        s = ns;
        if i & 255 == 255 {
            let k = 1.0 / (s * s + c * c).sqrt();
            s *= k;
            c *= k;
        }
    }
}
pub fn hits(out: &mut [f32], sr: f32, bpm: f32, phase: f32, amp: f32, decay: f32, hz: f32, noise: f32, r: &mut Rng) {
    let step = 60.0 / bpm;
    let mut t = phase;
    let len = (sr * decay * 5.0) as usize;
    while ((t * sr) as usize) < out.len() {
        let s = (t * sr) as usize;
        let w = std::f32::consts::TAU * hz / sr;
        for i in 0..len.min(out.len() - s) {
            let e = (-(i as f32) / (sr * decay)).exp();
            out[s + i] += amp * e * ((w * i as f32).sin() * (1.0 - noise) + noise * r.s());
        }
        t += step;
    }
}
pub fn chord(out: &mut [f32], sr: f32, root: f32, minor: bool, amp: f32) {
    for d in if minor { MIN } else { MAJ } {
        let f = 220.0 * 2f32.powf((root + d) / 12.0);
        if f < sr * 0.45 {
            tone(out, sr, f, amp);
        }
        if f * 2.0 < sr * 0.45 {
            tone(out, sr, f * 2.0, amp * 0.4);
        }
    }
}
pub fn synth(kind: usize, sr: u32, n: usize, bpm: f32, root: u32, minor: bool, seed: u64) -> Vec<f32> {
    let mut o = vec![0.0f32; n];
    let mut r = Rng::new(seed);
    let f = sr as f32;
    match kind {
        0 => hits(&mut o, f, bpm, 0.1, 0.8, 0.01, 1000.0f32.min(f * 0.2), 0.5, &mut r),
        1 => {
            hits(&mut o, f, bpm, 0.05, 0.7, 0.06, 60.0, 0.05, &mut r);
            hits(&mut o, f, bpm, 0.05 + 30.0 / bpm, 0.25, 0.015, f * 0.3, 0.9, &mut r);
            let bar = ((240.0 / bpm) * f) as usize;
            let prog = [0.0, 5.0, 7.0, 0.0];
            let mut i = 0;
            while i * bar < n && bar > 0 {
                let e = ((i + 1) * bar).min(n);
                chord(&mut o[i * bar..e], f, root as f32 + prog[i % 4], minor, 0.08);
                i += 1;
            }
        }
        2 => chord(&mut o, f, root as f32, minor, 0.2),
        3 => o.iter_mut().for_each(|x| *x = 0.5 * r.s()),
        4 => tone(&mut o, f, 110.0 * 2f32.powf(root as f32 / 12.0), 0.6),
        5 => {}
        6 => {
            let a = n / 4;
            let b = n - n / 5;
            let mut m = synth(1, sr, b - a, bpm, root, minor, seed);
            o[a..b].swap_with_slice(&mut m);
        }
        7 => {
            let h = n / 2;
            let a = synth(1, sr, h, bpm, root, minor, seed);
            let b = synth(1, sr, n - h, bpm * 1.12, root, minor, seed ^ 1);
            o[..h].copy_from_slice(&a);
            o[h..].copy_from_slice(&b);
        }
        8 => o.iter_mut().for_each(|x| *x = 0.3),
        9 => {
            for _ in 0..(n / 2000 + 2) {
                let i = r.below(n.max(1) as u64) as usize;
                if i < n {
                    o[i] = 0.9;
                }
            }
        }
        10 => {
            let mut ph = 0.0f32;
            for (i, x) in o.iter_mut().enumerate() {
                ph += std::f32::consts::TAU * (80.0 + 2000.0 * i as f32 / n as f32) / f;
                if ph > 1000.0 {
                    ph -= std::f32::consts::TAU * 100.0;
                }
                *x = 0.5 * ph.sin();
            }
        }
        11 => o.iter_mut().for_each(|x| *x = 0.0005 * r.s()),
        12 => {
            // swung drums over a drone
            hits(&mut o, f, bpm, 0.02, 0.6, 0.05, 70.0, 0.1, &mut r);
            hits(&mut o, f, bpm, 0.02 + 40.0 / bpm, 0.4, 0.02, f * 0.25, 0.8, &mut r);
            tone(&mut o, f, 110.0 * 2f32.powf(root as f32 / 12.0), 0.15);
        }
        _ => {
            // noisy mix
            let a = synth(1, sr, n, bpm, root, minor, seed);
            for (x, y) in o.iter_mut().zip(a) {
                *x = y * 0.7 + 0.15 * r.s();
            }
        }
    }
    o
}

pub fn tempo(g: &Gen, p: &str) -> f32 {
    g.pick(&format!("{p}bpm"), &[120.0f32, 90.0, 128.0, 174.0, 70.0, 100.0, 140.0, 60.0, 200.0]) + g.f(&format!("{p}bpmf"), 0.0, 3.0)
}
/// Draws a signal; `max` bounds its length in samples.
pub fn draw(g: &Gen, p: &str, max: usize) -> (Vec<f32>, u32) {
    let sr = g.pick(&format!("{p}sr"), &RATES);
    let kind = g.pick(&format!("{p}kind"), &[1usize, 0, 2, 1, 1, 12, 13, 6, 7, 3, 4, 9, 10, 5, 8, 11]);
    let n = match g.pick(&format!("{p}len"), &[2usize, 1, 2, 2, 3, 3, 0]) {
        0 => g.range(&format!("{p}n0"), 1, 3000),
        1 => g.range(&format!("{p}n1"), 3000, 12000),
        2 => g.range(&format!("{p}n2"), 12000, 40000),
        _ => g.range(&format!("{p}n3"), 40000, 90000),
    }
    .min(max);
    // a whole track, when the scenario asks for one
    let n = match g.over.get("big") {
        Some(k) => *k as usize,
        _ => n,
    };
    let bpm = tempo(g, p);
    let root = g.range(&format!("{p}root"), 0, 11) as u32;
    let minor = g.chance(&format!("{p}minor"), 1, 2);
    let mut v = synth(kind, sr, n, bpm, root, minor, g.raw(&format!("{p}seed")));
    // mastering: as it is, quieter, or compressed until the crest is that of a commercial record
    match g.pick(&format!("{p}master"), &[0usize, 0, 0, 1, 2, 2, 3]) {
        1 => v.iter_mut().for_each(|x| *x *= 0.08),
        2 => v.iter_mut().for_each(|x| *x = (4.0 * *x).clamp(-0.9, 0.9)),
        3 => v.iter_mut().for_each(|x| *x = 0.12 * (8.0 * *x).clamp(-1.0, 1.0)),
        _ => {}
    }
    (v, sr)
}

/// One fault of the path between recording and library. Positions are in packets of `PKT` samples or in samples.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "k")]
pub enum Damage {
    Drop { pkt: usize, n: usize },
    Silence { pkt: usize, n: usize },
    Dup { pkt: usize },
    Swap { a: usize, b: usize },
    Truncate { at: usize },
    Flip { at: usize, bit: u32 },
    Set { at: usize, n: usize, bits: u32 },
    Hold { at: usize, n: usize },
    Clip { at: usize, n: usize, gain: f32 },
    Dc { at: usize, n: usize, off: f32 },
    ByteShift { at: usize, by: usize },
    Endian { at: usize, n: usize },
    Rate { sr: u32 },
    Noise { at: usize, n: usize, seed: u64, amp: f32 },
}
pub const PKT: usize = 480;

impl Damage {
    pub fn kind(&self) -> &'static str {
        match self {
            Damage::Drop { .. } => "packet_loss",
            Damage::Silence { .. } => "packet_loss_concealed",
            Damage::Dup { .. } => "packet_duplicate",
            Damage::Swap { .. } => "packet_reorder",
            Damage::Truncate { .. } => "truncation",
            Damage::Flip { .. } => "bit_flip",
            Damage::Set { bits, .. } => {
                let f = f32::from_bits(*bits);
                if f.is_nan() {
                    "nan_samples"
                } else if f.is_infinite() {
                    "inf_samples"
                } else {
                    "extreme_samples"
                }
            }
            Damage::Hold { .. } => "stuck_samples",
            Damage::Clip { .. } => "gain_fault",
            Damage::Dc { .. } => "dc_offset",
            Damage::ByteShift { .. } => "byte_misalignment",
            Damage::Endian { .. } => "byte_order",
            Damage::Rate { .. } => "rate_mislabel",
            Damage::Noise { .. } => "noise_burst",
        }
    }
}
/// Delivers `pcm` through the damaged path.
pub fn deliver(mut pcm: Vec<f32>, mut sr: u32, dmg: &[Damage]) -> (Vec<f32>, u32) {
    for d in dmg {
        let len = pcm.len();
        let clampr = |at: usize, n: usize| -> std::ops::Range<usize> {
            if len == 0 {
                return 0..0;
            }
            let a = at % len;
            a..(a + n).min(len)
        };
        let npk = len.div_ceil(PKT).max(1);
        let pk = |p: usize, n: usize| -> std::ops::Range<usize> {
            let a = (p % npk) * PKT;
            a.min(len)..(a + n * PKT).min(len)
        };
        match d {
            Damage::Drop { pkt, n } => {
                pcm.drain(pk(*pkt, *n));
            }
            Damage::Silence { pkt, n } => pcm[pk(*pkt, *n)].iter_mut().for_each(|x| *x = 0.0),
            Damage::Dup { pkt } => {
                let r = pk(*pkt, 1);
                let c: Vec<f32> = pcm[r.clone()].to_vec();
                let e = r.end;
                pcm.splice(e..e, c);
            }
            Damage::Swap { a, b } => {
                let (ra, rb) = (pk(*a, 1), pk(*b, 1));
                if ra.len() == rb.len() && ra.start != rb.start {
                    for i in 0..ra.len() {
                        pcm.swap(ra.start + i, rb.start + i);
                    }
                }
            }
            Damage::Truncate { at } => pcm.truncate(at % (len + 1)),
            Damage::Flip { at, bit } => {
                for i in clampr(*at, 1) {
                    pcm[i] = f32::from_bits(pcm[i].to_bits() ^ (1 << (bit % 32)));
                }
            }
            Damage::Set { at, n, bits } => {
                for i in clampr(*at, *n) {
                    pcm[i] = f32::from_bits(*bits);
                }
            }
            Damage::Hold { at, n } => {
                let r = clampr(*at, *n);
                if !r.is_empty() {
                    let v = pcm[r.start];
                    pcm[r].iter_mut().for_each(|x| *x = v);
                }
            }
            Damage::Clip { at, n, gain } => pcm[clampr(*at, *n)].iter_mut().for_each(|x| *x *= *gain),
            Damage::Dc { at, n, off } => pcm[clampr(*at, *n)].iter_mut().for_each(|x| *x += *off),
            Damage::ByteShift { at, by } => {
                let r = clampr(*at, usize::MAX / 2);
                let mut bytes: Vec<u8> = pcm[r.clone()].iter().flat_map(|x| x.to_le_bytes()).collect();
                let k = (by % 3) + 1;
                if bytes.len() > 4 {
                    bytes.drain(..k);
                    let v: Vec<f32> = bytes.chunks_exact(4).map(|c| f32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                    pcm.splice(r, v);
                }
            }
            Damage::Endian { at, n } => {
                for i in clampr(*at, *n) {
                    pcm[i] = f32::from_bits(pcm[i].to_bits().swap_bytes());
                }
            }
            Damage::Rate { sr: s } => sr = *s,
            Damage::Noise { at, n, seed, amp } => {
                let mut r = Rng::new(*seed);
                for i in clampr(*at, *n) {
                    pcm[i] += amp * r.s();
                }
            }
        }
    }
    (pcm, sr)
}
const EXTREME: [u32; 14] = [
    0x7fc00000, 0xffc00000, 0x7f800000, 0xff800000, 0x7f7fffff, 0xff7fffff, 0x00000001, 0x80000000, 0x7f000000, 0x5f000000, 0x0d000000, 0x49742400, 0x7fa00001, 0x60ad78ec,
];
/// Draws one transport/storage fault for a stream of `len` samples.
pub fn draw_damage(r: &mut Rng, len: usize, mask: u32) -> Damage {
    let l = len.max(1) as u64;
    loop {
        let k = r.below(14) as u32;
        if mask & (1 << k) == 0 {
            continue;
        }
        let pk = (l / PKT as u64).max(1);
        return match k {
            0 => Damage::Drop { pkt: r.below(pk) as usize, n: r.log(pk) as usize },
            1 => Damage::Silence { pkt: r.below(pk) as usize, n: r.log(pk) as usize },
            2 => Damage::Dup { pkt: r.below(pk) as usize },
            3 => Damage::Swap { a: r.below(pk) as usize, b: r.below(pk) as usize },
            4 => {
                let t = r.log(l + 1) as usize;
                Damage::Truncate { at: if r.chance(1, 4) { t } else { r.below(l) as usize } }
            }
            5 => Damage::Flip { at: r.below(l) as usize, bit: if r.chance(1, 2) { 30 } else { r.below(32) as u32 } },
            6 => Damage::Set { at: r.below(l) as usize, n: if r.chance(1, 10) { len * 2 } else { r.log(l) as usize }, bits: r.pick(&EXTREME) },
            7 => Damage::Hold { at: r.below(l) as usize, n: r.log(l) as usize },
            8 => {
                let g = r.pick(&[1e3f32, 1e-3, 0.0, 1e10, 1e20, 1e30, 1e38, 1e-20, 1e-38, -1.0, f32::MAX]);
                if r.chance(1, 2) {
                    Damage::Clip { at: 0, n: len * 2, gain: g }
                } else {
                    Damage::Clip { at: r.below(l) as usize, n: r.log(l) as usize, gain: g }
                }
            }
            9 => Damage::Dc { at: r.below(l) as usize, n: r.log(l) as usize, off: r.pick(&[0.5f32, -1.0, 1e3, 1e15, -3e38]) },
            10 => Damage::ByteShift { at: r.below(l) as usize, by: r.below(3) as usize },
            11 => Damage::Endian { at: r.below(l) as usize, n: r.log(l) as usize },
            12 => Damage::Rate { sr: r.pick(&[8000u32, 96000, 192000, 44100, 1, 2, 11, 100, 1000, 4000, 384000, 1_000_000, u32::MAX, 0]) },
            _ => Damage::Noise { at: r.below(l) as usize, n: r.log(l) as usize, seed: r.u(), amp: r.pick(&[0.05f32, 1.0, 100.0]) },
        };
    }
}
