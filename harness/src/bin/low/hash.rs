//! C19: identifiers and hashes against an independent reference.

use harness::prng::Rng;
use harness::runner::*;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::fnv1a::*;
use shard_ecs::{Component, ComponentTypeId};
use std::hint::black_box;

/// FNV-1a by its definition, in arithmetic modulo 2^bits on wide integers.
fn reference(bytes: &[u8], bits: u32) -> u64 {
    let (basis, prime): (u128, u128) = if bits == 32 { (2_166_136_261, 16_777_619) } else { (14_695_981_039_346_656_037, 1_099_511_628_211) };
    let modulus = 1u128 << bits;
    bytes.iter().fold(basis, |h, b| (h ^ *b as u128) * prime % modulus) as u64
}

fn fold(h: u64) -> u16 {
    (h / 65_536) as u16 ^ (h % 65_536) as u16
}

fn prefix(b: &[u8], limit: Option<usize>) -> &[u8] {
    match limit {
        Some(n) if n > 0 && n <= b.len() => &b[..n],
        _ => b,
    }
}

macro_rules! named {
    ($($t:ident $size:tt $name:expr;)*) => {
        $(
            #[allow(dead_code)]
            pub struct $t([u8; $size]);
            impl Component for $t {
                const NAME: &'static str = $name;
            }
        )*
        /// (name, identifier evaluated at compile time, in the component descriptor, in the group descriptor, size)
        static NAMED: &[(&str, u16, u16, u16, usize, u16, u16)] = &[$({
            const ID: ComponentTypeId = <$t as Component>::ID;
            const HASH: u16 = fnv1a_hash_str_16_xor($name);
            const DESC: u16 = <$t as Component>::DESCRIPTOR.component_type_id().into_u16();
            const SIZE: u16 = <$t as Component>::DESCRIPTOR.size();
            const GROUP: u16 = unsafe { <$t as ComponentGroup>::DESCRIPTOR.archetype().components_unchecked()[0].component_type_id().into_u16() };
            ($name, ID.into_u16(), DESC, GROUP, $size, HASH, SIZE)
        }),*];
    };
}

named! {
    N0 1 ""; N1 2 "a"; N2 3 "A"; N3 4 "b"; N4 0 "Position"; N5 8 "Velocity"; N6 12 "Rotation"; N7 5 "position";
    N8 6 "Component"; N9 7 "my_crate::physics::RigidBody"; N10 1 "Transform3D"; N11 1 " "; N12 1 "  "; N13 1 "\0";
    N14 1 "\0\0"; N15 1 "a\0"; N16 1 "\u{e9}"; N17 1 "\u{1F980}"; N18 1 "\u{7f}"; N19 1 "\u{80}"; N20 1 "\u{ffff}";
    N21 1 "\u{10ffff}"; N22 1 "ab"; N23 1 "ba"; N24 1 "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa";
    N25 1 "Health"; N26 1 "Mana"; N27 1 "AI"; N28 1 "Ai"; N29 1 "aI"; N30 1 "Sprite<0>"; N31 1 "Sprite<1>";
    N32 1 "0"; N33 1 "00"; N34 1 "123456789"; N35 1 "foobar"; N36 1 "The quick brown fox jumps over the lazy dog"; N37 1 "\n\r\t";
    N38 1 "Stra\u{df}e"; N39 1 "\u{4f60}\u{597d}"; N40 1 "x"; N41 1 "y"; N42 1 "z"; N43 1 "Child"; N44 1 "Parent"; N45 1 "Camera"; N46 1 "Light";
    N47 65535 "Large"; N48 1 "Inventory"; N49 1 "Timer";
}

pub struct Overridden(#[allow(dead_code)] [u8; 9]);
impl Component for Overridden {
    const NAME: &'static str = "Overridden";
    const ID: ComponentTypeId = ComponentTypeId::from_u16(0x1357);
}

/// Identifiers recorded once and for all: they must not depend on build or run.
const GOLDEN: &[(&str, u32, u64)] = &[
    ("", 0x811c9dc5, 0xcbf29ce484222325),
    ("a", 0xe40c292c, 0xaf63dc4c8601ec8c),
    ("b", 0xe70c2de5, 0xaf63df4c8601f1a5),
    ("foobar", 0xbf9cf968, 0x85944171f73967e8),
];

fn check(c: &mut Ctx, b: &[u8], limit: Option<usize>, class: u64) {
    let used = prefix(b, limit);
    let (w32, w64) = (reference(used, 32), reference(used, 64));
    let lk = match limit {
        None => 0,
        Some(0) => 1,
        Some(n) if n < b.len() => 2,
        Some(n) if n == b.len() => 3,
        Some(usize::MAX) => 5,
        _ => 4,
    };
    let sig = class << 40 | lk << 32 | (64 - (b.len() as u64).leading_zeros() as u64) << 16 | (used.len() as u64).min(300);
    let shown = |b: &[u8]| format!("{:02x?}{} (limit {:?})", &b[..b.len().min(24)], if b.len() > 24 { format!(".. {} bytes", b.len()) } else { String::new() }, limit);
    let g = fnv1a_hash_32(black_box(b), black_box(limit));
    c.expect(g as u64 == w32, sig | 1 << 60, || format!("fnv1a_hash_32({}) = {:#x}, reference {:#x}", shown(b), g, w32));
    let g = fnv1a_hash_64(black_box(b), black_box(limit));
    c.expect(g == w64, sig | 2 << 60, || format!("fnv1a_hash_64({}) = {:#x}, reference {:#x}", shown(b), g, w64));
    let g = fnv1a_hash_16_xor(black_box(b), black_box(limit));
    c.expect(g == fold(w32), sig | 3 << 60, || format!("fnv1a_hash_16_xor({}) = {:#x}, reference {:#x}", shown(b), g, fold(w32)));
    if limit.is_none() {
        if let Ok(s) = std::str::from_utf8(b) {
            let g = fnv1a_hash_str_32(black_box(s));
            c.expect(g as u64 == w32, sig | 4 << 60, || format!("fnv1a_hash_str_32({:?}) = {:#x}, reference {:#x}", s, g, w32));
            let g = fnv1a_hash_str_64(black_box(s));
            c.expect(g == w64, sig | 5 << 60, || format!("fnv1a_hash_str_64({:?}) = {:#x}, reference {:#x}", s, g, w64));
            let g = fnv1a_hash_str_16_xor(black_box(s));
            c.expect(g == fold(w32), sig | 6 << 60, || format!("fnv1a_hash_str_16_xor({:?}) = {:#x}, reference {:#x}", s, g, fold(w32)));
        }
    }
    c.count("bytes_hashed", b.len() as u64);
}

pub fn run(c: &mut Ctx, r: &mut Rng) {
    c.op(1);
    for (s, w32, w64) in GOLDEN {
        assert!(reference(s.as_bytes(), 32) == *w32 as u64 && reference(s.as_bytes(), 64) == *w64, "the reference itself is wrong");
        check(c, s.as_bytes(), None, 1);
    }
    c.op(2);
    for (i, (name, id, desc, group, size, hash, dsize)) in NAMED.iter().enumerate() {
        let want = fold(reference(name.as_bytes(), 32));
        let late = fnv1a_hash_str_16_xor(black_box(name));
        c.expect(*id == want && *hash == want && late == want, 2 << 40 | i as u64, || {
            format!("identifier of component {:?}: {:#x} (constant), {:#x} (hash at compile time), {:#x} (hash at run time), reference {:#x}", name, id, hash, late, want)
        });
        c.expect(*desc == want && *group == want, 3 << 40 | i as u64, || format!("descriptors of component {:?} carry {:#x} and {:#x}, not {:#x}", name, desc, group, want));
        c.expect(*dsize as usize == *size, 4 << 40 | i as u64, || format!("descriptor of component {:?} says {} bytes, the type has {}", name, dsize, size));
    }
    c.expect(
        Overridden::ID.into_u16() == 0x1357 && <Overridden as Component>::DESCRIPTOR.component_type_id().into_u16() == 0x1357,
        5 << 40,
        || "an overridden identifier is not used".into(),
    );
    c.log(|| format!("{} named components, golden vectors", NAMED.len()));
    c.op(3);
    let (a, b) = (r.below(256) as u8, r.below(256) as u8);
    for x in 0..=255u8 {
        check(c, &[x], None, 6);
        check(c, &[a, x], Some(1), 6);
        check(c, &[a, x], None, 6);
        check(c, &[a, b, x], None, 6);
    }
    c.log(|| format!("all one-byte strings, all strings {:02x}xx, {:02x}{:02x}xx", a, a, b));
    let n = if c.scale == Scale::Tiny { 20 } else { 400 };
    for k in 0..n {
        c.op(4);
        let max = if k == 0 && c.scale != Scale::Tiny { 1 << 18 } else { 600 };
        let len = if r.chance(1, 8) { 0 } else { r.log(max) as usize };
        let style = r.below(5);
        let mut v: Vec<u8> = (0..len)
            .map(|i| match style {
                0 => r.next() as u8,
                1 => 0,
                2 => 0xff,
                3 => b'a' + (r.below(26)) as u8,
                _ => (i as u8).wrapping_mul(37),
            })
            .collect();
        if style == 4 && len > 4 {
            // Text of several scripts.
            v = "h\u{e9}llo w\u{f6}rld \u{4f60}\u{597d} \u{1F980}".chars().cycle().skip(r.index(20)).take(len).collect::<String>().into_bytes();
        }
        let l = v.len();
        check(c, &v, None, 10 + style);
        for limit in [0, 1, 2, l / 2, l.saturating_sub(1), l, l + 1, l * 2 + 7, usize::MAX, r.index(l + 3)] {
            check(c, &v, Some(limit), 10 + style);
        }
    }
    c.log(|| format!("{} random strings with 11 limits each", n));
}
