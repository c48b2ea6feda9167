#!/usr/bin/env python3
"""Writes harness/src/table.rs: the component groups the monitors use."""
import random
K = """ByteC HalfC WordC DropC BoxC StringC MarkC MarkDropC MarkAlignC Align64C Align256C PaddedC Big300C
Big40kC TwelveC ThreeC SevenC VecC ArcC Align4096C TokenC PairC QuadC MarkWideC HugeC Align32kC""".split()
HEAVY = {"Big40kC", "Align4096C", "HugeC", "Align32kC"}
light = [k for k in K if k not in HEAVY]
r = random.Random(20260101)
groups = [(k,) for k in K]
# Pairs, both orders.
pairs = []
pool = light[:]
r.shuffle(pool)
for i in range(0, len(pool) - 1, 2):
    pairs.append((pool[i], pool[i + 1]))
pairs += [("TokenC", "DropC"), ("BoxC", "ByteC"), ("Big40kC", "TokenC"), ("Align4096C", "ThreeC")]
for p in pairs:
    groups += [p, p[::-1]]
groups += [("TokenC", "BoxC"), ("MarkDropC", "TokenC"), ("HugeC", "Align32kC")]
# A chain of nested sets, so sub- and superset relations are common.
chain = ["TokenC", "BoxC", "PairC", "MarkDropC", "StringC", "ByteC", "QuadC", "HalfC", "VecC", "PaddedC",
         "Big300C", "WordC", "ArcC", "MarkC"]
for n in range(3, 15):
    base = chain[:n]
    for _ in range(2 if n < 14 else 3):
        g = base[:]
        r.shuffle(g)
        groups.append(tuple(g))
for n in (3, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 14):
    s = r.sample(light, n)
    groups.append(tuple(s))
    g = s[:]
    r.shuffle(g)
    groups.append(tuple(g))
# fully sorted and reversed by position in the table
groups.append(tuple(sorted(chain)))
groups.append(tuple(sorted(chain, reverse=True)))
# Malformed: a component is named more than once.
bad = [("TokenC", "TokenC"), ("BoxC", "BoxC"), ("ByteC", "ByteC"), ("MarkDropC", "MarkDropC"), ("MarkC", "MarkC"),
       ("WordC", "WordC"), ("TokenC", "BoxC", "TokenC"), ("BoxC", "TokenC", "TokenC"), ("TokenC", "TokenC", "BoxC"),
       ("StringC", "StringC", "StringC"), ("QuadC", "TokenC", "BoxC", "QuadC"), ("ByteC", "HalfC", "WordC", "HalfC", "DropC"),
       tuple(chain[:12] + [chain[0]]), tuple([chain[3]] + chain[:13]), tuple(["TokenC"] * 14), tuple(chain[:13] + [chain[12]]),
       tuple(["Align64C"] + chain[:5] + ["Align64C"])]
seen, out = set(), []
for g in groups + bad:
    if g not in seen:
        seen.add(g)
        out.append(g)
ty = lambda g: g[0] if len(g) == 1 else "(" + ", ".join(g) + ")"
body = ",\n".join('            (%s, "%s")' % (ty(g), "+".join(g)) for g in out)
open("/verif/harness/src/table.rs", "w").write("""//! Generated by tools/gen_groups.py.
use crate::kinds::*;
use crate::vt::{group_vt, GroupVt};

/// Calls a macro with all groups of the table. The last %d are malformed.
#[macro_export]
macro_rules! for_all_groups {
    ($m:ident) => {
        $m!(
%s
        )
    };
}

macro_rules! group_list {
    ($(($g:ty, $n:expr)),*) => { vec![$(group_vt::<$g>($n)),*] };
}

pub fn groups() -> Vec<GroupVt> {
    for_all_groups!(group_list)
}
""" % (len(bad), body))
print(len(out), "groups")
