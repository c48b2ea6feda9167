//! Generated by tools/gen_groups.py.
use crate::kinds::*;
use crate::vt::{group_vt, GroupVt};

/// Calls a macro with all groups of the table. The last 17 are malformed.
#[macro_export]
macro_rules! for_all_groups {
    ($m:ident) => {
        $m!(
            (ByteC, "ByteC"),
            (HalfC, "HalfC"),
            (WordC, "WordC"),
            (DropC, "DropC"),
            (BoxC, "BoxC"),
            (StringC, "StringC"),
            (MarkC, "MarkC"),
            (MarkDropC, "MarkDropC"),
            (MarkAlignC, "MarkAlignC"),
            (Align64C, "Align64C"),
            (Align256C, "Align256C"),
            (PaddedC, "PaddedC"),
            (Big300C, "Big300C"),
            (Big40kC, "Big40kC"),
            (TwelveC, "TwelveC"),
            (ThreeC, "ThreeC"),
            (SevenC, "SevenC"),
            (VecC, "VecC"),
            (ArcC, "ArcC"),
            (Align4096C, "Align4096C"),
            (TokenC, "TokenC"),
            (PairC, "PairC"),
            (QuadC, "QuadC"),
            (MarkWideC, "MarkWideC"),
            (HugeC, "HugeC"),
            (Align32kC, "Align32kC"),
            ((ArcC, PairC), "ArcC+PairC"),
            ((PairC, ArcC), "PairC+ArcC"),
            ((StringC, MarkC), "StringC+MarkC"),
            ((MarkC, StringC), "MarkC+StringC"),
            ((SevenC, Align256C), "SevenC+Align256C"),
            ((Align256C, SevenC), "Align256C+SevenC"),
            ((MarkDropC, ThreeC), "MarkDropC+ThreeC"),
            ((ThreeC, MarkDropC), "ThreeC+MarkDropC"),
            ((BoxC, TwelveC), "BoxC+TwelveC"),
            ((TwelveC, BoxC), "TwelveC+BoxC"),
            ((VecC, MarkAlignC), "VecC+MarkAlignC"),
            ((MarkAlignC, VecC), "MarkAlignC+VecC"),
            ((WordC, TokenC), "WordC+TokenC"),
            ((TokenC, WordC), "TokenC+WordC"),
            ((PaddedC, Big300C), "PaddedC+Big300C"),
            ((Big300C, PaddedC), "Big300C+PaddedC"),
            ((MarkWideC, DropC), "MarkWideC+DropC"),
            ((DropC, MarkWideC), "DropC+MarkWideC"),
            ((QuadC, Align64C), "QuadC+Align64C"),
            ((Align64C, QuadC), "Align64C+QuadC"),
            ((ByteC, HalfC), "ByteC+HalfC"),
            ((HalfC, ByteC), "HalfC+ByteC"),
            ((TokenC, DropC), "TokenC+DropC"),
            ((DropC, TokenC), "DropC+TokenC"),
            ((BoxC, ByteC), "BoxC+ByteC"),
            ((ByteC, BoxC), "ByteC+BoxC"),
            ((Big40kC, TokenC), "Big40kC+TokenC"),
            ((TokenC, Big40kC), "TokenC+Big40kC"),
            ((Align4096C, ThreeC), "Align4096C+ThreeC"),
            ((ThreeC, Align4096C), "ThreeC+Align4096C"),
            ((TokenC, BoxC), "TokenC+BoxC"),
            ((MarkDropC, TokenC), "MarkDropC+TokenC"),
            ((HugeC, Align32kC), "HugeC+Align32kC"),
            ((TokenC, PairC, BoxC), "TokenC+PairC+BoxC"),
            ((TokenC, BoxC, PairC), "TokenC+BoxC+PairC"),
            ((BoxC, MarkDropC, PairC, TokenC), "BoxC+MarkDropC+PairC+TokenC"),
            ((BoxC, PairC, MarkDropC, TokenC), "BoxC+PairC+MarkDropC+TokenC"),
            ((TokenC, BoxC, MarkDropC, StringC, PairC), "TokenC+BoxC+MarkDropC+StringC+PairC"),
            ((BoxC, TokenC, StringC, MarkDropC, PairC), "BoxC+TokenC+StringC+MarkDropC+PairC"),
            ((StringC, BoxC, PairC, ByteC, TokenC, MarkDropC), "StringC+BoxC+PairC+ByteC+TokenC+MarkDropC"),
            ((MarkDropC, PairC, BoxC, ByteC, StringC, TokenC), "MarkDropC+PairC+BoxC+ByteC+StringC+TokenC"),
            ((QuadC, ByteC, PairC, TokenC, BoxC, StringC, MarkDropC), "QuadC+ByteC+PairC+TokenC+BoxC+StringC+MarkDropC"),
            ((PairC, ByteC, MarkDropC, StringC, QuadC, TokenC, BoxC), "PairC+ByteC+MarkDropC+StringC+QuadC+TokenC+BoxC"),
            ((StringC, TokenC, QuadC, BoxC, HalfC, PairC, ByteC, MarkDropC), "StringC+TokenC+QuadC+BoxC+HalfC+PairC+ByteC+MarkDropC"),
            ((HalfC, PairC, BoxC, ByteC, MarkDropC, TokenC, StringC, QuadC), "HalfC+PairC+BoxC+ByteC+MarkDropC+TokenC+StringC+QuadC"),
            ((ByteC, PairC, StringC, QuadC, HalfC, TokenC, MarkDropC, BoxC, VecC), "ByteC+PairC+StringC+QuadC+HalfC+TokenC+MarkDropC+BoxC+VecC"),
            ((VecC, BoxC, PairC, QuadC, StringC, TokenC, HalfC, MarkDropC, ByteC), "VecC+BoxC+PairC+QuadC+StringC+TokenC+HalfC+MarkDropC+ByteC"),
            ((HalfC, ByteC, MarkDropC, QuadC, VecC, PairC, PaddedC, TokenC, StringC, BoxC), "HalfC+ByteC+MarkDropC+QuadC+VecC+PairC+PaddedC+TokenC+StringC+BoxC"),
            ((PaddedC, BoxC, PairC, TokenC, StringC, HalfC, ByteC, VecC, MarkDropC, QuadC), "PaddedC+BoxC+PairC+TokenC+StringC+HalfC+ByteC+VecC+MarkDropC+QuadC"),
            ((VecC, ByteC, TokenC, PairC, QuadC, PaddedC, Big300C, StringC, MarkDropC, HalfC, BoxC), "VecC+ByteC+TokenC+PairC+QuadC+PaddedC+Big300C+StringC+MarkDropC+HalfC+BoxC"),
            ((VecC, StringC, BoxC, ByteC, TokenC, MarkDropC, PairC, HalfC, PaddedC, Big300C, QuadC), "VecC+StringC+BoxC+ByteC+TokenC+MarkDropC+PairC+HalfC+PaddedC+Big300C+QuadC"),
            ((QuadC, HalfC, BoxC, MarkDropC, ByteC, VecC, WordC, PaddedC, PairC, TokenC, Big300C, StringC), "QuadC+HalfC+BoxC+MarkDropC+ByteC+VecC+WordC+PaddedC+PairC+TokenC+Big300C+StringC"),
            ((ByteC, QuadC, PaddedC, PairC, BoxC, HalfC, VecC, WordC, MarkDropC, Big300C, StringC, TokenC), "ByteC+QuadC+PaddedC+PairC+BoxC+HalfC+VecC+WordC+MarkDropC+Big300C+StringC+TokenC"),
            ((QuadC, PairC, VecC, StringC, Big300C, ByteC, HalfC, BoxC, MarkDropC, TokenC, PaddedC, ArcC, WordC), "QuadC+PairC+VecC+StringC+Big300C+ByteC+HalfC+BoxC+MarkDropC+TokenC+PaddedC+ArcC+WordC"),
            ((HalfC, StringC, PaddedC, BoxC, ByteC, ArcC, WordC, MarkDropC, PairC, TokenC, QuadC, VecC, Big300C), "HalfC+StringC+PaddedC+BoxC+ByteC+ArcC+WordC+MarkDropC+PairC+TokenC+QuadC+VecC+Big300C"),
            ((Big300C, PaddedC, PairC, ArcC, WordC, MarkC, ByteC, BoxC, TokenC, HalfC, VecC, MarkDropC, StringC, QuadC), "Big300C+PaddedC+PairC+ArcC+WordC+MarkC+ByteC+BoxC+TokenC+HalfC+VecC+MarkDropC+StringC+QuadC"),
            ((TokenC, Big300C, PairC, VecC, HalfC, ByteC, ArcC, WordC, QuadC, StringC, MarkC, BoxC, MarkDropC, PaddedC), "TokenC+Big300C+PairC+VecC+HalfC+ByteC+ArcC+WordC+QuadC+StringC+MarkC+BoxC+MarkDropC+PaddedC"),
            ((HalfC, StringC, WordC, Big300C, PaddedC, PairC, MarkC, ByteC, BoxC, MarkDropC, QuadC, VecC, ArcC, TokenC), "HalfC+StringC+WordC+Big300C+PaddedC+PairC+MarkC+ByteC+BoxC+MarkDropC+QuadC+VecC+ArcC+TokenC"),
            ((PaddedC, QuadC, PairC), "PaddedC+QuadC+PairC"),
            ((QuadC, PairC, PaddedC), "QuadC+PairC+PaddedC"),
            ((DropC, PairC, Align64C), "DropC+PairC+Align64C"),
            ((Align64C, DropC, PairC), "Align64C+DropC+PairC"),
            ((DropC, Align256C, ThreeC, ArcC), "DropC+Align256C+ThreeC+ArcC"),
            ((Align256C, DropC, ThreeC, ArcC), "Align256C+DropC+ThreeC+ArcC"),
            ((PaddedC, QuadC, PairC, HalfC, MarkAlignC), "PaddedC+QuadC+PairC+HalfC+MarkAlignC"),
            ((HalfC, MarkAlignC, QuadC, PaddedC, PairC), "HalfC+MarkAlignC+QuadC+PaddedC+PairC"),
            ((ByteC, SevenC, Big300C, TwelveC, MarkC, PaddedC), "ByteC+SevenC+Big300C+TwelveC+MarkC+PaddedC"),
            ((PaddedC, Big300C, MarkC, SevenC, TwelveC, ByteC), "PaddedC+Big300C+MarkC+SevenC+TwelveC+ByteC"),
            ((VecC, MarkDropC, HalfC, ByteC, DropC, PaddedC, BoxC), "VecC+MarkDropC+HalfC+ByteC+DropC+PaddedC+BoxC"),
            ((VecC, DropC, PaddedC, ByteC, HalfC, BoxC, MarkDropC), "VecC+DropC+PaddedC+ByteC+HalfC+BoxC+MarkDropC"),
            ((HalfC, ArcC, StringC, Align64C, DropC, SevenC, PairC, MarkWideC), "HalfC+ArcC+StringC+Align64C+DropC+SevenC+PairC+MarkWideC"),
            ((StringC, MarkWideC, PairC, HalfC, Align64C, SevenC, ArcC, DropC), "StringC+MarkWideC+PairC+HalfC+Align64C+SevenC+ArcC+DropC"),
            ((WordC, MarkWideC, TwelveC, Align256C, ArcC, TokenC, SevenC, ThreeC, HalfC), "WordC+MarkWideC+TwelveC+Align256C+ArcC+TokenC+SevenC+ThreeC+HalfC"),
            ((MarkWideC, HalfC, TwelveC, WordC, ThreeC, Align256C, TokenC, SevenC, ArcC), "MarkWideC+HalfC+TwelveC+WordC+ThreeC+Align256C+TokenC+SevenC+ArcC"),
            ((StringC, PairC, VecC, ThreeC, HalfC, Align256C, PaddedC, MarkWideC, MarkAlignC, BoxC), "StringC+PairC+VecC+ThreeC+HalfC+Align256C+PaddedC+MarkWideC+MarkAlignC+BoxC"),
            ((MarkAlignC, VecC, Align256C, PairC, BoxC, HalfC, StringC, ThreeC, MarkWideC, PaddedC), "MarkAlignC+VecC+Align256C+PairC+BoxC+HalfC+StringC+ThreeC+MarkWideC+PaddedC"),
            ((DropC, WordC, Align64C, PaddedC, MarkWideC, Align256C, ArcC, TwelveC, TokenC, MarkDropC, Big300C), "DropC+WordC+Align64C+PaddedC+MarkWideC+Align256C+ArcC+TwelveC+TokenC+MarkDropC+Big300C"),
            ((Align256C, TokenC, MarkDropC, Big300C, PaddedC, DropC, TwelveC, WordC, ArcC, MarkWideC, Align64C), "Align256C+TokenC+MarkDropC+Big300C+PaddedC+DropC+TwelveC+WordC+ArcC+MarkWideC+Align64C"),
            ((MarkDropC, PairC, ByteC, BoxC, MarkC, TokenC, VecC, Big300C, WordC, MarkWideC, PaddedC, HalfC), "MarkDropC+PairC+ByteC+BoxC+MarkC+TokenC+VecC+Big300C+WordC+MarkWideC+PaddedC+HalfC"),
            ((MarkWideC, BoxC, PaddedC, MarkDropC, ByteC, MarkC, WordC, TokenC, PairC, VecC, HalfC, Big300C), "MarkWideC+BoxC+PaddedC+MarkDropC+ByteC+MarkC+WordC+TokenC+PairC+VecC+HalfC+Big300C"),
            ((StringC, TwelveC, ThreeC, TokenC, ByteC, MarkC, SevenC, VecC, ArcC, Align64C, Big300C, HalfC, MarkDropC), "StringC+TwelveC+ThreeC+TokenC+ByteC+MarkC+SevenC+VecC+ArcC+Align64C+Big300C+HalfC+MarkDropC"),
            ((VecC, TwelveC, Big300C, TokenC, ArcC, ByteC, MarkC, Align64C, ThreeC, MarkDropC, HalfC, SevenC, StringC), "VecC+TwelveC+Big300C+TokenC+ArcC+ByteC+MarkC+Align64C+ThreeC+MarkDropC+HalfC+SevenC+StringC"),
            ((Align64C, SevenC, ArcC, TwelveC, TokenC, WordC, VecC, MarkDropC, ByteC, DropC, Align256C, Big300C, HalfC, PaddedC), "Align64C+SevenC+ArcC+TwelveC+TokenC+WordC+VecC+MarkDropC+ByteC+DropC+Align256C+Big300C+HalfC+PaddedC"),
            ((HalfC, TokenC, Big300C, ByteC, Align64C, PaddedC, DropC, WordC, SevenC, ArcC, Align256C, MarkDropC, TwelveC, VecC), "HalfC+TokenC+Big300C+ByteC+Align64C+PaddedC+DropC+WordC+SevenC+ArcC+Align256C+MarkDropC+TwelveC+VecC"),
            ((BoxC, PaddedC, TwelveC, Align64C, ThreeC, MarkAlignC, ArcC, VecC, SevenC, MarkDropC, Big300C, StringC, HalfC, ByteC), "BoxC+PaddedC+TwelveC+Align64C+ThreeC+MarkAlignC+ArcC+VecC+SevenC+MarkDropC+Big300C+StringC+HalfC+ByteC"),
            ((Big300C, ThreeC, VecC, BoxC, PaddedC, ArcC, MarkAlignC, Align64C, ByteC, MarkDropC, SevenC, StringC, HalfC, TwelveC), "Big300C+ThreeC+VecC+BoxC+PaddedC+ArcC+MarkAlignC+Align64C+ByteC+MarkDropC+SevenC+StringC+HalfC+TwelveC"),
            ((ArcC, Big300C, BoxC, ByteC, HalfC, MarkC, MarkDropC, PaddedC, PairC, QuadC, StringC, TokenC, VecC, WordC), "ArcC+Big300C+BoxC+ByteC+HalfC+MarkC+MarkDropC+PaddedC+PairC+QuadC+StringC+TokenC+VecC+WordC"),
            ((WordC, VecC, TokenC, StringC, QuadC, PairC, PaddedC, MarkDropC, MarkC, HalfC, ByteC, BoxC, Big300C, ArcC), "WordC+VecC+TokenC+StringC+QuadC+PairC+PaddedC+MarkDropC+MarkC+HalfC+ByteC+BoxC+Big300C+ArcC"),
            ((TokenC, TokenC), "TokenC+TokenC"),
            ((BoxC, BoxC), "BoxC+BoxC"),
            ((ByteC, ByteC), "ByteC+ByteC"),
            ((MarkDropC, MarkDropC), "MarkDropC+MarkDropC"),
            ((MarkC, MarkC), "MarkC+MarkC"),
            ((WordC, WordC), "WordC+WordC"),
            ((TokenC, BoxC, TokenC), "TokenC+BoxC+TokenC"),
            ((BoxC, TokenC, TokenC), "BoxC+TokenC+TokenC"),
            ((TokenC, TokenC, BoxC), "TokenC+TokenC+BoxC"),
            ((StringC, StringC, StringC), "StringC+StringC+StringC"),
            ((QuadC, TokenC, BoxC, QuadC), "QuadC+TokenC+BoxC+QuadC"),
            ((ByteC, HalfC, WordC, HalfC, DropC), "ByteC+HalfC+WordC+HalfC+DropC"),
            ((TokenC, BoxC, PairC, MarkDropC, StringC, ByteC, QuadC, HalfC, VecC, PaddedC, Big300C, WordC, TokenC), "TokenC+BoxC+PairC+MarkDropC+StringC+ByteC+QuadC+HalfC+VecC+PaddedC+Big300C+WordC+TokenC"),
            ((MarkDropC, TokenC, BoxC, PairC, MarkDropC, StringC, ByteC, QuadC, HalfC, VecC, PaddedC, Big300C, WordC, ArcC), "MarkDropC+TokenC+BoxC+PairC+MarkDropC+StringC+ByteC+QuadC+HalfC+VecC+PaddedC+Big300C+WordC+ArcC"),
            ((TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC, TokenC), "TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC+TokenC"),
            ((TokenC, BoxC, PairC, MarkDropC, StringC, ByteC, QuadC, HalfC, VecC, PaddedC, Big300C, WordC, ArcC, ArcC), "TokenC+BoxC+PairC+MarkDropC+StringC+ByteC+QuadC+HalfC+VecC+PaddedC+Big300C+WordC+ArcC+ArcC"),
            ((Align64C, TokenC, BoxC, PairC, MarkDropC, StringC, Align64C), "Align64C+TokenC+BoxC+PairC+MarkDropC+StringC+Align64C")
        )
    };
}

macro_rules! group_list {
    ($(($g:ty, $n:expr)),*) => { vec![$(group_vt::<$g>($n)),*] };
}

pub fn groups() -> Vec<GroupVt> {
    for_all_groups!(group_list)
}
