from cases import bug, same
LI = "src/types/lit.rs"
FI = "NonZeroU32::new_unchecked((if x < 0 { -2 * x } else { 2 * x + 1 }) as u32)"
NG = "if NonZeroU32::get(l.ordinal).is_multiple_of(2) {\n            -((NonZeroU32::get(l.ordinal) >> 1) as i32)\n        } else {\n            (NonZeroU32::get(l.ordinal) >> 1) as i32\n        }"
bug("p26-u16", "P26", (LI, "((vi as u32) << 1) + (b as u32)", "((vi as u16 as u32) << 1) + (b as u32)"))
bug("p26-mask", "P26", (LI, "(NonZeroU32::get(self.ordinal) >> 1) as VarId", "((NonZeroU32::get(self.ordinal) & 0x00FF_FFFF) >> 1) as VarId"))
bug("p26-mask2", "P26", (LI, "NonZeroU32::get(l.ordinal) as usize", "(NonZeroU32::get(l.ordinal) & 0xFFFF) as usize"))
bug("p26-sign", "P26", (LI, FI, FI.replace("2 * x + 1", "2 * x")))
bug("p26-sign2", "P26", (LI, FI, FI.replace("x < 0", "x <= 1")))
bug("p26-big", "P26", (LI, FI, FI.replace("if x < 0 { -2 * x }", "if x < -1_000_000 { -2 * x + 1 } else if x < 0 { -2 * x }")))
bug("p26-not", "P26", (LI, "NonZeroU32::get(self.ordinal) ^ 1", "NonZeroU32::get(self.ordinal) | 1"))
bug("p26-not2", "P26", (LI, "NonZeroU32::get(self.ordinal) ^ 1", "NonZeroU32::get(self.ordinal) ^ 3"))
bug("p26-back", "P26", (LI, "impl From<&Lit> for i32 {\n    #[inline]\n    fn from(l: &Lit) -> i32 {\n        " + NG, "impl From<&Lit> for i32 {\n    #[inline]\n    fn from(l: &Lit) -> i32 {\n        " + NG.replace("(NonZeroU32::get(l.ordinal) >> 1) as i32\n        }", "(NonZeroU32::get(l.ordinal) >> 1) as i16 as i32\n        }")))
bug("p26-ord", "P26", (LI, "#[derive(Clone, Copy, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct Lit", """impl Ord for Lit {
    fn cmp(&self, other: &Lit) -> std::cmp::Ordering {
        other.ordinal.cmp(&self.ordinal)
    }
}
impl PartialOrd for Lit {
    fn partial_cmp(&self, other: &Lit) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
#[derive(Clone, Copy, Eq, Hash, PartialEq)]
pub struct Lit"""))
bug("p26-eq", "P26", (LI, "#[derive(Clone, Copy, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct Lit", """impl PartialEq for Lit {
    fn eq(&self, other: &Lit) -> bool {
        self.vi() == other.vi()
    }
}
#[derive(Clone, Copy, Eq, Ord, PartialOrd)]
pub struct Lit"""), (LI, "/// convert literals to `[i32]`", """impl std::hash::Hash for Lit {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.vi().hash(h)
    }
}
/// convert literals to `[i32]`"""))
bug("p26-table", "P26", (LI, "self.get_unchecked_mut(usize::from(l))", "self.get_unchecked_mut(l.vi())"))
bug("p26-bool", "P26", (LI, "(NonZeroU32::get(l.ordinal) & 1) != 0", "(NonZeroU32::get(l.ordinal) & 1) != 1"))
bug("p26-asbool", "P26", (LI, "NonZeroU32::get(self.ordinal) & 1 == 1", "NonZeroU32::get(self.ordinal) & 3 == 1"))
same("p26-abs", (LI, FI, "NonZeroU32::new_unchecked(2 * x.unsigned_abs() + u32::from(x > 0))"))
same("p26-abs2", (LI, FI, "NonZeroU32::new_unchecked(((x.abs() as u32) << 1) | (x.is_positive() as u32))"))
same("p26-shift", (LI, FI, "NonZeroU32::new_unchecked((if 0 < x { (x << 1) | 1 } else { (-x) << 1 }) as u32)"))
same("p26-checked", (LI, FI, "NonZeroU32::new_unchecked(0)"), (LI, "        Lit {\n            ordinal: unsafe {\n                NonZeroU32::new_unchecked(0)\n            },\n        }", "        let code = if x < 0 { -2 * x } else { 2 * x + 1 };\n        Lit {\n            ordinal: NonZeroU32::new(code as u32).expect(\"zero\"),\n        }"))
same("p26-via", (LI, "        Lit {\n            ordinal: unsafe {\n                " + FI + "\n            },\n        }", "        Lit::from((x.unsigned_abs() as VarId, 0 < x))"))
same("p26-helper", (LI, "NonZeroU32::new_unchecked(((vi as u32) << 1) + (b as u32))", "NonZeroU32::new_unchecked(encode(vi as u32, b))"), (LI, "impl From<usize> for Lit", "#[inline]\nfn encode(vi: u32, b: bool) -> u32 {\n    if b { 2 * vi + 1 } else { 2 * vi }\n}\n\nimpl From<usize> for Lit"))
same("p26-i32", (LI, "impl From<&Lit> for i32 {\n    #[inline]\n    fn from(l: &Lit) -> i32 {\n        " + NG, "impl From<&Lit> for i32 {\n    #[inline]\n    fn from(l: &Lit) -> i32 {\n        i32::from(*l)"), (LI, NG, "let vi = l.vi() as i32;\n        if l.as_bool() { vi } else { -vi }"))
same("p26-rem", (LI, "(NonZeroU32::get(l.ordinal) & 1) != 0", "l.ordinal.get() % 2 == 1"), (LI, "(NonZeroU32::get(self.ordinal) >> 1) as VarId", "(self.ordinal.get() / 2) as VarId"), (LI, "NonZeroU32::get(self.ordinal) & 1 == 1", "!self.ordinal.get().is_multiple_of(2)"))
same("p26-flip", (LI, "        Lit {\n            ordinal: unsafe { NonZeroU32::new_unchecked(NonZeroU32::get(self.ordinal) ^ 1) },\n        }", "        Lit::from((self.vi(), !self.as_bool()))"))
same("p26-flip2", (LI, "        Lit {\n            ordinal: unsafe { NonZeroU32::new_unchecked(NonZeroU32::get(self.ordinal) ^ 1) },\n        }", "        let n = self.ordinal.get();\n        Lit::from(if n & 1 == 0 { n + 1 } else { n - 1 })"))
same("p26-match", (LI, FI, "NonZeroU32::new_unchecked(match x.cmp(&0) {\n                    std::cmp::Ordering::Less => 2 * x.unsigned_abs(),\n                    _ => 2 * x.unsigned_abs() + 1,\n                })"))
same("p26-ordsame", (LI, "#[derive(Clone, Copy, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct Lit", """impl Ord for Lit {
    fn cmp(&self, other: &Lit) -> std::cmp::Ordering {
        self.vi()
            .cmp(&other.vi())
            .then_with(|| self.as_bool().cmp(&other.as_bool()))
    }
}
impl PartialOrd for Lit {
    fn partial_cmp(&self, other: &Lit) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}
#[derive(Clone, Copy, Eq, Hash, PartialEq)]
pub struct Lit"""))
