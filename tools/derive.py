"""C20: a generated corpus of type definitions, once with the derive and once implemented by hand.

Both halves are compiled against the current tree and run side by side in registries; the program compares
names, identifiers, descriptors and everything a registry does with the values. Definitions that the compiler accepts
with the hand-written implementation but not with the derive are violations too."""
import json, os, random, re, shutil, subprocess

PRELUDE = r'''
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, unused_macros, non_upper_case_globals, uncommon_codepoints, mixed_script_confusables, confusable_idents, deprecated, private_interfaces, private_bounds, unused_must_use, noop_method_call)]
use shard_ecs::{ComponentDescriptor, ComponentTypeId, Registry};
use std::cell::RefCell;

thread_local! {
    static LOG: RefCell<Vec<(&'static str, u64)>> = const { RefCell::new(Vec::new()) };
}
pub fn log(what: &'static str, v: u64) {
    LOG.with(|l| l.borrow_mut().push((what, v)));
}
fn take() -> Vec<(&'static str, u64)> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// A field that reports its destruction.
#[derive(Debug)]
pub struct Tracker(pub u32);
impl Drop for Tracker {
    fn drop(&mut self) {
        log("drop", self.0 as u64);
    }
}

/// A hand-written companion component.
pub struct Other(pub u64);
impl shard_ecs::Component for Other {
    const NAME: &'static str = "Other companion";
}

fn reference(name: &str) -> u16 {
    let mut h: u64 = 2_166_136_261;
    for b in name.bytes() {
        h = ((h ^ b as u64) * 16_777_619) % (1 << 32);
    }
    (h >> 16) as u16 ^ h as u16
}

/// What a registry does with the type, as a log.
fn exercise<C: shard_ecs::Component>(make: fn(u32) -> C, read: fn(&C) -> u32) -> Vec<(&'static str, u64)> {
    take();
    let mut r = Registry::default();
    let mut es = Vec::new();
    for i in 0..140u32 {
        es.push(if i % 3 == 0 { r.create_entity((Other(i as u64), make(i))).ok().unwrap() } else { r.create_entity(make(i)).ok().unwrap() });
    }
    for (i, e) in es.iter().enumerate() {
        log("get", r.get_component::<C>(*e).map_or(u64::MAX, |c| read(c) as u64));
        log("has", r.has_component::<C>(*e) as u64 + 2 * r.has_components::<(C, Other)>(*e) as u64);
        if i % 5 == 0 {
            log("added", r.add_component(*e, Other(7)).is_ok() as u64);
        }
        if i % 7 == 0 {
            match r.remove_component::<C>(*e) {
                Ok(c) => log("removed", read(&c) as u64),
                Err(()) => log("kept", 0),
            }
        }
        if i % 11 == 0 {
            match r.add_component(*e, make(1000 + i as u32)) {
                Ok(()) => log("added", 1),
                Err(c) => log("refused", read(&c) as u64),
            }
        }
        if i % 13 == 0 {
            if let Some(c) = r.get_component_mut::<C>(*e) {
                *c = make(2000 + i as u32);
            }
        }
    }
    for e in es.iter().step_by(4) {
        log("destroyed", r.destroy_entity(*e) as u64);
    }
    for (e, (c, o)) in r.iter_entity_components_matching::<(C, Other)>() {
        for i in 0..e.len() {
            log("row", (e[i].raw() as u64) << 32 | read(&c[i]) as u64);
            log("other", o[i].0);
        }
    }
    for c in r.iter_components_matching_mut::<C>() {
        log("rows", c.len() as u64);
        for c in c {
            assert_eq!(c as *const C as usize % std::mem::align_of::<C>(), 0);
            log("row", read(c) as u64);
        }
    }
    for e in es.iter().step_by(9) {
        match r.remove_entity::<(Other, C)>(*e) {
            Some((o, c)) => log("taken", o.0 << 32 | read(&c) as u64),
            None => log("left", 0),
        }
    }
    log("exact", r.iter_components_exact::<C>().len() as u64);
    log("end", 0);
    drop(r);
    take()
}

struct Case {
    ident: &'static str,
    index: usize,
    kind: &'static str,
    name: (&'static str, &'static str),
    id: (ComponentTypeId, ComponentTypeId),
    desc: (ComponentDescriptor, ComponentDescriptor),
    layout: (usize, usize),
    logs: (fn() -> Vec<(&'static str, u64)>, fn() -> Vec<(&'static str, u64)>),
}

fn case<D: shard_ecs::Component, M: shard_ecs::Component>(
    index: usize, kind: &'static str, ident: &'static str,
    d: fn() -> Vec<(&'static str, u64)>, m: fn() -> Vec<(&'static str, u64)>,
) -> Case {
    Case {
        ident, index, kind,
        name: (D::NAME, M::NAME), id: (D::ID, M::ID),
        desc: (<D as shard_ecs::Component>::DESCRIPTOR, <M as shard_ecs::Component>::DESCRIPTOR),
        layout: (std::mem::size_of::<D>(), std::mem::align_of::<D>()),
        logs: (d, m),
    }
}

fn main() {
    let cases = cases();
    let (mut evals, mut rows) = (0u64, 0u64);
    for c in &cases {
        let fail = |what: String| println!("FAIL {} {} ({}): {}", c.index, c.ident, c.kind, what.replace('\n', " "));
        evals += 1;
        if c.name.0 != c.ident {
            fail(format!("name is {:?}", c.name.0));
        }
        evals += 1;
        if c.id.0.into_u16() != reference(c.ident) || c.id.0.into_u16() != c.id.1.into_u16() {
            fail(format!("identifier is {:#x}, default for the name is {:#x}", c.id.0.into_u16(), reference(c.ident)));
        }
        evals += 1;
        let d = &c.desc.0;
        if d.component_type_id.into_u16() != c.id.0.into_u16() || (d.size as usize, d.align as usize) != c.layout || (d.size, d.align) != (c.desc.1.size, c.desc.1.align) {
            fail(format!("descriptor is {:?} for layout {:?}, by hand {:?}", d, c.layout, c.desc.1));
        }
        let run = |f: fn() -> Vec<(&'static str, u64)>| std::panic::catch_unwind(f).map_err(|_| "panic");
        let (a, b) = (run(c.logs.0), run(c.logs.1));
        match (a, b) {
            (Ok(a), Ok(b)) => {
                evals += b.len() as u64;
                rows += b.len() as u64;
                if let Some(i) = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)) {
                    fail(format!("in a registry, event {} is {:?}, by hand {:?}", i, a.get(i), b.get(i)));
                }
            }
            (Err(_), Ok(_)) => fail("a registry panics with the derived component only".into()),
            (_, Err(_)) => println!("TROUBLE {} {}: hand-written component panics", c.index, c.ident),
        }
    }
    println!("DONE {} {} {}", cases.len(), evals, rows);
}
'''


def default_id(name):
    h = 2166136261
    for b in name.encode():
        h = ((h ^ b) * 16777619) % (1 << 32)
    return (h >> 16) ^ (h & 0xFFFF)


def ident(r, used):
    while True:
        k = r.randrange(12)
        a = "".join(r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") + "".join(r.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(r.randrange(1, 6))) for _ in range(r.randrange(1, 4)))
        if k == 0:
            a = a.lower() + "_t"
        elif k == 1:
            a = "_" + a
        elif k == 2:
            a = a.upper()
        elif k == 3:
            a = a + str(r.randrange(100000))
        elif k == 4:
            a = a + "_" + "Long" * r.randrange(20, 60)
        elif k == 5:
            a = r.choice(["Größe", "Ünit", "位置", "Скорость", "Ταχύτητα", "Éclair"]) + str(r.randrange(1000))
        elif k == 6:
            a = r.choice(["Option", "Vec", "Result", "String", "Box", "Some", "Drop", "Copy", "Default", "Entity", "Registry", "Archetype", "Descriptor", "ID", "NAME"]) if r.random() < .7 else a
        elif k == 7:
            a = r.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
        elif k == 8:
            a = a + "__" + a[:1] + "_"
        if default_id(a) not in (0xFFFF, default_id("Other companion")) and a not in used and a not in ("Component", "Other", "Tracker", "Self", "T", "U", "N", "M"):
            used.add(a)
            return a


FIELDS = [
    # type, value from n, how to read it back (or None)
    ("u8", "n as u8", None), ("u16", "n as u16", None), ("u32", "n", "{} as u32"), ("u64", "n as u64", "{} as u32"), ("f64", "n as f64", "{} as u32"),
    ("[u8; 5]", "[n as u8; 5]", None), ("[u32; 16]", "[n; 16]", "{}[7]"), ("(u8, u32)", "(1, n)", "{}.1"), ("()", "()", None),
    ("&'static str", "\"text\"", None), ("std::string::String", "n.to_string()", "{}.parse().unwrap()"), ("std::boxed::Box<u32>", "std::boxed::Box::new(n)", "*{}"),
    ("std::vec::Vec<u32>", "vec![n; 3]", "{}[2]"), ("std::option::Option<std::boxed::Box<u32>>", "std::option::Option::Some(std::boxed::Box::new(n))", "**{}.as_ref().unwrap()"),
    ("crate::Tracker", "crate::Tracker(n)", "{}.0"), ("crate::Tracker", "crate::Tracker(n)", "{}.0"), ("std::sync::Arc<u32>", "std::sync::Arc::new(n)", "*{}"),
    ("fn(u32) -> u32", "|x| x", None), ("std::boxed::Box<dyn std::ops::Fn(u32) -> u32 + std::marker::Send + std::marker::Sync>", "std::boxed::Box::new(move |x| x + n)", "({})(0)"),
    ("std::marker::PhantomData<u64>", "std::marker::PhantomData", None), ("bool", "n % 2 == 1", None), ("char", "'x'", None), ("std::sync::Mutex<u32>", "std::sync::Mutex::new(n)", "*{}.lock().unwrap()"),
    ("std::mem::ManuallyDrop<u32>", "std::mem::ManuallyDrop::new(n)", "*{}"), ("[crate::Tracker; 2]", "[crate::Tracker(n), crate::Tracker(n + 1)]", "{}[0].0"),
]
VIS = ["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) "]


def field_vis(r):
    return r.choice(VIS)


class Type:
    """One type definition with how to make and read a value of it."""

    def __init__(self, r, used, index):
        self.r, self.index = r, index
        self.ident = ident(r, used)
        self.generics, self.where, self.args = [], [], []
        self.tfields = []
        form = r.choice(["unit", "tuple", "named", "named", "tuple", "enum", "enum", "union", "empty_named", "empty_tuple"])
        self.kind = form
        if r.random() < 0.45:
            self.make_generics(form)
        fields = [r.choice(FIELDS) for _ in range(r.randrange(1, 6))] + self.tfields
        if form in ("unit", "empty_named", "empty_tuple"):
            fields = list(self.tfields)
            if fields:
                form = self.kind = "named"
        r.shuffle(fields)
        getattr(self, "body_" + ("empty" if not fields else form))(fields, form)

    def make_generics(self, form):
        r = self.r
        n = r.randrange(1, 4)
        self.kind += "+generic"
        has_default = False
        for i in range(n):
            k = r.randrange(6)
            if k == 0 and not any(g.startswith("'") for g in self.generics) and not self.generics:
                self.generics.append("'a")
                self.where.append("'a: 'static")
                self.args.append("'static")
                self.tfields.append(("&'a u32", "&11", None))
            elif k <= 2:
                p = "N%d" % i
                v = r.randrange(0, 9)
                d = r.random() < .3 or has_default
                has_default = d
                self.generics.append("const %s: usize%s" % (p, " = %d" % v if d else ""))
                self.args.append(str(v))
                self.tfields.append(("[u16; %s]" % p, "[n as u16; %d]" % v, None))
            else:
                p = "T%d" % i
                where = r.random() < .5
                bound = "std::marker::Send + std::marker::Sync + 'static" + r.choice(["", " + std::clone::Clone", " + std::fmt::Debug", " + ?Sized" if False else ""])
                d = r.random() < .3 or has_default
                has_default = d
                ty, val = r.choice([("u32", "n"), ("u8", "n as u8"), ("std::string::String", "n.to_string()"), ("[u64; 3]", "[n as u64; 3]")])
                self.generics.append(p + ("" if where else ": " + bound) + (" = " + ty if d else ""))
                if where:
                    self.where.append("%s: %s" % (p, bound))
                    if r.random() < .3:
                        self.where.append("std::option::Option<%s>: std::marker::Send" % p)
                self.args.append(ty)
                self.tfields.append((p, val, None) if r.random() < .6 else ("std::marker::PhantomData<%s>" % p, "std::marker::PhantomData", None))
                if self.tfields[-1][1].startswith("std::marker") or r.random() < .2:
                    self.tfields.append(("std::option::Option<std::boxed::Box<%s>>" % p, "std::option::Option::Some(std::boxed::Box::new(%s))" % val, None))
        # Union fields need no destructor.

    def gen(self, defaults=True):
        g = self.generics if defaults else [x.split(" = ")[0] for x in self.generics]
        return "<%s>" % ", ".join(g) if g else ""

    def use(self):
        names = [x.split(":")[0].split(" = ")[0].replace("const ", "").strip() for x in self.generics]
        return "<%s>" % ", ".join(names) if names else ""

    def wh(self):
        return " where " + ", ".join(self.where) if self.where else ""

    def concrete(self):
        return self.ident + ("<%s>" % ", ".join(self.args) if self.args else "")

    def body_empty(self, fields, form):
        e = self.ident
        if form == "unit" or form == "union":
            self.kind = self.kind.replace("union", "unit")
            self.head, self.body, self.value = "struct", self.wh() + ";", e
        elif form == "empty_named":
            self.head, self.body, self.value = "struct", self.wh() + " {}", e + " {}"
        elif form == "empty_tuple" or form == "tuple":
            self.head, self.body, self.value = "struct", "()" + self.wh() + ";", e + "()"
        else:
            self.head, self.body, self.value = "enum", self.wh() + " { Only }", e + "::Only"
        self.readexpr = "0"

    def body_tuple(self, fields, form):
        self.head = "struct"
        self.body = "(" + ", ".join(field_vis(self.r) + f[0] for f in fields) + ")" + self.wh() + ";"
        self.value = self.ident + "(" + ", ".join(f[1] for f in fields) + ")"
        self.readexpr = self.sum([(f, "v.%d" % i) for i, f in enumerate(fields)])

    def body_named(self, fields, form):
        self.head = "struct"
        r = self.r
        names = ["f%d" % i if r.random() < .8 else r.choice(["r#type", "r#fn", "name", "id", "descriptor"]) + "" for i in range(len(fields))]
        names = [n if names.index(n) == i else "f%d" % i for i, n in enumerate(names)]
        docs = ["/// A field.\n" if r.random() < .2 else "#[allow(unused)] " if r.random() < .2 else "" for _ in fields]
        self.body = self.wh() + " { " + ", ".join(d + field_vis(r) + n + ": " + f[0] for d, n, f in zip(docs, names, fields)) + " }"
        self.value = self.ident + " { " + ", ".join(n + ": " + f[1] for n, f in zip(names, fields)) + " }"
        self.readexpr = self.sum([(f, "v.%s" % n) for n, f in zip(names, fields)])

    def body_enum(self, fields, form):
        r = self.r
        self.head = "enum"
        variants, chosen = [], None
        half = r.randrange(0, 3)
        for i in range(half):
            variants.append("Unit%d" % i)
        pat = ", ".join("x%d" % i for i in range(len(fields)))
        if r.random() < .5:
            variants.append("Data(" + ", ".join(f[0] for f in fields) + ")")
            self.value = self.ident + "::Data(" + ", ".join(f[1] for f in fields) + ")"
            pattern = self.ident + "::Data(" + pat + ")"
        else:
            variants.append("Data { " + ", ".join("x%d: %s" % (i, f[0]) for i, f in enumerate(fields)) + " }")
            self.value = self.ident + "::Data { " + ", ".join("x%d: %s" % (i, f[1]) for i, f in enumerate(fields)) + " }"
            pattern = self.ident + "::Data { " + pat + " }"
        if not self.generics and r.random() < .4:
            variants.append("Big([u64; 9])")
        r.shuffle(variants)
        self.body = self.wh() + " { " + ", ".join(variants) + " }"
        s = self.sum([(f, "(*x%d)" % i) for i, f in enumerate(fields)])
        self.readexpr = "match v { %s => %s,%s }" % (pattern, s, " _ => 99" if len(variants) > 1 else "")

    def body_union(self, fields, form):
        self.head = "union"
        fs = ["a: u32", "b: [u8; 4]"]
        value = self.ident + " { a: n }"
        for i, f in enumerate(self.tfields):
            fs.append("g%d: std::mem::ManuallyDrop<%s>" % (i, f[0]))
        if self.r.random() < .3:
            fs.append("t: std::mem::ManuallyDrop<crate::Tracker>")
        self.body = self.wh() + " { " + ", ".join(field_vis(self.r) + f for f in fs) + " }"
        self.value = value
        self.readexpr = "unsafe { v.a }"

    def sum(self, items):
        parts = ["(%s)" % (f[2].format(x)) for f, x in items if f[2]]
        return "0u32" + "".join(".wrapping_add(%s)" % p for p in parts)

    def definition(self, derive):
        r = random.Random(self.index * 77 + 5)
        attrs = []
        if r.random() < .3:
            attrs.append("/// Documented.\n")
        if r.random() < .2:
            attrs.append("#[must_use] ")
        if r.random() < .2:
            attrs.append("#[cfg(not(any()))] ")
        if r.random() < .15:
            attrs.append("#[deprecated] ")
        if r.random() < .2:
            attrs.append("#[doc(hidden)] ")
        if r.random() < .25 and self.head in ("struct", "union"):
            attrs.append("#[repr(C%s)] " % r.choice(["", ", align(16)", ", align(64)", ", align(1024)"]))
        elif r.random() < .15:
            attrs.append("#[repr(align(%d))] " % r.choice([2, 32, 128, 4096]))
        vis = r.choice(["pub ", "pub(crate) ", "pub(in crate) "])
        text = "%s %s%s%s" % (self.head, self.ident, self.gen(), self.body)
        if derive:
            attrs.insert(r.randrange(len(attrs) + 1), "#[derive(Component)] ")
            impl = ""
        else:
            impl = "impl%s Component for %s%s%s { const NAME: &'static str = \"%s\"; }\n" % (self.gen(False), self.ident, self.use(), self.wh(), self.ident)
        item = "".join(attrs) + vis + text + "\n" + impl
        style = r.randrange(5)
        if style == 0:
            # The definition comes out of a macro.
            item = "macro_rules! define { ($($t:tt)*) => { $($t)* } }\ndefine! { %s }\n" % item
        elif style == 1 and not self.generics and self.kind == "tuple":
            item = "macro_rules! named { ($n:ident) => { %s } }\nnamed!(%s);\n" % (re.sub(r"\b%s\b" % re.escape(self.ident), "$n", item).replace('"$n"', "stringify!($n)"), self.ident)
        return item

    def module(self, derive):
        m = "%s%d" % ("d" if derive else "m", self.index)
        imports = "use shard_ecs::Component;\n" + ("use shard_ecs_derive::Component;\n" if derive else "")
        c = self.concrete()
        return ("mod %s {\n%s%s"
                "pub fn make(n: u32) -> %s { %s }\npub fn read(v: &%s) -> u32 { %s }\n"
                "pub fn exercise() -> std::vec::Vec<(&'static str, u64)> { crate::exercise::<%s>(make, read) }\n"
                "pub type This = %s;\n}\n") % (m, imports, self.definition(derive), c, self.value, c, self.readexpr, c, c)


def corpus(seed, n):
    r = random.Random(seed)
    used = set()
    return [Type(r, used, i) for i in range(n)]


def source(types, derived=True):
    out = [PRELUDE]
    for t in types:
        out.append(t.module(False))
        if derived:
            out.append("// <%d>\n" % t.index + t.module(True) + "// </%d>\n" % t.index)
    out.append("fn cases() -> Vec<Case> {\nvec![\n")
    for t in types:
        d = "d" if derived else "m"
        out.append("case::<%s%d::This, m%d::This>(%d, \"%s\", \"%s\", %s%d::exercise, m%d::exercise),\n" % (d, t.index, t.index, t.index, t.kind, t.ident, d, t.index, t.index))
    out.append("]\n}\n")
    return "".join(out)


def write(crate, repo, verif, text):
    os.makedirs(os.path.join(crate, "src"), exist_ok=True)
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "corpus"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
                'shard-ecs = { path = "%s" }\nshard_ecs_derive = { path = "%s/shard_ecs_derive" }\n\n[profile.dev]\ndebug = 0\nincremental = false\n' % (repo, repo))
    shutil.copy(os.path.join(verif, "derive", "Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    with open(os.path.join(crate, "src", "main.rs"), "w") as f:
        f.write(text)


def compile(crate, env, release=False):
    cmd = ["cargo", "build", "--offline", "-q", "--message-format=short"] + (["--release"] if release else [])
    return subprocess.run(cmd, cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)


def run(prop, tier, seed, work, repo, verif, env, count=120, batches=1):
    env = dict(env)
    res = {"evaluations": 0, "distinct": [], "samples": [], "problems": [], "violations": [], "counts": {"definitions": 0, "definitions_by_kind": {}, "registry_events": 0}}
    for b in range(batches):
        crate = os.path.join(work, "corpus")
        types = corpus(seed * 1000 + b, count)
        write(crate, repo, verif, source(types))
        r = compile(crate, env)
        if r.returncode != 0:
            # Is it the derive, or the corpus?
            write(crate, repo, verif, source(types, False))
            m = compile(crate, env)
            lib = subprocess.run(["cargo", "build", "--offline", "-q", "-p", "shard_ecs_derive"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if m.returncode != 0 and lib.returncode == 0 and "could not compile `corpus`" in m.stdout or lib.returncode != 0 or "could not compile `shard" in r.stdout:
                res["problems"].append("corpus does not compile: " + (m.stdout if m.returncode else r.stdout)[-1500:])
                continue
            where = ""
            hit = re.search(r"src/main\.rs:(\d+):\d+: error.*", r.stdout)
            if hit:
                lines = source(types).splitlines()
                at = int(hit.group(1))
                tags = [l for l in lines[:at] if re.match(r"// <\d+>", l)]
                if tags:
                    where = types[int(tags[-1][4:-1])].definition(True)
            res["violations"].append("a definition that compiles with a hand-written implementation does not with the derive (seed %d): %s | %s" % (seed * 1000 + b, (hit.group(0) if hit else r.stdout[-600:]), where))
            return res
        for release in ([False, True] if tier == "thorough" else [False]):
            if release and compile(crate, env, True).returncode != 0:
                res["problems"].append("release build of the corpus failed")
                continue
            exe = os.path.join(env["CARGO_TARGET_DIR"], "release" if release else "debug", "corpus")
            o = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300, errors="replace")
            done = re.search(r"^DONE (\d+) (\d+) (\d+)$", o.stdout, re.M)
            for l in o.stdout.splitlines():
                if l.startswith("FAIL "):
                    i = int(l.split()[1])
                    res["violations"].append("derived component (seed %d) %s | %s" % (seed * 1000 + b, l[5:], types[i].definition(True).strip()))
                    return res
                if l.startswith("TROUBLE "):
                    res["problems"].append(l)
            if not done:
                if o.returncode < 0:
                    res["violations"].append("the program with derived components died with signal %d (seed %d)" % (-o.returncode, seed * 1000 + b))
                    return res
                res["problems"].append("corpus ended with %s: %s" % (o.returncode, o.stderr[-500:]))
                continue
            res["evaluations"] += int(done.group(2))
            res["counts"]["registry_events"] += int(done.group(3))
        res["counts"]["definitions"] += len(types)
        for t in types:
            res["counts"]["definitions_by_kind"][t.kind] = res["counts"]["definitions_by_kind"].get(t.kind, 0) + 1
            res["distinct"].append("%s|%s" % (t.kind, re.sub(r"\s+", " ", t.definition(True))))
        if b == 0:
            res["samples"] = [{"definition": t.definition(True).strip()} for t in types[:4]]
    return res


if __name__ == "__main__":
    import sys
    print(source(corpus(int(sys.argv[1]), int(sys.argv[2]))))
