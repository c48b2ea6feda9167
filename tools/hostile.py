"""C07: programs that try to misuse the safe interface: to keep references beyond their time, to have two of them to one
value, to bring values of the wrong kind into a registry or across threads.

The compiler refuses them; that is how the interface keeps its promise. One that it accepts is executed under Miri, which
then is the judge: only undefined behaviour that really happens is a violation."""
import json, os, re, shutil, subprocess

PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_variables, unused_mut, unused_unsafe, unused_must_use, unreachable_code)]
use shard_ecs::archetype_descriptor::ArchetypeDescriptor;
use shard_ecs::archetype_registry::ArchetypeRegistry;
use shard_ecs::component_group::ComponentGroup;
use shard_ecs::*;

#[derive(Debug)]
struct A(Box<u64>);
impl Component for A {
    const NAME: &'static str = "hostile::A";
}
#[derive(Debug)]
struct B(String);
impl Component for B {
    const NAME: &'static str = "hostile::B";
}
fn a(n: u64) -> A {
    A(Box::new(n))
}
fn b(n: u64) -> B {
    B(format!("{} as text", n))
}
fn see<T: std::fmt::Debug + ?Sized>(t: &T) {
    std::hint::black_box(format!("{:?}", t));
}
fn world() -> (Registry, Vec<Entity>) {
    let mut r = Registry::default();
    let mut e = Vec::new();
    for i in 0..3 {
        e.push(r.create_entity((a(i), b(i))).ok().unwrap());
        e.push(r.create_entity(a(10 + i)).ok().unwrap());
    }
    (r, e)
}
/// Everything that may move or drop values.
fn stir(r: &mut Registry, e: &[Entity]) {
    for i in 0..140 {
        r.create_entity(a(i)).ok();
        r.create_entity((b(i), a(i))).ok();
    }
    for x in e {
        r.destroy_entity(*x);
    }
}
'''


def probes():
    """Name, items, body of main."""
    out = []

    def add(name, body, items=""):
        out.append((name, items, body))

    reads = {
        "get_component": "let x = r.get_component::<A>(e[0]).unwrap();",
        "get_component_mut": "let x = r.get_component_mut::<A>(e[0]).unwrap();",
        "get_components": "let x = r.get_components::<(A, B)>(e[0]).unwrap();",
        "get_components_mut": "let x = r.get_components_mut::<(B, A)>(e[0]).unwrap();",
        "iter_entities": "let mut i = r.iter_entities(); let x = i.next().unwrap();",
    }
    for m in ("", "_mut"):
        for form, arg, gen in (("iter_components_matching", "", "A"), ("iter_entity_components_matching", "", "(B, A)"),
                               ("iter_filtered_components_matching", "|_| true", "A, _"), ("iter_filtered_entity_components_matching", "|_| true", "(A, B), _")):
            reads[form + m] = "let mut i = r.%s%s::<%s>(%s); let x = i.next().unwrap();" % (form, m, gen, arg)
            reads[form + m + "_item"] = "let x = r.%s%s::<%s>(%s).next().unwrap();" % (form, m, gen, arg)
        reads["iter_components_exact" + m] = "let x = r.iter_components_exact%s::<(A, B)>();" % m
        reads["iter_entity_components_exact" + m] = "let x = r.iter_entity_components_exact%s::<A>();" % m
        # Each part of what is returned, for itself.
        for part in (0, 1):
            reads["iter_components_exact%s_part_%d" % (m, part)] = "let x = r.iter_components_exact%s::<(A, B)>().%d;" % (m, part)
            reads["get_components%s_part_%d" % (m, part)] = "let x = r.get_components%s::<(B, A)>(e[0]).unwrap().%d;" % (m, part)
            for form, arg, gen in (("iter_components_matching", "", "(B, A)"), ("iter_entity_components_matching", "", "A"),
                                   ("iter_filtered_components_matching", "|_| true", "(A, B), _"), ("iter_filtered_entity_components_matching", "|_| true", "B, _")):
                reads["%s%s_part_%d" % (form, m, part)] = "let x = r.%s%s::<%s>(%s).next().unwrap().%d;" % (form, m, gen, arg, part)
            for gen, more in (("A", ""), ("(A, B)", ".0"), ("(A, B)", ".1")):
                if part or not more:
                    reads["iter_entity_components_exact%s_%s_part_%d%s" % (m, len(gen), part, more.replace(".", "_"))] = \
                        "let x = r.iter_entity_components_exact%s::<%s>().%d%s;" % (m, gen, part, more)
    use = "see(&x);"
    for name, get in reads.items():
        # An iterator that was not exhausted is used again, too.
        after = use + (" while let Some(y) = i.next() { see(&y); }" if "let mut i" in get else "")
        add(name + "_across_changes", "let (mut r, e) = world(); %s stir(&mut r, &e); %s" % (get, after))
        add(name + "_across_drop", "let (mut r, e) = world(); %s drop(r); %s" % (get, after))
        add(name + "_escapes", "let x = { let (mut r, e) = world(); %s x }; see(&x);" % get if "let mut i" not in get else
            "let (mut i, x) = { let (mut r, e) = world(); %s (i, x) }; %s" % (get, after))
        if name != "iter_entities":
            add(name + "_beside_mut", "let (mut r, e) = world(); %s let y = r.get_component_mut::<A>(e[0]).unwrap(); *y.0 = 7; *y = a(8); %s" % (get, after))
            add(name + "_beside_remove", "let (mut r, e) = world(); %s drop(r.remove_component::<A>(e[0])); %s" % (get, after))
        if "mut" in name:
            second = get.replace("let x", "let y").replace("let mut i", "let mut j").replace("i.next()", "j.next()")
            add(name + "_twice", "let (mut r, e) = world(); %s %s see(&x); see(&y); see(&x);" % (get, second))
        add(name + "_for_ever", "let (mut r, e) = world(); let mut x = keep(&mut r, &e); drop(r); %s" % ("see(&x);" if name != "iter_entities" else "while let Some(y) = x.next() { see(&y); }"),
            "fn keep(r: &mut Registry, e: &[Entity]) -> impl std::fmt::Debug + 'static { %s x }" % get if name != "iter_entities" else
            "fn keep(r: &mut Registry, e: &[Entity]) -> impl Iterator<Item = Entity> + 'static { r.iter_entities() }")
    # Through a shared reference.
    for name, get in reads.items():
        if "mut" in name:
            add(name + "_shared", "let (mut r, e) = world(); let s = &r; let z = s.get_component::<A>(e[0]).unwrap(); %s see(&x); see(&z);" % get.replace("r.", "s."))
    add("change_through_shared", "let (r, e) = world(); let z = r.get_component::<A>(e[0]).unwrap(); let s = &r; s.destroy_entity(e[0]); see(&z);")
    add("create_through_shared", "let (r, e) = world(); let z = r.get_component::<A>(e[0]).unwrap(); let s = &r; for i in 0..200 { s.create_entity((a(i), b(i))).ok(); } see(&z);")
    add("add_through_shared", "let (r, e) = world(); let z = r.get_component::<A>(e[1]).unwrap(); let s = &r; s.add_component(e[1], b(1)).ok(); see(&z);")
    add("remove_through_shared", "let (r, e) = world(); let z = r.get_component::<A>(e[0]).unwrap(); let s = &r; drop(s.remove_component::<A>(e[0])); see(&z);")
    # Components that are not what a component has to be.
    add("component_not_send", "let mut r = Registry::default(); let c = std::rc::Rc::new(1u32); let e = r.create_entity(N(c.clone())).ok().unwrap();"
        " let t = std::thread::spawn(move || { for _ in 0..200 { drop(r.get_component::<N>(e).unwrap().0.clone()); } });"
        " for _ in 0..200 { drop(c.clone()); } t.join().unwrap();",
        "struct N(std::rc::Rc<u32>); impl Component for N { const NAME: &'static str = \"N\"; }")
    add("component_not_sync", "let mut r = Registry::default(); let e = r.create_entity(N(std::cell::Cell::new(1))).ok().unwrap(); let r = &r;"
        " std::thread::scope(|s| { for _ in 0..2 { s.spawn(move || for _ in 0..200 { let c = &r.get_component::<N>(e).unwrap().0; c.set(c.get() + 1); }); } });",
        "struct N(std::cell::Cell<u32>); impl Component for N { const NAME: &'static str = \"N\"; }")
    add("component_borrows", "let mut r = Registry::default(); let e; { let s = String::from(\"short\"); e = r.create_entity(N(&s)).ok().unwrap(); } see(r.get_component::<N>(e).unwrap().0);",
        "struct N<'a>(&'a String); impl<'a> Component for N<'a> { const NAME: &'static str = \"N\"; }")
    add("component_of_another_life", "let mut r = Registry::default(); let s = String::from(\"short\"); let e = r.create_entity(N(&s)).ok().unwrap();"
        " let x: &'static String = r.get_component::<N<'static>>(e).unwrap().0; drop(s); see(x);",
        "struct N<'a>(&'a String); impl<'a> Component for N<'a> { const NAME: &'static str = \"N\"; }")
    # Threads.
    add("two_threads_change", "let (mut r, e) = world(); std::thread::scope(|s| { s.spawn(|| { for i in 0..50 { r.create_entity(a(i)).ok(); } }); s.spawn(|| { for i in 0..50 { r.create_entity(a(i)).ok(); } }); });")
    add("reader_and_writer", "let (mut r, e) = world(); std::thread::scope(|s| { s.spawn(|| for _ in 0..50 { see(&r.get_component::<A>(e[0])); }); s.spawn(|| for i in 0..50 { *r.get_component_mut::<A>(e[0]).unwrap() = a(i); }); });")
    add("one_slice_two_threads", "let (mut r, e) = world(); let x = r.iter_components_exact_mut::<A>(); std::thread::scope(|s| { s.spawn(|| x[0] = a(1)); s.spawn(|| x[0] = a(2)); });")
    add("detached_thread", "let (mut r, e) = world(); let x = r.get_component::<A>(e[0]).unwrap(); let t = std::thread::spawn(move || for _ in 0..50 { see(x); }); drop(r); t.join().unwrap();")
    # Filters live as long as the iterator.
    for f in ("iter_filtered_components_matching", "iter_filtered_entity_components_matching"):
        for m in ("", "_mut"):
            add("%s%s_filter" % (f, m), "let (mut r, e) = world(); let mut i = { let s = String::from(\"short\"); r.%s%s::<A, _>(|d: &ArchetypeDescriptor| { see(&s); true }) }; while let Some(x) = i.next() { see(&x); }" % (f, m))
    add("filter_keeps_descriptor", "let (r, e) = world(); let kept = std::cell::RefCell::new(None); for x in r.iter_filtered_components_matching::<A, _>(|d| { *kept.borrow_mut() = Some(d); true }) { see(&x); } drop(r); see(&kept.borrow().unwrap().len());")
    # The modules below the registry.
    low = "let mut s = ArchetypeRegistry::default(); let d = <(A, B) as ComponentGroup>::DESCRIPTOR.archetype();"
    more = "for i in 0..1 { s.find_or_create_archetype(<A as ComponentGroup>::DESCRIPTOR.archetype()); s.find_or_create_archetype(<B as ComponentGroup>::DESCRIPTOR.archetype()); }"
    for name, get in (("find_archetype", "s.find_or_create_archetype(d); let x = s.find_archetype(d).unwrap();"),
                      ("find_archetype_mut", "s.find_or_create_archetype(d); let x = s.find_archetype_mut(d).unwrap();"),
                      ("find_or_create", "let x = s.find_or_create_archetype(d).unwrap().1;"),
                      ("adding", "let n = s.find_or_create_archetype(<A as ComponentGroup>::DESCRIPTOR.archetype()).unwrap().0; let x = s.find_or_create_archetype_adding_component(n, &<B as Component>::DESCRIPTOR).unwrap().0;"),
                      ("index", "s.find_or_create_archetype(d); let x = &s[0];"), ("index_mut", "s.find_or_create_archetype(d); let x = &mut s[0];")):
        add("low_%s_across_drop" % name, "%s %s drop(s); see(&x.entities()); see(&x.len());" % (low, get))
        add("low_%s_across_changes" % name, "%s %s for i in 0..9 { %s } see(&x.entities()); see(&x.len());" % (low, get, more))
    add("low_entities_across_drop", low + " let x = s.find_or_create_archetype(d).unwrap().1.entities(); drop(s); see(x);")
    add("low_descriptor_across_drop", low + " let x = s.find_or_create_archetype(d).unwrap().1.descriptor(); drop(s); see(&x.len());")
    ents = "use shard_ecs::entity_registry::*; let mut s = EntityRegistry::default(); let e = s.create_entity(IndexInArchetype::new(1).unwrap(), ArchetypeIndex::new(1).unwrap()).unwrap();"
    grow = "for _ in 0..200 { s.create_entity(IndexInArchetype::new(1).unwrap(), ArchetypeIndex::new(1).unwrap()); }"
    for m in ("", "_mut"):
        get = "let x = s.entity_entry%s(e).unwrap();" % m
        add("low_entry%s_across_growth" % m, "%s %s %s see(&x);" % (ents, get, grow))
        add("low_entry%s_across_drop" % m, "%s %s drop(s); see(&x);" % (ents, get))
    add("low_entry_mut_twice", ents + " let x = s.entity_entry_mut(e).unwrap(); let y = s.entity_entry_mut(e).unwrap(); x.set_version(3); y.set_version(4); see(&x);")
    add("low_iter_across_growth", ents + " let mut i = s.iter(); %s while let Some(x) = i.next() { see(&x); }" % grow)
    # Components whose size or alignment has no place in their descriptor.
    for name, attr, field, value in (
        ("size_65536", "", "[u8; 65_536]", "[n; 65_536]"), ("size_70000", "", "[u8; 70_000]", "[n; 70_000]"), ("size_131072", "", "[u64; 16_384]", "[n as u64; 16_384]"),
        ("align_65536", "#[repr(align(65536))]", "u8", "n"), ("align_131072", "#[repr(align(131072))]", "[u8; 3]", "[n; 3]")):
        items = "%s struct Huge(%s);\nimpl Component for Huge {\n    const NAME: &'static str = \"hostile::Huge\";\n}\nfn huge(n: u8) -> Huge { Huge(%s) }\nfn weigh(h: &Huge) -> u64 { let p = h as *const Huge as *const u8; assert_eq!(p as usize %% std::mem::align_of::<Huge>(), 0); std::hint::black_box(h); unsafe { *p as u64 } }" % (attr, field, value)
        items = items.replace("unsafe { *p as u64 }", "h.0%s as u64" % ("[0]" if field[0] == "[" else ""))
        add(name + "_alone", "let mut r = Registry::default(); let e: Vec<_> = (0..3).map(|n| r.create_entity(huge(n)).ok().unwrap()).collect(); for x in &e { see(&r.get_component::<Huge>(*x).map(weigh)); } see(&r.remove_component::<Huge>(e[0]).is_ok()); see(&r.destroy_entity(e[1]));", items)
        add(name + "_group", "let mut r = Registry::default(); let e: Vec<_> = (0..3).map(|n| r.create_entity((a(1), huge(n))).ok().unwrap()).collect(); for x in &e { see(&r.get_component::<Huge>(*x).map(weigh)); see(&r.get_component::<A>(*x)); }", items)
        add(name + "_added", "let (mut r, e) = world(); for x in &e { r.add_component(*x, huge(3)).ok(); } for x in &e { see(&r.get_component::<Huge>(*x).map(weigh)); see(&r.get_component::<A>(*x)); } stir(&mut r, &e);", items)
    return out


def run(prop, tier, seed, work, repo, verif, env):
    res = {"evaluations": 0, "distinct": [], "samples": [], "problems": [], "violations": [],
           "counts": {"hostile_programs": 0, "hostile_programs_refused": 0, "hostile_programs_refused_for_another_reason": 0, "hostile_programs_run": 0}}
    crate = os.path.join(work, "hostile")
    shutil.rmtree(crate, ignore_errors=True)
    os.makedirs(os.path.join(crate, "src/bin"))
    with open(os.path.join(crate, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "hostile"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nshard-ecs = { path = "%s" }\n' % repo)
    shutil.copy(os.path.join(verif, "harness", "Cargo.lock"), os.path.join(crate, "Cargo.lock"))
    all = probes()
    assert len({n for n, _, _ in all}) == len(all)
    for name, items, body in all + [("harmless", "", "let (mut r, e) = world(); see(&r.get_component::<A>(e[0])); stir(&mut r, &e);")]:
        with open(os.path.join(crate, "src/bin", name + ".rs"), "w") as f:
            f.write(PRELUDE + items + "\nfn main() {\n    %s\n}\n" % body)
    o = subprocess.run(["cargo", "check", "--offline", "--bins", "--keep-going", "--message-format=json"], cwd=crate, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    errors, built = {}, set()
    for l in o.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        name = m.get("target", {}).get("name")
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errors.setdefault(name, []).append(((m["message"].get("code") or {}).get("code"), m["message"]["message"]))
        elif m.get("reason") == "compiler-artifact":
            built.add(name)
    if "harmless" not in built:
        res["problems"].append("the programs which try to misuse the interface do not even compile when they do not: " + (str(errors.get("harmless")) + o.stderr[-800:]))
        return res
    # Borrowing, lifetimes, and bounds on components or on what may go to another thread.
    proper = {"E0499", "E0502", "E0503", "E0505", "E0506", "E0521", "E0597", "E0594", "E0596", "E0700", "E0713", "E0716", "E0310", "E0309", "E0477", "E0478", "E0491", "E0515", "E0373", "E0381", "E0382"}
    for name, items, body in all:
        res["counts"]["hostile_programs"] += 1
        if name not in built:
            if not errors.get(name):
                res["problems"].append("no verdict on the program %s: %s" % (name, o.stderr[-500:]))
                continue
            codes = {c for c, _ in errors[name]}
            fine = codes & proper or None in codes and any("lifetime" in t or "borrow" in t for _, t in errors[name]) or "E0277" in codes and any("between threads" in t for _, t in errors[name])
            res["counts"]["hostile_programs_refused" if fine else "hostile_programs_refused_for_another_reason"] += 1
            if fine:
                res["evaluations"] += 1
                res["distinct"].append("refused|%s" % name)
            else:
                res["samples"].append({"program": name, "refused_for": errors[name][:2]})
            continue
        e = dict(env, XDG_CACHE_HOME=os.path.join(verif, "target", "miri-home"))
        e.pop("RUSTFLAGS", None)
        e["MIRIFLAGS"] = "-Zmiri-tree-borrows -Zmiri-ignore-leaks -Zmiri-disable-isolation"
        e["CARGO_TARGET_DIR"] = os.path.join(work, "hostile-miri")
        try:
            r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--bin", name], cwd=crate, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=240, errors="replace")
        except subprocess.TimeoutExpired:
            res["problems"].append("the program %s is accepted and does not end under Miri" % name)
            continue
        res["counts"]["hostile_programs_run"] += 1
        res["evaluations"] += 1
        res["distinct"].append("ran|%s" % name)
        # Refused when the constants are computed, which "cargo check" does not do.
        if "error[E0080]" in r.stderr:
            res["counts"]["hostile_programs_run"] -= 1
            res["counts"]["hostile_programs_refused"] += 1
            res["distinct"][-1] = "refused|%s" % name
            continue
        hit = re.search(r"error: Undefined Behavior.*", r.stderr)
        if hit:
            res["violations"].append("a program of safe code is accepted and misuses the registry (%s): %s | %s" % (name, hit.group(0), body))
            return res
    return res


if __name__ == "__main__":
    import sys, tempfile
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    w = tempfile.mkdtemp()
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(w, "t"), CARGO_NET_OFFLINE="true")
    r = run("C07", "quick", 1, w, "/repo", os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env)
    r["distinct"] = len(r["distinct"])
    print(json.dumps(r, indent=1))
    shutil.rmtree(w)
