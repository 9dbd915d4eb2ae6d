mod cache;
mod cap;
mod eq;
mod index;
mod map;
mod panics;
mod reclaim;
mod ser;
mod tree;
mod util;
mod zoo;

#[global_allocator]
static ALLOC: reclaim::Counting = reclaim::Counting;

fn main() {
    vcore::runner::main("plain", vec![map::m01(), index::i01(), cache::c01(), cache::c02(), ser::e01(), eq::e02(), cap::k01(), panics::p01(), tree::t01(), tree::t02(), d01(), d02(), reclaim::g01()]);
}

fn d01() -> vcore::Prop {
    vcore::Prop {
        id: "D01",
        rule: "Single-threaded histories on containers of various types (no destructor, zero-sized, over-aligned, heap-owning): every tracked key and value is dropped exactly once, none before it is removed, and none is left after the container is gone. Non-trivial: a resize and a removal or replacement.",
        suites: zoo::d01(),
    }
}

fn d02() -> vcore::Prop {
    vcore::Prop {
        id: "D02",
        rule: "Single-threaded histories on containers of various types (no destructor, zero-sized, over-aligned, heap-owning), where references are collected under a guard and checked later. Non-trivial: a reference was checked whose entry had been removed or replaced, or whose container had been dropped.",
        suites: zoo::d02(),
    }
}
