mod block;
mod fw;
mod life;
mod lin;
mod linear;
mod mix;
mod scan;
mod tgt;
mod watch;

fn main() {
    vcore::types::set_hook(fw::hook);
    vcore::track::set_access_hook(loom::rt::data_access);
    loom::rt::set_decoder(vcore::track::decode);
    let mut p = Vec::new();
    p.extend(linear::props());
    p.extend(scan::props());
    p.extend(mix::props());
    p.extend(block::props());
    p.extend(life::props());
    vcore::runner::main("sched", p);
}
