//! Hostile lengths and addresses. The allocator counts; requests beyond 64 MiB end the process.
use mc::explore::*;
#[global_allocator]
static A: mc::alloc_cap::Counting = mc::alloc_cap::Counting;
fn refused(n: usize) {
    mc::report::refused("C19", n);
}
fn main() {
    let _ = mc::alloc_cap::HOOK.set(refused);
    real::go()
}
mod real {
    use mc::explore::*;
    mc::check_fn!(go, "C19", "hostile", [Cfg { name: "boundary values", judge: Judge::Total, ..CFG }]);
}
