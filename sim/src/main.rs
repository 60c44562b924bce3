mod exec;
mod orch;
mod scen;

#[global_allocator]
static ALLOC: pdcore::rt::SimAlloc = pdcore::rt::SimAlloc;

fn main() {
    orch::main()
}
