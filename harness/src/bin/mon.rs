#[cfg(not(any(miri, feature = "plainalloc")))]
#[global_allocator]
static ALLOC: monlib::alloc::Mon = monlib::alloc::Mon;

fn main() {
    if let Ok(mode) = std::env::var("MON_WRAP") {
        std::process::exit(monlib::mem::wrap_child(&mode));
    }
    std::process::exit(monlib::runner::main_with(monlib::registry::PROPS))
}
