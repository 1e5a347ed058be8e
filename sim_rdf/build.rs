fn main() {
    // dlsym("getrandom") -- which std and the getrandom crate use -- must find the simulator's.
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
