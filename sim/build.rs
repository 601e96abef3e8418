fn main() {
    // The simulator interposes libc symbols from the executable; they must be
    // visible to the dynamic linker (dlsym/weak lookups in std and getrandom).
    println!("cargo:rustc-link-arg-bins=-rdynamic");
    println!("cargo:rustc-link-arg-bins=-Wl,--export-dynamic");
    println!("cargo:rerun-if-changed=build.rs");
}
