//! compiles the simulation runtime and links it into every program
use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let mpi = std::env::var("CARGO_FEATURE_MPI").is_ok();
    let cc = |src: &str, extra: &[&str]| {
        let o = format!("{out}/{src}.o");
        let st = Command::new("gcc")
            .args(["-O2", "-g1", "-Wall", "-fno-builtin-malloc", "-fno-strict-aliasing", "-fno-pie", "-c"])
            .args(extra)
            .arg(format!("../rt/{src}.c"))
            .args(["-o", &o])
            .status()
            .expect("gcc");
        assert!(st.success(), "gcc failed on {src}");
        o
    };
    for f in ["simrt.c", "simrt.h", "simmpi.c", "mpistubs.c"] {
        println!("cargo:rerun-if-changed=../rt/{f}");
    }
    println!("cargo:rerun-if-changed=build.rs");
    let mut objs = vec![cc("simrt", &[])];
    if mpi {
        let inc = Command::new("mpicc").arg("--showme:compile").output().expect("mpicc");
        let inc = String::from_utf8(inc.stdout).unwrap();
        let flags: Vec<&str> = inc.split_whitespace().collect();
        objs.push(cc("simmpi", &flags));
        objs.push(cc("mpistubs", &[]));
    }
    for o in &objs {
        println!("cargo:rustc-link-arg-bins={o}");
    }
    println!("cargo:rustc-link-arg-bins=-Wl,--as-needed");
    println!("cargo:rustc-link-arg-bins=-Wl,--dynamic-list={}", dynlist(&out));
    println!("cargo:rustc-link-arg-bins=-ldl");
    println!("cargo:rustc-link-arg-bins=-lpthread");
}
/// the interposed symbols, so that lookups by name find them as well
fn dynlist(out: &str) -> String {
    let p = format!("{out}/dyn.list");
    let names = "getrandom getentropy syscall read write readv writev open open64 openat openat64 close fstat fstat64 \
                 statx lseek lseek64 pread pread64 posix_fadvise malloc free calloc realloc reallocarray memalign \
                 aligned_alloc posix_memalign malloc_usable_size pthread_create pthread_join pthread_detach sched_yield \
                 sched_getaffinity sysconf gettid getpid clock_gettime nanosleep clock_nanosleep isatty";
    let body: String = names.split_whitespace().map(|n| format!("{n};\n")).collect();
    std::fs::write(&p, format!("{{\n{body}}};\n")).unwrap();
    p
}
