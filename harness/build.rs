fn main() {
    // execgraph enables pyo3's extension-module feature, which leaves the Python symbols undefined
    println!("cargo:rustc-link-arg=-lpython3.12");
    println!("cargo:rerun-if-changed=build.rs");
}
