// As /repo/build.rs generates the parser and names the version.
fn main() {
    println!("cargo:rerun-if-changed=repo/src/yul.lalrpop");
    println!("cargo:rustc-env=GIT_HASH=verif");
    lalrpop::Configuration::new().set_in_dir("repo/src").set_out_dir(std::env::var("OUT_DIR").unwrap()).process().unwrap();
}
