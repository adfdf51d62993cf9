/// The programs under test, copied here by build.sh.
#[allow(dead_code)]
mod bins {
    pub mod garble;
    pub mod preproc;
}
mod circ;
mod driver;
mod field;
mod gen;
mod mpc;
mod nets;
mod prop;
mod props;
mod run;
mod shrink;

fn main() {
    simrt::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(driver::main(&args));
}
