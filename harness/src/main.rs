#![allow(dead_code)]
mod abi;
mod abuse;
mod case;
mod foreign;
mod gen;
mod hist;
mod mig;
mod mocks;
mod props;
mod refmath;
mod refmodel;
mod released;
mod run;
mod sim;
mod tape;
mod vary;
mod world;

fn main() {
    std::process::exit(run::main());
}
