#![allow(dangerous_implicit_autorefs, static_mut_refs)]

mod alloc;
mod campaign;
mod check;
mod crypto;
mod drive;
mod ecdsa;
mod plan;
mod refclient;
mod report;
mod runner;
mod seam;
mod selftest;
mod source;
mod threads;
mod tls;
mod world;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    std::process::exit(drive::main());
}
