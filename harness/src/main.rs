#![allow(static_mut_refs)]
mod alloc;
mod bulk;
mod ch;
mod chc;
mod chs;
#[cfg(feature = "alloc")]
mod diff;
mod split;
mod elems;
mod engine;
mod lin;
mod q;
mod rt;
#[macro_use]
mod world;
mod cli;
mod vals;

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

fn main() {
    rt::install();
    rt::install_panic_hook();
    std::process::exit(cli::main());
}

fn more_suites(v: &mut Vec<(&'static str, engine::CaseFn)>) {
    v.push(("chc", chc::chc));
    v.push(("chc_weak", chc::chc_weak));
    v.push(("chc_ends", chc::chc_ends));
    v.push(("chc_async", chc::chc_async));
    v.push(("chc_block", chc::chc_block));
    v.push(("chs_async", chs::chs_async));
    #[cfg(feature = "alloc")]
    {
        v.push(("diff_q", diff::diff_q));
        v.push(("diff_async", diff::diff_async));
        v.push(("fmt_q", diff::fmt_q));
        v.push(("fmt_async", diff::fmt_async));
        v.push(("concq_stat", diff::concq_stat));
        v.push(("concq_dyn", diff::concq_dyn));
        v.push(("chc_stat", diff::chc_stat));
        v.push(("chc_dyn", diff::chc_dyn));
    }
    v.push(("split", split::split));
    v.push(("fmts", vals::fmts));
    v.push(("errs", vals::errs));
    v.push(("elems", elems::elems));
    v.push(("bulk", bulk::bulk));
    #[cfg(feature = "full")]
    {
        v.push(("chs_block", chs::chs_block));
        v.push(("diff_block", diff::diff_block));
        v.push(("concq_panic", diff::concq_panic));
        v.push(("concq_calm", diff::concq_calm));
        v.push(("chc_panic", diff::chc_panic));
        v.push(("chc_calm", diff::chc_calm));
        v.push(("chs_panic", diff::chs_panic));
        v.push(("chs_calm", diff::chs_calm));
        v.push(("chs_block_panic", diff::chs_block_panic));
        v.push(("chs_block_calm", diff::chs_block_calm));
        v.push(("ctor", vals::ctor));
        v.push(("policies", vals::pol::policies));
    }
}
