//! Native world: the harness runs on concrete inputs with the real field, the real num-bigint and
//! the real constraint types; a job is read from stdin and everything observable is printed.
use bellpepper_core::Index;
use ff::{Field, PrimeField};
use num_bigint::{BigInt, Sign};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};

/// the repository's own scalar field (`util::scalar::Fr`) with the bit access `StepCircuit` needs
#[derive(ff::PrimeField)]
#[PrimeFieldModulus = "52435875175126190479447740508185965837690552500527637822603658699938581184513"]
#[PrimeFieldGenerator = "7"]
#[PrimeFieldReprEndianness = "little"]
pub struct Fr([u64; 4]);
pub type F = Fr;

#[derive(Default)]
struct St {
    params: HashMap<String, u64>,
    inputs: HashMap<(String, u64), BigInt>,
    out: String,
    n_aux: usize,
    n_in: usize,
    cur: String,
    sha_calls: u64,
}
thread_local! { static ST: RefCell<St> = RefCell::new(St::default()); }

fn with<R>(f: impl FnOnce(&mut St) -> R) -> R { ST.with(|s| f(&mut s.borrow_mut())) }
fn fz(f: &F) -> BigInt { BigInt::from_bytes_le(Sign::Plus, f.to_repr().as_ref()) }
fn zf(z: &BigInt) -> F {
    let (_, b) = z.to_bytes_be();
    let mut r = F::ZERO;
    let base = F::from(256u64);
    for d in b { r = r * base + F::from(d as u64); }
    r
}
fn get(name: &str, i: usize) -> BigInt { with(|s| s.inputs.get(&(name.to_string(), i as u64)).cloned().unwrap_or_default()) }
fn low64(z: &BigInt, w: usize) -> u64 { z.to_u64_digits().1.get(w).copied().unwrap_or(0) }
pub fn param(name: &str) -> u64 { with(|s| s.params.get(name).copied().unwrap_or(0)) }
pub fn in_u64(name: &str, i: usize, _bits: u64) -> u64 { low64(&get(name, i), 0) }
pub fn in_u128(name: &str, i: usize, _bits: u64) -> u128 { let z = get(name, i); ((low64(&z, 1) as u128) << 64) | low64(&z, 0) as u128 }
pub fn in_choice(name: &str, i: usize) -> bool { in_bool(name, i) }
pub fn in_bool(name: &str, i: usize) -> bool { low64(&get(name, i), 0) != 0 }
pub fn in_f(name: &str, i: usize, _bits: u64) -> F { zf(&get(name, i)) }
pub fn in_z(name: &str, i: usize, _bits: u64) -> BigInt { get(name, i) }
pub fn assume(b: bool) { if !b { panic!("ASSUME"); } }
fn o(name: &str, i: usize, v: String) { with(|s| s.out.push_str(&format!("O {} {} {}\n", name, i, v))) }
pub fn out_u64(name: &str, i: usize, v: u64) { o(name, i, v.to_string()) }
pub fn out_u128(name: &str, i: usize, v: u128) { o(name, i, v.to_string()) }
pub fn out_bool(name: &str, i: usize, v: bool) { o(name, i, (v as u8).to_string()) }
pub fn out_f(name: &str, i: usize, v: &F) { o(name, i, fz(v).to_string()) }
pub fn out_z(name: &str, i: usize, v: &BigInt) { o(name, i, v.to_string()) }
pub fn lc_begin(name: &str, i: usize) { with(|s| s.cur = format!("L {} {}", name, i)) }
pub fn lc_term(is_aux: u64, idx: usize, c: &F) { let t = format!(" {}:{}", 2 * idx as u64 + is_aux, fz(c)); with(|s| s.cur.push_str(&t)) }
pub fn lc_end() { with(|s| { let c = std::mem::take(&mut s.cur); s.out.push_str(&c); s.out.push('\n') }) }
pub fn alloc(kind: u64, v: Option<F>) -> usize {
    with(|s| {
        let idx = if kind == 1 { s.n_aux += 1; s.n_aux - 1 } else { s.n_in += 1; s.n_in - 1 };
        let vs = match v { Some(v) => fz(&v).to_string(), None => "-".to_string() };
        s.out.push_str(&format!("A {} {}\n", 2 * idx as u64 + kind, vs));
        idx
    })
}
pub fn enforce() { with(|s| s.out.push_str("K\n")) }
pub fn note(t: &str) { with(|s| s.out.push_str(&format!("N {}\n", t))) }

#[no_mangle] pub extern "C" fn sx_sha_begin(n: u64) -> u64 { with(|s| { let c = s.sha_calls; s.sha_calls += 1; s.out.push_str(&format!("O sha_len {} {}\n", c, n)); c }) }
#[no_mangle] pub extern "C" fn sx_sha_in(call: u64, i: u64, kind: u64, var: u64, value: u64) { with(|s| s.out.push_str(&format!("S {} {} {} {} {}\n", call, i, kind, var, value))) }
#[no_mangle] pub extern "C" fn sx_sha_out(call: u64, i: u64) -> u64 { low64(&get("sha", (call * 256 + i) as usize), 0) & 1 }
#[no_mangle] pub extern "C" fn sx_sha_out_var(call: u64, i: u64, var: u64) { with(|s| s.out.push_str(&format!("T {} {} {}\n", call, i, var))) }
#[allow(dead_code)] fn _idx(_: Index) {}

pub fn run(table: &[(&str, fn())]) {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = ST.try_with(|s| if let Ok(mut s) = s.try_borrow_mut() { s.out.push_str(&format!("P {} @ {}\n", msg.replace('\n', " "), loc)) });
    }));
    let stdin = std::io::stdin();
    let mut st = St::default();
    let mut harness = String::new();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "job" => { st = St::default(); st.n_in = 1; harness.clear(); }
            "harness" => harness = w[1].to_string(),
            "param" => { st.params.insert(w[1].to_string(), w[2].parse().unwrap()); }
            "in" => { st.inputs.insert((w[1].to_string(), w[2].parse().unwrap()), w[3].parse().unwrap()); }
            "end" => {
                let f = table.iter().find(|t| t.0 == harness).expect("unknown harness").1;
                let cur = std::mem::take(&mut st);
                ST.with(|s| *s.borrow_mut() = cur);
                let _ = std::panic::catch_unwind(f);
                let out = ST.with(|s| std::mem::take(&mut s.borrow_mut().out));
                let mut h = stdout.lock();
                h.write_all(out.as_bytes()).unwrap();
                h.write_all(b"END\n").unwrap();
                h.flush().unwrap();
            }
            _ => {}
        }
    }
}
