//! Operations as a user would define them, such that the code generated by
//! `#[derive(RemoteExecute)]` is type-checked and can be analysed.
use paladin::{
    operation::{Monoid, Operation, Result},
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Serialize};

paladin::registry!();

/// What a user's operations do; opaque to the analysis.
pub fn probe_first(op: &ProbeFirst, input: u64, _abort: AbortSignal) -> Result<u64> {
    Ok(op.0.wrapping_add(input))
}

pub fn probe_second(_op: &ProbeSecond, input: String, _abort: AbortSignal) -> Result<Vec<u8>> {
    Ok(input.into_bytes())
}

pub fn probe_monoid(_op: &ProbeMonoid, a: String, b: String, _abort: AbortSignal) -> Result<String> {
    Ok(a + &b)
}

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct ProbeFirst(pub u64);

impl Operation for ProbeFirst {
    type Input = u64;
    type Output = u64;

    fn execute(&self, input: u64, abort: AbortSignal) -> Result<u64> {
        probe_first(self, input, abort)
    }
}

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct ProbeSecond;

impl Operation for ProbeSecond {
    type Input = String;
    type Output = Vec<u8>;

    fn execute(&self, input: String, abort: AbortSignal) -> Result<Vec<u8>> {
        probe_second(self, input, abort)
    }
}

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct ProbeMonoid;

impl Monoid for ProbeMonoid {
    type Elem = String;

    fn empty(&self) -> String {
        String::new()
    }

    fn combine(&self, a: String, b: String, abort: AbortSignal) -> Result<String> {
        probe_monoid(self, a, b, abort)
    }
}
