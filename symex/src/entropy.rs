//! Deterministic entropy: every `getrandom` call of a party thread draws from a stream that
//! depends only on the run's seed, the party and the position, so a run can be repeated.
use rand::{RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;
use std::cell::Cell;
use std::collections::HashMap;
use std::sync::Mutex;

static STREAMS: Mutex<Option<(u64, HashMap<u64, ChaCha12Rng>)>> = Mutex::new(None);

thread_local! { static PARTY: Cell<u64> = const { Cell::new(0) }; }

pub fn set_party(p: u64) {
    PARTY.with(|c| c.set(p));
}

pub fn party() -> u64 {
    PARTY.with(|c| c.get())
}

pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn hook(buf: &mut [u8]) {
    let p = PARTY.with(|c| c.get());
    let mut g = STREAMS.lock().unwrap_or_else(|e| e.into_inner());
    let (seed, m) = g.get_or_insert_with(|| (seed(), HashMap::new()));
    let s = *seed;
    m.entry(p)
        .or_insert_with(|| {
            let mut k = [0u8; 32];
            k[..8].copy_from_slice(&s.to_le_bytes());
            k[8..16].copy_from_slice(&p.to_le_bytes());
            k[16] = 0xA5;
            ChaCha12Rng::from_seed(k)
        })
        .fill_bytes(buf);
}

/// Restarts all streams.
pub fn restart() {
    getrandom::set_verif_hook(hook);
    *STREAMS.lock().unwrap_or_else(|e| e.into_inner()) = None;
    set_party(0);
}

/// A deterministic RNG for the harness itself.
pub fn rng(label: u64) -> ChaCha12Rng {
    let mut k = [0u8; 32];
    k[..8].copy_from_slice(&seed().to_le_bytes());
    k[8..16].copy_from_slice(&label.to_le_bytes());
    k[16] = 0x5A;
    ChaCha12Rng::from_seed(k)
}
