//! Universally quantified inputs.
//!
//! Under the verifier every `any_*` is a fresh unconstrained symbolic value and
//! `assume` restricts the quantification. Compiled natively (only to replay a
//! counterexample) the same functions read recorded bytes.

#[cfg(kani)]
mod imp {
    #[inline]
    pub fn any_bool() -> bool {
        kani::any()
    }
    #[inline]
    pub fn any_u8() -> u8 {
        kani::any()
    }
    #[inline]
    pub fn any_u16() -> u16 {
        kani::any()
    }
    #[inline]
    pub fn any_u32() -> u32 {
        kani::any()
    }
    #[inline]
    pub fn any_u64() -> u64 {
        kani::any()
    }
    #[inline]
    pub fn any_u128() -> u128 {
        kani::any()
    }
    #[inline]
    pub fn assume(b: bool) {
        kani::assume(b)
    }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;

    pub struct AssumeFailed;
    pub struct OutOfInput;

    pub enum Source {
        Recorded(VecDeque<Vec<u8>>),
        Random(u64, Vec<Vec<u8>>),
    }

    thread_local! {
        pub static SOURCE: RefCell<Source> = RefCell::new(Source::Recorded(VecDeque::new()));
    }

    fn take(n: usize) -> u128 {
        SOURCE.with(|s| match &mut *s.borrow_mut() {
            Source::Recorded(q) => match q.pop_front() {
                Some(bytes) => {
                    let mut v = 0u128;
                    for (i, b) in bytes.iter().take(n).enumerate() {
                        v |= u128::from(*b) << (8 * i);
                    }
                    v
                }
                None => std::panic::panic_any(OutOfInput),
            },
            Source::Random(state, log) => {
                let mut v = 0u128;
                let mut bytes = Vec::new();
                // Small values half of the time, so that indices hit.
                let mut small = 0;
                for i in 0..n {
                    *state ^= *state << 13;
                    *state ^= *state >> 7;
                    *state ^= *state << 17;
                    let r = (*state >> 24) as u32;
                    if i == 0 {
                        small = r & 3;
                    }
                    let b = match small {
                        0 => ((r >> 8) & 1) as u8 * u8::from(i == 0),
                        1 => ((r >> 8) & 7) as u8 * u8::from(i == 0),
                        _ => (r >> 8) as u8,
                    };
                    bytes.push(b);
                    v |= u128::from(b) << (8 * i);
                }
                log.push(bytes);
                v
            }
        })
    }

    pub fn any_bool() -> bool {
        take(1) & 1 != 0
    }
    pub fn any_u8() -> u8 {
        take(1) as u8
    }
    pub fn any_u16() -> u16 {
        take(2) as u16
    }
    pub fn any_u32() -> u32 {
        take(4) as u32
    }
    pub fn any_u64() -> u64 {
        take(8) as u64
    }
    pub fn any_u128() -> u128 {
        take(16)
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(AssumeFailed);
        }
    }
}

pub use imp::*;

/// Any index below `n`.
#[inline]
pub fn any_below(n: usize) -> usize {
    let i = any_u8();
    assume((i as usize) < n);
    i as usize
}

#[inline]
pub fn any_option() -> Option<u8> {
    if any_bool() {
        Some(any_u8())
    } else {
        None
    }
}
