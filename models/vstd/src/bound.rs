//! Bound markers.  A harness that runs into the capacity of a model has left the stated bounds of
//! the check: the failure text starts with `BOUND:` and the driver treats it as "no verdict",
//! never as a violation and never as success.
#[inline]
pub fn bound(ok: bool) {
    if crate::sync::atomic::sched::active() {
        // a value guessed wrongly; an execution that really interleaves never gets here unless the
        // harness is too big for the models
        assert!(ok, "CUT: model capacity exceeded in a concurrent phase");
    }
    assert!(ok, "BOUND: model capacity exceeded");
}

/// A violation of the documented contract of an unsafe std operation (undefined behaviour).
#[inline]
pub fn ub(ok: bool) {
    assert!(ok, "UB: contract of an unsafe std operation violated");
}

/// Ends an execution that is no interleaving of the threads.
#[inline]
pub fn cut() {
    assert!(false, "CUT: not an interleaving");
}
