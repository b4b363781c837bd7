//! `interp` for WebAssembly: the host (run.js) calls `room` for where to put a frame, then `answer`.

use std::cell::RefCell;
use std::num::NonZeroU32;

thread_local! {
    static FRAME: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

#[link(wasm_import_module = "host")]
extern "C" {
    fn entropy(at: *mut u8, n: usize) -> bool;
    fn complain(at: *const u8, n: usize);
}

getrandom::register_custom_getrandom!(from_host);

fn from_host(buf: &mut [u8]) -> Result<(), getrandom::Error> {
    if unsafe { entropy(buf.as_mut_ptr(), buf.len()) } {
        Ok(())
    } else {
        Err(NonZeroU32::new(getrandom::Error::CUSTOM_START).unwrap().into())
    }
}

#[no_mangle]
pub extern "C" fn start() {
    std::panic::set_hook(Box::new(|info| {
        if !interp::QUIET.with(|q| q.get()) {
            let s = info.to_string();
            unsafe { complain(s.as_ptr(), s.len()) };
        }
    }));
}

#[no_mangle]
pub extern "C" fn room(n: usize) -> *mut u8 {
    FRAME.with(|f| {
        let mut f = f.borrow_mut();
        *f = vec![0; n];
        f.as_mut_ptr()
    })
}

/// Answers the frame. When told that there is no entropy, it may panic instead: the answer is then 'x'.
#[no_mangle]
pub extern "C" fn answer(no_entropy: bool) -> *const u8 {
    let frame = FRAME.with(|f| f.take());
    let mut out = Vec::new();
    let mut keys = None;
    let mut go = || {
        interp::answer(&frame, &mut keys, &mut |tag, s| {
            out.push(tag);
            out.extend((s.len() as u32).to_le_bytes());
            out.extend(s.as_bytes());
        });
    };
    if no_entropy {
        interp::QUIET.with(|q| q.set(true));
        if std::panic::catch_unwind(std::panic::AssertUnwindSafe(go)).is_err() {
            out = vec![b'x', 0, 0, 0, 0];
        }
        interp::QUIET.with(|q| q.set(false));
    } else {
        go();
    }
    out.push(0);
    OUT.with(|o| {
        let mut o = o.borrow_mut();
        *o = out;
        o.as_ptr()
    })
}

#[no_mangle]
pub extern "C" fn answered() -> usize {
    OUT.with(|o| o.borrow().len())
}
