use std::collections::HashSet;
use std::sync::Mutex;

use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::interp::{ask_wasm, case, prepare, Case, WASM};
use vh::{ensure, rfc};

struct C30;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Js {
    case: Case,
    /// What the JavaScript clock says, in milliseconds.
    clock: i64,
    /// Whether the host has random bytes to give.
    entropy: bool,
}

/// The range of JavaScript's dates.
const MAX: i64 = 8_640_000_000_000_000;

fn clock() -> impl Strategy<Value = i64> {
    prop_oneof![
        4 => 1_000_000_000_000i64..3_000_000_000_000,
        4 => (0u32..54, any::<u64>()).prop_map(|(n, r)| (r >> (63 - n)) as i64),
        2 => (prop_oneof![Just(1i64), Just(1 << 31), Just(1 << 32), Just(1 << 33), Just(10), Just(1_000_000_000), Just(2_000_000_000)], -2i64..3, -2i64..3)
            .prop_map(|(s, d, ms)| (s + d) * 1000 + ms),
        1 => Just(MAX),
        1 => -MAX..0,
    ]
    .prop_map(|t| t.clamp(-MAX, MAX))
}

impl Prop for C30 {
    const ID: &'static str = "C30";
    const RULE: &'static str = "Random requests, pinned or with an automatic nonce and timestamp, answered by the library compiled for \
        wasm32-unknown-unknown with the `js` feature and run by Node.js, whose clock is set to a random time and whose source of randomness \
        sometimes fails; every answer equals the reference and the native build's, automatic timestamps are the clock's seconds and no nonce \
        appears twice; non-trivial = with a parameter that needs encoding, or automatic.";
    type Case = Js;
    const CASES: u32 = 60_000;

    fn strategy(_: Tier) -> BoxedStrategy<Js> {
        (case(u32::MAX), clock(), proptest::bool::weighted(0.3), proptest::bool::weighted(0.9))
            .prop_map(|(mut case, clock, auto, entropy)| {
                case.auto |= auto;
                let entropy = entropy || !case.auto;
                Js { case, clock, entropy }
            })
            .prop_map(|mut js| {
                // Signing takes long.
                if js.clock % 8 != 0 {
                    js.case.rsa = js.case.rsa.min(1);
                }
                js
            })
            .boxed()
    }

    fn check(js: &Js, st: &mut Stats) -> Result<(), String> {
        let case = &js.case;
        let answers = ask_wasm(case, js.clock as f64, js.entropy)?;
        if !js.entropy && answers.iter().any(|a| a.0 == b'x') {
            st.label("no entropy: panicked");
            return Ok(());
        }
        case.judge_at(&answers, Some(js.clock.max(0) as u64 / 1000))?;
        let native = case.native();
        for (a, b) in answers.iter().zip(&native) {
            if a.0 != b'n' && a != b {
                return Err(format!("on {}: {:?}, natively: {:?}", WASM, a, b));
            }
        }
        static SEEN: Mutex<Option<HashSet<String>>> = Mutex::new(None);
        for (_, h) in answers.iter().filter(|a| a.0 == b'n') {
            let nonce = rfc::parse_header(h)?.into_iter().find(|i| i.0 == "oauth_nonce").ok_or("no nonce")?.1;
            let fresh = SEEN.lock().unwrap().get_or_insert_with(HashSet::new).insert(nonce.clone());
            ensure!(fresh, "the nonce {:?} was used before", nonce);
        }
        if case.auto || case.c.req.params.iter().any(|p| p.encoded() != p.v.s) {
            st.nontrivial();
        }
        st.label_if(case.auto, "automatic");
        st.label_if(case.auto && js.clock > 1000 << 32, "clock beyond 32 bits");
        st.label_if(case.hmac && !case.auto, "HMAC-SHA1");
        st.label_if(case.rsa > 1, "RSA signature");
        Ok(())
    }
}

fn main() {
    if matches!(std::env::args().nth(1).as_deref(), Some("run" | "replay")) {
        prepare(&[WASM]);
    }
    vh::gen::no_huge();
    run::<C30>()
}
