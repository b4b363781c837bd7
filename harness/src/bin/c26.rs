use proptest::prelude::*;
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::interp::{ask, case, prepare, Case};

struct C26;

/// 32 bits, little-endian; 64 bits, big-endian.
const PLATFORMS: [&str; 2] = ["i686-unknown-linux-gnu", "s390x-unknown-linux-gnu"];

impl Prop for C26 {
    const ID: &'static str = "C26";
    const RULE: &'static str = "Random pinned requests, unsigned and signed with HMAC-SHA1, PLAINTEXT and a custom method, answered by the \
        library interpreted by Miri for a 32-bit and for a big-endian platform; every answer equals the reference and the native build's; \
        non-trivial = with a parameter.";
    type Case = Case;
    const CASES: u32 = 128;
    const THOROUGH: u32 = 30;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        case(1)
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        let native = case.native();
        case.judge(&native)?;
        for p in PLATFORMS {
            let answers = ask(p, case)?;
            case.judge(&answers).map_err(|e| format!("on {}: {}", p, e))?;
            for (a, b) in answers.iter().zip(&native) {
                if a.0 != b'n' && a != b {
                    return Err(format!("on {}: {:?}, natively: {:?}", p, a, b));
                }
            }
        }
        if !case.c.req.params.is_empty() {
            st.nontrivial();
        }
        st.label_if(case.hmac && !case.auto, "HMAC-SHA1");
        st.label_if(case.rsa > 0, "RSA key");
        st.label_if(case.auto, "automatic nonce");
        Ok(())
    }
}

fn main() {
    if matches!(std::env::args().nth(1).as_deref(), Some("run" | "replay")) {
        prepare(&PLATFORMS);
    }
    vh::gen::no_huge();
    run::<C26>()
}
