use proptest::prelude::*;
use vh::engine::{main as run, Prop, Stats, Tier};
use vh::interp::{ask, case, prepare, Case, ASAN, HOST};

struct C25;

impl Prop for C25 {
    const ID: &'static str = "C25";
    const RULE: &'static str = "Random pinned requests through sinks, signature methods and values that look at every piece of text they \
        are handed (it must be UTF-8), compared with the reference, natively and in a build with AddressSanitizer; one in 600 also interpreted by Miri, which \
        watches every memory access; RSA keys are also seen as signature methods; non-trivial = with a parameter that needs encoding.";
    type Case = Case;
    const CASES: u32 = 45_000;

    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        case(600)
    }

    fn check(case: &Case, st: &mut Stats) -> Result<(), String> {
        case.judge(&case.native())?;
        case.judge(&ask(ASAN, case)?)?;
        if case.interpreted {
            case.judge(&ask(HOST, case)?)?;
            st.label("interpreted");
        }
        if case.c.req.params.iter().any(|p| p.encoded() != p.v.s) {
            st.nontrivial();
        }
        st.label_if(case.interpreted && case.rsa > 0, "interpreted, RSA key");
        st.label_if(case.interpreted && case.rsa > 1, "interpreted, RSA signature");
        st.label_if(case.auto, "automatic nonce");
        Ok(())
    }
}

fn main() {
    if matches!(std::env::args().nth(1).as_deref(), Some("run" | "replay")) {
        prepare(&[ASAN, HOST]);
    }
    run::<C25>()
}
