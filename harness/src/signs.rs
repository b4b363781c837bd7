//! Signature methods that record the calls made on them.

use std::cell::RefCell;
use std::fmt::Display;
use std::rc::Rc;

use oauth::signature_method::{Sign, SignatureMethod};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::gen::{val_of, Val};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Event {
    SignWith(String, Option<String>),
    Method(String),
    Uri(String),
    Param(String, String),
    Delimiter,
    Callback(String),
    ConsumerKey(String),
    Nonce(String),
    SignatureMethod,
    Timestamp(u64),
    Token(String),
    Verifier(String),
    Version,
    End,
}

pub type Log = Rc<RefCell<Vec<Event>>>;

pub const METHOD_NAMES: [&str; 6] = ["X", "HMAC-SHA256", "PLAINTEXT", "", "my.custom_method~1", "HMAC-SHA1"];

/// How a recording signature method behaves.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Config {
    pub name: u8,
    /// The text of the signature it produces.
    pub signature: Val,
    pub use_nonce: bool,
    pub use_timestamp: bool,
}

impl Config {
    pub fn name(&self) -> &'static str {
        METHOD_NAMES[self.name as usize % METHOD_NAMES.len()]
    }
}

pub fn config(signature: BoxedStrategy<String>) -> BoxedStrategy<Config> {
    (0u8..6, val_of(signature), any::<bool>(), any::<bool>())
        .prop_map(|(name, signature, n, t)| Config {
            name,
            signature,
            use_nonce: !n,
            use_timestamp: !t,
        })
        .boxed()
}

macro_rules! recorder {
    ($(#[$doc:meta])* $Name:ident { $($over:tt)* } $overridden:expr) => {
        $(#[$doc])*
        #[derive(Clone, Debug)]
        pub struct $Name {
            pub config: Config,
            pub log: Log,
        }

        impl $Name {
            /// The protocol parameters (by index) whose specialised callbacks this type overrides.
            pub const OVERRIDDEN: [bool; 8] = $overridden;

            pub fn new(config: &Config) -> $Name {
                $Name { config: config.clone(), log: Log::default() }
            }

            fn push(&self, e: Event) {
                self.log.borrow_mut().push(e);
            }
        }

        impl Recording for $Name {
            const OVERRIDDEN: [bool; 8] = $overridden;
            fn make(config: &Config) -> $Name {
                $Name::new(config)
            }
            fn log(&self) -> &Log {
                &self.log
            }
        }

        impl SignatureMethod for $Name {
            type Sign = $Name;
            fn sign_with(self, client: &str, token: Option<&str>) -> $Name {
                self.push(Event::SignWith(client.into(), token.map(Into::into)));
                self
            }
        }

        impl Sign for $Name {
            type Signature = Val;
            fn get_signature_method_name(&self) -> &'static str {
                self.config.name()
            }
            fn request_method(&mut self, m: &str) {
                self.push(Event::Method(m.into()));
            }
            fn uri<T: Display>(&mut self, u: T) {
                self.push(Event::Uri(u.to_string()));
            }
            fn parameter<V: Display>(&mut self, k: &str, v: V) {
                self.push(Event::Param(k.into(), v.to_string()));
            }
            fn delimiter(&mut self) {
                self.push(Event::Delimiter);
            }
            fn end(self) -> Val {
                self.push(Event::End);
                self.config.signature
            }
            fn use_nonce(&self) -> bool {
                self.config.use_nonce
            }
            fn use_timestamp(&self) -> bool {
                self.config.use_timestamp
            }
            recorder! { @over $($over)* }
        }
    };
    (@over callback $($r:tt)*) => {
        fn callback<V: Display>(&mut self, v: V) { self.push(Event::Callback(v.to_string())); }
        recorder! { @over $($r)* }
    };
    (@over consumer_key $($r:tt)*) => {
        fn consumer_key<V: Display>(&mut self, v: V) { self.push(Event::ConsumerKey(v.to_string())); }
        recorder! { @over $($r)* }
    };
    (@over nonce $($r:tt)*) => {
        fn nonce<V: Display>(&mut self, v: V) { self.push(Event::Nonce(v.to_string())); }
        recorder! { @over $($r)* }
    };
    (@over signature_method $($r:tt)*) => {
        fn signature_method(&mut self) { self.push(Event::SignatureMethod); }
        recorder! { @over $($r)* }
    };
    (@over timestamp $($r:tt)*) => {
        fn timestamp(&mut self, v: u64) { self.push(Event::Timestamp(v)); }
        recorder! { @over $($r)* }
    };
    (@over token $($r:tt)*) => {
        fn token<V: Display>(&mut self, v: V) { self.push(Event::Token(v.to_string())); }
        recorder! { @over $($r)* }
    };
    (@over verifier $($r:tt)*) => {
        fn verifier<V: Display>(&mut self, v: V) { self.push(Event::Verifier(v.to_string())); }
        recorder! { @over $($r)* }
    };
    (@over version $($r:tt)*) => {
        fn version(&mut self) { self.push(Event::Version); }
        recorder! { @over $($r)* }
    };
    (@over) => {};
}

pub trait Recording: SignatureMethod + Clone {
    const OVERRIDDEN: [bool; 8];
    fn make(config: &Config) -> Self;
    fn log(&self) -> &Log;
}

recorder! {
    /// Overrides every callback.
    Full { callback consumer_key nonce signature_method timestamp token verifier version }
    [true; 8]
}
recorder! {
    /// Overrides no callback.
    Bare {}
    [false; 8]
}
recorder! {
    /// Overrides every other callback.
    Odd { consumer_key signature_method token version }
    [false, true, false, true, false, true, false, true]
}
recorder! {
    /// Overrides the callbacks that `Odd` does not.
    Even { callback nonce timestamp verifier }
    [true, false, true, false, true, false, true, false]
}

/// The signature base string that the recorded calls stand for, and what is wrong with the calls.
pub fn base_of(log: &[Event], config: &Config, overridden: [bool; 8]) -> Result<String, String> {
    let mut it = log.iter();
    match it.next() {
        Some(Event::SignWith(..)) => {}
        e => return Err(format!("the first call is {:?}", e)),
    }
    let mut out = match it.next() {
        Some(Event::Method(m)) => format!("{}&", m),
        e => return Err(format!("after the secrets comes {:?}", e)),
    };
    match it.next() {
        Some(Event::Uri(u)) => out.push_str(&format!("{}&", u)),
        e => return Err(format!("after the request method comes {:?}", e)),
    }
    let mut ended = false;
    for e in it {
        if ended {
            return Err(format!("{:?} after the end", e));
        }
        let (k, v) = match e {
            Event::Param(k, v) => {
                if let Some(i) = crate::gen::PROTOCOL.iter().position(|p| p == k) {
                    if overridden[i] {
                        return Err(format!("{} is not fed through its own callback", k));
                    }
                }
                (&**k, v.clone())
            }
            Event::Delimiter => {
                out.push_str("%26");
                continue;
            }
            Event::Callback(v) => ("oauth_callback", v.clone()),
            Event::ConsumerKey(v) => ("oauth_consumer_key", v.clone()),
            Event::Nonce(v) => ("oauth_nonce", v.clone()),
            Event::SignatureMethod => ("oauth_signature_method", config.name().to_string()),
            Event::Timestamp(v) => ("oauth_timestamp", v.to_string()),
            Event::Token(v) => ("oauth_token", v.clone()),
            Event::Verifier(v) => ("oauth_verifier", v.clone()),
            Event::Version => ("oauth_version", "1.0".to_string()),
            Event::End => {
                ended = true;
                continue;
            }
            e => return Err(format!("unexpected {:?}", e)),
        };
        out.push_str(k);
        out.push_str("%3D");
        out.push_str(&v);
    }
    if !ended {
        return Err("never finalised".into());
    }
    Ok(out)
}
