//! The part of the harness's core that demonstrations need
#[derive(Debug, Clone)]
pub enum Stop {
    Viol { sig: String, msg: String },
    Inconc(String),
}
pub type R<T = ()> = Result<T, Stop>;
pub fn viol<T>(sig: &str, msg: impl Into<String>) -> R<T> {
    Err(Stop::Viol { sig: sig.to_string(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($a:tt)*) => {
        if !$c {
            return Err($crate::core::Stop::Viol { sig: $sig.to_string(), msg: format!($($a)*) });
        }
    };
}
#[macro_export]
macro_rules! bail {
    ($sig:expr, $($a:tt)*) => {
        return Err($crate::core::Stop::Viol { sig: $sig.to_string(), msg: format!($($a)*) })
    };
}
pub struct Sc {
    pub idx: u64,
}
