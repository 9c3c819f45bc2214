use crate::core::Fam;

mod c01;
mod c02;
mod c03;
mod c04;
pub mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c24;
mod c25;
mod c26;
#[cfg(feature = "enc")]
mod c20;
#[cfg(feature = "enc")]
mod c21;
#[cfg(feature = "enc")]
mod c22;
#[cfg(feature = "enc")]
mod c23;
#[cfg(feature = "enc")]
mod tap;

pub fn config_name() -> &'static str {
    if cfg!(feature = "full") {
        "full"
    } else if cfg!(all(feature = "bin", feature = "pst", feature = "jsn")) {
        "bpj"
    } else if cfg!(all(feature = "pst", feature = "jsn")) {
        "pj"
    } else if cfg!(feature = "rmp") {
        "rmp"
    } else if cfg!(feature = "bin") {
        "bin"
    } else if cfg!(feature = "pst") {
        "pst"
    } else if cfg!(feature = "jsn") {
        "jsn"
    } else {
        "plain"
    }
}

pub fn families(p: &str) -> Vec<Fam> {
    match p {
        "C01" => c01::fams(),
        "C02" => c02::fams(),
        "C03" => c03::fams(),
        "C04" => c04::fams(),
        "C05" => c05::fams(),
        "C06" => c06::fams(),
        "C07" => c07::fams(),
        "C08" => c08::fams(),
        "C09" => c09::fams(),
        "C10" => c10::fams(),
        "C11" => c11::fams(),
        "C12" => c12::fams(),
        "C13" => c13::fams(),
        "C14" => c14::fams(),
        "C15" => c15::fams(),
        "C16" => c16::fams(),
        "C17" => c17::fams(),
        "C18" => c18::fams(),
        "C19" => c19::fams(),
        #[cfg(feature = "enc")]
        "C20" => c20::fams(),
        #[cfg(feature = "enc")]
        "C21" => c21::fams(),
        #[cfg(feature = "enc")]
        "C22" => c22::fams(),
        #[cfg(feature = "enc")]
        "C23" => c23::fams(),
        "C24" => c24::fams(),
        "C25" => c25::fams(),
        "C26" => c26::fams(),
        _ => vec![],
    }
}
