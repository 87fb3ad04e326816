use crate::ctx::Prop;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;
pub mod c31;

pub fn get(id: &str) -> Option<Prop> {
    Some(match id {
        "C01" => c01::prop(),
        "C02" => c02::prop(),
        "C03" => c03::prop(),
        "C04" => c04::prop(),
        "C05" => c05::prop(),
        "C06" => c06::prop(),
        "C07" => c07::prop(),
        "C08" => c08::prop(),
        "C09" => c09::prop(),
        "C10" => c10::prop(),
        "C11" => c11::prop(),
        "C12" => c12::prop(),
        "C13" => c13::prop(),
        "C14" => c14::prop(),
        "C15" => c15::prop(),
        "C16" => c16::prop(),
        "C17" => c17::prop(),
        "C18" => c18::prop(),
        "C19" => c19::prop(),
        "C20" => c20::prop(),
        "C21" => c21::prop(),
        "C22" => c22::prop(),
        "C23" => c23::prop(),
        "C24" => c24::prop(),
        "C25" => c25::prop(),
        "C26" => c26::prop(),
        "C27" => c27::prop(),
        "C28" => c28::prop(),
        "C29" => c29::prop(),
        "C30" => c30::prop(),
        "C31" => c31::prop(),
        _ => return None,
    })
}
pub fn all() -> Vec<&'static str> {
    vec!["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31"]
}
