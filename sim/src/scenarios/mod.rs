use crate::runner::Scenario;
mod c01;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c17;
mod c18;
mod c20;
mod c21;
mod cluster;
pub fn find(p: &str) -> Option<Scenario> {
    Some(match p {
        "C01" => c01::run,
        "C02" => cluster::c02,
        "C03" => c03::run,
        "C04" => c04::run,
        "C05" => c05::run,
        "C06" => c06::run,
        "C07" => c07::run,
        "C08" => c08::run,
        "C09" => c09::run,
        "C10" => c10::run,
        "C11" => c11::run,
        "C13" => c13::run,
        "C12" => c12::run,
        "C14" => cluster::c14,
        "C17" => c17::run,
        "C18" => c18::run,
        "C20" => c20::run,
        "C21" => c21::run,
        _ => return None,
    })
}
