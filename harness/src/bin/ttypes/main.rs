#![recursion_limit = "512"]
#![allow(clippy::all)]
mod c_derived;
mod c_input;
mod types;

fn main() {
    tt_harness::main(|check, rest| match check {
        "C01" => c_derived::written("C01", rest),
        "C02" => c_derived::written("C02", rest),
        "C03" => c_derived::written("C03", rest),
        "C04" => c_derived::round_trips("C04", rest),
        "C05" => c_derived::round_trips("C05", rest),
        "C06" => c_derived::order(rest),
        "C20" => c_derived::requests(rest),
        "C15" => c_input::run(rest),
        a => panic!("unknown check {}", a),
    })
}
