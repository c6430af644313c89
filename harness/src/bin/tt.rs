use tt_harness::*;

fn main() {
    tt_harness::main(|check, rest| match check {
        "C01" => c_ser::run("C01", rest),
        "C02" => c_ser::run("C02", rest),
        "C03" => c_ser::run("C03", rest),
        "C04" => c_rt::run("C04", rest),
        "C05" => c_rt::run("C05", rest),
        "C06" => c_perm::run(rest),
        "C08" => c_dup::run(rest),
        "C09" => c_env::run(rest),
        "C10" => c_tag::run10(rest),
        "C11" => c_tag::run11(rest),
        "C12" => c_fault::run(rest),
        "C13" => c_race::run(rest),
        "C20" => c_req::run(rest),
        "C21" => c_hist::run(rest),
        a => panic!("unknown check {}", a),
    })
}
