use binread::io::ErrorKind::*;
use mc::explore::*;
use mc::schema::Starts;
mc::check!("C01", "flow", [
    Cfg { name: "inputs", judge: Judge::Rewind, starts: Some(Starts::All), ..CFG },
    Cfg { name: "bad byte", judge: Judge::Rewind, fault: Fault::BadByte(&[Other]), ..CFG },
    Cfg { name: "one failing call", judge: Judge::Rewind, fault: Fault::Calls(1, &[Other]), ..CFG },
    Cfg { name: "two failing calls", core: true, judge: Judge::Rewind, fault: Fault::Calls(2, &[Other]), starts: Some(if mc::report::thorough() { Starts::Few } else { Starts::Zero }), ..CFG },
]);
