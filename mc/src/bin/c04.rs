use mc::explore::*;
use mc::schema::Starts;
use mc::sess::Chunks;
mc::check_fn!(main, "C04", "flow", [
    Cfg { name: "chunked", judge: Judge::Chunk, chunks: &[Chunks::Bytewise, Chunks::InterruptEach, Chunks::HalfThenRest], ..CFG },
    Cfg { name: "one deviation", judge: Judge::Chunk, devs: 1, ..CFG },
    Cfg { name: "two deviations", core: true, judge: Judge::Chunk, devs: 2, lengths: mc::report::thorough(), starts: Some(Starts::Zero), ..CFG },
    Cfg { name: "bad byte, chunked", judge: Judge::Chunk, fault: Fault::BadByte(&[binread::io::ErrorKind::Other]), chunks: &[Chunks::Bytewise, Chunks::InterruptEach], lengths: false, starts: Some(Starts::Zero), ..CFG },
], mc::large::chunked);
