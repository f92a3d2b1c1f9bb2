use binread::io::ErrorKind::*;
use mc::explore::*;
use mc::schema::Starts;
const EVERY: [binread::io::ErrorKind; 26] = [NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Other, UnexpectedEof, Unsupported, OutOfMemory, HostUnreachable, NetworkDown, StorageFull, NotSeekable, ResourceBusy, Deadlock, FileTooLarge];
mc::check_fn!(main, "C05", "flow", [
    Cfg { name: "bad byte", fault: Fault::BadByte(&[Other, PermissionDenied, UnexpectedEof]), lengths: false, ..CFG },
    Cfg { name: "bad byte, truncated", fault: Fault::BadByte(&[TimedOut]), starts: Some(Starts::Zero), ..CFG },
    Cfg { name: "every kind of failure", one_entry: true, longest: 24, fault: Fault::BadByte(&EVERY), lengths: false, starts: Some(Starts::Zero), ..CFG },
    Cfg { name: "one failing call", one_entry: true, longest: 20, fault: Fault::Calls(1, if mc::report::thorough() { &[Other, UnexpectedEof, InvalidData] } else { &[Other, UnexpectedEof] }), ..CFG },
    Cfg { name: "two failing calls", core: true, fault: Fault::Calls(2, &[Other]), starts: Some(Starts::Zero), ..CFG },
], mc::large::failing);
