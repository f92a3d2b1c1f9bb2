mc::check!("C06", "c06", [mc::explore::Cfg { full_magic: true, ..mc::explore::CFG }, mc::explore::FAILING1]);
