mc::check!("C08", "c08", [mc::explore::Cfg { full_magic: true, ..mc::explore::CFG }, mc::explore::FAILING1]);
