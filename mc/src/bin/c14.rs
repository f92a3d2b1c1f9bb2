mc::check!("C14", "c14", [mc::explore::CFG, mc::explore::FAILING]);
