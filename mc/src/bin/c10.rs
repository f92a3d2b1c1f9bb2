mc::check!("C10", "c10", [mc::explore::CFG, mc::explore::FAILING]);
