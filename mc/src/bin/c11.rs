mc::check!("C11", "c11", [mc::explore::CFG, mc::explore::FAILING]);
