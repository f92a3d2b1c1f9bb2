mc::check!("C15", "c15", [mc::explore::CFG, mc::explore::FAILING]);
