mc::check!("C07", "c07", [mc::explore::CFG, mc::explore::FAILING]);
