mc::check!("C02", "c02", [mc::explore::Cfg { name: "inputs", ..mc::explore::CFG }, mc::explore::FAILING]);
