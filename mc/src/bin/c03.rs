mc::check!("C03", "c03", [mc::explore::CFG, mc::explore::Cfg { longest: 12, ..mc::explore::FAILING1 }]);
