mc::check!("C16", "c16", [mc::explore::CFG, if mc::report::thorough() { mc::explore::FAILING } else { mc::explore::Cfg { longest: 18, ..mc::explore::FAILING1 } }]);
