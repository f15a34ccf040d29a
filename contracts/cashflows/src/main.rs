fn main() { rqv::runner::main(&contracts_cashflows::registry()); }
