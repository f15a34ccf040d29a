fn main() { rqv::runner::main(&contracts_trading::registry()); }
