fn main() { rqv::runner::main(&contracts_instruments::registry()); }
