fn main() { rqv::runner::main(&contracts_time::registry()); }
