fn main() { rqv::runner::main(&contracts_ml::registry()); }
