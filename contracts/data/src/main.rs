fn main() { rqv::runner::main(&contracts_data::registry()); }
