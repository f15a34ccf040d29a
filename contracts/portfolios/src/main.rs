fn main() { rqv::runner::main(&contracts_portfolios::registry()); }
