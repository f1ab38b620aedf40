fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).is_some_and(|x| x == "observe") {
        return mcheck::feat::serve();
    }
    #[cfg(feature = "full")]
    if a.get(1).is_some_and(|x| x == "genmodels") {
        // the source of the models' crate
        print!("{}", mcheck::genmodel::write(a[2].parse().unwrap(), a[3].parse().unwrap()));
        return;
    }
    std::process::exit(mcheck::engine::main(mcheck::props::all()));
}
