fn main() {
    pcv::cli::main(pcv::checks::groups);
}
