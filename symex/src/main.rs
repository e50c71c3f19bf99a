fn main() {
    symex::cli(symex::harness::all());
}
